package model

import (
	"encoding/binary"
	"errors"
)

func AppendVarint(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

// AppendVarintPad appends x using extra continuation bytes (non-minimal form), at most 10 bytes.
func AppendVarintPad(b []byte, x uint64, extra int) []byte {
	n := 1
	for y := x; y >= 0x80; y >>= 7 {
		n++
	}
	t := n + extra
	if t > 10 {
		t = 10
	}
	for i := 1; i < t; i++ {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func AppendTag(b []byte, num int32, w int) []byte {
	return AppendVarint(b, uint64(num)<<3|uint64(w))
}

func AppendLen(b, p []byte) []byte {
	b = AppendVarint(b, uint64(len(p)))
	return append(b, p...)
}

// wireU64 is the varint payload of a varint-coded scalar.
func wireU64(k Kind, x uint64) uint64 {
	switch k {
	case Int32:
		return uint64(int64(int32(x)))
	case Sint32:
		i := int32(x)
		return uint64(uint32(i<<1) ^ uint32(i>>31))
	case Sint64:
		i := int64(x)
		return uint64(i<<1) ^ uint64(i>>63)
	}
	return x
}

func AppendScalar(b []byte, k Kind, x any) []byte {
	switch k.Wire() {
	case WVarint:
		return AppendVarint(b, wireU64(k, x.(uint64)))
	case WI32:
		return binary.LittleEndian.AppendUint32(b, uint32(x.(uint64)))
	case WI64:
		return binary.LittleEndian.AppendUint64(b, x.(uint64))
	}
	return AppendLen(b, []byte(x.(string)))
}

// Encode is the canonical reference encoding (fields by number, map keys sorted,
// packed as declared, unknown bytes last).
func (m *Msg) Encode(v *MV) []byte { return m.appendTo(nil, v) }

func (m *Msg) appendTo(b []byte, v *MV) []byte {
	el := func(b []byte, f *Field, num int32, x any) []byte {
		b = AppendTag(b, num, f.Kind.Wire())
		if f.Kind == Message {
			return AppendLen(b, f.Msg.appendTo(nil, x.(*MV)))
		}
		return AppendScalar(b, f.Kind, x)
	}
	for _, f := range m.Fields {
		x, ok := v.F[f.Num]
		if !ok {
			continue
		}
		switch f.Card {
		case Repeated:
			if f.Packed {
				var c []byte
				for _, e := range x.([]any) {
					c = AppendScalar(c, f.Kind, e)
				}
				b = AppendLen(AppendTag(b, f.Num, WLen), c)
				continue
			}
			for _, e := range x.([]any) {
				b = el(b, f, f.Num, e)
			}
		case Map:
			mm := x.(map[any]any)
			for _, k := range SortedKeys(mm) {
				e := AppendScalar(AppendTag(nil, 1, f.Key.Wire()), f.Key, k)
				e = el(e, f, 2, mm[k])
				b = AppendLen(AppendTag(b, f.Num, WLen), e)
			}
		default:
			b = el(b, f, f.Num, x)
		}
	}
	return append(b, v.Unk...)
}

// ---- records and strict parsing

var (
	ErrTrunc  = errors.New("truncated")
	ErrVarint = errors.New("varint over 64 bits")
	ErrNum    = errors.New("field number")
	ErrWire   = errors.New("wire type")
	ErrGroup  = errors.New("group")
	// ErrGrey: parsers legitimately differ on it (field numbers out of range within
	// unknown groups are skipped by the official Go runtime)
	ErrGrey = errors.New("unspecified")
)

// Uvarint parses strictly: at most 10 bytes, value within 64 bits.
func Uvarint(b []byte) (x uint64, n int, err error) {
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0, ErrTrunc
		}
		c := b[i]
		if i == 9 && c > 1 {
			return 0, 0, ErrVarint
		}
		x |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			return x, i + 1, nil
		}
	}
	return 0, 0, ErrVarint
}

type Rec struct {
	Num     int32
	Wire    int
	Raw     []byte // tag + value
	Payload []byte // value bytes; for LEN the content
	U       uint64 // varint / fixed value
}

// Next parses one record.
func Next(b []byte) (r Rec, n int, err error) { return next(b, 0) }

const maxGroup = 10000

func next(b []byte, depth int) (r Rec, n int, err error) {
	t, n, err := Uvarint(b)
	if err != nil {
		return r, 0, err
	}
	num := t >> 3
	if num < 1 || num > 1<<29-1 {
		if depth > 0 && num > 1<<29-1 && num < 1<<31 {
			return r, 0, ErrGrey
		}
		return r, 0, ErrNum
	}
	r.Num, r.Wire = int32(num), int(t&7)
	v := b[n:]
	m := 0
	switch r.Wire {
	case WVarint:
		r.U, m, err = Uvarint(v)
		if err != nil {
			return r, 0, err
		}
	case WI32:
		if len(v) < 4 {
			return r, 0, ErrTrunc
		}
		m, r.U = 4, uint64(binary.LittleEndian.Uint32(v))
	case WI64:
		if len(v) < 8 {
			return r, 0, ErrTrunc
		}
		m, r.U = 8, binary.LittleEndian.Uint64(v)
	case WLen:
		l, k, err := Uvarint(v)
		if err != nil {
			return r, 0, err
		}
		if l > uint64(len(v)-k) {
			return r, 0, ErrTrunc
		}
		m = k + int(l)
		r.Payload = v[k:m]
	case WSGroup:
		if depth >= maxGroup {
			return r, 0, ErrGroup
		}
		for {
			s, k, err := next(v[m:], depth+1)
			if err == errEndGroup {
				m += k
				if s.Num != r.Num {
					return r, 0, ErrGroup
				}
				break
			}
			if err != nil {
				return r, 0, err
			}
			m += k
		}
	case WEGroup:
		return r, n, errEndGroup
	default:
		return r, 0, ErrWire
	}
	if r.Payload == nil {
		r.Payload = v[:m]
	}
	r.Raw = b[:n+m]
	return r, n + m, nil
}

var errEndGroup = errors.New("unexpected end of group")

// Records splits a message into its records.
func Records(b []byte) ([]Rec, error) {
	var out []Rec
	for len(b) > 0 {
		r, n, err := Next(b)
		if err != nil {
			return out, err
		}
		out = append(out, r)
		b = b[n:]
	}
	return out, nil
}

// ErrMismatch marks well-formed input where a known field has a wire type that cannot be its own.
var ErrMismatch = errors.New("wire type mismatch of a known field")

// Validate parses b strictly against m. It returns nil, ErrMismatch (well-formed apart from
// wire type mismatches) or another error. Message depth is not limited.
func (m *Msg) Validate(b []byte) error {
	var mism error
	for len(b) > 0 {
		r, n, err := Next(b)
		if err != nil {
			return err
		}
		b = b[n:]
		f := m.ByNum[r.Num]
		if f == nil {
			continue
		}
		if err := f.validate(r); err == ErrMismatch {
			mism = err
		} else if err != nil {
			return err
		}
	}
	return mism
}

func (f *Field) validate(r Rec) error {
	if f.Card == Map {
		if r.Wire != WLen {
			return ErrMismatch
		}
		var mism error
		b := r.Payload
		for len(b) > 0 {
			e, n, err := Next(b)
			if err != nil {
				return err
			}
			b = b[n:]
			switch e.Num {
			case 1:
				if e.Wire != f.Key.Wire() {
					mism = ErrMismatch
				}
			case 2:
				if e.Wire != f.Kind.Wire() {
					mism = ErrMismatch
				} else if f.Kind == Message {
					if err := f.Msg.Validate(e.Payload); err == ErrMismatch {
						mism = err
					} else if err != nil {
						return err
					}
				}
			}
		}
		return mism
	}
	if f.Card == Repeated && f.Kind.Packable() && r.Wire == WLen {
		return validPacked(f.Kind, r.Payload)
	}
	if r.Wire != f.Kind.Wire() {
		return ErrMismatch
	}
	if f.Kind == Message {
		return f.Msg.Validate(r.Payload)
	}
	return nil
}

func validPacked(k Kind, b []byte) error {
	switch k.Wire() {
	case WI32:
		if len(b)%4 != 0 {
			return ErrTrunc
		}
		return nil
	case WI64:
		if len(b)%8 != 0 {
			return ErrTrunc
		}
		return nil
	}
	for len(b) > 0 {
		_, n, err := Uvarint(b)
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// Decode is the reference decoder, merging b into v (protobuf merge rules, but unknown
// bytes are appended per message and known fields with mismatching wire types are kept as unknown).
// mergeMsg selects official merging of singular messages.
func (m *Msg) Decode(b []byte, v *MV) error {
	for len(b) > 0 {
		r, n, err := Next(b)
		if err != nil {
			return err
		}
		b = b[n:]
		f := m.ByNum[r.Num]
		if f == nil {
			v.Unk = append(v.Unk, r.Raw...)
			continue
		}
		if err := f.validate(r); err == ErrMismatch && (r.Wire != f.Kind.Wire()) {
			v.Unk = append(v.Unk, r.Raw...)
			continue
		} else if err != nil && err != ErrMismatch {
			return err
		}
		if f.Oneof > 0 {
			for _, o := range m.Fields {
				if o.Oneof == f.Oneof && o != f {
					delete(v.F, o.Num)
				}
			}
		}
		switch f.Card {
		case Repeated:
			l, _ := v.F[f.Num].([]any)
			if f.Kind.Packable() && r.Wire == WLen {
				p := r.Payload
				for len(p) > 0 {
					var x any
					x, p = takeScalar(f.Kind, p)
					l = append(l, x)
				}
			} else if f.Kind == Message {
				e := NewMV()
				if err := f.Msg.Decode(r.Payload, e); err != nil {
					return err
				}
				l = append(l, e)
			} else {
				l = append(l, scalarOf(f.Kind, r))
			}
			if len(l) > 0 {
				v.F[f.Num] = l
			}
		case Map:
			mm, _ := v.F[f.Num].(map[any]any)
			if mm == nil {
				mm = map[any]any{}
			}
			k := ZeroScalar(f.Key)
			var x any = ZeroScalar(f.Kind)
			if f.Kind == Message {
				x = NewMV()
			}
			recs, err := Records(r.Payload)
			if err != nil {
				return err
			}
			for _, e := range recs {
				switch {
				case e.Num == 1 && e.Wire == f.Key.Wire():
					k = scalarOf(f.Key, e)
				case e.Num == 2 && e.Wire == f.Kind.Wire():
					if f.Kind == Message {
						if err := f.Msg.Decode(e.Payload, x.(*MV)); err != nil {
							return err
						}
					} else {
						x = scalarOf(f.Kind, e)
					}
				}
			}
			mm[k] = x
			v.F[f.Num] = mm
		default:
			if f.Kind == Message {
				e, _ := v.F[f.Num].(*MV)
				if e == nil {
					e = NewMV()
				}
				if err := f.Msg.Decode(r.Payload, e); err != nil {
					return err
				}
				v.F[f.Num] = e
			} else {
				v.F[f.Num] = scalarOf(f.Kind, r)
			}
		}
	}
	return nil
}

func takeScalar(k Kind, p []byte) (any, []byte) {
	switch k.Wire() {
	case WI32:
		return uint64(binary.LittleEndian.Uint32(p)), p[4:]
	case WI64:
		return binary.LittleEndian.Uint64(p), p[8:]
	}
	x, n, _ := Uvarint(p)
	return fromVarint(k, x), p[n:]
}

func fromVarint(k Kind, x uint64) any {
	switch k {
	case Bool:
		if x != 0 {
			return uint64(1)
		}
		return uint64(0)
	case Int32, Uint32:
		return uint64(uint32(x))
	case Sint32:
		u := uint32(x)
		return uint64(u>>1 ^ -(u & 1))
	case Sint64:
		return x>>1 ^ -(x & 1)
	}
	return x
}

func scalarOf(k Kind, r Rec) any {
	switch k.Wire() {
	case WVarint:
		return fromVarint(k, r.U)
	case WLen:
		return string(r.Payload)
	}
	return r.U
}

// ---- unknown fields

// GenUnknown makes n random records with field numbers m does not know.
func (m *Msg) GenUnknown(r *Rng, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, m.unknownRec(r, 3)...)
	}
	return b
}

func (m *Msg) unknownNum(r *Rng) int32 {
	for {
		var n int32
		switch r.N(5) {
		case 0:
			n = int32(1 + r.N(20))
		case 1:
			n = []int32{15, 16, 17, 999, 1000, 1001, 1002, 2047, 2048, 18999, 19000, 20000, 1<<29 - 1, 1<<29 - 2, 1 << 28, 268435455}[r.N(16)]
		case 2: // neighbour of a known number
			if len(m.Fields) > 0 {
				n = m.Fields[r.N(len(m.Fields))].Num + int32(r.N(3)) - 1
			}
		default:
			n = int32(1 + r.N(1<<29-1))
		}
		if n < 1 || n > 1<<29-1 || m.ByNum[n] != nil {
			continue
		}
		return n
	}
}

func (m *Msg) unknownRec(r *Rng, depth int) []byte {
	return rawRec(r, m.unknownNum(r), depth)
}

func rawRec(r *Rng, num int32, depth int) []byte {
	w := r.Pick(WVarint, WI64, WLen, WI32, WLen, WVarint)
	if depth > 0 && r.P(12) {
		w = WSGroup
	}
	tag := func(b []byte, w int) []byte {
		if r.P(6) {
			return AppendVarintPad(b, uint64(num)<<3|uint64(w), 1+r.N(4))
		}
		return AppendTag(b, num, w)
	}
	b := tag(nil, w)
	switch w {
	case WVarint:
		x := GenScalar(r, Uint64, false).(uint64)
		if r.P(10) {
			return AppendVarintPad(b, x, 1+r.N(3))
		}
		return AppendVarint(b, x)
	case WI64:
		return append(b, r.Bytes(8)...)
	case WI32:
		return append(b, r.Bytes(4)...)
	case WLen:
		return AppendLen(b, r.Bytes(r.Pick(0, 1, 2, 5, 16, 127, 128, 200)))
	}
	for i := r.N(4); i > 0; i-- {
		b = append(b, rawRec(r, int32(1+r.N(40)), depth-1)...)
	}
	return tag(b, WEGroup)
}

// FreeNum is a field number m does not know.
func (m *Msg) FreeNum() int32 {
	for n := int32(1); ; n++ {
		if m.ByNum[n] == nil {
			return n
		}
	}
}

// RawRec is one record of a field no schema describes.
func RawRec(r *Rng, num int32) []byte { return rawRec(r, num, 2) }
