package model

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// Values:
//
//	numeric scalars: uint64 bit pattern (32-bit kinds zero extended, bool 0/1)
//	string, bytes:   string
//	message:         *MV
//	repeated:        []any
//	map:             map[any]any
//
// F holds a field iff it is set: presence-less scalars iff non-zero,
// lists and maps iff not empty, by-value messages iff not empty.
type MV struct {
	F   map[int32]any
	Unk []byte
}

func NewMV() *MV { return &MV{F: map[int32]any{}} }

func (v *MV) Empty() bool { return len(v.F) == 0 && len(v.Unk) == 0 }

func ZeroScalar(k Kind) any {
	if k == String || k == Bytes {
		return ""
	}
	return uint64(0)
}

func IsZero(x any) bool {
	switch x := x.(type) {
	case uint64:
		return x == 0
	case string:
		return x == ""
	}
	return false
}

// Norm applies the absent/zero equivalences in place: presence-less zero scalars,
// empty lists/maps and empty by-value messages are absent.
func (m *Msg) Norm(v *MV) *MV {
	for n, x := range v.F {
		f := m.ByNum[n]
		if f == nil {
			continue
		}
		switch f.Card {
		case Repeated:
			l := x.([]any)
			if len(l) == 0 {
				delete(v.F, n)
			} else if f.Kind == Message {
				for _, e := range l {
					f.Msg.Norm(e.(*MV))
				}
			}
		case Map:
			mm := x.(map[any]any)
			if len(mm) == 0 {
				delete(v.F, n)
			} else if f.Kind == Message {
				for _, e := range mm {
					f.Msg.Norm(e.(*MV))
				}
			}
		default:
			if f.Kind == Message {
				mv := f.Msg.Norm(x.(*MV))
				if f.ByValue && f.Oneof == 0 && mv.Empty() {
					delete(v.F, n)
				}
			} else if (f.Card == Implicit) && IsZero(x) {
				delete(v.F, n)
			}
		}
	}
	return v
}

// DropUnknown removes unknown bytes from messages without a slot (or all).
func (m *Msg) DropUnknown(v *MV, all bool) *MV {
	if all || m.Unknown == UnknownNone {
		v.Unk = nil
	}
	for n, x := range v.F {
		f := m.ByNum[n]
		if f == nil || f.Kind != Message {
			continue
		}
		switch x := x.(type) {
		case *MV:
			f.Msg.DropUnknown(x, all)
		case []any:
			for _, e := range x {
				f.Msg.DropUnknown(e.(*MV), all)
			}
		case map[any]any:
			for _, e := range x {
				f.Msg.DropUnknown(e.(*MV), all)
			}
		}
	}
	return v
}

func Clone(x any) any {
	switch x := x.(type) {
	case *MV:
		n := NewMV()
		n.Unk = append([]byte(nil), x.Unk...)
		for k, e := range x.F {
			n.F[k] = Clone(e)
		}
		return n
	case []any:
		n := make([]any, len(x))
		for i := range x {
			n[i] = Clone(x[i])
		}
		return n
	case map[any]any:
		n := make(map[any]any, len(x))
		for k, e := range x {
			n[k] = Clone(e)
		}
		return n
	}
	return x
}

func (v *MV) Clone() *MV { return Clone(v).(*MV) }

// Diff returns "" if a and b are equal, or a description of the first difference.
func Diff(a, b any) string { return diff("", a, b) }

func short(x any) string {
	s := fmt.Sprintf("%T:", x)
	switch x := x.(type) {
	case uint64:
		s = fmt.Sprintf("%#x", x)
	case string:
		s = fmt.Sprintf("%q", x)
	case *MV:
		s = Dump(x)
	case []any:
		s = fmt.Sprintf("list(%d)", len(x))
	case map[any]any:
		s = fmt.Sprintf("map(%d)", len(x))
	case nil:
		s = "<absent>"
	}
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func diff(path string, a, b any) string {
	bad := func() string { return fmt.Sprintf("%s: want %s got %s", path, short(a), short(b)) }
	switch a := a.(type) {
	case *MV:
		b, ok := b.(*MV)
		if !ok {
			return bad()
		}
		for _, n := range sortedNums(a.F, b.F) {
			x, okx := a.F[n]
			y, oky := b.F[n]
			if !okx {
				x = nil
			}
			if !oky {
				y = nil
			}
			if !okx || !oky {
				return fmt.Sprintf("%s.%d: want %s got %s", path, n, short(x), short(y))
			}
			if d := diff(fmt.Sprintf("%s.%d", path, n), x, y); d != "" {
				return d
			}
		}
		if !bytes.Equal(a.Unk, b.Unk) {
			return fmt.Sprintf("%s.unknown: want %x got %x", path, cut(a.Unk), cut(b.Unk))
		}
		return ""
	case []any:
		b, ok := b.([]any)
		if !ok || len(a) != len(b) {
			return bad()
		}
		for i := range a {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a[i], b[i]); d != "" {
				return d
			}
		}
		return ""
	case map[any]any:
		b, ok := b.(map[any]any)
		if !ok || len(a) != len(b) {
			return bad()
		}
		for k, x := range a {
			y, ok := b[k]
			if !ok {
				return fmt.Sprintf("%s[%s]: missing", path, short(k))
			}
			if d := diff(fmt.Sprintf("%s[%s]", path, short(k)), x, y); d != "" {
				return d
			}
		}
		return ""
	}
	if a != b {
		return bad()
	}
	return ""
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func sortedNums(ms ...map[int32]any) []int32 {
	seen := map[int32]bool{}
	var out []int32
	for _, m := range ms {
		for n := range m {
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// keyLess gives map keys a fixed order.
func keyLess(a, b any) bool {
	if x, ok := a.(uint64); ok {
		return x < b.(uint64)
	}
	return a.(string) < b.(string)
}

func SortedKeys(m map[any]any) []any {
	ks := make([]any, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
	return ks
}

// Dump writes a value in a canonical text form.
func Dump(x any) string {
	var sb strings.Builder
	dump(&sb, x)
	return sb.String()
}

func dump(sb *strings.Builder, x any) {
	switch x := x.(type) {
	case *MV:
		sb.WriteByte('{')
		for _, n := range sortedNums(x.F) {
			fmt.Fprintf(sb, "%d:", n)
			dump(sb, x.F[n])
			sb.WriteByte(' ')
		}
		if len(x.Unk) > 0 {
			fmt.Fprintf(sb, "?%x", x.Unk)
		}
		sb.WriteByte('}')
	case []any:
		sb.WriteByte('[')
		for _, e := range x {
			dump(sb, e)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case map[any]any:
		sb.WriteByte('<')
		for _, k := range SortedKeys(x) {
			dump(sb, k)
			sb.WriteByte('=')
			dump(sb, x[k])
			sb.WriteByte(' ')
		}
		sb.WriteByte('>')
	case uint64:
		fmt.Fprintf(sb, "%x", x)
	case string:
		fmt.Fprintf(sb, "%q", x)
	}
}

// Count counts leaves, used for non-triviality.
func Count(x any) int {
	n := 0
	switch x := x.(type) {
	case *MV:
		for _, e := range x.F {
			n += 1 + Count(e)
		}
		if len(x.Unk) > 0 {
			n++
		}
	case []any:
		for _, e := range x {
			n += Count(e)
		}
	case map[any]any:
		for _, e := range x {
			n += 1 + Count(e)
		}
	default:
		n = 1
	}
	return n
}

// GenOpts controls random values.
type GenOpts struct {
	Depth   int // remaining message depth
	Budget  *int
	SetPct  int // probability that a field is set
	Unknown bool
	Big     bool // allow long strings / lists
}

var varintEdges = []uint64{1, 2, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42, 1<<49 - 1, 1 << 49, 1<<56 - 1, 1 << 56, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 128, 1<<64 - 129}

func GenScalar(r *Rng, k Kind, big bool) any {
	switch k {
	case Bool:
		return uint64(r.N(2))
	case String, Bytes:
		n := r.Pick(0, 0, 1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 31, 63, 64)
		if big {
			n = r.Pick(n, n, n, 100, 126, 127, 128, 129, 200, 255, 256, 1000, 1023, 1024, 1025, 2000)
			if r.P(2) {
				n = r.Pick(4095, 4096, 4097, 8191, 16383, 16384, 16385, 20000)
			}
		}
		b := r.Bytes(n)
		if k == String && r.P(50) {
			for i := range b {
				b[i] = 'a' + b[i]%26
			}
		}
		return string(b)
	}
	var x uint64
	switch r.N(6) {
	case 0:
		x = 0
	case 1, 2:
		x = varintEdges[r.N(len(varintEdges))]
	case 3:
		x = -varintEdges[r.N(len(varintEdges))]
	case 4:
		x = r.U64() >> uint(r.N(64))
	case 5:
		x = r.U64()
	}
	switch k {
	case Float:
		if r.P(40) {
			x = []uint64{0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x3f800000, 0xbf800000, 0x7fc00001, 0x7f7fffff}[r.N(9)]
		}
	case Double:
		if r.P(40) {
			x = []uint64{0x8000000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x3ff0000000000000, 0x7ff8000000000001, 0x7fefffffffffffff}[r.N(8)]
		}
	}
	if k.Is32() {
		x = uint64(uint32(x))
	}
	if k == Float && x&0x7f800000 == 0x7f800000 && x&0x7fffff != 0 {
		x |= 0x400000 // quiet NaN: float conversions may quieten signalling ones
	}
	return x
}

func nonZero(r *Rng, k Kind, big bool) any {
	for {
		if x := GenScalar(r, k, big); !IsZero(x) {
			return x
		}
	}
}

// Gen makes a random value of m.
func (m *Msg) Gen(r *Rng, o GenOpts) *MV {
	v := NewMV()
	if o.Depth <= 0 || *o.Budget <= 0 {
		return v
	}
	o.Depth--
	oneofs := make([][]*Field, m.Oneofs+1)
	set := func(f *Field) {
		*o.Budget--
		switch f.Card {
		case Repeated:
			n := r.Pick(1, 1, 2, 3, 4, 7, 8, 9)
			if o.Big && f.Kind != Message {
				n = r.Pick(n, n, n, 16, 17, 33, 64, 127, 128, 130)
			}
			if n > *o.Budget && n > 3 {
				n = 3
			}
			l := make([]any, n)
			for i := range l {
				*o.Budget--
				if f.Kind == Message {
					l[i] = f.Msg.Gen(r, o)
				} else {
					l[i] = GenScalar(r, f.Kind, o.Big && n < 5)
				}
			}
			v.F[f.Num] = l
		case Map:
			n := r.Pick(1, 1, 2, 3, 4, 8, 9)
			if o.Big && f.Kind != Message {
				n = r.Pick(n, n, 15, 17, 30)
			}
			if n > *o.Budget && n > 3 {
				n = 3
			}
			mm := map[any]any{}
			for i := 0; i < n; i++ {
				*o.Budget--
				k := GenScalar(r, f.Key, o.Big && n < 3)
				if f.Kind == Message {
					mm[k] = f.Msg.Gen(r, o)
				} else {
					mm[k] = GenScalar(r, f.Kind, o.Big && n < 3)
				}
			}
			v.F[f.Num] = mm
		default:
			if f.Kind == Message {
				if f.ByValue && f.Oneof == 0 {
					x := f.Msg.Gen(r, o)
					if !x.Empty() {
						v.F[f.Num] = x
					}
				} else {
					v.F[f.Num] = f.Msg.Gen(r, o)
				}
			} else if f.Card == Implicit {
				v.F[f.Num] = nonZero(r, f.Kind, o.Big)
			} else {
				v.F[f.Num] = GenScalar(r, f.Kind, o.Big)
			}
		}
	}
	order := make([]int, len(m.Fields))
	for i := range order {
		order[i] = i
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, i := range order {
		f := m.Fields[i]
		if f.Oneof > 0 {
			oneofs[f.Oneof] = append(oneofs[f.Oneof], f)
			continue
		}
		if *o.Budget > 0 && r.P(o.SetPct) {
			set(f)
		}
	}
	for _, fs := range oneofs {
		if len(fs) > 0 && r.P(75) {
			set(fs[r.N(len(fs))])
		}
	}
	if o.Unknown && m.Unknown != UnknownNone && r.P(50) {
		v.Unk = m.GenUnknown(r, 1+r.N(3))
	}
	return v
}

// GenTop makes a top-level value with varied density.
func (m *Msg) GenTop(r *Rng, budget int, unknown bool) *MV {
	b := budget
	o := GenOpts{Depth: 1 + r.N(6), Budget: &b, SetPct: r.Pick(10, 30, 60, 90, 100), Unknown: unknown, Big: r.P(40)}
	return m.Gen(r, o)
}
