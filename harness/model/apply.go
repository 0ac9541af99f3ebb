package model

// Apply decodes b into v the way a used destination is updated: unknown bytes of every
// message that is decoded into are replaced. A singular message kept behind a pointer is
// merged into what is there (replace=false) or replaced (replace=true); a message kept by
// value is merged. b must be valid (Validate == nil).
func (m *Msg) Apply(b []byte, v *MV, replace bool) error {
	v.Unk = nil
	for len(b) > 0 {
		r, n, err := Next(b)
		if err != nil {
			return err
		}
		b = b[n:]
		f := m.ByNum[r.Num]
		if f == nil {
			if m.Unknown != UnknownNone {
				v.Unk = append(v.Unk, r.Raw...)
			}
			continue
		}
		if f.Oneof > 0 {
			for _, o := range m.Fields {
				if o.Oneof == f.Oneof && o != f {
					delete(v.F, o.Num)
				}
			}
		}
		msg := func(p []byte, old *MV) (*MV, error) {
			if old == nil {
				old = NewMV()
			}
			return old, f.Msg.Apply(p, old, replace)
		}
		switch f.Card {
		case Repeated:
			l, _ := v.F[f.Num].([]any)
			switch {
			case f.Kind.Packable() && r.Wire == WLen:
				p := r.Payload
				for len(p) > 0 {
					var x any
					x, p = takeScalar(f.Kind, p)
					l = append(l, x)
				}
			case f.Kind == Message:
				e, err := msg(r.Payload, nil)
				if err != nil {
					return err
				}
				l = append(l, e)
			default:
				l = append(l, scalarOf(f.Kind, r))
			}
			if len(l) > 0 {
				v.F[f.Num] = l
			}
		case Map:
			mm, _ := v.F[f.Num].(map[any]any)
			if mm == nil {
				mm = map[any]any{}
			}
			k := ZeroScalar(f.Key)
			var x any = ZeroScalar(f.Kind)
			if f.Kind == Message {
				x = NewMV()
			}
			recs, err := Records(r.Payload)
			if err != nil {
				return err
			}
			for _, e := range recs {
				switch {
				case e.Num == 1:
					k = scalarOf(f.Key, e)
				case e.Num == 2 && f.Kind == Message:
					old := x.(*MV)
					if err := f.Msg.Apply(e.Payload, old, replace); err != nil {
						return err
					}
				case e.Num == 2:
					x = scalarOf(f.Kind, e)
				}
			}
			mm[k] = x
			v.F[f.Num] = mm
		default:
			if f.Kind != Message {
				v.F[f.Num] = scalarOf(f.Kind, r)
				continue
			}
			old, _ := v.F[f.Num].(*MV)
			if replace && !(f.ByValue && f.Oneof == 0) {
				old = nil
			}
			e, err := msg(r.Payload, old)
			if err != nil {
				return err
			}
			v.F[f.Num] = e
		}
	}
	return nil
}

// DupMessages reports whether a singular message field (or the value of one map entry)
// occurs twice in one message, at any level. b must be valid.
func (m *Msg) DupMessages(b []byte) bool {
	seen := map[int32]bool{}
	recs, err := Records(b)
	if err != nil {
		return true
	}
	for _, r := range recs {
		f := m.ByNum[r.Num]
		if f == nil || f.Kind != Message || r.Wire != WLen {
			continue
		}
		switch f.Card {
		case Map:
			es, err := Records(r.Payload)
			if err != nil {
				return true
			}
			n := 0
			for _, e := range es {
				if e.Num == 2 && e.Wire == WLen {
					n++
					if f.Msg.DupMessages(e.Payload) {
						return true
					}
				}
			}
			if n > 1 {
				return true
			}
		case Repeated:
			if f.Msg.DupMessages(r.Payload) {
				return true
			}
		default:
			if seen[r.Num] || f.Msg.DupMessages(r.Payload) {
				return true
			}
			seen[r.Num] = true
		}
	}
	return false
}

// Mutate damages an encoding in one of many ways.
func Mutate(r *Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	n := 1
	if r.P(20) {
		n = 1 + r.N(4)
	}
	for i := 0; i < n; i++ {
		b = mutate1(r, b)
	}
	return b
}

var nasty = [][]byte{
	{0x00}, {0x01}, {0x07}, {0x0e}, {0x0f}, {0x0b}, {0x0c}, {0x80}, {0xff}, {0x80, 0x00},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0x07},
	{0x80, 0x80, 0x80, 0x80, 0x08}, {0x80, 0x80, 0x80, 0x80, 0x10}, {0xf8, 0xff, 0xff, 0xff, 0x0f, 0x00}, {0x80, 0x80, 0x80, 0x80, 0x10, 0x00},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	{0x03}, {0x04}, {0x13, 0x14}, {0x13, 0x1c}, {0x13}, {0x14},
	{0xfb, 0xff, 0xff, 0xff, 0x0f}, {0xfc, 0xff, 0xff, 0xff, 0x0f}, {0x0a, 0xff, 0xff, 0xff, 0xff, 0x07}, {0x0a, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80},
}

func mutate1(r *Rng, b []byte) []byte {
	at := func() int { return r.N(len(b) + 1) }
	ins := func(p int, x []byte) []byte {
		out := append([]byte(nil), b[:p]...)
		out = append(out, x...)
		return append(out, b[p:]...)
	}
	if len(b) == 0 {
		return append([]byte(nil), nasty[r.N(len(nasty))]...)
	}
	switch r.N(12) {
	case 0, 1: // truncate
		return b[:r.N(len(b))]
	case 2: // flip a bit
		b[r.N(len(b))] ^= 1 << uint(r.N(8))
	case 3: // another byte
		b[r.N(len(b))] = byte(r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 0x0b, 0x0c, 0x7f, 0x80, 0xff, r.N(256)))
	case 4: // wire type of something that may be a tag
		i := r.N(len(b))
		b[i] = b[i]&^7 | byte(r.N(8))
	case 5: // insert
		return ins(at(), nasty[r.N(len(nasty))])
	case 6: // delete a few
		i := r.N(len(b))
		j := i + 1 + r.N(3)
		if j > len(b) {
			j = len(b)
		}
		return append(b[:i], b[j:]...)
	case 7: // grow or shrink a byte (lengths)
		i := r.N(len(b))
		b[i] += byte(r.Pick(1, 2, 255, 254))
	case 8: // repeat a piece
		i := r.N(len(b))
		j := i + 1 + r.N(len(b)-i)
		return ins(at(), append([]byte(nil), b[i:j]...))
	case 9: // a varint gets a continuation
		i := r.N(len(b))
		b[i] |= 0x80
	case 10: // append
		return append(b, nasty[r.N(len(nasty))]...)
	case 11: // record level: change the wire type of one top-level record
		recs, err := Records(b)
		if err == nil && len(recs) > 0 {
			k := r.N(len(recs))
			var out []byte
			for i, x := range recs {
				if i == k {
					out = append(out, rawRecWire(r, x.Num)...)
					if r.P(50) {
						continue
					}
				}
				out = append(out, x.Raw...)
			}
			return out
		}
		return b[:r.N(len(b))]
	}
	return b
}

func rawRecWire(r *Rng, num int32) []byte {
	w := r.N(8)
	b := AppendTag(nil, num, w)
	switch w {
	case WVarint:
		return AppendVarint(b, r.U64()>>uint(r.N(64)))
	case WI64:
		return append(b, r.Bytes(8)...)
	case WI32:
		return append(b, r.Bytes(4)...)
	case WLen:
		return AppendLen(b, r.Bytes(r.N(12)))
	case WSGroup:
		b = append(b, rawRec(r, int32(1+r.N(9)), 1)...)
		return AppendTag(b, num, WEGroup)
	}
	return b
}

// MutateDeep re-frames: damages the content of one nested LEN record and fixes the lengths
// around it, so that the fault is at an inner level.
func (m *Msg) MutateDeep(r *Rng, b []byte) []byte {
	recs, err := Records(b)
	if err != nil {
		return Mutate(r, b)
	}
	var cand []int
	for i, x := range recs {
		f := m.ByNum[x.Num]
		if f != nil && x.Wire == WLen && (f.Kind == Message || f.Card == Map || f.Card == Repeated && f.Kind.Packable()) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 || r.P(15) {
		return Mutate(r, b)
	}
	k := cand[r.N(len(cand))]
	f := m.ByNum[recs[k].Num]
	var inner []byte
	switch {
	case f.Card == Map:
		em := &Msg{Name: "entry", ByNum: map[int32]*Field{}}
		if f.Kind == Message {
			em.ByNum[2] = &Field{Num: 2, Kind: Message, Card: Explicit, Msg: f.Msg}
		}
		inner = em.MutateDeep(r, recs[k].Payload)
	case f.Kind == Message:
		inner = f.Msg.MutateDeep(r, recs[k].Payload)
	default:
		inner = Mutate(r, recs[k].Payload)
	}
	var out []byte
	for i, x := range recs {
		if i == k {
			out = AppendLen(AppendTag(out, x.Num, WLen), inner)
		} else {
			out = append(out, x.Raw...)
		}
	}
	return out
}

// Quiet returns a copy of v with signalling float NaNs made quiet (the official dynamic
// messages keep floats as float64, which quietens them).
func (m *Msg) Quiet(v *MV) *MV {
	q := func(f *Field, x any) any {
		if f.Kind == Message {
			return f.Msg.Quiet(x.(*MV))
		}
		if f.Kind == Float {
			if u := x.(uint64); u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 {
				return u | 0x400000
			}
		}
		return x
	}
	out := NewMV()
	out.Unk = v.Unk
	for n, x := range v.F {
		f := m.ByNum[n]
		switch y := x.(type) {
		case []any:
			l := make([]any, len(y))
			for i, e := range y {
				l[i] = q(f, e)
			}
			out.F[n] = l
		case map[any]any:
			mm := map[any]any{}
			for k, e := range y {
				mm[k] = q(f, e)
			}
			out.F[n] = mm
		default:
			out.F[n] = q(f, x)
		}
	}
	return out
}
