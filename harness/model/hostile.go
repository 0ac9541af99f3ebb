package model

import "encoding/binary"

// HostileOpts selects which encoding freedoms Hostile uses.
type HostileOpts struct {
	Unknown bool // insert unknown fields
	Plain   bool // no freedoms beyond field order
	// KeepUnk: unknown bytes recorded in v.Unk for messages with a slot, in arrival order
}

type rec struct {
	group int // records of one group keep their order
	b     []byte
	unk   bool
}

// Hostile encodes v using the freedoms of the wire format and returns the encoding.
// v.Unk of messages that have a slot is rewritten to the unknown bytes in arrival order;
// for messages without a slot it is cleared.
func (m *Msg) Hostile(r *Rng, v *MV, o HostileOpts) []byte {
	level := 0
	if !o.Plain {
		level = r.Pick(0, 1, 1, 2)
	}
	return m.hostile(r, v, o, level, 0)
}

func (m *Msg) hostile(r *Rng, v *MV, o HostileOpts, level int, depth int) []byte {
	hp := func(p int) bool { return level > 0 && r.P(p) }
	vint := func(b []byte, x uint64, pct int) []byte {
		if hp(pct) {
			return AppendVarintPad(b, x, 1+r.N(9))
		}
		return AppendVarint(b, x)
	}
	tag := func(b []byte, num int32, w int) []byte {
		if hp(4) {
			return AppendVarintPad(b, uint64(num)<<3|uint64(w), 1+r.N(3))
		}
		return AppendTag(b, num, w)
	}
	lenp := func(b, p []byte) []byte {
		b = vint(b, uint64(len(p)), 4)
		return append(b, p...)
	}
	scalar := func(b []byte, k Kind, x any) []byte {
		switch k.Wire() {
		case WVarint:
			w := wireU64(k, x.(uint64))
			if hp(12) {
				switch k {
				case Bool:
					if w != 0 {
						w = nonZero(r, Uint64, false).(uint64)
					}
				case Int32, Uint32, Sint32: // junk above 32 bits
					w = uint64(uint32(w)) | r.U64()<<32
				}
			}
			return vint(b, w, 8)
		case WI32:
			return binary.LittleEndian.AppendUint32(b, uint32(x.(uint64)))
		case WI64:
			return binary.LittleEndian.AppendUint64(b, x.(uint64))
		}
		return lenp(b, []byte(x.(string)))
	}
	sub := func(f *Field, x *MV) []byte { return f.Msg.hostile(r, x, o, level, depth+1) }
	junkMsg := func(f *Field) []byte {
		bud := 4
		return f.Msg.hostile(r, f.Msg.Gen(r, GenOpts{Depth: 2, Budget: &bud, SetPct: 40}), HostileOpts{}, 0, depth+1)
	}
	// one record of field f holding x (element form)
	one := func(f *Field, num int32, x any) []byte {
		b := tag(nil, num, f.Kind.Wire())
		if f.Kind == Message {
			return lenp(b, sub(f, x.(*MV)))
		}
		return scalar(b, f.Kind, x)
	}
	var recs []rec
	add := func(g int, b []byte) { recs = append(recs, rec{group: g, b: b}) }
	oneofSet := map[int]bool{}
	for _, f := range m.Fields {
		x, ok := v.F[f.Num]
		g := int(f.Num)
		if f.Oneof > 0 {
			g = -f.Oneof
			if ok {
				oneofSet[f.Oneof] = true
			}
		}
		switch {
		case f.Oneof > 0:
			if !ok {
				continue
			}
			if hp(25) { // other members first; the last one wins
				for i := 1 + r.N(2); i > 0; i-- {
					var sib []*Field
					for _, s := range m.Fields {
						if s.Oneof == f.Oneof && s != f {
							sib = append(sib, s)
						}
					}
					if f.Kind != Message {
						sib = append(sib, f)
					}
					if len(sib) == 0 {
						break
					}
					s := sib[r.N(len(sib))]
					if s.Kind == Message {
						if anyRec(recs, g, s.Num) {
							continue // would have to be merged
						}
						add(g, lenp(tag(nil, s.Num, WLen), junkMsg(s)))
					} else {
						add(g, one(s, s.Num, GenScalar(r, s.Kind, false)))
					}
				}
			}
			add(g, one(f, f.Num, x))
		case f.Card == Repeated:
			if !ok {
				if f.Kind.Packable() && hp(5) {
					add(g, lenp(tag(nil, f.Num, WLen), nil))
				}
				continue
			}
			l := x.([]any)
			if !f.Kind.Packable() {
				for _, e := range l {
					add(g, one(f, f.Num, e))
				}
				continue
			}
			for i := 0; i < len(l); {
				n := len(l) - i
				packed := f.Packed
				if level > 0 {
					if r.P(40) {
						packed = !packed
					}
					if r.P(50) {
						n = 1 + r.N(n)
					}
					if r.P(5) {
						add(g, lenp(tag(nil, f.Num, WLen), nil))
					}
				}
				if packed {
					var c []byte
					for _, e := range l[i : i+n] {
						c = scalar(c, f.Kind, e)
					}
					add(g, lenp(tag(nil, f.Num, WLen), c))
				} else {
					for _, e := range l[i : i+n] {
						add(g, one(f, f.Num, e))
					}
				}
				i += n
			}
		case f.Card == Map:
			if !ok {
				continue
			}
			mm := x.(map[any]any)
			ks := SortedKeys(mm)
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			entry := func(k, x any) []byte {
				var kr, vr []byte
				kr = scalar(tag(nil, 1, f.Key.Wire()), f.Key, k)
				if x == nil { // decoy value
					if f.Kind == Message {
						vr = lenp(tag(nil, 2, WLen), junkMsg(f))
					} else {
						vr = scalar(tag(nil, 2, f.Kind.Wire()), f.Kind, GenScalar(r, f.Kind, false))
					}
				} else {
					vr = one(f, 2, x)
				}
				if level == 0 {
					return append(kr, vr...)
				}
				if IsZero(k) && r.P(40) {
					kr = nil
				} else if r.P(8) { // last key wins
					kr = append(scalar(tag(nil, 1, f.Key.Wire()), f.Key, GenScalar(r, f.Key, false)), kr...)
				}
				if mv, ok := x.(*MV); ok && mv.Empty() && len(vr) == 2 && r.P(40) {
					vr = nil
				} else if x != nil && IsZero(x) && r.P(40) {
					vr = nil
				} else if f.Kind != Message && r.P(8) {
					vr = append(scalar(tag(nil, 2, f.Kind.Wire()), f.Kind, GenScalar(r, f.Kind, false)), vr...)
				}
				var b []byte
				unk := func() {
					if o.Unknown && r.P(6) {
						b = append(b, rawRec(r, int32(3+r.N(1000)), 2)...)
					}
				}
				unk()
				if r.P(25) {
					b = append(b, vr...)
					unk()
					b = append(b, kr...)
				} else {
					b = append(b, kr...)
					unk()
					b = append(b, vr...)
				}
				unk()
				return b
			}
			for _, k := range ks {
				if hp(8) {
					add(g, lenp(tag(nil, f.Num, WLen), entry(k, nil)))
				}
			}
			for _, k := range ks {
				add(g, lenp(tag(nil, f.Num, WLen), entry(k, mm[k])))
			}
		case f.Kind == Message:
			if ok {
				add(g, one(f, f.Num, x))
			} else if f.ByValue && hp(5) {
				add(g, lenp(tag(nil, f.Num, WLen), nil))
			}
		default: // singular scalar
			if !ok {
				if f.Card == Implicit && hp(8) { // explicit default
					add(g, one(f, f.Num, ZeroScalar(f.Kind)))
				}
				continue
			}
			for hp(10) { // earlier occurrences lose
				add(g, one(f, f.Num, GenScalar(r, f.Kind, false)))
			}
			add(g, one(f, f.Num, x))
		}
	}
	const gUnk = 1 << 30
	if o.Unknown && r.P(50) {
		for i := r.Pick(1, 1, 2, 3, 6); i > 0; i-- {
			recs = append(recs, rec{group: gUnk, b: m.unknownRec(r, 3), unk: true})
		}
	}
	// order
	switch r.N(4) {
	case 0: // as is, unknown last
	case 1, 2: // random interleaving, keeping the order within groups
		recs = interleave(r, recs)
	case 3: // groups shuffled as blocks
		recs = blocks(r, recs)
	}
	var out []byte
	v.Unk = nil
	for _, x := range recs {
		out = append(out, x.b...)
		if x.unk && m.Unknown != UnknownNone {
			v.Unk = append(v.Unk, x.b...)
		}
	}
	return out
}

func anyRec(recs []rec, g int, num int32) bool {
	for _, x := range recs {
		if x.group == g {
			if t, _, _ := Uvarint(x.b); int32(t>>3) == num {
				return true
			}
		}
	}
	return false
}

func interleave(r *Rng, recs []rec) []rec {
	byG := map[int][]rec{}
	order := make([]int, len(recs))
	for i, x := range recs {
		byG[x.group] = append(byG[x.group], x)
		order[i] = x.group
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	out := make([]rec, 0, len(recs))
	for _, g := range order {
		out = append(out, byG[g][0])
		byG[g] = byG[g][1:]
	}
	return out
}

func blocks(r *Rng, recs []rec) []rec {
	byG := map[int][]rec{}
	var order []int
	for _, x := range recs {
		if byG[x.group] == nil {
			order = append(order, x.group)
		}
		byG[x.group] = append(byG[x.group], x)
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	out := make([]rec, 0, len(recs))
	for _, g := range order {
		out = append(out, byG[g]...)
	}
	return out
}
