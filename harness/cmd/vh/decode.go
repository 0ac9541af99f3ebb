package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"unsafe"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/types"
	"vharness/vrun"
)

func init() {
	props["C02"] = c02
	props["C07"] = c07
	props["C09"] = c09
	props["C16"] = c16
}

// harnessBug ends the process: the oracle contradicts the official runtime.
func harnessBug(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(8)
}

func genBudget(g *model.Rng, i int) int {
	switch {
	case i%17 == 5:
		return 300
	case i%3 == 1:
		return 12
	}
	return 40
}

// c02: valid encodings
func c02(r *vrun.Run) {
	w := newWorld()
	forValues(r, w, r.Scale(350, 8000), r.Scale(500, 8000), r.Scale(12, 40), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := t.M.GenTop(g, genBudget(g, i), true)
		var b []byte
		if i%7 == 3 {
			v.Unk = nil
			t.M.DropUnknown(v, true)
			b = t.M.Encode(v)
		} else {
			b = t.M.Hostile(g, v, model.HostileOpts{Unknown: i%2 == 0})
		}
		want := t.M.Norm(v)
		if g.P(10) { // still valid after damage?
			if m := t.M.MutateDeep(g, b); t.M.Validate(m) == nil && !t.M.DupMessages(m) {
				b = m
				want = model.NewMV()
				if err := t.M.Apply(b, want, false); err != nil {
					harnessBug("Apply: %v", err)
				}
				t.M.Norm(want)
				c.Add("mutated_but_valid", 1)
			}
		}
		if ref, err := w.off.Decode(t.M, b); err != nil {
			harnessBug("case %s: official parser rejects %x: %v", c.ID, b, err)
		} else if d := model.Diff(t.M.Quiet(t.M.Norm(t.M.DropUnknown(ref, false))), t.M.Quiet(want)); d != "" {
			harnessBug("case %s: oracle differs from the official parser: %s; %s %x", c.ID, d, typeString(t.M), b)
		}
		p := reflect.New(t.M.Type)
		if err := prutal.Unmarshal(b, p.Interface()); err != nil {
			c.FailD(typeString(t.M), "Unmarshal of a valid encoding failed: %v; value %s input %s", err, model.Dump(want), hexcut(b))
		}
		if d := model.Diff(want, t.M.Read(p)); d != "" {
			c.FailD(typeString(t.M), "Unmarshal stored another value: %s; input %s", d, hexcut(b))
		}
		if len(b) > 0 {
			c.Seen(t.Name, string(b))
		}
		c.Add("bytes_decoded", len(b))
		c.Add("leaves_decoded", model.Count(want))
		if c.WantSample() && model.Count(want) > 3 {
			c.Sample(map[string]string{"type": typeString(t.M), "value": model.Dump(want), "input": hexcut(b)})
		}
	})
	wireEdges(r, w)
}

// wireEdges: one record of every scalar field with every interesting varint in every padding.
func wireEdges(r *vrun.Run, w *world) {
	for _, t := range w.types {
		t := t
		r.Do("edges/"+t.Name, func(c *vrun.Case) {
			for _, f := range t.M.Fields {
				if f.Card == model.Map && f.Kind.Scalar() {
					mapForms(c, t, f)
				}
				if f.Kind.Wire() != model.WVarint || f.Card == model.Map {
					continue
				}
				for k := 0; k <= 64; k++ {
					for d := -1; d <= 1; d++ {
						x := uint64(d)
						if k < 64 {
							x += uint64(1) << uint(k)
						}
						for _, pad := range []int{0, 1, 9} {
							pl := model.AppendVarintPad(nil, x, pad)
							inputs := [][]byte{append(model.AppendTag(nil, f.Num, model.WVarint), pl...)}
							if f.Card == model.Repeated {
								inputs = append(inputs, model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), append(append([]byte{}, pl...), pl...)))
							}
							for _, b := range inputs {
								decodeLike(c, t, b)
							}
						}
					}
				}
			}
		})
	}
}

// mapForms: every way of writing one entry of a scalar map.
func mapForms(c *vrun.Case, t *T, f *model.Field) {
	g := model.NewRng(uint64(f.Num), model.HashStr(t.Name))
	rec := func(num int32, k model.Kind, x any) []byte {
		return model.AppendScalar(model.AppendTag(nil, num, k.Wire()), k, x)
	}
	for i := 0; i < 12; i++ {
		k, v := rec(1, f.Key, model.GenScalar(g, f.Key, false)), rec(2, f.Kind, model.GenScalar(g, f.Kind, false))
		k2, v2 := rec(1, f.Key, model.GenScalar(g, f.Key, false)), rec(2, f.Kind, model.GenScalar(g, f.Kind, false))
		u := model.AppendVarint(model.AppendTag(nil, 3, 0), 5)
		for _, e := range [][][]byte{{}, {k}, {v}, {k, v}, {v, k}, {k, k2, v}, {k, v, v2}, {k, v, k2}, {v, k, v2}, {u, k, v}, {k, u, v}, {k, v, u}, {u}, {k, k}, {v, v2}, {k, v, k2, v2}} {
			b := model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), bytes.Join(e, nil))
			// after an ordinary entry and before one
			o := model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), bytes.Join([][]byte{k2, v2}, nil))
			decodeLike(c, t, b)
			decodeLike(c, t, append(append(append([]byte{}, o...), b...), o...))
			decodeLike(c, t, append(append([]byte{}, b...), o...))
			decodeLike(c, t, append(append([]byte{}, o...), b...))
		}
	}
}

// decodeLike decodes valid input and compares with the reference.
func decodeLike(c *vrun.Case, t *T, b []byte) {
	want := model.NewMV()
	if err := t.M.Apply(b, want, false); err != nil {
		harnessBug("Apply %x: %v", b, err)
	}
	p := reflect.New(t.M.Type)
	if err := prutal.Unmarshal(b, p.Interface()); err != nil {
		c.FailD(typeString(t.M), "Unmarshal of a valid encoding failed: %v; value %s input %s", err, model.Dump(want), hexcut(b))
	}
	if d := model.Diff(t.M.Norm(want), t.M.Read(p)); d != "" {
		c.FailD(typeString(t.M), "Unmarshal stored another value: %s; input %s", d, hexcut(b))
	}
	c.Eval(1)
	c.Seen(t.Name, string(b))
}

// c07: malformed input
func c07(r *vrun.Run) {
	w := newWorld()
	judge := func(c *vrun.Case, t *T, b []byte) {
		err := t.M.Validate(b)
		if err == model.ErrGrey {
			c.Add("unspecified", 1)
			return
		}
		if oerr := w.off.DecodeErr(t.M, b); oerr != model.ErrOfficialPanic && (oerr == nil) != (err == nil || err == model.ErrMismatch) {
			harnessBug("case %s: oracle says %v, official parser %v: %s %x", c.ID, err, oerr, typeString(t.M), b)
		}
		p := reflect.New(t.M.Type)
		perr := prutal.Unmarshal(b, p.Interface())
		switch {
		case err == nil:
			c.Add("still_valid", 1)
			if perr != nil {
				// C02's business; but an over-eager rejection would hide faults here
				c.FailD(typeString(t.M), "valid input is rejected: %v; input %s", perr, hexcut(b))
			}
			return
		case err == model.ErrMismatch:
			c.Add("wire_type_mismatch", 1)
			if perr == nil {
				want := model.NewMV()
				if e := t.M.Decode(b, want); e != nil {
					harnessBug("Decode: %v", e)
				}
				t.M.Norm(t.M.DropUnknown(want, true))
				got := t.M.DropUnknown(t.M.Read(p), true)
				if d := model.Diff(want, got); d != "" && !t.M.DupMessages(b) {
					c.FailD(typeString(t.M), "a field of another wire type was stored: %s; input %s", d, hexcut(b))
				}
			}
		default:
			c.Add("malformed_"+err.Error(), 1)
			if perr == nil {
				c.FailD(typeString(t.M), "malformed input (%v) is accepted; input %s", err, hexcut(b))
			}
		}
		c.Seen(t.Name, string(b))
	}
	forValues(r, w, r.Scale(60, 2500), r.Scale(120, 2500), r.Scale(8, 30), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := t.M.GenTop(g, g.Pick(6, 12, 40), true)
		b := t.M.Hostile(g, v, model.HostileOpts{Unknown: true})
		for k := 0; k < 40; k++ {
			var m []byte
			if k%2 == 0 {
				m = model.Mutate(g, b)
			} else {
				m = t.M.MutateDeep(g, b)
			}
			judge(c, t, m)
			c.Eval(1)
			if k == 5 && c.WantSample() && len(m) > 4 {
				c.Sample(map[string]string{"type": typeString(t.M), "input": hexcut(m), "verdict": fmt.Sprint(t.M.Validate(m))})
			}
		}
		// every truncation
		if i%4 == 0 && len(b) < 400 {
			for k := 0; k < len(b); k++ {
				judge(c, t, b[:k])
				c.Eval(1)
			}
		}
	})
	// every record form × every wire type × truncations, for each field of each static type
	for _, t := range w.types {
		t := t
		r.Do("forms/"+t.Name, func(c *vrun.Case) {
			g := rngFor(r, "forms/"+t.Name)
			for _, f := range t.M.Fields {
				for wt := 0; wt < 8; wt++ {
					var pls [][]byte
					switch wt {
					case model.WVarint:
						pls = [][]byte{{0}, {1}, {0x7f}, {0x80}, {0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02},
							{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00}, {}, {0x80, 0x80, 0x80, 0x80, 0x80}}
					case model.WI32, model.WI64:
						for n := 0; n <= 8; n++ {
							pls = append(pls, g.Bytes(n))
						}
					case model.WLen:
						for n := 0; n <= 17; n++ {
							x := g.Bytes(n)
							pls = append(pls, model.AppendLen(nil, x), append([]byte{byte(n + 1)}, x...))
							for j := range x {
								x[j] &= 0x7f
							}
							pls = append(pls, model.AppendLen(nil, x))
						}
						for _, x := range []uint64{1 << 31, 1<<31 - 1, 1 << 32, 1 << 63, 1<<64 - 1, 1<<63 - 1, 1<<64 - 8} {
							pls = append(pls, model.AppendVarint(nil, x), append(model.AppendVarint(nil, x), 1, 2, 3))
						}
						// packed and entry content with malformed varints
						for _, x := range [][]byte{{0x80}, {1, 0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
							{1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {8}, {8, 0x80}, {0x0a}, {0x0a, 5}, {0x12, 1}, {0x10}, {0x0d, 0}, {0x15, 0}, {0x09, 0}, {0x11, 0}, {0x0b}, {0x0c}, {0x1b, 0x1c}, {0x1b, 0x24}, {0x1b}, {0x0e}, {0x00}, {0x02, 0x00},
							{0x18}, {0x1a, 9}, {0x1d}, {0x19}, {0x1e, 0}, {0x1f, 0}} {
							pls = append(pls, model.AppendLen(nil, x))
						}
					case model.WSGroup:
						pls = [][]byte{{}, model.AppendTag(nil, f.Num, model.WEGroup), model.AppendTag(nil, f.Num+1, model.WEGroup)}
					default:
						pls = [][]byte{{}, {0}, {1, 2, 3, 4}}
					}
					for _, pl := range pls {
						b := append(model.AppendTag(nil, f.Num, wt), pl...)
						judge(c, t, b)
						// behind a valid record of the same field, which other code may cache
						if f.Kind != model.Message && f.Card != model.Map {
							x := model.AppendScalar(model.AppendTag(nil, f.Num, f.Kind.Wire()), f.Kind, model.GenScalar(g, f.Kind, false))
							judge(c, t, append(x, b...))
						}
						c.Eval(2)
					}
				}
			}
			// bad tags after nothing, and after a good unknown field
			for _, x := range [][]byte{{0x00}, {0x01, 1, 2, 3, 4, 5, 6, 7, 8}, {0x02, 0}, {0x05, 1, 2, 3, 4}, {0x03, 0x04}, {0x80, 0x00}, {0x82, 0x00, 0x00},
				{0x80, 0x80, 0x80, 0x80, 0x10, 0x00}, {0x82, 0x80, 0x80, 0x80, 0x10, 0x00}, {0xfa, 0xff, 0xff, 0xff, 0xff, 0x01, 0x00}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02}} {
				judge(c, t, x)
				n := t.M.GenUnknown(g, 1)
				judge(c, t, append(n, x...))
				c.Eval(2)
			}
		})
	}
}

// c09: unknown fields
func c09(r *vrun.Run) {
	w := newWorld()
	// slots at every level, replaced by the next decode
	forValues(r, w, r.Scale(120, 4000), r.Scale(200, 4000), r.Scale(8, 30), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := t.M.GenTop(g, g.Pick(3, 12, 40), true)
		b := t.M.Hostile(g, v, model.HostileOpts{Unknown: true})
		t.M.Norm(v)
		p := reflect.New(t.M.Type)
		if err := prutal.Unmarshal(b, p.Interface()); err != nil {
			c.FailD(typeString(t.M), "Unmarshal failed: %v; input %s", err, hexcut(b))
		}
		if d := model.Diff(v, t.M.Read(p)); d != "" {
			c.FailD(typeString(t.M), "unknown fields are not kept as they arrived: %s; input %s", d, hexcut(b))
		}
		out := mustMarshal(c, t, p, v)
		got, err := w.off.Decode(t.M, out)
		if err != nil {
			c.FailD(typeString(t.M), "output does not parse: %v", err)
		}
		if d := model.Diff(v, t.M.Norm(got)); d != "" {
			c.FailD(typeString(t.M), "unknown fields are not written back: %s; input %s output %s", d, hexcut(b), hexcut(out))
		}
		unk := countUnk(v)
		c.Add("unknown_bytes", unk)
		if unk > 0 {
			c.Seen(t.Name, string(b))
			if c.WantSample() {
				c.Sample(map[string]string{"type": typeString(t.M), "input": hexcut(b), "value": model.Dump(v)})
			}
		}
		// the slot of a used value
		if t.M.Unknown == model.UnknownNone {
			return
		}
		for k := 0; k < 3; k++ {
			v2 := t.M.GenTop(g, 8, true)
			if k == 1 {
				v2 = model.NewMV()
			}
			b2 := t.M.Hostile(g, v2, model.HostileOpts{Unknown: k != 1})
			if k == 2 {
				x := t.M.GenUnknown(g, 5)
				b2 = append(b2, x...)
				v2.Unk = append(v2.Unk, x...)
			}
			if err := prutal.Unmarshal(b2, p.Interface()); err != nil {
				c.FailD(typeString(t.M), "second Unmarshal failed: %v; input %s", err, hexcut(b2))
			}
			if u := t.M.ReadUnknown(p.Elem()); !bytes.Equal(u, v2.Unk) {
				c.FailD(typeString(t.M), "unknown bytes of a used value are %x, input had %x; input %s", u, v2.Unk, hexcut(b2))
			}
			for j := range b2 { // not a view of the input
				b2[j] ^= 0x55
			}
			if u := t.M.ReadUnknown(p.Elem()); !bytes.Equal(u, v2.Unk) {
				c.FailD(typeString(t.M), "unknown bytes share memory with the input")
			}
			c.Eval(1)
		}
	})
	// relay through an older schema
	n := r.Scale(12, 300)
	relay := func(id string, wide func() *T) {
		r.Do(id, func(c *vrun.Case) {
			t := wide()
			g := rngFor(r, id)
			nt := narrow(g, t.M.Type, t.M, 2)
			nm, err := w.ld.Load(nt)
			if err != nil {
				harnessBug("narrow type: %v", err)
			}
			nm.Name = "narrow"
			for k := 0; k < 6; k++ {
				v := t.M.GenTop(g, 40, true)
				b := t.M.Hostile(g, v, model.HostileOpts{Unknown: true})
				t.M.Norm(v)
				want := model.NewMV()
				if err := nm.Apply(b, want, false); err != nil {
					harnessBug("Apply: %v", err)
				}
				nm.Norm(want)
				p := reflect.New(nt)
				if err := prutal.Unmarshal(b, p.Interface()); err != nil {
					c.FailD(typeString(nm), "Unmarshal with the older schema failed: %v; input %s", err, hexcut(b))
				}
				if d := model.Diff(want, nm.Read(p)); d != "" {
					c.FailD(typeString(nm), "older schema: %s; input %s", d, hexcut(b))
				}
				out, err := prutal.Marshal(p.Interface())
				if err != nil {
					c.FailD(typeString(nm), "Marshal with the older schema failed: %v", err)
				}
				q := reflect.New(t.M.Type)
				if err := prutal.Unmarshal(out, q.Interface()); err != nil {
					c.FailD(typeString(t.M)+typeString(nm), "relayed message does not decode: %v; input %s relayed %s", err, hexcut(b), hexcut(out))
				}
				if d := diffRelayed(v, t.M.Read(q)); d != "" {
					c.FailD(typeString(t.M)+" relayed by "+typeString(nm), "relaying lost or changed data: %s; input %s relayed %s", d, hexcut(b), hexcut(out))
				}
				c.Eval(1)
				c.Add("relayed_bytes", len(b))
				c.Add("relayed_unknown_bytes", countUnk(want))
				if countUnk(want) > 0 {
					c.Seen(t.Name, typeString(nm), string(b))
				}
			}
		})
	}
	for _, t := range w.types {
		t := t
		for i := 0; i < n; i++ {
			relay(fmt.Sprintf("relay/%s/%d", t.Name, i), func() *T { return t })
		}
	}
	for k := 0; k < r.Scale(200, 3000); k++ {
		k := k
		relay(fmt.Sprintf("relay/rand%d", k), func() *T { return w.random(r.Seed, 500000+k) })
	}
}

// diffRelayed compares, ignoring the position of records the wide schema does not know
// (they may be regrouped with those of dropped fields, but keep their relative order).
func diffRelayed(a, b *model.MV) string { return model.Diff(a, b) }

func countUnk(x any) int {
	switch v := x.(type) {
	case *model.MV:
		n := len(v.Unk)
		for _, e := range v.F {
			n += countUnk(e)
		}
		return n
	case []any:
		n := 0
		for _, e := range v {
			n += countUnk(e)
		}
		return n
	case map[any]any:
		n := 0
		for _, e := range v {
			n += countUnk(e)
		}
		return n
	}
	return 0
}

// narrow makes a struct type that knows only some fields of t and has an unknown slot.
func narrow(g *model.Rng, t reflect.Type, m *model.Msg, depth int) reflect.Type {
	var fs []reflect.StructField
	keep := g.Pick(0, 20, 50, 80)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Tag.Get("protobuf") == "" || !g.P(keep) {
			continue
		}
		var mf *model.Field
		for _, x := range m.Fields {
			if x.Index == i && x.Oneof == 0 {
				mf = x
			}
		}
		if mf == nil {
			continue
		}
		ft := f.Type
		if mf.Kind == model.Message && depth > 0 && g.P(60) {
			nt := narrow(g, mf.Msg.Type, mf.Msg, depth-1)
			if mf.Msg.Unknown == model.UnknownNone && countFields(nt) < len(mf.Msg.Fields) {
				// the wide type drops unknown fields itself; what the narrow one keeps is still known to it
			}
			ft = replaceMsg(ft, mf.Msg.Type, nt)
		}
		fs = append(fs, reflect.StructField{Name: f.Name, Type: ft, Tag: f.Tag})
	}
	g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	ut := reflect.TypeOf([]byte(nil))
	if g.P(40) {
		ut = reflect.PointerTo(ut)
	}
	return reflect.StructOf(append(fs, reflect.StructField{Name: "XXX_unrecognized", Type: ut}))
}

func countFields(t reflect.Type) int { return t.NumField() - 1 }

func replaceMsg(t, old, nw reflect.Type) reflect.Type {
	switch {
	case t == old:
		return nw
	case t.Kind() == reflect.Pointer:
		return reflect.PointerTo(replaceMsg(t.Elem(), old, nw))
	case t.Kind() == reflect.Slice:
		return reflect.SliceOf(replaceMsg(t.Elem(), old, nw))
	case t.Kind() == reflect.Map:
		return reflect.MapOf(t.Key(), replaceMsg(t.Elem(), old, nw))
	}
	return t
}

// c16: decoding into used values
func c16(r *vrun.Run) {
	w := newWorld()
	forValues(r, w, r.Scale(200, 6000), r.Scale(300, 6000), r.Scale(10, 40), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v1 := t.M.GenTop(g, g.Pick(6, 30, 80), true)
		p := t.M.New(v1, model.FillOpts{R: g})
		if g.P(50) { // a value that was itself decoded
			p = reflect.New(t.M.Type)
			b1 := t.M.Hostile(g, v1, model.HostileOpts{Unknown: true})
			if err := prutal.Unmarshal(b1, p.Interface()); err != nil {
				c.FailD(typeString(t.M), "Unmarshal failed: %v; input %s", err, hexcut(b1))
			}
		}
		t.M.Norm(v1)
		if d := model.Diff(v1, t.M.Read(p)); d != "" {
			c.FailD(typeString(t.M), "value differs before the second decode: %s", d)
		}
		if g.P(40) {
			staleSpare(g, p.Elem(), 0)
		}
		wantM, wantR := v1.Clone(), v1.Clone()
		for round := 0; round < 1+g.N(3); round++ {
			v2 := t.M.GenTop(g, g.Pick(4, 12, 40), true)
			b := t.M.Hostile(g, v2, model.HostileOpts{Unknown: true})
			if err := t.M.Apply(b, wantM, false); err != nil {
				harnessBug("Apply: %v", err)
			}
			t.M.Apply(b, wantR, true)
			t.M.Norm(wantM)
			t.M.Norm(wantR)
			held := holdOld(p)
			if err := prutal.Unmarshal(b, p.Interface()); err != nil {
				c.FailD(typeString(t.M), "Unmarshal into a used value failed: %v; old %s input %s", err, model.Dump(v1), hexcut(b))
			}
			got := t.M.Read(p)
			dm, dr := model.Diff(wantM, got), model.Diff(wantR, got)
			if dm != "" && dr != "" {
				c.FailD(typeString(t.M), "Unmarshal into a used value: %s; old %s input %s", dr, model.Dump(v1), hexcut(b))
			}
			if s := held.changed(); s != "" {
				c.FailD(typeString(t.M), "Unmarshal wrote into memory of the old value: %s; old %s input %s", s, model.Dump(v1), hexcut(b))
			}
			c.Add("old_regions_watched", len(held))
			c.Seen(t.Name, model.Dump(v1), string(b))
			c.Eval(1)
			if dm == "" {
				wantR = wantM.Clone()
			} else {
				wantM = wantR.Clone()
			}
			if c.WantSample() && model.Count(v1) > 3 {
				c.Sample(map[string]string{"type": typeString(t.M), "old": model.Dump(v1), "input": hexcut(b), "result": model.Dump(got)})
			}
		}
		// still a proper value
		b2 := mustMarshal(c, t, p, wantR)
		checkEncoding(c, w, t.M, t.M.Read(p), b2)
	})
}

// staleSpare puts old content behind the length of lists.
func staleSpare(g *model.Rng, v reflect.Value, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			staleSpare(g, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && v.Type().Field(i).Tag.Get("protobuf") != "" {
				staleSpare(g, v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 || v.Len() == 0 || !v.CanSet() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			staleSpare(g, v.Index(i), depth+1)
		}
		// duplicate the elements behind the end
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), 2*n, 2*n+g.N(3))
		reflect.Copy(s, v)
		reflect.Copy(s.Slice(n, 2*n), v)
		v.Set(s.Slice(0, n))
	}
}

type heldRegion struct {
	path string
	mem  []byte
	was  []byte
}
type held []heldRegion

// holdOld keeps what the old value refers to and must not be written: objects behind
// pointers (except the destination itself), list elements, strings and bytes.
func holdOld(p reflect.Value) held {
	var out held
	seen := map[unsafe.Pointer]bool{}
	add := func(path string, ptr unsafe.Pointer, n uintptr) {
		if n == 0 {
			return
		}
		mem := unsafe.Slice((*byte)(ptr), n)
		out = append(out, heldRegion{path, mem, append([]byte(nil), mem...)})
	}
	var walk func(v reflect.Value, path string, depth int)
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 100 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			add(path+"*", v.UnsafePointer(), v.Type().Elem().Size())
			walk(v.Elem(), path, depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path, depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				n := v.Type().Field(i).Name
				if n == "unknownFields" || n == "XXX_unrecognized" {
					continue
				}
				walk(v.Field(i), path+"."+n, depth+1)
			}
		case reflect.Slice:
			if v.Len() == 0 {
				return
			}
			add(path+"[]", v.UnsafePointer(), uintptr(v.Len())*v.Type().Elem().Size())
			if hasRefs(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), path+"[]", depth+1)
				}
			}
		case reflect.String:
			if s := v.String(); s != "" {
				add(path, unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)))
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Key(), path+"{k}", depth+1)
				walk(it.Value(), path+"{v}", depth+1)
			}
		}
	}
	walk(p.Elem(), "", 0)
	return out
}

func (h held) changed() string {
	for _, x := range h {
		if !bytes.Equal(x.mem, x.was) {
			return fmt.Sprintf("%s was %x is %x", x.path, cutb(x.was), cutb(x.mem))
		}
	}
	return ""
}

func cutb(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

var _ = types.All
