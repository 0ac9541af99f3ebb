package main

import (
	"bytes"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/vrun"
)

func init() {
	props["C01"] = c01
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
}

func genValue(t *T, g *model.Rng, i int) *model.MV {
	budget := 40
	switch {
	case i == 0:
		return model.NewMV()
	case i%17 == 5:
		budget = 400
	case i%3 == 1:
		budget = 12
	}
	return t.M.GenTop(g, budget, true)
}

func mustMarshal(c *vrun.Case, t *T, p reflect.Value, v *model.MV) []byte {
	b, err := prutal.Marshal(p.Interface())
	if err != nil {
		c.FailD(typeString(t.M), "Marshal of a supported value failed: %v; value %s", err, model.Dump(v))
	}
	return b
}

// c01: bytes of Marshal mean exactly the value, in the declared form.
func c01(r *vrun.Run) {
	w := newWorld()
	forValues(r, w, r.Scale(150, 6000), r.Scale(250, 6000), r.Scale(10, 40), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := genValue(t, g, i)
		p := t.M.New(v, model.FillOpts{R: g})
		b := mustMarshal(c, t, p, v)
		checkEncoding(c, w, t.M, v, b)
		if model.Count(v) > 0 {
			c.Seen(t.Name, model.Dump(v))
		}
		c.Add("bytes_encoded", len(b))
		c.Add("leaves_encoded", model.Count(v))
		if c.WantSample() && model.Count(v) > 3 {
			c.Sample(map[string]string{"type": typeString(t.M), "value": model.Dump(v), "encoding": hexcut(b)})
		}
	})
}

func checkEncoding(c *vrun.Case, w *world, m *model.Msg, v *model.MV, b []byte) {
	got, err := w.off.Decode(m, b)
	if err != nil {
		c.FailD(typeString(m), "official parser rejects the output: %v; value %s output %s", err, model.Dump(v), hexcut(b))
	}
	if d := model.Diff(v, m.Norm(got)); d != "" {
		c.FailD(typeString(m), "official parser reads another value: %s; value %s output %s", d, model.Dump(v), hexcut(b))
	}
	if err := m.Validate(b); err != nil {
		c.FailD(typeString(m), "output is not well-formed: %v; output %s", err, hexcut(b))
	}
	if s := checkForm(m, v, b); s != "" {
		c.FailD(typeString(m), "%s; value %s output %s", s, model.Dump(v), hexcut(b))
	}
}

// checkForm walks the records of an encoding whose value is already known to be right and
// checks the form: nothing but the set fields, each singular field once, repeated scalars
// packed or not as declared, unknown bytes verbatim as one run.
func checkForm(m *model.Msg, v *model.MV, b []byte) string {
	recs, err := model.Records(b)
	if err != nil {
		return err.Error()
	}
	count := map[int32]int{}
	for _, r := range recs {
		f := m.ByNum[r.Num]
		if f == nil {
			continue
		}
		count[r.Num]++
		x, ok := v.F[r.Num]
		if !ok {
			if f.Kind == model.Message && f.ByValue {
				if len(r.Payload) == 0 {
					continue
				}
				if s := checkForm(f.Msg, model.NewMV(), r.Payload); s != "" {
					return s
				}
				continue
			}
			return fmt.Sprintf("field %d is not set but encoded", r.Num)
		}
		i := count[r.Num] - 1
		switch f.Card {
		case model.Repeated:
			l := x.([]any)
			if f.Packed {
				if r.Wire != model.WLen || i > 0 {
					return fmt.Sprintf("field %d is declared packed but not encoded as one packed record", r.Num)
				}
			} else {
				if r.Wire != f.Kind.Wire() {
					return fmt.Sprintf("field %d is not declared packed but encoded so", r.Num)
				}
				if f.Kind == model.Message && i < len(l) {
					if s := checkForm(f.Msg, l[i].(*model.MV), r.Payload); s != "" {
						return s
					}
				}
			}
		case model.Map:
			er, err := model.Records(r.Payload)
			if err != nil {
				return err.Error()
			}
			for _, e := range er {
				if e.Num > 2 {
					return fmt.Sprintf("map field %d has an entry with field %d", r.Num, e.Num)
				}
			}
			if i >= len(x.(map[any]any)) {
				return fmt.Sprintf("map field %d has too many entries", r.Num)
			}
		default:
			if i > 0 {
				return fmt.Sprintf("singular field %d is encoded twice", r.Num)
			}
			if f.Kind == model.Message {
				if s := checkForm(f.Msg, x.(*model.MV), r.Payload); s != "" {
					return s
				}
			}
		}
	}
	for n, x := range v.F {
		f := m.ByNum[n]
		if f.Card == model.Repeated && !f.Packed && count[n] != len(x.([]any)) {
			return fmt.Sprintf("list field %d: %d records for %d elements", n, count[n], len(x.([]any)))
		}
	}
	if len(v.Unk) > 0 && !bytes.Contains(b, v.Unk) {
		return "unknown fields are not written verbatim"
	}
	return ""
}

// c03: round trip
func c03(r *vrun.Run) {
	w := newWorld()
	forValues(r, w, r.Scale(150, 6000), r.Scale(250, 6000), r.Scale(10, 40), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := genValue(t, g, i)
		p := t.M.New(v, model.FillOpts{R: g})
		b := mustMarshal(c, t, p, v)
		q := reflect.New(t.M.Type)
		if err := prutal.Unmarshal(b, q.Interface()); err != nil {
			c.FailD(typeString(t.M), "Unmarshal of Marshal's output failed: %v; value %s bytes %s", err, model.Dump(v), hexcut(b))
		}
		if d := model.Diff(v, t.M.Read(q)); d != "" {
			c.FailD(typeString(t.M), "round trip changed the value: %s; value %s bytes %s", d, model.Dump(v), hexcut(b))
		}
		b2 := mustMarshal(c, t, q, v)
		if len(b2) != len(b) && !t.M.Any(func(f *model.Field) bool { return f.ByValue }) {
			c.FailD(typeString(t.M), "second encoding has %d bytes, the first %d; value %s", len(b2), len(b), model.Dump(v))
		}
		q2 := reflect.New(t.M.Type)
		if err := prutal.Unmarshal(b2, q2.Interface()); err != nil {
			c.FailD(typeString(t.M), "second round trip failed: %v", err)
		}
		if d := model.Diff(v, t.M.Read(q2)); d != "" {
			c.FailD(typeString(t.M), "second round trip changed the value: %s; value %s", d, model.Dump(v))
		}
		if model.Count(v) > 0 {
			c.Seen(t.Name, model.Dump(v))
		}
		c.Add("leaves_round_tripped", model.Count(v))
		if c.WantSample() && model.Count(v) > 3 {
			c.Sample(map[string]string{"type": typeString(t.M), "value": model.Dump(v), "encoding": hexcut(b)})
		}
	})
}

// c04: Size
func c04(r *vrun.Run) {
	w := newWorld()
	forValues(r, w, r.Scale(170, 8000), r.Scale(300, 8000), r.Scale(12, 40), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := genValue(t, g, i)
		p := t.M.New(v, model.FillOpts{R: g})
		checkSize(c, t, p, v)
		if model.Count(v) > 0 {
			c.Seen(t.Name, model.Dump(v))
		}
		if c.WantSample() && model.Count(v) > 3 {
			c.Sample(map[string]string{"type": typeString(t.M), "value": model.Dump(v)})
		}
	})
	sizeEdges(r, w)
}

func checkSize(c *vrun.Case, t *T, p reflect.Value, v *model.MV) {
	before := snapshot(p)
	n, err := prutal.Size(p.Interface())
	if d := before.diff(p); d != "" {
		c.FailD(typeString(t.M), "Size changed the value: %s", d)
	}
	b, err2 := prutal.Marshal(p.Interface())
	if (err == nil) != (err2 == nil) {
		c.FailD(typeString(t.M), "Size error %v, Marshal error %v; value %s", err, err2, model.Dump(v))
	}
	if err == nil && n != len(b) {
		c.FailD(typeString(t.M), "Size is %d but Marshal produced %d bytes; value %s", n, len(b), model.Dump(v))
	}
	c.Add("bytes_measured", len(b))
	if err != nil {
		c.Add("both_failed", 1)
	}
}

// sizeEdges: every scalar kind at every varint length boundary in every position.
func sizeEdges(r *vrun.Run, w *world) {
	for _, t := range w.types {
		t := t
		r.Do("edges/"+t.Name, func(c *vrun.Case) {
			for _, f := range t.M.Fields {
				if f.Kind == model.Message {
					continue
				}
				var xs []any
				if f.Kind == model.String || f.Kind == model.Bytes {
					for _, n := range []int{0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 2097151, 2097152} {
						if n > 20000 && f.Num != t.M.Fields[len(t.M.Fields)-1].Num {
							continue
						}
						xs = append(xs, string(make([]byte, n)))
					}
				} else {
					for k := 0; k <= 64; k++ {
						for d := -1; d <= 1; d++ {
							x := uint64(1)<<uint(k) + uint64(d)
							if k == 64 {
								x = uint64(d)
							}
							switch {
							case f.Kind == model.Bool:
								x &= 1
							case f.Kind.Is32():
								x = uint64(uint32(x))
							}
							if f.Kind == model.Float && x&0x7f800000 == 0x7f800000 {
								x = 1
							}
							xs = append(xs, x)
						}
					}
				}
				for _, x := range xs {
					v := model.NewMV()
					switch f.Card {
					case model.Repeated:
						v.F[f.Num] = []any{x, x}
					case model.Map:
						v.F[f.Num] = map[any]any{model.ZeroScalar(f.Key): x}
					default:
						v.F[f.Num] = x
					}
					t.M.Norm(v)
					checkSize(c, t, t.M.New(v, model.FillOpts{}), v)
					c.Eval(1)
					c.Seen(t.Name, model.Dump(v))
				}
				if f.Card == model.Map {
					g := model.NewRng(uint64(f.Num))
					for i := 0; i < 60; i++ {
						mm := map[any]any{model.GenScalar(g, f.Key, true): model.ZeroScalar(f.Kind)}
						v := model.NewMV()
						v.F[f.Num] = mm
						checkSize(c, t, t.M.New(v, model.FillOpts{}), v)
						c.Eval(1)
						c.Seen(t.Name, model.Dump(v))
					}
				}
			}
		})
	}
}

// c05: MarshalAppend appends only
func c05(r *vrun.Run) {
	w := newWorld()
	forValues(r, w, r.Scale(80, 3000), r.Scale(150, 4000), r.Scale(10, 30), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := genValue(t, g, i)
		p := t.M.New(v, model.FillOpts{R: g})
		before := snapshot(p)
		ref := mustMarshal(c, t, p, v)
		if d := before.diff(p); d != "" {
			c.FailD(typeString(t.M), "Marshal changed the value: %s; value %s", d, model.Dump(v))
		}
		n := len(ref)
		for k := 0; k < 6; k++ {
			plen := g.Pick(0, 0, 1, 2, 3, 7, 16, 64, 100, 127, 128)
			spare := g.Pick(0, 1, 2, n/2, n-1, n, n+1, n+7, n+200, 4096)
			if spare < 0 {
				spare = 0
			}
			var dst []byte
			const guard = 64
			back := make([]byte, plen+spare+guard)
			for j := range back {
				back[j] = byte(0xA5 ^ j)
			}
			orig := append([]byte(nil), back...)
			dst = back[: plen : plen+spare]
			if plen == 0 && spare == 0 && g.P(50) {
				dst = nil
			}
			out, err := prutal.MarshalAppend(dst, p.Interface())
			if err != nil {
				c.FailD(typeString(t.M), "MarshalAppend failed: %v", err)
			}
			where := fmt.Sprintf("prefix %d bytes, capacity %d", plen, plen+spare)
			if len(out) < plen || !bytes.Equal(out[:plen], orig[:plen]) {
				c.FailD(typeString(t.M), "MarshalAppend does not keep the prefix (%s)", where)
			}
			if !bytes.Equal(back[:plen], orig[:plen]) {
				c.FailD(typeString(t.M), "MarshalAppend overwrote the caller's prefix (%s)", where)
			}
			if !bytes.Equal(back[plen+spare:], orig[plen+spare:]) {
				c.FailD(typeString(t.M), "MarshalAppend wrote past the capacity (%s)", where)
			}
			if len(out)-plen != n {
				c.FailD(typeString(t.M), "MarshalAppend appended %d bytes, Marshal makes %d (%s); value %s", len(out)-plen, n, where, model.Dump(v))
			}
			if !t.M.HasMap() {
				if !bytes.Equal(out[plen:], ref) {
					c.FailD(typeString(t.M), "MarshalAppend appended other bytes than Marshal (%s); value %s", where, model.Dump(v))
				}
			} else {
				checkEncoding(c, w, t.M, v, out[plen:])
			}
			if d := before.diff(p); d != "" {
				c.FailD(typeString(t.M), "MarshalAppend changed the value: %s (%s)", d, where)
			}
			// the result shares no memory with v
			if s := overlapsValue(out, p); s != "" {
				c.FailD(typeString(t.M), "result shares memory with the value: %s", s)
			}
			c.Eval(1)
			c.Add("appends", 1)
			c.Seen(t.Name, model.Dump(v), where)
		}
		if c.WantSample() && model.Count(v) > 3 {
			c.Sample(map[string]string{"type": typeString(t.M), "value": model.Dump(v)})
		}
	})
}

// overlapsValue reports whether b's array overlaps any memory v refers to.
func overlapsValue(b []byte, p reflect.Value) string {
	if cap(b) == 0 {
		return ""
	}
	lo := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	hi := lo + uintptr(cap(b))
	for _, x := range regions(p) {
		if x.lo < hi && lo < x.hi {
			return fmt.Sprintf("%s", x.path)
		}
	}
	return ""
}
