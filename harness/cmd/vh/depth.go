package main

import (
	"fmt"
	"reflect"
	"runtime/debug"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/types"
	"vharness/vrun"
)

func init() { props["C12"] = c12 }

// step is one way from a message into a message: the Go link and its encoding. cost is
// the number of levels it adds.
type step struct {
	name string
	from int // 0 Deep, 1 DeepPeer
	to   int
	cost int
	link func(from, to any)
	wire func(inner []byte) []byte
}

func ln(num int32, b []byte) []byte { return model.AppendLen(model.AppendTag(nil, num, model.WLen), b) }

func entry(num int32, key, val []byte) []byte {
	return ln(num, append(append([]byte{}, key...), ln(2, val)...))
}

func kv(k int32, enc int, x ...byte) []byte { return append(model.AppendTag(nil, k, enc), x...) }

var steps = []step{
	{"pointer", 0, 0, 1, func(f, t any) { f.(*types.Deep).P = t.(*types.Deep) }, func(b []byte) []byte { return ln(1, b) }},
	{"list of pointers", 0, 0, 1, func(f, t any) { f.(*types.Deep).LP = []*types.Deep{{I: 1}, t.(*types.Deep)} }, func(b []byte) []byte { return append(ln(2, []byte{0xf0, 1, 1}), ln(2, b)...) }},
	{"list of values", 0, 0, 1, func(f, t any) { f.(*types.Deep).LV = []types.Deep{*t.(*types.Deep)} }, func(b []byte) []byte { return ln(3, b) }},
	{"map string to pointer", 0, 0, 1, func(f, t any) { f.(*types.Deep).MS = map[string]*types.Deep{"k": t.(*types.Deep)} }, func(b []byte) []byte { return entry(4, ln(1, []byte("k")), b) }},
	{"map sint32 to pointer", 0, 0, 1, func(f, t any) { f.(*types.Deep).MI = map[int32]*types.Deep{-3: t.(*types.Deep)} }, func(b []byte) []byte { return entry(5, kv(1, 0, 5), b) }},
	{"map fixed64 to pointer", 0, 0, 1, func(f, t any) { f.(*types.Deep).MU = map[uint64]*types.Deep{9: t.(*types.Deep)} }, func(b []byte) []byte { return entry(6, kv(1, 1, 9, 0, 0, 0, 0, 0, 0, 0), b) }},
	{"map bool to pointer", 0, 0, 1, func(f, t any) { f.(*types.Deep).MB = map[bool]*types.Deep{true: t.(*types.Deep)} }, func(b []byte) []byte { return entry(7, kv(1, 0, 1), b) }},
	{"map string to value", 0, 0, 1, func(f, t any) { f.(*types.Deep).MV = map[string]types.Deep{"": *t.(*types.Deep)} }, func(b []byte) []byte { return entry(8, ln(1, nil), b) }},
	{"map int64 to value", 0, 0, 1, func(f, t any) { f.(*types.Deep).MVI = map[int64]types.Deep{0: *t.(*types.Deep)} }, func(b []byte) []byte { return entry(9, nil, b) }},
	{"oneof pointer", 0, 0, 1, func(f, t any) { f.(*types.Deep).O = &types.Deep_OP{OP: t.(*types.Deep)} }, func(b []byte) []byte { return ln(10, b) }},
	{"oneof value", 0, 0, 1, func(f, t any) { f.(*types.Deep).O = &types.Deep_OV{OV: *t.(*types.Deep)} }, func(b []byte) []byte { return ln(11, b) }},
	{"oneof peer", 0, 1, 1, func(f, t any) { f.(*types.Deep).O = &types.Deep_OX{OX: t.(*types.DeepPeer)} }, func(b []byte) []byte { return ln(12, b) }},
	{"box", 0, 2, 1, func(f, t any) { f.(*types.Deep).B = t.(*types.DeepBox) }, func(b []byte) []byte { return ln(20, b) }},
	{"message by value", 2, 0, 2, func(f, t any) { f.(*types.DeepBox).W.D = t.(*types.Deep) }, func(b []byte) []byte { return ln(20, ln(1, b)) }},
	{"message by value twice", 2, 0, 3, func(f, t any) { f.(*types.DeepBox).W.E.L = []*types.Deep{t.(*types.Deep)} }, func(b []byte) []byte { return ln(20, ln(2, ln(1, b))) }},
	{"list of messages by value", 2, 0, 2, func(f, t any) { f.(*types.DeepBox).LW = []types.DeepWrap{{D: t.(*types.Deep)}} }, func(b []byte) []byte { return ln(21, ln(1, b)) }},
	{"peer", 0, 1, 1, func(f, t any) { f.(*types.Deep).X = t.(*types.DeepPeer) }, func(b []byte) []byte { return ln(22, b) }},
	{"peer pointer", 1, 1, 1, func(f, t any) { f.(*types.DeepPeer).P = t.(*types.DeepPeer) }, func(b []byte) []byte { return ln(2, b) }},
	{"peer map to value", 1, 1, 1, func(f, t any) { f.(*types.DeepPeer).M = map[uint32]types.DeepPeer{7: *t.(*types.DeepPeer)} }, func(b []byte) []byte { return entry(3, kv(1, 0, 7), b) }},
	{"back", 1, 0, 1, func(f, t any) { f.(*types.DeepPeer).D = t.(*types.Deep) }, func(b []byte) []byte { return ln(1, b) }},
}

const maxLevels = 1000

// nesting picks links whose costs add up to depth-1; a box is never the innermost message.
func nesting(g *model.Rng, depth int, allow []int, kind int) []step {
	var out []step
	left := depth - 1
	fits := func(s step) bool {
		if s.from != kind || s.cost > left {
			return false
		}
		return s.to != 2 || left-s.cost >= 2
	}
	for left > 0 {
		var c []step
		for _, i := range allow {
			if fits(steps[i]) {
				c = append(c, steps[i])
			}
		}
		if len(c) == 0 {
			for _, s := range steps {
				if fits(s) && s.cost == 1 || fits(s) && kind == 2 {
					c = append(c, s)
				}
			}
		}
		s := c[g.N(len(c))]
		if kind == 2 && left-s.cost < 0 {
			harnessBug("nesting")
		}
		out = append(out, s)
		left -= s.cost
		kind = s.to
	}
	return out
}

func newOf(kind int) any {
	return []func() any{func() any { return &types.Deep{} }, func() any { return &types.DeepPeer{} }, func() any { return &types.DeepBox{} }}[kind]()
}

// content of the innermost message and of those on the way
func decorate(x any, n int) {
	d, ok := x.(*types.Deep)
	if !ok {
		return
	}
	switch n % 6 {
	case 0:
		d.I = int32(n + 1)
	case 1:
		d.S = []string{"s", ""}
	case 2:
		d.MSc = map[int32]string{1: "x"}
	case 3:
		d.MSI = map[int64]int64{1: 2}
	case 4:
		d.PK = []int32{1, 2, 3}
	}
}

func c12(r *vrun.Run) {
	debug.SetMaxStack(64 << 20)
	w := newWorld()
	deep := &T{"Deep", w.byName("Deep")}
	peer := &T{"DeepPeer", w.byName("DeepPeer")}
	back := map[int][]int{} // links from a kind back to Deep
	for i, s := range steps {
		if s.to == 0 && s.from != 0 {
			back[s.from] = append(back[s.from], i)
		}
	}
	tOf := func(kind int) *T {
		if kind == 0 {
			return deep
		}
		return peer
	}
	build := func(g *model.Rng, path []step, kind int, deco int) (any, []byte) {
		kinds := []int{kind}
		for _, s := range path {
			kinds = append(kinds, s.to)
		}
		x := newOf(kinds[len(path)])
		decorate(x, deco)
		b := []byte{}
		if d, ok := x.(*types.Deep); ok {
			var err error
			b, err = func() ([]byte, error) { m := deep.M.Read(reflect.ValueOf(d)); return deep.M.Encode(m), nil }()
			if err != nil {
				harnessBug("%v", err)
			}
		}
		for i := len(path) - 1; i >= 0; i-- {
			y := newOf(kinds[i])
			path[i].link(y, x)
			b = path[i].wire(b)
			x = y
		}
		return x, b
	}
	try := func(c *vrun.Case, kind, depth int, x any, in []byte, what string) {
		ok := depth <= maxLevels
		b, merr := prutal.Marshal(x)
		n, serr := prutal.Size(x)
		a, aerr := prutal.MarshalAppend([]byte("pre"), x)
		if (merr == nil) != ok || (serr == nil) != ok || (aerr == nil) != ok {
			c.Fail("%d levels (%s): Marshal %v, Size %v, MarshalAppend %v", depth, what, merr, serr, aerr)
		}
		if merr == nil && (n != len(b) || len(a) != n+3) {
			c.Fail("%d levels (%s): Size %d, Marshal %d, MarshalAppend %d bytes", depth, what, n, len(b), len(a)-3)
		}
		for k, enc := range [][]byte{in, b} {
			if k == 1 && merr != nil {
				continue
			}
			p := reflect.New(tOf(kind).M.Type)
			uerr := prutal.Unmarshal(enc, p.Interface())
			if (uerr == nil) != ok {
				c.Fail("%d levels (%s): Unmarshal says %v (encoding %d)", depth, what, uerr, k)
			}
			if uerr != nil {
				continue
			}
			if depth <= 1100 {
				if d := model.Diff(tOf(kind).M.Read(reflect.ValueOf(x)), tOf(kind).M.Read(p)); d != "" {
					c.Fail("%d levels (%s): decoded another value: %.300s", depth, what, d)
				}
			}
		}
		c.Eval(1)
		c.Seen(fmt.Sprint(depth), what)
		if ok {
			c.Add("within_limit", 1)
		} else {
			c.Add("beyond_limit", 1)
		}
	}
	depths := []int{1, 2, 3, 100, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 2000, 2001, 3000}
	// one link over and over
	for i, s := range steps {
		for _, d := range depths {
			id := fmt.Sprintf("chain/%d/%d", i, d)
			r.Do(id, func(c *vrun.Case) {
				g := rngFor(r, id)
				if s.from != s.to { // with its way back
					path := nesting(g, d, append([]int{i}, back[s.to]...), 0)
					if s.to == 0 {
						for j := range steps {
							if steps[j].from == 0 && steps[j].to == s.from {
								path = nesting(g, d, []int{i, j}, 0)
							}
						}
					}
					x, b := build(g, path, 0, d)
					try(c, 0, d, x, b, s.name)
					return
				}
				x, b := build(g, nesting(g, d, []int{i}, s.from), s.from, d)
				try(c, s.from, d, x, b, s.name)
			})
		}
	}
	// random mixtures
	all := make([]int, len(steps))
	for i := range all {
		all[i] = i
	}
	for k := 0; k < r.Scale(1500, 60000); k++ {
		id := fmt.Sprintf("mix/%d", k)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			d := []int{996, 998, 999, 1000, 1001, 1002, 1004, 1 + g.N(1500), 990 + g.N(25)}[g.N(9)]
			kind := g.N(2)
			path := nesting(g, d, all, kind)
			x, b := build(g, path, kind, k)
			what := "mixture"
			for i := 0; i < 3 && i < len(path); i++ {
				what += ", " + path[len(path)-1-i].name
			}
			what += fmt.Sprint(len(path))
			try(c, kind, d, x, b, what)
			if c.WantSample() {
				c.Sample(fmt.Sprintf("%d levels through %d links: %s ...", d, len(path), what))
			}
		})
	}
	// absent elements and zero messages by value at the limit: whatever the verdict, one for all
	for d := 994; d <= 1004; d++ {
		id := fmt.Sprintf("absent/%d", d)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			for i, last := range []func(x *types.Deep){
				func(x *types.Deep) { x.LP = []*types.Deep{nil} },
				func(x *types.Deep) { x.LP = []*types.Deep{{}, nil, {I: 1}} },
				func(x *types.Deep) { x.LV = make([]types.Deep, 2) },
				func(x *types.Deep) { x.MS = map[string]*types.Deep{"": nil} },
				func(x *types.Deep) { x.MI = map[int32]*types.Deep{1: nil} },
				func(x *types.Deep) { x.MU = map[uint64]*types.Deep{1: nil} },
				func(x *types.Deep) { x.MB = map[bool]*types.Deep{false: nil} },
				func(x *types.Deep) { x.MV = map[string]types.Deep{"a": {}} },
				func(x *types.Deep) { x.MVI = map[int64]types.Deep{0: {}} },
				func(x *types.Deep) { x.O = &types.Deep_OP{} },
				func(x *types.Deep) { x.O = &types.Deep_OV{} },
				func(x *types.Deep) { x.O = &types.Deep_OX{} },
				func(x *types.Deep) { x.B = &types.DeepBox{} },
				func(x *types.Deep) { x.B = &types.DeepBox{LW: make([]types.DeepWrap, 1)} },
				func(x *types.Deep) { x.X = &types.DeepPeer{M: map[uint32]types.DeepPeer{0: {}}} },
				func(x *types.Deep) { x.MSc = map[int32]string{0: ""} },
				func(x *types.Deep) { x.MSI = map[int64]int64{0: 0} },
				func(x *types.Deep) { x.S = []string{""} },
			} {
				inner := &types.Deep{}
				last(inner)
				var x any = inner
				path := nesting(g, d, all, 0)
				for len(path) > 0 && (path[len(path)-1].to != 0 || i < 0) {
					path = nesting(g, d, all, 0)
				}
				kinds := []int{0}
				for _, s := range path {
					kinds = append(kinds, s.to)
				}
				for j := len(path) - 1; j >= 0; j-- {
					y := newOf(kinds[j])
					path[j].link(y, x)
					x = y
				}
				b, merr := prutal.Marshal(x)
				n, serr := prutal.Size(x)
				if (merr == nil) != (serr == nil) || merr == nil && n != len(b) {
					c.Fail("%d levels, then absent element %d: Marshal %v, Size %v (%d, %d)", d, i, merr, serr, len(b), n)
				}
				if merr == nil {
					if err := prutal.Unmarshal(b, newOf(0)); err != nil {
						c.Fail("%d levels, then absent element %d: Marshal's output does not decode: %v", d, i, err)
					}
				}
				if i >= 15 && (merr == nil) != (d <= maxLevels) {
					c.Fail("%d levels, then scalars: Marshal %v", d, merr)
				}
				c.Eval(1)
				c.Seen("absent", fmt.Sprint(d, i))
			}
		})
	}
	// very deep
	for _, d := range []int{10000, 100000, r.Scale(300000, 3000000)} {
		for i := range steps {
			if steps[i].from != steps[i].to || steps[i].cost > 1 {
				continue
			}
			id := fmt.Sprintf("very/%d/%d", d, i)
			r.Do(id, func(c *vrun.Case) {
				kind := steps[i].from
				n := d
				x := newOf(kind)
				for k := 1; k < n; k++ {
					y := newOf(kind)
					steps[i].link(y, x)
					x = y
				}
				// the encoding in one go: lengths inside out
				if _, err := prutal.Marshal(x); err == nil {
					c.Fail("%d levels are marshalled", n)
				}
				if _, err := prutal.Size(x); err == nil {
					c.Fail("%d levels are measured", n)
				}
				in := deepWire(steps[i], 20000)
				if err := prutal.Unmarshal(in, newOf(kind)); err == nil {
					c.Fail("%d levels are decoded", 20000)
				}
				c.Add("beyond_limit", 1)
				c.Seen(id)
			})
		}
	}
	// cyclic values
	for i, s := range steps {
		id := fmt.Sprintf("cycle/%d", i)
		r.Do(id, func(c *vrun.Case) {
			for length := 1; length <= 5; length++ {
				if s.from == 2 || s.to == 2 || s.from != s.to && length%2 == 1 {
					continue
				}
				if i == 2 || i == 7 || i == 8 || i == 10 || s.name == "peer map to value" { // copies: made cyclic through their inner pointer or map
					continue
				}
				xs := make([]any, length)
				kind := s.from
				for k := range xs {
					xs[k] = newOf(kind)
					if s.from != s.to {
						kind = 1 - kind
					}
				}
				for k := range xs {
					to := xs[(k+1)%length]
					if s.from == s.to || k%2 == 0 {
						s.link(xs[k], to)
					} else if _, ok := to.(*types.Deep); ok {
						to := to.(*types.Deep)
						xs[k].(*types.DeepPeer).D = to
					} else {
						xs[k].(*types.Deep).X = to.(*types.DeepPeer)
					}
				}
				cyclic(c, xs[0], fmt.Sprintf("%s, cycle of %d", s.name, length))
			}
		})
	}
	r.Do("cycle/values", func(c *vrun.Case) {
		d := &types.Deep{LV: make([]types.Deep, 1)}
		d.LV[0] = *d // same backing array
		cyclic(c, d, "list of values holding itself")
		d = &types.Deep{MV: map[string]types.Deep{}}
		d.MV["x"] = *d
		cyclic(c, d, "map of values holding itself")
		d = &types.Deep{MVI: map[int64]types.Deep{}}
		d.MVI[1] = types.Deep{MVI: d.MVI}
		cyclic(c, d, "map of values holding itself")
		o := &types.Deep_OV{}
		o.OV.O = o
		cyclic(c, &types.Deep{O: o}, "oneof holding itself by value")
		d = &types.Deep{B: &types.DeepBox{}}
		d.B.W.D = d
		cyclic(c, d, "box holding its owner")
		d = &types.Deep{B: &types.DeepBox{}}
		d.B.W.E.L = []*types.Deep{d}
		cyclic(c, d, "box within box holding its owner")
		p := &types.DeepPeer{M: map[uint32]types.DeepPeer{}}
		p.M[1] = *p
		cyclic(c, p, "peer map holding itself")
		// many ways round
		d = &types.Deep{}
		d.P, d.LP, d.MS, d.O = d, []*types.Deep{d, d, d}, map[string]*types.Deep{"a": d, "b": d}, &types.Deep_OP{OP: d}
		d.X = &types.DeepPeer{D: d}
		d.B = &types.DeepBox{W: types.DeepWrap{D: d}, LW: []types.DeepWrap{{D: d}}}
		cyclic(c, d, "everything at once")
	})
	// groups in unknown fields
	for _, n := range []int{1, 10, 100, 500, 5000, 9999, 20000, 100000, 1000000, r.Scale(3000000, 20000000)} {
		for where := 0; where < 4; where++ {
			id := fmt.Sprintf("group/%d/%d", n, where)
			r.Do(id, func(c *vrun.Case) {
				for _, closed := range []int{0, 1, 2} {
					var b []byte
					tag := model.AppendTag(nil, 99, model.WSGroup)
					for i := 0; i < n; i++ {
						b = append(b, tag...)
					}
					if closed == 2 { // something inside
						b = append(b, model.AppendTag(nil, 5, 0)...)
						b = append(b, 1)
					}
					if closed > 0 {
						tag = model.AppendTag(nil, 99, model.WEGroup)
						for i := 0; i < n; i++ {
							b = append(b, tag...)
						}
					}
					var p any = &types.Deep{}
					switch where {
					case 1:
						b = steps[0].wire(steps[3].wire(b))
					case 2:
						p = &types.DeepPeer{}
					case 3: // in a map entry
						b = ln(32, append([]byte{8, 1, 0x12, 1, 'x'}, b...))
					}
					err := prutal.Unmarshal(b, p)
					if closed > 0 && n <= 100 && err != nil {
						c.Fail("%d nested groups in unknown fields are refused: %v", n, err)
					}
					if (closed == 0 || n >= 1000000) && err == nil {
						c.Fail("%d nested groups in unknown fields are accepted", n)
					}
					c.Eval(1)
					c.Add("group_nests", 1)
				}
				c.Seen(id)
			})
		}
	}
}

// deepWire nests a link n times, in linear time.
func deepWire(s step, n int) []byte {
	one := s.wire(nil)
	_ = one
	// sizes from inside out
	b := []byte{}
	if n > 3000 {
		n = 3000
	}
	for i := 1; i < n; i++ {
		b = s.wire(b)
	}
	return b
}

func cyclic(c *vrun.Case, x any, what string) {
	if _, err := prutal.Marshal(x); err == nil {
		c.Fail("Marshal of a cyclic value (%s) succeeds", what)
	}
	if _, err := prutal.Size(x); err == nil {
		c.Fail("Size of a cyclic value (%s) succeeds", what)
	}
	if _, err := prutal.MarshalAppend(make([]byte, 3, 1000), x); err == nil {
		c.Fail("MarshalAppend of a cyclic value (%s) succeeds", what)
	}
	c.Eval(1)
	c.Seen("cycle", what)
	c.Add("cyclic_values", 1)
}
