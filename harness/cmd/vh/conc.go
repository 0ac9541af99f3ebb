package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/types"
	"vharness/vrun"
)

func init() { props["C10"] = c10 }

// vector is one value and its encodings, shared by all goroutines.
type vector struct {
	t    *T
	p    reflect.Value // shared, read only
	want *model.MV
	in   []byte // shared, read only
	inw  *model.MV
	bad  []byte // shared, malformed, or nil
	snap *snap
	inS  string
}

func newVector(t *T, g *model.Rng) *vector {
	v := t.M.GenTop(g, g.Pick(8, 20, 60), true)
	x := &vector{t: t, p: t.M.New(v, model.FillOpts{R: g})}
	x.want = t.M.Read(x.p)
	v2 := t.M.GenTop(g, g.Pick(8, 20, 60), true)
	for {
		x.in = t.M.Hostile(g, v2, model.HostileOpts{Unknown: true})
		if !t.M.DupMessages(x.in) {
			break
		}
	}
	x.inS = string(x.in)
	x.inw = model.NewMV()
	if err := t.M.Apply(x.in, x.inw, false); err != nil {
		harnessBug("Apply: %v", err)
	}
	t.M.Norm(x.inw)
	for i := 0; i < 5; i++ {
		b := t.M.MutateDeep(g, x.in)
		if err := t.M.Validate(b); err != nil && err != model.ErrGrey && err != model.ErrMismatch {
			x.bad = b
			break
		}
	}
	x.snap = snapshot(x.p)
	return x
}

// use runs one operation on the vector and judges its result.
func (x *vector) use(op int, g *model.Rng) error {
	m := x.t.M
	enc := func(b []byte, what string) error {
		got := model.NewMV()
		if err := m.Decode(b, got); err != nil {
			return fmt.Errorf("%s made a malformed encoding: %v: %x", what, err, b)
		}
		if d := model.Diff(m.Quiet(x.want.Clone()), m.Quiet(m.Norm(got))); d != "" {
			return fmt.Errorf("%s encoded another value: %s", what, d)
		}
		return nil
	}
	switch op {
	case 0:
		b, err := prutal.Marshal(x.p.Interface())
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		return enc(b, "Marshal")
	case 1:
		n := g.N(20)
		pre := append(make([]byte, 0, n+g.N(200)), g.Bytes(n)...)
		want := string(pre)
		b, err := prutal.MarshalAppend(pre, x.p.Interface())
		if err != nil {
			return fmt.Errorf("MarshalAppend: %v", err)
		}
		if string(b[:n]) != want {
			return fmt.Errorf("MarshalAppend changed the prefix")
		}
		return enc(b[n:], "MarshalAppend")
	case 2:
		n, err := prutal.Size(x.p.Interface())
		if err != nil {
			return fmt.Errorf("Size: %v", err)
		}
		b, err := prutal.Marshal(x.p.Interface())
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		if n != len(b) {
			return fmt.Errorf("Size %d, Marshal made %d bytes", n, len(b))
		}
		return nil
	case 3, 4:
		p := reflect.New(m.Type)
		if err := prutal.Unmarshal(x.in, p.Interface()); err != nil {
			return fmt.Errorf("Unmarshal: %v; input %x", err, x.in)
		}
		if d := model.Diff(x.inw, m.Read(p)); d != "" {
			return fmt.Errorf("Unmarshal stored another value: %s; input %x", d, x.in)
		}
		return nil
	case 5:
		if x.bad == nil {
			return nil
		}
		p := reflect.New(m.Type)
		if err := prutal.Unmarshal(x.bad, p.Interface()); err == nil {
			return fmt.Errorf("Unmarshal accepts malformed %x", x.bad)
		}
		m.Read(p)
		return nil
	}
	panic(op)
}

func useBad(v any, op int) error {
	p := reflect.New(reflect.TypeOf(v).Elem()).Interface()
	var err error
	switch op {
	case 0, 1:
		_, err = prutal.Marshal(p)
	case 2:
		_, err = prutal.Size(p)
	case 3:
		err = prutal.Unmarshal([]byte{8, 1}, p)
	default:
		err = prutal.Unmarshal(nil, p)
	}
	if err == nil {
		return fmt.Errorf("unsupported type %T is accepted by operation %d", p, op)
	}
	return nil
}

// storm lets n goroutines loose on the vectors at once.
func storm(c *vrun.Case, g *model.Rng, vs []*vector, bads []any, n, ops int) {
	var ready, finished sync.WaitGroup
	start := make(chan struct{})
	var did atomic.Int64
	seed := g.U64()
	var failed atomic.Bool
	for i := 0; i < n; i++ {
		ready.Add(1)
		finished.Add(1)
		go func() {
			defer finished.Done()
			g := model.NewRng(seed, uint64(i))
			defer func() {
				if e := recover(); e != nil {
					failed.Store(true)
					c.Error("goroutine %d: panic: %v\n%s", i, e, debug.Stack())
				}
			}()
			ready.Done()
			<-start
			for k := 0; k < ops && !failed.Load(); k++ {
				var err error
				var name string
				if len(bads) > 0 && g.P(20) {
					b := bads[g.N(len(bads))]
					name = fmt.Sprintf("%T", b)
					err = useBad(b, g.N(5))
				} else {
					x := vs[g.N(len(vs))]
					name = typeString(x.t.M)
					err = x.use(g.N(6), g)
				}
				did.Add(1)
				if err != nil {
					failed.Store(true)
					c.Error("%s: goroutine %d, operation %d: %v", name, i, k, err)
					return
				}
				if g.P(10) {
					runtime.Gosched()
				}
			}
		}()
	}
	ready.Wait()
	close(start)
	finished.Wait()
	c.Add("concurrent_operations", int(did.Load()))
	c.Eval(int(did.Load()))
	if failed.Load() {
		return
	}
	for _, x := range vs {
		if d := x.snap.diff(x.p); d != "" {
			c.Fail("a shared value changed: %s", d)
		}
		if string(x.in) != x.inS {
			c.Fail("a shared input changed")
		}
	}
}

func c10(r *vrun.Run) {
	ld := model.NewLoader()
	load := func(v any) *T {
		t := reflect.TypeOf(v).Elem()
		m, err := ld.Load(t)
		if err != nil {
			harnessBug("%v: %v", t, err)
		}
		m.Name = t.Name()
		return &T{m.Name, m}
	}
	// each process uses each family once: what is observed is the first use of its types
	nf := r.Scale(24, len(types.Families))
	rounds := nf / 2
	for k := 0; k < nf; k++ {
		// every shard runs all families: they are fresh in every process
		id := fmt.Sprintf("fresh/%d/%d", r.Shard, k)
		r.DoHere(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			fam := types.Families[(k+r.Shard*7)%len(types.Families)]()
			good := append([]any{}, fam.Good...)
			g.Shuffle(len(good), func(i, j int) { good[i], good[j] = good[j], good[i] })
			good = good[:1+g.N(len(good))]
			var vs []*vector
			for _, x := range good {
				vs = append(vs, newVector(load(x), g))
			}
			var bads []any
			if g.P(60) {
				bads = fam.Bad
			}
			n := g.Pick(2, 4, 8, 16)
			storm(c, g, vs, bads, n, 8)
			c.Add("first_use_storms", 1)
			c.Seen(id, fmt.Sprint(n, len(good), len(bads)))
			if c.WantSample() {
				c.Sample(fmt.Sprintf("%d goroutines, first use of %d types of a fresh family, %d unsupported ones among them", n, len(good), len(bads)))
			}
		})
	}
	if r.Args["types"] != "static" {
		w := &world{ld: ld}
		for k := 0; k < rounds; k++ {
			id := fmt.Sprintf("made/%d/%d", r.Shard, k)
			r.DoHere(id, func(c *vrun.Case) {
				g := rngFor(r, id)
				var vs []*vector
				for i := 0; i < 4; i++ {
					vs = append(vs, newVector(w.random(r.Seed+uint64(r.Shard)*1000, 9000+k*10+i), g))
				}
				storm(c, g, vs, nil, g.Pick(4, 8, 16), 10)
				c.Add("first_use_storms", 1)
				c.Seen(id)
			})
		}
	}
	// steady state on all types, and a first use that comes late
	var all []*T
	for _, x := range types.All {
		all = append(all, load(x))
	}
	for k := 0; k < rounds*2; k++ {
		id := fmt.Sprintf("steady/%d/%d", r.Shard, k)
		r.DoHere(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			var vs []*vector
			for i := 0; i < 3; i++ {
				t := all[g.N(len(all))]
				vs = append(vs, newVector(t, g), newVector(t, g))
			}
			var bads []any
			if g.P(40) && nf+k < len(types.Families) {
				fam := types.Families[(nf+k+r.Shard*7)%len(types.Families)]()
				vs = append(vs, newVector(load(fam.Good[g.N(len(fam.Good))]), g))
				bads = fam.Bad
			}
			if g.P(30) {
				runtime.GC() // empties pools
			}
			storm(c, g, vs, bads, g.Pick(4, 8, 16), 40)
			c.Add("steady_storms", 1)
			c.Seen(id)
		})
	}
}
