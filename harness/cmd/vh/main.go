// Command vh runs the monitored workloads of the codec properties against prutal.
package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"

	"vharness/model"
	"vharness/types"
	"vharness/vrun"
)

var props = map[string]func(*vrun.Run){}

func main() {
	r := vrun.New()
	f := props[r.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(2)
	}
	f(r)
	r.Finish()
}

type T struct {
	Name string
	M    *model.Msg
}

// world is the set of types a run works on.
type world struct {
	off   *model.Official
	ld    *model.Loader
	types []*T
}

func newWorld() *world {
	w := &world{off: model.NewOfficial(), ld: model.NewLoader()}
	for _, x := range types.All {
		t := reflect.TypeOf(x).Elem()
		m, err := w.ld.Load(t)
		if err != nil {
			panic(err)
		}
		w.types = append(w.types, &T{t.Name(), m})
	}
	return w
}

func (w *world) byName(n string) *model.Msg {
	for _, t := range w.types {
		if t.Name == n {
			return t.M
		}
	}
	panic(n)
}

// random loads the i-th random type of a seed.
func (w *world) random(seed uint64, i int) *T {
	rt := types.Rand(model.NewRng(seed, 77, uint64(i)), 2)
	m, err := w.ld.Load(rt)
	if err != nil {
		panic(fmt.Sprintf("harness: %v: %v", rt, err))
	}
	m.Name = fmt.Sprintf("rand%d", i)
	return &T{m.Name, m}
}

func rngFor(r *vrun.Run, id string) *model.Rng { return model.NewRng(r.Seed, model.HashStr(id)) }

// forValues runs fn for n random values of every static type and nr values of each of
// rt random types.
func forValues(r *vrun.Run, w *world, n, rt, nr int, fn func(c *vrun.Case, t *T, g *model.Rng, i int)) {
	for _, t := range w.types {
		for i := 0; i < n; i++ {
			t, i := t, i
			id := fmt.Sprintf("%s/%d", t.Name, i)
			r.Do(id, func(c *vrun.Case) { fn(c, t, rngFor(r, id), i) })
		}
	}
	for k := 0; k < rt; k++ {
		var t *T
		for i := 0; i < nr; i++ {
			i := i
			id := fmt.Sprintf("rand%d/%d", k, i)
			r.Do(id, func(c *vrun.Case) {
				if t == nil {
					t = w.random(r.Seed, k)
				}
				fn(c, t, rngFor(r, id), i)
			})
		}
	}
}

func typeString(m *model.Msg) string {
	s := m.Name + "{"
	for i, f := range m.Fields {
		if i > 0 {
			s += "; "
		}
		s += f.String()
	}
	return s + "}"
}

func hexcut(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func sortedKinds(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
