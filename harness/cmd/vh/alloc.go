package main

import (
	"reflect"
	"runtime"
	"runtime/debug"
	"unsafe"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/vrun"
)

func init() { props["C17"] = c17 }

// mallocs is the least number of heap objects which a call of f makes once it has been called,
// whatever the runtime does on its own in between.
func mallocs(f func()) (least uint64, calls int) {
	f()
	least = ^uint64(0)
	var a, b runtime.MemStats
	for calls = 1; calls <= 8; calls++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n < least {
			least = n
		}
		if least == 0 {
			return
		}
	}
	return
}

// c17: Size makes no heap objects, and MarshalAppend uses the room of its destination.
func c17(r *vrun.Run) {
	debug.SetGCPercent(-1) // pools keep what they have
	runtime.GOMAXPROCS(1)
	w := newWorld()
	cases := 0
	forValues(r, w, r.Scale(60, 2500), r.Scale(120, 2500), r.Scale(10, 40), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		if cases++; cases%500 == 0 {
			runtime.GC()
		}
		v := genValue(t, g, i)
		p := t.M.New(v, model.FillOpts{R: g})
		checkMallocs(c, t, p, v, g)
		if model.Count(v) > 0 {
			c.Seen(t.Name, model.Dump(v))
		}
		if c.WantSample() && model.Count(v) > 3 {
			c.Sample(map[string]string{"type": typeString(t.M), "value": model.Dump(v)})
		}
	})
}

func checkMallocs(c *vrun.Case, t *T, p reflect.Value, v *model.MV, g *model.Rng) {
	x := p.Interface()
	size, err := prutal.Size(x)
	if err != nil {
		c.FailD(typeString(t.M), "Size: %v; value %s", err, model.Dump(v))
	}
	n, calls := mallocs(func() { prutal.Size(x) })
	c.Add("calls_measured", calls)
	if n != 0 {
		c.FailD(typeString(t.M), "Size makes %d heap objects each time; value %s", n, model.Dump(v))
	}
	pre, room := g.N(40), 0
	if g.P(50) {
		room = g.N(300)
	}
	dst := make([]byte, pre, pre+size+room)
	if cap(dst) == 0 {
		return // nothing to point to
	}
	var b []byte
	n, calls = mallocs(func() { b, err = prutal.MarshalAppend(dst, x) })
	c.Add("calls_measured", calls)
	c.Add("bytes_appended", size)
	switch {
	case err != nil || len(b) != pre+size:
		c.FailD(typeString(t.M), "MarshalAppend: %v, %d bytes, Size says %d; value %s", err, len(b)-pre, size, model.Dump(v))
	case unsafe.SliceData(b) != unsafe.SliceData(dst):
		c.FailD(typeString(t.M), "MarshalAppend leaves a destination with %d bytes of room for %d; value %s", cap(dst)-pre, size, model.Dump(v))
	case n == 0:
		c.Add("appends_without_heap_objects", 1)
	}
}
