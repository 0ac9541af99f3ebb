package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/vrun"
)

func init() { props["C08"] = c08 }

// content hashes everything reachable from v, by content and not by address.
func content(v reflect.Value) uint64 {
	h := fnv.New64a()
	var buf [8]byte
	num := func(x uint64) {
		for i := range buf {
			buf[i] = byte(x >> (8 * i))
		}
		h.Write(buf[:])
	}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 3000 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				num(0)
				return
			}
			num(1)
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if v.IsNil() {
				num(0)
				return
			}
			h.Write([]byte(v.Elem().Type().String()))
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice:
			num(uint64(v.Len()))
			if v.Type().Elem().Kind() == reflect.Uint8 {
				h.Write(v.Bytes())
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.String:
			s := v.String()
			num(uint64(len(s)))
			h.Write([]byte(s))
		case reflect.Map:
			num(uint64(v.Len()))
			var all []uint64
			it := v.MapRange()
			for it.Next() {
				all = append(all, content(it.Key())*31+content(it.Value()))
			}
			sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
			for _, x := range all {
				num(x)
			}
		case reflect.Bool:
			if v.Bool() {
				num(1)
			} else {
				num(0)
			}
		case reflect.Float32, reflect.Float64:
			num(math.Float64bits(v.Float()))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			num(uint64(v.Int()))
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
			num(v.Uint())
		}
	}
	walk(v, 0)
	return h.Sum64()
}

// part is a piece of a decoded value kept alone.
type part struct {
	v    reflect.Value
	path string
	sum  uint64
	from string
}

type live struct {
	t     *T
	p     reflect.Value
	want  *model.MV
	in    []byte
	inSum []byte
	id    int
}

// pieces lists strings, slices, maps and pointers inside p.
func pieces(p reflect.Value) []part {
	var out []part
	var walk func(v reflect.Value, path string, depth int)
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 50 || len(out) > 200 {
			return
		}
		add := func() { out = append(out, part{v: detach(v), path: path}) }
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				if depth > 0 {
					add()
				}
				walk(v.Elem(), path, depth+1)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path, depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
			}
		case reflect.Slice:
			if v.Len() > 0 {
				add()
				if hasRefs(v.Type().Elem()) {
					walk(v.Index(v.Len()/2), path+"[]", depth+1)
				}
			}
		case reflect.String:
			if v.Len() > 0 {
				add()
			}
		case reflect.Map:
			if v.Len() > 0 {
				add()
				it := v.MapRange()
				it.Next()
				walk(it.Key(), path+"{k}", depth+1)
				walk(it.Value(), path+"{v}", depth+1)
			}
		}
	}
	walk(p, "", 0)
	return out
}

// detach copies the header of a piece, so that nothing but the piece itself is kept.
func detach(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		return reflect.ValueOf(s[len(s)/3:]) // an inner part, as callers do
	case reflect.Slice:
		if v.CanAddr() {
			v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
		}
		if !v.CanInterface() {
			return v
		}
		return reflect.ValueOf(v.Slice(v.Len()/3, v.Len()).Interface())
	case reflect.Pointer:
		if v.CanInterface() {
			return reflect.ValueOf(v.Interface())
		}
		return reflect.NewAt(v.Type().Elem(), v.UnsafePointer())
	case reflect.Map:
		if v.CanInterface() {
			return reflect.ValueOf(v.Interface())
		}
	}
	return v
}

// scratchWrite appends to every slice of p within its capacity, as a caller may.
func scratchWrite(p reflect.Value, g *model.Rng) int {
	n := 0
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 3000 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Value(), depth+1)
			}
		case reflect.Slice:
			if v.Cap() == 0 {
				return
			}
			if v.CanAddr() {
				v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
			}
			if spare := v.Cap() - v.Len(); spare > 0 && v.CanInterface() {
				full := v.Slice3(0, v.Cap(), v.Cap())
				for i := v.Len(); i < v.Cap(); i++ {
					e := full.Index(i)
					switch e.Kind() {
					case reflect.Uint8, reflect.Uint32, reflect.Uint64:
						e.SetUint(g.U64() & 0xff)
					case reflect.Int32, reflect.Int64:
						e.SetInt(int64(int32(g.U64())))
					case reflect.Float32, reflect.Float64:
						e.SetFloat(float64(g.N(1 << 20)))
					case reflect.Bool:
						e.SetBool(true)
					case reflect.String:
						e.SetString("appended")
					default:
						e.Set(reflect.Zero(e.Type()))
					}
					n++
				}
			}
			if hasRefs(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), depth+1)
				}
			}
		}
	}
	walk(p, 0)
	return n
}

// overwrite changes every byte of every []byte of p and every number of every list.
func overwrite(p reflect.Value, g *model.Rng) {
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 3000 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if strings.HasPrefix(v.Type().Field(i).Name, "XXX_") || v.Type().Field(i).Name == "unknownFields" {
					continue // would no longer be a well-formed value
				}
				walk(v.Field(i), depth+1)
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Value(), depth+1)
			}
		case reflect.Slice:
			switch v.Type().Elem().Kind() {
			case reflect.Uint8:
				b := v.Bytes()
				for i := range b {
					b[i] ^= 0xff
				}
			case reflect.Int32, reflect.Int64:
				for i := 0; i < v.Len(); i++ {
					v.Index(i).SetInt(v.Index(i).Int() ^ 0x55)
				}
			case reflect.Uint32, reflect.Uint64:
				for i := 0; i < v.Len(); i++ {
					v.Index(i).SetUint(v.Index(i).Uint() ^ 0x55)
				}
			default:
				if hasRefs(v.Type().Elem()) {
					for i := 0; i < v.Len(); i++ {
						walk(v.Index(i), depth+1)
					}
				}
			}
		}
	}
	walk(p, 0)
}

func c08(r *vrun.Run) {
	w := newWorld()
	for i := 0; i < r.Scale(20, 200); i++ {
		if r.Args["types"] != "static" {
			w.types = append(w.types, w.random(r.Seed, 5000+i))
		}
	}
	var stop, gcs atomic.Int64
	done := make(chan bool)
	go func() { // the collector works all the time, on all values
		for stop.Load() == 0 {
			runtime.GC()
			gcs.Add(1)
		}
		close(done)
	}()
	var ballast [][]byte
	churn := func(g *model.Rng) { // memory that is freed is soon somebody else's
		for i := 0; i < 20; i++ {
			b := make([]byte, g.Pick(8, 16, 24, 48, 64, 256, 1024, 4096, 5000))
			fill(b, 0xEE)
			ballast = append(ballast, b)
		}
		if len(ballast) > 400 {
			ballast = ballast[300:]
		}
	}
	n := r.Scale(512, 20000)
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("own/%d", k)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			ts := make([]*T, 1+g.N(8))
			for i := range ts {
				ts[i] = w.types[g.N(len(w.types))]
			}
			var lv []*live
			var ps []part
			steps := 120
			check := func(x *live, why string) {
				if d := model.Diff(x.want, x.t.M.Read(x.p)); d != "" {
					c.FailD(typeString(x.t.M), "value %d changed %s: %s", x.id, why, d)
				}
				c.Add("values_verified", 1)
			}
			checkParts := func(why string) {
				for _, x := range ps {
					if s := content(x.v); s != x.sum {
						c.FailD(x.from, "a kept part (%s) of a dropped value changed %s", x.path, why)
					}
					c.Add("parts_verified", 1)
				}
			}
			for s := 0; s < steps; s++ {
				t := ts[g.N(len(ts))]
				switch op := g.N(10); {
				case op < 5 || len(lv) == 0: // decode
					v := t.M.GenTop(g, g.Pick(6, 12, 40, 120), true)
					in := t.M.Hostile(g, v, model.HostileOpts{Unknown: true})
					want := model.NewMV()
					var p reflect.Value
					if g.P(25) && len(lv) > 0 && lv[len(lv)-1].t == t {
						x := lv[len(lv)-1]
						p, want = x.p, x.want
						lv = lv[:len(lv)-1]
					} else {
						p = reflect.New(t.M.Type)
					}
					if t.M.DupMessages(in) {
						continue
					}
					if err := t.M.Apply(in, want, true); err != nil {
						harnessBug("Apply %v: %x", err, in)
					}
					if g.P(30) { // failing calls leave their traces too
						bad := t.M.MutateDeep(g, in)
						prutal.Unmarshal(bad, reflect.New(t.M.Type).Interface())
						fill(bad, 0xBB)
					}
					buf := append(make([]byte, 0, len(in)+g.N(3)*8), in...)
					if err := prutal.Unmarshal(buf, p.Interface()); err != nil {
						c.FailD(typeString(t.M), "Unmarshal failed: %v; input %s", err, hexcut(in))
					}
					if string(buf) != string(in) {
						c.FailD(typeString(t.M), "Unmarshal changed its input %s", hexcut(in))
					}
					t.M.Norm(want)
					x := &live{t: t, p: p, want: want, in: buf, id: s}
					check(x, "as soon as decoded (or was never right), input "+hexcut(in))
					lv = append(lv, x)
					c.Eval(1)
					c.Seen(t.Name, string(in))
					if c.WantSample() && len(in) > 20 {
						c.Sample(map[string]string{"type": typeString(t.M), "input": hexcut(in), "value": model.Dump(want)})
					}
					if g.P(50) { // the caller reuses the input buffer
						fill(buf[:cap(buf)], 0xDD)
						check(x, "when the input buffer was overwritten")
					}
				case op == 5: // write through spare capacity
					x := lv[g.N(len(lv))]
					c.Add("spare_elements_written", scratchWrite(x.p, g))
					for _, y := range lv {
						check(y, fmt.Sprintf("when something was appended to slices of value %d", x.id))
					}
					checkParts("when something was appended to slices of another value")
				case op == 6: // write into lists and bytes
					i := g.N(len(lv))
					x := lv[i]
					overwrite(x.p, g)
					x.want = x.t.M.Read(x.p)
					for j, y := range lv {
						if i != j {
							check(y, fmt.Sprintf("when value %d was written to", x.id))
						}
					}
					checkParts("when another value was written to")
				case op == 7: // keep a part, drop the rest
					i := g.N(len(lv))
					x := lv[i]
					all := pieces(x.p)
					for j := 0; j < 3 && len(all) > 0; j++ {
						q := all[g.N(len(all))]
						q.sum = content(q.v)
						q.from = typeString(x.t.M)
						ps = append(ps, q)
					}
					lv = append(lv[:i:i], lv[i+1:]...)
					if len(ps) > 60 {
						ps = ps[20:]
					}
				case op == 8: // compare all memory
					var rs []region
					for i, x := range lv {
						for _, y := range regions(x.p) {
							y.root = i
							rs = append(rs, y)
						}
						rs = append(rs, regionOfBytes(x.in, i))
					}
					c.Add("regions_compared", len(rs))
					if s := overlaps(rs); s != "" {
						c.Fail("%s", s)
					}
				case op == 9:
					churn(g)
					if g.P(30) {
						runtime.GC()
					}
					for _, y := range lv {
						check(y, "after garbage collection")
					}
					checkParts("after garbage collection")
				}
				if len(lv) > 40 {
					lv = lv[10:]
				}
			}
			runtime.GC()
			for _, y := range lv {
				check(y, "at the end")
			}
			checkParts("at the end")
		})
	}
	stop.Store(1)
	<-done
	r.Count("gc_cycles", gcs.Load())
}

func regionOfBytes(b []byte, root int) region {
	if cap(b) == 0 {
		return region{}
	}
	p := reflect.ValueOf(b).Pointer()
	return region{lo: p, hi: p + uintptr(cap(b)), path: "input buffer", kind: "slice", align: 1, root: root}
}
