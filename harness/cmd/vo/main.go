// Command vo runs the monitored workload of C14: messages generated by the official
// plugin, handled by prutal and by the official runtime in turn and at once.
package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"vharness/gen"
	"vharness/model"
	"vharness/vrun"
)

func main() {
	r := vrun.New()
	if r.Prop != "C14" {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(2)
	}
	run(r)
	r.Finish()
}

var (
	det  = proto.MarshalOptions{Deterministic: true, AllowPartial: true}
	part = proto.MarshalOptions{AllowPartial: true}
	unm  = proto.UnmarshalOptions{AllowPartial: true}
)

func run(r *vrun.Run) {
	ts := gen.AllTypes()
	r.CountMax("max_official_types", int64(len(ts)))
	first(r, ts)
	n, nu, nm, nc, nf := r.Scale(1000, 30000), r.Scale(300, 8000), r.Scale(150, 4000), r.Scale(20, 300), r.Scale(150, 4000)
	for _, mt := range ts {
		name := string(mt.Descriptor().FullName())
		k := 1
		if strings.HasPrefix(name, "vh.") {
			k = 4
		}
		each := func(what string, n int, fn func(*vrun.Case, protoreflect.MessageType, *model.Rng)) {
			for i := 0; i < n; i++ {
				id := fmt.Sprintf("%s/%s/%d", what, name, i)
				r.Do(id, func(c *vrun.Case) { fn(c, mt, model.NewRng(r.Seed, model.HashStr(id))) })
			}
		}
		each("value", n*k, valueCase)
		each("unknown", nu*k, unknownCase)
		each("nil", nf*k, nilCase)
		each("conc", nc, concCase)
		if flat(mt.Descriptor(), map[protoreflect.FullName]bool{}) {
			each("merge", nm*k*2, mergeCase)
		}
	}
	emptyBytes(r, ts)
}

// first lets prutal, the official runtime or both be the first to meet each type in this process.
func first(r *vrun.Run, ts []protoreflect.MessageType) {
	for _, mt := range ts {
		name := string(mt.Descriptor().FullName())
		id := fmt.Sprintf("first/%d/%s", r.Shard, name)
		r.DoHere(id, func(c *vrun.Case) {
			g := model.NewRng(r.Seed, model.HashStr(id))
			in := gen.RawUnknown(g, mt.Descriptor(), 2)
			a, b := gen.Fresh(mt), gen.Fresh(mt)
			viaP := func() {
				if err := prutal.Unmarshal(in, a); err != nil {
					c.Fail("%s: prutal refuses unknown fields % x: %v", name, in, err)
				}
				out, err := prutal.Marshal(a)
				if err != nil || !bytes.Equal(out, in) {
					c.Fail("%s: relaying % x gives % x, %v", name, in, out, err)
				}
				if n, err := prutal.Size(a); err != nil || n != len(in) {
					c.Fail("%s: Size %d, %v, not %d", name, n, err, len(in))
				}
			}
			viaO := func() {
				if err := unm.Unmarshal(in, b); err != nil {
					c.Fail("harness: official: %v", err)
				}
			}
			switch g.N(3) {
			case 0:
				viaP()
				viaO()
			case 1:
				viaO()
				viaP()
			default:
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); unm.Unmarshal(in, b) }()
				viaP()
				wg.Wait()
			}
			same(c, mt, "after first use", b, a)
			c.Add("first_uses", 1)
		})
	}
}

func same(c *vrun.Case, mt protoreflect.MessageType, what string, want, got proto.Message) {
	if proto.Equal(want, got) {
		return
	}
	w, _ := det.Marshal(want)
	g, err := det.Marshal(got)
	c.FailD(map[string]string{"want": cut(fmt.Sprint(want)), "got": cut(fmt.Sprint(got)), "want_hex": fmt.Sprintf("%x", w), "got_hex": fmt.Sprintf("%x", g)},
		"%s: %s: messages differ (%v)\nwant %s\ngot  %s", mt.Descriptor().FullName(), what, err, cut(fmt.Sprint(want)), cut(fmt.Sprint(got)))
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// valueCase: both directions, sizes, untouched arguments, and the official runtime at work on prutal's result.
func valueCase(c *vrun.Case, mt protoreflect.MessageType, g *model.Rng) {
	name := mt.Descriptor().FullName()
	m := gen.Message(g, mt, g.Pick(0, 1, 2, 3), g.P(40))
	before, err := det.Marshal(m)
	if err != nil {
		c.Fail("harness: %v", err)
	}
	// size caches may be warm or cold
	if g.P(50) {
		m = clone(mt, before)
	}
	bp, err := prutal.Marshal(m)
	if err != nil {
		c.Fail("%s: prutal.Marshal: %v\n%s", name, err, cut(fmt.Sprint(m)))
	}
	if n, err := prutal.Size(m); err != nil || n != len(bp) {
		c.Fail("%s: prutal.Size %d, %v; Marshal wrote %d", name, n, err, len(bp))
	}
	if after, _ := det.Marshal(m); !bytes.Equal(before, after) {
		c.Fail("%s: prutal.Marshal changed the message:\n%x\n%x", name, before, after)
	}
	bo, err := part.Marshal(m)
	if err != nil || proto.Size(m) != len(bo) {
		c.Fail("%s: official Marshal after prutal: %d bytes, Size %d, %v", name, len(bo), proto.Size(m), err)
	}
	// official decodes what prutal wrote
	o := gen.Fresh(mt)
	if g.P(30) { // a message prutal filled before and the official runtime resets
		if err := prutal.Unmarshal(bo, o); err != nil {
			c.Fail("%s: prutal.Unmarshal: %v", name, err)
		}
	}
	if err := unm.Unmarshal(bp, o); err != nil {
		c.Fail("%s: official cannot decode prutal's bytes: %v\n%x\n%s", name, err, bp, cut(fmt.Sprint(m)))
	}
	same(c, mt, "official decode of prutal's bytes", m, o)
	// prutal decodes what official wrote
	p := gen.Fresh(mt)
	if g.P(30) { // one the official runtime used before
		if err := unm.Unmarshal(bp, p); err != nil {
			c.Fail("%v", err)
		}
		proto.Size(p)
		proto.Reset(p)
	}
	if err := prutal.Unmarshal(bo, p); err != nil {
		c.Fail("%s: prutal cannot decode official bytes: %v\n%x\n%s", name, err, bo, cut(fmt.Sprint(m)))
	}
	same(c, mt, "prutal decode of official bytes", m, p)
	// the official runtime works on it
	bd, err := det.Marshal(p)
	if err != nil || !bytes.Equal(bd, before) {
		c.Fail("%s: official Marshal of prutal's decode (%v):\n%x\n%x", name, err, before, bd)
	}
	if n := proto.Size(p); n != len(before) {
		c.Fail("%s: official Size of prutal's decode: %d, not %d", name, n, len(before))
	}
	// (Clone loses negative zeros of presence-less fields)
	same(c, mt, "Clone of prutal's decode", proto.Clone(m), proto.Clone(p))
	if (proto.CheckInitialized(m) == nil) != (proto.CheckInitialized(p) == nil) {
		c.Fail("%s: CheckInitialized differs: %v, %v", name, proto.CheckInitialized(m), proto.CheckInitialized(p))
	}
	if g.P(10) {
		_ = fmt.Sprint(p)
		if w, h := has(m.ProtoReflect()), has(p.ProtoReflect()); w != h {
			c.Fail("%s: populated fields %s, not %s", name, h, w)
		}
	}
	if g.P(20) {
		proto.Reset(p)
		same(c, mt, "Reset of prutal's decode", gen.Fresh(mt), p)
		if err := prutal.Unmarshal(bp, p); err != nil {
			c.Fail("%s: prutal.Unmarshal after Reset: %v", name, err)
		}
		same(c, mt, "prutal decode after Reset", m, p)
	}
	// round and round: prutal -> official -> prutal
	again, err := prutal.MarshalAppend(make([]byte, 3, 3+g.N(64)), p)
	if !bytes.Equal(before, must(det.Marshal(m))) {
		c.Fail("%s: changed", name)
	}
	if err != nil {
		c.Fail("%s: MarshalAppend: %v", name, err)
	}
	q := gen.Fresh(mt)
	if err := unm.Unmarshal(again[3:], q); err != nil {
		c.Fail("%s: %v", name, err)
	}
	same(c, mt, "second generation", p, q)
	c.Add("bytes_by_prutal", len(bp))
	c.Add("bytes_by_official", len(bo))
	if len(before) > 0 {
		c.Seen(string(name), string(before))
	}
	if len(before) > 20 && c.WantSample() {
		c.Sample(map[string]string{"type": string(name), "bytes": fmt.Sprintf("%x", bp)})
	}
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func clone(mt protoreflect.MessageType, b []byte) proto.Message {
	m := gen.Fresh(mt)
	if err := unm.Unmarshal(b, m); err != nil {
		panic(err)
	}
	return m
}

func has(m protoreflect.Message) string {
	var s []string
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		s = append(s, fmt.Sprint(f.Number()))
		return true
	})
	sort.Strings(s)
	return strings.Join(s, ",")
}

// unknownCase: unknown fields between known ones, decoded by both.
func unknownCase(c *vrun.Case, mt protoreflect.MessageType, g *model.Rng) {
	name := mt.Descriptor().FullName()
	b := must(part.Marshal(gen.Message(g, mt, 2, g.P(50))))
	var in []byte
	for {
		if g.P(40) {
			in = append(in, gen.RawUnknown(g, mt.Descriptor(), 1)...)
		}
		if len(b) == 0 {
			break
		}
		_, _, n := protowire.ConsumeField(b)
		if n < 0 {
			c.Fail("harness: %x", b)
		}
		in = append(in, b[:n]...)
		b = b[n:]
	}
	o, p := gen.Fresh(mt), gen.Fresh(mt)
	if err := unm.Unmarshal(in, o); err != nil {
		c.Fail("harness: official refuses: %v", err)
	}
	if err := prutal.Unmarshal(in, p); err != nil {
		c.Fail("%s: prutal refuses: %v\n%x", name, err, in)
	}
	same(c, mt, "decode of an input with unknown fields", o, p)
	if w, h := o.ProtoReflect().GetUnknown(), p.ProtoReflect().GetUnknown(); !bytes.Equal(w, h) {
		c.Fail("%s: unknown bytes %x, not %x", name, h, w)
	}
	out, err := prutal.Marshal(p)
	if err != nil {
		c.Fail("%s: %v", name, err)
	}
	same(c, mt, "relayed", o, clone(mt, out))
	c.Add("unknown_bytes", len(o.ProtoReflect().GetUnknown()))
	c.Seen("u", string(name), string(in))
}

// nilCase: nil elements in lists and maps, as the official runtime encodes them.
func nilCase(c *vrun.Case, mt protoreflect.MessageType, g *model.Rng) {
	name := mt.Descriptor().FullName()
	m := gen.Message(g, mt, 2, false)
	n := punch(g, reflect.ValueOf(m).Elem())
	bo, err := part.Marshal(m)
	if err != nil {
		return
	}
	bp, err := prutal.Marshal(m)
	if err != nil {
		c.Fail("%s: prutal.Marshal: %v", name, err)
	}
	if k, err := prutal.Size(m); err != nil || k != len(bp) {
		c.Fail("%s: prutal.Size %d, %v; Marshal wrote %d", name, k, err, len(bp))
	}
	same(c, mt, "nil elements", clone(mt, bo), clone(mt, bp))
	c.Add("nil_elements", n)
	if n > 0 {
		c.Seen("n", string(name), string(bp))
	}
}

// punch makes some elements of message lists and maps nil.
func punch(g *model.Rng, v reflect.Value) (n int) {
	isMsg := func(t reflect.Type) bool { return t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct }
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath != "" {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr:
			if isMsg(f.Type()) && !f.IsNil() {
				n += punch(g, f.Elem())
			}
		case reflect.Slice:
			if isMsg(f.Type().Elem()) {
				for j := 0; j < f.Len(); j++ {
					if g.P(40) {
						f.Index(j).Set(reflect.Zero(f.Type().Elem()))
						n++
					} else {
						n += punch(g, f.Index(j).Elem())
					}
				}
			}
		case reflect.Map:
			if isMsg(f.Type().Elem()) {
				for _, k := range f.MapKeys() {
					if g.P(40) {
						f.SetMapIndex(k, reflect.Zero(f.Type().Elem()))
						n++
					}
				}
			}
		}
	}
	return n
}

// flat: no singular message field anywhere, so that decoding into used messages is comparable.
func flat(d protoreflect.MessageDescriptor, seen map[protoreflect.FullName]bool) bool {
	for i := 0; i < d.Fields().Len(); i++ {
		f := d.Fields().Get(i)
		if f.Message() != nil && f.Cardinality() != protoreflect.Repeated {
			return false
		}
	}
	return true
}

// mergeCase: decoding into a used message, as the official runtime merges.
func mergeCase(c *vrun.Case, mt protoreflect.MessageType, g *model.Rng) {
	name := mt.Descriptor().FullName()
	base := must(part.Marshal(gen.Message(g, mt, 2, false)))
	in := must(part.Marshal(gen.Message(g, mt, 2, false)))
	o, p := clone(mt, base), clone(mt, base)
	mo := unm
	mo.Merge = true
	if err := mo.Unmarshal(in, o); err != nil {
		c.Fail("harness: %v", err)
	}
	if g.P(50) {
		proto.Size(p)
	}
	if err := prutal.Unmarshal(in, p); err != nil {
		c.Fail("%s: %v", name, err)
	}
	same(c, mt, "decode into a used message", o, p)
	c.Add("merges", 1)
	c.Seen("m", string(name), string(base), string(in))
}

// concCase: both libraries at work on one shared message and on messages of their own.
func concCase(c *vrun.Case, mt protoreflect.MessageType, g *model.Rng) {
	name := mt.Descriptor().FullName()
	m := gen.Message(g, mt, 3, true)
	want := must(det.Marshal(m))
	shared := clone(mt, want)
	var wg sync.WaitGroup
	start := make(chan struct{})
	fail := func(f string, a ...any) { c.Error("%s: concurrent use: "+f, append([]any{name}, a...)...) }
	for k := 0; k < 8; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < 4; i++ {
				switch (k + i) % 6 {
				case 0, 1:
					b, err := prutal.Marshal(shared)
					if err != nil {
						fail("prutal.Marshal: %v", err)
						return
					}
					o := gen.Fresh(mt)
					if err := unm.Unmarshal(b, o); err != nil || !proto.Equal(o, m) {
						fail("bytes of prutal.Marshal differ: %v", err)
						return
					}
				case 2:
					b, err := det.Marshal(shared)
					if err != nil || !bytes.Equal(b, want) {
						fail("official Marshal: %v", err)
						return
					}
				case 3:
					p := gen.Fresh(mt)
					if err := prutal.Unmarshal(want, p); err != nil || !proto.Equal(p, m) {
						fail("prutal.Unmarshal: %v", err)
						return
					}
				case 4:
					if _, err := prutal.Size(shared); err != nil {
						fail("prutal.Size: %v", err)
						return
					}
				case 5:
					if !proto.Equal(proto.Clone(shared), proto.Clone(m)) {
						fail("Clone")
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Add("concurrent_calls", 32)
	c.Seen("c", string(name), string(want))
}

// emptyBytes: explicit-presence bytes fields which are set and empty.
func emptyBytes(r *vrun.Run, ts []protoreflect.MessageType) {
	for _, mt := range ts {
		mt := mt
		for i := 0; i < mt.Descriptor().Fields().Len(); i++ {
			f := mt.Descriptor().Fields().Get(i)
			if f.Kind() != protoreflect.BytesKind || f.IsList() || f.IsMap() || !f.HasPresence() {
				continue
			}
			r.Do("emptybytes/"+string(f.FullName()), func(c *vrun.Case) {
				m := gen.Fresh(mt)
				m.ProtoReflect().Set(f, protoreflect.ValueOfBytes([]byte{}))
				b, err := prutal.Marshal(m)
				if err != nil {
					c.Fail("%s: %v", f.FullName(), err)
				}
				o := clone(mt, b)
				if !proto.Equal(m, o) {
					if gen.Ambiguous(f) {
						c.Known("optional-bytes-empty", "%s set to empty is not encoded", f.FullName())
						return
					}
					same(c, mt, "empty bytes", m, o)
				}
				// the other direction has no such exception
				p := gen.Fresh(mt)
				if err := prutal.Unmarshal(must(part.Marshal(m)), p); err != nil {
					c.Fail("%s: %v", f.FullName(), err)
				}
				same(c, mt, "prutal decode of empty bytes", m, p)
				c.Seen("e", string(f.FullName()))
				c.Add("empty_bytes", 1)
			})
		}
	}
}
