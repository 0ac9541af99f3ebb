package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/vrun"
)

func init() { props["C06"] = c06 }

// guarded is memory between two inaccessible pages.
type guarded struct {
	all   []byte
	inner []byte
}

func newGuarded(n int) *guarded {
	pg := os.Getpagesize()
	n = (n + pg - 1) / pg * pg
	all, err := syscall.Mmap(-1, 0, n+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		harnessBug("mmap: %v", err)
	}
	for _, p := range [][]byte{all[:pg], all[pg+n:]} {
		if err := syscall.Mprotect(p, syscall.PROT_NONE); err != nil {
			harnessBug("mprotect: %v", err)
		}
	}
	return &guarded{all, all[pg : pg+n : pg+n]}
}

// end places b right before the upper guard page, start right after the lower one. The
// bytes are read-only while in use.
func (g *guarded) place(b []byte, atEnd bool) []byte {
	if err := syscall.Mprotect(g.inner, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		harnessBug("mprotect: %v", err)
	}
	var x []byte
	if atEnd {
		x = g.inner[len(g.inner)-len(b):]
	} else {
		x = g.inner[:len(b):len(b)]
	}
	copy(x, b)
	// what lies around the input must not be taken for input
	if atEnd {
		lo := len(g.inner) - len(b) - 64
		if lo < 0 {
			lo = 0
		}
		fill(g.inner[lo:len(g.inner)-len(b)], 0x08)
	} else {
		hi := len(b) + 64
		if hi > len(g.inner) {
			hi = len(g.inner)
		}
		fill(g.inner[len(b):hi], 0x01)
	}
	if err := syscall.Mprotect(g.inner, syscall.PROT_READ); err != nil {
		harnessBug("mprotect: %v", err)
	}
	return x
}

func fill(b []byte, c byte) {
	for i := range b {
		b[i] = c
	}
}

// box is a destination between canaries.
type box struct {
	v    reflect.Value // pointer to the struct
	pre  []byte
	post []byte
}

var boxTypes = map[reflect.Type]reflect.Type{}

const canary = 0xC7

func newBox(t reflect.Type, boxed bool) *box {
	if !boxed { // the sanitizer watches instead
		return &box{v: reflect.New(t)}
	}
	bt := boxTypes[t]
	if bt == nil {
		bt = reflect.StructOf([]reflect.StructField{
			{Name: "Pre", Type: reflect.TypeOf([128]byte{})}, {Name: "V", Type: t}, {Name: "Post", Type: reflect.TypeOf([128]byte{})}})
		boxTypes[t] = bt
	}
	p := reflect.New(bt)
	b := &box{v: p.Elem().Field(1).Addr(), pre: p.Elem().Field(0).Slice(0, 128).Bytes(), post: p.Elem().Field(2).Slice(0, 128).Bytes()}
	fill(b.pre, canary)
	fill(b.post, canary)
	return b
}

func (b *box) broken() bool {
	for _, x := range [][]byte{b.pre, b.post} {
		for _, c := range x {
			if c != canary {
				return true
			}
		}
	}
	return false
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// bombs are inputs whose claims exceed their size, or which repeat small things.
func bombs(g *model.Rng, m *model.Msg) [][]byte {
	var out [][]byte
	big := []uint64{1 << 16, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 10}
	for _, f := range m.Fields {
		if f.Kind.Wire() == model.WLen || f.Card == model.Repeated || f.Card == model.Map {
			n := big[g.N(len(big))]
			h := model.AppendVarint(model.AppendTag(nil, f.Num, model.WLen), n)
			out = append(out, h, append(append([]byte{}, h...), g.Bytes(30)...))
			if f.Card == model.Map { // claims inside an entry
				for _, num := range []int32{1, 2, 3} {
					out = append(out, model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), append(model.AppendVarint(model.AppendTag(nil, num, model.WLen), n), 1, 2)))
				}
			}
		}
	}
	for _, n := range big[:6] {
		out = append(out, model.AppendVarint(model.AppendTag(nil, 77777, model.WLen), n))
	}
	out = append(out, bytes.Repeat([]byte{0x80}, 200), bytes.Repeat([]byte{0xff}, 200))
	return out
}

// repeats are long inputs of one small record each.
func repeats(g *model.Rng, m *model.Msg, n int) [][]byte {
	var out [][]byte
	add := func(rec []byte) {
		k := n / len(rec)
		out = append(out, bytes.Repeat(rec, k))
	}
	for _, f := range m.Fields {
		switch {
		case f.Card == model.Map:
			// distinct keys and one key over and over
			var b []byte
			for i := 0; len(b) < n; i++ {
				e := model.AppendTag(nil, 1, f.Key.Wire())
				if f.Key == model.String {
					e = model.AppendLen(e, []byte(fmt.Sprint(i)))
				} else {
					e = model.AppendScalar(e, f.Key, uint64(i&0xffffff))
				}
				b = append(b, model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), e)...)
			}
			out = append(out, b)
			add(append(model.AppendTag(nil, f.Num, model.WLen), 0))
		case f.Kind == model.Message || f.Kind == model.String || f.Kind == model.Bytes:
			add(append(model.AppendTag(nil, f.Num, model.WLen), 0))
			if f.Kind != model.Message {
				add(append(model.AppendTag(nil, f.Num, model.WLen), 1, 'x'))
			}
		default:
			add(model.AppendScalar(model.AppendTag(nil, f.Num, f.Kind.Wire()), f.Kind, uint64(1)))
			if f.Card == model.Repeated {
				add(append(model.AppendTag(nil, f.Num, model.WLen), 0))
				add(model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), model.AppendScalar(nil, f.Kind, uint64(1))))
				out = append(out, model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), bytes.Repeat(model.AppendScalar(nil, f.Kind, uint64(1)), n/8)))
				// packed content that is damaged at its end
				out = append(out, model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), append(bytes.Repeat(model.AppendScalar(nil, f.Kind, uint64(1)), n/8), 0x80)))
			}
		}
	}
	add(model.AppendVarint(model.AppendTag(nil, m.FreeNum(), model.WVarint), 1))
	add(append(model.AppendTag(nil, m.FreeNum(), model.WSGroup), model.AppendTag(nil, m.FreeNum(), model.WEGroup)...))
	out = append(out, bytes.Repeat(model.AppendTag(nil, m.FreeNum(), model.WSGroup), n/5))
	out = append(out, bytes.Repeat(model.AppendTag(nil, m.FreeNum(), model.WEGroup), n/5))
	return out
}

func c06(r *vrun.Run) {
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(32 << 20)
	w := newWorld()
	g1 := newGuarded(1 << 20)
	measure := r.Args["measure"] != "no"
	boxes := r.Args["types"] != "static"
	rt := r.Scale(60, 2500)
	if !boxes { // types made at run time lie in memory that checkptr does not know as static
		rt = 0
	}
	warmed := map[*model.Msg]bool{}
	try := func(c *vrun.Case, t *T, g *model.Rng, in []byte) {
		if len(in) > len(g1.inner) {
			in = in[:len(g1.inner)]
		}
		if !warmed[t.M] { // type analysis and pools, which allocate once
			warmed[t.M] = true
			prutal.Unmarshal(nil, reflect.New(t.M.Type).Interface())
		}
		b := g1.place(in, g.P(70))
		bx := newBox(t.M.Type, boxes)
		p := bx.v
		if g.P(20) { // a used destination
			t.M.Fill(p.Elem(), t.M.GenTop(g, 10, true), model.FillOpts{R: g})
		}
		iface := p.Interface()
		var a0, a1 uint64
		if measure {
			a0 = allocated()
		}
		err := prutal.Unmarshal(b, iface)
		if measure {
			a1 = allocated()
			limit := uint64(64<<10) + uint64(len(b))*uint64(16*t.M.MaxSize()+2048)
			if a1-a0 > limit {
				c.FailD(typeString(t.M), "decoding %d bytes allocated %d bytes; input %s", len(b), a1-a0, hexcut(b))
			}
			if len(b) > 0 {
				c.Max("max_allocated_per_input_byte", int64(a1-a0)/int64(len(b)+64))
			}
		}
		if bx.broken() {
			c.FailD(typeString(t.M), "Unmarshal wrote outside the destination; input %s", hexcut(in))
		}
		if err != nil {
			c.Add("rejected", 1)
		} else {
			c.Add("accepted", 1)
		}
		after(c, t, g, p, in)
		c.Eval(1)
		c.Add("input_bytes", len(b))
		if len(b) > 0 {
			c.Seen(t.Name, string(in))
		}
	}
	forValues(r, w, r.Scale(10, 500), rt, r.Scale(4, 30), func(c *vrun.Case, t *T, g *model.Rng, i int) {
		v := t.M.GenTop(g, g.Pick(6, 12, 40), true)
		b := t.M.Hostile(g, v, model.HostileOpts{Unknown: true})
		for k := 0; k < 30; k++ {
			var m []byte
			switch k % 6 {
			case 0:
				m = b
			case 1, 2:
				m = model.Mutate(g, b)
			case 3, 4:
				m = t.M.MutateDeep(g, b)
			case 5:
				m = g.Bytes(g.N(40))
			}
			try(c, t, g, m)
			if k == 3 && c.WantSample() {
				c.Sample(map[string]string{"type": typeString(t.M), "input": hexcut(m)})
			}
		}
		if i == 0 {
			for _, m := range bombs(g, t.M) {
				try(c, t, g, m)
			}
		}
		if i == 1 {
			for _, m := range repeats(g, t.M, r.Scale(40000, 400000)) {
				try(c, t, g, m)
				c.Add("long_inputs", 1)
			}
		}
		// nothing was kept of the input
		if i%5 == 0 {
			for k := 0; k < len(b) && len(b) < 300; k++ {
				try(c, t, g, b[:k])
			}
		}
	})
	// groups nested as deep as the input has room for
	for _, t := range w.types {
		t := t
		id := "groups/" + t.Name
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			num := int32(15)
			used := map[int32]bool{}
			for _, f := range t.M.Fields {
				used[f.Num] = true
			}
			for used[num] && num > 1 {
				num--
			}
			for _, n := range []int{9999, 10001, 1 << 19} {
				open := bytes.Repeat(model.AppendTag(nil, num, model.WSGroup), n)
				in := append(open, bytes.Repeat(model.AppendTag(nil, num, model.WEGroup), n)...)
				if g.P(50) {
					in = open
				}
				for _, f := range t.M.Fields { // inside a message or a map entry
					if (f.Kind == model.Message || f.Card == model.Map) && g.P(30) {
						in = in[:min(len(in), 1<<20-64)]
						in = model.AppendLen(model.AppendTag(nil, f.Num, model.WLen), in)
						break
					}
				}
				try(c, t, g, in)
				c.Max("max_group_levels", int64(n))
			}
		})
	}
	// bare and exhaustive small inputs
	for _, t := range w.types {
		t := t
		step := 5
		if r.Thorough() {
			step = 1
		} else if !boxes {
			step = 17
		}
		for hi := 0; hi < 256; hi += 32 {
			hi := hi
			id := fmt.Sprintf("short/%s/%d", t.Name, hi)
			r.Do(id, func(c *vrun.Case) {
				g := rngFor(r, id)
				measure = false
				defer func() { measure = r.Args["measure"] != "no" }()
				for x := hi; x < hi+32; x++ {
					try(c, t, g, []byte{byte(x)})
					for y := 0; y < 256; y += step {
						try(c, t, g, []byte{byte(x), byte(y)})
					}
				}
			})
		}
	}
}

// after uses a destination in every way a caller may.
func after(c *vrun.Case, t *T, g *model.Rng, p reflect.Value, in []byte) {
	got := t.M.Read(p) // touches everything
	if s := badBool(p, 0); s != "" {
		c.FailD(typeString(t.M), "destination holds an ill-formed bool at %s; input %s", s, hexcut(in))
	}
	if s := overlaps(regions(p)); s != "" {
		c.FailD(typeString(t.M), "destination is ill-formed: %s; input %s", s, hexcut(in))
	}
	n, err := prutal.Size(p.Interface())
	if err != nil {
		c.FailD(typeString(t.M), "Size of the destination fails: %v; input %s", err, hexcut(in))
	}
	b, err := prutal.Marshal(p.Interface())
	if err != nil {
		c.FailD(typeString(t.M), "Marshal of the destination fails: %v; input %s", err, hexcut(in))
	}
	if n != len(b) {
		c.FailD(typeString(t.M), "Size of the destination is %d, Marshal makes %d; input %s", n, len(b), hexcut(in))
	}
	q := reflect.New(t.M.Type)
	if err := prutal.Unmarshal(b, q.Interface()); err != nil {
		c.FailD(typeString(t.M), "what Marshal makes of the destination does not decode: %v; input %s", err, hexcut(in))
	}
	if d := model.Diff(got, t.M.Read(q)); d != "" {
		c.FailD(typeString(t.M), "the destination does not round trip: %s; input %s", d, hexcut(in))
	}
	if err := prutal.Unmarshal(b, p.Interface()); err != nil {
		c.FailD(typeString(t.M), "the destination can't be decoded into again: %v; input %s", err, hexcut(in))
	}
}

// badBool looks for bools that are neither 0 nor 1.
func badBool(v reflect.Value, depth int) string {
	if depth > 3000 {
		return ""
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.CanAddr() {
			if x := *(*byte)(unsafe.Pointer(v.UnsafeAddr())); x > 1 {
				return fmt.Sprintf("=%#x", x)
			}
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			return badBool(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if s := badBool(v.Field(i), depth+1); s != "" {
				return v.Type().Field(i).Name + "." + s
			}
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Bool, reflect.Pointer, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				if s := badBool(v.Index(i), depth+1); s != "" {
					return fmt.Sprintf("[%d].%s", i, s)
				}
			}
		}
	}
	return ""
}
