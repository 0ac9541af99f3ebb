package main

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"

	"github.com/cloudwego/prutal"

	"vharness/model"
	"vharness/types"
	"vharness/vrun"
)

func init() { props["C11"] = c11 }

type verdict int

const (
	refuse verdict = iota
	accept
	grey // not settled by the property; must still be consistent and, if accepted, faithful
)

var (
	tBytes = reflect.TypeOf([]byte(nil))
	tLeaf  = reflect.TypeOf(types.Leaf{})
)

type (
	namedStr   string
	namedBytes []byte
	namedU8    uint8
	namedMap   map[int32]int32
	namedList  []int32
)

func scalarFits(enc string, k reflect.Kind) bool {
	switch enc {
	case "varint":
		return k == reflect.Bool || k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Int64 || k == reflect.Uint64
	case "zigzag32":
		return k == reflect.Int32
	case "zigzag64":
		return k == reflect.Int64
	case "fixed32":
		return k == reflect.Int32 || k == reflect.Uint32 || k == reflect.Float32
	case "fixed64":
		return k == reflect.Int64 || k == reflect.Uint64 || k == reflect.Float64
	case "bytes":
		return k == reflect.String
	}
	return false
}

// element judges a list element, map value or singular type (pointers to messages allowed).
func element(enc string, t reflect.Type) verdict {
	if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
		if enc != "bytes" {
			return refuse
		}
		if t != tBytes {
			return grey
		}
		return accept
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
		if t.Kind() != reflect.Struct {
			return refuse
		}
	}
	if t.Kind() == reflect.Struct {
		if enc != "bytes" {
			return refuse
		}
		return structVerdict(t)
	}
	if scalarFits(enc, t.Kind()) {
		return accept
	}
	return refuse
}

var structVerdicts = map[reflect.Type]verdict{}

// structVerdict is for the few element structs used below.
func structVerdict(t reflect.Type) verdict {
	if v, ok := structVerdicts[t]; ok {
		return v
	}
	return accept
}

func keyVerdict(enc string, t reflect.Type) verdict {
	if t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64 || !scalarFits(enc, t.Kind()) {
		return refuse
	}
	return accept
}

type tagSpec struct{ enc, num, label, opts, kenc, venc string }

func (s tagSpec) tag() reflect.StructTag {
	p := []string{}
	for _, x := range []string{s.enc, s.num, s.label, "name=f"} {
		if x != "" {
			p = append(p, x)
		}
	}
	t := fmt.Sprintf(`protobuf:"%s%s"`, strings.Join(p, ","), s.opts)
	if s.kenc != "" {
		t += fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key"`, s.kenc)
	}
	if s.venc != "" {
		t += fmt.Sprintf(` protobuf_val:"%s,2,opt,name=value"`, s.venc)
	}
	return reflect.StructTag(t)
}

func knownEnc(s string) bool {
	switch s {
	case "varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes":
		return true
	}
	return false
}

// judge says what the property demands for a field with this tag and type.
func (s tagSpec) judge(t reflect.Type) verdict {
	if !knownEnc(s.enc) {
		return refuse
	}
	n, err := strconv.ParseInt(s.num, 10, 64)
	if err != nil || n < 1 || n > 1<<29-1 || s.num[0] == '+' {
		return refuse
	}
	packed := strings.Contains(s.opts, ",packed")
	rep := s.label == "rep"
	v := func() verdict {
		switch {
		case t.Kind() == reflect.Map:
			if !rep || packed || s.enc != "bytes" {
				return refuse
			}
			if !knownEnc(s.kenc) || !knownEnc(s.venc) {
				return refuse
			}
			k, e := keyVerdict(s.kenc, t.Key()), element(s.venc, t.Elem())
			if k == refuse || e == refuse {
				return refuse
			}
			return e
		case rep:
			if t.Kind() != reflect.Slice || t == tBytes {
				return refuse
			}
			if t.Elem().Kind() == reflect.Uint8 {
				return refuse
			}
			if packed && s.enc == "bytes" {
				return refuse
			}
			return element(s.enc, t.Elem())
		default:
			if packed {
				return refuse
			}
			if t.Kind() == reflect.Pointer && t.Elem().Kind() != reflect.Struct {
				e := t.Elem()
				if e.Kind() == reflect.Pointer || e.Kind() == reflect.Map {
					return refuse
				}
				if e.Kind() == reflect.Slice {
					if e.Elem().Kind() == reflect.Uint8 && s.enc == "bytes" {
						return grey // *[]byte
					}
					return refuse
				}
				return element(s.enc, e)
			}
			return element(s.enc, t)
		}
	}()
	if v == accept && (s.label != "opt" && s.label != "req" && s.label != "rep" || n >= 19000 && n <= 19999) {
		return grey
	}
	return v
}

// fillAny puts something into every field, so that a refused call has memory to disturb.
func fillAny(v reflect.Value, depth int) {
	if depth > 4 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(0x35)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(0x36)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(1, 2))
	case reflect.String:
		v.SetString("filled")
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 2, 3)
		for i := 0; i < 2; i++ {
			fillAny(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillAny(v.Index(i), depth+1)
		}
	case reflect.Pointer:
		p := reflect.New(v.Type().Elem())
		fillAny(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		fillAny(k, depth+1)
		fillAny(e, depth+1)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				fillAny(f, depth+1)
			}
		}
	}
}

var probes = [][]byte{nil, {8, 1}, {0x0a, 1, 'x'}, {0x0d, 1, 2, 3, 4}, {0x09, 1, 2, 3, 4, 5, 6, 7, 8}, {0x0a, 4, 8, 1, 16, 2}, {0x10, 1}, {0x12, 2, 8, 1}}

// verdictOf asks every entry point about a type.
func verdictOf(c *vrun.Case, t reflect.Type, g *model.Rng) bool {
	what := func() string { return fmt.Sprint(t) }
	type res struct {
		name string
		err  error
	}
	var rs []res
	call := func(name string, f func() error) {
		defer func() {
			if e := recover(); e != nil {
				c.FailD(string(debug.Stack()), "%s panics on %s: %v", name, what(), e)
			}
		}()
		rs = append(rs, res{name, f()})
	}
	order := []int{0, 1, 2, 3, 4}
	g.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	zero := reflect.New(t)
	full := reflect.New(t)
	fillAny(full.Elem(), 0)
	dst := reflect.New(t)
	fillAny(dst.Elem(), 0)
	s1 := snapshot(full)
	for _, o := range order {
		switch o {
		case 0:
			call("Marshal", func() error { _, err := prutal.Marshal(zero.Interface()); return err })
		case 1:
			call("MarshalAppend", func() error { _, err := prutal.MarshalAppend([]byte("x"), zero.Interface()); return err })
		case 2:
			call("Size", func() error { _, err := prutal.Size(zero.Interface()); return err })
		case 3:
			call("Unmarshal", func() error { return prutal.Unmarshal(nil, reflect.New(t).Interface()) })
		case 4:
			call("Marshal of a filled value", func() error {
				_, err := prutal.Marshal(full.Interface())
				_, err2 := prutal.Size(full.Interface())
				if (err == nil) != (err2 == nil) {
					c.Fail("Marshal says %v, Size %v on filled %s", err, err2, what())
				}
				return err
			})
		}
	}
	ok := rs[0].err == nil
	for _, r := range rs[1:] {
		if (r.err == nil) != ok {
			c.Fail("%s says %v, %s says %v on %s", rs[0].name, rs[0].err, r.name, r.err, what())
		}
	}
	if d := s1.diff(full); d != "" {
		c.Fail("an encoding call changed the value of %s: %s", what(), d)
	}
	if !ok {
		s2 := snapshot(dst)
		for _, p := range probes {
			call("Unmarshal", func() error {
				if err := prutal.Unmarshal(p, dst.Interface()); err == nil {
					c.Fail("%s was refused, but now Unmarshal of %x accepts it", what(), p)
				}
				return nil
			})
		}
		if d := s2.diff(dst); d != "" {
			c.Fail("Unmarshal refused %s but changed the value: %s", what(), d)
		}
	}
	c.Eval(len(rs))
	return ok
}

func c11(r *vrun.Run) {
	ld := model.NewLoader()
	off := model.NewOfficial()
	// faithful: an accepted type represents its values
	faithful := func(c *vrun.Case, t reflect.Type, g *model.Rng, must bool) {
		m, err := ld.Load(t)
		if err != nil {
			if must {
				harnessBug("Load %v: %v", t, err)
			}
			c.Add("accepted_unspecified", 1)
			return
		}
		m.Name = "accepted"
		for i := 0; i < 3; i++ {
			v := m.GenTop(g, 6, false)
			p := m.New(v, model.FillOpts{})
			want := m.Quiet(m.Read(p))
			b, err := prutal.Marshal(p.Interface())
			if err != nil {
				c.Fail("%v is accepted but Marshal of %s fails: %v", t, model.Dump(v), err)
			}
			got, err := off.Decode(m, b)
			if err == nil {
				if d := model.Diff(want, m.Quiet(m.Norm(got))); d != "" {
					c.Fail("%v is accepted but represents another value: %s (%x)", t, d, b)
				}
			} else if must {
				c.Fail("%v is accepted but makes a bad encoding: %v (%x)", t, err, b)
			}
			q := reflect.New(t)
			if err := prutal.Unmarshal(b, q.Interface()); err != nil {
				c.Fail("%v is accepted but does not decode its own encoding: %v", t, err)
			}
			if d := model.Diff(want, m.Quiet(m.Read(q))); d != "" {
				c.Fail("%v is accepted but does not round trip: %s", t, d)
			}
			c.Add("faithful_round_trips", 1)
		}
	}
	demand := func(c *vrun.Case, t reflect.Type, v verdict, g *model.Rng) bool {
		ok := verdictOf(c, t, g)
		if ok && v == refuse {
			c.Fail("unsupported type is accepted: %v", t)
		}
		if !ok && v == accept {
			_, err := prutal.Marshal(reflect.New(t).Interface())
			c.Fail("supported type is refused: %v: %v", t, err)
		}
		if ok {
			faithful(c, t, g, v == accept)
		}
		c.Add([]string{"refused", "accepted", "unspecified"}[v], 1)
		c.Seen(fmt.Sprint(t))
		if c.WantSample() && v == refuse {
			c.Sample(fmt.Sprintf("refused: %v", t))
		}
		return ok
	}
	mk := func(t reflect.Type, tag reflect.StructTag) (st reflect.Type) {
		return reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: tag}})
	}
	type a []any
	typ := func(xs ...any) (out []reflect.Type) {
		for _, x := range xs {
			out = append(out, reflect.TypeOf(x).Elem())
		}
		return
	}
	badStruct := reflect.TypeOf(struct {
		X int16 `protobuf:"varint,1,opt,name=x"`
	}{})
	structVerdicts[badStruct] = refuse
	structVerdicts[reflect.TypeOf(struct{}{})] = accept
	singles := typ(new(bool), new(int32), new(int64), new(uint32), new(uint64), new(float32), new(float64), new(string), new([]byte),
		new(int), new(int8), new(int16), new(uint), new(uint8), new(uint16), new(uintptr), new(complex64), new(complex128), new(any), new(error),
		new(chan int), new(func()), new(unsafe.Pointer), new([4]byte), new([1]int32), new(types.NamedEnum), new(namedStr), new(namedBytes), new([]namedU8),
		new(namedMap), new(namedList), new(types.Leaf), new(struct{}), new(types.OneofSingle))
	singles = append(singles, badStruct)
	var all []reflect.Type
	for _, t := range singles {
		all = append(all, t, reflect.PointerTo(t), reflect.PointerTo(reflect.PointerTo(t)), reflect.SliceOf(t), reflect.SliceOf(reflect.PointerTo(t)),
			reflect.SliceOf(reflect.SliceOf(t)), reflect.PointerTo(reflect.SliceOf(t)), reflect.SliceOf(reflect.PointerTo(reflect.PointerTo(t))),
			reflect.SliceOf(reflect.ArrayOf(2, t)), reflect.SliceOf(reflect.MapOf(reflect.TypeOf(int32(0)), t)), reflect.ArrayOf(2, t))
	}
	encs := []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes"}
	// every encoding, label, type
	for i, t := range all {
		id := fmt.Sprintf("field/%d", i)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			var specs []tagSpec
			for _, e := range encs {
				for _, l := range []string{"opt", "req", "rep"} {
					specs = append(specs, tagSpec{enc: e, num: "1", label: l}, tagSpec{enc: e, num: "1", label: l, opts: ",proto3"}, tagSpec{enc: e, num: "1", label: l, opts: ",packed"},
						tagSpec{enc: e, num: "1", label: l, opts: ",packed,proto3"})
				}
				specs = append(specs, tagSpec{enc: e, num: "1"}, tagSpec{enc: e, num: "1", label: "opt", opts: ",proto3,oneof"}, tagSpec{enc: e, num: "1", label: "opt", opts: ",json=x,proto3"},
					tagSpec{enc: e, num: "1", label: "opt", opts: ",enum=a.b.E"})
			}
			specs = append(specs, tagSpec{enc: "group", num: "1", label: "opt"}, tagSpec{enc: "group", num: "1", label: "rep"}, tagSpec{num: "1", label: "opt"}, tagSpec{enc: "varint64", num: "1", label: "opt"})
			g.Shuffle(len(specs), func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
			for _, s := range specs {
				demand(c, mk(t, s.tag()), s.judge(t), g)
			}
		})
	}
	// default values say anything
	words := []string{"a", "", " ", "packed", "req", "rep", "opt", "oneof", "group", "zigzag32", "varint", "bytes", "fixed64", "17", "0", "536870912", "99999999999", "def=1", "proto3", "name=g", "json=h", "enum=x.Y", "é", "-1.5", "\\x00"}
	for i, t := range all {
		id := fmt.Sprintf("default/%d", i)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			for _, e := range encs {
				for _, l := range []string{"opt", "req"} {
					s := tagSpec{enc: e, num: fmt.Sprint(1 + g.N(15)), label: l}
					v := s.judge(t)
					if t.Kind() == reflect.Struct || v == refuse && g.P(80) {
						continue
					}
					for n := 0; n < 6; n++ {
						s.opts = ""
						if g.P(30) {
							s.opts = ",json=x"
						}
						s.opts += ",def="
						for k := 1 + g.N(4); k > 0; k-- {
							s.opts += words[g.N(len(words))]
							if k > 1 {
								s.opts += []string{",", ",", ", ", " "}[g.N(4)]
							}
						}
						demand(c, reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: s.tag()},
							{Name: "G", Type: reflect.TypeOf(int32(0)), Tag: `protobuf:"varint,17,opt,name=g"`}}), v, g)
						c.Add("default_values", 1)
					}
				}
			}
		})
	}
	// field numbers
	r.Do("numbers", func(c *vrun.Case) {
		g := rngFor(r, "numbers")
		for _, n := range []string{"", "0", "-1", "1", "2", "15", "16", "999", "1000", "1001", "2047", "2048", "18999", "19000", "19999", "20000", "262143", "536870911", "536870912", "536870913", "1073741824",
			"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "8589934593", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "abc", "1a", "0x1", "1.0", "+1", "1e3"} {
			for _, t := range typ(new(int32), new([]int32), new(*types.Leaf), new(string)) {
				s := tagSpec{enc: "varint", num: n, label: "opt"}
				if t.Kind() == reflect.Slice {
					s.label = "rep"
				} else if t.Kind() != reflect.Int32 {
					s.enc = "bytes"
				}
				v := s.judge(t)
				demand(c, mk(t, s.tag()), v, g)
				if t.Kind() == reflect.Slice {
					s.opts = ",packed"
					demand(c, mk(t, s.tag()), v, g)
				}
			}
		}
	})
	// maps: every key type and encoding, every value type and encoding
	keys := typ(new(bool), new(int32), new(int64), new(uint32), new(uint64), new(float32), new(float64), new(string), new(int), new(int8), new(uint8), new(uint16), new(uintptr), new(any), new([4]byte),
		new(*int32), new(*string), new(struct{ A int32 }), new(types.NamedEnum), new(complex64), new(types.EmptyMsg))
	mapEncs := append(append([]string{}, encs...), "group", "")
	for i, kt := range keys {
		id := fmt.Sprintf("map/%d", i)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			for _, vt := range all {
				if !r.Thorough() && g.P(60) {
					continue
				}
				for _, ke := range mapEncs {
					for _, ve := range mapEncs {
						if !r.Thorough() && g.P(80) {
							continue
						}
						s := tagSpec{enc: "bytes", num: "1", label: "rep", kenc: ke, venc: ve}
						if g.P(3) {
							s.label = "opt"
						}
						if g.P(3) {
							s.enc = "varint"
						}
						if g.P(3) {
							s.opts = ",packed"
						}
						mt := reflect.MapOf(kt, vt)
						demand(c, mk(mt, s.tag()), s.judge(mt), g)
					}
				}
				// the right encodings for certain
				for _, ke := range encs {
					for _, ve := range encs {
						s := tagSpec{enc: "bytes", num: "1", label: "rep", kenc: ke, venc: ve, opts: ",proto3"}
						mt := reflect.MapOf(kt, vt)
						if v := s.judge(mt); v == accept {
							demand(c, mk(mt, s.tag()), v, g)
						}
					}
				}
			}
		})
	}
	// oneof members
	for i, oc := range types.OneofCases {
		id := fmt.Sprintf("oneof/%d", i)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			ft := reflect.TypeOf(oc.F).Elem()
			v := tagSpec{enc: oc.Enc, num: "1", label: "opt"}.judge(ft)
			if v == accept && ft.Kind() == reflect.Pointer && ft.Elem().Kind() != reflect.Struct {
				v = grey
			}
			ht := reflect.TypeOf(oc.V).Elem()
			demand(c, ht, v, g)
			demand(c, reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PointerTo(ht), Tag: `protobuf:"bytes,1,opt,name=a"`}}), v, g)
		})
	}
	r.Do("dup", func(c *vrun.Case) {
		g := rngFor(r, "dup")
		for _, d := range types.DupOneofs {
			demand(c, reflect.TypeOf(d).Elem(), refuse, g)
		}
		for _, d := range types.BadOneofs {
			demand(c, reflect.TypeOf(d).Elem(), refuse, g)
		}
		ts := typ(new(int32), new(string), new([]int32), new(*types.Leaf), new(map[int32]int32))
		tags := []func(n int) reflect.StructTag{
			func(n int) reflect.StructTag { return tagSpec{enc: "varint", num: fmt.Sprint(n), label: "opt"}.tag() },
			func(n int) reflect.StructTag { return tagSpec{enc: "bytes", num: fmt.Sprint(n), label: "opt"}.tag() },
			func(n int) reflect.StructTag {
				return tagSpec{enc: "varint", num: fmt.Sprint(n), label: "rep", opts: ",packed"}.tag()
			},
			func(n int) reflect.StructTag { return tagSpec{enc: "bytes", num: fmt.Sprint(n), label: "opt"}.tag() },
			func(n int) reflect.StructTag {
				return tagSpec{enc: "bytes", num: fmt.Sprint(n), label: "rep", kenc: "varint", venc: "varint"}.tag()
			},
		}
		for i := range ts {
			for j := range ts {
				for _, n := range []int{1, 2, 1000, 1001, 536870911} {
					for _, dup := range []bool{true, false} {
						m := n
						if !dup {
							m = n%536870911 + 1
						}
						fs := []reflect.StructField{{Name: "A", Type: ts[i], Tag: tags[i](n)}, {Name: "B", Type: ts[2], Tag: tags[2](77)}, {Name: "C", Type: ts[j], Tag: tags[j](m)}}
						g.Shuffle(3, func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
						v := accept
						if dup {
							v = refuse
						}
						demand(c, reflect.StructOf(fs), v, g)
					}
				}
			}
		}
	})
	// a bad type deep inside, used in any order with the good types around it
	n := r.Scale(600, 20000)
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("nest/%d", k)
		r.Do(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			type tv struct {
				t reflect.Type
				v verdict
			}
			var pool []tv
			serial := 0
			fresh := func(t reflect.Type, tag tagSpec, more ...tv) reflect.Type {
				serial++
				fs := []reflect.StructField{{Name: fmt.Sprintf("X%d_%d", k, serial), Type: t, Tag: tag.tag()}}
				for i, m := range more {
					forms := []struct {
						t   reflect.Type
						tag tagSpec
					}{
						{m.t, tagSpec{enc: "bytes", label: "opt"}}, {reflect.PointerTo(m.t), tagSpec{enc: "bytes", label: "opt"}},
						{reflect.SliceOf(m.t), tagSpec{enc: "bytes", label: "rep"}}, {reflect.SliceOf(reflect.PointerTo(m.t)), tagSpec{enc: "bytes", label: "rep"}},
						{reflect.MapOf(reflect.TypeOf(""), m.t), tagSpec{enc: "bytes", label: "rep", kenc: "bytes", venc: "bytes"}},
						{reflect.MapOf(reflect.TypeOf(int64(0)), reflect.PointerTo(m.t)), tagSpec{enc: "bytes", label: "rep", kenc: "zigzag64", venc: "bytes"}},
					}
					f := forms[g.N(len(forms))]
					f.tag.num = fmt.Sprint(10 + i)
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("M%d", i), Type: f.t, Tag: f.tag.tag()})
				}
				g.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
				return reflect.StructOf(fs)
			}
			for len(pool) < 3 {
				t := all[g.N(len(all))]
				s := tagSpec{enc: encs[g.N(6)], num: "1", label: []string{"opt", "rep"}[g.N(2)]}
				v := s.judge(t)
				if v == grey || (v == refuse) != (len(pool) == 0) {
					continue
				}
				pool = append(pool, tv{fresh(t, s), v})
			}
			for len(pool) < 8 {
				var more []tv
				v := accept
				for i := 0; i < 1+g.N(3); i++ {
					m := pool[g.N(len(pool))]
					more = append(more, m)
					if m.v == refuse {
						v = refuse
					}
				}
				pool = append(pool, tv{fresh(reflect.TypeOf(int32(0)), tagSpec{enc: "varint", num: "1", label: "opt"}, more...), v})
			}
			// all of them, twice, in a random order
			order := append(append([]tv{}, pool...), pool...)
			g.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
			for _, x := range order {
				demand(c, x.t, x.v, g)
			}
			c.Add("histories", 1)
		})
	}
	// named types that refer to each other
	for k := 0; k < r.Scale(40, len(types.Families)); k++ {
		id := fmt.Sprintf("family/%d/%d", r.Shard, k)
		r.DoHere(id, func(c *vrun.Case) {
			g := rngFor(r, id)
			fam := types.Families[k]()
			var order []any
			for i := 0; i < 2; i++ {
				order = append(append(order, fam.Good...), append(fam.Bad, fam.Bad...)...)
			}
			g.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
			for _, x := range order {
				v := accept
				if strings.Contains(fmt.Sprintf("%T", x), "FreshBad") {
					v = refuse
				}
				demand(c, reflect.TypeOf(x).Elem(), v, g)
			}
		})
	}
	// every type the other checks rely on, in a random order
	r.DoHere(fmt.Sprintf("static/%d", r.Shard), func(c *vrun.Case) {
		g := rngFor(r, c.ID)
		order := append([]any{}, types.All...)
		g.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		for _, x := range order {
			demand(c, reflect.TypeOf(x).Elem(), accept, g)
		}
		demand(c, reflect.TypeOf(types.Promoted{}), accept, g)
	})
	// arguments that are no pointers to structs
	r.Do("arguments", func(c *vrun.Case) {
		var np *types.Leaf
		pp := &np
		i, s, l, mm := 5, "x", []byte{8, 1}, map[int32]int32{1: 2}
		var e error
		for k, x := range []any{5, "x", l, mm, types.Leaf{}, &i, &s, &l, &mm, pp, &pp, &e, func() {}, make(chan int), []types.Leaf{{}}, []*types.Leaf{{}}, &[]types.Leaf{{}}, map[string]*types.Leaf{}, struct{}{}, uintptr(8), unsafe.Pointer(&i), 1.5, true, [2]int{}, &[2]types.Leaf{}} {
			for rep := 0; rep < 2; rep++ {
				if _, err := prutal.Marshal(x); err == nil {
					c.Fail("Marshal(%T) succeeds", x)
				}
				if _, err := prutal.MarshalAppend([]byte("a"), x); err == nil {
					c.Fail("MarshalAppend(%T) succeeds", x)
				}
				if _, err := prutal.Size(x); err == nil {
					c.Fail("Size(%T) succeeds", x)
				}
				for _, p := range probes {
					if err := prutal.Unmarshal(p, x); err == nil {
						c.Fail("Unmarshal into %T succeeds", x)
					}
				}
			}
			c.Seen("arg", fmt.Sprint(k))
		}
		if i != 5 || s != "x" || string(l) != "\x08\x01" || len(mm) != 1 || np != nil {
			c.Fail("a refused argument was changed")
		}
		for _, p := range probes {
			if prutal.Unmarshal(p, nil) == nil || prutal.Unmarshal(p, np) == nil {
				c.Fail("Unmarshal into nil succeeds")
			}
		}
		prutal.Marshal(nil)
		prutal.Size(nil)
		prutal.Marshal(np)
		prutal.Size(np)
	})
}
