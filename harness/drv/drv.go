// Package drv observes generated code at run time: it is linked with the packages prutalgen
// wrote for many schemas and a table of what they must contain.
package drv

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/cloudwego/prutal"

	"vharness/model"
)

// Field of a generated struct.
type Field struct {
	Num     int32
	Go      string // its Go name
	Oneof   string // Go name of the oneof, if any
	Wrapper any    // nil pointer to the wrapper struct
	NoPtr   bool   // held by value
}

type Msg struct {
	Full    string
	Type    any // nil pointer to the struct
	Fields  []Field
	Unknown bool // keeps unknown fields
}

type Const struct {
	Go, Proto string
	Val       int64
}

type Enum struct {
	Full    string
	Zero    any
	Consts  []Const
	Mapping bool
	Names   map[int32]string
	Values  map[string]int32
}

type Schema struct {
	ID      string
	Getters bool
	Kitex   bool // has Marshal and Unmarshal
	Msgs    []Msg
	Enums   []Enum

	files *protoregistry.Files
	byMsg map[string]*Msg
}

var schemas []*Schema

func Register(s *Schema) { schemas = append(schemas, s) }

// Report of one schema.
type Report struct {
	ID       string
	Fail     string
	Counters map[string]int
}

type failure struct{ msg string }

type run struct {
	*model.Rng
	s   *Schema
	rep *Report
	n   int
}

func (r *run) fail(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

func (r *run) add(k string, n int) { r.rep.Counters[k] += n }

// Main runs the driver.
func Main() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	desc := flag.String("desc", "", "directory with descriptor sets")
	n := flag.Int("n", 10, "values for each message")
	flag.Parse()
	out := bufio.NewWriter(os.Stdout)
	for _, s := range schemas {
		r := &run{Rng: model.NewRng(*seed, model.HashStr(s.ID)), s: s, rep: &Report{ID: s.ID, Counters: map[string]int{}}, n: *n}
		fmt.Fprintf(os.Stderr, "\nBEGIN %s\n", s.ID)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if f, ok := e.(failure); ok {
						r.rep.Fail = f.msg
					} else {
						r.rep.Fail = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					}
				}
			}()
			r.load(*desc + "/" + s.ID)
			switch *prop {
			case "G03", "G11":
				r.wire(false)
			case "G07":
				r.enums()
			case "G08":
				r.methods()
			case "G09":
				r.enums()
				r.wire(true)
				r.methods()
			}
		}()
		b, _ := json.Marshal(r.rep)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

func (r *run) load(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	set := &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(b, set); err != nil {
		panic(err)
	}
	if r.s.files, err = protodesc.NewFiles(set); err != nil {
		panic(err)
	}
	r.s.byMsg = map[string]*Msg{}
	for i := range r.s.Msgs {
		r.s.byMsg[r.s.Msgs[i].Full] = &r.s.Msgs[i]
	}
}

func (r *run) desc(full string) protoreflect.MessageDescriptor {
	d, err := r.s.files.FindDescriptorByName(protoreflect.FullName(full))
	if err != nil {
		panic(err)
	}
	return d.(protoreflect.MessageDescriptor)
}

func structType(m *Msg) reflect.Type { return reflect.TypeOf(m.Type).Elem() }

// --- enums

func (r *run) enums() {
	for _, e := range r.s.Enums {
		t := reflect.TypeOf(e.Zero)
		if t.Kind() != reflect.Int32 {
			r.fail("enum %s is %v", e.Full, t.Kind())
		}
		first := map[int32]string{}
		values := map[string]int32{}
		d, err := r.s.files.FindDescriptorByName(protoreflect.FullName(e.Full))
		if err != nil {
			panic(err)
		}
		vs := d.(protoreflect.EnumDescriptor).Values()
		if vs.Len() != len(e.Consts) {
			panic("table")
		}
		for i := 0; i < vs.Len(); i++ {
			v := vs.Get(i)
			c := e.Consts[i]
			if c.Val != int64(v.Number()) {
				r.fail("enum %s: constant %s is %d, value %s is %d", e.Full, c.Go, c.Val, v.Name(), v.Number())
			}
			if _, ok := first[int32(v.Number())]; !ok {
				first[int32(v.Number())] = string(v.Name())
			}
			values[string(v.Name())] = int32(v.Number())
			r.add("enum_constants", 1)
		}
		r.add("enums", 1)
		if !e.Mapping {
			r.add("enums_without_mapping", 1)
			continue
		}
		if !reflect.DeepEqual(e.Names, first) {
			r.fail("enum %s: the map of names is %v, want %v", e.Full, e.Names, first)
		}
		if !reflect.DeepEqual(e.Values, values) {
			r.fail("enum %s: the map of values is %v, want %v", e.Full, e.Values, values)
		}
		probe := []int32{0, 1, -1, 1<<31 - 1, -1 << 31, 127, 128, 1000000}
		for n := range first {
			probe = append(probe, n, n+1, n-1, -n)
		}
		for _, n := range probe {
			v := reflect.New(t).Elem()
			v.SetInt(int64(n))
			s, ok := v.Interface().(fmt.Stringer)
			if !ok {
				r.fail("enum %s has no String method", e.Full)
			}
			want, ok := first[n]
			if !ok {
				want = fmt.Sprint(n)
			}
			if got := s.String(); got != want {
				r.fail("enum %s: String of %d is %q, want %q", e.Full, n, got, want)
			}
			r.add("string_calls", 1)
		}
	}
}

// --- methods

func (r *run) methods() {
	for i := range r.s.Msgs {
		m := &r.s.Msgs[i]
		pt := reflect.PointerTo(structType(m))
		if r.s.Getters {
			r.getters(m, reflect.Zero(pt), true)
			r.getters(m, reflect.New(pt.Elem()), true)
		}
		for k := 0; k < r.n; k++ {
			dm := r.message(r.desc(m.Full), 3, false)
			x := reflect.New(pt.Elem())
			r.fill(x.Elem(), dm)
			if r.s.Getters {
				r.getters(m, x, false)
			}
			if r.s.Kitex {
				r.kitex(m, x, dm)
			}
			if f := x.Elem().FieldByName("unknownFields"); f.IsValid() && r.P(50) {
				setUnexported(f, []byte{0x08, 0x01})
			}
			reset, ok := x.Interface().(interface{ Reset() })
			if !ok {
				r.fail("message %s has no Reset", m.Full)
			}
			reset.Reset()
			if !x.Elem().IsZero() {
				r.fail("message %s after Reset is %+v", m.Full, x.Interface())
			}
			r.add("resets", 1)
		}
	}
}

// kitex checks the Marshal and Unmarshal methods: the first appends the message to its
// argument, the second merges like prutal.Unmarshal.
func (r *run) kitex(m *Msg, x reflect.Value, dm *dynamicpb.Message) {
	type codec interface {
		Marshal([]byte) ([]byte, error)
		Unmarshal([]byte) error
	}
	k, ok := x.Interface().(codec)
	if !ok {
		r.fail("message %s has no Marshal and Unmarshal", m.Full)
	}
	pre := make([]byte, r.N(5), 5+r.N(200))
	for i := range pre {
		pre[i] = byte(0xa0 + i)
	}
	if r.P(20) {
		pre = nil
	}
	want := string(pre)
	out, err := k.Marshal(pre)
	if err != nil {
		r.fail("message %s: Marshal: %v", m.Full, err)
	}
	if len(out) < len(want) || string(out[:len(want)]) != want {
		r.fail("message %s: Marshal(%x) gives %x", m.Full, want, out)
	}
	b := out[len(want):]
	md := r.desc(m.Full)
	y := reflect.New(structType(m))
	if err := y.Interface().(codec).Unmarshal(b); err != nil {
		r.fail("message %s: Unmarshal of %x: %v", m.Full, b, err)
	}
	r.same(r.read(y.Elem(), md), dm, "after Marshal and Unmarshal")
	if plain, err := prutal.Marshal(x.Interface()); err != nil || len(plain) != len(b) {
		r.fail("message %s: Marshal wrote %x, prutal.Marshal gives %x, %v", m.Full, b, plain, err)
	}
	for i := 0; i < 3 && len(b) > 0; i++ { // damaged input: the verdict of prutal.Unmarshal
		d := append([]byte(nil), b[:r.N(len(b)+1)]...)
		if len(d) > 0 && r.P(50) {
			d[r.N(len(d))] ^= 1 << r.N(8)
		}
		e1 := reflect.New(structType(m)).Interface().(codec).Unmarshal(d)
		e2 := prutal.Unmarshal(d, reflect.New(structType(m)).Interface())
		if (e1 == nil) != (e2 == nil) {
			r.fail("message %s: Unmarshal of %x: %v, prutal.Unmarshal: %v", m.Full, d, e1, e2)
		}
	}
	r.add("kitex_round_trips", 1)
}

func (r *run) getters(m *Msg, x reflect.Value, empty bool) {
	call := func(name string) reflect.Value {
		f := x.MethodByName(name)
		if !f.IsValid() {
			r.fail("message %s has no method %s", m.Full, name)
		}
		if f.Type().NumIn() != 0 || f.Type().NumOut() != 1 {
			r.fail("message %s: method %s is %v", m.Full, name, f.Type())
		}
		r.add("getter_calls", 1)
		return f.Call(nil)[0]
	}
	for i := range m.Fields {
		f := &m.Fields[i]
		got := call("Get" + f.Go)
		if f.Oneof != "" {
			o := call("Get" + f.Oneof)
			wt := reflect.TypeOf(f.Wrapper)
			if ft := wt.Elem().Field(0).Type; got.Type() != ft {
				r.fail("message %s: Get%s returns %v, the field is %v", m.Full, f.Go, got.Type(), ft)
			}
			if ft, _ := x.Type().Elem().FieldByName(f.Oneof); o.Type() != ft.Type {
				r.fail("message %s: Get%s returns %v, the field is %v", m.Full, f.Oneof, o.Type(), ft.Type)
			}
			if empty {
				if !o.IsNil() || !got.IsZero() {
					r.fail("message %s: Get%s and Get%s of a nil or empty message are %v and %v", m.Full, f.Oneof, f.Go, o, got)
				}
				continue
			}
			held := x.Elem().FieldByName(f.Oneof)
			if held.IsNil() != o.IsNil() || !held.IsNil() && held.Elem().Pointer() != o.Elem().Pointer() {
				r.fail("message %s: Get%s is not what the field holds", m.Full, f.Oneof)
			}
			if !held.IsNil() && held.Elem().Type() == wt {
				if !identical(held.Elem().Elem().Field(0), got) {
					r.fail("message %s: Get%s is %v, the member is %v", m.Full, f.Go, got, held.Elem().Elem().Field(0))
				}
				r.add("getter_of_set_member", 1)
			} else if !got.IsZero() {
				r.fail("message %s: Get%s is %v though the member is not set", m.Full, f.Go, got)
			}
			continue
		}
		sf, ok := x.Type().Elem().FieldByName(f.Go)
		if !ok {
			r.fail("message %s has no field %s", m.Full, f.Go)
		}
		want := sf.Type
		scalarPtr := want.Kind() == reflect.Pointer && want.Elem().Kind() != reflect.Struct
		if scalarPtr {
			want = want.Elem()
		}
		if got.Type() != want {
			r.fail("message %s: Get%s returns %v, the field is %v", m.Full, f.Go, got.Type(), sf.Type)
		}
		if empty {
			if !got.IsZero() {
				r.fail("message %s: Get%s of a nil or empty message is %v", m.Full, f.Go, got)
			}
			continue
		}
		v := x.Elem().FieldByName(f.Go)
		if scalarPtr {
			if v.IsNil() {
				if !got.IsZero() {
					r.fail("message %s: Get%s of an unset field is %v", m.Full, f.Go, got)
				}
				continue
			}
			v = v.Elem()
		}
		if !identical(v, got) {
			r.fail("message %s: Get%s is %v, the field is %v", m.Full, f.Go, got, v)
		}
		r.add("getter_of_filled_field", 1)
	}
}

// identical tells whether both are the same value: the same memory for references.
func identical(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Pointer, reflect.Map:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Pointer() == b.Pointer()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Struct:
		return reflect.DeepEqual(a.Interface(), b.Interface()) || hasNaN(a)
	}
	return a.Equal(b)
}

func hasNaN(v reflect.Value) bool { return !reflect.DeepEqual(v.Interface(), v.Interface()) }
