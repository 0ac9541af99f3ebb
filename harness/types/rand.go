package types

import (
	"fmt"
	"reflect"
	"sort"

	"vharness/model"
)

type scalar struct {
	enc string
	t   reflect.Type
	key bool
}

var scalars = []scalar{
	{"varint", reflect.TypeOf(false), true}, {"varint", reflect.TypeOf(int32(0)), true}, {"zigzag32", reflect.TypeOf(int32(0)), true},
	{"varint", reflect.TypeOf(uint32(0)), true}, {"varint", reflect.TypeOf(int64(0)), true}, {"zigzag64", reflect.TypeOf(int64(0)), true},
	{"varint", reflect.TypeOf(uint64(0)), true}, {"fixed32", reflect.TypeOf(int32(0)), true}, {"fixed32", reflect.TypeOf(uint32(0)), true},
	{"fixed32", reflect.TypeOf(float32(0)), false}, {"fixed64", reflect.TypeOf(int64(0)), true}, {"fixed64", reflect.TypeOf(uint64(0)), true},
	{"fixed64", reflect.TypeOf(float64(0)), false}, {"bytes", reflect.TypeOf(""), true}, {"bytes", reflect.TypeOf([]byte(nil)), false},
	{"varint", reflect.TypeOf(NamedEnum(0)), false},
}

// NamedEnum stands for generated enum types.
type NamedEnum int32

var msgPool = []reflect.Type{
	reflect.TypeOf(Leaf{}), reflect.TypeOf(LeafU{}), reflect.TypeOf(EmptyMsg{}), reflect.TypeOf(V1{}), reflect.TypeOf(V3{}), reflect.TypeOf(V4{}), reflect.TypeOf(V8{}),
	reflect.TypeOf(V8p{}), reflect.TypeOf(V8m{}), reflect.TypeOf(V8two{}), reflect.TypeOf(V16{}), reflect.TypeOf(V24{}), reflect.TypeOf(UBytes{}), reflect.TypeOf(UPtr{}),
	reflect.TypeOf(OneofSingle{}), reflect.TypeOf(OneofAll{}), reflect.TypeOf(Explicit{}), reflect.TypeOf(Tree{}), reflect.TypeOf(ByVal{}), reflect.TypeOf(MapInt32{}),
}

// Rand makes a random supported struct type.
func Rand(r *model.Rng, depth int) reflect.Type {
	n := r.Pick(1, 2, 3, 4, 6, 9, 14)
	nums := map[int]bool{}
	for len(nums) < n {
		var x int
		switch r.N(5) {
		case 0, 1:
			x = 1 + r.N(n+4)
		case 2:
			x = 1 + r.N(200)
		case 3:
			x = r.Pick(15, 16, 2047, 2048, 999, 1000, 1001, 262143, 262144, 33554431, 33554432, 536870911)
		case 4:
			x = 1 + r.N(536870911)
		}
		if x >= 19000 && x <= 19999 {
			continue
		}
		nums[x] = true
	}
	var list []int
	for x := range nums {
		list = append(list, x)
	}
	sort.Ints(list)
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	msg := func() reflect.Type {
		if depth > 0 && r.P(50) {
			return Rand(r, depth-1)
		}
		return msgPool[r.N(len(msgPool))]
	}
	var fs []reflect.StructField
	pad := func() {
		if r.P(15) {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Pad%d", len(fs)),
				Type: []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(int16(0)), reflect.TypeOf([3]byte{}), reflect.TypeOf(""), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{}{})}[r.N(6)]})
		}
	}
	for _, num := range list {
		pad()
		s := scalars[r.N(len(scalars))]
		name := fmt.Sprintf("F%d", num)
		opts := ""
		if r.P(50) {
			opts = ",proto3"
		}
		if r.P(20) {
			opts = ",json=abc" + opts
		}
		add := func(t reflect.Type, tag string) {
			fs = append(fs, reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)})
		}
		isBytes := s.t.Kind() == reflect.Slice
		switch r.N(9) {
		case 0, 1: // scalar, no presence
			if isBytes {
				opts += ",proto3"
			}
			add(s.t, fmt.Sprintf(`protobuf:"%s,%d,opt,name=f%d%s"`, s.enc, num, num, opts))
		case 2: // presence
			lab := "opt"
			if r.P(20) {
				lab = "req"
			}
			if isBytes && lab == "opt" {
				if r.P(30) {
					add(reflect.PointerTo(s.t), fmt.Sprintf(`protobuf:"%s,%d,opt,name=f%d%s"`, s.enc, num, num, opts))
					continue
				}
				opts += ",oneof"
			}
			t := s.t
			if !isBytes {
				t = reflect.PointerTo(t)
			}
			add(t, fmt.Sprintf(`protobuf:"%s,%d,%s,name=f%d%s"`, s.enc, num, lab, num, opts))
		case 3, 4: // list
			p := ""
			if s.enc != "bytes" && r.P(60) {
				p = ",packed"
			}
			add(reflect.SliceOf(s.t), fmt.Sprintf(`protobuf:"%s,%d,rep%s,name=f%d%s"`, s.enc, num, p, num, opts))
		case 5: // map
			k := scalars[r.N(len(scalars))]
			for !k.key {
				k = scalars[r.N(len(scalars))]
			}
			vt, ve := s.t, s.enc
			if r.P(40) {
				vt, ve = msg(), "bytes"
				if r.P(60) {
					vt = reflect.PointerTo(vt)
				}
			}
			add(reflect.MapOf(k.t, vt), fmt.Sprintf(`protobuf:"bytes,%d,rep,name=f%d%s" protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, num, num, opts, k.enc, ve))
		case 6: // message pointer
			add(reflect.PointerTo(msg()), fmt.Sprintf(`protobuf:"bytes,%d,opt,name=f%d%s"`, num, num, opts))
		case 7: // message value
			add(msg(), fmt.Sprintf(`protobuf:"bytes,%d,opt,name=f%d%s"`, num, num, opts))
		case 8: // message list
			t := msg()
			if r.P(60) {
				t = reflect.PointerTo(t)
			}
			add(reflect.SliceOf(t), fmt.Sprintf(`protobuf:"bytes,%d,rep,name=f%d%s"`, num, num, opts))
		}
	}
	pad()
	if r.P(50) {
		t := reflect.TypeOf([]byte(nil))
		if r.P(30) {
			t = reflect.PointerTo(t)
		}
		sf := reflect.StructField{Name: "XXX_unrecognized", Type: t}
		at := r.N(len(fs) + 1)
		fs = append(fs[:at], append([]reflect.StructField{sf}, fs[at:]...)...)
	}
	return reflect.StructOf(fs)
}
