package drv

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"
)

func setUnexported(f reflect.Value, b []byte) {
	*(*[]byte)(unsafe.Pointer(f.UnsafeAddr())) = b
}

var official = reflect.TypeOf((*proto.Message)(nil)).Elem()

// message makes a random message.
func (r *run) message(md protoreflect.MessageDescriptor, depth int, unknown bool) *dynamicpb.Message {
	m := dynamicpb.NewMessage(md)
	pct := r.Pick(0, 15, 50, 90, 100)
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		isMsg := fd.Message() != nil && !fd.IsMap()
		if isMsg && depth == 0 || fd.IsMap() && fd.MapValue().Message() != nil && depth == 0 {
			continue
		}
		if !r.P(pct) && !(fd.Cardinality() == protoreflect.Required && r.P(90)) {
			continue
		}
		if isMsg && pct > 50 && r.P(40) { // keep it small
			continue
		}
		if (fd.IsList() || fd.IsMap()) && fd.Message() != nil && depth < 2 && r.P(50) {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for k := r.Pick(0, 1, 1, 2, 4); k > 0; k-- {
				mp.Set(r.scalar(fd.MapKey()).MapKey(), r.value(fd.MapValue(), depth, unknown))
			}
		case fd.IsList():
			n := r.Pick(0, 1, 1, 2, 3, 5)
			if !isMsg {
				n = r.Pick(0, 1, 1, 2, 3, 7, 20, 130)
			}
			l := m.Mutable(fd).List()
			for ; n > 0; n-- {
				l.Append(r.value(fd, depth, unknown))
			}
		default:
			x := r.value(fd, depth, unknown)
			if fd.Kind() == protoreflect.BytesKind && len(x.Bytes()) == 0 && fd.HasPresence() && fd.ContainingOneof() == nil && strings.HasPrefix(string(md.FullName()), "google.protobuf.") {
				// The tag official code has for an optional bytes field does not tell
				// it from one without presence (known finding of C14).
				x = protoreflect.ValueOfBytes([]byte{1})
			}
			m.Set(fd, x)
		}
	}
	if unknown && r.P(40) && r.s.byMsg[string(md.FullName())] != nil {
		var b []byte
		for i := 1 + r.N(3); i > 0; i-- {
			n := protowire.Number(1 + r.N(1<<29-2))
			if r.P(50) {
				n = protowire.Number(1 + r.N(60))
			}
			if md.Fields().ByNumber(n) != nil || n >= 19000 && n <= 19999 {
				continue
			}
			switch r.N(4) {
			case 0:
				b = protowire.AppendVarint(protowire.AppendTag(b, n, protowire.VarintType), r.U64()>>r.N(64))
			case 1:
				b = protowire.AppendFixed32(protowire.AppendTag(b, n, protowire.Fixed32Type), uint32(r.U64()))
			case 2:
				b = protowire.AppendFixed64(protowire.AppendTag(b, n, protowire.Fixed64Type), r.U64())
			default:
				b = protowire.AppendBytes(protowire.AppendTag(b, n, protowire.BytesType), r.Bytes(r.N(20)))
			}
		}
		m.SetUnknown(b)
	}
	return m
}

func (r *run) value(fd protoreflect.FieldDescriptor, depth int, unknown bool) protoreflect.Value {
	if fd.Message() != nil {
		return protoreflect.ValueOfMessage(r.message(fd.Message(), depth-1, unknown))
	}
	return r.scalar(fd)
}

func (r *run) int64() int64 {
	switch r.N(4) {
	case 0:
		return int64(r.Pick(0, 1, -1, 127, 128, -128, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxUint32))
	case 1:
		return int64(r.N(300)) - 100
	case 2:
		return int64(r.U64() >> r.N(64))
	}
	return -int64(r.U64() >> (1 + r.N(63)))
}

func (r *run) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	i := r.int64()
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(r.P(50))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if fd.Enum().IsClosed() || r.P(70) {
			return protoreflect.ValueOfEnum(vs.Get(r.N(vs.Len())).Number())
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(i)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(i))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(i)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(i))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(i))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{0, float32(math.Copysign(0, -1)), 1.5, -1, float32(math.Inf(1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32}[r.N(8)])
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64([]float64{0, math.Copysign(0, -1), 1.5, -1, math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64}[r.N(8)])
	case protoreflect.StringKind:
		return protoreflect.ValueOfString([]string{"", "a", "héllo", "日本", "\x00", strings.Repeat("x", 130), fmt.Sprint(i)}[r.N(7)])
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(r.Bytes(r.Pick(0, 0, 1, 2, 10, 128)))
	}
	panic(fd.Kind())
}

// fill sets a struct to a message.
func (r *run) fill(v reflect.Value, dm protoreflect.Message) {
	md := dm.Descriptor()
	m := r.s.byMsg[string(md.FullName())]
	if m == nil { // a type of the official runtime
		b, err := proto.MarshalOptions{AllowPartial: true}.Marshal(dm.Interface())
		if err != nil {
			panic(err)
		}
		x, ok := v.Addr().Interface().(proto.Message)
		if !ok {
			r.fail("%s is held as %v", md.FullName(), v.Type())
		}
		if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, x); err != nil {
			panic(err)
		}
		return
	}
	if v.Type() != structType(m) {
		r.fail("%s is held as %v, want %v", md.FullName(), v.Type(), structType(m))
	}
	for i := range m.Fields {
		f := &m.Fields[i]
		fd := md.Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		if !dm.Has(fd) {
			continue
		}
		if f.Oneof != "" {
			o := r.member(v, m, f.Oneof)
			w := reflect.New(reflect.TypeOf(f.Wrapper).Elem())
			r.set(w.Elem().Field(0), fd, dm.Get(fd))
			if !w.Type().AssignableTo(o.Type()) {
				r.fail("message %s: oneof %s does not accept %v", m.Full, f.Oneof, w.Type())
			}
			o.Set(w)
			continue
		}
		r.set(r.member(v, m, f.Go), fd, dm.Get(fd))
	}
	if u := dm.GetUnknown(); len(u) > 0 {
		if x := v.FieldByName("unknownFields"); x.IsValid() {
			setUnexported(x, append([]byte{}, u...))
		}
	}
}

func (r *run) member(v reflect.Value, m *Msg, name string) reflect.Value {
	x := v.FieldByName(name)
	if !x.IsValid() {
		r.fail("message %s has no field %s", m.Full, name)
	}
	return x
}

func (r *run) set(v reflect.Value, fd protoreflect.FieldDescriptor, x protoreflect.Value) {
	switch {
	case fd.IsMap():
		mp := reflect.MakeMap(v.Type())
		x.Map().Range(func(k protoreflect.MapKey, y protoreflect.Value) bool {
			kv, vv := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			r.single(kv, fd.MapKey(), k.Value())
			r.single(vv, fd.MapValue(), y)
			mp.SetMapIndex(kv, vv)
			return true
		})
		v.Set(mp)
	case fd.IsList():
		l := x.List()
		s := reflect.MakeSlice(v.Type(), l.Len(), l.Len())
		for i := 0; i < l.Len(); i++ {
			r.single(s.Index(i), fd, l.Get(i))
		}
		v.Set(s)
	default:
		r.single(v, fd, x)
	}
}

func (r *run) single(v reflect.Value, fd protoreflect.FieldDescriptor, x protoreflect.Value) {
	if v.Kind() == reflect.Pointer {
		p := reflect.New(v.Type().Elem())
		r.single(p.Elem(), fd, x)
		v.Set(p)
		return
	}
	switch fd.Kind() {
	case protoreflect.MessageKind:
		r.fill(v, x.Message())
	case protoreflect.EnumKind:
		v.SetInt(int64(x.Enum()))
	case protoreflect.BytesKind:
		v.SetBytes(append([]byte{}, x.Bytes()...))
	default:
		v.Set(reflect.ValueOf(x.Interface()))
	}
}

// read makes a message of a struct.
func (r *run) read(v reflect.Value, md protoreflect.MessageDescriptor) *dynamicpb.Message {
	dm := dynamicpb.NewMessage(md)
	m := r.s.byMsg[string(md.FullName())]
	if m == nil {
		b, err := proto.MarshalOptions{AllowPartial: true}.Marshal(v.Addr().Interface().(proto.Message))
		if err != nil {
			r.fail("official Marshal of %s: %v", md.FullName(), err)
		}
		if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, dm); err != nil {
			r.fail("official Unmarshal of %s: %v", md.FullName(), err)
		}
		return dm
	}
	for i := range m.Fields {
		f := &m.Fields[i]
		fd := md.Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		if f.Oneof != "" {
			o := r.member(v, m, f.Oneof)
			if !o.IsNil() && o.Elem().Type() == reflect.TypeOf(f.Wrapper) {
				x := o.Elem().Elem().Field(0)
				if x.Kind() == reflect.Pointer && x.IsNil() {
					r.fail("message %s: nil in %v", m.Full, o.Elem().Type())
				}
				dm.Set(fd, r.get(x, fd))
			}
			continue
		}
		x := r.member(v, m, f.Go)
		switch {
		case fd.IsMap():
			if x.Len() > 0 {
				mp := dm.Mutable(fd).Map()
				for _, k := range x.MapKeys() {
					mp.Set(r.get(k, fd.MapKey()).MapKey(), r.get(x.MapIndex(k), fd.MapValue()))
				}
			}
		case fd.IsList():
			if x.Len() > 0 {
				l := dm.Mutable(fd).List()
				for k := 0; k < x.Len(); k++ {
					l.Append(r.get(x.Index(k), fd))
				}
			}
		case x.Kind() == reflect.Pointer || x.Kind() == reflect.Slice:
			if !x.IsNil() {
				dm.Set(fd, r.get(x, fd))
			}
		default: // by value: presence is not known
			dm.Set(fd, r.get(x, fd))
		}
	}
	if x := v.FieldByName("unknownFields"); x.IsValid() {
		dm.SetUnknown(append([]byte{}, *(*[]byte)(unsafe.Pointer(x.UnsafeAddr()))...))
	}
	return dm
}

func (r *run) get(v reflect.Value, fd protoreflect.FieldDescriptor) protoreflect.Value {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			r.fail("nil element for %s", fd.FullName())
		}
		v = v.Elem()
	}
	switch fd.Kind() {
	case protoreflect.MessageKind:
		if !v.CanAddr() {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		return protoreflect.ValueOfMessage(r.read(v, fd.Message()))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(v.Int()))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(append([]byte{}, v.Bytes()...))
	}
	switch v.Kind() {
	case reflect.String:
		return protoreflect.ValueOfString(v.String())
	}
	return protoreflect.ValueOf(v.Interface())
}

// normal drops what generated structs cannot tell: presence of fields held by value, and
// unknown fields of messages which do not keep them.
func (r *run) normal(dm protoreflect.Message) {
	md := dm.Descriptor()
	m := r.s.byMsg[string(md.FullName())]
	if m != nil && !m.Unknown {
		dm.SetUnknown(nil)
	}
	byVal := map[protoreflect.FieldNumber]bool{}
	if m != nil {
		for _, f := range m.Fields {
			byVal[protoreflect.FieldNumber(f.Num)] = f.NoPtr && f.Oneof == ""
		}
	}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if !dm.Has(fd) {
			continue
		}
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				dm.Get(fd).Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
					r.normal(v.Message())
					return true
				})
			}
		case fd.IsList():
			if fd.Message() != nil {
				for k := 0; k < dm.Get(fd).List().Len(); k++ {
					r.normal(dm.Get(fd).List().Get(k).Message())
				}
			}
		case fd.Message() != nil:
			x := dm.Get(fd).Message()
			r.normal(x)
			if byVal[fd.Number()] && proto.Size(x.Interface()) == 0 {
				dm.Clear(fd)
			}
		case byVal[fd.Number()]:
			if z := dm.Get(fd); fd.HasPresence() && zero(fd, z) {
				dm.Clear(fd)
			}
		}
	}
}

func zero(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
	switch fd.Kind() {
	case protoreflect.BytesKind:
		return len(v.Bytes()) == 0
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return v.Float() == 0 && !math.Signbit(v.Float())
	case protoreflect.EnumKind:
		return v.Enum() == 0
	}
	return reflect.ValueOf(v.Interface()).IsZero()
}

func (r *run) same(a, b *dynamicpb.Message, what string) {
	a2, b2 := proto.Clone(a).(*dynamicpb.Message), proto.Clone(b).(*dynamicpb.Message)
	r.normal(a2)
	r.normal(b2)
	if !proto.Equal(a2, b2) {
		r.fail("message %s: %s:\ngot  %v\nwant %v", a.Descriptor().FullName(), what, a2, b2)
	}
}

func anyByValue(s *Schema) bool {
	for _, m := range s.Msgs {
		for _, f := range m.Fields {
			if f.NoPtr {
				return true
			}
		}
	}
	return false
}

// wire exchanges random values between prutal on generated code and the official runtime on the schema.
func (r *run) wire(unknown bool) {
	byVal := anyByValue(r.s)
	for i := range r.s.Msgs {
		m := &r.s.Msgs[i]
		md := r.desc(m.Full)
		for k := 0; k < r.n; k++ {
			dm := r.message(md, 3, unknown)
			b, err := proto.MarshalOptions{AllowPartial: true}.Marshal(dm)
			if err != nil {
				panic(err)
			}
			// official to generated
			x := reflect.New(structType(m))
			if err := prutal.Unmarshal(b, x.Interface()); err != nil {
				r.fail("message %s: Unmarshal of %x: %v", m.Full, b, err)
			}
			r.same(r.read(x.Elem(), md), dm, "decoded by prutal from the official encoding")
			// and back
			r.send(m, md, x, dm, "decoded and encoded by prutal", byVal || unknown)
			// generated to official
			y := reflect.New(structType(m))
			r.fill(y.Elem(), dm)
			r.send(m, md, y, dm, "encoded by prutal", byVal || unknown)
			r.add("messages_exchanged", 1)
			r.add("bytes_exchanged", len(b))
			if len(b) > 0 {
				r.add("nonempty_messages", 1)
			}
		}
	}
}

func (r *run) send(m *Msg, md protoreflect.MessageDescriptor, x reflect.Value, dm *dynamicpb.Message, what string, loose bool) {
	p, err := prutal.Marshal(x.Interface())
	if err != nil {
		r.fail("message %s: Marshal: %v", m.Full, err)
	}
	back := dynamicpb.NewMessage(md)
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(p, back); err != nil {
		r.fail("message %s: the official runtime refuses %x: %v", m.Full, p, err)
	}
	r.same(back, dm, what)
	if n := proto.Size(dm); !loose && n != len(p) {
		r.fail("message %s: %s: %d bytes, the official encoding has %d (packing or presence differs)\n%x\n%v", m.Full, what, len(p), n, p, dm)
	}
	z := reflect.New(structType(m))
	if err := prutal.Unmarshal(p, z.Interface()); err != nil {
		r.fail("message %s: Unmarshal of its own encoding: %v", m.Full, err)
	}
	q, err := prutal.Marshal(z.Interface())
	if err != nil || len(q) != len(p) && !loose {
		r.fail("message %s: encoded again: %d bytes, %v; before %d", m.Full, len(q), err, len(p))
	}
}
