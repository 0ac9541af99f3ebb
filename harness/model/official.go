package model

import (
	"errors"
	"fmt"
	"math"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

var descTypes = map[Kind]descriptorpb.FieldDescriptorProto_Type{
	Bool: descriptorpb.FieldDescriptorProto_TYPE_BOOL, Int32: descriptorpb.FieldDescriptorProto_TYPE_INT32,
	Sint32: descriptorpb.FieldDescriptorProto_TYPE_SINT32, Uint32: descriptorpb.FieldDescriptorProto_TYPE_UINT32,
	Int64: descriptorpb.FieldDescriptorProto_TYPE_INT64, Sint64: descriptorpb.FieldDescriptorProto_TYPE_SINT64,
	Uint64: descriptorpb.FieldDescriptorProto_TYPE_UINT64, Sfixed32: descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	Fixed32: descriptorpb.FieldDescriptorProto_TYPE_FIXED32, Float: descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	Sfixed64: descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, Fixed64: descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	Double: descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, String: descriptorpb.FieldDescriptorProto_TYPE_STRING,
	Bytes: descriptorpb.FieldDescriptorProto_TYPE_BYTES, Message: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

// Official builds the official descriptors of a schema.
type Official struct {
	md    map[*Msg]protoreflect.MessageDescriptor
	built map[*Msg]bool
}

func NewOfficial() *Official {
	return &Official{md: map[*Msg]protoreflect.MessageDescriptor{}}
}

func (o *Official) Desc(m *Msg) protoreflect.MessageDescriptor {
	if d := o.md[m]; d != nil {
		return d
	}
	all := m.All()
	names := map[*Msg]string{}
	for i, x := range all {
		names[x] = fmt.Sprintf("M%d", i)
	}
	fd := &descriptorpb.FileDescriptorProto{
		Name: proto.String(fmt.Sprintf("h%d.proto", len(o.md))), Package: proto.String("h"),
		Syntax: proto.String("editions"), Edition: descriptorpb.Edition_EDITION_2023.Enum(),
	}
	feat := func(f *Field) *descriptorpb.FieldOptions {
		fs := &descriptorpb.FeatureSet{}
		if f.Kind == String || f.Card == Map && f.Key == String {
			fs.Utf8Validation = descriptorpb.FeatureSet_NONE.Enum()
		}
		switch f.Card {
		case Implicit:
			fs.FieldPresence = descriptorpb.FeatureSet_IMPLICIT.Enum()
		case Repeated:
			if f.Kind.Packable() {
				if f.Packed {
					fs.RepeatedFieldEncoding = descriptorpb.FeatureSet_PACKED.Enum()
				} else {
					fs.RepeatedFieldEncoding = descriptorpb.FeatureSet_EXPANDED.Enum()
				}
			}
		}
		return &descriptorpb.FieldOptions{Features: fs}
	}
	for _, x := range all {
		dp := &descriptorpb.DescriptorProto{Name: proto.String(names[x])}
		for i := 0; i < x.Oneofs; i++ {
			dp.OneofDecl = append(dp.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("o%d", i+1))})
		}
		used := make([]bool, x.Oneofs)
		for _, f := range x.Fields {
			fp := &descriptorpb.FieldDescriptorProto{
				Name: proto.String(fmt.Sprintf("f%d", f.Num)), Number: proto.Int32(f.Num),
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Options: feat(f),
			}
			setType := func(fp *descriptorpb.FieldDescriptorProto) {
				fp.Type = descTypes[f.Kind].Enum()
				if f.Kind == Message {
					fp.TypeName = proto.String(".h." + names[f.Msg])
				}
			}
			switch f.Card {
			case Map:
				fp.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				fp.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				en := fmt.Sprintf("F%dEntry", f.Num)
				fp.TypeName = proto.String(".h." + names[x] + "." + en)
				vf := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2),
					Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
				setType(vf)
				kf := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1),
					Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descTypes[f.Key].Enum()}
				none := &descriptorpb.FieldOptions{Features: &descriptorpb.FeatureSet{Utf8Validation: descriptorpb.FeatureSet_NONE.Enum()}}
				if f.Key == String {
					kf.Options = none
				}
				if f.Kind == String {
					vf.Options = none
				}
				fp.Options = nil
				dp.NestedType = append(dp.NestedType, &descriptorpb.DescriptorProto{
					Name: proto.String(en), Field: []*descriptorpb.FieldDescriptorProto{kf, vf},
					Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
				})
			case Repeated:
				fp.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				setType(fp)
			default:
				setType(fp)
				if f.Oneof > 0 {
					fp.OneofIndex = proto.Int32(int32(f.Oneof - 1))
					used[f.Oneof-1] = true
				}
			}
			dp.Field = append(dp.Field, fp)
		}
		for i := len(used) - 1; i >= 0; i-- {
			if !used[i] {
				panic("oneof without members")
			}
		}
		fd.MessageType = append(fd.MessageType, dp)
	}
	d, err := protodesc.FileOptions{AllowUnresolvable: true}.New(fd, nil)
	if err != nil {
		panic(fmt.Sprintf("model: descriptor of %s: %v", m.Name, err))
	}
	for i, x := range all {
		if o.md[x] == nil {
			o.md[x] = d.Messages().Get(i)
		}
	}
	return o.md[m]
}

// Decode parses b with the official runtime and returns the model value.
func (o *Official) Decode(m *Msg, b []byte) (*MV, error) {
	d := dynamicpb.NewMessage(o.Desc(m))
	if err := (proto.UnmarshalOptions{RecursionLimit: 20000}).Unmarshal(b, d); err != nil {
		return nil, err
	}
	return m.fromOfficial(d), nil
}

// ErrOfficialPanic: the official runtime itself panicked (it does so for some map entries
// whose key occurs twice, the second time with another wire type).
var ErrOfficialPanic = errors.New("official runtime panicked")

// DecodeErr reports only whether the official runtime accepts b.
func (o *Official) DecodeErr(m *Msg, b []byte) (err error) {
	defer func() {
		if recover() != nil {
			err = ErrOfficialPanic
		}
	}()
	return (proto.UnmarshalOptions{RecursionLimit: 20000}).Unmarshal(b, dynamicpb.NewMessage(o.Desc(m)))
}

// Merge decodes a then b into one message.
func (o *Official) Merge(m *Msg, bs ...[]byte) (*MV, error) {
	d := dynamicpb.NewMessage(o.Desc(m))
	for _, b := range bs {
		if err := (proto.UnmarshalOptions{Merge: true}).Unmarshal(b, d); err != nil {
			return nil, err
		}
	}
	return m.fromOfficial(d), nil
}

func fromPV(k Kind, v protoreflect.Value) any {
	switch k {
	case Bool:
		if v.Bool() {
			return uint64(1)
		}
		return uint64(0)
	case Int32, Sint32, Sfixed32:
		return uint64(uint32(v.Int()))
	case Int64, Sint64, Sfixed64:
		return uint64(v.Int())
	case Uint32, Fixed32, Uint64, Fixed64:
		return v.Uint()
	case Float:
		return uint64(math.Float32bits(float32(v.Float())))
	case Double:
		return math.Float64bits(v.Float())
	case String:
		return v.String()
	case Bytes:
		return string(v.Bytes())
	}
	panic("kind")
}

func toPV(k Kind, x any) protoreflect.Value {
	switch k {
	case Bool:
		return protoreflect.ValueOfBool(x.(uint64) != 0)
	case Int32, Sint32, Sfixed32:
		return protoreflect.ValueOfInt32(int32(x.(uint64)))
	case Int64, Sint64, Sfixed64:
		return protoreflect.ValueOfInt64(int64(x.(uint64)))
	case Uint32, Fixed32:
		return protoreflect.ValueOfUint32(uint32(x.(uint64)))
	case Uint64, Fixed64:
		return protoreflect.ValueOfUint64(x.(uint64))
	case Float:
		return protoreflect.ValueOfFloat32(math.Float32frombits(uint32(x.(uint64))))
	case Double:
		return protoreflect.ValueOfFloat64(math.Float64frombits(x.(uint64)))
	case String:
		return protoreflect.ValueOfString(x.(string))
	case Bytes:
		return protoreflect.ValueOfBytes([]byte(x.(string)))
	}
	panic("kind")
}

// FromOfficial reads any official message of the same schema.
func (m *Msg) FromOfficial(d protoreflect.Message) *MV { return m.fromOfficial(d) }

func (m *Msg) fromOfficial(d protoreflect.Message) *MV {
	v := NewMV()
	d.Range(func(fd protoreflect.FieldDescriptor, pv protoreflect.Value) bool {
		f := m.ByNum[int32(fd.Number())]
		el := func(pv protoreflect.Value) any {
			if f.Kind == Message {
				return f.Msg.fromOfficial(pv.Message())
			}
			if fd.Kind() == protoreflect.EnumKind || fd.IsMap() && fd.MapValue().Kind() == protoreflect.EnumKind {
				return uint64(uint32(pv.Enum()))
			}
			return fromPV(f.Kind, pv)
		}
		switch f.Card {
		case Repeated:
			l := pv.List()
			out := make([]any, l.Len())
			for i := range out {
				out[i] = el(l.Get(i))
			}
			v.F[f.Num] = out
		case Map:
			mm := map[any]any{}
			pv.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
				mm[fromPV(f.Key, k.Value())] = el(x)
				return true
			})
			v.F[f.Num] = mm
		default:
			x := el(pv)
			if f.Kind == Message && f.ByValue && f.Oneof == 0 && x.(*MV).Empty() {
				return true
			}
			v.F[f.Num] = x
		}
		return true
	})
	if u := d.GetUnknown(); len(u) > 0 {
		v.Unk = append([]byte(nil), u...)
	}
	return v
}

// ToOfficial fills an official message.
func (m *Msg) ToOfficial(v *MV, d protoreflect.Message) {
	fds := d.Descriptor().Fields()
	for n, x := range v.F {
		f := m.ByNum[n]
		fd := fds.ByNumber(protoreflect.FieldNumber(n))
		enum := fd.Kind() == protoreflect.EnumKind || fd.IsMap() && fd.MapValue().Kind() == protoreflect.EnumKind
		sc := func(x any) protoreflect.Value {
			if enum {
				return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(x.(uint64))))
			}
			return toPV(f.Kind, x)
		}
		switch f.Card {
		case Repeated:
			l := d.Mutable(fd).List()
			for _, e := range x.([]any) {
				if f.Kind == Message {
					f.Msg.ToOfficial(e.(*MV), l.AppendMutable().Message())
				} else {
					l.Append(sc(e))
				}
			}
		case Map:
			mp := d.Mutable(fd).Map()
			for k, e := range x.(map[any]any) {
				mk := toPV(f.Key, k).MapKey()
				if f.Kind == Message {
					nv := mp.NewValue()
					f.Msg.ToOfficial(e.(*MV), nv.Message())
					mp.Set(mk, nv)
				} else {
					mp.Set(mk, sc(e))
				}
			}
		default:
			if f.Kind == Message {
				f.Msg.ToOfficial(x.(*MV), d.Mutable(fd).Message())
			} else {
				d.Set(fd, sc(x))
			}
		}
	}
	if len(v.Unk) > 0 {
		d.SetUnknown(v.Unk)
	}
}

// OfficialNew makes an official dynamic message holding v.
func (o *Official) New(m *Msg, v *MV) *dynamicpb.Message {
	d := dynamicpb.NewMessage(o.Desc(m))
	m.ToOfficial(v, d)
	return d
}
