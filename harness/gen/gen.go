// Package gen makes random messages of officially generated types.
package gen

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	"vharness/model"
)

// AllTypes returns the message types in scope: no groups, message sets or opaque layouts anywhere in them.
func AllTypes() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(t protoreflect.MessageType) bool {
		if inScope(t.Descriptor(), map[protoreflect.FullName]bool{}) {
			out = append(out, t)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

func inScope(d protoreflect.MessageDescriptor, seen map[protoreflect.FullName]bool) bool {
	if seen[d.FullName()] {
		return true
	}
	seen[d.FullName()] = true
	if d.IsMapEntry() {
		return inFields(d, seen)
	}
	if o, ok := d.Options().(interface{ GetMessageSetWireFormat() bool }); ok && o.GetMessageSetWireFormat() {
		return false
	}
	mt, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		return false
	}
	gt := goType(mt)
	for i := 0; i < gt.NumField(); i++ {
		if strings.HasPrefix(gt.Field(i).Name, "xxx_hidden") {
			return false
		}
	}
	return inFields(d, seen)
}

func inFields(d protoreflect.MessageDescriptor, seen map[protoreflect.FullName]bool) bool {
	for i := 0; i < d.Fields().Len(); i++ {
		f := d.Fields().Get(i)
		if f.Kind() == protoreflect.GroupKind {
			return false
		}
		if f.Message() != nil && !inScope(f.Message(), seen) {
			return false
		}
	}
	return true
}

func goType(mt protoreflect.MessageType) reflect.Type {
	return reflect.TypeOf(mt.Zero().Interface()).Elem()
}

// Fresh is a new message without touching the official runtime.
func Fresh(mt protoreflect.MessageType) proto.Message {
	return reflect.New(goType(mt)).Interface().(proto.Message)
}

// Ambiguous fields have the same Go type and tag whether they have presence or not.
func Ambiguous(f protoreflect.FieldDescriptor) bool {
	return f.Kind() == protoreflect.BytesKind && f.HasPresence() && f.ContainingOneof() == nil && f.Cardinality() == protoreflect.Optional
}

// RawUnknown makes records of fields the message does not have.
func RawUnknown(g *model.Rng, d protoreflect.MessageDescriptor, max int) (b []byte) {
	for n := 1 + g.N(max); n > 0; n-- {
		for {
			num := int32(g.Pick(1+g.N(40), 1+g.N(3000), 1+g.N(1<<29-1), 1<<29-1))
			if d.Fields().ByNumber(protoreflect.FieldNumber(num)) != nil || d.ExtensionRanges().Has(protoreflect.FieldNumber(num)) {
				continue
			}
			// the official runtime keeps unknown fields with their tag in its shortest form
			rec := model.RawRec(g, num)
			_, typ, k := protowire.ConsumeTag(rec)
			b = append(protowire.AppendTag(b, protowire.Number(num), typ), rec[k:]...)
			break
		}
	}
	return b
}

// Message makes a random message; extensions stay unset.
func Message(g *model.Rng, mt protoreflect.MessageType, depth int, unk bool) proto.Message {
	m := Fresh(mt)
	Fill(g, m.ProtoReflect(), depth, g.Pick(5, 20, 50, 100), unk)
	return m
}

// Fill sets random fields.
func Fill(g *model.Rng, m protoreflect.Message, depth, pct int, unk bool) {
	d := m.Descriptor()
	for i := 0; i < d.Fields().Len(); i++ {
		f := d.Fields().Get(i)
		if !g.P(pct) {
			continue
		}
		if o := f.ContainingOneof(); o != nil && !o.IsSynthetic() && m.WhichOneof(o) != nil && g.P(80) {
			continue
		}
		switch {
		case f.IsList():
			n := g.Pick(0, 1, 1, 2, 3, 5, 9)
			if f.Message() != nil && depth < 2 {
				n = g.Pick(0, 1, 1, 2)
			}
			if f.Message() != nil && depth <= 0 {
				continue
			}
			l := m.Mutable(f).List()
			for ; n > 0; n-- {
				if f.Message() != nil {
					Fill(g, l.AppendMutable().Message(), depth-1, pct, unk)
				} else {
					l.Append(scalar(g, f, false))
				}
			}
		case f.IsMap():
			n := g.Pick(0, 1, 1, 2, 4)
			if f.MapValue().Message() != nil && depth <= 0 {
				continue
			}
			mp := m.Mutable(f).Map()
			for ; n > 0; n-- {
				k := scalar(g, f.MapKey(), false).MapKey()
				if f.MapValue().Message() != nil {
					Fill(g, mp.Mutable(k).Message(), depth-1, pct, unk)
				} else {
					mp.Set(k, scalar(g, f.MapValue(), false))
				}
			}
		case f.Message() != nil:
			if depth <= 0 {
				if g.P(30) {
					m.Mutable(f)
				}
				continue
			}
			Fill(g, m.Mutable(f).Message(), depth-1, pct, unk)
		default:
			m.Set(f, scalar(g, f, Ambiguous(f)))
		}
	}
	if unk && g.P(40) {
		m.SetUnknown(RawUnknown(g, d, 3))
	}
}

func scalar(g *model.Rng, f protoreflect.FieldDescriptor, nonEmpty bool) protoreflect.Value {
	u := g.U64()
	if g.P(60) {
		u = model.GenScalar(g, model.Uint64, false).(uint64)
	}
	if g.P(20) {
		u = 0
	}
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(u&1 == 1)
	case protoreflect.EnumKind:
		e := f.Enum()
		if e.IsClosed() || g.P(70) {
			return protoreflect.ValueOfEnum(e.Values().Get(g.N(e.Values().Len())).Number())
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(u)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(u))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(u))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(u))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(u)
	case protoreflect.FloatKind:
		if x := math.Float32frombits(uint32(u)); x == x {
			return protoreflect.ValueOfFloat32(x)
		}
		return protoreflect.ValueOfFloat32(float32(math.NaN()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(math.Float64frombits(u))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(text(g))
	case protoreflect.BytesKind:
		n := g.Pick(0, 0, 1, 3, 20, 127, 128, 129, 300)
		if nonEmpty && n == 0 {
			n = 1
		}
		return protoreflect.ValueOfBytes(g.Bytes(n))
	}
	panic(f.Kind())
}

var words = []string{"", "a", "é", "日本", "\x00", "nul\x00in", "😀", strings.Repeat("x", 127), strings.Repeat("ß", 64), strings.Repeat("long ", 60), "type.googleapis.com/vh.p3.Leaf"}

func text(g *model.Rng) string {
	s := words[g.N(len(words))]
	if g.P(30) {
		s += fmt.Sprint(g.N(1000))
	}
	return s
}
