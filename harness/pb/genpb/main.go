// Command genpb turns a descriptor set of p2.proto and p3.proto into a code generator
// request for the official plugin, with an edition 2023 variant of p3.proto added
// (protoc here knows no editions).
package main

import (
	"os"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

var n uint32 = 12345

func rnd(k uint32) uint32 { n = n*1664525 + 1013904223; return (n >> 16) % k }

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	set := &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(b, set); err != nil {
		panic(err)
	}
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: set.File, FileToGenerate: []string{"p2.proto", "p3.proto", "ed.proto"}, Parameter: proto.String("module=vharness")}
	for _, f := range set.File {
		if f.GetName() == "p3.proto" {
			req.ProtoFile = append(req.ProtoFile, edition(proto.Clone(f).(*descriptorpb.FileDescriptorProto)))
		}
	}
	out, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(out)
}

func edition(f *descriptorpb.FileDescriptorProto) *descriptorpb.FileDescriptorProto {
	f.Name = proto.String("ed.proto")
	f.Package = proto.String("vh.ed")
	f.Syntax = proto.String("editions")
	f.Edition = descriptorpb.Edition_EDITION_2023.Enum()
	f.Options.GoPackage = proto.String("vharness/pb/ed")
	for _, m := range f.MessageType {
		msg(m)
	}
	for _, e := range f.EnumType {
		if e.GetName() == "Alias" {
			e.Options.Features = &descriptorpb.FeatureSet{EnumType: descriptorpb.FeatureSet_CLOSED.Enum()}
		}
	}
	return f
}

func msg(m *descriptorpb.DescriptorProto) {
	var keep []*descriptorpb.OneofDescriptorProto
	gone := map[int32]bool{}
	for _, x := range m.Field {
		x.JsonName = nil
		if x.GetProto3Optional() {
			gone[x.GetOneofIndex()] = true
			x.OneofIndex, x.Proto3Optional = nil, nil
		}
	}
	for i, o := range m.OneofDecl {
		if !gone[int32(i)] {
			keep = append(keep, o)
		}
	}
	m.OneofDecl = keep
	for _, x := range m.Field {
		if x.TypeName != nil {
			x.TypeName = proto.String(strings.Replace(x.GetTypeName(), ".vh.p3.", ".vh.ed.", 1))
		}
		if m.GetOptions().GetMapEntry() {
			continue
		}
		fs := &descriptorpb.FeatureSet{}
		switch {
		case x.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REPEATED:
			switch x.GetType() {
			case descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE:
				continue
			}
			x.Options = nil
			if rnd(2) == 0 {
				fs.RepeatedFieldEncoding = descriptorpb.FeatureSet_EXPANDED.Enum()
			} else {
				fs.RepeatedFieldEncoding = descriptorpb.FeatureSet_PACKED.Enum()
			}
		case x.OneofIndex != nil:
			continue
		case x.GetType() == descriptorpb.FieldDescriptorProto_TYPE_MESSAGE:
			if rnd(6) == 0 && m.GetName() == "WKT" {
				fs.FieldPresence = descriptorpb.FeatureSet_LEGACY_REQUIRED.Enum()
			}
		default:
			switch rnd(4) {
			case 0:
				fs.FieldPresence = descriptorpb.FeatureSet_LEGACY_REQUIRED.Enum()
			case 1:
				fs.FieldPresence = descriptorpb.FeatureSet_EXPLICIT.Enum()
			case 2:
				fs.FieldPresence = descriptorpb.FeatureSet_IMPLICIT.Enum()
			}
		}
		if fs.FieldPresence == nil && fs.RepeatedFieldEncoding == nil {
			continue
		}
		x.Options = &descriptorpb.FieldOptions{Features: fs}
	}
	for _, k := range m.NestedType {
		msg(k)
	}
}
