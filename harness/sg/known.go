package sg

import (
	"strings"

	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/apipb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/sourcecontextpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/typepb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

var known []*File

var stable = map[string]bool{"FileDescriptorSet": true, "FileDescriptorProto": true, "DescriptorProto": true, "FieldDescriptorProto": true,
	"EnumDescriptorProto": true, "FileOptions": false, "OneofOptions": true, "UninterpretedOption": true, "SourceCodeInfo": true}

// WellKnown lists the well-known files.
func WellKnown() []*File {
	if known == nil {
		known = newKnown()
	}
	return known
}

func newKnown() (known []*File) {
	all := map[string]*File{}
	var add func(fd protoreflect.FileDescriptor) *File
	add = func(fd protoreflect.FileDescriptor) *File {
		if f := all[fd.Path()]; f != nil {
			return f
		}
		d := protodesc.ToFileDescriptorProto(fd)
		f := &File{Path: fd.Path(), Pkg: string(fd.Package()), Syntax: d.GetSyntax(), Known: d}
		if f.Syntax == "" {
			f.Syntax = "proto2"
		}
		f.GoImport, f.GoPkg, _ = strings.Cut(d.GetOptions().GetGoPackage(), ";")
		for i := 0; i < fd.Imports().Len(); i++ {
			f.Imports = append(f.Imports, &Import{F: add(fd.Imports().Get(i).FileDescriptor), Public: fd.Imports().Get(i).IsPublic})
		}
		var msg func(d protoreflect.MessageDescriptor, parent *Msg) *Msg
		enum := func(d protoreflect.EnumDescriptor, parent *Msg) *Enum {
			e := &Enum{Base: Base{Name: string(d.Name()), Parent: parent, File: f}}
			for i := 0; i < d.Values().Len(); i++ {
				e.Values = append(e.Values, &Value{Name: string(d.Values().Get(i).Name()), Num: int32(d.Values().Get(i).Number())})
			}
			return e
		}
		msg = func(d protoreflect.MessageDescriptor, parent *Msg) *Msg {
			m := &Msg{Base: Base{Name: string(d.Name()), Parent: parent, File: f}}
			for i := 0; i < d.Messages().Len(); i++ {
				if !d.Messages().Get(i).IsMapEntry() {
					m.Msgs = append(m.Msgs, msg(d.Messages().Get(i), m))
				}
			}
			for i := 0; i < d.Enums().Len(); i++ {
				m.Enums = append(m.Enums, enum(d.Enums().Get(i), m))
			}
			return m
		}
		for i := 0; i < fd.Messages().Len(); i++ {
			if n := fd.Messages().Get(i).Name(); f.Path == "google/protobuf/descriptor.proto" && !stable[string(n)] {
				continue // differs between versions of the file
			}
			f.Msgs = append(f.Msgs, msg(fd.Messages().Get(i), nil))
		}
		for i := 0; i < fd.Enums().Len() && f.Path != "google/protobuf/descriptor.proto"; i++ {
			f.Enums = append(f.Enums, enum(fd.Enums().Get(i), nil))
		}
		all[f.Path] = f
		known = append(known, f)
		return f
	}
	for _, fd := range []protoreflect.FileDescriptor{
		timestamppb.File_google_protobuf_timestamp_proto, durationpb.File_google_protobuf_duration_proto,
		anypb.File_google_protobuf_any_proto, structpb.File_google_protobuf_struct_proto,
		wrapperspb.File_google_protobuf_wrappers_proto, emptypb.File_google_protobuf_empty_proto,
		fieldmaskpb.File_google_protobuf_field_mask_proto, descriptorpb.File_google_protobuf_descriptor_proto,
		sourcecontextpb.File_google_protobuf_source_context_proto, typepb.File_google_protobuf_type_proto,
		apipb.File_google_protobuf_api_proto,
	} {
		add(fd)
	}
	return known
}

// dated are files which differ between versions of protobuf.
var dated = map[string]bool{"google/protobuf/descriptor.proto": true, "google/protobuf/api.proto": true, "google/protobuf/type.proto": true}
