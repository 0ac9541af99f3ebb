// Package sg makes random protobuf schemas: a model which knows the ground truth, its
// descriptor, and a .proto text in random spelling.
package sg

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

type Kind = descriptorpb.FieldDescriptorProto_Type

const (
	KDouble   = descriptorpb.FieldDescriptorProto_TYPE_DOUBLE
	KFloat    = descriptorpb.FieldDescriptorProto_TYPE_FLOAT
	KInt64    = descriptorpb.FieldDescriptorProto_TYPE_INT64
	KUint64   = descriptorpb.FieldDescriptorProto_TYPE_UINT64
	KInt32    = descriptorpb.FieldDescriptorProto_TYPE_INT32
	KFixed64  = descriptorpb.FieldDescriptorProto_TYPE_FIXED64
	KFixed32  = descriptorpb.FieldDescriptorProto_TYPE_FIXED32
	KBool     = descriptorpb.FieldDescriptorProto_TYPE_BOOL
	KString   = descriptorpb.FieldDescriptorProto_TYPE_STRING
	KMessage  = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
	KBytes    = descriptorpb.FieldDescriptorProto_TYPE_BYTES
	KUint32   = descriptorpb.FieldDescriptorProto_TYPE_UINT32
	KEnum     = descriptorpb.FieldDescriptorProto_TYPE_ENUM
	KSfixed32 = descriptorpb.FieldDescriptorProto_TYPE_SFIXED32
	KSfixed64 = descriptorpb.FieldDescriptorProto_TYPE_SFIXED64
	KSint32   = descriptorpb.FieldDescriptorProto_TYPE_SINT32
	KSint64   = descriptorpb.FieldDescriptorProto_TYPE_SINT64
)

var Scalars = []Kind{KDouble, KFloat, KInt64, KUint64, KInt32, KFixed64, KFixed32, KBool, KString, KBytes, KUint32, KSfixed32, KSfixed64, KSint32, KSint64}

func KindName(k Kind) string { return strings.ToLower(strings.TrimPrefix(k.String(), "TYPE_")) }

// Label of a field as written.
type Label int

const (
	None Label = iota
	Optional
	Required
	Repeated
)

type Set struct {
	Files []*File // imports before importers
	Known []*File // well-known files of the set's own, which M options give other Go packages
}

type File struct {
	Path     string // as imported
	Syntax   string // proto2, proto3, 2023
	Pkg      string
	GoImport string
	GoPkg    string // explicit name after ;
	ViaM     bool   // the Go import comes from an M option
	Imports  []*Import
	Msgs     []*Msg
	Enums    []*Enum
	Services []*Service
	Presence string // file feature, "" if unset
	RepEnc   string
	EnumType string
	Ext      bool    // has decoration the descriptor does not show
	Annot    *Annot  // directives of the file
	Extra    []Extra // verbatim declarations
	Gogo     bool    // imports gogoproto
	LieGoPkg string  // a go_package option which an M option overrides
	Known    *descriptorpb.FileDescriptorProto

	RawSyntax  []string   // tokens instead of the syntax statement
	RawImports []string   // further imports
	NoGoPkg    bool       // leave out go_package
	RawHead    [][]string // further statements before the declarations
	RawBody    [][]string // further statements
}

// Extra is verbatim text at the top level which declares nothing prutalgen generates code for.
type Extra struct{ Text string }

type Import struct {
	F      *File
	Public bool
}

type Annot struct {
	Head   []string          // directives (or comments) above
	Inline string            // after it on the same line
	Opts   map[string]string // gogoproto options
}

type Decl interface{ base() *Base }

// Base is what all declarations share.
type Base struct {
	Name   string
	Parent *Msg
	File   *File
	Annot  Annot
}

func (b *Base) base() *Base { return b }

// Full is the full name without leading dot.
func (b *Base) Full() string {
	if b.Parent != nil {
		return b.Parent.Full() + "." + b.Name
	}
	if b.File.Pkg == "" {
		return b.Name
	}
	return b.File.Pkg + "." + b.Name
}

type Msg struct {
	Base
	Fields        []*Field
	Oneofs        []*Oneof
	Msgs          []*Msg
	Enums         []*Enum
	Reserved      []Range
	ReservedNames []string
	ExtRanges     []Range
	Extra         []Extra
	names         map[string]bool
	Deprecated    bool
	Raw           [][]string // further statements
}

// Range is inclusive.
type Range struct{ Lo, Hi int64 }

type Oneof struct {
	Name   string
	Fields []*Field
}

type Field struct {
	Base
	Num      int32
	Label    Label
	Kind     Kind
	Ref      Decl   // *Msg or *Enum
	Spell    string // how to write Ref, any if empty
	Map      bool
	Key      Kind
	Oneof    *Oneof
	RawNum   string
	RawOpt   []string // tokens of a further option
	RawKey   string   // instead of the key type
	Packed   *bool
	Presence string
	RepEnc   string
	Default  string // as written
	DefVal   string // as in the descriptor
	JSON     string
	Deprec   bool
}

type Enum struct {
	Base
	Values        []*Value
	Alias         bool
	Closed        string // feature on the enum itself
	Reserved      []Range
	ReservedNames []string
	Raw           [][]string // further statements
	NoAlias       bool       // leave out allow_alias
}

type Value struct {
	Name   string
	Num    int32
	RawNum []string
	Annot  Annot
	Deprec bool
}

type Service struct {
	Base
	Methods []*Method
}

type Method struct {
	Name      string
	In, Out   *Msg
	InS, OutS bool
	SpellIn   string
	SpellOut  string
}

// IsClosed tells whether unknown values are not values of the enum.
func (e *Enum) IsClosed() bool {
	switch e.File.Syntax {
	case "proto2":
		return true
	case "proto3":
		return false
	}
	if e.Closed != "" {
		return e.Closed == "CLOSED"
	}
	return e.File.EnumType == "CLOSED"
}

// AllMsgs lists the file's messages, nested ones included.
func (f *File) AllMsgs() (out []*Msg) {
	var walk func([]*Msg)
	walk = func(ms []*Msg) {
		for _, m := range ms {
			out = append(out, m)
			walk(m.Msgs)
		}
	}
	walk(f.Msgs)
	return
}

func (f *File) AllEnums() (out []*Enum) {
	out = append(out, f.Enums...)
	for _, m := range f.AllMsgs() {
		out = append(out, m.Enums...)
	}
	return
}

// Visible lists the files whose names f may use.
func (f *File) Visible() []*File {
	seen := map[*File]bool{f: true}
	out := []*File{f}
	var walk func(x *File)
	walk = func(x *File) {
		for _, i := range x.Imports {
			if (x == f || i.Public) && !seen[i.F] {
				seen[i.F] = true
				out = append(out, i.F)
				walk(i.F)
			}
		}
	}
	walk(f)
	return out
}

// --- descriptors

func ptr[T any](x T) *T { return &x }

func (f *File) Descriptor() *descriptorpb.FileDescriptorProto {
	if f.Known != nil {
		return f.Known
	}
	d := &descriptorpb.FileDescriptorProto{Name: ptr(f.Path), Options: &descriptorpb.FileOptions{}}
	switch f.Syntax {
	case "proto3":
		d.Syntax = ptr("proto3")
	case "2023":
		d.Syntax = ptr("editions")
		d.Edition = descriptorpb.Edition_EDITION_2023.Enum()
	}
	if f.Pkg != "" {
		d.Package = ptr(f.Pkg)
	}
	for i, imp := range f.Imports {
		d.Dependency = append(d.Dependency, imp.F.Path)
		if imp.Public {
			d.PublicDependency = append(d.PublicDependency, int32(i))
		}
	}
	if f.LieGoPkg != "" {
		d.Options.GoPackage = ptr(f.LieGoPkg)
	} else if !f.ViaM {
		d.Options.GoPackage = ptr(f.GoPackageOption())
	}
	if f.Presence+f.RepEnc+f.EnumType != "" {
		d.Options.Features = features(f.Presence, f.RepEnc, f.EnumType)
	}
	for _, m := range f.Msgs {
		d.MessageType = append(d.MessageType, m.descriptor())
	}
	for _, e := range f.Enums {
		d.EnumType = append(d.EnumType, e.descriptor())
	}
	for _, s := range f.Services {
		x := &descriptorpb.ServiceDescriptorProto{Name: ptr(s.Name)}
		for _, m := range s.Methods {
			y := &descriptorpb.MethodDescriptorProto{Name: ptr(m.Name), InputType: ptr("." + m.In.Full()), OutputType: ptr("." + m.Out.Full())}
			if m.InS {
				y.ClientStreaming = ptr(true)
			}
			if m.OutS {
				y.ServerStreaming = ptr(true)
			}
			x.Method = append(x.Method, y)
		}
		d.Service = append(d.Service, x)
	}
	return d
}

func (f *File) GoPackageOption() string {
	if f.GoPkg != "" {
		return f.GoImport + ";" + f.GoPkg
	}
	return f.GoImport
}

func features(presence, rep, enum string) *descriptorpb.FeatureSet {
	fs := &descriptorpb.FeatureSet{}
	if presence != "" {
		fs.FieldPresence = descriptorpb.FeatureSet_FieldPresence(descriptorpb.FeatureSet_FieldPresence_value[presence]).Enum()
	}
	if rep != "" {
		fs.RepeatedFieldEncoding = descriptorpb.FeatureSet_RepeatedFieldEncoding(descriptorpb.FeatureSet_RepeatedFieldEncoding_value[rep]).Enum()
	}
	if enum != "" {
		fs.EnumType = descriptorpb.FeatureSet_EnumType(descriptorpb.FeatureSet_EnumType_value[enum]).Enum()
	}
	return fs
}

func (m *Msg) descriptor() *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: ptr(m.Name)}
	oi := map[*Oneof]int32{}
	for i, o := range m.Oneofs {
		oi[o] = int32(i)
		d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: ptr(o.Name)})
	}
	for _, f := range m.Fields {
		x := &descriptorpb.FieldDescriptorProto{Name: ptr(f.Name), Number: ptr(f.Num), Type: f.Kind.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
		if f.Ref != nil {
			x.TypeName = ptr("." + f.Ref.base().Full())
		}
		switch f.Label {
		case Repeated:
			x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		case Required:
			x.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
		}
		opts := &descriptorpb.FieldOptions{}
		has := false
		if f.Packed != nil {
			opts.Packed, has = f.Packed, true
		}
		if f.Presence+f.RepEnc != "" {
			opts.Features, has = features(f.Presence, f.RepEnc, ""), true
		}
		if f.Deprec {
			opts.Deprecated, has = ptr(true), true
		}
		if has {
			x.Options = opts
		}
		if f.Default != "" {
			x.DefaultValue = ptr(f.DefVal)
		}
		if f.JSON != "" {
			x.JsonName = ptr(f.JSON)
		}
		if f.Oneof != nil {
			x.OneofIndex = ptr(oi[f.Oneof])
		}
		if f.Label == Optional && m.File.Syntax == "proto3" {
			x.Proto3Optional = ptr(true)
			x.OneofIndex = ptr(int32(len(d.OneofDecl)))
			name := f.Name
			if name[0] != '_' {
				name = "_" + name
			}
			for m.taken(name) {
				name = "X" + name
			}
			d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: ptr(name)})
		}
		if f.Map {
			e := mapEntryName(f.Name)
			x.Type, x.TypeName = KMessage.Enum(), ptr("."+m.Full()+"."+e)
			x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			v := &descriptorpb.FieldDescriptorProto{Name: ptr("value"), Number: ptr(int32(2)), Type: f.Kind.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: ptr("value")}
			if f.Ref != nil {
				v.TypeName = ptr("." + f.Ref.base().Full())
			}
			d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{
				Name: ptr(e), Options: &descriptorpb.MessageOptions{MapEntry: ptr(true)},
				Field: []*descriptorpb.FieldDescriptorProto{{Name: ptr("key"), Number: ptr(int32(1)), Type: f.Key.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: ptr("key")}, v},
			})
		}
		d.Field = append(d.Field, x)
	}
	for _, n := range m.Msgs {
		d.NestedType = append(d.NestedType, n.descriptor())
	}
	for _, e := range m.Enums {
		d.EnumType = append(d.EnumType, e.descriptor())
	}
	for _, r := range m.Reserved {
		d.ReservedRange = append(d.ReservedRange, &descriptorpb.DescriptorProto_ReservedRange{Start: ptr(int32(r.Lo)), End: ptr(int32(r.Hi + 1))})
	}
	d.ReservedName = m.ReservedNames
	for _, r := range m.ExtRanges {
		d.ExtensionRange = append(d.ExtensionRange, &descriptorpb.DescriptorProto_ExtensionRange{Start: ptr(int32(r.Lo)), End: ptr(int32(r.Hi + 1))})
	}
	if m.Deprecated {
		d.Options = &descriptorpb.MessageOptions{Deprecated: ptr(true)}
	}
	return d
}

func (e *Enum) descriptor() *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: ptr(e.Name)}
	for _, v := range e.Values {
		x := &descriptorpb.EnumValueDescriptorProto{Name: ptr(v.Name), Number: ptr(v.Num)}
		if v.Deprec {
			x.Options = &descriptorpb.EnumValueOptions{Deprecated: ptr(true)}
		}
		d.Value = append(d.Value, x)
	}
	for _, r := range e.Reserved {
		d.ReservedRange = append(d.ReservedRange, &descriptorpb.EnumDescriptorProto_EnumReservedRange{Start: ptr(int32(r.Lo)), End: ptr(int32(r.Hi))})
	}
	d.ReservedName = e.ReservedNames
	if e.Alias || e.Closed != "" {
		d.Options = &descriptorpb.EnumOptions{}
		if e.Alias {
			d.Options.AllowAlias = ptr(true)
		}
		if e.Closed != "" {
			d.Options.Features = features("", "", e.Closed)
		}
	}
	return d
}

func mapEntryName(field string) string {
	var b strings.Builder
	up := true
	for _, c := range field {
		switch {
		case c == '_':
			up = true
		case up && c >= 'a' && c <= 'z':
			b.WriteRune(c - 'a' + 'A')
			up = false
		default:
			b.WriteRune(c)
			up = false
		}
	}
	return b.String() + "Entry"
}

func jsonName(field string) string {
	var b strings.Builder
	up := false
	for _, c := range field {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c = c - 'a' + 'A'
		}
		up = false
		b.WriteRune(c)
	}
	return b.String()
}

// Strip removes from a protoc descriptor what the model does not state.
func Strip(d *descriptorpb.FileDescriptorProto) *descriptorpb.FileDescriptorProto {
	d = proto.Clone(d).(*descriptorpb.FileDescriptorProto)
	d.SourceCodeInfo = nil
	d.Extension = nil
	var deps []string
	var pub []int32
	for i, x := range d.Dependency {
		if x == "decor.proto" || x == "gogoproto/gogo.proto" {
			continue
		}
		for _, k := range d.PublicDependency {
			if int(k) == i {
				pub = append(pub, int32(len(deps)))
			}
		}
		deps = append(deps, x)
	}
	d.Dependency, d.PublicDependency = deps, pub
	if d.Options != nil {
		d.Options = &descriptorpb.FileOptions{GoPackage: d.Options.GoPackage, Features: d.Options.Features}
		if proto.Size(d.Options) == 0 {
			d.Options = nil
		}
	}
	var walk func(m *descriptorpb.DescriptorProto)
	walk = func(m *descriptorpb.DescriptorProto) {
		m.Extension = nil
		if m.Options != nil {
			m.Options.ProtoReflect().SetUnknown(nil)
			if !m.Options.GetMapEntry() && !m.Options.GetDeprecated() {
				m.Options = nil
			}
		}
		for _, o := range m.OneofDecl {
			o.Options = nil
		}
		for _, f := range m.Field {
			if f.GetJsonName() == jsonName(f.GetName()) {
				f.JsonName = nil
			}
			if f.Options != nil {
				o := &descriptorpb.FieldOptions{Packed: f.Options.Packed, Features: f.Options.Features, Deprecated: f.Options.Deprecated}
				f.Options = o
				if proto.Size(o) == 0 {
					f.Options = nil
				}
			}
		}
		for _, n := range m.NestedType {
			walk(n)
		}
		for _, e := range m.EnumType {
			stripEnum(e)
		}
		for _, e := range m.ExtensionRange {
			e.Options = nil
		}
		// map entries stand where their fields are; their order among nested messages is not stated
		sort.SliceStable(m.NestedType, func(i, j int) bool { return m.NestedType[i].GetName() < m.NestedType[j].GetName() })
	}
	for _, m := range d.MessageType {
		walk(m)
	}
	for _, e := range d.EnumType {
		stripEnum(e)
	}
	for _, s := range d.Service {
		s.Options = nil
		for _, m := range s.Method {
			m.Options = nil
		}
	}
	return d
}

func stripEnum(e *descriptorpb.EnumDescriptorProto) {
	if e.Options != nil && !e.Options.GetAllowAlias() && e.Options.Features == nil {
		e.Options = nil
	} else if e.Options != nil {
		e.Options.ProtoReflect().SetUnknown(nil)
		e.Options.Deprecated = nil
	}
	for _, v := range e.Value {
		if v.Options != nil {
			v.Options.ProtoReflect().SetUnknown(nil)
			if v.Options.Deprecated == nil {
				v.Options = nil
			}
		}
	}
}

func (s *Set) String() string {
	var b strings.Builder
	for _, f := range s.Files {
		fmt.Fprintf(&b, "%s ", f.Path)
	}
	return b.String()
}

// Index finds declarations by full name.
func (s *Set) Index() (map[string]*Msg, map[string]*Enum) {
	ms, es := map[string]*Msg{}, map[string]*Enum{}
	for _, f := range append(s.Known[:len(s.Known):len(s.Known)], s.Files...) {
		for _, m := range f.AllMsgs() {
			ms[m.Full()] = m
		}
		for _, e := range f.AllEnums() {
			es[e.Full()] = e
		}
	}
	return ms, es
}

// ByPath finds a file, well-known ones included.
func (s *Set) ByPath(path string) *File {
	for _, f := range s.Files {
		if f.Path == path {
			return f
		}
	}
	for _, f := range s.WellKnown() {
		if f.Path == path {
			return f
		}
	}
	return nil
}

// WellKnown lists the well-known files as they are in the set.
func (s *Set) WellKnown() []*File {
	if s.Known != nil {
		return s.Known
	}
	return WellKnown()
}

func (m *Msg) FieldByNum(n int32) *Field {
	for _, f := range m.Fields {
		if f.Num == n {
			return f
		}
	}
	return nil
}

// GoCamelCase is the official conversion of names.
func GoCamelCase(s string) string {
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case '0' <= c && c <= '9':
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// Fields0 is the number of the first field, or 0.
func (m *Msg) Fields0() int32 {
	if len(m.Fields) == 0 {
		return 0
	}
	return m.Fields[0].Num
}
