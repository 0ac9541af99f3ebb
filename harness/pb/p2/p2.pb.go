// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        (unknown)
// source: p2.proto

package p2

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	structpb "google.golang.org/protobuf/types/known/structpb"
	timestamppb "google.golang.org/protobuf/types/known/timestamppb"
	math "math"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type Color int32

const (
	Color_COLOR_ZERO Color = 0
	Color_COLOR_RED  Color = 1
	Color_COLOR_NEG  Color = -3
	Color_COLOR_MAX  Color = 2147483647
	Color_COLOR_MIN  Color = -2147483648
)

// Enum value maps for Color.
var (
	Color_name = map[int32]string{
		0:           "COLOR_ZERO",
		1:           "COLOR_RED",
		-3:          "COLOR_NEG",
		2147483647:  "COLOR_MAX",
		-2147483648: "COLOR_MIN",
	}
	Color_value = map[string]int32{
		"COLOR_ZERO": 0,
		"COLOR_RED":  1,
		"COLOR_NEG":  -3,
		"COLOR_MAX":  2147483647,
		"COLOR_MIN":  -2147483648,
	}
)

func (x Color) Enum() *Color {
	p := new(Color)
	*p = x
	return p
}

func (x Color) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (Color) Descriptor() protoreflect.EnumDescriptor {
	return file_p2_proto_enumTypes[0].Descriptor()
}

func (Color) Type() protoreflect.EnumType {
	return &file_p2_proto_enumTypes[0]
}

func (x Color) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Do not use.
func (x *Color) UnmarshalJSON(b []byte) error {
	num, err := protoimpl.X.UnmarshalJSONEnum(x.Descriptor(), b)
	if err != nil {
		return err
	}
	*x = Color(num)
	return nil
}

// Deprecated: Use Color.Descriptor instead.
func (Color) EnumDescriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{0}
}

type NoZero int32

const (
	NoZero_NZ_SEVEN NoZero = 7
	NoZero_NZ_ONE   NoZero = 1
)

// Enum value maps for NoZero.
var (
	NoZero_name = map[int32]string{
		7: "NZ_SEVEN",
		1: "NZ_ONE",
	}
	NoZero_value = map[string]int32{
		"NZ_SEVEN": 7,
		"NZ_ONE":   1,
	}
)

func (x NoZero) Enum() *NoZero {
	p := new(NoZero)
	*p = x
	return p
}

func (x NoZero) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (NoZero) Descriptor() protoreflect.EnumDescriptor {
	return file_p2_proto_enumTypes[1].Descriptor()
}

func (NoZero) Type() protoreflect.EnumType {
	return &file_p2_proto_enumTypes[1]
}

func (x NoZero) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Do not use.
func (x *NoZero) UnmarshalJSON(b []byte) error {
	num, err := protoimpl.X.UnmarshalJSONEnum(x.Descriptor(), b)
	if err != nil {
		return err
	}
	*x = NoZero(num)
	return nil
}

// Deprecated: Use NoZero.Descriptor instead.
func (NoZero) EnumDescriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{1}
}

type Tree_Inner_E int32

const (
	Tree_Inner_A Tree_Inner_E = 2
	Tree_Inner_B Tree_Inner_E = 3
)

// Enum value maps for Tree_Inner_E.
var (
	Tree_Inner_E_name = map[int32]string{
		2: "A",
		3: "B",
	}
	Tree_Inner_E_value = map[string]int32{
		"A": 2,
		"B": 3,
	}
)

func (x Tree_Inner_E) Enum() *Tree_Inner_E {
	p := new(Tree_Inner_E)
	*p = x
	return p
}

func (x Tree_Inner_E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (Tree_Inner_E) Descriptor() protoreflect.EnumDescriptor {
	return file_p2_proto_enumTypes[2].Descriptor()
}

func (Tree_Inner_E) Type() protoreflect.EnumType {
	return &file_p2_proto_enumTypes[2]
}

func (x Tree_Inner_E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Do not use.
func (x *Tree_Inner_E) UnmarshalJSON(b []byte) error {
	num, err := protoimpl.X.UnmarshalJSONEnum(x.Descriptor(), b)
	if err != nil {
		return err
	}
	*x = Tree_Inner_E(num)
	return nil
}

// Deprecated: Use Tree_Inner_E.Descriptor instead.
func (Tree_Inner_E) EnumDescriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{8, 1, 0}
}

type Leaf struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	A             *int32                 `protobuf:"varint,1,opt,name=a" json:"a,omitempty"`
	B             *string                `protobuf:"bytes,2,opt,name=b" json:"b,omitempty"`
	C             []byte                 `protobuf:"bytes,3,opt,name=c" json:"c,omitempty"`
	D             *bool                  `protobuf:"varint,4,req,name=d" json:"d,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Leaf) Reset() {
	*x = Leaf{}
	mi := &file_p2_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Leaf) ProtoMessage() {}

func (x *Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Leaf.ProtoReflect.Descriptor instead.
func (*Leaf) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{0}
}

func (x *Leaf) GetA() int32 {
	if x != nil && x.A != nil {
		return *x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil && x.B != nil {
		return *x.B
	}
	return ""
}

func (x *Leaf) GetC() []byte {
	if x != nil {
		return x.C
	}
	return nil
}

func (x *Leaf) GetD() bool {
	if x != nil && x.D != nil {
		return *x.D
	}
	return false
}

type Opt struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       *float64               `protobuf:"fixed64,1,opt,name=f_double,json=fDouble" json:"f_double,omitempty"`
	FFloat        *float32               `protobuf:"fixed32,8,opt,name=f_float,json=fFloat" json:"f_float,omitempty"`
	FInt32        *int32                 `protobuf:"varint,15,opt,name=f_int32,json=fInt32" json:"f_int32,omitempty"`
	FInt64        *int64                 `protobuf:"varint,22,opt,name=f_int64,json=fInt64" json:"f_int64,omitempty"`
	FUint32       *uint32                `protobuf:"varint,29,opt,name=f_uint32,json=fUint32" json:"f_uint32,omitempty"`
	FUint64       *uint64                `protobuf:"varint,36,opt,name=f_uint64,json=fUint64" json:"f_uint64,omitempty"`
	FSint32       *int32                 `protobuf:"zigzag32,43,opt,name=f_sint32,json=fSint32" json:"f_sint32,omitempty"`
	FSint64       *int64                 `protobuf:"zigzag64,50,opt,name=f_sint64,json=fSint64" json:"f_sint64,omitempty"`
	FFixed32      *uint32                `protobuf:"fixed32,57,opt,name=f_fixed32,json=fFixed32" json:"f_fixed32,omitempty"`
	FFixed64      *uint64                `protobuf:"fixed64,64,opt,name=f_fixed64,json=fFixed64" json:"f_fixed64,omitempty"`
	FSfixed32     *int32                 `protobuf:"fixed32,71,opt,name=f_sfixed32,json=fSfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64     *int64                 `protobuf:"fixed64,78,opt,name=f_sfixed64,json=fSfixed64" json:"f_sfixed64,omitempty"`
	FBool         *bool                  `protobuf:"varint,85,opt,name=f_bool,json=fBool" json:"f_bool,omitempty"`
	FString       *string                `protobuf:"bytes,92,opt,name=f_string,json=fString" json:"f_string,omitempty"`
	FBytes        []byte                 `protobuf:"bytes,99,opt,name=f_bytes,json=fBytes" json:"f_bytes,omitempty"`
	FColor        *Color                 `protobuf:"varint,106,opt,name=f_color,json=fColor,enum=vh.p2.Color" json:"f_color,omitempty"`
	FLeaf         *Leaf                  `protobuf:"bytes,113,opt,name=f_leaf,json=fLeaf" json:"f_leaf,omitempty"`
	FNozero       *NoZero                `protobuf:"varint,120,opt,name=f_nozero,json=fNozero,enum=vh.p2.NoZero" json:"f_nozero,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Opt) Reset() {
	*x = Opt{}
	mi := &file_p2_proto_msgTypes[1]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Opt) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Opt) ProtoMessage() {}

func (x *Opt) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[1]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Opt.ProtoReflect.Descriptor instead.
func (*Opt) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{1}
}

func (x *Opt) GetFDouble() float64 {
	if x != nil && x.FDouble != nil {
		return *x.FDouble
	}
	return 0
}

func (x *Opt) GetFFloat() float32 {
	if x != nil && x.FFloat != nil {
		return *x.FFloat
	}
	return 0
}

func (x *Opt) GetFInt32() int32 {
	if x != nil && x.FInt32 != nil {
		return *x.FInt32
	}
	return 0
}

func (x *Opt) GetFInt64() int64 {
	if x != nil && x.FInt64 != nil {
		return *x.FInt64
	}
	return 0
}

func (x *Opt) GetFUint32() uint32 {
	if x != nil && x.FUint32 != nil {
		return *x.FUint32
	}
	return 0
}

func (x *Opt) GetFUint64() uint64 {
	if x != nil && x.FUint64 != nil {
		return *x.FUint64
	}
	return 0
}

func (x *Opt) GetFSint32() int32 {
	if x != nil && x.FSint32 != nil {
		return *x.FSint32
	}
	return 0
}

func (x *Opt) GetFSint64() int64 {
	if x != nil && x.FSint64 != nil {
		return *x.FSint64
	}
	return 0
}

func (x *Opt) GetFFixed32() uint32 {
	if x != nil && x.FFixed32 != nil {
		return *x.FFixed32
	}
	return 0
}

func (x *Opt) GetFFixed64() uint64 {
	if x != nil && x.FFixed64 != nil {
		return *x.FFixed64
	}
	return 0
}

func (x *Opt) GetFSfixed32() int32 {
	if x != nil && x.FSfixed32 != nil {
		return *x.FSfixed32
	}
	return 0
}

func (x *Opt) GetFSfixed64() int64 {
	if x != nil && x.FSfixed64 != nil {
		return *x.FSfixed64
	}
	return 0
}

func (x *Opt) GetFBool() bool {
	if x != nil && x.FBool != nil {
		return *x.FBool
	}
	return false
}

func (x *Opt) GetFString() string {
	if x != nil && x.FString != nil {
		return *x.FString
	}
	return ""
}

func (x *Opt) GetFBytes() []byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Opt) GetFColor() Color {
	if x != nil && x.FColor != nil {
		return *x.FColor
	}
	return Color_COLOR_ZERO
}

func (x *Opt) GetFLeaf() *Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

func (x *Opt) GetFNozero() NoZero {
	if x != nil && x.FNozero != nil {
		return *x.FNozero
	}
	return NoZero_NZ_SEVEN
}

type Def struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       *float64               `protobuf:"fixed64,1,opt,name=f_double,json=fDouble,def=inf" json:"f_double,omitempty"`
	FFloat        *float32               `protobuf:"fixed32,2,opt,name=f_float,json=fFloat,def=-1.5" json:"f_float,omitempty"`
	FInt32        *int32                 `protobuf:"varint,3,opt,name=f_int32,json=fInt32,def=-7" json:"f_int32,omitempty"`
	FInt64        *int64                 `protobuf:"varint,4,opt,name=f_int64,json=fInt64,def=9223372036854775807" json:"f_int64,omitempty"`
	FUint32       *uint32                `protobuf:"varint,5,opt,name=f_uint32,json=fUint32,def=4294967295" json:"f_uint32,omitempty"`
	FUint64       *uint64                `protobuf:"varint,6,opt,name=f_uint64,json=fUint64,def=18446744073709551615" json:"f_uint64,omitempty"`
	FSint32       *int32                 `protobuf:"zigzag32,7,opt,name=f_sint32,json=fSint32,def=-2147483648" json:"f_sint32,omitempty"`
	FSint64       *int64                 `protobuf:"zigzag64,8,opt,name=f_sint64,json=fSint64,def=5" json:"f_sint64,omitempty"`
	FFixed32      *uint32                `protobuf:"fixed32,9,opt,name=f_fixed32,json=fFixed32,def=9" json:"f_fixed32,omitempty"`
	FFixed64      *uint64                `protobuf:"fixed64,10,opt,name=f_fixed64,json=fFixed64,def=10" json:"f_fixed64,omitempty"`
	FSfixed32     *int32                 `protobuf:"fixed32,11,opt,name=f_sfixed32,json=fSfixed32,def=-11" json:"f_sfixed32,omitempty"`
	FSfixed64     *int64                 `protobuf:"fixed64,12,opt,name=f_sfixed64,json=fSfixed64,def=-12" json:"f_sfixed64,omitempty"`
	FBool         *bool                  `protobuf:"varint,13,opt,name=f_bool,json=fBool,def=1" json:"f_bool,omitempty"`
	FString       *string                `protobuf:"bytes,14,opt,name=f_string,json=fString,def=a,b=c\"d" json:"f_string,omitempty"`
	FBytes        []byte                 `protobuf:"bytes,15,opt,name=f_bytes,json=fBytes,def=x\\000y,oneof" json:"f_bytes,omitempty"`
	FColor        *Color                 `protobuf:"varint,16,opt,name=f_color,json=fColor,enum=vh.p2.Color,def=-3" json:"f_color,omitempty"`
	FLeaf         *Leaf                  `protobuf:"bytes,17,opt,name=f_leaf,json=fLeaf" json:"f_leaf,omitempty"`
	FNozero       *NoZero                `protobuf:"varint,18,opt,name=f_nozero,json=fNozero,enum=vh.p2.NoZero,def=1" json:"f_nozero,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

// Default values for Def fields.
const (
	Default_Def_FFloat    = float32(-1.5)
	Default_Def_FInt32    = int32(-7)
	Default_Def_FInt64    = int64(9223372036854775807)
	Default_Def_FUint32   = uint32(4294967295)
	Default_Def_FUint64   = uint64(18446744073709551615)
	Default_Def_FSint32   = int32(-2147483648)
	Default_Def_FSint64   = int64(5)
	Default_Def_FFixed32  = uint32(9)
	Default_Def_FFixed64  = uint64(10)
	Default_Def_FSfixed32 = int32(-11)
	Default_Def_FSfixed64 = int64(-12)
	Default_Def_FBool     = bool(true)
	Default_Def_FString   = string("a,b=c\"d")
	Default_Def_FColor    = Color_COLOR_NEG
	Default_Def_FNozero   = NoZero_NZ_ONE
)

// Default values for Def fields.
var (
	Default_Def_FDouble = float64(math.Inf(+1))
	Default_Def_FBytes  = []byte("x\x00y,oneof")
)

func (x *Def) Reset() {
	*x = Def{}
	mi := &file_p2_proto_msgTypes[2]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Def) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Def) ProtoMessage() {}

func (x *Def) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[2]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Def.ProtoReflect.Descriptor instead.
func (*Def) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{2}
}

func (x *Def) GetFDouble() float64 {
	if x != nil && x.FDouble != nil {
		return *x.FDouble
	}
	return Default_Def_FDouble
}

func (x *Def) GetFFloat() float32 {
	if x != nil && x.FFloat != nil {
		return *x.FFloat
	}
	return Default_Def_FFloat
}

func (x *Def) GetFInt32() int32 {
	if x != nil && x.FInt32 != nil {
		return *x.FInt32
	}
	return Default_Def_FInt32
}

func (x *Def) GetFInt64() int64 {
	if x != nil && x.FInt64 != nil {
		return *x.FInt64
	}
	return Default_Def_FInt64
}

func (x *Def) GetFUint32() uint32 {
	if x != nil && x.FUint32 != nil {
		return *x.FUint32
	}
	return Default_Def_FUint32
}

func (x *Def) GetFUint64() uint64 {
	if x != nil && x.FUint64 != nil {
		return *x.FUint64
	}
	return Default_Def_FUint64
}

func (x *Def) GetFSint32() int32 {
	if x != nil && x.FSint32 != nil {
		return *x.FSint32
	}
	return Default_Def_FSint32
}

func (x *Def) GetFSint64() int64 {
	if x != nil && x.FSint64 != nil {
		return *x.FSint64
	}
	return Default_Def_FSint64
}

func (x *Def) GetFFixed32() uint32 {
	if x != nil && x.FFixed32 != nil {
		return *x.FFixed32
	}
	return Default_Def_FFixed32
}

func (x *Def) GetFFixed64() uint64 {
	if x != nil && x.FFixed64 != nil {
		return *x.FFixed64
	}
	return Default_Def_FFixed64
}

func (x *Def) GetFSfixed32() int32 {
	if x != nil && x.FSfixed32 != nil {
		return *x.FSfixed32
	}
	return Default_Def_FSfixed32
}

func (x *Def) GetFSfixed64() int64 {
	if x != nil && x.FSfixed64 != nil {
		return *x.FSfixed64
	}
	return Default_Def_FSfixed64
}

func (x *Def) GetFBool() bool {
	if x != nil && x.FBool != nil {
		return *x.FBool
	}
	return Default_Def_FBool
}

func (x *Def) GetFString() string {
	if x != nil && x.FString != nil {
		return *x.FString
	}
	return Default_Def_FString
}

func (x *Def) GetFBytes() []byte {
	if x != nil && x.FBytes != nil {
		return x.FBytes
	}
	return append([]byte(nil), Default_Def_FBytes...)
}

func (x *Def) GetFColor() Color {
	if x != nil && x.FColor != nil {
		return *x.FColor
	}
	return Default_Def_FColor
}

func (x *Def) GetFLeaf() *Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

func (x *Def) GetFNozero() NoZero {
	if x != nil && x.FNozero != nil {
		return *x.FNozero
	}
	return Default_Def_FNozero
}

type Req struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       *float64               `protobuf:"fixed64,1,req,name=f_double,json=fDouble" json:"f_double,omitempty"`
	FFloat        *float32               `protobuf:"fixed32,2,req,name=f_float,json=fFloat" json:"f_float,omitempty"`
	FInt32        *int32                 `protobuf:"varint,3,req,name=f_int32,json=fInt32" json:"f_int32,omitempty"`
	FInt64        *int64                 `protobuf:"varint,4,req,name=f_int64,json=fInt64" json:"f_int64,omitempty"`
	FUint32       *uint32                `protobuf:"varint,5,req,name=f_uint32,json=fUint32" json:"f_uint32,omitempty"`
	FUint64       *uint64                `protobuf:"varint,6,req,name=f_uint64,json=fUint64" json:"f_uint64,omitempty"`
	FSint32       *int32                 `protobuf:"zigzag32,7,req,name=f_sint32,json=fSint32" json:"f_sint32,omitempty"`
	FSint64       *int64                 `protobuf:"zigzag64,8,req,name=f_sint64,json=fSint64" json:"f_sint64,omitempty"`
	FFixed32      *uint32                `protobuf:"fixed32,9,req,name=f_fixed32,json=fFixed32" json:"f_fixed32,omitempty"`
	FFixed64      *uint64                `protobuf:"fixed64,10,req,name=f_fixed64,json=fFixed64" json:"f_fixed64,omitempty"`
	FSfixed32     *int32                 `protobuf:"fixed32,11,req,name=f_sfixed32,json=fSfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64     *int64                 `protobuf:"fixed64,12,req,name=f_sfixed64,json=fSfixed64" json:"f_sfixed64,omitempty"`
	FBool         *bool                  `protobuf:"varint,13,req,name=f_bool,json=fBool" json:"f_bool,omitempty"`
	FString       *string                `protobuf:"bytes,14,req,name=f_string,json=fString" json:"f_string,omitempty"`
	FBytes        []byte                 `protobuf:"bytes,15,req,name=f_bytes,json=fBytes" json:"f_bytes,omitempty"`
	FColor        *Color                 `protobuf:"varint,16,req,name=f_color,json=fColor,enum=vh.p2.Color" json:"f_color,omitempty"`
	FLeaf         *Leaf                  `protobuf:"bytes,17,req,name=f_leaf,json=fLeaf" json:"f_leaf,omitempty"`
	FNozero       *NoZero                `protobuf:"varint,18,req,name=f_nozero,json=fNozero,enum=vh.p2.NoZero" json:"f_nozero,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Req) Reset() {
	*x = Req{}
	mi := &file_p2_proto_msgTypes[3]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Req) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Req) ProtoMessage() {}

func (x *Req) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[3]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Req.ProtoReflect.Descriptor instead.
func (*Req) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{3}
}

func (x *Req) GetFDouble() float64 {
	if x != nil && x.FDouble != nil {
		return *x.FDouble
	}
	return 0
}

func (x *Req) GetFFloat() float32 {
	if x != nil && x.FFloat != nil {
		return *x.FFloat
	}
	return 0
}

func (x *Req) GetFInt32() int32 {
	if x != nil && x.FInt32 != nil {
		return *x.FInt32
	}
	return 0
}

func (x *Req) GetFInt64() int64 {
	if x != nil && x.FInt64 != nil {
		return *x.FInt64
	}
	return 0
}

func (x *Req) GetFUint32() uint32 {
	if x != nil && x.FUint32 != nil {
		return *x.FUint32
	}
	return 0
}

func (x *Req) GetFUint64() uint64 {
	if x != nil && x.FUint64 != nil {
		return *x.FUint64
	}
	return 0
}

func (x *Req) GetFSint32() int32 {
	if x != nil && x.FSint32 != nil {
		return *x.FSint32
	}
	return 0
}

func (x *Req) GetFSint64() int64 {
	if x != nil && x.FSint64 != nil {
		return *x.FSint64
	}
	return 0
}

func (x *Req) GetFFixed32() uint32 {
	if x != nil && x.FFixed32 != nil {
		return *x.FFixed32
	}
	return 0
}

func (x *Req) GetFFixed64() uint64 {
	if x != nil && x.FFixed64 != nil {
		return *x.FFixed64
	}
	return 0
}

func (x *Req) GetFSfixed32() int32 {
	if x != nil && x.FSfixed32 != nil {
		return *x.FSfixed32
	}
	return 0
}

func (x *Req) GetFSfixed64() int64 {
	if x != nil && x.FSfixed64 != nil {
		return *x.FSfixed64
	}
	return 0
}

func (x *Req) GetFBool() bool {
	if x != nil && x.FBool != nil {
		return *x.FBool
	}
	return false
}

func (x *Req) GetFString() string {
	if x != nil && x.FString != nil {
		return *x.FString
	}
	return ""
}

func (x *Req) GetFBytes() []byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Req) GetFColor() Color {
	if x != nil && x.FColor != nil {
		return *x.FColor
	}
	return Color_COLOR_ZERO
}

func (x *Req) GetFLeaf() *Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

func (x *Req) GetFNozero() NoZero {
	if x != nil && x.FNozero != nil {
		return *x.FNozero
	}
	return NoZero_NZ_SEVEN
}

type Rep struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       []float64              `protobuf:"fixed64,1,rep,name=f_double,json=fDouble" json:"f_double,omitempty"`
	FFloat        []float32              `protobuf:"fixed32,2,rep,name=f_float,json=fFloat" json:"f_float,omitempty"`
	FInt32        []int32                `protobuf:"varint,3,rep,name=f_int32,json=fInt32" json:"f_int32,omitempty"`
	FInt64        []int64                `protobuf:"varint,4,rep,name=f_int64,json=fInt64" json:"f_int64,omitempty"`
	FUint32       []uint32               `protobuf:"varint,5,rep,name=f_uint32,json=fUint32" json:"f_uint32,omitempty"`
	FUint64       []uint64               `protobuf:"varint,6,rep,name=f_uint64,json=fUint64" json:"f_uint64,omitempty"`
	FSint32       []int32                `protobuf:"zigzag32,7,rep,name=f_sint32,json=fSint32" json:"f_sint32,omitempty"`
	FSint64       []int64                `protobuf:"zigzag64,8,rep,name=f_sint64,json=fSint64" json:"f_sint64,omitempty"`
	FFixed32      []uint32               `protobuf:"fixed32,9,rep,name=f_fixed32,json=fFixed32" json:"f_fixed32,omitempty"`
	FFixed64      []uint64               `protobuf:"fixed64,10,rep,name=f_fixed64,json=fFixed64" json:"f_fixed64,omitempty"`
	FSfixed32     []int32                `protobuf:"fixed32,11,rep,name=f_sfixed32,json=fSfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64     []int64                `protobuf:"fixed64,12,rep,name=f_sfixed64,json=fSfixed64" json:"f_sfixed64,omitempty"`
	FBool         []bool                 `protobuf:"varint,13,rep,name=f_bool,json=fBool" json:"f_bool,omitempty"`
	FString       []string               `protobuf:"bytes,14,rep,name=f_string,json=fString" json:"f_string,omitempty"`
	FBytes        [][]byte               `protobuf:"bytes,15,rep,name=f_bytes,json=fBytes" json:"f_bytes,omitempty"`
	FColor        []Color                `protobuf:"varint,16,rep,name=f_color,json=fColor,enum=vh.p2.Color" json:"f_color,omitempty"`
	FLeaf         []*Leaf                `protobuf:"bytes,17,rep,name=f_leaf,json=fLeaf" json:"f_leaf,omitempty"`
	FNozero       []NoZero               `protobuf:"varint,18,rep,name=f_nozero,json=fNozero,enum=vh.p2.NoZero" json:"f_nozero,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Rep) Reset() {
	*x = Rep{}
	mi := &file_p2_proto_msgTypes[4]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Rep) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Rep) ProtoMessage() {}

func (x *Rep) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[4]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Rep.ProtoReflect.Descriptor instead.
func (*Rep) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{4}
}

func (x *Rep) GetFDouble() []float64 {
	if x != nil {
		return x.FDouble
	}
	return nil
}

func (x *Rep) GetFFloat() []float32 {
	if x != nil {
		return x.FFloat
	}
	return nil
}

func (x *Rep) GetFInt32() []int32 {
	if x != nil {
		return x.FInt32
	}
	return nil
}

func (x *Rep) GetFInt64() []int64 {
	if x != nil {
		return x.FInt64
	}
	return nil
}

func (x *Rep) GetFUint32() []uint32 {
	if x != nil {
		return x.FUint32
	}
	return nil
}

func (x *Rep) GetFUint64() []uint64 {
	if x != nil {
		return x.FUint64
	}
	return nil
}

func (x *Rep) GetFSint32() []int32 {
	if x != nil {
		return x.FSint32
	}
	return nil
}

func (x *Rep) GetFSint64() []int64 {
	if x != nil {
		return x.FSint64
	}
	return nil
}

func (x *Rep) GetFFixed32() []uint32 {
	if x != nil {
		return x.FFixed32
	}
	return nil
}

func (x *Rep) GetFFixed64() []uint64 {
	if x != nil {
		return x.FFixed64
	}
	return nil
}

func (x *Rep) GetFSfixed32() []int32 {
	if x != nil {
		return x.FSfixed32
	}
	return nil
}

func (x *Rep) GetFSfixed64() []int64 {
	if x != nil {
		return x.FSfixed64
	}
	return nil
}

func (x *Rep) GetFBool() []bool {
	if x != nil {
		return x.FBool
	}
	return nil
}

func (x *Rep) GetFString() []string {
	if x != nil {
		return x.FString
	}
	return nil
}

func (x *Rep) GetFBytes() [][]byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Rep) GetFColor() []Color {
	if x != nil {
		return x.FColor
	}
	return nil
}

func (x *Rep) GetFLeaf() []*Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

func (x *Rep) GetFNozero() []NoZero {
	if x != nil {
		return x.FNozero
	}
	return nil
}

type Packed struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       []float64              `protobuf:"fixed64,1,rep,packed,name=f_double,json=fDouble" json:"f_double,omitempty"`
	FFloat        []float32              `protobuf:"fixed32,4,rep,packed,name=f_float,json=fFloat" json:"f_float,omitempty"`
	FInt32        []int32                `protobuf:"varint,7,rep,packed,name=f_int32,json=fInt32" json:"f_int32,omitempty"`
	FInt64        []int64                `protobuf:"varint,10,rep,packed,name=f_int64,json=fInt64" json:"f_int64,omitempty"`
	FUint32       []uint32               `protobuf:"varint,13,rep,packed,name=f_uint32,json=fUint32" json:"f_uint32,omitempty"`
	FUint64       []uint64               `protobuf:"varint,16,rep,packed,name=f_uint64,json=fUint64" json:"f_uint64,omitempty"`
	FSint32       []int32                `protobuf:"zigzag32,19,rep,packed,name=f_sint32,json=fSint32" json:"f_sint32,omitempty"`
	FSint64       []int64                `protobuf:"zigzag64,22,rep,packed,name=f_sint64,json=fSint64" json:"f_sint64,omitempty"`
	FFixed32      []uint32               `protobuf:"fixed32,25,rep,packed,name=f_fixed32,json=fFixed32" json:"f_fixed32,omitempty"`
	FFixed64      []uint64               `protobuf:"fixed64,28,rep,packed,name=f_fixed64,json=fFixed64" json:"f_fixed64,omitempty"`
	FSfixed32     []int32                `protobuf:"fixed32,31,rep,packed,name=f_sfixed32,json=fSfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64     []int64                `protobuf:"fixed64,34,rep,packed,name=f_sfixed64,json=fSfixed64" json:"f_sfixed64,omitempty"`
	FBool         []bool                 `protobuf:"varint,37,rep,packed,name=f_bool,json=fBool" json:"f_bool,omitempty"`
	FString       []string               `protobuf:"bytes,40,rep,name=f_string,json=fString" json:"f_string,omitempty"`
	FBytes        [][]byte               `protobuf:"bytes,43,rep,name=f_bytes,json=fBytes" json:"f_bytes,omitempty"`
	FColor        []Color                `protobuf:"varint,46,rep,packed,name=f_color,json=fColor,enum=vh.p2.Color" json:"f_color,omitempty"`
	FLeaf         []*Leaf                `protobuf:"bytes,49,rep,name=f_leaf,json=fLeaf" json:"f_leaf,omitempty"`
	FNozero       []NoZero               `protobuf:"varint,52,rep,packed,name=f_nozero,json=fNozero,enum=vh.p2.NoZero" json:"f_nozero,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Packed) Reset() {
	*x = Packed{}
	mi := &file_p2_proto_msgTypes[5]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Packed) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Packed) ProtoMessage() {}

func (x *Packed) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[5]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Packed.ProtoReflect.Descriptor instead.
func (*Packed) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{5}
}

func (x *Packed) GetFDouble() []float64 {
	if x != nil {
		return x.FDouble
	}
	return nil
}

func (x *Packed) GetFFloat() []float32 {
	if x != nil {
		return x.FFloat
	}
	return nil
}

func (x *Packed) GetFInt32() []int32 {
	if x != nil {
		return x.FInt32
	}
	return nil
}

func (x *Packed) GetFInt64() []int64 {
	if x != nil {
		return x.FInt64
	}
	return nil
}

func (x *Packed) GetFUint32() []uint32 {
	if x != nil {
		return x.FUint32
	}
	return nil
}

func (x *Packed) GetFUint64() []uint64 {
	if x != nil {
		return x.FUint64
	}
	return nil
}

func (x *Packed) GetFSint32() []int32 {
	if x != nil {
		return x.FSint32
	}
	return nil
}

func (x *Packed) GetFSint64() []int64 {
	if x != nil {
		return x.FSint64
	}
	return nil
}

func (x *Packed) GetFFixed32() []uint32 {
	if x != nil {
		return x.FFixed32
	}
	return nil
}

func (x *Packed) GetFFixed64() []uint64 {
	if x != nil {
		return x.FFixed64
	}
	return nil
}

func (x *Packed) GetFSfixed32() []int32 {
	if x != nil {
		return x.FSfixed32
	}
	return nil
}

func (x *Packed) GetFSfixed64() []int64 {
	if x != nil {
		return x.FSfixed64
	}
	return nil
}

func (x *Packed) GetFBool() []bool {
	if x != nil {
		return x.FBool
	}
	return nil
}

func (x *Packed) GetFString() []string {
	if x != nil {
		return x.FString
	}
	return nil
}

func (x *Packed) GetFBytes() [][]byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Packed) GetFColor() []Color {
	if x != nil {
		return x.FColor
	}
	return nil
}

func (x *Packed) GetFLeaf() []*Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

func (x *Packed) GetFNozero() []NoZero {
	if x != nil {
		return x.FNozero
	}
	return nil
}

type One struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	// Types that are valid to be assigned to U:
	//
	//	*One_UDouble
	//	*One_UFloat
	//	*One_UInt32
	//	*One_UInt64
	//	*One_UUint32
	//	*One_UUint64
	//	*One_USint32
	//	*One_USint64
	//	*One_UFixed32
	//	*One_UFixed64
	//	*One_USfixed32
	//	*One_USfixed64
	//	*One_UBool
	//	*One_UString
	//	*One_UBytes
	//	*One_UColor
	//	*One_ULeaf
	//	*One_UNozero
	U       isOne_U `protobuf_oneof:"u"`
	Between *string `protobuf:"bytes,40,req,name=between" json:"between,omitempty"`
	// Types that are valid to be assigned to V:
	//
	//	*One_Rec
	//	*One_Val
	//	*One_B2
	V             isOne_V `protobuf_oneof:"v"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

// Default values for One fields.
var (
	Default_One_B2 = []byte("q")
)

func (x *One) Reset() {
	*x = One{}
	mi := &file_p2_proto_msgTypes[6]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *One) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*One) ProtoMessage() {}

func (x *One) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[6]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use One.ProtoReflect.Descriptor instead.
func (*One) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{6}
}

func (x *One) GetU() isOne_U {
	if x != nil {
		return x.U
	}
	return nil
}

func (x *One) GetUDouble() float64 {
	if x != nil {
		if x, ok := x.U.(*One_UDouble); ok {
			return x.UDouble
		}
	}
	return 0
}

func (x *One) GetUFloat() float32 {
	if x != nil {
		if x, ok := x.U.(*One_UFloat); ok {
			return x.UFloat
		}
	}
	return 0
}

func (x *One) GetUInt32() int32 {
	if x != nil {
		if x, ok := x.U.(*One_UInt32); ok {
			return x.UInt32
		}
	}
	return 0
}

func (x *One) GetUInt64() int64 {
	if x != nil {
		if x, ok := x.U.(*One_UInt64); ok {
			return x.UInt64
		}
	}
	return 0
}

func (x *One) GetUUint32() uint32 {
	if x != nil {
		if x, ok := x.U.(*One_UUint32); ok {
			return x.UUint32
		}
	}
	return 0
}

func (x *One) GetUUint64() uint64 {
	if x != nil {
		if x, ok := x.U.(*One_UUint64); ok {
			return x.UUint64
		}
	}
	return 0
}

func (x *One) GetUSint32() int32 {
	if x != nil {
		if x, ok := x.U.(*One_USint32); ok {
			return x.USint32
		}
	}
	return 0
}

func (x *One) GetUSint64() int64 {
	if x != nil {
		if x, ok := x.U.(*One_USint64); ok {
			return x.USint64
		}
	}
	return 0
}

func (x *One) GetUFixed32() uint32 {
	if x != nil {
		if x, ok := x.U.(*One_UFixed32); ok {
			return x.UFixed32
		}
	}
	return 0
}

func (x *One) GetUFixed64() uint64 {
	if x != nil {
		if x, ok := x.U.(*One_UFixed64); ok {
			return x.UFixed64
		}
	}
	return 0
}

func (x *One) GetUSfixed32() int32 {
	if x != nil {
		if x, ok := x.U.(*One_USfixed32); ok {
			return x.USfixed32
		}
	}
	return 0
}

func (x *One) GetUSfixed64() int64 {
	if x != nil {
		if x, ok := x.U.(*One_USfixed64); ok {
			return x.USfixed64
		}
	}
	return 0
}

func (x *One) GetUBool() bool {
	if x != nil {
		if x, ok := x.U.(*One_UBool); ok {
			return x.UBool
		}
	}
	return false
}

func (x *One) GetUString() string {
	if x != nil {
		if x, ok := x.U.(*One_UString); ok {
			return x.UString
		}
	}
	return ""
}

func (x *One) GetUBytes() []byte {
	if x != nil {
		if x, ok := x.U.(*One_UBytes); ok {
			return x.UBytes
		}
	}
	return nil
}

func (x *One) GetUColor() Color {
	if x != nil {
		if x, ok := x.U.(*One_UColor); ok {
			return x.UColor
		}
	}
	return Color_COLOR_ZERO
}

func (x *One) GetULeaf() *Leaf {
	if x != nil {
		if x, ok := x.U.(*One_ULeaf); ok {
			return x.ULeaf
		}
	}
	return nil
}

func (x *One) GetUNozero() NoZero {
	if x != nil {
		if x, ok := x.U.(*One_UNozero); ok {
			return x.UNozero
		}
	}
	return NoZero_NZ_SEVEN
}

func (x *One) GetBetween() string {
	if x != nil && x.Between != nil {
		return *x.Between
	}
	return ""
}

func (x *One) GetV() isOne_V {
	if x != nil {
		return x.V
	}
	return nil
}

func (x *One) GetRec() *One {
	if x != nil {
		if x, ok := x.V.(*One_Rec); ok {
			return x.Rec
		}
	}
	return nil
}

func (x *One) GetVal() *structpb.Value {
	if x != nil {
		if x, ok := x.V.(*One_Val); ok {
			return x.Val
		}
	}
	return nil
}

func (x *One) GetB2() []byte {
	if x != nil {
		if x, ok := x.V.(*One_B2); ok {
			return x.B2
		}
	}
	return append([]byte(nil), Default_One_B2...)
}

type isOne_U interface {
	isOne_U()
}

type One_UDouble struct {
	UDouble float64 `protobuf:"fixed64,1,opt,name=u_double,json=uDouble,oneof"`
}

type One_UFloat struct {
	UFloat float32 `protobuf:"fixed32,2,opt,name=u_float,json=uFloat,oneof"`
}

type One_UInt32 struct {
	UInt32 int32 `protobuf:"varint,3,opt,name=u_int32,json=uInt32,oneof"`
}

type One_UInt64 struct {
	UInt64 int64 `protobuf:"varint,4,opt,name=u_int64,json=uInt64,oneof"`
}

type One_UUint32 struct {
	UUint32 uint32 `protobuf:"varint,5,opt,name=u_uint32,json=uUint32,oneof"`
}

type One_UUint64 struct {
	UUint64 uint64 `protobuf:"varint,6,opt,name=u_uint64,json=uUint64,oneof"`
}

type One_USint32 struct {
	USint32 int32 `protobuf:"zigzag32,7,opt,name=u_sint32,json=uSint32,oneof"`
}

type One_USint64 struct {
	USint64 int64 `protobuf:"zigzag64,8,opt,name=u_sint64,json=uSint64,oneof"`
}

type One_UFixed32 struct {
	UFixed32 uint32 `protobuf:"fixed32,9,opt,name=u_fixed32,json=uFixed32,oneof"`
}

type One_UFixed64 struct {
	UFixed64 uint64 `protobuf:"fixed64,10,opt,name=u_fixed64,json=uFixed64,oneof"`
}

type One_USfixed32 struct {
	USfixed32 int32 `protobuf:"fixed32,11,opt,name=u_sfixed32,json=uSfixed32,oneof"`
}

type One_USfixed64 struct {
	USfixed64 int64 `protobuf:"fixed64,12,opt,name=u_sfixed64,json=uSfixed64,oneof"`
}

type One_UBool struct {
	UBool bool `protobuf:"varint,13,opt,name=u_bool,json=uBool,oneof"`
}

type One_UString struct {
	UString string `protobuf:"bytes,14,opt,name=u_string,json=uString,oneof"`
}

type One_UBytes struct {
	UBytes []byte `protobuf:"bytes,15,opt,name=u_bytes,json=uBytes,oneof"`
}

type One_UColor struct {
	UColor Color `protobuf:"varint,16,opt,name=u_color,json=uColor,enum=vh.p2.Color,oneof"`
}

type One_ULeaf struct {
	ULeaf *Leaf `protobuf:"bytes,17,opt,name=u_leaf,json=uLeaf,oneof"`
}

type One_UNozero struct {
	UNozero NoZero `protobuf:"varint,18,opt,name=u_nozero,json=uNozero,enum=vh.p2.NoZero,oneof"`
}

func (*One_UDouble) isOne_U() {}

func (*One_UFloat) isOne_U() {}

func (*One_UInt32) isOne_U() {}

func (*One_UInt64) isOne_U() {}

func (*One_UUint32) isOne_U() {}

func (*One_UUint64) isOne_U() {}

func (*One_USint32) isOne_U() {}

func (*One_USint64) isOne_U() {}

func (*One_UFixed32) isOne_U() {}

func (*One_UFixed64) isOne_U() {}

func (*One_USfixed32) isOne_U() {}

func (*One_USfixed64) isOne_U() {}

func (*One_UBool) isOne_U() {}

func (*One_UString) isOne_U() {}

func (*One_UBytes) isOne_U() {}

func (*One_UColor) isOne_U() {}

func (*One_ULeaf) isOne_U() {}

func (*One_UNozero) isOne_U() {}

type isOne_V interface {
	isOne_V()
}

type One_Rec struct {
	Rec *One `protobuf:"bytes,41,opt,name=rec,oneof"`
}

type One_Val struct {
	Val *structpb.Value `protobuf:"bytes,42,opt,name=val,oneof"`
}

type One_B2 struct {
	B2 []byte `protobuf:"bytes,43,opt,name=b2,oneof,def=q"`
}

func (*One_Rec) isOne_V() {}

func (*One_Val) isOne_V() {}

func (*One_B2) isOne_V() {}

type Maps struct {
	state           protoimpl.MessageState `protogen:"open.v1"`
	MInt32Int32     map[int32]int32        `protobuf:"bytes,1,rep,name=m_int32_int32,json=mInt32Int32" json:"m_int32_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32String    map[int32]string       `protobuf:"bytes,2,rep,name=m_int32_string,json=mInt32String" json:"m_int32_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt32Leaf      map[int32]*Leaf        `protobuf:"bytes,3,rep,name=m_int32_leaf,json=mInt32Leaf" json:"m_int32_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt32Color     map[int32]Color        `protobuf:"bytes,4,rep,name=m_int32_color,json=mInt32Color" json:"m_int32_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MInt32Bytes     map[int32][]byte       `protobuf:"bytes,5,rep,name=m_int32_bytes,json=mInt32Bytes" json:"m_int32_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Int32     map[int64]int32        `protobuf:"bytes,6,rep,name=m_int64_int32,json=mInt64Int32" json:"m_int64_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64String    map[int64]string       `protobuf:"bytes,7,rep,name=m_int64_string,json=mInt64String" json:"m_int64_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Leaf      map[int64]*Leaf        `protobuf:"bytes,8,rep,name=m_int64_leaf,json=mInt64Leaf" json:"m_int64_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Color     map[int64]Color        `protobuf:"bytes,9,rep,name=m_int64_color,json=mInt64Color" json:"m_int64_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MInt64Bytes     map[int64][]byte       `protobuf:"bytes,10,rep,name=m_int64_bytes,json=mInt64Bytes" json:"m_int64_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Int32    map[uint32]int32       `protobuf:"bytes,11,rep,name=m_uint32_int32,json=mUint32Int32" json:"m_uint32_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32String   map[uint32]string      `protobuf:"bytes,12,rep,name=m_uint32_string,json=mUint32String" json:"m_uint32_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Leaf     map[uint32]*Leaf       `protobuf:"bytes,13,rep,name=m_uint32_leaf,json=mUint32Leaf" json:"m_uint32_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Color    map[uint32]Color       `protobuf:"bytes,14,rep,name=m_uint32_color,json=mUint32Color" json:"m_uint32_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MUint32Bytes    map[uint32][]byte      `protobuf:"bytes,15,rep,name=m_uint32_bytes,json=mUint32Bytes" json:"m_uint32_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Int32    map[uint64]int32       `protobuf:"bytes,16,rep,name=m_uint64_int32,json=mUint64Int32" json:"m_uint64_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64String   map[uint64]string      `protobuf:"bytes,17,rep,name=m_uint64_string,json=mUint64String" json:"m_uint64_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Leaf     map[uint64]*Leaf       `protobuf:"bytes,18,rep,name=m_uint64_leaf,json=mUint64Leaf" json:"m_uint64_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Color    map[uint64]Color       `protobuf:"bytes,19,rep,name=m_uint64_color,json=mUint64Color" json:"m_uint64_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MUint64Bytes    map[uint64][]byte      `protobuf:"bytes,20,rep,name=m_uint64_bytes,json=mUint64Bytes" json:"m_uint64_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Int32    map[int32]int32        `protobuf:"bytes,21,rep,name=m_sint32_int32,json=mSint32Int32" json:"m_sint32_int32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32String   map[int32]string       `protobuf:"bytes,22,rep,name=m_sint32_string,json=mSint32String" json:"m_sint32_string,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Leaf     map[int32]*Leaf        `protobuf:"bytes,23,rep,name=m_sint32_leaf,json=mSint32Leaf" json:"m_sint32_leaf,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Color    map[int32]Color        `protobuf:"bytes,24,rep,name=m_sint32_color,json=mSint32Color" json:"m_sint32_color,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MSint32Bytes    map[int32][]byte       `protobuf:"bytes,25,rep,name=m_sint32_bytes,json=mSint32Bytes" json:"m_sint32_bytes,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Int32    map[int64]int32        `protobuf:"bytes,26,rep,name=m_sint64_int32,json=mSint64Int32" json:"m_sint64_int32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64String   map[int64]string       `protobuf:"bytes,27,rep,name=m_sint64_string,json=mSint64String" json:"m_sint64_string,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Leaf     map[int64]*Leaf        `protobuf:"bytes,28,rep,name=m_sint64_leaf,json=mSint64Leaf" json:"m_sint64_leaf,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Color    map[int64]Color        `protobuf:"bytes,29,rep,name=m_sint64_color,json=mSint64Color" json:"m_sint64_color,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MSint64Bytes    map[int64][]byte       `protobuf:"bytes,30,rep,name=m_sint64_bytes,json=mSint64Bytes" json:"m_sint64_bytes,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Int32   map[uint32]int32       `protobuf:"bytes,31,rep,name=m_fixed32_int32,json=mFixed32Int32" json:"m_fixed32_int32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32String  map[uint32]string      `protobuf:"bytes,32,rep,name=m_fixed32_string,json=mFixed32String" json:"m_fixed32_string,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Leaf    map[uint32]*Leaf       `protobuf:"bytes,33,rep,name=m_fixed32_leaf,json=mFixed32Leaf" json:"m_fixed32_leaf,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Color   map[uint32]Color       `protobuf:"bytes,34,rep,name=m_fixed32_color,json=mFixed32Color" json:"m_fixed32_color,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MFixed32Bytes   map[uint32][]byte      `protobuf:"bytes,35,rep,name=m_fixed32_bytes,json=mFixed32Bytes" json:"m_fixed32_bytes,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Int32   map[uint64]int32       `protobuf:"bytes,36,rep,name=m_fixed64_int32,json=mFixed64Int32" json:"m_fixed64_int32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64String  map[uint64]string      `protobuf:"bytes,37,rep,name=m_fixed64_string,json=mFixed64String" json:"m_fixed64_string,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Leaf    map[uint64]*Leaf       `protobuf:"bytes,38,rep,name=m_fixed64_leaf,json=mFixed64Leaf" json:"m_fixed64_leaf,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Color   map[uint64]Color       `protobuf:"bytes,39,rep,name=m_fixed64_color,json=mFixed64Color" json:"m_fixed64_color,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MFixed64Bytes   map[uint64][]byte      `protobuf:"bytes,40,rep,name=m_fixed64_bytes,json=mFixed64Bytes" json:"m_fixed64_bytes,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Int32  map[int32]int32        `protobuf:"bytes,41,rep,name=m_sfixed32_int32,json=mSfixed32Int32" json:"m_sfixed32_int32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32String map[int32]string       `protobuf:"bytes,42,rep,name=m_sfixed32_string,json=mSfixed32String" json:"m_sfixed32_string,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Leaf   map[int32]*Leaf        `protobuf:"bytes,43,rep,name=m_sfixed32_leaf,json=mSfixed32Leaf" json:"m_sfixed32_leaf,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Color  map[int32]Color        `protobuf:"bytes,44,rep,name=m_sfixed32_color,json=mSfixed32Color" json:"m_sfixed32_color,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MSfixed32Bytes  map[int32][]byte       `protobuf:"bytes,45,rep,name=m_sfixed32_bytes,json=mSfixed32Bytes" json:"m_sfixed32_bytes,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Int32  map[int64]int32        `protobuf:"bytes,46,rep,name=m_sfixed64_int32,json=mSfixed64Int32" json:"m_sfixed64_int32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64String map[int64]string       `protobuf:"bytes,47,rep,name=m_sfixed64_string,json=mSfixed64String" json:"m_sfixed64_string,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Leaf   map[int64]*Leaf        `protobuf:"bytes,48,rep,name=m_sfixed64_leaf,json=mSfixed64Leaf" json:"m_sfixed64_leaf,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Color  map[int64]Color        `protobuf:"bytes,49,rep,name=m_sfixed64_color,json=mSfixed64Color" json:"m_sfixed64_color,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MSfixed64Bytes  map[int64][]byte       `protobuf:"bytes,50,rep,name=m_sfixed64_bytes,json=mSfixed64Bytes" json:"m_sfixed64_bytes,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolInt32      map[bool]int32         `protobuf:"bytes,51,rep,name=m_bool_int32,json=mBoolInt32" json:"m_bool_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolString     map[bool]string        `protobuf:"bytes,52,rep,name=m_bool_string,json=mBoolString" json:"m_bool_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolLeaf       map[bool]*Leaf         `protobuf:"bytes,53,rep,name=m_bool_leaf,json=mBoolLeaf" json:"m_bool_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolColor      map[bool]Color         `protobuf:"bytes,54,rep,name=m_bool_color,json=mBoolColor" json:"m_bool_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MBoolBytes      map[bool][]byte        `protobuf:"bytes,55,rep,name=m_bool_bytes,json=mBoolBytes" json:"m_bool_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringInt32    map[string]int32       `protobuf:"bytes,56,rep,name=m_string_int32,json=mStringInt32" json:"m_string_int32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringString   map[string]string      `protobuf:"bytes,57,rep,name=m_string_string,json=mStringString" json:"m_string_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringLeaf     map[string]*Leaf       `protobuf:"bytes,58,rep,name=m_string_leaf,json=mStringLeaf" json:"m_string_leaf,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringColor    map[string]Color       `protobuf:"bytes,59,rep,name=m_string_color,json=mStringColor" json:"m_string_color,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p2.Color"`
	MStringBytes    map[string][]byte      `protobuf:"bytes,60,rep,name=m_string_bytes,json=mStringBytes" json:"m_string_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields   protoimpl.UnknownFields
	sizeCache       protoimpl.SizeCache
}

func (x *Maps) Reset() {
	*x = Maps{}
	mi := &file_p2_proto_msgTypes[7]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps) ProtoMessage() {}

func (x *Maps) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[7]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps.ProtoReflect.Descriptor instead.
func (*Maps) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{7}
}

func (x *Maps) GetMInt32Int32() map[int32]int32 {
	if x != nil {
		return x.MInt32Int32
	}
	return nil
}

func (x *Maps) GetMInt32String() map[int32]string {
	if x != nil {
		return x.MInt32String
	}
	return nil
}

func (x *Maps) GetMInt32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MInt32Leaf
	}
	return nil
}

func (x *Maps) GetMInt32Color() map[int32]Color {
	if x != nil {
		return x.MInt32Color
	}
	return nil
}

func (x *Maps) GetMInt32Bytes() map[int32][]byte {
	if x != nil {
		return x.MInt32Bytes
	}
	return nil
}

func (x *Maps) GetMInt64Int32() map[int64]int32 {
	if x != nil {
		return x.MInt64Int32
	}
	return nil
}

func (x *Maps) GetMInt64String() map[int64]string {
	if x != nil {
		return x.MInt64String
	}
	return nil
}

func (x *Maps) GetMInt64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MInt64Leaf
	}
	return nil
}

func (x *Maps) GetMInt64Color() map[int64]Color {
	if x != nil {
		return x.MInt64Color
	}
	return nil
}

func (x *Maps) GetMInt64Bytes() map[int64][]byte {
	if x != nil {
		return x.MInt64Bytes
	}
	return nil
}

func (x *Maps) GetMUint32Int32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Int32
	}
	return nil
}

func (x *Maps) GetMUint32String() map[uint32]string {
	if x != nil {
		return x.MUint32String
	}
	return nil
}

func (x *Maps) GetMUint32Leaf() map[uint32]*Leaf {
	if x != nil {
		return x.MUint32Leaf
	}
	return nil
}

func (x *Maps) GetMUint32Color() map[uint32]Color {
	if x != nil {
		return x.MUint32Color
	}
	return nil
}

func (x *Maps) GetMUint32Bytes() map[uint32][]byte {
	if x != nil {
		return x.MUint32Bytes
	}
	return nil
}

func (x *Maps) GetMUint64Int32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Int32
	}
	return nil
}

func (x *Maps) GetMUint64String() map[uint64]string {
	if x != nil {
		return x.MUint64String
	}
	return nil
}

func (x *Maps) GetMUint64Leaf() map[uint64]*Leaf {
	if x != nil {
		return x.MUint64Leaf
	}
	return nil
}

func (x *Maps) GetMUint64Color() map[uint64]Color {
	if x != nil {
		return x.MUint64Color
	}
	return nil
}

func (x *Maps) GetMUint64Bytes() map[uint64][]byte {
	if x != nil {
		return x.MUint64Bytes
	}
	return nil
}

func (x *Maps) GetMSint32Int32() map[int32]int32 {
	if x != nil {
		return x.MSint32Int32
	}
	return nil
}

func (x *Maps) GetMSint32String() map[int32]string {
	if x != nil {
		return x.MSint32String
	}
	return nil
}

func (x *Maps) GetMSint32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MSint32Leaf
	}
	return nil
}

func (x *Maps) GetMSint32Color() map[int32]Color {
	if x != nil {
		return x.MSint32Color
	}
	return nil
}

func (x *Maps) GetMSint32Bytes() map[int32][]byte {
	if x != nil {
		return x.MSint32Bytes
	}
	return nil
}

func (x *Maps) GetMSint64Int32() map[int64]int32 {
	if x != nil {
		return x.MSint64Int32
	}
	return nil
}

func (x *Maps) GetMSint64String() map[int64]string {
	if x != nil {
		return x.MSint64String
	}
	return nil
}

func (x *Maps) GetMSint64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MSint64Leaf
	}
	return nil
}

func (x *Maps) GetMSint64Color() map[int64]Color {
	if x != nil {
		return x.MSint64Color
	}
	return nil
}

func (x *Maps) GetMSint64Bytes() map[int64][]byte {
	if x != nil {
		return x.MSint64Bytes
	}
	return nil
}

func (x *Maps) GetMFixed32Int32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Int32
	}
	return nil
}

func (x *Maps) GetMFixed32String() map[uint32]string {
	if x != nil {
		return x.MFixed32String
	}
	return nil
}

func (x *Maps) GetMFixed32Leaf() map[uint32]*Leaf {
	if x != nil {
		return x.MFixed32Leaf
	}
	return nil
}

func (x *Maps) GetMFixed32Color() map[uint32]Color {
	if x != nil {
		return x.MFixed32Color
	}
	return nil
}

func (x *Maps) GetMFixed32Bytes() map[uint32][]byte {
	if x != nil {
		return x.MFixed32Bytes
	}
	return nil
}

func (x *Maps) GetMFixed64Int32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Int32
	}
	return nil
}

func (x *Maps) GetMFixed64String() map[uint64]string {
	if x != nil {
		return x.MFixed64String
	}
	return nil
}

func (x *Maps) GetMFixed64Leaf() map[uint64]*Leaf {
	if x != nil {
		return x.MFixed64Leaf
	}
	return nil
}

func (x *Maps) GetMFixed64Color() map[uint64]Color {
	if x != nil {
		return x.MFixed64Color
	}
	return nil
}

func (x *Maps) GetMFixed64Bytes() map[uint64][]byte {
	if x != nil {
		return x.MFixed64Bytes
	}
	return nil
}

func (x *Maps) GetMSfixed32Int32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Int32
	}
	return nil
}

func (x *Maps) GetMSfixed32String() map[int32]string {
	if x != nil {
		return x.MSfixed32String
	}
	return nil
}

func (x *Maps) GetMSfixed32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MSfixed32Leaf
	}
	return nil
}

func (x *Maps) GetMSfixed32Color() map[int32]Color {
	if x != nil {
		return x.MSfixed32Color
	}
	return nil
}

func (x *Maps) GetMSfixed32Bytes() map[int32][]byte {
	if x != nil {
		return x.MSfixed32Bytes
	}
	return nil
}

func (x *Maps) GetMSfixed64Int32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Int32
	}
	return nil
}

func (x *Maps) GetMSfixed64String() map[int64]string {
	if x != nil {
		return x.MSfixed64String
	}
	return nil
}

func (x *Maps) GetMSfixed64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MSfixed64Leaf
	}
	return nil
}

func (x *Maps) GetMSfixed64Color() map[int64]Color {
	if x != nil {
		return x.MSfixed64Color
	}
	return nil
}

func (x *Maps) GetMSfixed64Bytes() map[int64][]byte {
	if x != nil {
		return x.MSfixed64Bytes
	}
	return nil
}

func (x *Maps) GetMBoolInt32() map[bool]int32 {
	if x != nil {
		return x.MBoolInt32
	}
	return nil
}

func (x *Maps) GetMBoolString() map[bool]string {
	if x != nil {
		return x.MBoolString
	}
	return nil
}

func (x *Maps) GetMBoolLeaf() map[bool]*Leaf {
	if x != nil {
		return x.MBoolLeaf
	}
	return nil
}

func (x *Maps) GetMBoolColor() map[bool]Color {
	if x != nil {
		return x.MBoolColor
	}
	return nil
}

func (x *Maps) GetMBoolBytes() map[bool][]byte {
	if x != nil {
		return x.MBoolBytes
	}
	return nil
}

func (x *Maps) GetMStringInt32() map[string]int32 {
	if x != nil {
		return x.MStringInt32
	}
	return nil
}

func (x *Maps) GetMStringString() map[string]string {
	if x != nil {
		return x.MStringString
	}
	return nil
}

func (x *Maps) GetMStringLeaf() map[string]*Leaf {
	if x != nil {
		return x.MStringLeaf
	}
	return nil
}

func (x *Maps) GetMStringColor() map[string]Color {
	if x != nil {
		return x.MStringColor
	}
	return nil
}

func (x *Maps) GetMStringBytes() map[string][]byte {
	if x != nil {
		return x.MStringBytes
	}
	return nil
}

type Tree struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	Left  *Tree                  `protobuf:"bytes,1,opt,name=left" json:"left,omitempty"`
	Kids  []*Tree                `protobuf:"bytes,2,rep,name=kids" json:"kids,omitempty"`
	ById  map[string]*Tree       `protobuf:"bytes,3,rep,name=by_id,json=byId" json:"by_id,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Inner *Tree_Inner            `protobuf:"bytes,4,opt,name=inner" json:"inner,omitempty"`
	// Types that are valid to be assigned to O:
	//
	//	*Tree_Oi
	//	*Tree_Oe
	O             isTree_O               `protobuf_oneof:"o"`
	Ts            *timestamppb.Timestamp `protobuf:"bytes,7,opt,name=ts" json:"ts,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Tree) Reset() {
	*x = Tree{}
	mi := &file_p2_proto_msgTypes[8]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Tree) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Tree) ProtoMessage() {}

func (x *Tree) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[8]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Tree.ProtoReflect.Descriptor instead.
func (*Tree) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{8}
}

func (x *Tree) GetLeft() *Tree {
	if x != nil {
		return x.Left
	}
	return nil
}

func (x *Tree) GetKids() []*Tree {
	if x != nil {
		return x.Kids
	}
	return nil
}

func (x *Tree) GetById() map[string]*Tree {
	if x != nil {
		return x.ById
	}
	return nil
}

func (x *Tree) GetInner() *Tree_Inner {
	if x != nil {
		return x.Inner
	}
	return nil
}

func (x *Tree) GetO() isTree_O {
	if x != nil {
		return x.O
	}
	return nil
}

func (x *Tree) GetOi() *Tree_Inner {
	if x != nil {
		if x, ok := x.O.(*Tree_Oi); ok {
			return x.Oi
		}
	}
	return nil
}

func (x *Tree) GetOe() Tree_Inner_E {
	if x != nil {
		if x, ok := x.O.(*Tree_Oe); ok {
			return x.Oe
		}
	}
	return Tree_Inner_A
}

func (x *Tree) GetTs() *timestamppb.Timestamp {
	if x != nil {
		return x.Ts
	}
	return nil
}

type isTree_O interface {
	isTree_O()
}

type Tree_Oi struct {
	Oi *Tree_Inner `protobuf:"bytes,5,opt,name=oi,oneof"`
}

type Tree_Oe struct {
	Oe Tree_Inner_E `protobuf:"varint,6,opt,name=oe,enum=vh.p2.Tree_Inner_E,oneof"`
}

func (*Tree_Oi) isTree_O() {}

func (*Tree_Oe) isTree_O() {}

type Tree_Inner struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	T             *Tree                  `protobuf:"bytes,1,req,name=t" json:"t,omitempty"`
	E             *Tree_Inner_E          `protobuf:"varint,2,opt,name=e,enum=vh.p2.Tree_Inner_E,def=3" json:"e,omitempty"`
	Es            []Tree_Inner_E         `protobuf:"varint,3,rep,packed,name=es,enum=vh.p2.Tree_Inner_E" json:"es,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

// Default values for Tree_Inner fields.
const (
	Default_Tree_Inner_E = Tree_Inner_B
)

func (x *Tree_Inner) Reset() {
	*x = Tree_Inner{}
	mi := &file_p2_proto_msgTypes[70]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Tree_Inner) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Tree_Inner) ProtoMessage() {}

func (x *Tree_Inner) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[70]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Tree_Inner.ProtoReflect.Descriptor instead.
func (*Tree_Inner) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{8, 1}
}

func (x *Tree_Inner) GetT() *Tree {
	if x != nil {
		return x.T
	}
	return nil
}

func (x *Tree_Inner) GetE() Tree_Inner_E {
	if x != nil && x.E != nil {
		return *x.E
	}
	return Default_Tree_Inner_E
}

func (x *Tree_Inner) GetEs() []Tree_Inner_E {
	if x != nil {
		return x.Es
	}
	return nil
}

var File_p2_proto protoreflect.FileDescriptor

const file_p2_proto_rawDesc = "" +
	"\n" +
	"\bp2.proto\x12\x05vh.p2\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1cgoogle/protobuf/struct.proto\">\n" +
	"\x04Leaf\x12\f\n" +
	"\x01a\x18\x01 \x01(\x05R\x01a\x12\f\n" +
	"\x01b\x18\x02 \x01(\tR\x01b\x12\f\n" +
	"\x01c\x18\x03 \x01(\fR\x01c\x12\f\n" +
	"\x01d\x18\x04 \x02(\bR\x01d\"\x8f\x04\n" +
	"\x03Opt\x12\x19\n" +
	"\bf_double\x18\x01 \x01(\x01R\afDouble\x12\x17\n" +
	"\af_float\x18\b \x01(\x02R\x06fFloat\x12\x17\n" +
	"\af_int32\x18\x0f \x01(\x05R\x06fInt32\x12\x17\n" +
	"\af_int64\x18\x16 \x01(\x03R\x06fInt64\x12\x19\n" +
	"\bf_uint32\x18\x1d \x01(\rR\afUint32\x12\x19\n" +
	"\bf_uint64\x18$ \x01(\x04R\afUint64\x12\x19\n" +
	"\bf_sint32\x18+ \x01(\x11R\afSint32\x12\x19\n" +
	"\bf_sint64\x182 \x01(\x12R\afSint64\x12\x1b\n" +
	"\tf_fixed32\x189 \x01(\aR\bfFixed32\x12\x1b\n" +
	"\tf_fixed64\x18@ \x01(\x06R\bfFixed64\x12\x1d\n" +
	"\n" +
	"f_sfixed32\x18G \x01(\x0fR\tfSfixed32\x12\x1d\n" +
	"\n" +
	"f_sfixed64\x18N \x01(\x10R\tfSfixed64\x12\x15\n" +
	"\x06f_bool\x18U \x01(\bR\x05fBool\x12\x19\n" +
	"\bf_string\x18\\ \x01(\tR\afString\x12\x17\n" +
	"\af_bytes\x18c \x01(\fR\x06fBytes\x12%\n" +
	"\af_color\x18j \x01(\x0e2\f.vh.p2.ColorR\x06fColor\x12\"\n" +
	"\x06f_leaf\x18q \x01(\v2\v.vh.p2.LeafR\x05fLeaf\x12(\n" +
	"\bf_nozero\x18x \x01(\x0e2\r.vh.p2.NoZeroR\afNozero\"\xa6\x05\n" +
	"\x03Def\x12\x1e\n" +
	"\bf_double\x18\x01 \x01(\x01:\x03infR\afDouble\x12\x1d\n" +
	"\af_float\x18\x02 \x01(\x02:\x04-1.5R\x06fFloat\x12\x1b\n" +
	"\af_int32\x18\x03 \x01(\x05:\x02-7R\x06fInt32\x12,\n" +
	"\af_int64\x18\x04 \x01(\x03:\x139223372036854775807R\x06fInt64\x12%\n" +
	"\bf_uint32\x18\x05 \x01(\r:\n" +
	"4294967295R\afUint32\x12/\n" +
	"\bf_uint64\x18\x06 \x01(\x04:\x1418446744073709551615R\afUint64\x12&\n" +
	"\bf_sint32\x18\a \x01(\x11:\v-2147483648R\afSint32\x12\x1c\n" +
	"\bf_sint64\x18\b \x01(\x12:\x015R\afSint64\x12\x1e\n" +
	"\tf_fixed32\x18\t \x01(\a:\x019R\bfFixed32\x12\x1f\n" +
	"\tf_fixed64\x18\n" +
	" \x01(\x06:\x0210R\bfFixed64\x12\"\n" +
	"\n" +
	"f_sfixed32\x18\v \x01(\x0f:\x03-11R\tfSfixed32\x12\"\n" +
	"\n" +
	"f_sfixed64\x18\f \x01(\x10:\x03-12R\tfSfixed64\x12\x1b\n" +
	"\x06f_bool\x18\r \x01(\b:\x04trueR\x05fBool\x12\"\n" +
	"\bf_string\x18\x0e \x01(\t:\aa,b=c\"dR\afString\x12%\n" +
	"\af_bytes\x18\x0f \x01(\f:\fx\\000y,oneofR\x06fBytes\x120\n" +
	"\af_color\x18\x10 \x01(\x0e2\f.vh.p2.Color:\tCOLOR_NEGR\x06fColor\x12\"\n" +
	"\x06f_leaf\x18\x11 \x01(\v2\v.vh.p2.LeafR\x05fLeaf\x120\n" +
	"\bf_nozero\x18\x12 \x01(\x0e2\r.vh.p2.NoZero:\x06NZ_ONER\afNozero\"\x8f\x04\n" +
	"\x03Req\x12\x19\n" +
	"\bf_double\x18\x01 \x02(\x01R\afDouble\x12\x17\n" +
	"\af_float\x18\x02 \x02(\x02R\x06fFloat\x12\x17\n" +
	"\af_int32\x18\x03 \x02(\x05R\x06fInt32\x12\x17\n" +
	"\af_int64\x18\x04 \x02(\x03R\x06fInt64\x12\x19\n" +
	"\bf_uint32\x18\x05 \x02(\rR\afUint32\x12\x19\n" +
	"\bf_uint64\x18\x06 \x02(\x04R\afUint64\x12\x19\n" +
	"\bf_sint32\x18\a \x02(\x11R\afSint32\x12\x19\n" +
	"\bf_sint64\x18\b \x02(\x12R\afSint64\x12\x1b\n" +
	"\tf_fixed32\x18\t \x02(\aR\bfFixed32\x12\x1b\n" +
	"\tf_fixed64\x18\n" +
	" \x02(\x06R\bfFixed64\x12\x1d\n" +
	"\n" +
	"f_sfixed32\x18\v \x02(\x0fR\tfSfixed32\x12\x1d\n" +
	"\n" +
	"f_sfixed64\x18\f \x02(\x10R\tfSfixed64\x12\x15\n" +
	"\x06f_bool\x18\r \x02(\bR\x05fBool\x12\x19\n" +
	"\bf_string\x18\x0e \x02(\tR\afString\x12\x17\n" +
	"\af_bytes\x18\x0f \x02(\fR\x06fBytes\x12%\n" +
	"\af_color\x18\x10 \x02(\x0e2\f.vh.p2.ColorR\x06fColor\x12\"\n" +
	"\x06f_leaf\x18\x11 \x02(\v2\v.vh.p2.LeafR\x05fLeaf\x12(\n" +
	"\bf_nozero\x18\x12 \x02(\x0e2\r.vh.p2.NoZeroR\afNozero\"\x8f\x04\n" +
	"\x03Rep\x12\x19\n" +
	"\bf_double\x18\x01 \x03(\x01R\afDouble\x12\x17\n" +
	"\af_float\x18\x02 \x03(\x02R\x06fFloat\x12\x17\n" +
	"\af_int32\x18\x03 \x03(\x05R\x06fInt32\x12\x17\n" +
	"\af_int64\x18\x04 \x03(\x03R\x06fInt64\x12\x19\n" +
	"\bf_uint32\x18\x05 \x03(\rR\afUint32\x12\x19\n" +
	"\bf_uint64\x18\x06 \x03(\x04R\afUint64\x12\x19\n" +
	"\bf_sint32\x18\a \x03(\x11R\afSint32\x12\x19\n" +
	"\bf_sint64\x18\b \x03(\x12R\afSint64\x12\x1b\n" +
	"\tf_fixed32\x18\t \x03(\aR\bfFixed32\x12\x1b\n" +
	"\tf_fixed64\x18\n" +
	" \x03(\x06R\bfFixed64\x12\x1d\n" +
	"\n" +
	"f_sfixed32\x18\v \x03(\x0fR\tfSfixed32\x12\x1d\n" +
	"\n" +
	"f_sfixed64\x18\f \x03(\x10R\tfSfixed64\x12\x15\n" +
	"\x06f_bool\x18\r \x03(\bR\x05fBool\x12\x19\n" +
	"\bf_string\x18\x0e \x03(\tR\afString\x12\x17\n" +
	"\af_bytes\x18\x0f \x03(\fR\x06fBytes\x12%\n" +
	"\af_color\x18\x10 \x03(\x0e2\f.vh.p2.ColorR\x06fColor\x12\"\n" +
	"\x06f_leaf\x18\x11 \x03(\v2\v.vh.p2.LeafR\x05fLeaf\x12(\n" +
	"\bf_nozero\x18\x12 \x03(\x0e2\r.vh.p2.NoZeroR\afNozero\"\xce\x04\n" +
	"\x06Packed\x12\x1d\n" +
	"\bf_double\x18\x01 \x03(\x01B\x02\x10\x01R\afDouble\x12\x1b\n" +
	"\af_float\x18\x04 \x03(\x02B\x02\x10\x01R\x06fFloat\x12\x1b\n" +
	"\af_int32\x18\a \x03(\x05B\x02\x10\x01R\x06fInt32\x12\x1b\n" +
	"\af_int64\x18\n" +
	" \x03(\x03B\x02\x10\x01R\x06fInt64\x12\x1d\n" +
	"\bf_uint32\x18\r \x03(\rB\x02\x10\x01R\afUint32\x12\x1d\n" +
	"\bf_uint64\x18\x10 \x03(\x04B\x02\x10\x01R\afUint64\x12\x1d\n" +
	"\bf_sint32\x18\x13 \x03(\x11B\x02\x10\x01R\afSint32\x12\x1d\n" +
	"\bf_sint64\x18\x16 \x03(\x12B\x02\x10\x01R\afSint64\x12\x1f\n" +
	"\tf_fixed32\x18\x19 \x03(\aB\x02\x10\x01R\bfFixed32\x12\x1f\n" +
	"\tf_fixed64\x18\x1c \x03(\x06B\x02\x10\x01R\bfFixed64\x12!\n" +
	"\n" +
	"f_sfixed32\x18\x1f \x03(\x0fB\x02\x10\x01R\tfSfixed32\x12!\n" +
	"\n" +
	"f_sfixed64\x18\" \x03(\x10B\x02\x10\x01R\tfSfixed64\x12\x19\n" +
	"\x06f_bool\x18% \x03(\bB\x02\x10\x01R\x05fBool\x12\x19\n" +
	"\bf_string\x18( \x03(\tR\afString\x12\x17\n" +
	"\af_bytes\x18+ \x03(\fR\x06fBytes\x12)\n" +
	"\af_color\x18. \x03(\x0e2\f.vh.p2.ColorB\x02\x10\x01R\x06fColor\x12\"\n" +
	"\x06f_leaf\x181 \x03(\v2\v.vh.p2.LeafR\x05fLeaf\x12,\n" +
	"\bf_nozero\x184 \x03(\x0e2\r.vh.p2.NoZeroB\x02\x10\x01R\afNozero\"\xb8\x05\n" +
	"\x03One\x12\x1b\n" +
	"\bu_double\x18\x01 \x01(\x01H\x00R\auDouble\x12\x19\n" +
	"\au_float\x18\x02 \x01(\x02H\x00R\x06uFloat\x12\x19\n" +
	"\au_int32\x18\x03 \x01(\x05H\x00R\x06uInt32\x12\x19\n" +
	"\au_int64\x18\x04 \x01(\x03H\x00R\x06uInt64\x12\x1b\n" +
	"\bu_uint32\x18\x05 \x01(\rH\x00R\auUint32\x12\x1b\n" +
	"\bu_uint64\x18\x06 \x01(\x04H\x00R\auUint64\x12\x1b\n" +
	"\bu_sint32\x18\a \x01(\x11H\x00R\auSint32\x12\x1b\n" +
	"\bu_sint64\x18\b \x01(\x12H\x00R\auSint64\x12\x1d\n" +
	"\tu_fixed32\x18\t \x01(\aH\x00R\buFixed32\x12\x1d\n" +
	"\tu_fixed64\x18\n" +
	" \x01(\x06H\x00R\buFixed64\x12\x1f\n" +
	"\n" +
	"u_sfixed32\x18\v \x01(\x0fH\x00R\tuSfixed32\x12\x1f\n" +
	"\n" +
	"u_sfixed64\x18\f \x01(\x10H\x00R\tuSfixed64\x12\x17\n" +
	"\x06u_bool\x18\r \x01(\bH\x00R\x05uBool\x12\x1b\n" +
	"\bu_string\x18\x0e \x01(\tH\x00R\auString\x12\x19\n" +
	"\au_bytes\x18\x0f \x01(\fH\x00R\x06uBytes\x12'\n" +
	"\au_color\x18\x10 \x01(\x0e2\f.vh.p2.ColorH\x00R\x06uColor\x12$\n" +
	"\x06u_leaf\x18\x11 \x01(\v2\v.vh.p2.LeafH\x00R\x05uLeaf\x12*\n" +
	"\bu_nozero\x18\x12 \x01(\x0e2\r.vh.p2.NoZeroH\x00R\auNozero\x12\x18\n" +
	"\abetween\x18( \x02(\tR\abetween\x12\x1e\n" +
	"\x03rec\x18) \x01(\v2\n" +
	".vh.p2.OneH\x01R\x03rec\x12*\n" +
	"\x03val\x18* \x01(\v2\x16.google.protobuf.ValueH\x01R\x03val\x12\x13\n" +
	"\x02b2\x18+ \x01(\f:\x01qH\x01R\x02b2B\x03\n" +
	"\x01uB\x03\n" +
	"\x01v\"\xdaA\n" +
	"\x04Maps\x12@\n" +
	"\rm_int32_int32\x18\x01 \x03(\v2\x1c.vh.p2.Maps.MInt32Int32EntryR\vmInt32Int32\x12C\n" +
	"\x0em_int32_string\x18\x02 \x03(\v2\x1d.vh.p2.Maps.MInt32StringEntryR\fmInt32String\x12=\n" +
	"\fm_int32_leaf\x18\x03 \x03(\v2\x1b.vh.p2.Maps.MInt32LeafEntryR\n" +
	"mInt32Leaf\x12@\n" +
	"\rm_int32_color\x18\x04 \x03(\v2\x1c.vh.p2.Maps.MInt32ColorEntryR\vmInt32Color\x12@\n" +
	"\rm_int32_bytes\x18\x05 \x03(\v2\x1c.vh.p2.Maps.MInt32BytesEntryR\vmInt32Bytes\x12@\n" +
	"\rm_int64_int32\x18\x06 \x03(\v2\x1c.vh.p2.Maps.MInt64Int32EntryR\vmInt64Int32\x12C\n" +
	"\x0em_int64_string\x18\a \x03(\v2\x1d.vh.p2.Maps.MInt64StringEntryR\fmInt64String\x12=\n" +
	"\fm_int64_leaf\x18\b \x03(\v2\x1b.vh.p2.Maps.MInt64LeafEntryR\n" +
	"mInt64Leaf\x12@\n" +
	"\rm_int64_color\x18\t \x03(\v2\x1c.vh.p2.Maps.MInt64ColorEntryR\vmInt64Color\x12@\n" +
	"\rm_int64_bytes\x18\n" +
	" \x03(\v2\x1c.vh.p2.Maps.MInt64BytesEntryR\vmInt64Bytes\x12C\n" +
	"\x0em_uint32_int32\x18\v \x03(\v2\x1d.vh.p2.Maps.MUint32Int32EntryR\fmUint32Int32\x12F\n" +
	"\x0fm_uint32_string\x18\f \x03(\v2\x1e.vh.p2.Maps.MUint32StringEntryR\rmUint32String\x12@\n" +
	"\rm_uint32_leaf\x18\r \x03(\v2\x1c.vh.p2.Maps.MUint32LeafEntryR\vmUint32Leaf\x12C\n" +
	"\x0em_uint32_color\x18\x0e \x03(\v2\x1d.vh.p2.Maps.MUint32ColorEntryR\fmUint32Color\x12C\n" +
	"\x0em_uint32_bytes\x18\x0f \x03(\v2\x1d.vh.p2.Maps.MUint32BytesEntryR\fmUint32Bytes\x12C\n" +
	"\x0em_uint64_int32\x18\x10 \x03(\v2\x1d.vh.p2.Maps.MUint64Int32EntryR\fmUint64Int32\x12F\n" +
	"\x0fm_uint64_string\x18\x11 \x03(\v2\x1e.vh.p2.Maps.MUint64StringEntryR\rmUint64String\x12@\n" +
	"\rm_uint64_leaf\x18\x12 \x03(\v2\x1c.vh.p2.Maps.MUint64LeafEntryR\vmUint64Leaf\x12C\n" +
	"\x0em_uint64_color\x18\x13 \x03(\v2\x1d.vh.p2.Maps.MUint64ColorEntryR\fmUint64Color\x12C\n" +
	"\x0em_uint64_bytes\x18\x14 \x03(\v2\x1d.vh.p2.Maps.MUint64BytesEntryR\fmUint64Bytes\x12C\n" +
	"\x0em_sint32_int32\x18\x15 \x03(\v2\x1d.vh.p2.Maps.MSint32Int32EntryR\fmSint32Int32\x12F\n" +
	"\x0fm_sint32_string\x18\x16 \x03(\v2\x1e.vh.p2.Maps.MSint32StringEntryR\rmSint32String\x12@\n" +
	"\rm_sint32_leaf\x18\x17 \x03(\v2\x1c.vh.p2.Maps.MSint32LeafEntryR\vmSint32Leaf\x12C\n" +
	"\x0em_sint32_color\x18\x18 \x03(\v2\x1d.vh.p2.Maps.MSint32ColorEntryR\fmSint32Color\x12C\n" +
	"\x0em_sint32_bytes\x18\x19 \x03(\v2\x1d.vh.p2.Maps.MSint32BytesEntryR\fmSint32Bytes\x12C\n" +
	"\x0em_sint64_int32\x18\x1a \x03(\v2\x1d.vh.p2.Maps.MSint64Int32EntryR\fmSint64Int32\x12F\n" +
	"\x0fm_sint64_string\x18\x1b \x03(\v2\x1e.vh.p2.Maps.MSint64StringEntryR\rmSint64String\x12@\n" +
	"\rm_sint64_leaf\x18\x1c \x03(\v2\x1c.vh.p2.Maps.MSint64LeafEntryR\vmSint64Leaf\x12C\n" +
	"\x0em_sint64_color\x18\x1d \x03(\v2\x1d.vh.p2.Maps.MSint64ColorEntryR\fmSint64Color\x12C\n" +
	"\x0em_sint64_bytes\x18\x1e \x03(\v2\x1d.vh.p2.Maps.MSint64BytesEntryR\fmSint64Bytes\x12F\n" +
	"\x0fm_fixed32_int32\x18\x1f \x03(\v2\x1e.vh.p2.Maps.MFixed32Int32EntryR\rmFixed32Int32\x12I\n" +
	"\x10m_fixed32_string\x18  \x03(\v2\x1f.vh.p2.Maps.MFixed32StringEntryR\x0emFixed32String\x12C\n" +
	"\x0em_fixed32_leaf\x18! \x03(\v2\x1d.vh.p2.Maps.MFixed32LeafEntryR\fmFixed32Leaf\x12F\n" +
	"\x0fm_fixed32_color\x18\" \x03(\v2\x1e.vh.p2.Maps.MFixed32ColorEntryR\rmFixed32Color\x12F\n" +
	"\x0fm_fixed32_bytes\x18# \x03(\v2\x1e.vh.p2.Maps.MFixed32BytesEntryR\rmFixed32Bytes\x12F\n" +
	"\x0fm_fixed64_int32\x18$ \x03(\v2\x1e.vh.p2.Maps.MFixed64Int32EntryR\rmFixed64Int32\x12I\n" +
	"\x10m_fixed64_string\x18% \x03(\v2\x1f.vh.p2.Maps.MFixed64StringEntryR\x0emFixed64String\x12C\n" +
	"\x0em_fixed64_leaf\x18& \x03(\v2\x1d.vh.p2.Maps.MFixed64LeafEntryR\fmFixed64Leaf\x12F\n" +
	"\x0fm_fixed64_color\x18' \x03(\v2\x1e.vh.p2.Maps.MFixed64ColorEntryR\rmFixed64Color\x12F\n" +
	"\x0fm_fixed64_bytes\x18( \x03(\v2\x1e.vh.p2.Maps.MFixed64BytesEntryR\rmFixed64Bytes\x12I\n" +
	"\x10m_sfixed32_int32\x18) \x03(\v2\x1f.vh.p2.Maps.MSfixed32Int32EntryR\x0emSfixed32Int32\x12L\n" +
	"\x11m_sfixed32_string\x18* \x03(\v2 .vh.p2.Maps.MSfixed32StringEntryR\x0fmSfixed32String\x12F\n" +
	"\x0fm_sfixed32_leaf\x18+ \x03(\v2\x1e.vh.p2.Maps.MSfixed32LeafEntryR\rmSfixed32Leaf\x12I\n" +
	"\x10m_sfixed32_color\x18, \x03(\v2\x1f.vh.p2.Maps.MSfixed32ColorEntryR\x0emSfixed32Color\x12I\n" +
	"\x10m_sfixed32_bytes\x18- \x03(\v2\x1f.vh.p2.Maps.MSfixed32BytesEntryR\x0emSfixed32Bytes\x12I\n" +
	"\x10m_sfixed64_int32\x18. \x03(\v2\x1f.vh.p2.Maps.MSfixed64Int32EntryR\x0emSfixed64Int32\x12L\n" +
	"\x11m_sfixed64_string\x18/ \x03(\v2 .vh.p2.Maps.MSfixed64StringEntryR\x0fmSfixed64String\x12F\n" +
	"\x0fm_sfixed64_leaf\x180 \x03(\v2\x1e.vh.p2.Maps.MSfixed64LeafEntryR\rmSfixed64Leaf\x12I\n" +
	"\x10m_sfixed64_color\x181 \x03(\v2\x1f.vh.p2.Maps.MSfixed64ColorEntryR\x0emSfixed64Color\x12I\n" +
	"\x10m_sfixed64_bytes\x182 \x03(\v2\x1f.vh.p2.Maps.MSfixed64BytesEntryR\x0emSfixed64Bytes\x12=\n" +
	"\fm_bool_int32\x183 \x03(\v2\x1b.vh.p2.Maps.MBoolInt32EntryR\n" +
	"mBoolInt32\x12@\n" +
	"\rm_bool_string\x184 \x03(\v2\x1c.vh.p2.Maps.MBoolStringEntryR\vmBoolString\x12:\n" +
	"\vm_bool_leaf\x185 \x03(\v2\x1a.vh.p2.Maps.MBoolLeafEntryR\tmBoolLeaf\x12=\n" +
	"\fm_bool_color\x186 \x03(\v2\x1b.vh.p2.Maps.MBoolColorEntryR\n" +
	"mBoolColor\x12=\n" +
	"\fm_bool_bytes\x187 \x03(\v2\x1b.vh.p2.Maps.MBoolBytesEntryR\n" +
	"mBoolBytes\x12C\n" +
	"\x0em_string_int32\x188 \x03(\v2\x1d.vh.p2.Maps.MStringInt32EntryR\fmStringInt32\x12F\n" +
	"\x0fm_string_string\x189 \x03(\v2\x1e.vh.p2.Maps.MStringStringEntryR\rmStringString\x12@\n" +
	"\rm_string_leaf\x18: \x03(\v2\x1c.vh.p2.Maps.MStringLeafEntryR\vmStringLeaf\x12C\n" +
	"\x0em_string_color\x18; \x03(\v2\x1d.vh.p2.Maps.MStringColorEntryR\fmStringColor\x12C\n" +
	"\x0em_string_bytes\x18< \x03(\v2\x1d.vh.p2.Maps.MStringBytesEntryR\fmStringBytes\x1a>\n" +
	"\x10MInt32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aJ\n" +
	"\x0fMInt32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aL\n" +
	"\x10MInt32ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a>\n" +
	"\x10MInt32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a>\n" +
	"\x10MInt64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aJ\n" +
	"\x0fMInt64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aL\n" +
	"\x10MInt64ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a>\n" +
	"\x10MInt64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aK\n" +
	"\x10MUint32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aM\n" +
	"\x11MUint32ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aK\n" +
	"\x10MUint64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aM\n" +
	"\x11MUint64ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aK\n" +
	"\x10MSint32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aM\n" +
	"\x11MSint32ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aK\n" +
	"\x10MSint64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aM\n" +
	"\x11MSint64ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aL\n" +
	"\x11MFixed32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aN\n" +
	"\x12MFixed32ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aL\n" +
	"\x11MFixed64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aN\n" +
	"\x12MFixed64ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aM\n" +
	"\x12MSfixed32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aO\n" +
	"\x13MSfixed32ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aM\n" +
	"\x12MSfixed64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aO\n" +
	"\x13MSfixed64ColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a=\n" +
	"\x0fMBoolInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aI\n" +
	"\x0eMBoolLeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aK\n" +
	"\x0fMBoolColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a=\n" +
	"\x0fMBoolBytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1a?\n" +
	"\x11MStringInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MStringStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aK\n" +
	"\x10MStringLeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.LeafR\x05value:\x028\x01\x1aM\n" +
	"\x11MStringColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p2.ColorR\x05value:\x028\x01\x1a?\n" +
	"\x11MStringBytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\"\xe7\x03\n" +
	"\x04Tree\x12\x1f\n" +
	"\x04left\x18\x01 \x01(\v2\v.vh.p2.TreeR\x04left\x12\x1f\n" +
	"\x04kids\x18\x02 \x03(\v2\v.vh.p2.TreeR\x04kids\x12*\n" +
	"\x05by_id\x18\x03 \x03(\v2\x15.vh.p2.Tree.ByIdEntryR\x04byId\x12'\n" +
	"\x05inner\x18\x04 \x01(\v2\x11.vh.p2.Tree.InnerR\x05inner\x12#\n" +
	"\x02oi\x18\x05 \x01(\v2\x11.vh.p2.Tree.InnerH\x00R\x02oi\x12%\n" +
	"\x02oe\x18\x06 \x01(\x0e2\x13.vh.p2.Tree.Inner.EH\x00R\x02oe\x12*\n" +
	"\x02ts\x18\a \x01(\v2\x1a.google.protobuf.TimestampR\x02ts\x1aD\n" +
	"\tByIdEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p2.TreeR\x05value:\x028\x01\x1a\x84\x01\n" +
	"\x05Inner\x12\x19\n" +
	"\x01t\x18\x01 \x02(\v2\v.vh.p2.TreeR\x01t\x12$\n" +
	"\x01e\x18\x02 \x01(\x0e2\x13.vh.p2.Tree.Inner.E:\x01BR\x01e\x12'\n" +
	"\x02es\x18\x03 \x03(\x0e2\x13.vh.p2.Tree.Inner.EB\x02\x10\x01R\x02es\"\x11\n" +
	"\x01E\x12\x05\n" +
	"\x01A\x10\x02\x12\x05\n" +
	"\x01B\x10\x03B\x03\n" +
	"\x01o*i\n" +
	"\x05Color\x12\x0e\n" +
	"\n" +
	"COLOR_ZERO\x10\x00\x12\r\n" +
	"\tCOLOR_RED\x10\x01\x12\x16\n" +
	"\tCOLOR_NEG\x10\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x01\x12\x11\n" +
	"\tCOLOR_MAX\x10\xff\xff\xff\xff\a\x12\x16\n" +
	"\tCOLOR_MIN\x10\x80\x80\x80\x80\xf8\xff\xff\xff\xff\x01*\"\n" +
	"\x06NoZero\x12\f\n" +
	"\bNZ_SEVEN\x10\a\x12\n" +
	"\n" +
	"\x06NZ_ONE\x10\x01B\x10Z\x0evharness/pb/p2"

var (
	file_p2_proto_rawDescOnce sync.Once
	file_p2_proto_rawDescData []byte
)

func file_p2_proto_rawDescGZIP() []byte {
	file_p2_proto_rawDescOnce.Do(func() {
		file_p2_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_p2_proto_rawDesc), len(file_p2_proto_rawDesc)))
	})
	return file_p2_proto_rawDescData
}

var file_p2_proto_enumTypes = make([]protoimpl.EnumInfo, 3)
var file_p2_proto_msgTypes = make([]protoimpl.MessageInfo, 71)
var file_p2_proto_goTypes = []any{
	(Color)(0),                    // 0: vh.p2.Color
	(NoZero)(0),                   // 1: vh.p2.NoZero
	(Tree_Inner_E)(0),             // 2: vh.p2.Tree.Inner.E
	(*Leaf)(nil),                  // 3: vh.p2.Leaf
	(*Opt)(nil),                   // 4: vh.p2.Opt
	(*Def)(nil),                   // 5: vh.p2.Def
	(*Req)(nil),                   // 6: vh.p2.Req
	(*Rep)(nil),                   // 7: vh.p2.Rep
	(*Packed)(nil),                // 8: vh.p2.Packed
	(*One)(nil),                   // 9: vh.p2.One
	(*Maps)(nil),                  // 10: vh.p2.Maps
	(*Tree)(nil),                  // 11: vh.p2.Tree
	nil,                           // 12: vh.p2.Maps.MInt32Int32Entry
	nil,                           // 13: vh.p2.Maps.MInt32StringEntry
	nil,                           // 14: vh.p2.Maps.MInt32LeafEntry
	nil,                           // 15: vh.p2.Maps.MInt32ColorEntry
	nil,                           // 16: vh.p2.Maps.MInt32BytesEntry
	nil,                           // 17: vh.p2.Maps.MInt64Int32Entry
	nil,                           // 18: vh.p2.Maps.MInt64StringEntry
	nil,                           // 19: vh.p2.Maps.MInt64LeafEntry
	nil,                           // 20: vh.p2.Maps.MInt64ColorEntry
	nil,                           // 21: vh.p2.Maps.MInt64BytesEntry
	nil,                           // 22: vh.p2.Maps.MUint32Int32Entry
	nil,                           // 23: vh.p2.Maps.MUint32StringEntry
	nil,                           // 24: vh.p2.Maps.MUint32LeafEntry
	nil,                           // 25: vh.p2.Maps.MUint32ColorEntry
	nil,                           // 26: vh.p2.Maps.MUint32BytesEntry
	nil,                           // 27: vh.p2.Maps.MUint64Int32Entry
	nil,                           // 28: vh.p2.Maps.MUint64StringEntry
	nil,                           // 29: vh.p2.Maps.MUint64LeafEntry
	nil,                           // 30: vh.p2.Maps.MUint64ColorEntry
	nil,                           // 31: vh.p2.Maps.MUint64BytesEntry
	nil,                           // 32: vh.p2.Maps.MSint32Int32Entry
	nil,                           // 33: vh.p2.Maps.MSint32StringEntry
	nil,                           // 34: vh.p2.Maps.MSint32LeafEntry
	nil,                           // 35: vh.p2.Maps.MSint32ColorEntry
	nil,                           // 36: vh.p2.Maps.MSint32BytesEntry
	nil,                           // 37: vh.p2.Maps.MSint64Int32Entry
	nil,                           // 38: vh.p2.Maps.MSint64StringEntry
	nil,                           // 39: vh.p2.Maps.MSint64LeafEntry
	nil,                           // 40: vh.p2.Maps.MSint64ColorEntry
	nil,                           // 41: vh.p2.Maps.MSint64BytesEntry
	nil,                           // 42: vh.p2.Maps.MFixed32Int32Entry
	nil,                           // 43: vh.p2.Maps.MFixed32StringEntry
	nil,                           // 44: vh.p2.Maps.MFixed32LeafEntry
	nil,                           // 45: vh.p2.Maps.MFixed32ColorEntry
	nil,                           // 46: vh.p2.Maps.MFixed32BytesEntry
	nil,                           // 47: vh.p2.Maps.MFixed64Int32Entry
	nil,                           // 48: vh.p2.Maps.MFixed64StringEntry
	nil,                           // 49: vh.p2.Maps.MFixed64LeafEntry
	nil,                           // 50: vh.p2.Maps.MFixed64ColorEntry
	nil,                           // 51: vh.p2.Maps.MFixed64BytesEntry
	nil,                           // 52: vh.p2.Maps.MSfixed32Int32Entry
	nil,                           // 53: vh.p2.Maps.MSfixed32StringEntry
	nil,                           // 54: vh.p2.Maps.MSfixed32LeafEntry
	nil,                           // 55: vh.p2.Maps.MSfixed32ColorEntry
	nil,                           // 56: vh.p2.Maps.MSfixed32BytesEntry
	nil,                           // 57: vh.p2.Maps.MSfixed64Int32Entry
	nil,                           // 58: vh.p2.Maps.MSfixed64StringEntry
	nil,                           // 59: vh.p2.Maps.MSfixed64LeafEntry
	nil,                           // 60: vh.p2.Maps.MSfixed64ColorEntry
	nil,                           // 61: vh.p2.Maps.MSfixed64BytesEntry
	nil,                           // 62: vh.p2.Maps.MBoolInt32Entry
	nil,                           // 63: vh.p2.Maps.MBoolStringEntry
	nil,                           // 64: vh.p2.Maps.MBoolLeafEntry
	nil,                           // 65: vh.p2.Maps.MBoolColorEntry
	nil,                           // 66: vh.p2.Maps.MBoolBytesEntry
	nil,                           // 67: vh.p2.Maps.MStringInt32Entry
	nil,                           // 68: vh.p2.Maps.MStringStringEntry
	nil,                           // 69: vh.p2.Maps.MStringLeafEntry
	nil,                           // 70: vh.p2.Maps.MStringColorEntry
	nil,                           // 71: vh.p2.Maps.MStringBytesEntry
	nil,                           // 72: vh.p2.Tree.ByIdEntry
	(*Tree_Inner)(nil),            // 73: vh.p2.Tree.Inner
	(*structpb.Value)(nil),        // 74: google.protobuf.Value
	(*timestamppb.Timestamp)(nil), // 75: google.protobuf.Timestamp
}
var file_p2_proto_depIdxs = []int32{
	0,   // 0: vh.p2.Opt.f_color:type_name -> vh.p2.Color
	3,   // 1: vh.p2.Opt.f_leaf:type_name -> vh.p2.Leaf
	1,   // 2: vh.p2.Opt.f_nozero:type_name -> vh.p2.NoZero
	0,   // 3: vh.p2.Def.f_color:type_name -> vh.p2.Color
	3,   // 4: vh.p2.Def.f_leaf:type_name -> vh.p2.Leaf
	1,   // 5: vh.p2.Def.f_nozero:type_name -> vh.p2.NoZero
	0,   // 6: vh.p2.Req.f_color:type_name -> vh.p2.Color
	3,   // 7: vh.p2.Req.f_leaf:type_name -> vh.p2.Leaf
	1,   // 8: vh.p2.Req.f_nozero:type_name -> vh.p2.NoZero
	0,   // 9: vh.p2.Rep.f_color:type_name -> vh.p2.Color
	3,   // 10: vh.p2.Rep.f_leaf:type_name -> vh.p2.Leaf
	1,   // 11: vh.p2.Rep.f_nozero:type_name -> vh.p2.NoZero
	0,   // 12: vh.p2.Packed.f_color:type_name -> vh.p2.Color
	3,   // 13: vh.p2.Packed.f_leaf:type_name -> vh.p2.Leaf
	1,   // 14: vh.p2.Packed.f_nozero:type_name -> vh.p2.NoZero
	0,   // 15: vh.p2.One.u_color:type_name -> vh.p2.Color
	3,   // 16: vh.p2.One.u_leaf:type_name -> vh.p2.Leaf
	1,   // 17: vh.p2.One.u_nozero:type_name -> vh.p2.NoZero
	9,   // 18: vh.p2.One.rec:type_name -> vh.p2.One
	74,  // 19: vh.p2.One.val:type_name -> google.protobuf.Value
	12,  // 20: vh.p2.Maps.m_int32_int32:type_name -> vh.p2.Maps.MInt32Int32Entry
	13,  // 21: vh.p2.Maps.m_int32_string:type_name -> vh.p2.Maps.MInt32StringEntry
	14,  // 22: vh.p2.Maps.m_int32_leaf:type_name -> vh.p2.Maps.MInt32LeafEntry
	15,  // 23: vh.p2.Maps.m_int32_color:type_name -> vh.p2.Maps.MInt32ColorEntry
	16,  // 24: vh.p2.Maps.m_int32_bytes:type_name -> vh.p2.Maps.MInt32BytesEntry
	17,  // 25: vh.p2.Maps.m_int64_int32:type_name -> vh.p2.Maps.MInt64Int32Entry
	18,  // 26: vh.p2.Maps.m_int64_string:type_name -> vh.p2.Maps.MInt64StringEntry
	19,  // 27: vh.p2.Maps.m_int64_leaf:type_name -> vh.p2.Maps.MInt64LeafEntry
	20,  // 28: vh.p2.Maps.m_int64_color:type_name -> vh.p2.Maps.MInt64ColorEntry
	21,  // 29: vh.p2.Maps.m_int64_bytes:type_name -> vh.p2.Maps.MInt64BytesEntry
	22,  // 30: vh.p2.Maps.m_uint32_int32:type_name -> vh.p2.Maps.MUint32Int32Entry
	23,  // 31: vh.p2.Maps.m_uint32_string:type_name -> vh.p2.Maps.MUint32StringEntry
	24,  // 32: vh.p2.Maps.m_uint32_leaf:type_name -> vh.p2.Maps.MUint32LeafEntry
	25,  // 33: vh.p2.Maps.m_uint32_color:type_name -> vh.p2.Maps.MUint32ColorEntry
	26,  // 34: vh.p2.Maps.m_uint32_bytes:type_name -> vh.p2.Maps.MUint32BytesEntry
	27,  // 35: vh.p2.Maps.m_uint64_int32:type_name -> vh.p2.Maps.MUint64Int32Entry
	28,  // 36: vh.p2.Maps.m_uint64_string:type_name -> vh.p2.Maps.MUint64StringEntry
	29,  // 37: vh.p2.Maps.m_uint64_leaf:type_name -> vh.p2.Maps.MUint64LeafEntry
	30,  // 38: vh.p2.Maps.m_uint64_color:type_name -> vh.p2.Maps.MUint64ColorEntry
	31,  // 39: vh.p2.Maps.m_uint64_bytes:type_name -> vh.p2.Maps.MUint64BytesEntry
	32,  // 40: vh.p2.Maps.m_sint32_int32:type_name -> vh.p2.Maps.MSint32Int32Entry
	33,  // 41: vh.p2.Maps.m_sint32_string:type_name -> vh.p2.Maps.MSint32StringEntry
	34,  // 42: vh.p2.Maps.m_sint32_leaf:type_name -> vh.p2.Maps.MSint32LeafEntry
	35,  // 43: vh.p2.Maps.m_sint32_color:type_name -> vh.p2.Maps.MSint32ColorEntry
	36,  // 44: vh.p2.Maps.m_sint32_bytes:type_name -> vh.p2.Maps.MSint32BytesEntry
	37,  // 45: vh.p2.Maps.m_sint64_int32:type_name -> vh.p2.Maps.MSint64Int32Entry
	38,  // 46: vh.p2.Maps.m_sint64_string:type_name -> vh.p2.Maps.MSint64StringEntry
	39,  // 47: vh.p2.Maps.m_sint64_leaf:type_name -> vh.p2.Maps.MSint64LeafEntry
	40,  // 48: vh.p2.Maps.m_sint64_color:type_name -> vh.p2.Maps.MSint64ColorEntry
	41,  // 49: vh.p2.Maps.m_sint64_bytes:type_name -> vh.p2.Maps.MSint64BytesEntry
	42,  // 50: vh.p2.Maps.m_fixed32_int32:type_name -> vh.p2.Maps.MFixed32Int32Entry
	43,  // 51: vh.p2.Maps.m_fixed32_string:type_name -> vh.p2.Maps.MFixed32StringEntry
	44,  // 52: vh.p2.Maps.m_fixed32_leaf:type_name -> vh.p2.Maps.MFixed32LeafEntry
	45,  // 53: vh.p2.Maps.m_fixed32_color:type_name -> vh.p2.Maps.MFixed32ColorEntry
	46,  // 54: vh.p2.Maps.m_fixed32_bytes:type_name -> vh.p2.Maps.MFixed32BytesEntry
	47,  // 55: vh.p2.Maps.m_fixed64_int32:type_name -> vh.p2.Maps.MFixed64Int32Entry
	48,  // 56: vh.p2.Maps.m_fixed64_string:type_name -> vh.p2.Maps.MFixed64StringEntry
	49,  // 57: vh.p2.Maps.m_fixed64_leaf:type_name -> vh.p2.Maps.MFixed64LeafEntry
	50,  // 58: vh.p2.Maps.m_fixed64_color:type_name -> vh.p2.Maps.MFixed64ColorEntry
	51,  // 59: vh.p2.Maps.m_fixed64_bytes:type_name -> vh.p2.Maps.MFixed64BytesEntry
	52,  // 60: vh.p2.Maps.m_sfixed32_int32:type_name -> vh.p2.Maps.MSfixed32Int32Entry
	53,  // 61: vh.p2.Maps.m_sfixed32_string:type_name -> vh.p2.Maps.MSfixed32StringEntry
	54,  // 62: vh.p2.Maps.m_sfixed32_leaf:type_name -> vh.p2.Maps.MSfixed32LeafEntry
	55,  // 63: vh.p2.Maps.m_sfixed32_color:type_name -> vh.p2.Maps.MSfixed32ColorEntry
	56,  // 64: vh.p2.Maps.m_sfixed32_bytes:type_name -> vh.p2.Maps.MSfixed32BytesEntry
	57,  // 65: vh.p2.Maps.m_sfixed64_int32:type_name -> vh.p2.Maps.MSfixed64Int32Entry
	58,  // 66: vh.p2.Maps.m_sfixed64_string:type_name -> vh.p2.Maps.MSfixed64StringEntry
	59,  // 67: vh.p2.Maps.m_sfixed64_leaf:type_name -> vh.p2.Maps.MSfixed64LeafEntry
	60,  // 68: vh.p2.Maps.m_sfixed64_color:type_name -> vh.p2.Maps.MSfixed64ColorEntry
	61,  // 69: vh.p2.Maps.m_sfixed64_bytes:type_name -> vh.p2.Maps.MSfixed64BytesEntry
	62,  // 70: vh.p2.Maps.m_bool_int32:type_name -> vh.p2.Maps.MBoolInt32Entry
	63,  // 71: vh.p2.Maps.m_bool_string:type_name -> vh.p2.Maps.MBoolStringEntry
	64,  // 72: vh.p2.Maps.m_bool_leaf:type_name -> vh.p2.Maps.MBoolLeafEntry
	65,  // 73: vh.p2.Maps.m_bool_color:type_name -> vh.p2.Maps.MBoolColorEntry
	66,  // 74: vh.p2.Maps.m_bool_bytes:type_name -> vh.p2.Maps.MBoolBytesEntry
	67,  // 75: vh.p2.Maps.m_string_int32:type_name -> vh.p2.Maps.MStringInt32Entry
	68,  // 76: vh.p2.Maps.m_string_string:type_name -> vh.p2.Maps.MStringStringEntry
	69,  // 77: vh.p2.Maps.m_string_leaf:type_name -> vh.p2.Maps.MStringLeafEntry
	70,  // 78: vh.p2.Maps.m_string_color:type_name -> vh.p2.Maps.MStringColorEntry
	71,  // 79: vh.p2.Maps.m_string_bytes:type_name -> vh.p2.Maps.MStringBytesEntry
	11,  // 80: vh.p2.Tree.left:type_name -> vh.p2.Tree
	11,  // 81: vh.p2.Tree.kids:type_name -> vh.p2.Tree
	72,  // 82: vh.p2.Tree.by_id:type_name -> vh.p2.Tree.ByIdEntry
	73,  // 83: vh.p2.Tree.inner:type_name -> vh.p2.Tree.Inner
	73,  // 84: vh.p2.Tree.oi:type_name -> vh.p2.Tree.Inner
	2,   // 85: vh.p2.Tree.oe:type_name -> vh.p2.Tree.Inner.E
	75,  // 86: vh.p2.Tree.ts:type_name -> google.protobuf.Timestamp
	3,   // 87: vh.p2.Maps.MInt32LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 88: vh.p2.Maps.MInt32ColorEntry.value:type_name -> vh.p2.Color
	3,   // 89: vh.p2.Maps.MInt64LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 90: vh.p2.Maps.MInt64ColorEntry.value:type_name -> vh.p2.Color
	3,   // 91: vh.p2.Maps.MUint32LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 92: vh.p2.Maps.MUint32ColorEntry.value:type_name -> vh.p2.Color
	3,   // 93: vh.p2.Maps.MUint64LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 94: vh.p2.Maps.MUint64ColorEntry.value:type_name -> vh.p2.Color
	3,   // 95: vh.p2.Maps.MSint32LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 96: vh.p2.Maps.MSint32ColorEntry.value:type_name -> vh.p2.Color
	3,   // 97: vh.p2.Maps.MSint64LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 98: vh.p2.Maps.MSint64ColorEntry.value:type_name -> vh.p2.Color
	3,   // 99: vh.p2.Maps.MFixed32LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 100: vh.p2.Maps.MFixed32ColorEntry.value:type_name -> vh.p2.Color
	3,   // 101: vh.p2.Maps.MFixed64LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 102: vh.p2.Maps.MFixed64ColorEntry.value:type_name -> vh.p2.Color
	3,   // 103: vh.p2.Maps.MSfixed32LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 104: vh.p2.Maps.MSfixed32ColorEntry.value:type_name -> vh.p2.Color
	3,   // 105: vh.p2.Maps.MSfixed64LeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 106: vh.p2.Maps.MSfixed64ColorEntry.value:type_name -> vh.p2.Color
	3,   // 107: vh.p2.Maps.MBoolLeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 108: vh.p2.Maps.MBoolColorEntry.value:type_name -> vh.p2.Color
	3,   // 109: vh.p2.Maps.MStringLeafEntry.value:type_name -> vh.p2.Leaf
	0,   // 110: vh.p2.Maps.MStringColorEntry.value:type_name -> vh.p2.Color
	11,  // 111: vh.p2.Tree.ByIdEntry.value:type_name -> vh.p2.Tree
	11,  // 112: vh.p2.Tree.Inner.t:type_name -> vh.p2.Tree
	2,   // 113: vh.p2.Tree.Inner.e:type_name -> vh.p2.Tree.Inner.E
	2,   // 114: vh.p2.Tree.Inner.es:type_name -> vh.p2.Tree.Inner.E
	115, // [115:115] is the sub-list for method output_type
	115, // [115:115] is the sub-list for method input_type
	115, // [115:115] is the sub-list for extension type_name
	115, // [115:115] is the sub-list for extension extendee
	0,   // [0:115] is the sub-list for field type_name
}

func init() { file_p2_proto_init() }
func file_p2_proto_init() {
	if File_p2_proto != nil {
		return
	}
	file_p2_proto_msgTypes[6].OneofWrappers = []any{
		(*One_UDouble)(nil),
		(*One_UFloat)(nil),
		(*One_UInt32)(nil),
		(*One_UInt64)(nil),
		(*One_UUint32)(nil),
		(*One_UUint64)(nil),
		(*One_USint32)(nil),
		(*One_USint64)(nil),
		(*One_UFixed32)(nil),
		(*One_UFixed64)(nil),
		(*One_USfixed32)(nil),
		(*One_USfixed64)(nil),
		(*One_UBool)(nil),
		(*One_UString)(nil),
		(*One_UBytes)(nil),
		(*One_UColor)(nil),
		(*One_ULeaf)(nil),
		(*One_UNozero)(nil),
		(*One_Rec)(nil),
		(*One_Val)(nil),
		(*One_B2)(nil),
	}
	file_p2_proto_msgTypes[8].OneofWrappers = []any{
		(*Tree_Oi)(nil),
		(*Tree_Oe)(nil),
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_p2_proto_rawDesc), len(file_p2_proto_rawDesc)),
			NumEnums:      3,
			NumMessages:   71,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_p2_proto_goTypes,
		DependencyIndexes: file_p2_proto_depIdxs,
		EnumInfos:         file_p2_proto_enumTypes,
		MessageInfos:      file_p2_proto_msgTypes,
	}.Build()
	File_p2_proto = out.File
	file_p2_proto_goTypes = nil
	file_p2_proto_depIdxs = nil
}
