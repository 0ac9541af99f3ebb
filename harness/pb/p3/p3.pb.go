// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        (unknown)
// source: p3.proto

package p3

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	anypb "google.golang.org/protobuf/types/known/anypb"
	durationpb "google.golang.org/protobuf/types/known/durationpb"
	emptypb "google.golang.org/protobuf/types/known/emptypb"
	fieldmaskpb "google.golang.org/protobuf/types/known/fieldmaskpb"
	structpb "google.golang.org/protobuf/types/known/structpb"
	timestamppb "google.golang.org/protobuf/types/known/timestamppb"
	wrapperspb "google.golang.org/protobuf/types/known/wrapperspb"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type Color int32

const (
	Color_COLOR_ZERO Color = 0
	Color_COLOR_RED  Color = 1
	Color_COLOR_NEG  Color = -3
	Color_COLOR_MAX  Color = 2147483647
	Color_COLOR_MIN  Color = -2147483648
)

// Enum value maps for Color.
var (
	Color_name = map[int32]string{
		0:           "COLOR_ZERO",
		1:           "COLOR_RED",
		-3:          "COLOR_NEG",
		2147483647:  "COLOR_MAX",
		-2147483648: "COLOR_MIN",
	}
	Color_value = map[string]int32{
		"COLOR_ZERO": 0,
		"COLOR_RED":  1,
		"COLOR_NEG":  -3,
		"COLOR_MAX":  2147483647,
		"COLOR_MIN":  -2147483648,
	}
)

func (x Color) Enum() *Color {
	p := new(Color)
	*p = x
	return p
}

func (x Color) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (Color) Descriptor() protoreflect.EnumDescriptor {
	return file_p3_proto_enumTypes[0].Descriptor()
}

func (Color) Type() protoreflect.EnumType {
	return &file_p3_proto_enumTypes[0]
}

func (x Color) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use Color.Descriptor instead.
func (Color) EnumDescriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{0}
}

type Alias int32

const (
	Alias_A_ZERO Alias = 0
	Alias_A_NIL  Alias = 0
	Alias_A_ONE  Alias = 1
)

// Enum value maps for Alias.
var (
	Alias_name = map[int32]string{
		0: "A_ZERO",
		// Duplicate value: 0: "A_NIL",
		1: "A_ONE",
	}
	Alias_value = map[string]int32{
		"A_ZERO": 0,
		"A_NIL":  0,
		"A_ONE":  1,
	}
)

func (x Alias) Enum() *Alias {
	p := new(Alias)
	*p = x
	return p
}

func (x Alias) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (Alias) Descriptor() protoreflect.EnumDescriptor {
	return file_p3_proto_enumTypes[1].Descriptor()
}

func (Alias) Type() protoreflect.EnumType {
	return &file_p3_proto_enumTypes[1]
}

func (x Alias) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use Alias.Descriptor instead.
func (Alias) EnumDescriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{1}
}

type Tree_Inner_E int32

const (
	Tree_Inner_Z Tree_Inner_E = 0
	Tree_Inner_Y Tree_Inner_E = 5
)

// Enum value maps for Tree_Inner_E.
var (
	Tree_Inner_E_name = map[int32]string{
		0: "Z",
		5: "Y",
	}
	Tree_Inner_E_value = map[string]int32{
		"Z": 0,
		"Y": 5,
	}
)

func (x Tree_Inner_E) Enum() *Tree_Inner_E {
	p := new(Tree_Inner_E)
	*p = x
	return p
}

func (x Tree_Inner_E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (Tree_Inner_E) Descriptor() protoreflect.EnumDescriptor {
	return file_p3_proto_enumTypes[2].Descriptor()
}

func (Tree_Inner_E) Type() protoreflect.EnumType {
	return &file_p3_proto_enumTypes[2]
}

func (x Tree_Inner_E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use Tree_Inner_E.Descriptor instead.
func (Tree_Inner_E) EnumDescriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{9, 0, 0}
}

type Leaf struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	A             int32                  `protobuf:"varint,1,opt,name=a,proto3" json:"a,omitempty"`
	B             string                 `protobuf:"bytes,2,opt,name=b,proto3" json:"b,omitempty"`
	C             []byte                 `protobuf:"bytes,3,opt,name=c,proto3" json:"c,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Leaf) Reset() {
	*x = Leaf{}
	mi := &file_p3_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Leaf) ProtoMessage() {}

func (x *Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Leaf.ProtoReflect.Descriptor instead.
func (*Leaf) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{0}
}

func (x *Leaf) GetA() int32 {
	if x != nil {
		return x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil {
		return x.B
	}
	return ""
}

func (x *Leaf) GetC() []byte {
	if x != nil {
		return x.C
	}
	return nil
}

type Empty struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Empty) Reset() {
	*x = Empty{}
	mi := &file_p3_proto_msgTypes[1]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Empty) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Empty) ProtoMessage() {}

func (x *Empty) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[1]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Empty.ProtoReflect.Descriptor instead.
func (*Empty) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{1}
}

type Scalars struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       float64                `protobuf:"fixed64,1,opt,name=f_double,json=fDouble,proto3" json:"f_double,omitempty"`
	FFloat        float32                `protobuf:"fixed32,4,opt,name=f_float,json=fFloat,proto3" json:"f_float,omitempty"`
	FInt32        int32                  `protobuf:"varint,7,opt,name=f_int32,json=fInt32,proto3" json:"f_int32,omitempty"`
	FInt64        int64                  `protobuf:"varint,10,opt,name=f_int64,json=fInt64,proto3" json:"f_int64,omitempty"`
	FUint32       uint32                 `protobuf:"varint,13,opt,name=f_uint32,json=fUint32,proto3" json:"f_uint32,omitempty"`
	FUint64       uint64                 `protobuf:"varint,16,opt,name=f_uint64,json=fUint64,proto3" json:"f_uint64,omitempty"`
	FSint32       int32                  `protobuf:"zigzag32,19,opt,name=f_sint32,json=fSint32,proto3" json:"f_sint32,omitempty"`
	FSint64       int64                  `protobuf:"zigzag64,22,opt,name=f_sint64,json=fSint64,proto3" json:"f_sint64,omitempty"`
	FFixed32      uint32                 `protobuf:"fixed32,25,opt,name=f_fixed32,json=fFixed32,proto3" json:"f_fixed32,omitempty"`
	FFixed64      uint64                 `protobuf:"fixed64,28,opt,name=f_fixed64,json=fFixed64,proto3" json:"f_fixed64,omitempty"`
	FSfixed32     int32                  `protobuf:"fixed32,31,opt,name=f_sfixed32,json=fSfixed32,proto3" json:"f_sfixed32,omitempty"`
	FSfixed64     int64                  `protobuf:"fixed64,34,opt,name=f_sfixed64,json=fSfixed64,proto3" json:"f_sfixed64,omitempty"`
	FBool         bool                   `protobuf:"varint,37,opt,name=f_bool,json=fBool,proto3" json:"f_bool,omitempty"`
	FString       string                 `protobuf:"bytes,40,opt,name=f_string,json=fString,proto3" json:"f_string,omitempty"`
	FBytes        []byte                 `protobuf:"bytes,43,opt,name=f_bytes,json=fBytes,proto3" json:"f_bytes,omitempty"`
	FColor        Color                  `protobuf:"varint,46,opt,name=f_color,json=fColor,proto3,enum=vh.p3.Color" json:"f_color,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Scalars) Reset() {
	*x = Scalars{}
	mi := &file_p3_proto_msgTypes[2]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Scalars) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Scalars) ProtoMessage() {}

func (x *Scalars) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[2]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Scalars.ProtoReflect.Descriptor instead.
func (*Scalars) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{2}
}

func (x *Scalars) GetFDouble() float64 {
	if x != nil {
		return x.FDouble
	}
	return 0
}

func (x *Scalars) GetFFloat() float32 {
	if x != nil {
		return x.FFloat
	}
	return 0
}

func (x *Scalars) GetFInt32() int32 {
	if x != nil {
		return x.FInt32
	}
	return 0
}

func (x *Scalars) GetFInt64() int64 {
	if x != nil {
		return x.FInt64
	}
	return 0
}

func (x *Scalars) GetFUint32() uint32 {
	if x != nil {
		return x.FUint32
	}
	return 0
}

func (x *Scalars) GetFUint64() uint64 {
	if x != nil {
		return x.FUint64
	}
	return 0
}

func (x *Scalars) GetFSint32() int32 {
	if x != nil {
		return x.FSint32
	}
	return 0
}

func (x *Scalars) GetFSint64() int64 {
	if x != nil {
		return x.FSint64
	}
	return 0
}

func (x *Scalars) GetFFixed32() uint32 {
	if x != nil {
		return x.FFixed32
	}
	return 0
}

func (x *Scalars) GetFFixed64() uint64 {
	if x != nil {
		return x.FFixed64
	}
	return 0
}

func (x *Scalars) GetFSfixed32() int32 {
	if x != nil {
		return x.FSfixed32
	}
	return 0
}

func (x *Scalars) GetFSfixed64() int64 {
	if x != nil {
		return x.FSfixed64
	}
	return 0
}

func (x *Scalars) GetFBool() bool {
	if x != nil {
		return x.FBool
	}
	return false
}

func (x *Scalars) GetFString() string {
	if x != nil {
		return x.FString
	}
	return ""
}

func (x *Scalars) GetFBytes() []byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Scalars) GetFColor() Color {
	if x != nil {
		return x.FColor
	}
	return Color_COLOR_ZERO
}

type Opt struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       *float64               `protobuf:"fixed64,1,opt,name=f_double,json=fDouble,proto3,oneof" json:"f_double,omitempty"`
	FFloat        *float32               `protobuf:"fixed32,15,opt,name=f_float,json=fFloat,proto3,oneof" json:"f_float,omitempty"`
	FInt32        *int32                 `protobuf:"varint,16,opt,name=f_int32,json=fInt32,proto3,oneof" json:"f_int32,omitempty"`
	FInt64        *int64                 `protobuf:"varint,2047,opt,name=f_int64,json=fInt64,proto3,oneof" json:"f_int64,omitempty"`
	FUint32       *uint32                `protobuf:"varint,2048,opt,name=f_uint32,json=fUint32,proto3,oneof" json:"f_uint32,omitempty"`
	FUint64       *uint64                `protobuf:"varint,262143,opt,name=f_uint64,json=fUint64,proto3,oneof" json:"f_uint64,omitempty"`
	FSint32       *int32                 `protobuf:"zigzag32,262144,opt,name=f_sint32,json=fSint32,proto3,oneof" json:"f_sint32,omitempty"`
	FSint64       *int64                 `protobuf:"zigzag64,536870911,opt,name=f_sint64,json=fSint64,proto3,oneof" json:"f_sint64,omitempty"`
	FFixed32      *uint32                `protobuf:"fixed32,19,opt,name=f_fixed32,json=fFixed32,proto3,oneof" json:"f_fixed32,omitempty"`
	FFixed64      *uint64                `protobuf:"fixed64,20,opt,name=f_fixed64,json=fFixed64,proto3,oneof" json:"f_fixed64,omitempty"`
	FSfixed32     *int32                 `protobuf:"fixed32,21,opt,name=f_sfixed32,json=fSfixed32,proto3,oneof" json:"f_sfixed32,omitempty"`
	FSfixed64     *int64                 `protobuf:"fixed64,22,opt,name=f_sfixed64,json=fSfixed64,proto3,oneof" json:"f_sfixed64,omitempty"`
	FBool         *bool                  `protobuf:"varint,23,opt,name=f_bool,json=fBool,proto3,oneof" json:"f_bool,omitempty"`
	FString       *string                `protobuf:"bytes,24,opt,name=f_string,json=fString,proto3,oneof" json:"f_string,omitempty"`
	FBytes        []byte                 `protobuf:"bytes,25,opt,name=f_bytes,json=fBytes,proto3,oneof" json:"f_bytes,omitempty"`
	FColor        *Color                 `protobuf:"varint,26,opt,name=f_color,json=fColor,proto3,enum=vh.p3.Color,oneof" json:"f_color,omitempty"`
	FLeaf         *Leaf                  `protobuf:"bytes,27,opt,name=f_leaf,json=fLeaf,proto3,oneof" json:"f_leaf,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Opt) Reset() {
	*x = Opt{}
	mi := &file_p3_proto_msgTypes[3]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Opt) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Opt) ProtoMessage() {}

func (x *Opt) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[3]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Opt.ProtoReflect.Descriptor instead.
func (*Opt) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{3}
}

func (x *Opt) GetFDouble() float64 {
	if x != nil && x.FDouble != nil {
		return *x.FDouble
	}
	return 0
}

func (x *Opt) GetFFloat() float32 {
	if x != nil && x.FFloat != nil {
		return *x.FFloat
	}
	return 0
}

func (x *Opt) GetFInt32() int32 {
	if x != nil && x.FInt32 != nil {
		return *x.FInt32
	}
	return 0
}

func (x *Opt) GetFInt64() int64 {
	if x != nil && x.FInt64 != nil {
		return *x.FInt64
	}
	return 0
}

func (x *Opt) GetFUint32() uint32 {
	if x != nil && x.FUint32 != nil {
		return *x.FUint32
	}
	return 0
}

func (x *Opt) GetFUint64() uint64 {
	if x != nil && x.FUint64 != nil {
		return *x.FUint64
	}
	return 0
}

func (x *Opt) GetFSint32() int32 {
	if x != nil && x.FSint32 != nil {
		return *x.FSint32
	}
	return 0
}

func (x *Opt) GetFSint64() int64 {
	if x != nil && x.FSint64 != nil {
		return *x.FSint64
	}
	return 0
}

func (x *Opt) GetFFixed32() uint32 {
	if x != nil && x.FFixed32 != nil {
		return *x.FFixed32
	}
	return 0
}

func (x *Opt) GetFFixed64() uint64 {
	if x != nil && x.FFixed64 != nil {
		return *x.FFixed64
	}
	return 0
}

func (x *Opt) GetFSfixed32() int32 {
	if x != nil && x.FSfixed32 != nil {
		return *x.FSfixed32
	}
	return 0
}

func (x *Opt) GetFSfixed64() int64 {
	if x != nil && x.FSfixed64 != nil {
		return *x.FSfixed64
	}
	return 0
}

func (x *Opt) GetFBool() bool {
	if x != nil && x.FBool != nil {
		return *x.FBool
	}
	return false
}

func (x *Opt) GetFString() string {
	if x != nil && x.FString != nil {
		return *x.FString
	}
	return ""
}

func (x *Opt) GetFBytes() []byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Opt) GetFColor() Color {
	if x != nil && x.FColor != nil {
		return *x.FColor
	}
	return Color_COLOR_ZERO
}

func (x *Opt) GetFLeaf() *Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

type Rep struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       []float64              `protobuf:"fixed64,1,rep,packed,name=f_double,json=fDouble,proto3" json:"f_double,omitempty"`
	FFloat        []float32              `protobuf:"fixed32,2,rep,packed,name=f_float,json=fFloat,proto3" json:"f_float,omitempty"`
	FInt32        []int32                `protobuf:"varint,3,rep,packed,name=f_int32,json=fInt32,proto3" json:"f_int32,omitempty"`
	FInt64        []int64                `protobuf:"varint,4,rep,packed,name=f_int64,json=fInt64,proto3" json:"f_int64,omitempty"`
	FUint32       []uint32               `protobuf:"varint,5,rep,packed,name=f_uint32,json=fUint32,proto3" json:"f_uint32,omitempty"`
	FUint64       []uint64               `protobuf:"varint,6,rep,packed,name=f_uint64,json=fUint64,proto3" json:"f_uint64,omitempty"`
	FSint32       []int32                `protobuf:"zigzag32,7,rep,packed,name=f_sint32,json=fSint32,proto3" json:"f_sint32,omitempty"`
	FSint64       []int64                `protobuf:"zigzag64,8,rep,packed,name=f_sint64,json=fSint64,proto3" json:"f_sint64,omitempty"`
	FFixed32      []uint32               `protobuf:"fixed32,9,rep,packed,name=f_fixed32,json=fFixed32,proto3" json:"f_fixed32,omitempty"`
	FFixed64      []uint64               `protobuf:"fixed64,10,rep,packed,name=f_fixed64,json=fFixed64,proto3" json:"f_fixed64,omitempty"`
	FSfixed32     []int32                `protobuf:"fixed32,11,rep,packed,name=f_sfixed32,json=fSfixed32,proto3" json:"f_sfixed32,omitempty"`
	FSfixed64     []int64                `protobuf:"fixed64,12,rep,packed,name=f_sfixed64,json=fSfixed64,proto3" json:"f_sfixed64,omitempty"`
	FBool         []bool                 `protobuf:"varint,13,rep,packed,name=f_bool,json=fBool,proto3" json:"f_bool,omitempty"`
	FString       []string               `protobuf:"bytes,14,rep,name=f_string,json=fString,proto3" json:"f_string,omitempty"`
	FBytes        [][]byte               `protobuf:"bytes,15,rep,name=f_bytes,json=fBytes,proto3" json:"f_bytes,omitempty"`
	FColor        []Color                `protobuf:"varint,16,rep,packed,name=f_color,json=fColor,proto3,enum=vh.p3.Color" json:"f_color,omitempty"`
	FLeaf         []*Leaf                `protobuf:"bytes,17,rep,name=f_leaf,json=fLeaf,proto3" json:"f_leaf,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Rep) Reset() {
	*x = Rep{}
	mi := &file_p3_proto_msgTypes[4]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Rep) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Rep) ProtoMessage() {}

func (x *Rep) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[4]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Rep.ProtoReflect.Descriptor instead.
func (*Rep) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{4}
}

func (x *Rep) GetFDouble() []float64 {
	if x != nil {
		return x.FDouble
	}
	return nil
}

func (x *Rep) GetFFloat() []float32 {
	if x != nil {
		return x.FFloat
	}
	return nil
}

func (x *Rep) GetFInt32() []int32 {
	if x != nil {
		return x.FInt32
	}
	return nil
}

func (x *Rep) GetFInt64() []int64 {
	if x != nil {
		return x.FInt64
	}
	return nil
}

func (x *Rep) GetFUint32() []uint32 {
	if x != nil {
		return x.FUint32
	}
	return nil
}

func (x *Rep) GetFUint64() []uint64 {
	if x != nil {
		return x.FUint64
	}
	return nil
}

func (x *Rep) GetFSint32() []int32 {
	if x != nil {
		return x.FSint32
	}
	return nil
}

func (x *Rep) GetFSint64() []int64 {
	if x != nil {
		return x.FSint64
	}
	return nil
}

func (x *Rep) GetFFixed32() []uint32 {
	if x != nil {
		return x.FFixed32
	}
	return nil
}

func (x *Rep) GetFFixed64() []uint64 {
	if x != nil {
		return x.FFixed64
	}
	return nil
}

func (x *Rep) GetFSfixed32() []int32 {
	if x != nil {
		return x.FSfixed32
	}
	return nil
}

func (x *Rep) GetFSfixed64() []int64 {
	if x != nil {
		return x.FSfixed64
	}
	return nil
}

func (x *Rep) GetFBool() []bool {
	if x != nil {
		return x.FBool
	}
	return nil
}

func (x *Rep) GetFString() []string {
	if x != nil {
		return x.FString
	}
	return nil
}

func (x *Rep) GetFBytes() [][]byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Rep) GetFColor() []Color {
	if x != nil {
		return x.FColor
	}
	return nil
}

func (x *Rep) GetFLeaf() []*Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

type RepUnpacked struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	FDouble       []float64              `protobuf:"fixed64,1,rep,name=f_double,json=fDouble,proto3" json:"f_double,omitempty"`
	FFloat        []float32              `protobuf:"fixed32,2,rep,name=f_float,json=fFloat,proto3" json:"f_float,omitempty"`
	FInt32        []int32                `protobuf:"varint,3,rep,name=f_int32,json=fInt32,proto3" json:"f_int32,omitempty"`
	FInt64        []int64                `protobuf:"varint,4,rep,name=f_int64,json=fInt64,proto3" json:"f_int64,omitempty"`
	FUint32       []uint32               `protobuf:"varint,5,rep,name=f_uint32,json=fUint32,proto3" json:"f_uint32,omitempty"`
	FUint64       []uint64               `protobuf:"varint,6,rep,name=f_uint64,json=fUint64,proto3" json:"f_uint64,omitempty"`
	FSint32       []int32                `protobuf:"zigzag32,7,rep,name=f_sint32,json=fSint32,proto3" json:"f_sint32,omitempty"`
	FSint64       []int64                `protobuf:"zigzag64,8,rep,name=f_sint64,json=fSint64,proto3" json:"f_sint64,omitempty"`
	FFixed32      []uint32               `protobuf:"fixed32,9,rep,name=f_fixed32,json=fFixed32,proto3" json:"f_fixed32,omitempty"`
	FFixed64      []uint64               `protobuf:"fixed64,10,rep,name=f_fixed64,json=fFixed64,proto3" json:"f_fixed64,omitempty"`
	FSfixed32     []int32                `protobuf:"fixed32,11,rep,name=f_sfixed32,json=fSfixed32,proto3" json:"f_sfixed32,omitempty"`
	FSfixed64     []int64                `protobuf:"fixed64,12,rep,name=f_sfixed64,json=fSfixed64,proto3" json:"f_sfixed64,omitempty"`
	FBool         []bool                 `protobuf:"varint,13,rep,name=f_bool,json=fBool,proto3" json:"f_bool,omitempty"`
	FString       []string               `protobuf:"bytes,14,rep,name=f_string,json=fString,proto3" json:"f_string,omitempty"`
	FBytes        [][]byte               `protobuf:"bytes,15,rep,name=f_bytes,json=fBytes,proto3" json:"f_bytes,omitempty"`
	FColor        []Color                `protobuf:"varint,16,rep,name=f_color,json=fColor,proto3,enum=vh.p3.Color" json:"f_color,omitempty"`
	FLeaf         []*Leaf                `protobuf:"bytes,17,rep,name=f_leaf,json=fLeaf,proto3" json:"f_leaf,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *RepUnpacked) Reset() {
	*x = RepUnpacked{}
	mi := &file_p3_proto_msgTypes[5]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *RepUnpacked) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*RepUnpacked) ProtoMessage() {}

func (x *RepUnpacked) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[5]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use RepUnpacked.ProtoReflect.Descriptor instead.
func (*RepUnpacked) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{5}
}

func (x *RepUnpacked) GetFDouble() []float64 {
	if x != nil {
		return x.FDouble
	}
	return nil
}

func (x *RepUnpacked) GetFFloat() []float32 {
	if x != nil {
		return x.FFloat
	}
	return nil
}

func (x *RepUnpacked) GetFInt32() []int32 {
	if x != nil {
		return x.FInt32
	}
	return nil
}

func (x *RepUnpacked) GetFInt64() []int64 {
	if x != nil {
		return x.FInt64
	}
	return nil
}

func (x *RepUnpacked) GetFUint32() []uint32 {
	if x != nil {
		return x.FUint32
	}
	return nil
}

func (x *RepUnpacked) GetFUint64() []uint64 {
	if x != nil {
		return x.FUint64
	}
	return nil
}

func (x *RepUnpacked) GetFSint32() []int32 {
	if x != nil {
		return x.FSint32
	}
	return nil
}

func (x *RepUnpacked) GetFSint64() []int64 {
	if x != nil {
		return x.FSint64
	}
	return nil
}

func (x *RepUnpacked) GetFFixed32() []uint32 {
	if x != nil {
		return x.FFixed32
	}
	return nil
}

func (x *RepUnpacked) GetFFixed64() []uint64 {
	if x != nil {
		return x.FFixed64
	}
	return nil
}

func (x *RepUnpacked) GetFSfixed32() []int32 {
	if x != nil {
		return x.FSfixed32
	}
	return nil
}

func (x *RepUnpacked) GetFSfixed64() []int64 {
	if x != nil {
		return x.FSfixed64
	}
	return nil
}

func (x *RepUnpacked) GetFBool() []bool {
	if x != nil {
		return x.FBool
	}
	return nil
}

func (x *RepUnpacked) GetFString() []string {
	if x != nil {
		return x.FString
	}
	return nil
}

func (x *RepUnpacked) GetFBytes() [][]byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *RepUnpacked) GetFColor() []Color {
	if x != nil {
		return x.FColor
	}
	return nil
}

func (x *RepUnpacked) GetFLeaf() []*Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

type One struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	// Types that are valid to be assigned to U:
	//
	//	*One_UDouble
	//	*One_UFloat
	//	*One_UInt32
	//	*One_UInt64
	//	*One_UUint32
	//	*One_UUint64
	//	*One_USint32
	//	*One_USint64
	//	*One_UFixed32
	//	*One_UFixed64
	//	*One_USfixed32
	//	*One_USfixed64
	//	*One_UBool
	//	*One_UString
	//	*One_UBytes
	//	*One_UColor
	//	*One_ULeaf
	U       isOne_U `protobuf_oneof:"u"`
	Between string  `protobuf:"bytes,40,opt,name=between,proto3" json:"between,omitempty"`
	// Types that are valid to be assigned to SecondOne:
	//
	//	*One_Rec
	//	*One_Ts
	//	*One_S2
	//	*One_Al
	SecondOne     isOne_SecondOne `protobuf_oneof:"second_one"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *One) Reset() {
	*x = One{}
	mi := &file_p3_proto_msgTypes[6]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *One) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*One) ProtoMessage() {}

func (x *One) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[6]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use One.ProtoReflect.Descriptor instead.
func (*One) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{6}
}

func (x *One) GetU() isOne_U {
	if x != nil {
		return x.U
	}
	return nil
}

func (x *One) GetUDouble() float64 {
	if x != nil {
		if x, ok := x.U.(*One_UDouble); ok {
			return x.UDouble
		}
	}
	return 0
}

func (x *One) GetUFloat() float32 {
	if x != nil {
		if x, ok := x.U.(*One_UFloat); ok {
			return x.UFloat
		}
	}
	return 0
}

func (x *One) GetUInt32() int32 {
	if x != nil {
		if x, ok := x.U.(*One_UInt32); ok {
			return x.UInt32
		}
	}
	return 0
}

func (x *One) GetUInt64() int64 {
	if x != nil {
		if x, ok := x.U.(*One_UInt64); ok {
			return x.UInt64
		}
	}
	return 0
}

func (x *One) GetUUint32() uint32 {
	if x != nil {
		if x, ok := x.U.(*One_UUint32); ok {
			return x.UUint32
		}
	}
	return 0
}

func (x *One) GetUUint64() uint64 {
	if x != nil {
		if x, ok := x.U.(*One_UUint64); ok {
			return x.UUint64
		}
	}
	return 0
}

func (x *One) GetUSint32() int32 {
	if x != nil {
		if x, ok := x.U.(*One_USint32); ok {
			return x.USint32
		}
	}
	return 0
}

func (x *One) GetUSint64() int64 {
	if x != nil {
		if x, ok := x.U.(*One_USint64); ok {
			return x.USint64
		}
	}
	return 0
}

func (x *One) GetUFixed32() uint32 {
	if x != nil {
		if x, ok := x.U.(*One_UFixed32); ok {
			return x.UFixed32
		}
	}
	return 0
}

func (x *One) GetUFixed64() uint64 {
	if x != nil {
		if x, ok := x.U.(*One_UFixed64); ok {
			return x.UFixed64
		}
	}
	return 0
}

func (x *One) GetUSfixed32() int32 {
	if x != nil {
		if x, ok := x.U.(*One_USfixed32); ok {
			return x.USfixed32
		}
	}
	return 0
}

func (x *One) GetUSfixed64() int64 {
	if x != nil {
		if x, ok := x.U.(*One_USfixed64); ok {
			return x.USfixed64
		}
	}
	return 0
}

func (x *One) GetUBool() bool {
	if x != nil {
		if x, ok := x.U.(*One_UBool); ok {
			return x.UBool
		}
	}
	return false
}

func (x *One) GetUString() string {
	if x != nil {
		if x, ok := x.U.(*One_UString); ok {
			return x.UString
		}
	}
	return ""
}

func (x *One) GetUBytes() []byte {
	if x != nil {
		if x, ok := x.U.(*One_UBytes); ok {
			return x.UBytes
		}
	}
	return nil
}

func (x *One) GetUColor() Color {
	if x != nil {
		if x, ok := x.U.(*One_UColor); ok {
			return x.UColor
		}
	}
	return Color_COLOR_ZERO
}

func (x *One) GetULeaf() *Leaf {
	if x != nil {
		if x, ok := x.U.(*One_ULeaf); ok {
			return x.ULeaf
		}
	}
	return nil
}

func (x *One) GetBetween() string {
	if x != nil {
		return x.Between
	}
	return ""
}

func (x *One) GetSecondOne() isOne_SecondOne {
	if x != nil {
		return x.SecondOne
	}
	return nil
}

func (x *One) GetRec() *One {
	if x != nil {
		if x, ok := x.SecondOne.(*One_Rec); ok {
			return x.Rec
		}
	}
	return nil
}

func (x *One) GetTs() *timestamppb.Timestamp {
	if x != nil {
		if x, ok := x.SecondOne.(*One_Ts); ok {
			return x.Ts
		}
	}
	return nil
}

func (x *One) GetS2() string {
	if x != nil {
		if x, ok := x.SecondOne.(*One_S2); ok {
			return x.S2
		}
	}
	return ""
}

func (x *One) GetAl() Alias {
	if x != nil {
		if x, ok := x.SecondOne.(*One_Al); ok {
			return x.Al
		}
	}
	return Alias_A_ZERO
}

type isOne_U interface {
	isOne_U()
}

type One_UDouble struct {
	UDouble float64 `protobuf:"fixed64,1,opt,name=u_double,json=uDouble,proto3,oneof"`
}

type One_UFloat struct {
	UFloat float32 `protobuf:"fixed32,2,opt,name=u_float,json=uFloat,proto3,oneof"`
}

type One_UInt32 struct {
	UInt32 int32 `protobuf:"varint,3,opt,name=u_int32,json=uInt32,proto3,oneof"`
}

type One_UInt64 struct {
	UInt64 int64 `protobuf:"varint,4,opt,name=u_int64,json=uInt64,proto3,oneof"`
}

type One_UUint32 struct {
	UUint32 uint32 `protobuf:"varint,5,opt,name=u_uint32,json=uUint32,proto3,oneof"`
}

type One_UUint64 struct {
	UUint64 uint64 `protobuf:"varint,6,opt,name=u_uint64,json=uUint64,proto3,oneof"`
}

type One_USint32 struct {
	USint32 int32 `protobuf:"zigzag32,7,opt,name=u_sint32,json=uSint32,proto3,oneof"`
}

type One_USint64 struct {
	USint64 int64 `protobuf:"zigzag64,8,opt,name=u_sint64,json=uSint64,proto3,oneof"`
}

type One_UFixed32 struct {
	UFixed32 uint32 `protobuf:"fixed32,9,opt,name=u_fixed32,json=uFixed32,proto3,oneof"`
}

type One_UFixed64 struct {
	UFixed64 uint64 `protobuf:"fixed64,10,opt,name=u_fixed64,json=uFixed64,proto3,oneof"`
}

type One_USfixed32 struct {
	USfixed32 int32 `protobuf:"fixed32,11,opt,name=u_sfixed32,json=uSfixed32,proto3,oneof"`
}

type One_USfixed64 struct {
	USfixed64 int64 `protobuf:"fixed64,12,opt,name=u_sfixed64,json=uSfixed64,proto3,oneof"`
}

type One_UBool struct {
	UBool bool `protobuf:"varint,13,opt,name=u_bool,json=uBool,proto3,oneof"`
}

type One_UString struct {
	UString string `protobuf:"bytes,14,opt,name=u_string,json=uString,proto3,oneof"`
}

type One_UBytes struct {
	UBytes []byte `protobuf:"bytes,15,opt,name=u_bytes,json=uBytes,proto3,oneof"`
}

type One_UColor struct {
	UColor Color `protobuf:"varint,16,opt,name=u_color,json=uColor,proto3,enum=vh.p3.Color,oneof"`
}

type One_ULeaf struct {
	ULeaf *Leaf `protobuf:"bytes,17,opt,name=u_leaf,json=uLeaf,proto3,oneof"`
}

func (*One_UDouble) isOne_U() {}

func (*One_UFloat) isOne_U() {}

func (*One_UInt32) isOne_U() {}

func (*One_UInt64) isOne_U() {}

func (*One_UUint32) isOne_U() {}

func (*One_UUint64) isOne_U() {}

func (*One_USint32) isOne_U() {}

func (*One_USint64) isOne_U() {}

func (*One_UFixed32) isOne_U() {}

func (*One_UFixed64) isOne_U() {}

func (*One_USfixed32) isOne_U() {}

func (*One_USfixed64) isOne_U() {}

func (*One_UBool) isOne_U() {}

func (*One_UString) isOne_U() {}

func (*One_UBytes) isOne_U() {}

func (*One_UColor) isOne_U() {}

func (*One_ULeaf) isOne_U() {}

type isOne_SecondOne interface {
	isOne_SecondOne()
}

type One_Rec struct {
	Rec *One `protobuf:"bytes,41,opt,name=rec,proto3,oneof"`
}

type One_Ts struct {
	Ts *timestamppb.Timestamp `protobuf:"bytes,42,opt,name=ts,proto3,oneof"`
}

type One_S2 struct {
	S2 string `protobuf:"bytes,43,opt,name=s2,proto3,oneof"`
}

type One_Al struct {
	Al Alias `protobuf:"varint,44,opt,name=al,proto3,enum=vh.p3.Alias,oneof"`
}

func (*One_Rec) isOne_SecondOne() {}

func (*One_Ts) isOne_SecondOne() {}

func (*One_S2) isOne_SecondOne() {}

func (*One_Al) isOne_SecondOne() {}

type MapKeys struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	AInt32        map[int32]int64        `protobuf:"bytes,1,rep,name=a_int32,json=aInt32,proto3" json:"a_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AInt64        map[int64]int64        `protobuf:"bytes,2,rep,name=a_int64,json=aInt64,proto3" json:"a_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint32       map[uint32]int64       `protobuf:"bytes,3,rep,name=a_uint32,json=aUint32,proto3" json:"a_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint64       map[uint64]int64       `protobuf:"bytes,4,rep,name=a_uint64,json=aUint64,proto3" json:"a_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASint32       map[int32]int64        `protobuf:"bytes,5,rep,name=a_sint32,json=aSint32,proto3" json:"a_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASint64       map[int64]int64        `protobuf:"bytes,6,rep,name=a_sint64,json=aSint64,proto3" json:"a_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AFixed32      map[uint32]int64       `protobuf:"bytes,7,rep,name=a_fixed32,json=aFixed32,proto3" json:"a_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AFixed64      map[uint64]int64       `protobuf:"bytes,8,rep,name=a_fixed64,json=aFixed64,proto3" json:"a_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASfixed32     map[int32]int64        `protobuf:"bytes,9,rep,name=a_sfixed32,json=aSfixed32,proto3" json:"a_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASfixed64     map[int64]int64        `protobuf:"bytes,10,rep,name=a_sfixed64,json=aSfixed64,proto3" json:"a_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ABool         map[bool]int64         `protobuf:"bytes,11,rep,name=a_bool,json=aBool,proto3" json:"a_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AString       map[string]int64       `protobuf:"bytes,12,rep,name=a_string,json=aString,proto3" json:"a_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BInt32        map[int32]*Leaf        `protobuf:"bytes,13,rep,name=b_int32,json=bInt32,proto3" json:"b_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BInt64        map[int64]*Leaf        `protobuf:"bytes,14,rep,name=b_int64,json=bInt64,proto3" json:"b_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BUint32       map[uint32]*Leaf       `protobuf:"bytes,15,rep,name=b_uint32,json=bUint32,proto3" json:"b_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BUint64       map[uint64]*Leaf       `protobuf:"bytes,16,rep,name=b_uint64,json=bUint64,proto3" json:"b_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSint32       map[int32]*Leaf        `protobuf:"bytes,17,rep,name=b_sint32,json=bSint32,proto3" json:"b_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSint64       map[int64]*Leaf        `protobuf:"bytes,18,rep,name=b_sint64,json=bSint64,proto3" json:"b_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BFixed32      map[uint32]*Leaf       `protobuf:"bytes,19,rep,name=b_fixed32,json=bFixed32,proto3" json:"b_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BFixed64      map[uint64]*Leaf       `protobuf:"bytes,20,rep,name=b_fixed64,json=bFixed64,proto3" json:"b_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSfixed32     map[int32]*Leaf        `protobuf:"bytes,21,rep,name=b_sfixed32,json=bSfixed32,proto3" json:"b_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSfixed64     map[int64]*Leaf        `protobuf:"bytes,22,rep,name=b_sfixed64,json=bSfixed64,proto3" json:"b_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BBool         map[bool]*Leaf         `protobuf:"bytes,23,rep,name=b_bool,json=bBool,proto3" json:"b_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BString       map[string]*Leaf       `protobuf:"bytes,24,rep,name=b_string,json=bString,proto3" json:"b_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CInt32        map[int32]string       `protobuf:"bytes,25,rep,name=c_int32,json=cInt32,proto3" json:"c_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CInt64        map[int64]string       `protobuf:"bytes,26,rep,name=c_int64,json=cInt64,proto3" json:"c_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CUint32       map[uint32]string      `protobuf:"bytes,27,rep,name=c_uint32,json=cUint32,proto3" json:"c_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CUint64       map[uint64]string      `protobuf:"bytes,28,rep,name=c_uint64,json=cUint64,proto3" json:"c_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSint32       map[int32]string       `protobuf:"bytes,29,rep,name=c_sint32,json=cSint32,proto3" json:"c_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSint64       map[int64]string       `protobuf:"bytes,30,rep,name=c_sint64,json=cSint64,proto3" json:"c_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CFixed32      map[uint32]string      `protobuf:"bytes,31,rep,name=c_fixed32,json=cFixed32,proto3" json:"c_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CFixed64      map[uint64]string      `protobuf:"bytes,32,rep,name=c_fixed64,json=cFixed64,proto3" json:"c_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSfixed32     map[int32]string       `protobuf:"bytes,33,rep,name=c_sfixed32,json=cSfixed32,proto3" json:"c_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSfixed64     map[int64]string       `protobuf:"bytes,34,rep,name=c_sfixed64,json=cSfixed64,proto3" json:"c_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CBool         map[bool]string        `protobuf:"bytes,35,rep,name=c_bool,json=cBool,proto3" json:"c_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CString       map[string]string      `protobuf:"bytes,36,rep,name=c_string,json=cString,proto3" json:"c_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *MapKeys) Reset() {
	*x = MapKeys{}
	mi := &file_p3_proto_msgTypes[7]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *MapKeys) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*MapKeys) ProtoMessage() {}

func (x *MapKeys) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[7]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use MapKeys.ProtoReflect.Descriptor instead.
func (*MapKeys) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{7}
}

func (x *MapKeys) GetAInt32() map[int32]int64 {
	if x != nil {
		return x.AInt32
	}
	return nil
}

func (x *MapKeys) GetAInt64() map[int64]int64 {
	if x != nil {
		return x.AInt64
	}
	return nil
}

func (x *MapKeys) GetAUint32() map[uint32]int64 {
	if x != nil {
		return x.AUint32
	}
	return nil
}

func (x *MapKeys) GetAUint64() map[uint64]int64 {
	if x != nil {
		return x.AUint64
	}
	return nil
}

func (x *MapKeys) GetASint32() map[int32]int64 {
	if x != nil {
		return x.ASint32
	}
	return nil
}

func (x *MapKeys) GetASint64() map[int64]int64 {
	if x != nil {
		return x.ASint64
	}
	return nil
}

func (x *MapKeys) GetAFixed32() map[uint32]int64 {
	if x != nil {
		return x.AFixed32
	}
	return nil
}

func (x *MapKeys) GetAFixed64() map[uint64]int64 {
	if x != nil {
		return x.AFixed64
	}
	return nil
}

func (x *MapKeys) GetASfixed32() map[int32]int64 {
	if x != nil {
		return x.ASfixed32
	}
	return nil
}

func (x *MapKeys) GetASfixed64() map[int64]int64 {
	if x != nil {
		return x.ASfixed64
	}
	return nil
}

func (x *MapKeys) GetABool() map[bool]int64 {
	if x != nil {
		return x.ABool
	}
	return nil
}

func (x *MapKeys) GetAString() map[string]int64 {
	if x != nil {
		return x.AString
	}
	return nil
}

func (x *MapKeys) GetBInt32() map[int32]*Leaf {
	if x != nil {
		return x.BInt32
	}
	return nil
}

func (x *MapKeys) GetBInt64() map[int64]*Leaf {
	if x != nil {
		return x.BInt64
	}
	return nil
}

func (x *MapKeys) GetBUint32() map[uint32]*Leaf {
	if x != nil {
		return x.BUint32
	}
	return nil
}

func (x *MapKeys) GetBUint64() map[uint64]*Leaf {
	if x != nil {
		return x.BUint64
	}
	return nil
}

func (x *MapKeys) GetBSint32() map[int32]*Leaf {
	if x != nil {
		return x.BSint32
	}
	return nil
}

func (x *MapKeys) GetBSint64() map[int64]*Leaf {
	if x != nil {
		return x.BSint64
	}
	return nil
}

func (x *MapKeys) GetBFixed32() map[uint32]*Leaf {
	if x != nil {
		return x.BFixed32
	}
	return nil
}

func (x *MapKeys) GetBFixed64() map[uint64]*Leaf {
	if x != nil {
		return x.BFixed64
	}
	return nil
}

func (x *MapKeys) GetBSfixed32() map[int32]*Leaf {
	if x != nil {
		return x.BSfixed32
	}
	return nil
}

func (x *MapKeys) GetBSfixed64() map[int64]*Leaf {
	if x != nil {
		return x.BSfixed64
	}
	return nil
}

func (x *MapKeys) GetBBool() map[bool]*Leaf {
	if x != nil {
		return x.BBool
	}
	return nil
}

func (x *MapKeys) GetBString() map[string]*Leaf {
	if x != nil {
		return x.BString
	}
	return nil
}

func (x *MapKeys) GetCInt32() map[int32]string {
	if x != nil {
		return x.CInt32
	}
	return nil
}

func (x *MapKeys) GetCInt64() map[int64]string {
	if x != nil {
		return x.CInt64
	}
	return nil
}

func (x *MapKeys) GetCUint32() map[uint32]string {
	if x != nil {
		return x.CUint32
	}
	return nil
}

func (x *MapKeys) GetCUint64() map[uint64]string {
	if x != nil {
		return x.CUint64
	}
	return nil
}

func (x *MapKeys) GetCSint32() map[int32]string {
	if x != nil {
		return x.CSint32
	}
	return nil
}

func (x *MapKeys) GetCSint64() map[int64]string {
	if x != nil {
		return x.CSint64
	}
	return nil
}

func (x *MapKeys) GetCFixed32() map[uint32]string {
	if x != nil {
		return x.CFixed32
	}
	return nil
}

func (x *MapKeys) GetCFixed64() map[uint64]string {
	if x != nil {
		return x.CFixed64
	}
	return nil
}

func (x *MapKeys) GetCSfixed32() map[int32]string {
	if x != nil {
		return x.CSfixed32
	}
	return nil
}

func (x *MapKeys) GetCSfixed64() map[int64]string {
	if x != nil {
		return x.CSfixed64
	}
	return nil
}

func (x *MapKeys) GetCBool() map[bool]string {
	if x != nil {
		return x.CBool
	}
	return nil
}

func (x *MapKeys) GetCString() map[string]string {
	if x != nil {
		return x.CString
	}
	return nil
}

type MapVals struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	ADouble       map[string]float64     `protobuf:"bytes,1,rep,name=a_double,json=aDouble,proto3" json:"a_double,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	AFloat        map[string]float32     `protobuf:"bytes,2,rep,name=a_float,json=aFloat,proto3" json:"a_float,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	AInt32        map[string]int32       `protobuf:"bytes,3,rep,name=a_int32,json=aInt32,proto3" json:"a_int32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AInt64        map[string]int64       `protobuf:"bytes,4,rep,name=a_int64,json=aInt64,proto3" json:"a_int64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint32       map[string]uint32      `protobuf:"bytes,5,rep,name=a_uint32,json=aUint32,proto3" json:"a_uint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint64       map[string]uint64      `protobuf:"bytes,6,rep,name=a_uint64,json=aUint64,proto3" json:"a_uint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASint32       map[string]int32       `protobuf:"bytes,7,rep,name=a_sint32,json=aSint32,proto3" json:"a_sint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	ASint64       map[string]int64       `protobuf:"bytes,8,rep,name=a_sint64,json=aSint64,proto3" json:"a_sint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	AFixed32      map[string]uint32      `protobuf:"bytes,9,rep,name=a_fixed32,json=aFixed32,proto3" json:"a_fixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	AFixed64      map[string]uint64      `protobuf:"bytes,10,rep,name=a_fixed64,json=aFixed64,proto3" json:"a_fixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	ASfixed32     map[string]int32       `protobuf:"bytes,11,rep,name=a_sfixed32,json=aSfixed32,proto3" json:"a_sfixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	ASfixed64     map[string]int64       `protobuf:"bytes,12,rep,name=a_sfixed64,json=aSfixed64,proto3" json:"a_sfixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	ABool         map[string]bool        `protobuf:"bytes,13,rep,name=a_bool,json=aBool,proto3" json:"a_bool,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AString       map[string]string      `protobuf:"bytes,14,rep,name=a_string,json=aString,proto3" json:"a_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ABytes        map[string][]byte      `protobuf:"bytes,15,rep,name=a_bytes,json=aBytes,proto3" json:"a_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	AColor        map[string]Color       `protobuf:"bytes,16,rep,name=a_color,json=aColor,proto3" json:"a_color,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p3.Color"`
	ALeaf         map[string]*Leaf       `protobuf:"bytes,17,rep,name=a_leaf,json=aLeaf,proto3" json:"a_leaf,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BDouble       map[int32]float64      `protobuf:"bytes,18,rep,name=b_double,json=bDouble,proto3" json:"b_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	BFloat        map[int32]float32      `protobuf:"bytes,19,rep,name=b_float,json=bFloat,proto3" json:"b_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	BInt32        map[int32]int32        `protobuf:"bytes,20,rep,name=b_int32,json=bInt32,proto3" json:"b_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BInt64        map[int32]int64        `protobuf:"bytes,21,rep,name=b_int64,json=bInt64,proto3" json:"b_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BUint32       map[int32]uint32       `protobuf:"bytes,22,rep,name=b_uint32,json=bUint32,proto3" json:"b_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BUint64       map[int32]uint64       `protobuf:"bytes,23,rep,name=b_uint64,json=bUint64,proto3" json:"b_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BSint32       map[int32]int32        `protobuf:"bytes,24,rep,name=b_sint32,json=bSint32,proto3" json:"b_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	BSint64       map[int32]int64        `protobuf:"bytes,25,rep,name=b_sint64,json=bSint64,proto3" json:"b_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	BFixed32      map[int32]uint32       `protobuf:"bytes,26,rep,name=b_fixed32,json=bFixed32,proto3" json:"b_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	BFixed64      map[int32]uint64       `protobuf:"bytes,27,rep,name=b_fixed64,json=bFixed64,proto3" json:"b_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	BSfixed32     map[int32]int32        `protobuf:"bytes,28,rep,name=b_sfixed32,json=bSfixed32,proto3" json:"b_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	BSfixed64     map[int32]int64        `protobuf:"bytes,29,rep,name=b_sfixed64,json=bSfixed64,proto3" json:"b_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	BBool         map[int32]bool         `protobuf:"bytes,30,rep,name=b_bool,json=bBool,proto3" json:"b_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BString       map[int32]string       `protobuf:"bytes,31,rep,name=b_string,json=bString,proto3" json:"b_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BBytes        map[int32][]byte       `protobuf:"bytes,32,rep,name=b_bytes,json=bBytes,proto3" json:"b_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BColor        map[int32]Color        `protobuf:"bytes,33,rep,name=b_color,json=bColor,proto3" json:"b_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p3.Color"`
	BLeaf         map[int32]*Leaf        `protobuf:"bytes,34,rep,name=b_leaf,json=bLeaf,proto3" json:"b_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CDouble       map[bool]float64       `protobuf:"bytes,35,rep,name=c_double,json=cDouble,proto3" json:"c_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	CFloat        map[bool]float32       `protobuf:"bytes,36,rep,name=c_float,json=cFloat,proto3" json:"c_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	CInt32        map[bool]int32         `protobuf:"bytes,37,rep,name=c_int32,json=cInt32,proto3" json:"c_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CInt64        map[bool]int64         `protobuf:"bytes,38,rep,name=c_int64,json=cInt64,proto3" json:"c_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CUint32       map[bool]uint32        `protobuf:"bytes,39,rep,name=c_uint32,json=cUint32,proto3" json:"c_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CUint64       map[bool]uint64        `protobuf:"bytes,40,rep,name=c_uint64,json=cUint64,proto3" json:"c_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CSint32       map[bool]int32         `protobuf:"bytes,41,rep,name=c_sint32,json=cSint32,proto3" json:"c_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	CSint64       map[bool]int64         `protobuf:"bytes,42,rep,name=c_sint64,json=cSint64,proto3" json:"c_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	CFixed32      map[bool]uint32        `protobuf:"bytes,43,rep,name=c_fixed32,json=cFixed32,proto3" json:"c_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	CFixed64      map[bool]uint64        `protobuf:"bytes,44,rep,name=c_fixed64,json=cFixed64,proto3" json:"c_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	CSfixed32     map[bool]int32         `protobuf:"bytes,45,rep,name=c_sfixed32,json=cSfixed32,proto3" json:"c_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	CSfixed64     map[bool]int64         `protobuf:"bytes,46,rep,name=c_sfixed64,json=cSfixed64,proto3" json:"c_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	CBool         map[bool]bool          `protobuf:"bytes,47,rep,name=c_bool,json=cBool,proto3" json:"c_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CString       map[bool]string        `protobuf:"bytes,48,rep,name=c_string,json=cString,proto3" json:"c_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CBytes        map[bool][]byte        `protobuf:"bytes,49,rep,name=c_bytes,json=cBytes,proto3" json:"c_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CColor        map[bool]Color         `protobuf:"bytes,50,rep,name=c_color,json=cColor,proto3" json:"c_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=vh.p3.Color"`
	CLeaf         map[bool]*Leaf         `protobuf:"bytes,51,rep,name=c_leaf,json=cLeaf,proto3" json:"c_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *MapVals) Reset() {
	*x = MapVals{}
	mi := &file_p3_proto_msgTypes[8]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *MapVals) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*MapVals) ProtoMessage() {}

func (x *MapVals) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[8]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use MapVals.ProtoReflect.Descriptor instead.
func (*MapVals) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{8}
}

func (x *MapVals) GetADouble() map[string]float64 {
	if x != nil {
		return x.ADouble
	}
	return nil
}

func (x *MapVals) GetAFloat() map[string]float32 {
	if x != nil {
		return x.AFloat
	}
	return nil
}

func (x *MapVals) GetAInt32() map[string]int32 {
	if x != nil {
		return x.AInt32
	}
	return nil
}

func (x *MapVals) GetAInt64() map[string]int64 {
	if x != nil {
		return x.AInt64
	}
	return nil
}

func (x *MapVals) GetAUint32() map[string]uint32 {
	if x != nil {
		return x.AUint32
	}
	return nil
}

func (x *MapVals) GetAUint64() map[string]uint64 {
	if x != nil {
		return x.AUint64
	}
	return nil
}

func (x *MapVals) GetASint32() map[string]int32 {
	if x != nil {
		return x.ASint32
	}
	return nil
}

func (x *MapVals) GetASint64() map[string]int64 {
	if x != nil {
		return x.ASint64
	}
	return nil
}

func (x *MapVals) GetAFixed32() map[string]uint32 {
	if x != nil {
		return x.AFixed32
	}
	return nil
}

func (x *MapVals) GetAFixed64() map[string]uint64 {
	if x != nil {
		return x.AFixed64
	}
	return nil
}

func (x *MapVals) GetASfixed32() map[string]int32 {
	if x != nil {
		return x.ASfixed32
	}
	return nil
}

func (x *MapVals) GetASfixed64() map[string]int64 {
	if x != nil {
		return x.ASfixed64
	}
	return nil
}

func (x *MapVals) GetABool() map[string]bool {
	if x != nil {
		return x.ABool
	}
	return nil
}

func (x *MapVals) GetAString() map[string]string {
	if x != nil {
		return x.AString
	}
	return nil
}

func (x *MapVals) GetABytes() map[string][]byte {
	if x != nil {
		return x.ABytes
	}
	return nil
}

func (x *MapVals) GetAColor() map[string]Color {
	if x != nil {
		return x.AColor
	}
	return nil
}

func (x *MapVals) GetALeaf() map[string]*Leaf {
	if x != nil {
		return x.ALeaf
	}
	return nil
}

func (x *MapVals) GetBDouble() map[int32]float64 {
	if x != nil {
		return x.BDouble
	}
	return nil
}

func (x *MapVals) GetBFloat() map[int32]float32 {
	if x != nil {
		return x.BFloat
	}
	return nil
}

func (x *MapVals) GetBInt32() map[int32]int32 {
	if x != nil {
		return x.BInt32
	}
	return nil
}

func (x *MapVals) GetBInt64() map[int32]int64 {
	if x != nil {
		return x.BInt64
	}
	return nil
}

func (x *MapVals) GetBUint32() map[int32]uint32 {
	if x != nil {
		return x.BUint32
	}
	return nil
}

func (x *MapVals) GetBUint64() map[int32]uint64 {
	if x != nil {
		return x.BUint64
	}
	return nil
}

func (x *MapVals) GetBSint32() map[int32]int32 {
	if x != nil {
		return x.BSint32
	}
	return nil
}

func (x *MapVals) GetBSint64() map[int32]int64 {
	if x != nil {
		return x.BSint64
	}
	return nil
}

func (x *MapVals) GetBFixed32() map[int32]uint32 {
	if x != nil {
		return x.BFixed32
	}
	return nil
}

func (x *MapVals) GetBFixed64() map[int32]uint64 {
	if x != nil {
		return x.BFixed64
	}
	return nil
}

func (x *MapVals) GetBSfixed32() map[int32]int32 {
	if x != nil {
		return x.BSfixed32
	}
	return nil
}

func (x *MapVals) GetBSfixed64() map[int32]int64 {
	if x != nil {
		return x.BSfixed64
	}
	return nil
}

func (x *MapVals) GetBBool() map[int32]bool {
	if x != nil {
		return x.BBool
	}
	return nil
}

func (x *MapVals) GetBString() map[int32]string {
	if x != nil {
		return x.BString
	}
	return nil
}

func (x *MapVals) GetBBytes() map[int32][]byte {
	if x != nil {
		return x.BBytes
	}
	return nil
}

func (x *MapVals) GetBColor() map[int32]Color {
	if x != nil {
		return x.BColor
	}
	return nil
}

func (x *MapVals) GetBLeaf() map[int32]*Leaf {
	if x != nil {
		return x.BLeaf
	}
	return nil
}

func (x *MapVals) GetCDouble() map[bool]float64 {
	if x != nil {
		return x.CDouble
	}
	return nil
}

func (x *MapVals) GetCFloat() map[bool]float32 {
	if x != nil {
		return x.CFloat
	}
	return nil
}

func (x *MapVals) GetCInt32() map[bool]int32 {
	if x != nil {
		return x.CInt32
	}
	return nil
}

func (x *MapVals) GetCInt64() map[bool]int64 {
	if x != nil {
		return x.CInt64
	}
	return nil
}

func (x *MapVals) GetCUint32() map[bool]uint32 {
	if x != nil {
		return x.CUint32
	}
	return nil
}

func (x *MapVals) GetCUint64() map[bool]uint64 {
	if x != nil {
		return x.CUint64
	}
	return nil
}

func (x *MapVals) GetCSint32() map[bool]int32 {
	if x != nil {
		return x.CSint32
	}
	return nil
}

func (x *MapVals) GetCSint64() map[bool]int64 {
	if x != nil {
		return x.CSint64
	}
	return nil
}

func (x *MapVals) GetCFixed32() map[bool]uint32 {
	if x != nil {
		return x.CFixed32
	}
	return nil
}

func (x *MapVals) GetCFixed64() map[bool]uint64 {
	if x != nil {
		return x.CFixed64
	}
	return nil
}

func (x *MapVals) GetCSfixed32() map[bool]int32 {
	if x != nil {
		return x.CSfixed32
	}
	return nil
}

func (x *MapVals) GetCSfixed64() map[bool]int64 {
	if x != nil {
		return x.CSfixed64
	}
	return nil
}

func (x *MapVals) GetCBool() map[bool]bool {
	if x != nil {
		return x.CBool
	}
	return nil
}

func (x *MapVals) GetCString() map[bool]string {
	if x != nil {
		return x.CString
	}
	return nil
}

func (x *MapVals) GetCBytes() map[bool][]byte {
	if x != nil {
		return x.CBytes
	}
	return nil
}

func (x *MapVals) GetCColor() map[bool]Color {
	if x != nil {
		return x.CColor
	}
	return nil
}

func (x *MapVals) GetCLeaf() map[bool]*Leaf {
	if x != nil {
		return x.CLeaf
	}
	return nil
}

type Tree struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	Left  *Tree                  `protobuf:"bytes,1,opt,name=left,proto3" json:"left,omitempty"`
	Kids  []*Tree                `protobuf:"bytes,2,rep,name=kids,proto3" json:"kids,omitempty"`
	ById  map[int32]*Tree        `protobuf:"bytes,3,rep,name=by_id,json=byId,proto3" json:"by_id,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to U:
	//
	//	*Tree_Child
	//	*Tree_Inner_
	U             isTree_U `protobuf_oneof:"u"`
	Name          string   `protobuf:"bytes,6,opt,name=name,proto3" json:"name,omitempty"`
	Weight        *int64   `protobuf:"varint,7,opt,name=weight,proto3,oneof" json:"weight,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Tree) Reset() {
	*x = Tree{}
	mi := &file_p3_proto_msgTypes[9]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Tree) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Tree) ProtoMessage() {}

func (x *Tree) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[9]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Tree.ProtoReflect.Descriptor instead.
func (*Tree) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{9}
}

func (x *Tree) GetLeft() *Tree {
	if x != nil {
		return x.Left
	}
	return nil
}

func (x *Tree) GetKids() []*Tree {
	if x != nil {
		return x.Kids
	}
	return nil
}

func (x *Tree) GetById() map[int32]*Tree {
	if x != nil {
		return x.ById
	}
	return nil
}

func (x *Tree) GetU() isTree_U {
	if x != nil {
		return x.U
	}
	return nil
}

func (x *Tree) GetChild() *Tree {
	if x != nil {
		if x, ok := x.U.(*Tree_Child); ok {
			return x.Child
		}
	}
	return nil
}

func (x *Tree) GetInner() *Tree_Inner {
	if x != nil {
		if x, ok := x.U.(*Tree_Inner_); ok {
			return x.Inner
		}
	}
	return nil
}

func (x *Tree) GetName() string {
	if x != nil {
		return x.Name
	}
	return ""
}

func (x *Tree) GetWeight() int64 {
	if x != nil && x.Weight != nil {
		return *x.Weight
	}
	return 0
}

type isTree_U interface {
	isTree_U()
}

type Tree_Child struct {
	Child *Tree `protobuf:"bytes,4,opt,name=child,proto3,oneof"`
}

type Tree_Inner_ struct {
	Inner *Tree_Inner `protobuf:"bytes,5,opt,name=inner,proto3,oneof"`
}

func (*Tree_Child) isTree_U() {}

func (*Tree_Inner_) isTree_U() {}

type WKT struct {
	state         protoimpl.MessageState     `protogen:"open.v1"`
	Any           *anypb.Any                 `protobuf:"bytes,1,opt,name=any,proto3" json:"any,omitempty"`
	Anys          []*anypb.Any               `protobuf:"bytes,2,rep,name=anys,proto3" json:"anys,omitempty"`
	Ts            *timestamppb.Timestamp     `protobuf:"bytes,3,opt,name=ts,proto3" json:"ts,omitempty"`
	Dur           *durationpb.Duration       `protobuf:"bytes,4,opt,name=dur,proto3" json:"dur,omitempty"`
	St            *structpb.Struct           `protobuf:"bytes,5,opt,name=st,proto3" json:"st,omitempty"`
	Val           *structpb.Value            `protobuf:"bytes,6,opt,name=val,proto3" json:"val,omitempty"`
	Lv            *structpb.ListValue        `protobuf:"bytes,7,opt,name=lv,proto3" json:"lv,omitempty"`
	Fm            *fieldmaskpb.FieldMask     `protobuf:"bytes,8,opt,name=fm,proto3" json:"fm,omitempty"`
	Em            *emptypb.Empty             `protobuf:"bytes,9,opt,name=em,proto3" json:"em,omitempty"`
	W1            *wrapperspb.DoubleValue    `protobuf:"bytes,10,opt,name=w1,proto3" json:"w1,omitempty"`
	W2            *wrapperspb.FloatValue     `protobuf:"bytes,11,opt,name=w2,proto3" json:"w2,omitempty"`
	W3            *wrapperspb.Int64Value     `protobuf:"bytes,12,opt,name=w3,proto3" json:"w3,omitempty"`
	W4            *wrapperspb.UInt64Value    `protobuf:"bytes,13,opt,name=w4,proto3" json:"w4,omitempty"`
	W5            *wrapperspb.Int32Value     `protobuf:"bytes,14,opt,name=w5,proto3" json:"w5,omitempty"`
	W6            *wrapperspb.UInt32Value    `protobuf:"bytes,15,opt,name=w6,proto3" json:"w6,omitempty"`
	W7            *wrapperspb.BoolValue      `protobuf:"bytes,16,opt,name=w7,proto3" json:"w7,omitempty"`
	W8            *wrapperspb.StringValue    `protobuf:"bytes,17,opt,name=w8,proto3" json:"w8,omitempty"`
	W9            *wrapperspb.BytesValue     `protobuf:"bytes,18,opt,name=w9,proto3" json:"w9,omitempty"`
	Vals          map[string]*structpb.Value `protobuf:"bytes,19,rep,name=vals,proto3" json:"vals,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Tss           []*timestamppb.Timestamp   `protobuf:"bytes,20,rep,name=tss,proto3" json:"tss,omitempty"`
	Sts           map[int64]*structpb.Struct `protobuf:"bytes,21,rep,name=sts,proto3" json:"sts,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Nv            structpb.NullValue         `protobuf:"varint,22,opt,name=nv,proto3,enum=google.protobuf.NullValue" json:"nv,omitempty"`
	Svs           []*wrapperspb.StringValue  `protobuf:"bytes,23,rep,name=svs,proto3" json:"svs,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *WKT) Reset() {
	*x = WKT{}
	mi := &file_p3_proto_msgTypes[10]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *WKT) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*WKT) ProtoMessage() {}

func (x *WKT) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[10]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use WKT.ProtoReflect.Descriptor instead.
func (*WKT) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{10}
}

func (x *WKT) GetAny() *anypb.Any {
	if x != nil {
		return x.Any
	}
	return nil
}

func (x *WKT) GetAnys() []*anypb.Any {
	if x != nil {
		return x.Anys
	}
	return nil
}

func (x *WKT) GetTs() *timestamppb.Timestamp {
	if x != nil {
		return x.Ts
	}
	return nil
}

func (x *WKT) GetDur() *durationpb.Duration {
	if x != nil {
		return x.Dur
	}
	return nil
}

func (x *WKT) GetSt() *structpb.Struct {
	if x != nil {
		return x.St
	}
	return nil
}

func (x *WKT) GetVal() *structpb.Value {
	if x != nil {
		return x.Val
	}
	return nil
}

func (x *WKT) GetLv() *structpb.ListValue {
	if x != nil {
		return x.Lv
	}
	return nil
}

func (x *WKT) GetFm() *fieldmaskpb.FieldMask {
	if x != nil {
		return x.Fm
	}
	return nil
}

func (x *WKT) GetEm() *emptypb.Empty {
	if x != nil {
		return x.Em
	}
	return nil
}

func (x *WKT) GetW1() *wrapperspb.DoubleValue {
	if x != nil {
		return x.W1
	}
	return nil
}

func (x *WKT) GetW2() *wrapperspb.FloatValue {
	if x != nil {
		return x.W2
	}
	return nil
}

func (x *WKT) GetW3() *wrapperspb.Int64Value {
	if x != nil {
		return x.W3
	}
	return nil
}

func (x *WKT) GetW4() *wrapperspb.UInt64Value {
	if x != nil {
		return x.W4
	}
	return nil
}

func (x *WKT) GetW5() *wrapperspb.Int32Value {
	if x != nil {
		return x.W5
	}
	return nil
}

func (x *WKT) GetW6() *wrapperspb.UInt32Value {
	if x != nil {
		return x.W6
	}
	return nil
}

func (x *WKT) GetW7() *wrapperspb.BoolValue {
	if x != nil {
		return x.W7
	}
	return nil
}

func (x *WKT) GetW8() *wrapperspb.StringValue {
	if x != nil {
		return x.W8
	}
	return nil
}

func (x *WKT) GetW9() *wrapperspb.BytesValue {
	if x != nil {
		return x.W9
	}
	return nil
}

func (x *WKT) GetVals() map[string]*structpb.Value {
	if x != nil {
		return x.Vals
	}
	return nil
}

func (x *WKT) GetTss() []*timestamppb.Timestamp {
	if x != nil {
		return x.Tss
	}
	return nil
}

func (x *WKT) GetSts() map[int64]*structpb.Struct {
	if x != nil {
		return x.Sts
	}
	return nil
}

func (x *WKT) GetNv() structpb.NullValue {
	if x != nil {
		return x.Nv
	}
	return structpb.NullValue(0)
}

func (x *WKT) GetSvs() []*wrapperspb.StringValue {
	if x != nil {
		return x.Svs
	}
	return nil
}

type Old struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Between       string                 `protobuf:"bytes,40,opt,name=between,proto3" json:"between,omitempty"`
	F             []int32                `protobuf:"varint,3,rep,packed,name=f,proto3" json:"f,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Old) Reset() {
	*x = Old{}
	mi := &file_p3_proto_msgTypes[11]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Old) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Old) ProtoMessage() {}

func (x *Old) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[11]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Old.ProtoReflect.Descriptor instead.
func (*Old) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{11}
}

func (x *Old) GetBetween() string {
	if x != nil {
		return x.Between
	}
	return ""
}

func (x *Old) GetF() []int32 {
	if x != nil {
		return x.F
	}
	return nil
}

type State struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	State         string                 `protobuf:"bytes,1,opt,name=state,proto3" json:"state,omitempty"`
	SizeCache     int32                  `protobuf:"varint,2,opt,name=size_cache,json=sizeCache,proto3" json:"size_cache,omitempty"`
	UnknownFields []byte                 `protobuf:"bytes,3,opt,name=unknown_fields,json=unknownFields,proto3" json:"unknown_fields,omitempty"`
	Reset_        []string               `protobuf:"bytes,4,rep,name=reset,proto3" json:"reset,omitempty"`
	ProtoMessage_ map[string][]byte      `protobuf:"bytes,5,rep,name=proto_message,json=protoMessage,proto3" json:"proto_message,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX           int32                  `protobuf:"varint,6,opt,name=x_x_x,json=xXX,proto3" json:"x_x_x,omitempty"`
	String_       *bool                  `protobuf:"varint,7,opt,name=string,proto3,oneof" json:"string,omitempty"`
	Descriptor_   int32                  `protobuf:"varint,8,opt,name=descriptor,proto3" json:"descriptor,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *State) Reset() {
	*x = State{}
	mi := &file_p3_proto_msgTypes[12]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *State) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*State) ProtoMessage() {}

func (x *State) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[12]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use State.ProtoReflect.Descriptor instead.
func (*State) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{12}
}

func (x *State) GetState() string {
	if x != nil {
		return x.State
	}
	return ""
}

func (x *State) GetSizeCache() int32 {
	if x != nil {
		return x.SizeCache
	}
	return 0
}

func (x *State) GetUnknownFields() []byte {
	if x != nil {
		return x.UnknownFields
	}
	return nil
}

func (x *State) GetReset_() []string {
	if x != nil {
		return x.Reset_
	}
	return nil
}

func (x *State) GetProtoMessage_() map[string][]byte {
	if x != nil {
		return x.ProtoMessage_
	}
	return nil
}

func (x *State) GetXXX() int32 {
	if x != nil {
		return x.XXX
	}
	return 0
}

func (x *State) GetString_() bool {
	if x != nil && x.String_ != nil {
		return *x.String_
	}
	return false
}

func (x *State) GetDescriptor_() int32 {
	if x != nil {
		return x.Descriptor_
	}
	return 0
}

type Tree_Inner struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	Deep          *Tree_Inner_Deep       `protobuf:"bytes,1,opt,name=deep,proto3" json:"deep,omitempty"`
	Deeps         []*Tree_Inner_Deep     `protobuf:"bytes,2,rep,name=deeps,proto3" json:"deeps,omitempty"`
	E             Tree_Inner_E           `protobuf:"varint,3,opt,name=e,proto3,enum=vh.p3.Tree_Inner_E" json:"e,omitempty"`
	Es            []Tree_Inner_E         `protobuf:"varint,4,rep,packed,name=es,proto3,enum=vh.p3.Tree_Inner_E" json:"es,omitempty"`
	Tree          *Tree                  `protobuf:"bytes,5,opt,name=tree,proto3" json:"tree,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Tree_Inner) Reset() {
	*x = Tree_Inner{}
	mi := &file_p3_proto_msgTypes[100]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Tree_Inner) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Tree_Inner) ProtoMessage() {}

func (x *Tree_Inner) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[100]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Tree_Inner.ProtoReflect.Descriptor instead.
func (*Tree_Inner) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{9, 0}
}

func (x *Tree_Inner) GetDeep() *Tree_Inner_Deep {
	if x != nil {
		return x.Deep
	}
	return nil
}

func (x *Tree_Inner) GetDeeps() []*Tree_Inner_Deep {
	if x != nil {
		return x.Deeps
	}
	return nil
}

func (x *Tree_Inner) GetE() Tree_Inner_E {
	if x != nil {
		return x.E
	}
	return Tree_Inner_Z
}

func (x *Tree_Inner) GetEs() []Tree_Inner_E {
	if x != nil {
		return x.Es
	}
	return nil
}

func (x *Tree_Inner) GetTree() *Tree {
	if x != nil {
		return x.Tree
	}
	return nil
}

type Tree_Inner_Deep struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	C             Color                  `protobuf:"varint,1,opt,name=c,proto3,enum=vh.p3.Color" json:"c,omitempty"`
	Back          []*Tree_Inner          `protobuf:"bytes,2,rep,name=back,proto3" json:"back,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Tree_Inner_Deep) Reset() {
	*x = Tree_Inner_Deep{}
	mi := &file_p3_proto_msgTypes[102]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Tree_Inner_Deep) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Tree_Inner_Deep) ProtoMessage() {}

func (x *Tree_Inner_Deep) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[102]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Tree_Inner_Deep.ProtoReflect.Descriptor instead.
func (*Tree_Inner_Deep) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{9, 0, 0}
}

func (x *Tree_Inner_Deep) GetC() Color {
	if x != nil {
		return x.C
	}
	return Color_COLOR_ZERO
}

func (x *Tree_Inner_Deep) GetBack() []*Tree_Inner {
	if x != nil {
		return x.Back
	}
	return nil
}

var File_p3_proto protoreflect.FileDescriptor

const file_p3_proto_rawDesc = "" +
	"\n" +
	"\bp3.proto\x12\x05vh.p3\x1a\x19google/protobuf/any.proto\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/duration.proto\x1a\x1cgoogle/protobuf/struct.proto\x1a google/protobuf/field_mask.proto\x1a\x1egoogle/protobuf/wrappers.proto\x1a\x1bgoogle/protobuf/empty.proto\"0\n" +
	"\x04Leaf\x12\f\n" +
	"\x01a\x18\x01 \x01(\x05R\x01a\x12\f\n" +
	"\x01b\x18\x02 \x01(\tR\x01b\x12\f\n" +
	"\x01c\x18\x03 \x01(\fR\x01c\"\a\n" +
	"\x05Empty\"\xc5\x03\n" +
	"\aScalars\x12\x19\n" +
	"\bf_double\x18\x01 \x01(\x01R\afDouble\x12\x17\n" +
	"\af_float\x18\x04 \x01(\x02R\x06fFloat\x12\x17\n" +
	"\af_int32\x18\a \x01(\x05R\x06fInt32\x12\x17\n" +
	"\af_int64\x18\n" +
	" \x01(\x03R\x06fInt64\x12\x19\n" +
	"\bf_uint32\x18\r \x01(\rR\afUint32\x12\x19\n" +
	"\bf_uint64\x18\x10 \x01(\x04R\afUint64\x12\x19\n" +
	"\bf_sint32\x18\x13 \x01(\x11R\afSint32\x12\x19\n" +
	"\bf_sint64\x18\x16 \x01(\x12R\afSint64\x12\x1b\n" +
	"\tf_fixed32\x18\x19 \x01(\aR\bfFixed32\x12\x1b\n" +
	"\tf_fixed64\x18\x1c \x01(\x06R\bfFixed64\x12\x1d\n" +
	"\n" +
	"f_sfixed32\x18\x1f \x01(\x0fR\tfSfixed32\x12\x1d\n" +
	"\n" +
	"f_sfixed64\x18\" \x01(\x10R\tfSfixed64\x12\x15\n" +
	"\x06f_bool\x18% \x01(\bR\x05fBool\x12\x19\n" +
	"\bf_string\x18( \x01(\tR\afString\x12\x17\n" +
	"\af_bytes\x18+ \x01(\fR\x06fBytes\x12%\n" +
	"\af_color\x18. \x01(\x0e2\f.vh.p3.ColorR\x06fColor\"\x9e\x06\n" +
	"\x03Opt\x12\x1e\n" +
	"\bf_double\x18\x01 \x01(\x01H\x00R\afDouble\x88\x01\x01\x12\x1c\n" +
	"\af_float\x18\x0f \x01(\x02H\x01R\x06fFloat\x88\x01\x01\x12\x1c\n" +
	"\af_int32\x18\x10 \x01(\x05H\x02R\x06fInt32\x88\x01\x01\x12\x1d\n" +
	"\af_int64\x18\xff\x0f \x01(\x03H\x03R\x06fInt64\x88\x01\x01\x12\x1f\n" +
	"\bf_uint32\x18\x80\x10 \x01(\rH\x04R\afUint32\x88\x01\x01\x12 \n" +
	"\bf_uint64\x18\xff\xff\x0f \x01(\x04H\x05R\afUint64\x88\x01\x01\x12 \n" +
	"\bf_sint32\x18\x80\x80\x10 \x01(\x11H\x06R\afSint32\x88\x01\x01\x12\"\n" +
	"\bf_sint64\x18\xff\xff\xff\xff\x01 \x01(\x12H\aR\afSint64\x88\x01\x01\x12 \n" +
	"\tf_fixed32\x18\x13 \x01(\aH\bR\bfFixed32\x88\x01\x01\x12 \n" +
	"\tf_fixed64\x18\x14 \x01(\x06H\tR\bfFixed64\x88\x01\x01\x12\"\n" +
	"\n" +
	"f_sfixed32\x18\x15 \x01(\x0fH\n" +
	"R\tfSfixed32\x88\x01\x01\x12\"\n" +
	"\n" +
	"f_sfixed64\x18\x16 \x01(\x10H\vR\tfSfixed64\x88\x01\x01\x12\x1a\n" +
	"\x06f_bool\x18\x17 \x01(\bH\fR\x05fBool\x88\x01\x01\x12\x1e\n" +
	"\bf_string\x18\x18 \x01(\tH\rR\afString\x88\x01\x01\x12\x1c\n" +
	"\af_bytes\x18\x19 \x01(\fH\x0eR\x06fBytes\x88\x01\x01\x12*\n" +
	"\af_color\x18\x1a \x01(\x0e2\f.vh.p3.ColorH\x0fR\x06fColor\x88\x01\x01\x12'\n" +
	"\x06f_leaf\x18\x1b \x01(\v2\v.vh.p3.LeafH\x10R\x05fLeaf\x88\x01\x01B\v\n" +
	"\t_f_doubleB\n" +
	"\n" +
	"\b_f_floatB\n" +
	"\n" +
	"\b_f_int32B\n" +
	"\n" +
	"\b_f_int64B\v\n" +
	"\t_f_uint32B\v\n" +
	"\t_f_uint64B\v\n" +
	"\t_f_sint32B\v\n" +
	"\t_f_sint64B\f\n" +
	"\n" +
	"_f_fixed32B\f\n" +
	"\n" +
	"_f_fixed64B\r\n" +
	"\v_f_sfixed32B\r\n" +
	"\v_f_sfixed64B\t\n" +
	"\a_f_boolB\v\n" +
	"\t_f_stringB\n" +
	"\n" +
	"\b_f_bytesB\n" +
	"\n" +
	"\b_f_colorB\t\n" +
	"\a_f_leaf\"\xe5\x03\n" +
	"\x03Rep\x12\x19\n" +
	"\bf_double\x18\x01 \x03(\x01R\afDouble\x12\x17\n" +
	"\af_float\x18\x02 \x03(\x02R\x06fFloat\x12\x17\n" +
	"\af_int32\x18\x03 \x03(\x05R\x06fInt32\x12\x17\n" +
	"\af_int64\x18\x04 \x03(\x03R\x06fInt64\x12\x19\n" +
	"\bf_uint32\x18\x05 \x03(\rR\afUint32\x12\x19\n" +
	"\bf_uint64\x18\x06 \x03(\x04R\afUint64\x12\x19\n" +
	"\bf_sint32\x18\a \x03(\x11R\afSint32\x12\x19\n" +
	"\bf_sint64\x18\b \x03(\x12R\afSint64\x12\x1b\n" +
	"\tf_fixed32\x18\t \x03(\aR\bfFixed32\x12\x1b\n" +
	"\tf_fixed64\x18\n" +
	" \x03(\x06R\bfFixed64\x12\x1d\n" +
	"\n" +
	"f_sfixed32\x18\v \x03(\x0fR\tfSfixed32\x12\x1d\n" +
	"\n" +
	"f_sfixed64\x18\f \x03(\x10R\tfSfixed64\x12\x15\n" +
	"\x06f_bool\x18\r \x03(\bR\x05fBool\x12\x19\n" +
	"\bf_string\x18\x0e \x03(\tR\afString\x12\x17\n" +
	"\af_bytes\x18\x0f \x03(\fR\x06fBytes\x12%\n" +
	"\af_color\x18\x10 \x03(\x0e2\f.vh.p3.ColorR\x06fColor\x12\"\n" +
	"\x06f_leaf\x18\x11 \x03(\v2\v.vh.p3.LeafR\x05fLeaf\"\xa5\x04\n" +
	"\vRepUnpacked\x12\x1d\n" +
	"\bf_double\x18\x01 \x03(\x01B\x02\x10\x00R\afDouble\x12\x1b\n" +
	"\af_float\x18\x02 \x03(\x02B\x02\x10\x00R\x06fFloat\x12\x1b\n" +
	"\af_int32\x18\x03 \x03(\x05B\x02\x10\x00R\x06fInt32\x12\x1b\n" +
	"\af_int64\x18\x04 \x03(\x03B\x02\x10\x00R\x06fInt64\x12\x1d\n" +
	"\bf_uint32\x18\x05 \x03(\rB\x02\x10\x00R\afUint32\x12\x1d\n" +
	"\bf_uint64\x18\x06 \x03(\x04B\x02\x10\x00R\afUint64\x12\x1d\n" +
	"\bf_sint32\x18\a \x03(\x11B\x02\x10\x00R\afSint32\x12\x1d\n" +
	"\bf_sint64\x18\b \x03(\x12B\x02\x10\x00R\afSint64\x12\x1f\n" +
	"\tf_fixed32\x18\t \x03(\aB\x02\x10\x00R\bfFixed32\x12\x1f\n" +
	"\tf_fixed64\x18\n" +
	" \x03(\x06B\x02\x10\x00R\bfFixed64\x12!\n" +
	"\n" +
	"f_sfixed32\x18\v \x03(\x0fB\x02\x10\x00R\tfSfixed32\x12!\n" +
	"\n" +
	"f_sfixed64\x18\f \x03(\x10B\x02\x10\x00R\tfSfixed64\x12\x19\n" +
	"\x06f_bool\x18\r \x03(\bB\x02\x10\x00R\x05fBool\x12\x19\n" +
	"\bf_string\x18\x0e \x03(\tR\afString\x12\x17\n" +
	"\af_bytes\x18\x0f \x03(\fR\x06fBytes\x12)\n" +
	"\af_color\x18\x10 \x03(\x0e2\f.vh.p3.ColorB\x02\x10\x00R\x06fColor\x12\"\n" +
	"\x06f_leaf\x18\x11 \x03(\v2\v.vh.p3.LeafR\x05fLeaf\"\xb4\x05\n" +
	"\x03One\x12\x1b\n" +
	"\bu_double\x18\x01 \x01(\x01H\x00R\auDouble\x12\x19\n" +
	"\au_float\x18\x02 \x01(\x02H\x00R\x06uFloat\x12\x19\n" +
	"\au_int32\x18\x03 \x01(\x05H\x00R\x06uInt32\x12\x19\n" +
	"\au_int64\x18\x04 \x01(\x03H\x00R\x06uInt64\x12\x1b\n" +
	"\bu_uint32\x18\x05 \x01(\rH\x00R\auUint32\x12\x1b\n" +
	"\bu_uint64\x18\x06 \x01(\x04H\x00R\auUint64\x12\x1b\n" +
	"\bu_sint32\x18\a \x01(\x11H\x00R\auSint32\x12\x1b\n" +
	"\bu_sint64\x18\b \x01(\x12H\x00R\auSint64\x12\x1d\n" +
	"\tu_fixed32\x18\t \x01(\aH\x00R\buFixed32\x12\x1d\n" +
	"\tu_fixed64\x18\n" +
	" \x01(\x06H\x00R\buFixed64\x12\x1f\n" +
	"\n" +
	"u_sfixed32\x18\v \x01(\x0fH\x00R\tuSfixed32\x12\x1f\n" +
	"\n" +
	"u_sfixed64\x18\f \x01(\x10H\x00R\tuSfixed64\x12\x17\n" +
	"\x06u_bool\x18\r \x01(\bH\x00R\x05uBool\x12\x1b\n" +
	"\bu_string\x18\x0e \x01(\tH\x00R\auString\x12\x19\n" +
	"\au_bytes\x18\x0f \x01(\fH\x00R\x06uBytes\x12'\n" +
	"\au_color\x18\x10 \x01(\x0e2\f.vh.p3.ColorH\x00R\x06uColor\x12$\n" +
	"\x06u_leaf\x18\x11 \x01(\v2\v.vh.p3.LeafH\x00R\x05uLeaf\x12\x18\n" +
	"\abetween\x18( \x01(\tR\abetween\x12\x1e\n" +
	"\x03rec\x18) \x01(\v2\n" +
	".vh.p3.OneH\x01R\x03rec\x12,\n" +
	"\x02ts\x18* \x01(\v2\x1a.google.protobuf.TimestampH\x01R\x02ts\x12\x10\n" +
	"\x02s2\x18+ \x01(\tH\x01R\x02s2\x12\x1e\n" +
	"\x02al\x18, \x01(\x0e2\f.vh.p3.AliasH\x01R\x02alB\x03\n" +
	"\x01uB\f\n" +
	"\n" +
	"second_one\"\x8d\"\n" +
	"\aMapKeys\x123\n" +
	"\aa_int32\x18\x01 \x03(\v2\x1a.vh.p3.MapKeys.AInt32EntryR\x06aInt32\x123\n" +
	"\aa_int64\x18\x02 \x03(\v2\x1a.vh.p3.MapKeys.AInt64EntryR\x06aInt64\x126\n" +
	"\ba_uint32\x18\x03 \x03(\v2\x1b.vh.p3.MapKeys.AUint32EntryR\aaUint32\x126\n" +
	"\ba_uint64\x18\x04 \x03(\v2\x1b.vh.p3.MapKeys.AUint64EntryR\aaUint64\x126\n" +
	"\ba_sint32\x18\x05 \x03(\v2\x1b.vh.p3.MapKeys.ASint32EntryR\aaSint32\x126\n" +
	"\ba_sint64\x18\x06 \x03(\v2\x1b.vh.p3.MapKeys.ASint64EntryR\aaSint64\x129\n" +
	"\ta_fixed32\x18\a \x03(\v2\x1c.vh.p3.MapKeys.AFixed32EntryR\baFixed32\x129\n" +
	"\ta_fixed64\x18\b \x03(\v2\x1c.vh.p3.MapKeys.AFixed64EntryR\baFixed64\x12<\n" +
	"\n" +
	"a_sfixed32\x18\t \x03(\v2\x1d.vh.p3.MapKeys.ASfixed32EntryR\taSfixed32\x12<\n" +
	"\n" +
	"a_sfixed64\x18\n" +
	" \x03(\v2\x1d.vh.p3.MapKeys.ASfixed64EntryR\taSfixed64\x120\n" +
	"\x06a_bool\x18\v \x03(\v2\x19.vh.p3.MapKeys.ABoolEntryR\x05aBool\x126\n" +
	"\ba_string\x18\f \x03(\v2\x1b.vh.p3.MapKeys.AStringEntryR\aaString\x123\n" +
	"\ab_int32\x18\r \x03(\v2\x1a.vh.p3.MapKeys.BInt32EntryR\x06bInt32\x123\n" +
	"\ab_int64\x18\x0e \x03(\v2\x1a.vh.p3.MapKeys.BInt64EntryR\x06bInt64\x126\n" +
	"\bb_uint32\x18\x0f \x03(\v2\x1b.vh.p3.MapKeys.BUint32EntryR\abUint32\x126\n" +
	"\bb_uint64\x18\x10 \x03(\v2\x1b.vh.p3.MapKeys.BUint64EntryR\abUint64\x126\n" +
	"\bb_sint32\x18\x11 \x03(\v2\x1b.vh.p3.MapKeys.BSint32EntryR\abSint32\x126\n" +
	"\bb_sint64\x18\x12 \x03(\v2\x1b.vh.p3.MapKeys.BSint64EntryR\abSint64\x129\n" +
	"\tb_fixed32\x18\x13 \x03(\v2\x1c.vh.p3.MapKeys.BFixed32EntryR\bbFixed32\x129\n" +
	"\tb_fixed64\x18\x14 \x03(\v2\x1c.vh.p3.MapKeys.BFixed64EntryR\bbFixed64\x12<\n" +
	"\n" +
	"b_sfixed32\x18\x15 \x03(\v2\x1d.vh.p3.MapKeys.BSfixed32EntryR\tbSfixed32\x12<\n" +
	"\n" +
	"b_sfixed64\x18\x16 \x03(\v2\x1d.vh.p3.MapKeys.BSfixed64EntryR\tbSfixed64\x120\n" +
	"\x06b_bool\x18\x17 \x03(\v2\x19.vh.p3.MapKeys.BBoolEntryR\x05bBool\x126\n" +
	"\bb_string\x18\x18 \x03(\v2\x1b.vh.p3.MapKeys.BStringEntryR\abString\x123\n" +
	"\ac_int32\x18\x19 \x03(\v2\x1a.vh.p3.MapKeys.CInt32EntryR\x06cInt32\x123\n" +
	"\ac_int64\x18\x1a \x03(\v2\x1a.vh.p3.MapKeys.CInt64EntryR\x06cInt64\x126\n" +
	"\bc_uint32\x18\x1b \x03(\v2\x1b.vh.p3.MapKeys.CUint32EntryR\acUint32\x126\n" +
	"\bc_uint64\x18\x1c \x03(\v2\x1b.vh.p3.MapKeys.CUint64EntryR\acUint64\x126\n" +
	"\bc_sint32\x18\x1d \x03(\v2\x1b.vh.p3.MapKeys.CSint32EntryR\acSint32\x126\n" +
	"\bc_sint64\x18\x1e \x03(\v2\x1b.vh.p3.MapKeys.CSint64EntryR\acSint64\x129\n" +
	"\tc_fixed32\x18\x1f \x03(\v2\x1c.vh.p3.MapKeys.CFixed32EntryR\bcFixed32\x129\n" +
	"\tc_fixed64\x18  \x03(\v2\x1c.vh.p3.MapKeys.CFixed64EntryR\bcFixed64\x12<\n" +
	"\n" +
	"c_sfixed32\x18! \x03(\v2\x1d.vh.p3.MapKeys.CSfixed32EntryR\tcSfixed32\x12<\n" +
	"\n" +
	"c_sfixed64\x18\" \x03(\v2\x1d.vh.p3.MapKeys.CSfixed64EntryR\tcSfixed64\x120\n" +
	"\x06c_bool\x18# \x03(\v2\x19.vh.p3.MapKeys.CBoolEntryR\x05cBool\x126\n" +
	"\bc_string\x18$ \x03(\v2\x1b.vh.p3.MapKeys.CStringEntryR\acString\x1a9\n" +
	"\vAInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a9\n" +
	"\vAInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fAUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fAUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fASint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fASint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a;\n" +
	"\rAFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a;\n" +
	"\rAFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a<\n" +
	"\x0eASfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a<\n" +
	"\x0eASfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a8\n" +
	"\n" +
	"ABoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fAStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1aF\n" +
	"\vBInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aF\n" +
	"\vBInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aG\n" +
	"\fBUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aG\n" +
	"\fBUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aG\n" +
	"\fBSint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aG\n" +
	"\fBSint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aH\n" +
	"\rBFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aH\n" +
	"\rBFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aI\n" +
	"\x0eBSfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aI\n" +
	"\x0eBSfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aE\n" +
	"\n" +
	"BBoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1aG\n" +
	"\fBStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1a9\n" +
	"\vCInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a9\n" +
	"\vCInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a:\n" +
	"\fCUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a:\n" +
	"\fCUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a:\n" +
	"\fCSint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a:\n" +
	"\fCSint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a;\n" +
	"\rCFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a;\n" +
	"\rCFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a<\n" +
	"\x0eCSfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a<\n" +
	"\x0eCSfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a8\n" +
	"\n" +
	"CBoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a:\n" +
	"\fCStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\"\xd2.\n" +
	"\aMapVals\x126\n" +
	"\ba_double\x18\x01 \x03(\v2\x1b.vh.p3.MapVals.ADoubleEntryR\aaDouble\x123\n" +
	"\aa_float\x18\x02 \x03(\v2\x1a.vh.p3.MapVals.AFloatEntryR\x06aFloat\x123\n" +
	"\aa_int32\x18\x03 \x03(\v2\x1a.vh.p3.MapVals.AInt32EntryR\x06aInt32\x123\n" +
	"\aa_int64\x18\x04 \x03(\v2\x1a.vh.p3.MapVals.AInt64EntryR\x06aInt64\x126\n" +
	"\ba_uint32\x18\x05 \x03(\v2\x1b.vh.p3.MapVals.AUint32EntryR\aaUint32\x126\n" +
	"\ba_uint64\x18\x06 \x03(\v2\x1b.vh.p3.MapVals.AUint64EntryR\aaUint64\x126\n" +
	"\ba_sint32\x18\a \x03(\v2\x1b.vh.p3.MapVals.ASint32EntryR\aaSint32\x126\n" +
	"\ba_sint64\x18\b \x03(\v2\x1b.vh.p3.MapVals.ASint64EntryR\aaSint64\x129\n" +
	"\ta_fixed32\x18\t \x03(\v2\x1c.vh.p3.MapVals.AFixed32EntryR\baFixed32\x129\n" +
	"\ta_fixed64\x18\n" +
	" \x03(\v2\x1c.vh.p3.MapVals.AFixed64EntryR\baFixed64\x12<\n" +
	"\n" +
	"a_sfixed32\x18\v \x03(\v2\x1d.vh.p3.MapVals.ASfixed32EntryR\taSfixed32\x12<\n" +
	"\n" +
	"a_sfixed64\x18\f \x03(\v2\x1d.vh.p3.MapVals.ASfixed64EntryR\taSfixed64\x120\n" +
	"\x06a_bool\x18\r \x03(\v2\x19.vh.p3.MapVals.ABoolEntryR\x05aBool\x126\n" +
	"\ba_string\x18\x0e \x03(\v2\x1b.vh.p3.MapVals.AStringEntryR\aaString\x123\n" +
	"\aa_bytes\x18\x0f \x03(\v2\x1a.vh.p3.MapVals.ABytesEntryR\x06aBytes\x123\n" +
	"\aa_color\x18\x10 \x03(\v2\x1a.vh.p3.MapVals.AColorEntryR\x06aColor\x120\n" +
	"\x06a_leaf\x18\x11 \x03(\v2\x19.vh.p3.MapVals.ALeafEntryR\x05aLeaf\x126\n" +
	"\bb_double\x18\x12 \x03(\v2\x1b.vh.p3.MapVals.BDoubleEntryR\abDouble\x123\n" +
	"\ab_float\x18\x13 \x03(\v2\x1a.vh.p3.MapVals.BFloatEntryR\x06bFloat\x123\n" +
	"\ab_int32\x18\x14 \x03(\v2\x1a.vh.p3.MapVals.BInt32EntryR\x06bInt32\x123\n" +
	"\ab_int64\x18\x15 \x03(\v2\x1a.vh.p3.MapVals.BInt64EntryR\x06bInt64\x126\n" +
	"\bb_uint32\x18\x16 \x03(\v2\x1b.vh.p3.MapVals.BUint32EntryR\abUint32\x126\n" +
	"\bb_uint64\x18\x17 \x03(\v2\x1b.vh.p3.MapVals.BUint64EntryR\abUint64\x126\n" +
	"\bb_sint32\x18\x18 \x03(\v2\x1b.vh.p3.MapVals.BSint32EntryR\abSint32\x126\n" +
	"\bb_sint64\x18\x19 \x03(\v2\x1b.vh.p3.MapVals.BSint64EntryR\abSint64\x129\n" +
	"\tb_fixed32\x18\x1a \x03(\v2\x1c.vh.p3.MapVals.BFixed32EntryR\bbFixed32\x129\n" +
	"\tb_fixed64\x18\x1b \x03(\v2\x1c.vh.p3.MapVals.BFixed64EntryR\bbFixed64\x12<\n" +
	"\n" +
	"b_sfixed32\x18\x1c \x03(\v2\x1d.vh.p3.MapVals.BSfixed32EntryR\tbSfixed32\x12<\n" +
	"\n" +
	"b_sfixed64\x18\x1d \x03(\v2\x1d.vh.p3.MapVals.BSfixed64EntryR\tbSfixed64\x120\n" +
	"\x06b_bool\x18\x1e \x03(\v2\x19.vh.p3.MapVals.BBoolEntryR\x05bBool\x126\n" +
	"\bb_string\x18\x1f \x03(\v2\x1b.vh.p3.MapVals.BStringEntryR\abString\x123\n" +
	"\ab_bytes\x18  \x03(\v2\x1a.vh.p3.MapVals.BBytesEntryR\x06bBytes\x123\n" +
	"\ab_color\x18! \x03(\v2\x1a.vh.p3.MapVals.BColorEntryR\x06bColor\x120\n" +
	"\x06b_leaf\x18\" \x03(\v2\x19.vh.p3.MapVals.BLeafEntryR\x05bLeaf\x126\n" +
	"\bc_double\x18# \x03(\v2\x1b.vh.p3.MapVals.CDoubleEntryR\acDouble\x123\n" +
	"\ac_float\x18$ \x03(\v2\x1a.vh.p3.MapVals.CFloatEntryR\x06cFloat\x123\n" +
	"\ac_int32\x18% \x03(\v2\x1a.vh.p3.MapVals.CInt32EntryR\x06cInt32\x123\n" +
	"\ac_int64\x18& \x03(\v2\x1a.vh.p3.MapVals.CInt64EntryR\x06cInt64\x126\n" +
	"\bc_uint32\x18' \x03(\v2\x1b.vh.p3.MapVals.CUint32EntryR\acUint32\x126\n" +
	"\bc_uint64\x18( \x03(\v2\x1b.vh.p3.MapVals.CUint64EntryR\acUint64\x126\n" +
	"\bc_sint32\x18) \x03(\v2\x1b.vh.p3.MapVals.CSint32EntryR\acSint32\x126\n" +
	"\bc_sint64\x18* \x03(\v2\x1b.vh.p3.MapVals.CSint64EntryR\acSint64\x129\n" +
	"\tc_fixed32\x18+ \x03(\v2\x1c.vh.p3.MapVals.CFixed32EntryR\bcFixed32\x129\n" +
	"\tc_fixed64\x18, \x03(\v2\x1c.vh.p3.MapVals.CFixed64EntryR\bcFixed64\x12<\n" +
	"\n" +
	"c_sfixed32\x18- \x03(\v2\x1d.vh.p3.MapVals.CSfixed32EntryR\tcSfixed32\x12<\n" +
	"\n" +
	"c_sfixed64\x18. \x03(\v2\x1d.vh.p3.MapVals.CSfixed64EntryR\tcSfixed64\x120\n" +
	"\x06c_bool\x18/ \x03(\v2\x19.vh.p3.MapVals.CBoolEntryR\x05cBool\x126\n" +
	"\bc_string\x180 \x03(\v2\x1b.vh.p3.MapVals.CStringEntryR\acString\x123\n" +
	"\ac_bytes\x181 \x03(\v2\x1a.vh.p3.MapVals.CBytesEntryR\x06cBytes\x123\n" +
	"\ac_color\x182 \x03(\v2\x1a.vh.p3.MapVals.CColorEntryR\x06cColor\x120\n" +
	"\x06c_leaf\x183 \x03(\v2\x19.vh.p3.MapVals.CLeafEntryR\x05cLeaf\x1a:\n" +
	"\fADoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a9\n" +
	"\vAFloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a9\n" +
	"\vAInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a9\n" +
	"\vAInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fAUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a:\n" +
	"\fAUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a:\n" +
	"\fASint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a:\n" +
	"\fASint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1a;\n" +
	"\rAFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1a;\n" +
	"\rAFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1a<\n" +
	"\x0eASfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1a<\n" +
	"\x0eASfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a8\n" +
	"\n" +
	"ABoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a:\n" +
	"\fAStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a9\n" +
	"\vABytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aG\n" +
	"\vAColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p3.ColorR\x05value:\x028\x01\x1aE\n" +
	"\n" +
	"ALeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1a:\n" +
	"\fBDoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a9\n" +
	"\vBFloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a9\n" +
	"\vBInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a9\n" +
	"\vBInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fBUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a:\n" +
	"\fBUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a:\n" +
	"\fBSint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a:\n" +
	"\fBSint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1a;\n" +
	"\rBFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1a;\n" +
	"\rBFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1a<\n" +
	"\x0eBSfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1a<\n" +
	"\x0eBSfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a8\n" +
	"\n" +
	"BBoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a:\n" +
	"\fBStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a9\n" +
	"\vBBytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aG\n" +
	"\vBColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p3.ColorR\x05value:\x028\x01\x1aE\n" +
	"\n" +
	"BLeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\x1a:\n" +
	"\fCDoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a9\n" +
	"\vCFloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a9\n" +
	"\vCInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a9\n" +
	"\vCInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a:\n" +
	"\fCUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a:\n" +
	"\fCUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a:\n" +
	"\fCSint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a:\n" +
	"\fCSint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1a;\n" +
	"\rCFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1a;\n" +
	"\rCFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1a<\n" +
	"\x0eCSfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1a<\n" +
	"\x0eCSfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a8\n" +
	"\n" +
	"CBoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a:\n" +
	"\fCStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a9\n" +
	"\vCBytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aG\n" +
	"\vCColorEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\"\n" +
	"\x05value\x18\x02 \x01(\x0e2\f.vh.p3.ColorR\x05value:\x028\x01\x1aE\n" +
	"\n" +
	"CLeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.LeafR\x05value:\x028\x01\"\xf6\x04\n" +
	"\x04Tree\x12\x1f\n" +
	"\x04left\x18\x01 \x01(\v2\v.vh.p3.TreeR\x04left\x12\x1f\n" +
	"\x04kids\x18\x02 \x03(\v2\v.vh.p3.TreeR\x04kids\x12*\n" +
	"\x05by_id\x18\x03 \x03(\v2\x15.vh.p3.Tree.ByIdEntryR\x04byId\x12#\n" +
	"\x05child\x18\x04 \x01(\v2\v.vh.p3.TreeH\x00R\x05child\x12)\n" +
	"\x05inner\x18\x05 \x01(\v2\x11.vh.p3.Tree.InnerH\x00R\x05inner\x12\x12\n" +
	"\x04name\x18\x06 \x01(\tR\x04name\x12\x1b\n" +
	"\x06weight\x18\a \x01(\x03H\x01R\x06weight\x88\x01\x01\x1a\xa8\x02\n" +
	"\x05Inner\x12*\n" +
	"\x04deep\x18\x01 \x01(\v2\x16.vh.p3.Tree.Inner.DeepR\x04deep\x12,\n" +
	"\x05deeps\x18\x02 \x03(\v2\x16.vh.p3.Tree.Inner.DeepR\x05deeps\x12!\n" +
	"\x01e\x18\x03 \x01(\x0e2\x13.vh.p3.Tree.Inner.ER\x01e\x12#\n" +
	"\x02es\x18\x04 \x03(\x0e2\x13.vh.p3.Tree.Inner.ER\x02es\x12\x1f\n" +
	"\x04tree\x18\x05 \x01(\v2\v.vh.p3.TreeR\x04tree\x1aI\n" +
	"\x04Deep\x12\x1a\n" +
	"\x01c\x18\x01 \x01(\x0e2\f.vh.p3.ColorR\x01c\x12%\n" +
	"\x04back\x18\x02 \x03(\v2\x11.vh.p3.Tree.InnerR\x04back\"\x11\n" +
	"\x01E\x12\x05\n" +
	"\x01Z\x10\x00\x12\x05\n" +
	"\x01Y\x10\x05\x1aD\n" +
	"\tByIdEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12!\n" +
	"\x05value\x18\x02 \x01(\v2\v.vh.p3.TreeR\x05value:\x028\x01B\x03\n" +
	"\x01uB\t\n" +
	"\a_weight\"\x98\t\n" +
	"\x03WKT\x12&\n" +
	"\x03any\x18\x01 \x01(\v2\x14.google.protobuf.AnyR\x03any\x12(\n" +
	"\x04anys\x18\x02 \x03(\v2\x14.google.protobuf.AnyR\x04anys\x12*\n" +
	"\x02ts\x18\x03 \x01(\v2\x1a.google.protobuf.TimestampR\x02ts\x12+\n" +
	"\x03dur\x18\x04 \x01(\v2\x19.google.protobuf.DurationR\x03dur\x12'\n" +
	"\x02st\x18\x05 \x01(\v2\x17.google.protobuf.StructR\x02st\x12(\n" +
	"\x03val\x18\x06 \x01(\v2\x16.google.protobuf.ValueR\x03val\x12*\n" +
	"\x02lv\x18\a \x01(\v2\x1a.google.protobuf.ListValueR\x02lv\x12*\n" +
	"\x02fm\x18\b \x01(\v2\x1a.google.protobuf.FieldMaskR\x02fm\x12&\n" +
	"\x02em\x18\t \x01(\v2\x16.google.protobuf.EmptyR\x02em\x12,\n" +
	"\x02w1\x18\n" +
	" \x01(\v2\x1c.google.protobuf.DoubleValueR\x02w1\x12+\n" +
	"\x02w2\x18\v \x01(\v2\x1b.google.protobuf.FloatValueR\x02w2\x12+\n" +
	"\x02w3\x18\f \x01(\v2\x1b.google.protobuf.Int64ValueR\x02w3\x12,\n" +
	"\x02w4\x18\r \x01(\v2\x1c.google.protobuf.UInt64ValueR\x02w4\x12+\n" +
	"\x02w5\x18\x0e \x01(\v2\x1b.google.protobuf.Int32ValueR\x02w5\x12,\n" +
	"\x02w6\x18\x0f \x01(\v2\x1c.google.protobuf.UInt32ValueR\x02w6\x12*\n" +
	"\x02w7\x18\x10 \x01(\v2\x1a.google.protobuf.BoolValueR\x02w7\x12,\n" +
	"\x02w8\x18\x11 \x01(\v2\x1c.google.protobuf.StringValueR\x02w8\x12+\n" +
	"\x02w9\x18\x12 \x01(\v2\x1b.google.protobuf.BytesValueR\x02w9\x12(\n" +
	"\x04vals\x18\x13 \x03(\v2\x14.vh.p3.WKT.ValsEntryR\x04vals\x12,\n" +
	"\x03tss\x18\x14 \x03(\v2\x1a.google.protobuf.TimestampR\x03tss\x12%\n" +
	"\x03sts\x18\x15 \x03(\v2\x13.vh.p3.WKT.StsEntryR\x03sts\x12*\n" +
	"\x02nv\x18\x16 \x01(\x0e2\x1a.google.protobuf.NullValueR\x02nv\x12.\n" +
	"\x03svs\x18\x17 \x03(\v2\x1c.google.protobuf.StringValueR\x03svs\x1aO\n" +
	"\tValsEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12,\n" +
	"\x05value\x18\x02 \x01(\v2\x16.google.protobuf.ValueR\x05value:\x028\x01\x1aO\n" +
	"\bStsEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12-\n" +
	"\x05value\x18\x02 \x01(\v2\x17.google.protobuf.StructR\x05value:\x028\x01\"-\n" +
	"\x03Old\x12\x18\n" +
	"\abetween\x18( \x01(\tR\abetween\x12\f\n" +
	"\x01f\x18\x03 \x03(\x05R\x01f\"\xdb\x02\n" +
	"\x05State\x12\x14\n" +
	"\x05state\x18\x01 \x01(\tR\x05state\x12\x1d\n" +
	"\n" +
	"size_cache\x18\x02 \x01(\x05R\tsizeCache\x12%\n" +
	"\x0eunknown_fields\x18\x03 \x01(\fR\runknownFields\x12\x14\n" +
	"\x05reset\x18\x04 \x03(\tR\x05reset\x12C\n" +
	"\rproto_message\x18\x05 \x03(\v2\x1e.vh.p3.State.ProtoMessageEntryR\fprotoMessage\x12\x12\n" +
	"\x05x_x_x\x18\x06 \x01(\x05R\x03xXX\x12\x1b\n" +
	"\x06string\x18\a \x01(\bH\x00R\x06string\x88\x01\x01\x12\x1e\n" +
	"\n" +
	"descriptor\x18\b \x01(\x05R\n" +
	"descriptor\x1a?\n" +
	"\x11ProtoMessageEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01B\t\n" +
	"\a_string*i\n" +
	"\x05Color\x12\x0e\n" +
	"\n" +
	"COLOR_ZERO\x10\x00\x12\r\n" +
	"\tCOLOR_RED\x10\x01\x12\x16\n" +
	"\tCOLOR_NEG\x10\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x01\x12\x11\n" +
	"\tCOLOR_MAX\x10\xff\xff\xff\xff\a\x12\x16\n" +
	"\tCOLOR_MIN\x10\x80\x80\x80\x80\xf8\xff\xff\xff\xff\x01*-\n" +
	"\x05Alias\x12\n" +
	"\n" +
	"\x06A_ZERO\x10\x00\x12\t\n" +
	"\x05A_NIL\x10\x00\x12\t\n" +
	"\x05A_ONE\x10\x01\x1a\x02\x10\x01B\x10Z\x0evharness/pb/p3b\x06proto3"

var (
	file_p3_proto_rawDescOnce sync.Once
	file_p3_proto_rawDescData []byte
)

func file_p3_proto_rawDescGZIP() []byte {
	file_p3_proto_rawDescOnce.Do(func() {
		file_p3_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_p3_proto_rawDesc), len(file_p3_proto_rawDesc)))
	})
	return file_p3_proto_rawDescData
}

var file_p3_proto_enumTypes = make([]protoimpl.EnumInfo, 3)
var file_p3_proto_msgTypes = make([]protoimpl.MessageInfo, 106)
var file_p3_proto_goTypes = []any{
	(Color)(0),                     // 0: vh.p3.Color
	(Alias)(0),                     // 1: vh.p3.Alias
	(Tree_Inner_E)(0),              // 2: vh.p3.Tree.Inner.E
	(*Leaf)(nil),                   // 3: vh.p3.Leaf
	(*Empty)(nil),                  // 4: vh.p3.Empty
	(*Scalars)(nil),                // 5: vh.p3.Scalars
	(*Opt)(nil),                    // 6: vh.p3.Opt
	(*Rep)(nil),                    // 7: vh.p3.Rep
	(*RepUnpacked)(nil),            // 8: vh.p3.RepUnpacked
	(*One)(nil),                    // 9: vh.p3.One
	(*MapKeys)(nil),                // 10: vh.p3.MapKeys
	(*MapVals)(nil),                // 11: vh.p3.MapVals
	(*Tree)(nil),                   // 12: vh.p3.Tree
	(*WKT)(nil),                    // 13: vh.p3.WKT
	(*Old)(nil),                    // 14: vh.p3.Old
	(*State)(nil),                  // 15: vh.p3.State
	nil,                            // 16: vh.p3.MapKeys.AInt32Entry
	nil,                            // 17: vh.p3.MapKeys.AInt64Entry
	nil,                            // 18: vh.p3.MapKeys.AUint32Entry
	nil,                            // 19: vh.p3.MapKeys.AUint64Entry
	nil,                            // 20: vh.p3.MapKeys.ASint32Entry
	nil,                            // 21: vh.p3.MapKeys.ASint64Entry
	nil,                            // 22: vh.p3.MapKeys.AFixed32Entry
	nil,                            // 23: vh.p3.MapKeys.AFixed64Entry
	nil,                            // 24: vh.p3.MapKeys.ASfixed32Entry
	nil,                            // 25: vh.p3.MapKeys.ASfixed64Entry
	nil,                            // 26: vh.p3.MapKeys.ABoolEntry
	nil,                            // 27: vh.p3.MapKeys.AStringEntry
	nil,                            // 28: vh.p3.MapKeys.BInt32Entry
	nil,                            // 29: vh.p3.MapKeys.BInt64Entry
	nil,                            // 30: vh.p3.MapKeys.BUint32Entry
	nil,                            // 31: vh.p3.MapKeys.BUint64Entry
	nil,                            // 32: vh.p3.MapKeys.BSint32Entry
	nil,                            // 33: vh.p3.MapKeys.BSint64Entry
	nil,                            // 34: vh.p3.MapKeys.BFixed32Entry
	nil,                            // 35: vh.p3.MapKeys.BFixed64Entry
	nil,                            // 36: vh.p3.MapKeys.BSfixed32Entry
	nil,                            // 37: vh.p3.MapKeys.BSfixed64Entry
	nil,                            // 38: vh.p3.MapKeys.BBoolEntry
	nil,                            // 39: vh.p3.MapKeys.BStringEntry
	nil,                            // 40: vh.p3.MapKeys.CInt32Entry
	nil,                            // 41: vh.p3.MapKeys.CInt64Entry
	nil,                            // 42: vh.p3.MapKeys.CUint32Entry
	nil,                            // 43: vh.p3.MapKeys.CUint64Entry
	nil,                            // 44: vh.p3.MapKeys.CSint32Entry
	nil,                            // 45: vh.p3.MapKeys.CSint64Entry
	nil,                            // 46: vh.p3.MapKeys.CFixed32Entry
	nil,                            // 47: vh.p3.MapKeys.CFixed64Entry
	nil,                            // 48: vh.p3.MapKeys.CSfixed32Entry
	nil,                            // 49: vh.p3.MapKeys.CSfixed64Entry
	nil,                            // 50: vh.p3.MapKeys.CBoolEntry
	nil,                            // 51: vh.p3.MapKeys.CStringEntry
	nil,                            // 52: vh.p3.MapVals.ADoubleEntry
	nil,                            // 53: vh.p3.MapVals.AFloatEntry
	nil,                            // 54: vh.p3.MapVals.AInt32Entry
	nil,                            // 55: vh.p3.MapVals.AInt64Entry
	nil,                            // 56: vh.p3.MapVals.AUint32Entry
	nil,                            // 57: vh.p3.MapVals.AUint64Entry
	nil,                            // 58: vh.p3.MapVals.ASint32Entry
	nil,                            // 59: vh.p3.MapVals.ASint64Entry
	nil,                            // 60: vh.p3.MapVals.AFixed32Entry
	nil,                            // 61: vh.p3.MapVals.AFixed64Entry
	nil,                            // 62: vh.p3.MapVals.ASfixed32Entry
	nil,                            // 63: vh.p3.MapVals.ASfixed64Entry
	nil,                            // 64: vh.p3.MapVals.ABoolEntry
	nil,                            // 65: vh.p3.MapVals.AStringEntry
	nil,                            // 66: vh.p3.MapVals.ABytesEntry
	nil,                            // 67: vh.p3.MapVals.AColorEntry
	nil,                            // 68: vh.p3.MapVals.ALeafEntry
	nil,                            // 69: vh.p3.MapVals.BDoubleEntry
	nil,                            // 70: vh.p3.MapVals.BFloatEntry
	nil,                            // 71: vh.p3.MapVals.BInt32Entry
	nil,                            // 72: vh.p3.MapVals.BInt64Entry
	nil,                            // 73: vh.p3.MapVals.BUint32Entry
	nil,                            // 74: vh.p3.MapVals.BUint64Entry
	nil,                            // 75: vh.p3.MapVals.BSint32Entry
	nil,                            // 76: vh.p3.MapVals.BSint64Entry
	nil,                            // 77: vh.p3.MapVals.BFixed32Entry
	nil,                            // 78: vh.p3.MapVals.BFixed64Entry
	nil,                            // 79: vh.p3.MapVals.BSfixed32Entry
	nil,                            // 80: vh.p3.MapVals.BSfixed64Entry
	nil,                            // 81: vh.p3.MapVals.BBoolEntry
	nil,                            // 82: vh.p3.MapVals.BStringEntry
	nil,                            // 83: vh.p3.MapVals.BBytesEntry
	nil,                            // 84: vh.p3.MapVals.BColorEntry
	nil,                            // 85: vh.p3.MapVals.BLeafEntry
	nil,                            // 86: vh.p3.MapVals.CDoubleEntry
	nil,                            // 87: vh.p3.MapVals.CFloatEntry
	nil,                            // 88: vh.p3.MapVals.CInt32Entry
	nil,                            // 89: vh.p3.MapVals.CInt64Entry
	nil,                            // 90: vh.p3.MapVals.CUint32Entry
	nil,                            // 91: vh.p3.MapVals.CUint64Entry
	nil,                            // 92: vh.p3.MapVals.CSint32Entry
	nil,                            // 93: vh.p3.MapVals.CSint64Entry
	nil,                            // 94: vh.p3.MapVals.CFixed32Entry
	nil,                            // 95: vh.p3.MapVals.CFixed64Entry
	nil,                            // 96: vh.p3.MapVals.CSfixed32Entry
	nil,                            // 97: vh.p3.MapVals.CSfixed64Entry
	nil,                            // 98: vh.p3.MapVals.CBoolEntry
	nil,                            // 99: vh.p3.MapVals.CStringEntry
	nil,                            // 100: vh.p3.MapVals.CBytesEntry
	nil,                            // 101: vh.p3.MapVals.CColorEntry
	nil,                            // 102: vh.p3.MapVals.CLeafEntry
	(*Tree_Inner)(nil),             // 103: vh.p3.Tree.Inner
	nil,                            // 104: vh.p3.Tree.ByIdEntry
	(*Tree_Inner_Deep)(nil),        // 105: vh.p3.Tree.Inner.Deep
	nil,                            // 106: vh.p3.WKT.ValsEntry
	nil,                            // 107: vh.p3.WKT.StsEntry
	nil,                            // 108: vh.p3.State.ProtoMessageEntry
	(*timestamppb.Timestamp)(nil),  // 109: google.protobuf.Timestamp
	(*anypb.Any)(nil),              // 110: google.protobuf.Any
	(*durationpb.Duration)(nil),    // 111: google.protobuf.Duration
	(*structpb.Struct)(nil),        // 112: google.protobuf.Struct
	(*structpb.Value)(nil),         // 113: google.protobuf.Value
	(*structpb.ListValue)(nil),     // 114: google.protobuf.ListValue
	(*fieldmaskpb.FieldMask)(nil),  // 115: google.protobuf.FieldMask
	(*emptypb.Empty)(nil),          // 116: google.protobuf.Empty
	(*wrapperspb.DoubleValue)(nil), // 117: google.protobuf.DoubleValue
	(*wrapperspb.FloatValue)(nil),  // 118: google.protobuf.FloatValue
	(*wrapperspb.Int64Value)(nil),  // 119: google.protobuf.Int64Value
	(*wrapperspb.UInt64Value)(nil), // 120: google.protobuf.UInt64Value
	(*wrapperspb.Int32Value)(nil),  // 121: google.protobuf.Int32Value
	(*wrapperspb.UInt32Value)(nil), // 122: google.protobuf.UInt32Value
	(*wrapperspb.BoolValue)(nil),   // 123: google.protobuf.BoolValue
	(*wrapperspb.StringValue)(nil), // 124: google.protobuf.StringValue
	(*wrapperspb.BytesValue)(nil),  // 125: google.protobuf.BytesValue
	(structpb.NullValue)(0),        // 126: google.protobuf.NullValue
}
var file_p3_proto_depIdxs = []int32{
	0,   // 0: vh.p3.Scalars.f_color:type_name -> vh.p3.Color
	0,   // 1: vh.p3.Opt.f_color:type_name -> vh.p3.Color
	3,   // 2: vh.p3.Opt.f_leaf:type_name -> vh.p3.Leaf
	0,   // 3: vh.p3.Rep.f_color:type_name -> vh.p3.Color
	3,   // 4: vh.p3.Rep.f_leaf:type_name -> vh.p3.Leaf
	0,   // 5: vh.p3.RepUnpacked.f_color:type_name -> vh.p3.Color
	3,   // 6: vh.p3.RepUnpacked.f_leaf:type_name -> vh.p3.Leaf
	0,   // 7: vh.p3.One.u_color:type_name -> vh.p3.Color
	3,   // 8: vh.p3.One.u_leaf:type_name -> vh.p3.Leaf
	9,   // 9: vh.p3.One.rec:type_name -> vh.p3.One
	109, // 10: vh.p3.One.ts:type_name -> google.protobuf.Timestamp
	1,   // 11: vh.p3.One.al:type_name -> vh.p3.Alias
	16,  // 12: vh.p3.MapKeys.a_int32:type_name -> vh.p3.MapKeys.AInt32Entry
	17,  // 13: vh.p3.MapKeys.a_int64:type_name -> vh.p3.MapKeys.AInt64Entry
	18,  // 14: vh.p3.MapKeys.a_uint32:type_name -> vh.p3.MapKeys.AUint32Entry
	19,  // 15: vh.p3.MapKeys.a_uint64:type_name -> vh.p3.MapKeys.AUint64Entry
	20,  // 16: vh.p3.MapKeys.a_sint32:type_name -> vh.p3.MapKeys.ASint32Entry
	21,  // 17: vh.p3.MapKeys.a_sint64:type_name -> vh.p3.MapKeys.ASint64Entry
	22,  // 18: vh.p3.MapKeys.a_fixed32:type_name -> vh.p3.MapKeys.AFixed32Entry
	23,  // 19: vh.p3.MapKeys.a_fixed64:type_name -> vh.p3.MapKeys.AFixed64Entry
	24,  // 20: vh.p3.MapKeys.a_sfixed32:type_name -> vh.p3.MapKeys.ASfixed32Entry
	25,  // 21: vh.p3.MapKeys.a_sfixed64:type_name -> vh.p3.MapKeys.ASfixed64Entry
	26,  // 22: vh.p3.MapKeys.a_bool:type_name -> vh.p3.MapKeys.ABoolEntry
	27,  // 23: vh.p3.MapKeys.a_string:type_name -> vh.p3.MapKeys.AStringEntry
	28,  // 24: vh.p3.MapKeys.b_int32:type_name -> vh.p3.MapKeys.BInt32Entry
	29,  // 25: vh.p3.MapKeys.b_int64:type_name -> vh.p3.MapKeys.BInt64Entry
	30,  // 26: vh.p3.MapKeys.b_uint32:type_name -> vh.p3.MapKeys.BUint32Entry
	31,  // 27: vh.p3.MapKeys.b_uint64:type_name -> vh.p3.MapKeys.BUint64Entry
	32,  // 28: vh.p3.MapKeys.b_sint32:type_name -> vh.p3.MapKeys.BSint32Entry
	33,  // 29: vh.p3.MapKeys.b_sint64:type_name -> vh.p3.MapKeys.BSint64Entry
	34,  // 30: vh.p3.MapKeys.b_fixed32:type_name -> vh.p3.MapKeys.BFixed32Entry
	35,  // 31: vh.p3.MapKeys.b_fixed64:type_name -> vh.p3.MapKeys.BFixed64Entry
	36,  // 32: vh.p3.MapKeys.b_sfixed32:type_name -> vh.p3.MapKeys.BSfixed32Entry
	37,  // 33: vh.p3.MapKeys.b_sfixed64:type_name -> vh.p3.MapKeys.BSfixed64Entry
	38,  // 34: vh.p3.MapKeys.b_bool:type_name -> vh.p3.MapKeys.BBoolEntry
	39,  // 35: vh.p3.MapKeys.b_string:type_name -> vh.p3.MapKeys.BStringEntry
	40,  // 36: vh.p3.MapKeys.c_int32:type_name -> vh.p3.MapKeys.CInt32Entry
	41,  // 37: vh.p3.MapKeys.c_int64:type_name -> vh.p3.MapKeys.CInt64Entry
	42,  // 38: vh.p3.MapKeys.c_uint32:type_name -> vh.p3.MapKeys.CUint32Entry
	43,  // 39: vh.p3.MapKeys.c_uint64:type_name -> vh.p3.MapKeys.CUint64Entry
	44,  // 40: vh.p3.MapKeys.c_sint32:type_name -> vh.p3.MapKeys.CSint32Entry
	45,  // 41: vh.p3.MapKeys.c_sint64:type_name -> vh.p3.MapKeys.CSint64Entry
	46,  // 42: vh.p3.MapKeys.c_fixed32:type_name -> vh.p3.MapKeys.CFixed32Entry
	47,  // 43: vh.p3.MapKeys.c_fixed64:type_name -> vh.p3.MapKeys.CFixed64Entry
	48,  // 44: vh.p3.MapKeys.c_sfixed32:type_name -> vh.p3.MapKeys.CSfixed32Entry
	49,  // 45: vh.p3.MapKeys.c_sfixed64:type_name -> vh.p3.MapKeys.CSfixed64Entry
	50,  // 46: vh.p3.MapKeys.c_bool:type_name -> vh.p3.MapKeys.CBoolEntry
	51,  // 47: vh.p3.MapKeys.c_string:type_name -> vh.p3.MapKeys.CStringEntry
	52,  // 48: vh.p3.MapVals.a_double:type_name -> vh.p3.MapVals.ADoubleEntry
	53,  // 49: vh.p3.MapVals.a_float:type_name -> vh.p3.MapVals.AFloatEntry
	54,  // 50: vh.p3.MapVals.a_int32:type_name -> vh.p3.MapVals.AInt32Entry
	55,  // 51: vh.p3.MapVals.a_int64:type_name -> vh.p3.MapVals.AInt64Entry
	56,  // 52: vh.p3.MapVals.a_uint32:type_name -> vh.p3.MapVals.AUint32Entry
	57,  // 53: vh.p3.MapVals.a_uint64:type_name -> vh.p3.MapVals.AUint64Entry
	58,  // 54: vh.p3.MapVals.a_sint32:type_name -> vh.p3.MapVals.ASint32Entry
	59,  // 55: vh.p3.MapVals.a_sint64:type_name -> vh.p3.MapVals.ASint64Entry
	60,  // 56: vh.p3.MapVals.a_fixed32:type_name -> vh.p3.MapVals.AFixed32Entry
	61,  // 57: vh.p3.MapVals.a_fixed64:type_name -> vh.p3.MapVals.AFixed64Entry
	62,  // 58: vh.p3.MapVals.a_sfixed32:type_name -> vh.p3.MapVals.ASfixed32Entry
	63,  // 59: vh.p3.MapVals.a_sfixed64:type_name -> vh.p3.MapVals.ASfixed64Entry
	64,  // 60: vh.p3.MapVals.a_bool:type_name -> vh.p3.MapVals.ABoolEntry
	65,  // 61: vh.p3.MapVals.a_string:type_name -> vh.p3.MapVals.AStringEntry
	66,  // 62: vh.p3.MapVals.a_bytes:type_name -> vh.p3.MapVals.ABytesEntry
	67,  // 63: vh.p3.MapVals.a_color:type_name -> vh.p3.MapVals.AColorEntry
	68,  // 64: vh.p3.MapVals.a_leaf:type_name -> vh.p3.MapVals.ALeafEntry
	69,  // 65: vh.p3.MapVals.b_double:type_name -> vh.p3.MapVals.BDoubleEntry
	70,  // 66: vh.p3.MapVals.b_float:type_name -> vh.p3.MapVals.BFloatEntry
	71,  // 67: vh.p3.MapVals.b_int32:type_name -> vh.p3.MapVals.BInt32Entry
	72,  // 68: vh.p3.MapVals.b_int64:type_name -> vh.p3.MapVals.BInt64Entry
	73,  // 69: vh.p3.MapVals.b_uint32:type_name -> vh.p3.MapVals.BUint32Entry
	74,  // 70: vh.p3.MapVals.b_uint64:type_name -> vh.p3.MapVals.BUint64Entry
	75,  // 71: vh.p3.MapVals.b_sint32:type_name -> vh.p3.MapVals.BSint32Entry
	76,  // 72: vh.p3.MapVals.b_sint64:type_name -> vh.p3.MapVals.BSint64Entry
	77,  // 73: vh.p3.MapVals.b_fixed32:type_name -> vh.p3.MapVals.BFixed32Entry
	78,  // 74: vh.p3.MapVals.b_fixed64:type_name -> vh.p3.MapVals.BFixed64Entry
	79,  // 75: vh.p3.MapVals.b_sfixed32:type_name -> vh.p3.MapVals.BSfixed32Entry
	80,  // 76: vh.p3.MapVals.b_sfixed64:type_name -> vh.p3.MapVals.BSfixed64Entry
	81,  // 77: vh.p3.MapVals.b_bool:type_name -> vh.p3.MapVals.BBoolEntry
	82,  // 78: vh.p3.MapVals.b_string:type_name -> vh.p3.MapVals.BStringEntry
	83,  // 79: vh.p3.MapVals.b_bytes:type_name -> vh.p3.MapVals.BBytesEntry
	84,  // 80: vh.p3.MapVals.b_color:type_name -> vh.p3.MapVals.BColorEntry
	85,  // 81: vh.p3.MapVals.b_leaf:type_name -> vh.p3.MapVals.BLeafEntry
	86,  // 82: vh.p3.MapVals.c_double:type_name -> vh.p3.MapVals.CDoubleEntry
	87,  // 83: vh.p3.MapVals.c_float:type_name -> vh.p3.MapVals.CFloatEntry
	88,  // 84: vh.p3.MapVals.c_int32:type_name -> vh.p3.MapVals.CInt32Entry
	89,  // 85: vh.p3.MapVals.c_int64:type_name -> vh.p3.MapVals.CInt64Entry
	90,  // 86: vh.p3.MapVals.c_uint32:type_name -> vh.p3.MapVals.CUint32Entry
	91,  // 87: vh.p3.MapVals.c_uint64:type_name -> vh.p3.MapVals.CUint64Entry
	92,  // 88: vh.p3.MapVals.c_sint32:type_name -> vh.p3.MapVals.CSint32Entry
	93,  // 89: vh.p3.MapVals.c_sint64:type_name -> vh.p3.MapVals.CSint64Entry
	94,  // 90: vh.p3.MapVals.c_fixed32:type_name -> vh.p3.MapVals.CFixed32Entry
	95,  // 91: vh.p3.MapVals.c_fixed64:type_name -> vh.p3.MapVals.CFixed64Entry
	96,  // 92: vh.p3.MapVals.c_sfixed32:type_name -> vh.p3.MapVals.CSfixed32Entry
	97,  // 93: vh.p3.MapVals.c_sfixed64:type_name -> vh.p3.MapVals.CSfixed64Entry
	98,  // 94: vh.p3.MapVals.c_bool:type_name -> vh.p3.MapVals.CBoolEntry
	99,  // 95: vh.p3.MapVals.c_string:type_name -> vh.p3.MapVals.CStringEntry
	100, // 96: vh.p3.MapVals.c_bytes:type_name -> vh.p3.MapVals.CBytesEntry
	101, // 97: vh.p3.MapVals.c_color:type_name -> vh.p3.MapVals.CColorEntry
	102, // 98: vh.p3.MapVals.c_leaf:type_name -> vh.p3.MapVals.CLeafEntry
	12,  // 99: vh.p3.Tree.left:type_name -> vh.p3.Tree
	12,  // 100: vh.p3.Tree.kids:type_name -> vh.p3.Tree
	104, // 101: vh.p3.Tree.by_id:type_name -> vh.p3.Tree.ByIdEntry
	12,  // 102: vh.p3.Tree.child:type_name -> vh.p3.Tree
	103, // 103: vh.p3.Tree.inner:type_name -> vh.p3.Tree.Inner
	110, // 104: vh.p3.WKT.any:type_name -> google.protobuf.Any
	110, // 105: vh.p3.WKT.anys:type_name -> google.protobuf.Any
	109, // 106: vh.p3.WKT.ts:type_name -> google.protobuf.Timestamp
	111, // 107: vh.p3.WKT.dur:type_name -> google.protobuf.Duration
	112, // 108: vh.p3.WKT.st:type_name -> google.protobuf.Struct
	113, // 109: vh.p3.WKT.val:type_name -> google.protobuf.Value
	114, // 110: vh.p3.WKT.lv:type_name -> google.protobuf.ListValue
	115, // 111: vh.p3.WKT.fm:type_name -> google.protobuf.FieldMask
	116, // 112: vh.p3.WKT.em:type_name -> google.protobuf.Empty
	117, // 113: vh.p3.WKT.w1:type_name -> google.protobuf.DoubleValue
	118, // 114: vh.p3.WKT.w2:type_name -> google.protobuf.FloatValue
	119, // 115: vh.p3.WKT.w3:type_name -> google.protobuf.Int64Value
	120, // 116: vh.p3.WKT.w4:type_name -> google.protobuf.UInt64Value
	121, // 117: vh.p3.WKT.w5:type_name -> google.protobuf.Int32Value
	122, // 118: vh.p3.WKT.w6:type_name -> google.protobuf.UInt32Value
	123, // 119: vh.p3.WKT.w7:type_name -> google.protobuf.BoolValue
	124, // 120: vh.p3.WKT.w8:type_name -> google.protobuf.StringValue
	125, // 121: vh.p3.WKT.w9:type_name -> google.protobuf.BytesValue
	106, // 122: vh.p3.WKT.vals:type_name -> vh.p3.WKT.ValsEntry
	109, // 123: vh.p3.WKT.tss:type_name -> google.protobuf.Timestamp
	107, // 124: vh.p3.WKT.sts:type_name -> vh.p3.WKT.StsEntry
	126, // 125: vh.p3.WKT.nv:type_name -> google.protobuf.NullValue
	124, // 126: vh.p3.WKT.svs:type_name -> google.protobuf.StringValue
	108, // 127: vh.p3.State.proto_message:type_name -> vh.p3.State.ProtoMessageEntry
	3,   // 128: vh.p3.MapKeys.BInt32Entry.value:type_name -> vh.p3.Leaf
	3,   // 129: vh.p3.MapKeys.BInt64Entry.value:type_name -> vh.p3.Leaf
	3,   // 130: vh.p3.MapKeys.BUint32Entry.value:type_name -> vh.p3.Leaf
	3,   // 131: vh.p3.MapKeys.BUint64Entry.value:type_name -> vh.p3.Leaf
	3,   // 132: vh.p3.MapKeys.BSint32Entry.value:type_name -> vh.p3.Leaf
	3,   // 133: vh.p3.MapKeys.BSint64Entry.value:type_name -> vh.p3.Leaf
	3,   // 134: vh.p3.MapKeys.BFixed32Entry.value:type_name -> vh.p3.Leaf
	3,   // 135: vh.p3.MapKeys.BFixed64Entry.value:type_name -> vh.p3.Leaf
	3,   // 136: vh.p3.MapKeys.BSfixed32Entry.value:type_name -> vh.p3.Leaf
	3,   // 137: vh.p3.MapKeys.BSfixed64Entry.value:type_name -> vh.p3.Leaf
	3,   // 138: vh.p3.MapKeys.BBoolEntry.value:type_name -> vh.p3.Leaf
	3,   // 139: vh.p3.MapKeys.BStringEntry.value:type_name -> vh.p3.Leaf
	0,   // 140: vh.p3.MapVals.AColorEntry.value:type_name -> vh.p3.Color
	3,   // 141: vh.p3.MapVals.ALeafEntry.value:type_name -> vh.p3.Leaf
	0,   // 142: vh.p3.MapVals.BColorEntry.value:type_name -> vh.p3.Color
	3,   // 143: vh.p3.MapVals.BLeafEntry.value:type_name -> vh.p3.Leaf
	0,   // 144: vh.p3.MapVals.CColorEntry.value:type_name -> vh.p3.Color
	3,   // 145: vh.p3.MapVals.CLeafEntry.value:type_name -> vh.p3.Leaf
	105, // 146: vh.p3.Tree.Inner.deep:type_name -> vh.p3.Tree.Inner.Deep
	105, // 147: vh.p3.Tree.Inner.deeps:type_name -> vh.p3.Tree.Inner.Deep
	2,   // 148: vh.p3.Tree.Inner.e:type_name -> vh.p3.Tree.Inner.E
	2,   // 149: vh.p3.Tree.Inner.es:type_name -> vh.p3.Tree.Inner.E
	12,  // 150: vh.p3.Tree.Inner.tree:type_name -> vh.p3.Tree
	12,  // 151: vh.p3.Tree.ByIdEntry.value:type_name -> vh.p3.Tree
	0,   // 152: vh.p3.Tree.Inner.Deep.c:type_name -> vh.p3.Color
	103, // 153: vh.p3.Tree.Inner.Deep.back:type_name -> vh.p3.Tree.Inner
	113, // 154: vh.p3.WKT.ValsEntry.value:type_name -> google.protobuf.Value
	112, // 155: vh.p3.WKT.StsEntry.value:type_name -> google.protobuf.Struct
	156, // [156:156] is the sub-list for method output_type
	156, // [156:156] is the sub-list for method input_type
	156, // [156:156] is the sub-list for extension type_name
	156, // [156:156] is the sub-list for extension extendee
	0,   // [0:156] is the sub-list for field type_name
}

func init() { file_p3_proto_init() }
func file_p3_proto_init() {
	if File_p3_proto != nil {
		return
	}
	file_p3_proto_msgTypes[3].OneofWrappers = []any{}
	file_p3_proto_msgTypes[6].OneofWrappers = []any{
		(*One_UDouble)(nil),
		(*One_UFloat)(nil),
		(*One_UInt32)(nil),
		(*One_UInt64)(nil),
		(*One_UUint32)(nil),
		(*One_UUint64)(nil),
		(*One_USint32)(nil),
		(*One_USint64)(nil),
		(*One_UFixed32)(nil),
		(*One_UFixed64)(nil),
		(*One_USfixed32)(nil),
		(*One_USfixed64)(nil),
		(*One_UBool)(nil),
		(*One_UString)(nil),
		(*One_UBytes)(nil),
		(*One_UColor)(nil),
		(*One_ULeaf)(nil),
		(*One_Rec)(nil),
		(*One_Ts)(nil),
		(*One_S2)(nil),
		(*One_Al)(nil),
	}
	file_p3_proto_msgTypes[9].OneofWrappers = []any{
		(*Tree_Child)(nil),
		(*Tree_Inner_)(nil),
	}
	file_p3_proto_msgTypes[12].OneofWrappers = []any{}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_p3_proto_rawDesc), len(file_p3_proto_rawDesc)),
			NumEnums:      3,
			NumMessages:   106,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_p3_proto_goTypes,
		DependencyIndexes: file_p3_proto_depIdxs,
		EnumInfos:         file_p3_proto_enumTypes,
		MessageInfos:      file_p3_proto_msgTypes,
	}.Build()
	File_p3_proto = out.File
	file_p3_proto_goTypes = nil
	file_p3_proto_depIdxs = nil
}
