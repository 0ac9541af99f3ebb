// Code generated by prutalgen. DO NOT EDIT.
// /tmp/prutalgen -I /tmp/gp -gen_getter --go_out=/tmp/gp/out /tmp/gp/p3.proto

package gp3

import (
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"strconv"
)

type Color int32

const (
	Color_COLOR_ZERO Color = 0
	Color_COLOR_RED  Color = 1
	Color_COLOR_NEG  Color = -3
	Color_COLOR_MAX  Color = 2147483647
	Color_COLOR_MIN  Color = -2147483648
)

// Enum value maps for Color.
var Color_name = map[int32]string{
	0:           "COLOR_ZERO",
	1:           "COLOR_RED",
	-3:          "COLOR_NEG",
	2147483647:  "COLOR_MAX",
	-2147483648: "COLOR_MIN",
}

var Color_value = map[string]int32{
	"COLOR_ZERO": 0,
	"COLOR_RED":  1,
	"COLOR_NEG":  -3,
	"COLOR_MAX":  2147483647,
	"COLOR_MIN":  -2147483648,
}

func (x Color) String() string {
	s, ok := Color_name[int32(x)]
	if ok {
		return s
	}
	return strconv.Itoa(int(x))
}

type Alias int32

const (
	Alias_A_ZERO Alias = 0
	Alias_A_NIL  Alias = 0
	Alias_A_ONE  Alias = 1
)

// Enum value maps for Alias.
var Alias_name = map[int32]string{
	0: "A_ZERO",
	1: "A_ONE",
}

var Alias_value = map[string]int32{
	"A_ZERO": 0,
	"A_NIL":  0,
	"A_ONE":  1,
}

func (x Alias) String() string {
	s, ok := Alias_name[int32(x)]
	if ok {
		return s
	}
	return strconv.Itoa(int(x))
}

type Tree_Inner_E int32

const (
	Tree_Inner_Z Tree_Inner_E = 0
	Tree_Inner_Y Tree_Inner_E = 5
)

// Enum value maps for Tree_Inner_E.
var Tree_Inner_E_name = map[int32]string{
	0: "Z",
	5: "Y",
}

var Tree_Inner_E_value = map[string]int32{
	"Z": 0,
	"Y": 5,
}

func (x Tree_Inner_E) String() string {
	s, ok := Tree_Inner_E_name[int32(x)]
	if ok {
		return s
	}
	return strconv.Itoa(int(x))
}

type Leaf struct {
	A int32  `protobuf:"varint,1,opt,name=a" json:"a,omitempty"`
	B string `protobuf:"bytes,2,opt,name=b" json:"b,omitempty"`
	C []byte `protobuf:"bytes,3,opt,name=c" json:"c,omitempty"`
}

func (x *Leaf) Reset() { *x = Leaf{} }

func (x *Leaf) GetA() int32 {
	if x != nil {
		return x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil {
		return x.B
	}
	return ""
}

func (x *Leaf) GetC() []byte {
	if x != nil {
		return x.C
	}
	return nil
}

type Empty struct {
}

func (x *Empty) Reset() { *x = Empty{} }

type Scalars struct {
	FDouble   float64 `protobuf:"fixed64,1,opt,name=f_double" json:"f_double,omitempty"`
	FFloat    float32 `protobuf:"fixed32,4,opt,name=f_float" json:"f_float,omitempty"`
	FInt32    int32   `protobuf:"varint,7,opt,name=f_int32" json:"f_int32,omitempty"`
	FInt64    int64   `protobuf:"varint,10,opt,name=f_int64" json:"f_int64,omitempty"`
	FUint32   uint32  `protobuf:"varint,13,opt,name=f_uint32" json:"f_uint32,omitempty"`
	FUint64   uint64  `protobuf:"varint,16,opt,name=f_uint64" json:"f_uint64,omitempty"`
	FSint32   int32   `protobuf:"zigzag32,19,opt,name=f_sint32" json:"f_sint32,omitempty"`
	FSint64   int64   `protobuf:"zigzag64,22,opt,name=f_sint64" json:"f_sint64,omitempty"`
	FFixed32  uint32  `protobuf:"fixed32,25,opt,name=f_fixed32" json:"f_fixed32,omitempty"`
	FFixed64  uint64  `protobuf:"fixed64,28,opt,name=f_fixed64" json:"f_fixed64,omitempty"`
	FSfixed32 int32   `protobuf:"fixed32,31,opt,name=f_sfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64 int64   `protobuf:"fixed64,34,opt,name=f_sfixed64" json:"f_sfixed64,omitempty"`
	FBool     bool    `protobuf:"varint,37,opt,name=f_bool" json:"f_bool,omitempty"`
	FString   string  `protobuf:"bytes,40,opt,name=f_string" json:"f_string,omitempty"`
	FBytes    []byte  `protobuf:"bytes,43,opt,name=f_bytes" json:"f_bytes,omitempty"`
	FColor    Color   `protobuf:"varint,46,opt,name=f_color" json:"f_color,omitempty"`
}

func (x *Scalars) Reset() { *x = Scalars{} }

func (x *Scalars) GetFDouble() float64 {
	if x != nil {
		return x.FDouble
	}
	return 0
}

func (x *Scalars) GetFFloat() float32 {
	if x != nil {
		return x.FFloat
	}
	return 0
}

func (x *Scalars) GetFInt32() int32 {
	if x != nil {
		return x.FInt32
	}
	return 0
}

func (x *Scalars) GetFInt64() int64 {
	if x != nil {
		return x.FInt64
	}
	return 0
}

func (x *Scalars) GetFUint32() uint32 {
	if x != nil {
		return x.FUint32
	}
	return 0
}

func (x *Scalars) GetFUint64() uint64 {
	if x != nil {
		return x.FUint64
	}
	return 0
}

func (x *Scalars) GetFSint32() int32 {
	if x != nil {
		return x.FSint32
	}
	return 0
}

func (x *Scalars) GetFSint64() int64 {
	if x != nil {
		return x.FSint64
	}
	return 0
}

func (x *Scalars) GetFFixed32() uint32 {
	if x != nil {
		return x.FFixed32
	}
	return 0
}

func (x *Scalars) GetFFixed64() uint64 {
	if x != nil {
		return x.FFixed64
	}
	return 0
}

func (x *Scalars) GetFSfixed32() int32 {
	if x != nil {
		return x.FSfixed32
	}
	return 0
}

func (x *Scalars) GetFSfixed64() int64 {
	if x != nil {
		return x.FSfixed64
	}
	return 0
}

func (x *Scalars) GetFBool() bool {
	if x != nil {
		return x.FBool
	}
	return false
}

func (x *Scalars) GetFString() string {
	if x != nil {
		return x.FString
	}
	return ""
}

func (x *Scalars) GetFBytes() []byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Scalars) GetFColor() Color {
	if x != nil {
		return x.FColor
	}
	return Color_COLOR_ZERO
}

type Opt struct {
	FDouble   *float64 `protobuf:"fixed64,1,opt,name=f_double" json:"f_double,omitempty"`
	FFloat    *float32 `protobuf:"fixed32,15,opt,name=f_float" json:"f_float,omitempty"`
	FInt32    *int32   `protobuf:"varint,16,opt,name=f_int32" json:"f_int32,omitempty"`
	FInt64    *int64   `protobuf:"varint,2047,opt,name=f_int64" json:"f_int64,omitempty"`
	FUint32   *uint32  `protobuf:"varint,2048,opt,name=f_uint32" json:"f_uint32,omitempty"`
	FUint64   *uint64  `protobuf:"varint,262143,opt,name=f_uint64" json:"f_uint64,omitempty"`
	FSint32   *int32   `protobuf:"zigzag32,262144,opt,name=f_sint32" json:"f_sint32,omitempty"`
	FSint64   *int64   `protobuf:"zigzag64,536870911,opt,name=f_sint64" json:"f_sint64,omitempty"`
	FFixed32  *uint32  `protobuf:"fixed32,19,opt,name=f_fixed32" json:"f_fixed32,omitempty"`
	FFixed64  *uint64  `protobuf:"fixed64,20,opt,name=f_fixed64" json:"f_fixed64,omitempty"`
	FSfixed32 *int32   `protobuf:"fixed32,21,opt,name=f_sfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64 *int64   `protobuf:"fixed64,22,opt,name=f_sfixed64" json:"f_sfixed64,omitempty"`
	FBool     *bool    `protobuf:"varint,23,opt,name=f_bool" json:"f_bool,omitempty"`
	FString   *string  `protobuf:"bytes,24,opt,name=f_string" json:"f_string,omitempty"`
	FBytes    []byte   `protobuf:"bytes,25,opt,name=f_bytes,oneof" json:"f_bytes,omitempty"`
	FColor    *Color   `protobuf:"varint,26,opt,name=f_color" json:"f_color,omitempty"`
	FLeaf     *Leaf    `protobuf:"bytes,27,opt,name=f_leaf" json:"f_leaf,omitempty"`
}

func (x *Opt) Reset() { *x = Opt{} }

func (x *Opt) GetFDouble() float64 {
	if x != nil && x.FDouble != nil {
		return *x.FDouble
	}
	return 0
}

func (x *Opt) GetFFloat() float32 {
	if x != nil && x.FFloat != nil {
		return *x.FFloat
	}
	return 0
}

func (x *Opt) GetFInt32() int32 {
	if x != nil && x.FInt32 != nil {
		return *x.FInt32
	}
	return 0
}

func (x *Opt) GetFInt64() int64 {
	if x != nil && x.FInt64 != nil {
		return *x.FInt64
	}
	return 0
}

func (x *Opt) GetFUint32() uint32 {
	if x != nil && x.FUint32 != nil {
		return *x.FUint32
	}
	return 0
}

func (x *Opt) GetFUint64() uint64 {
	if x != nil && x.FUint64 != nil {
		return *x.FUint64
	}
	return 0
}

func (x *Opt) GetFSint32() int32 {
	if x != nil && x.FSint32 != nil {
		return *x.FSint32
	}
	return 0
}

func (x *Opt) GetFSint64() int64 {
	if x != nil && x.FSint64 != nil {
		return *x.FSint64
	}
	return 0
}

func (x *Opt) GetFFixed32() uint32 {
	if x != nil && x.FFixed32 != nil {
		return *x.FFixed32
	}
	return 0
}

func (x *Opt) GetFFixed64() uint64 {
	if x != nil && x.FFixed64 != nil {
		return *x.FFixed64
	}
	return 0
}

func (x *Opt) GetFSfixed32() int32 {
	if x != nil && x.FSfixed32 != nil {
		return *x.FSfixed32
	}
	return 0
}

func (x *Opt) GetFSfixed64() int64 {
	if x != nil && x.FSfixed64 != nil {
		return *x.FSfixed64
	}
	return 0
}

func (x *Opt) GetFBool() bool {
	if x != nil && x.FBool != nil {
		return *x.FBool
	}
	return false
}

func (x *Opt) GetFString() string {
	if x != nil && x.FString != nil {
		return *x.FString
	}
	return ""
}

func (x *Opt) GetFBytes() []byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Opt) GetFColor() Color {
	if x != nil && x.FColor != nil {
		return *x.FColor
	}
	return Color_COLOR_ZERO
}

func (x *Opt) GetFLeaf() *Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

type Rep struct {
	FDouble   []float64 `protobuf:"fixed64,1,rep,packed,name=f_double" json:"f_double,omitempty"`
	FFloat    []float32 `protobuf:"fixed32,2,rep,packed,name=f_float" json:"f_float,omitempty"`
	FInt32    []int32   `protobuf:"varint,3,rep,packed,name=f_int32" json:"f_int32,omitempty"`
	FInt64    []int64   `protobuf:"varint,4,rep,packed,name=f_int64" json:"f_int64,omitempty"`
	FUint32   []uint32  `protobuf:"varint,5,rep,packed,name=f_uint32" json:"f_uint32,omitempty"`
	FUint64   []uint64  `protobuf:"varint,6,rep,packed,name=f_uint64" json:"f_uint64,omitempty"`
	FSint32   []int32   `protobuf:"zigzag32,7,rep,packed,name=f_sint32" json:"f_sint32,omitempty"`
	FSint64   []int64   `protobuf:"zigzag64,8,rep,packed,name=f_sint64" json:"f_sint64,omitempty"`
	FFixed32  []uint32  `protobuf:"fixed32,9,rep,packed,name=f_fixed32" json:"f_fixed32,omitempty"`
	FFixed64  []uint64  `protobuf:"fixed64,10,rep,packed,name=f_fixed64" json:"f_fixed64,omitempty"`
	FSfixed32 []int32   `protobuf:"fixed32,11,rep,packed,name=f_sfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64 []int64   `protobuf:"fixed64,12,rep,packed,name=f_sfixed64" json:"f_sfixed64,omitempty"`
	FBool     []bool    `protobuf:"varint,13,rep,packed,name=f_bool" json:"f_bool,omitempty"`
	FString   []string  `protobuf:"bytes,14,rep,name=f_string" json:"f_string,omitempty"`
	FBytes    [][]byte  `protobuf:"bytes,15,rep,name=f_bytes" json:"f_bytes,omitempty"`
	FColor    []Color   `protobuf:"varint,16,rep,packed,name=f_color" json:"f_color,omitempty"`
	FLeaf     []*Leaf   `protobuf:"bytes,17,rep,name=f_leaf" json:"f_leaf,omitempty"`
}

func (x *Rep) Reset() { *x = Rep{} }

func (x *Rep) GetFDouble() []float64 {
	if x != nil {
		return x.FDouble
	}
	return nil
}

func (x *Rep) GetFFloat() []float32 {
	if x != nil {
		return x.FFloat
	}
	return nil
}

func (x *Rep) GetFInt32() []int32 {
	if x != nil {
		return x.FInt32
	}
	return nil
}

func (x *Rep) GetFInt64() []int64 {
	if x != nil {
		return x.FInt64
	}
	return nil
}

func (x *Rep) GetFUint32() []uint32 {
	if x != nil {
		return x.FUint32
	}
	return nil
}

func (x *Rep) GetFUint64() []uint64 {
	if x != nil {
		return x.FUint64
	}
	return nil
}

func (x *Rep) GetFSint32() []int32 {
	if x != nil {
		return x.FSint32
	}
	return nil
}

func (x *Rep) GetFSint64() []int64 {
	if x != nil {
		return x.FSint64
	}
	return nil
}

func (x *Rep) GetFFixed32() []uint32 {
	if x != nil {
		return x.FFixed32
	}
	return nil
}

func (x *Rep) GetFFixed64() []uint64 {
	if x != nil {
		return x.FFixed64
	}
	return nil
}

func (x *Rep) GetFSfixed32() []int32 {
	if x != nil {
		return x.FSfixed32
	}
	return nil
}

func (x *Rep) GetFSfixed64() []int64 {
	if x != nil {
		return x.FSfixed64
	}
	return nil
}

func (x *Rep) GetFBool() []bool {
	if x != nil {
		return x.FBool
	}
	return nil
}

func (x *Rep) GetFString() []string {
	if x != nil {
		return x.FString
	}
	return nil
}

func (x *Rep) GetFBytes() [][]byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *Rep) GetFColor() []Color {
	if x != nil {
		return x.FColor
	}
	return nil
}

func (x *Rep) GetFLeaf() []*Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

type RepUnpacked struct {
	FDouble   []float64 `protobuf:"fixed64,1,rep,name=f_double" json:"f_double,omitempty"`
	FFloat    []float32 `protobuf:"fixed32,2,rep,name=f_float" json:"f_float,omitempty"`
	FInt32    []int32   `protobuf:"varint,3,rep,name=f_int32" json:"f_int32,omitempty"`
	FInt64    []int64   `protobuf:"varint,4,rep,name=f_int64" json:"f_int64,omitempty"`
	FUint32   []uint32  `protobuf:"varint,5,rep,name=f_uint32" json:"f_uint32,omitempty"`
	FUint64   []uint64  `protobuf:"varint,6,rep,name=f_uint64" json:"f_uint64,omitempty"`
	FSint32   []int32   `protobuf:"zigzag32,7,rep,name=f_sint32" json:"f_sint32,omitempty"`
	FSint64   []int64   `protobuf:"zigzag64,8,rep,name=f_sint64" json:"f_sint64,omitempty"`
	FFixed32  []uint32  `protobuf:"fixed32,9,rep,name=f_fixed32" json:"f_fixed32,omitempty"`
	FFixed64  []uint64  `protobuf:"fixed64,10,rep,name=f_fixed64" json:"f_fixed64,omitempty"`
	FSfixed32 []int32   `protobuf:"fixed32,11,rep,name=f_sfixed32" json:"f_sfixed32,omitempty"`
	FSfixed64 []int64   `protobuf:"fixed64,12,rep,name=f_sfixed64" json:"f_sfixed64,omitempty"`
	FBool     []bool    `protobuf:"varint,13,rep,name=f_bool" json:"f_bool,omitempty"`
	FString   []string  `protobuf:"bytes,14,rep,name=f_string" json:"f_string,omitempty"`
	FBytes    [][]byte  `protobuf:"bytes,15,rep,name=f_bytes" json:"f_bytes,omitempty"`
	FColor    []Color   `protobuf:"varint,16,rep,name=f_color" json:"f_color,omitempty"`
	FLeaf     []*Leaf   `protobuf:"bytes,17,rep,name=f_leaf" json:"f_leaf,omitempty"`
}

func (x *RepUnpacked) Reset() { *x = RepUnpacked{} }

func (x *RepUnpacked) GetFDouble() []float64 {
	if x != nil {
		return x.FDouble
	}
	return nil
}

func (x *RepUnpacked) GetFFloat() []float32 {
	if x != nil {
		return x.FFloat
	}
	return nil
}

func (x *RepUnpacked) GetFInt32() []int32 {
	if x != nil {
		return x.FInt32
	}
	return nil
}

func (x *RepUnpacked) GetFInt64() []int64 {
	if x != nil {
		return x.FInt64
	}
	return nil
}

func (x *RepUnpacked) GetFUint32() []uint32 {
	if x != nil {
		return x.FUint32
	}
	return nil
}

func (x *RepUnpacked) GetFUint64() []uint64 {
	if x != nil {
		return x.FUint64
	}
	return nil
}

func (x *RepUnpacked) GetFSint32() []int32 {
	if x != nil {
		return x.FSint32
	}
	return nil
}

func (x *RepUnpacked) GetFSint64() []int64 {
	if x != nil {
		return x.FSint64
	}
	return nil
}

func (x *RepUnpacked) GetFFixed32() []uint32 {
	if x != nil {
		return x.FFixed32
	}
	return nil
}

func (x *RepUnpacked) GetFFixed64() []uint64 {
	if x != nil {
		return x.FFixed64
	}
	return nil
}

func (x *RepUnpacked) GetFSfixed32() []int32 {
	if x != nil {
		return x.FSfixed32
	}
	return nil
}

func (x *RepUnpacked) GetFSfixed64() []int64 {
	if x != nil {
		return x.FSfixed64
	}
	return nil
}

func (x *RepUnpacked) GetFBool() []bool {
	if x != nil {
		return x.FBool
	}
	return nil
}

func (x *RepUnpacked) GetFString() []string {
	if x != nil {
		return x.FString
	}
	return nil
}

func (x *RepUnpacked) GetFBytes() [][]byte {
	if x != nil {
		return x.FBytes
	}
	return nil
}

func (x *RepUnpacked) GetFColor() []Color {
	if x != nil {
		return x.FColor
	}
	return nil
}

func (x *RepUnpacked) GetFLeaf() []*Leaf {
	if x != nil {
		return x.FLeaf
	}
	return nil
}

type One struct {
	// Types that are assignable to U:
	//
	//	*One_UDouble
	//	*One_UFloat
	//	*One_UInt32
	//	*One_UInt64
	//	*One_UUint32
	//	*One_UUint64
	//	*One_USint32
	//	*One_USint64
	//	*One_UFixed32
	//	*One_UFixed64
	//	*One_USfixed32
	//	*One_USfixed64
	//	*One_UBool
	//	*One_UString
	//	*One_UBytes
	//	*One_UColor
	//	*One_ULeaf
	U       isOne_U `protobuf_oneof:"u"`
	Between string  `protobuf:"bytes,40,opt,name=between" json:"between,omitempty"`
	// Types that are assignable to SecondOne:
	//
	//	*One_Rec
	//	*One_Ts
	//	*One_S2
	//	*One_Al
	SecondOne isOne_SecondOne `protobuf_oneof:"second_one"`
}

func (x *One) Reset() { *x = One{} }

func (x *One) GetU() isOne_U {
	if x != nil {
		return x.U
	}
	return nil
}
func (x *One) GetUDouble() float64 {
	if p, ok := x.GetU().(*One_UDouble); ok {
		return p.UDouble
	}
	return 0
}

func (x *One) GetUFloat() float32 {
	if p, ok := x.GetU().(*One_UFloat); ok {
		return p.UFloat
	}
	return 0
}

func (x *One) GetUInt32() int32 {
	if p, ok := x.GetU().(*One_UInt32); ok {
		return p.UInt32
	}
	return 0
}

func (x *One) GetUInt64() int64 {
	if p, ok := x.GetU().(*One_UInt64); ok {
		return p.UInt64
	}
	return 0
}

func (x *One) GetUUint32() uint32 {
	if p, ok := x.GetU().(*One_UUint32); ok {
		return p.UUint32
	}
	return 0
}

func (x *One) GetUUint64() uint64 {
	if p, ok := x.GetU().(*One_UUint64); ok {
		return p.UUint64
	}
	return 0
}

func (x *One) GetUSint32() int32 {
	if p, ok := x.GetU().(*One_USint32); ok {
		return p.USint32
	}
	return 0
}

func (x *One) GetUSint64() int64 {
	if p, ok := x.GetU().(*One_USint64); ok {
		return p.USint64
	}
	return 0
}

func (x *One) GetUFixed32() uint32 {
	if p, ok := x.GetU().(*One_UFixed32); ok {
		return p.UFixed32
	}
	return 0
}

func (x *One) GetUFixed64() uint64 {
	if p, ok := x.GetU().(*One_UFixed64); ok {
		return p.UFixed64
	}
	return 0
}

func (x *One) GetUSfixed32() int32 {
	if p, ok := x.GetU().(*One_USfixed32); ok {
		return p.USfixed32
	}
	return 0
}

func (x *One) GetUSfixed64() int64 {
	if p, ok := x.GetU().(*One_USfixed64); ok {
		return p.USfixed64
	}
	return 0
}

func (x *One) GetUBool() bool {
	if p, ok := x.GetU().(*One_UBool); ok {
		return p.UBool
	}
	return false
}

func (x *One) GetUString() string {
	if p, ok := x.GetU().(*One_UString); ok {
		return p.UString
	}
	return ""
}

func (x *One) GetUBytes() []byte {
	if p, ok := x.GetU().(*One_UBytes); ok {
		return p.UBytes
	}
	return nil
}

func (x *One) GetUColor() Color {
	if p, ok := x.GetU().(*One_UColor); ok {
		return p.UColor
	}
	return Color_COLOR_ZERO
}

func (x *One) GetULeaf() *Leaf {
	if p, ok := x.GetU().(*One_ULeaf); ok {
		return p.ULeaf
	}
	return nil
}

func (x *One) GetBetween() string {
	if x != nil {
		return x.Between
	}
	return ""
}

func (x *One) GetSecondOne() isOne_SecondOne {
	if x != nil {
		return x.SecondOne
	}
	return nil
}
func (x *One) GetRec() *One {
	if p, ok := x.GetSecondOne().(*One_Rec); ok {
		return p.Rec
	}
	return nil
}

func (x *One) GetTs() *timestamppb.Timestamp {
	if p, ok := x.GetSecondOne().(*One_Ts); ok {
		return p.Ts
	}
	return nil
}

func (x *One) GetS2() string {
	if p, ok := x.GetSecondOne().(*One_S2); ok {
		return p.S2
	}
	return ""
}

func (x *One) GetAl() Alias {
	if p, ok := x.GetSecondOne().(*One_Al); ok {
		return p.Al
	}
	return Alias_A_ZERO
}

// XXX_OneofWrappers is for the internal use of the prutal package.
func (*One) XXX_OneofWrappers() []interface{} {
	return []interface{}{
		(*One_UDouble)(nil),
		(*One_UFloat)(nil),
		(*One_UInt32)(nil),
		(*One_UInt64)(nil),
		(*One_UUint32)(nil),
		(*One_UUint64)(nil),
		(*One_USint32)(nil),
		(*One_USint64)(nil),
		(*One_UFixed32)(nil),
		(*One_UFixed64)(nil),
		(*One_USfixed32)(nil),
		(*One_USfixed64)(nil),
		(*One_UBool)(nil),
		(*One_UString)(nil),
		(*One_UBytes)(nil),
		(*One_UColor)(nil),
		(*One_ULeaf)(nil),
		(*One_Rec)(nil),
		(*One_Ts)(nil),
		(*One_S2)(nil),
		(*One_Al)(nil),
	}
}

type isOne_U interface {
	isOne_U()
}

type One_UDouble struct {
	UDouble float64 `protobuf:"fixed64,1,opt,name=u_double" json:"u_double,omitempty"`
}

func (*One_UDouble) isOne_U() {}

type One_UFloat struct {
	UFloat float32 `protobuf:"fixed32,2,opt,name=u_float" json:"u_float,omitempty"`
}

func (*One_UFloat) isOne_U() {}

type One_UInt32 struct {
	UInt32 int32 `protobuf:"varint,3,opt,name=u_int32" json:"u_int32,omitempty"`
}

func (*One_UInt32) isOne_U() {}

type One_UInt64 struct {
	UInt64 int64 `protobuf:"varint,4,opt,name=u_int64" json:"u_int64,omitempty"`
}

func (*One_UInt64) isOne_U() {}

type One_UUint32 struct {
	UUint32 uint32 `protobuf:"varint,5,opt,name=u_uint32" json:"u_uint32,omitempty"`
}

func (*One_UUint32) isOne_U() {}

type One_UUint64 struct {
	UUint64 uint64 `protobuf:"varint,6,opt,name=u_uint64" json:"u_uint64,omitempty"`
}

func (*One_UUint64) isOne_U() {}

type One_USint32 struct {
	USint32 int32 `protobuf:"zigzag32,7,opt,name=u_sint32" json:"u_sint32,omitempty"`
}

func (*One_USint32) isOne_U() {}

type One_USint64 struct {
	USint64 int64 `protobuf:"zigzag64,8,opt,name=u_sint64" json:"u_sint64,omitempty"`
}

func (*One_USint64) isOne_U() {}

type One_UFixed32 struct {
	UFixed32 uint32 `protobuf:"fixed32,9,opt,name=u_fixed32" json:"u_fixed32,omitempty"`
}

func (*One_UFixed32) isOne_U() {}

type One_UFixed64 struct {
	UFixed64 uint64 `protobuf:"fixed64,10,opt,name=u_fixed64" json:"u_fixed64,omitempty"`
}

func (*One_UFixed64) isOne_U() {}

type One_USfixed32 struct {
	USfixed32 int32 `protobuf:"fixed32,11,opt,name=u_sfixed32" json:"u_sfixed32,omitempty"`
}

func (*One_USfixed32) isOne_U() {}

type One_USfixed64 struct {
	USfixed64 int64 `protobuf:"fixed64,12,opt,name=u_sfixed64" json:"u_sfixed64,omitempty"`
}

func (*One_USfixed64) isOne_U() {}

type One_UBool struct {
	UBool bool `protobuf:"varint,13,opt,name=u_bool" json:"u_bool,omitempty"`
}

func (*One_UBool) isOne_U() {}

type One_UString struct {
	UString string `protobuf:"bytes,14,opt,name=u_string" json:"u_string,omitempty"`
}

func (*One_UString) isOne_U() {}

type One_UBytes struct {
	UBytes []byte `protobuf:"bytes,15,opt,name=u_bytes" json:"u_bytes,omitempty"`
}

func (*One_UBytes) isOne_U() {}

type One_UColor struct {
	UColor Color `protobuf:"varint,16,opt,name=u_color" json:"u_color,omitempty"`
}

func (*One_UColor) isOne_U() {}

type One_ULeaf struct {
	ULeaf *Leaf `protobuf:"bytes,17,opt,name=u_leaf" json:"u_leaf,omitempty"`
}

func (*One_ULeaf) isOne_U() {}

type isOne_SecondOne interface {
	isOne_SecondOne()
}

type One_Rec struct {
	Rec *One `protobuf:"bytes,41,opt,name=rec" json:"rec,omitempty"`
}

func (*One_Rec) isOne_SecondOne() {}

type One_Ts struct {
	Ts *timestamppb.Timestamp `protobuf:"bytes,42,opt,name=ts" json:"ts,omitempty"`
}

func (*One_Ts) isOne_SecondOne() {}

type One_S2 struct {
	S2 string `protobuf:"bytes,43,opt,name=s2" json:"s2,omitempty"`
}

func (*One_S2) isOne_SecondOne() {}

type One_Al struct {
	Al Alias `protobuf:"varint,44,opt,name=al" json:"al,omitempty"`
}

func (*One_Al) isOne_SecondOne() {}

type MapKeys struct {
	AInt32    map[int32]int64   `protobuf:"bytes,1,rep,name=a_int32" json:"a_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AInt64    map[int64]int64   `protobuf:"bytes,2,rep,name=a_int64" json:"a_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint32   map[uint32]int64  `protobuf:"bytes,3,rep,name=a_uint32" json:"a_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint64   map[uint64]int64  `protobuf:"bytes,4,rep,name=a_uint64" json:"a_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASint32   map[int32]int64   `protobuf:"bytes,5,rep,name=a_sint32" json:"a_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASint64   map[int64]int64   `protobuf:"bytes,6,rep,name=a_sint64" json:"a_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AFixed32  map[uint32]int64  `protobuf:"bytes,7,rep,name=a_fixed32" json:"a_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AFixed64  map[uint64]int64  `protobuf:"bytes,8,rep,name=a_fixed64" json:"a_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASfixed32 map[int32]int64   `protobuf:"bytes,9,rep,name=a_sfixed32" json:"a_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASfixed64 map[int64]int64   `protobuf:"bytes,10,rep,name=a_sfixed64" json:"a_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ABool     map[bool]int64    `protobuf:"bytes,11,rep,name=a_bool" json:"a_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AString   map[string]int64  `protobuf:"bytes,12,rep,name=a_string" json:"a_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BInt32    map[int32]*Leaf   `protobuf:"bytes,13,rep,name=b_int32" json:"b_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BInt64    map[int64]*Leaf   `protobuf:"bytes,14,rep,name=b_int64" json:"b_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BUint32   map[uint32]*Leaf  `protobuf:"bytes,15,rep,name=b_uint32" json:"b_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BUint64   map[uint64]*Leaf  `protobuf:"bytes,16,rep,name=b_uint64" json:"b_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSint32   map[int32]*Leaf   `protobuf:"bytes,17,rep,name=b_sint32" json:"b_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSint64   map[int64]*Leaf   `protobuf:"bytes,18,rep,name=b_sint64" json:"b_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BFixed32  map[uint32]*Leaf  `protobuf:"bytes,19,rep,name=b_fixed32" json:"b_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BFixed64  map[uint64]*Leaf  `protobuf:"bytes,20,rep,name=b_fixed64" json:"b_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSfixed32 map[int32]*Leaf   `protobuf:"bytes,21,rep,name=b_sfixed32" json:"b_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BSfixed64 map[int64]*Leaf   `protobuf:"bytes,22,rep,name=b_sfixed64" json:"b_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BBool     map[bool]*Leaf    `protobuf:"bytes,23,rep,name=b_bool" json:"b_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BString   map[string]*Leaf  `protobuf:"bytes,24,rep,name=b_string" json:"b_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CInt32    map[int32]string  `protobuf:"bytes,25,rep,name=c_int32" json:"c_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CInt64    map[int64]string  `protobuf:"bytes,26,rep,name=c_int64" json:"c_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CUint32   map[uint32]string `protobuf:"bytes,27,rep,name=c_uint32" json:"c_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CUint64   map[uint64]string `protobuf:"bytes,28,rep,name=c_uint64" json:"c_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSint32   map[int32]string  `protobuf:"bytes,29,rep,name=c_sint32" json:"c_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSint64   map[int64]string  `protobuf:"bytes,30,rep,name=c_sint64" json:"c_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CFixed32  map[uint32]string `protobuf:"bytes,31,rep,name=c_fixed32" json:"c_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CFixed64  map[uint64]string `protobuf:"bytes,32,rep,name=c_fixed64" json:"c_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSfixed32 map[int32]string  `protobuf:"bytes,33,rep,name=c_sfixed32" json:"c_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CSfixed64 map[int64]string  `protobuf:"bytes,34,rep,name=c_sfixed64" json:"c_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CBool     map[bool]string   `protobuf:"bytes,35,rep,name=c_bool" json:"c_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CString   map[string]string `protobuf:"bytes,36,rep,name=c_string" json:"c_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (x *MapKeys) Reset() { *x = MapKeys{} }

func (x *MapKeys) GetAInt32() map[int32]int64 {
	if x != nil {
		return x.AInt32
	}
	return nil
}

func (x *MapKeys) GetAInt64() map[int64]int64 {
	if x != nil {
		return x.AInt64
	}
	return nil
}

func (x *MapKeys) GetAUint32() map[uint32]int64 {
	if x != nil {
		return x.AUint32
	}
	return nil
}

func (x *MapKeys) GetAUint64() map[uint64]int64 {
	if x != nil {
		return x.AUint64
	}
	return nil
}

func (x *MapKeys) GetASint32() map[int32]int64 {
	if x != nil {
		return x.ASint32
	}
	return nil
}

func (x *MapKeys) GetASint64() map[int64]int64 {
	if x != nil {
		return x.ASint64
	}
	return nil
}

func (x *MapKeys) GetAFixed32() map[uint32]int64 {
	if x != nil {
		return x.AFixed32
	}
	return nil
}

func (x *MapKeys) GetAFixed64() map[uint64]int64 {
	if x != nil {
		return x.AFixed64
	}
	return nil
}

func (x *MapKeys) GetASfixed32() map[int32]int64 {
	if x != nil {
		return x.ASfixed32
	}
	return nil
}

func (x *MapKeys) GetASfixed64() map[int64]int64 {
	if x != nil {
		return x.ASfixed64
	}
	return nil
}

func (x *MapKeys) GetABool() map[bool]int64 {
	if x != nil {
		return x.ABool
	}
	return nil
}

func (x *MapKeys) GetAString() map[string]int64 {
	if x != nil {
		return x.AString
	}
	return nil
}

func (x *MapKeys) GetBInt32() map[int32]*Leaf {
	if x != nil {
		return x.BInt32
	}
	return nil
}

func (x *MapKeys) GetBInt64() map[int64]*Leaf {
	if x != nil {
		return x.BInt64
	}
	return nil
}

func (x *MapKeys) GetBUint32() map[uint32]*Leaf {
	if x != nil {
		return x.BUint32
	}
	return nil
}

func (x *MapKeys) GetBUint64() map[uint64]*Leaf {
	if x != nil {
		return x.BUint64
	}
	return nil
}

func (x *MapKeys) GetBSint32() map[int32]*Leaf {
	if x != nil {
		return x.BSint32
	}
	return nil
}

func (x *MapKeys) GetBSint64() map[int64]*Leaf {
	if x != nil {
		return x.BSint64
	}
	return nil
}

func (x *MapKeys) GetBFixed32() map[uint32]*Leaf {
	if x != nil {
		return x.BFixed32
	}
	return nil
}

func (x *MapKeys) GetBFixed64() map[uint64]*Leaf {
	if x != nil {
		return x.BFixed64
	}
	return nil
}

func (x *MapKeys) GetBSfixed32() map[int32]*Leaf {
	if x != nil {
		return x.BSfixed32
	}
	return nil
}

func (x *MapKeys) GetBSfixed64() map[int64]*Leaf {
	if x != nil {
		return x.BSfixed64
	}
	return nil
}

func (x *MapKeys) GetBBool() map[bool]*Leaf {
	if x != nil {
		return x.BBool
	}
	return nil
}

func (x *MapKeys) GetBString() map[string]*Leaf {
	if x != nil {
		return x.BString
	}
	return nil
}

func (x *MapKeys) GetCInt32() map[int32]string {
	if x != nil {
		return x.CInt32
	}
	return nil
}

func (x *MapKeys) GetCInt64() map[int64]string {
	if x != nil {
		return x.CInt64
	}
	return nil
}

func (x *MapKeys) GetCUint32() map[uint32]string {
	if x != nil {
		return x.CUint32
	}
	return nil
}

func (x *MapKeys) GetCUint64() map[uint64]string {
	if x != nil {
		return x.CUint64
	}
	return nil
}

func (x *MapKeys) GetCSint32() map[int32]string {
	if x != nil {
		return x.CSint32
	}
	return nil
}

func (x *MapKeys) GetCSint64() map[int64]string {
	if x != nil {
		return x.CSint64
	}
	return nil
}

func (x *MapKeys) GetCFixed32() map[uint32]string {
	if x != nil {
		return x.CFixed32
	}
	return nil
}

func (x *MapKeys) GetCFixed64() map[uint64]string {
	if x != nil {
		return x.CFixed64
	}
	return nil
}

func (x *MapKeys) GetCSfixed32() map[int32]string {
	if x != nil {
		return x.CSfixed32
	}
	return nil
}

func (x *MapKeys) GetCSfixed64() map[int64]string {
	if x != nil {
		return x.CSfixed64
	}
	return nil
}

func (x *MapKeys) GetCBool() map[bool]string {
	if x != nil {
		return x.CBool
	}
	return nil
}

func (x *MapKeys) GetCString() map[string]string {
	if x != nil {
		return x.CString
	}
	return nil
}

type MapVals struct {
	ADouble   map[string]float64 `protobuf:"bytes,1,rep,name=a_double" json:"a_double,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	AFloat    map[string]float32 `protobuf:"bytes,2,rep,name=a_float" json:"a_float,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	AInt32    map[string]int32   `protobuf:"bytes,3,rep,name=a_int32" json:"a_int32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AInt64    map[string]int64   `protobuf:"bytes,4,rep,name=a_int64" json:"a_int64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint32   map[string]uint32  `protobuf:"bytes,5,rep,name=a_uint32" json:"a_uint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AUint64   map[string]uint64  `protobuf:"bytes,6,rep,name=a_uint64" json:"a_uint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ASint32   map[string]int32   `protobuf:"bytes,7,rep,name=a_sint32" json:"a_sint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	ASint64   map[string]int64   `protobuf:"bytes,8,rep,name=a_sint64" json:"a_sint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	AFixed32  map[string]uint32  `protobuf:"bytes,9,rep,name=a_fixed32" json:"a_fixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	AFixed64  map[string]uint64  `protobuf:"bytes,10,rep,name=a_fixed64" json:"a_fixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	ASfixed32 map[string]int32   `protobuf:"bytes,11,rep,name=a_sfixed32" json:"a_sfixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	ASfixed64 map[string]int64   `protobuf:"bytes,12,rep,name=a_sfixed64" json:"a_sfixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	ABool     map[string]bool    `protobuf:"bytes,13,rep,name=a_bool" json:"a_bool,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	AString   map[string]string  `protobuf:"bytes,14,rep,name=a_string" json:"a_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ABytes    map[string][]byte  `protobuf:"bytes,15,rep,name=a_bytes" json:"a_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	AColor    map[string]Color   `protobuf:"bytes,16,rep,name=a_color" json:"a_color,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	ALeaf     map[string]*Leaf   `protobuf:"bytes,17,rep,name=a_leaf" json:"a_leaf,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BDouble   map[int32]float64  `protobuf:"bytes,18,rep,name=b_double" json:"b_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	BFloat    map[int32]float32  `protobuf:"bytes,19,rep,name=b_float" json:"b_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	BInt32    map[int32]int32    `protobuf:"bytes,20,rep,name=b_int32" json:"b_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BInt64    map[int32]int64    `protobuf:"bytes,21,rep,name=b_int64" json:"b_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BUint32   map[int32]uint32   `protobuf:"bytes,22,rep,name=b_uint32" json:"b_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BUint64   map[int32]uint64   `protobuf:"bytes,23,rep,name=b_uint64" json:"b_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BSint32   map[int32]int32    `protobuf:"bytes,24,rep,name=b_sint32" json:"b_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	BSint64   map[int32]int64    `protobuf:"bytes,25,rep,name=b_sint64" json:"b_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	BFixed32  map[int32]uint32   `protobuf:"bytes,26,rep,name=b_fixed32" json:"b_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	BFixed64  map[int32]uint64   `protobuf:"bytes,27,rep,name=b_fixed64" json:"b_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	BSfixed32 map[int32]int32    `protobuf:"bytes,28,rep,name=b_sfixed32" json:"b_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	BSfixed64 map[int32]int64    `protobuf:"bytes,29,rep,name=b_sfixed64" json:"b_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	BBool     map[int32]bool     `protobuf:"bytes,30,rep,name=b_bool" json:"b_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BString   map[int32]string   `protobuf:"bytes,31,rep,name=b_string" json:"b_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BBytes    map[int32][]byte   `protobuf:"bytes,32,rep,name=b_bytes" json:"b_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BColor    map[int32]Color    `protobuf:"bytes,33,rep,name=b_color" json:"b_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BLeaf     map[int32]*Leaf    `protobuf:"bytes,34,rep,name=b_leaf" json:"b_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CDouble   map[bool]float64   `protobuf:"bytes,35,rep,name=c_double" json:"c_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	CFloat    map[bool]float32   `protobuf:"bytes,36,rep,name=c_float" json:"c_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	CInt32    map[bool]int32     `protobuf:"bytes,37,rep,name=c_int32" json:"c_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CInt64    map[bool]int64     `protobuf:"bytes,38,rep,name=c_int64" json:"c_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CUint32   map[bool]uint32    `protobuf:"bytes,39,rep,name=c_uint32" json:"c_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CUint64   map[bool]uint64    `protobuf:"bytes,40,rep,name=c_uint64" json:"c_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CSint32   map[bool]int32     `protobuf:"bytes,41,rep,name=c_sint32" json:"c_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	CSint64   map[bool]int64     `protobuf:"bytes,42,rep,name=c_sint64" json:"c_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	CFixed32  map[bool]uint32    `protobuf:"bytes,43,rep,name=c_fixed32" json:"c_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	CFixed64  map[bool]uint64    `protobuf:"bytes,44,rep,name=c_fixed64" json:"c_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	CSfixed32 map[bool]int32     `protobuf:"bytes,45,rep,name=c_sfixed32" json:"c_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	CSfixed64 map[bool]int64     `protobuf:"bytes,46,rep,name=c_sfixed64" json:"c_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	CBool     map[bool]bool      `protobuf:"bytes,47,rep,name=c_bool" json:"c_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CString   map[bool]string    `protobuf:"bytes,48,rep,name=c_string" json:"c_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CBytes    map[bool][]byte    `protobuf:"bytes,49,rep,name=c_bytes" json:"c_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	CColor    map[bool]Color     `protobuf:"bytes,50,rep,name=c_color" json:"c_color,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	CLeaf     map[bool]*Leaf     `protobuf:"bytes,51,rep,name=c_leaf" json:"c_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (x *MapVals) Reset() { *x = MapVals{} }

func (x *MapVals) GetADouble() map[string]float64 {
	if x != nil {
		return x.ADouble
	}
	return nil
}

func (x *MapVals) GetAFloat() map[string]float32 {
	if x != nil {
		return x.AFloat
	}
	return nil
}

func (x *MapVals) GetAInt32() map[string]int32 {
	if x != nil {
		return x.AInt32
	}
	return nil
}

func (x *MapVals) GetAInt64() map[string]int64 {
	if x != nil {
		return x.AInt64
	}
	return nil
}

func (x *MapVals) GetAUint32() map[string]uint32 {
	if x != nil {
		return x.AUint32
	}
	return nil
}

func (x *MapVals) GetAUint64() map[string]uint64 {
	if x != nil {
		return x.AUint64
	}
	return nil
}

func (x *MapVals) GetASint32() map[string]int32 {
	if x != nil {
		return x.ASint32
	}
	return nil
}

func (x *MapVals) GetASint64() map[string]int64 {
	if x != nil {
		return x.ASint64
	}
	return nil
}

func (x *MapVals) GetAFixed32() map[string]uint32 {
	if x != nil {
		return x.AFixed32
	}
	return nil
}

func (x *MapVals) GetAFixed64() map[string]uint64 {
	if x != nil {
		return x.AFixed64
	}
	return nil
}

func (x *MapVals) GetASfixed32() map[string]int32 {
	if x != nil {
		return x.ASfixed32
	}
	return nil
}

func (x *MapVals) GetASfixed64() map[string]int64 {
	if x != nil {
		return x.ASfixed64
	}
	return nil
}

func (x *MapVals) GetABool() map[string]bool {
	if x != nil {
		return x.ABool
	}
	return nil
}

func (x *MapVals) GetAString() map[string]string {
	if x != nil {
		return x.AString
	}
	return nil
}

func (x *MapVals) GetABytes() map[string][]byte {
	if x != nil {
		return x.ABytes
	}
	return nil
}

func (x *MapVals) GetAColor() map[string]Color {
	if x != nil {
		return x.AColor
	}
	return nil
}

func (x *MapVals) GetALeaf() map[string]*Leaf {
	if x != nil {
		return x.ALeaf
	}
	return nil
}

func (x *MapVals) GetBDouble() map[int32]float64 {
	if x != nil {
		return x.BDouble
	}
	return nil
}

func (x *MapVals) GetBFloat() map[int32]float32 {
	if x != nil {
		return x.BFloat
	}
	return nil
}

func (x *MapVals) GetBInt32() map[int32]int32 {
	if x != nil {
		return x.BInt32
	}
	return nil
}

func (x *MapVals) GetBInt64() map[int32]int64 {
	if x != nil {
		return x.BInt64
	}
	return nil
}

func (x *MapVals) GetBUint32() map[int32]uint32 {
	if x != nil {
		return x.BUint32
	}
	return nil
}

func (x *MapVals) GetBUint64() map[int32]uint64 {
	if x != nil {
		return x.BUint64
	}
	return nil
}

func (x *MapVals) GetBSint32() map[int32]int32 {
	if x != nil {
		return x.BSint32
	}
	return nil
}

func (x *MapVals) GetBSint64() map[int32]int64 {
	if x != nil {
		return x.BSint64
	}
	return nil
}

func (x *MapVals) GetBFixed32() map[int32]uint32 {
	if x != nil {
		return x.BFixed32
	}
	return nil
}

func (x *MapVals) GetBFixed64() map[int32]uint64 {
	if x != nil {
		return x.BFixed64
	}
	return nil
}

func (x *MapVals) GetBSfixed32() map[int32]int32 {
	if x != nil {
		return x.BSfixed32
	}
	return nil
}

func (x *MapVals) GetBSfixed64() map[int32]int64 {
	if x != nil {
		return x.BSfixed64
	}
	return nil
}

func (x *MapVals) GetBBool() map[int32]bool {
	if x != nil {
		return x.BBool
	}
	return nil
}

func (x *MapVals) GetBString() map[int32]string {
	if x != nil {
		return x.BString
	}
	return nil
}

func (x *MapVals) GetBBytes() map[int32][]byte {
	if x != nil {
		return x.BBytes
	}
	return nil
}

func (x *MapVals) GetBColor() map[int32]Color {
	if x != nil {
		return x.BColor
	}
	return nil
}

func (x *MapVals) GetBLeaf() map[int32]*Leaf {
	if x != nil {
		return x.BLeaf
	}
	return nil
}

func (x *MapVals) GetCDouble() map[bool]float64 {
	if x != nil {
		return x.CDouble
	}
	return nil
}

func (x *MapVals) GetCFloat() map[bool]float32 {
	if x != nil {
		return x.CFloat
	}
	return nil
}

func (x *MapVals) GetCInt32() map[bool]int32 {
	if x != nil {
		return x.CInt32
	}
	return nil
}

func (x *MapVals) GetCInt64() map[bool]int64 {
	if x != nil {
		return x.CInt64
	}
	return nil
}

func (x *MapVals) GetCUint32() map[bool]uint32 {
	if x != nil {
		return x.CUint32
	}
	return nil
}

func (x *MapVals) GetCUint64() map[bool]uint64 {
	if x != nil {
		return x.CUint64
	}
	return nil
}

func (x *MapVals) GetCSint32() map[bool]int32 {
	if x != nil {
		return x.CSint32
	}
	return nil
}

func (x *MapVals) GetCSint64() map[bool]int64 {
	if x != nil {
		return x.CSint64
	}
	return nil
}

func (x *MapVals) GetCFixed32() map[bool]uint32 {
	if x != nil {
		return x.CFixed32
	}
	return nil
}

func (x *MapVals) GetCFixed64() map[bool]uint64 {
	if x != nil {
		return x.CFixed64
	}
	return nil
}

func (x *MapVals) GetCSfixed32() map[bool]int32 {
	if x != nil {
		return x.CSfixed32
	}
	return nil
}

func (x *MapVals) GetCSfixed64() map[bool]int64 {
	if x != nil {
		return x.CSfixed64
	}
	return nil
}

func (x *MapVals) GetCBool() map[bool]bool {
	if x != nil {
		return x.CBool
	}
	return nil
}

func (x *MapVals) GetCString() map[bool]string {
	if x != nil {
		return x.CString
	}
	return nil
}

func (x *MapVals) GetCBytes() map[bool][]byte {
	if x != nil {
		return x.CBytes
	}
	return nil
}

func (x *MapVals) GetCColor() map[bool]Color {
	if x != nil {
		return x.CColor
	}
	return nil
}

func (x *MapVals) GetCLeaf() map[bool]*Leaf {
	if x != nil {
		return x.CLeaf
	}
	return nil
}

type Tree struct {
	Left *Tree           `protobuf:"bytes,1,opt,name=left" json:"left,omitempty"`
	Kids []*Tree         `protobuf:"bytes,2,rep,name=kids" json:"kids,omitempty"`
	ById map[int32]*Tree `protobuf:"bytes,3,rep,name=by_id" json:"by_id,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are assignable to U:
	//
	//	*Tree_Child
	//	*Tree_Inner
	U      isTree_U `protobuf_oneof:"u"`
	Name   string   `protobuf:"bytes,6,opt,name=name" json:"name,omitempty"`
	Weight *int64   `protobuf:"varint,7,opt,name=weight" json:"weight,omitempty"`
}

func (x *Tree) Reset() { *x = Tree{} }

func (x *Tree) GetLeft() *Tree {
	if x != nil {
		return x.Left
	}
	return nil
}

func (x *Tree) GetKids() []*Tree {
	if x != nil {
		return x.Kids
	}
	return nil
}

func (x *Tree) GetById() map[int32]*Tree {
	if x != nil {
		return x.ById
	}
	return nil
}

func (x *Tree) GetU() isTree_U {
	if x != nil {
		return x.U
	}
	return nil
}
func (x *Tree) GetChild() *Tree {
	if p, ok := x.GetU().(*Tree_Child); ok {
		return p.Child
	}
	return nil
}

func (x *Tree) GetInner() *Tree_Inner {
	if p, ok := x.GetU().(*Tree_Inner_); ok {
		return p.Inner
	}
	return nil
}

func (x *Tree) GetName() string {
	if x != nil {
		return x.Name
	}
	return ""
}

func (x *Tree) GetWeight() int64 {
	if x != nil && x.Weight != nil {
		return *x.Weight
	}
	return 0
}

// XXX_OneofWrappers is for the internal use of the prutal package.
func (*Tree) XXX_OneofWrappers() []interface{} {
	return []interface{}{
		(*Tree_Child)(nil),
		(*Tree_Inner_)(nil),
	}
}

type isTree_U interface {
	isTree_U()
}

type Tree_Child struct {
	Child *Tree `protobuf:"bytes,4,opt,name=child" json:"child,omitempty"`
}

func (*Tree_Child) isTree_U() {}

type Tree_Inner_ struct {
	Inner *Tree_Inner `protobuf:"bytes,5,opt,name=inner" json:"inner,omitempty"`
}

func (*Tree_Inner_) isTree_U() {}

type Tree_Inner struct {
	Deep  *Tree_Inner_Deep   `protobuf:"bytes,1,opt,name=deep" json:"deep,omitempty"`
	Deeps []*Tree_Inner_Deep `protobuf:"bytes,2,rep,name=deeps" json:"deeps,omitempty"`
	E     Tree_Inner_E       `protobuf:"varint,3,opt,name=e" json:"e,omitempty"`
	Es    []Tree_Inner_E     `protobuf:"varint,4,rep,packed,name=es" json:"es,omitempty"`
	Tree  *Tree              `protobuf:"bytes,5,opt,name=tree" json:"tree,omitempty"`
}

func (x *Tree_Inner) Reset() { *x = Tree_Inner{} }

func (x *Tree_Inner) GetDeep() *Tree_Inner_Deep {
	if x != nil {
		return x.Deep
	}
	return nil
}

func (x *Tree_Inner) GetDeeps() []*Tree_Inner_Deep {
	if x != nil {
		return x.Deeps
	}
	return nil
}

func (x *Tree_Inner) GetE() Tree_Inner_E {
	if x != nil {
		return x.E
	}
	return Tree_Inner_Z
}

func (x *Tree_Inner) GetEs() []Tree_Inner_E {
	if x != nil {
		return x.Es
	}
	return nil
}

func (x *Tree_Inner) GetTree() *Tree {
	if x != nil {
		return x.Tree
	}
	return nil
}

type Tree_Inner_Deep struct {
	C    Color         `protobuf:"varint,1,opt,name=c" json:"c,omitempty"`
	Back []*Tree_Inner `protobuf:"bytes,2,rep,name=back" json:"back,omitempty"`
}

func (x *Tree_Inner_Deep) Reset() { *x = Tree_Inner_Deep{} }

func (x *Tree_Inner_Deep) GetC() Color {
	if x != nil {
		return x.C
	}
	return Color_COLOR_ZERO
}

func (x *Tree_Inner_Deep) GetBack() []*Tree_Inner {
	if x != nil {
		return x.Back
	}
	return nil
}

type WKT struct {
	Any  *anypb.Any                 `protobuf:"bytes,1,opt,name=any" json:"any,omitempty"`
	Anys []*anypb.Any               `protobuf:"bytes,2,rep,name=anys" json:"anys,omitempty"`
	Ts   *timestamppb.Timestamp     `protobuf:"bytes,3,opt,name=ts" json:"ts,omitempty"`
	Dur  *durationpb.Duration       `protobuf:"bytes,4,opt,name=dur" json:"dur,omitempty"`
	St   *structpb.Struct           `protobuf:"bytes,5,opt,name=st" json:"st,omitempty"`
	Val  *structpb.Value            `protobuf:"bytes,6,opt,name=val" json:"val,omitempty"`
	Lv   *structpb.ListValue        `protobuf:"bytes,7,opt,name=lv" json:"lv,omitempty"`
	Fm   *fieldmaskpb.FieldMask     `protobuf:"bytes,8,opt,name=fm" json:"fm,omitempty"`
	Em   *emptypb.Empty             `protobuf:"bytes,9,opt,name=em" json:"em,omitempty"`
	W1   *wrapperspb.DoubleValue    `protobuf:"bytes,10,opt,name=w1" json:"w1,omitempty"`
	W2   *wrapperspb.FloatValue     `protobuf:"bytes,11,opt,name=w2" json:"w2,omitempty"`
	W3   *wrapperspb.Int64Value     `protobuf:"bytes,12,opt,name=w3" json:"w3,omitempty"`
	W4   *wrapperspb.UInt64Value    `protobuf:"bytes,13,opt,name=w4" json:"w4,omitempty"`
	W5   *wrapperspb.Int32Value     `protobuf:"bytes,14,opt,name=w5" json:"w5,omitempty"`
	W6   *wrapperspb.UInt32Value    `protobuf:"bytes,15,opt,name=w6" json:"w6,omitempty"`
	W7   *wrapperspb.BoolValue      `protobuf:"bytes,16,opt,name=w7" json:"w7,omitempty"`
	W8   *wrapperspb.StringValue    `protobuf:"bytes,17,opt,name=w8" json:"w8,omitempty"`
	W9   *wrapperspb.BytesValue     `protobuf:"bytes,18,opt,name=w9" json:"w9,omitempty"`
	Vals map[string]*structpb.Value `protobuf:"bytes,19,rep,name=vals" json:"vals,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Tss  []*timestamppb.Timestamp   `protobuf:"bytes,20,rep,name=tss" json:"tss,omitempty"`
	Sts  map[int64]*structpb.Struct `protobuf:"bytes,21,rep,name=sts" json:"sts,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Nv   structpb.NullValue         `protobuf:"varint,22,opt,name=nv" json:"nv,omitempty"`
	Svs  []*wrapperspb.StringValue  `protobuf:"bytes,23,rep,name=svs" json:"svs,omitempty"`
}

func (x *WKT) Reset() { *x = WKT{} }

func (x *WKT) GetAny() *anypb.Any {
	if x != nil {
		return x.Any
	}
	return nil
}

func (x *WKT) GetAnys() []*anypb.Any {
	if x != nil {
		return x.Anys
	}
	return nil
}

func (x *WKT) GetTs() *timestamppb.Timestamp {
	if x != nil {
		return x.Ts
	}
	return nil
}

func (x *WKT) GetDur() *durationpb.Duration {
	if x != nil {
		return x.Dur
	}
	return nil
}

func (x *WKT) GetSt() *structpb.Struct {
	if x != nil {
		return x.St
	}
	return nil
}

func (x *WKT) GetVal() *structpb.Value {
	if x != nil {
		return x.Val
	}
	return nil
}

func (x *WKT) GetLv() *structpb.ListValue {
	if x != nil {
		return x.Lv
	}
	return nil
}

func (x *WKT) GetFm() *fieldmaskpb.FieldMask {
	if x != nil {
		return x.Fm
	}
	return nil
}

func (x *WKT) GetEm() *emptypb.Empty {
	if x != nil {
		return x.Em
	}
	return nil
}

func (x *WKT) GetW1() *wrapperspb.DoubleValue {
	if x != nil {
		return x.W1
	}
	return nil
}

func (x *WKT) GetW2() *wrapperspb.FloatValue {
	if x != nil {
		return x.W2
	}
	return nil
}

func (x *WKT) GetW3() *wrapperspb.Int64Value {
	if x != nil {
		return x.W3
	}
	return nil
}

func (x *WKT) GetW4() *wrapperspb.UInt64Value {
	if x != nil {
		return x.W4
	}
	return nil
}

func (x *WKT) GetW5() *wrapperspb.Int32Value {
	if x != nil {
		return x.W5
	}
	return nil
}

func (x *WKT) GetW6() *wrapperspb.UInt32Value {
	if x != nil {
		return x.W6
	}
	return nil
}

func (x *WKT) GetW7() *wrapperspb.BoolValue {
	if x != nil {
		return x.W7
	}
	return nil
}

func (x *WKT) GetW8() *wrapperspb.StringValue {
	if x != nil {
		return x.W8
	}
	return nil
}

func (x *WKT) GetW9() *wrapperspb.BytesValue {
	if x != nil {
		return x.W9
	}
	return nil
}

func (x *WKT) GetVals() map[string]*structpb.Value {
	if x != nil {
		return x.Vals
	}
	return nil
}

func (x *WKT) GetTss() []*timestamppb.Timestamp {
	if x != nil {
		return x.Tss
	}
	return nil
}

func (x *WKT) GetSts() map[int64]*structpb.Struct {
	if x != nil {
		return x.Sts
	}
	return nil
}

func (x *WKT) GetNv() structpb.NullValue {
	if x != nil {
		return x.Nv
	}
	return structpb.NullValue_NULL_VALUE
}

func (x *WKT) GetSvs() []*wrapperspb.StringValue {
	if x != nil {
		return x.Svs
	}
	return nil
}

type Old struct {
	Between string  `protobuf:"bytes,40,opt,name=between" json:"between,omitempty"`
	F       []int32 `protobuf:"varint,3,rep,packed,name=f" json:"f,omitempty"`
}

func (x *Old) Reset() { *x = Old{} }

func (x *Old) GetBetween() string {
	if x != nil {
		return x.Between
	}
	return ""
}

func (x *Old) GetF() []int32 {
	if x != nil {
		return x.F
	}
	return nil
}

type State struct {
	State         string            `protobuf:"bytes,1,opt,name=state" json:"state,omitempty"`
	SizeCache     int32             `protobuf:"varint,2,opt,name=size_cache" json:"size_cache,omitempty"`
	UnknownFields []byte            `protobuf:"bytes,3,opt,name=unknown_fields" json:"unknown_fields,omitempty"`
	Reset_        []string          `protobuf:"bytes,4,rep,name=reset" json:"reset,omitempty"`
	ProtoMessage_ map[string][]byte `protobuf:"bytes,5,rep,name=proto_message" json:"proto_message,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX           int32             `protobuf:"varint,6,opt,name=x_x_x" json:"x_x_x,omitempty"`
	String_       *bool             `protobuf:"varint,7,opt,name=string" json:"string,omitempty"`
	Descriptor_   int32             `protobuf:"varint,8,opt,name=descriptor" json:"descriptor,omitempty"`
}

func (x *State) Reset() { *x = State{} }

func (x *State) GetState() string {
	if x != nil {
		return x.State
	}
	return ""
}

func (x *State) GetSizeCache() int32 {
	if x != nil {
		return x.SizeCache
	}
	return 0
}

func (x *State) GetUnknownFields() []byte {
	if x != nil {
		return x.UnknownFields
	}
	return nil
}

func (x *State) GetReset_() []string {
	if x != nil {
		return x.Reset_
	}
	return nil
}

func (x *State) GetProtoMessage_() map[string][]byte {
	if x != nil {
		return x.ProtoMessage_
	}
	return nil
}

func (x *State) GetXXX() int32 {
	if x != nil {
		return x.XXX
	}
	return 0
}

func (x *State) GetString_() bool {
	if x != nil && x.String_ != nil {
		return *x.String_
	}
	return false
}

func (x *State) GetDescriptor_() int32 {
	if x != nil {
		return x.Descriptor_
	}
	return 0
}
