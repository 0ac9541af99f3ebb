// Code generated by gen.py. DO NOT EDIT.

package types

type Leaf struct {
	A int32    `protobuf:"varint,1,opt,name=f1,proto3"`
	B string   `protobuf:"bytes,2,opt,name=f2,proto3"`
	C []uint32 `protobuf:"varint,3,rep,name=f3,packed,proto3"`
}

type LeafU struct {
	A             int32 `protobuf:"varint,1,opt,name=f1,proto3"`
	unknownFields []byte
}

type EmptyMsg struct {
}

type Implicit struct {
	FInt32        int32   `protobuf:"varint,2,opt,name=f2,proto3"`
	FUint32       uint32  `protobuf:"varint,4,opt,name=f4,proto3"`
	FSint64       int64   `protobuf:"zigzag64,6,opt,name=f6,proto3"`
	FSfixed32     int32   `protobuf:"fixed32,8,opt,name=f8,proto3"`
	FFloat        float32 `protobuf:"fixed32,10,opt,name=f10,proto3"`
	FFixed64      uint64  `protobuf:"fixed64,12,opt,name=f12,proto3"`
	FString       string  `protobuf:"bytes,14,opt,name=f14,proto3"`
	FBytes        []byte  `protobuf:"bytes,15,opt,name=f15,proto3"`
	FDouble       float64 `protobuf:"fixed64,13,opt,name=f13,proto3"`
	FSfixed64     int64   `protobuf:"fixed64,11,opt,name=f11,proto3"`
	FFixed32      uint32  `protobuf:"fixed32,9,opt,name=f9,proto3"`
	FUint64       uint64  `protobuf:"varint,7,opt,name=f7,proto3"`
	FInt64        int64   `protobuf:"varint,5,opt,name=f5,proto3"`
	FSint32       int32   `protobuf:"zigzag32,3,opt,name=f3,proto3"`
	FBool         bool    `protobuf:"varint,1,opt,name=f1,proto3"`
	unknownFields []byte
}

type Explicit struct {
	FInt32    *int32   `protobuf:"varint,2,opt,name=f2"`
	FUint32   *uint32  `protobuf:"varint,4,opt,name=f4"`
	FSint64   *int64   `protobuf:"zigzag64,6,opt,name=f6"`
	FSfixed32 *int32   `protobuf:"fixed32,8,opt,name=f8"`
	FFloat    *float32 `protobuf:"fixed32,10,opt,name=f10"`
	FFixed64  *uint64  `protobuf:"fixed64,12,opt,name=f12"`
	FString   *string  `protobuf:"bytes,14,opt,name=f14"`
	FBytes    []byte   `protobuf:"bytes,15,opt,name=f15,proto3,oneof"`
	FDouble   *float64 `protobuf:"fixed64,13,opt,name=f13"`
	FSfixed64 *int64   `protobuf:"fixed64,11,opt,name=f11"`
	FFixed32  *uint32  `protobuf:"fixed32,9,opt,name=f9"`
	FUint64   *uint64  `protobuf:"varint,7,opt,name=f7"`
	FInt64    *int64   `protobuf:"varint,5,opt,name=f5"`
	FSint32   *int32   `protobuf:"zigzag32,3,opt,name=f3"`
	FBool     *bool    `protobuf:"varint,1,opt,name=f1"`
}

type Rep struct {
	FInt32        []int32   `protobuf:"varint,2,rep,name=f2"`
	FUint32       []uint32  `protobuf:"varint,4,rep,name=f4"`
	FSint64       []int64   `protobuf:"zigzag64,6,rep,name=f6"`
	FSfixed32     []int32   `protobuf:"fixed32,8,rep,name=f8"`
	FFloat        []float32 `protobuf:"fixed32,10,rep,name=f10"`
	FFixed64      []uint64  `protobuf:"fixed64,12,rep,name=f12"`
	FString       []string  `protobuf:"bytes,14,rep,name=f14"`
	FBytes        [][]byte  `protobuf:"bytes,15,rep,name=f15"`
	FDouble       []float64 `protobuf:"fixed64,13,rep,name=f13"`
	FSfixed64     []int64   `protobuf:"fixed64,11,rep,name=f11"`
	FFixed32      []uint32  `protobuf:"fixed32,9,rep,name=f9"`
	FUint64       []uint64  `protobuf:"varint,7,rep,name=f7"`
	FInt64        []int64   `protobuf:"varint,5,rep,name=f5"`
	FSint32       []int32   `protobuf:"zigzag32,3,rep,name=f3"`
	FBool         []bool    `protobuf:"varint,1,rep,name=f1"`
	unknownFields []byte
}

type Packed struct {
	FInt32    []int32   `protobuf:"varint,2,rep,name=f2,packed,proto3"`
	FUint32   []uint32  `protobuf:"varint,4,rep,name=f4,packed,proto3"`
	FSint64   []int64   `protobuf:"zigzag64,6,rep,name=f6,packed,proto3"`
	FSfixed32 []int32   `protobuf:"fixed32,8,rep,name=f8,packed,proto3"`
	FFloat    []float32 `protobuf:"fixed32,10,rep,name=f10,packed,proto3"`
	FFixed64  []uint64  `protobuf:"fixed64,12,rep,name=f12,packed,proto3"`
	FDouble   []float64 `protobuf:"fixed64,13,rep,name=f13,packed,proto3"`
	FSfixed64 []int64   `protobuf:"fixed64,11,rep,name=f11,packed,proto3"`
	FFixed32  []uint32  `protobuf:"fixed32,9,rep,name=f9,packed,proto3"`
	FUint64   []uint64  `protobuf:"varint,7,rep,name=f7,packed,proto3"`
	FInt64    []int64   `protobuf:"varint,5,rep,name=f5,packed,proto3"`
	FSint32   []int32   `protobuf:"zigzag32,3,rep,name=f3,packed,proto3"`
	FBool     []bool    `protobuf:"varint,1,rep,name=f1,packed,proto3"`
}

type ImplicitNum struct {
	FInt32        int32   `protobuf:"varint,17,opt,name=f17,proto3"`
	FUint32       uint32  `protobuf:"varint,2048,opt,name=f2048,proto3"`
	FSint64       int64   `protobuf:"zigzag64,1000,opt,name=f1000,proto3"`
	FSfixed32     int32   `protobuf:"fixed32,1002,opt,name=f1002,proto3"`
	FFloat        float32 `protobuf:"fixed32,536870910,opt,name=f536870910,proto3"`
	FFixed64      uint64  `protobuf:"fixed64,262143,opt,name=f262143,proto3"`
	FString       string  `protobuf:"bytes,18999,opt,name=f18999,proto3"`
	FBytes        []byte  `protobuf:"bytes,33554431,opt,name=f33554431,proto3"`
	FDouble       float64 `protobuf:"fixed64,262144,opt,name=f262144,proto3"`
	FSfixed64     int64   `protobuf:"fixed64,20000,opt,name=f20000,proto3"`
	FFixed32      uint32  `protobuf:"fixed32,536870911,opt,name=f536870911,proto3"`
	FUint64       uint64  `protobuf:"varint,1001,opt,name=f1001,proto3"`
	FInt64        int64   `protobuf:"varint,999,opt,name=f999,proto3"`
	FSint32       int32   `protobuf:"zigzag32,2047,opt,name=f2047,proto3"`
	FBool         bool    `protobuf:"varint,16,opt,name=f16,proto3"`
	unknownFields []byte
}

type ExplicitNum struct {
	FInt32    *int32   `protobuf:"varint,17,opt,name=f17,proto3,oneof"`
	FUint32   *uint32  `protobuf:"varint,2048,opt,name=f2048,proto3,oneof"`
	FSint64   *int64   `protobuf:"zigzag64,1000,opt,name=f1000,proto3,oneof"`
	FSfixed32 *int32   `protobuf:"fixed32,1002,opt,name=f1002,proto3,oneof"`
	FFloat    *float32 `protobuf:"fixed32,536870910,opt,name=f536870910,proto3,oneof"`
	FFixed64  *uint64  `protobuf:"fixed64,262143,opt,name=f262143,proto3,oneof"`
	FString   *string  `protobuf:"bytes,18999,opt,name=f18999,proto3,oneof"`
	FBytes    []byte   `protobuf:"bytes,33554431,opt,name=f33554431,proto3,oneof"`
	FDouble   *float64 `protobuf:"fixed64,262144,opt,name=f262144,proto3,oneof"`
	FSfixed64 *int64   `protobuf:"fixed64,20000,opt,name=f20000,proto3,oneof"`
	FFixed32  *uint32  `protobuf:"fixed32,536870911,opt,name=f536870911,proto3,oneof"`
	FUint64   *uint64  `protobuf:"varint,1001,opt,name=f1001,proto3,oneof"`
	FInt64    *int64   `protobuf:"varint,999,opt,name=f999,proto3,oneof"`
	FSint32   *int32   `protobuf:"zigzag32,2047,opt,name=f2047,proto3,oneof"`
	FBool     *bool    `protobuf:"varint,16,opt,name=f16,proto3,oneof"`
}

type RepNum struct {
	FInt32        []int32   `protobuf:"varint,17,rep,name=f17"`
	FUint32       []uint32  `protobuf:"varint,2048,rep,name=f2048"`
	FSint64       []int64   `protobuf:"zigzag64,1000,rep,name=f1000"`
	FSfixed32     []int32   `protobuf:"fixed32,1002,rep,name=f1002"`
	FFloat        []float32 `protobuf:"fixed32,536870910,rep,name=f536870910"`
	FFixed64      []uint64  `protobuf:"fixed64,262143,rep,name=f262143"`
	FString       []string  `protobuf:"bytes,18999,rep,name=f18999"`
	FBytes        [][]byte  `protobuf:"bytes,33554431,rep,name=f33554431"`
	FDouble       []float64 `protobuf:"fixed64,262144,rep,name=f262144"`
	FSfixed64     []int64   `protobuf:"fixed64,20000,rep,name=f20000"`
	FFixed32      []uint32  `protobuf:"fixed32,536870911,rep,name=f536870911"`
	FUint64       []uint64  `protobuf:"varint,1001,rep,name=f1001"`
	FInt64        []int64   `protobuf:"varint,999,rep,name=f999"`
	FSint32       []int32   `protobuf:"zigzag32,2047,rep,name=f2047"`
	FBool         []bool    `protobuf:"varint,16,rep,name=f16"`
	unknownFields []byte
}

type PackedNum struct {
	FInt32    []int32   `protobuf:"varint,17,rep,name=f17,packed,proto3"`
	FUint32   []uint32  `protobuf:"varint,2048,rep,name=f2048,packed,proto3"`
	FSint64   []int64   `protobuf:"zigzag64,1000,rep,name=f1000,packed,proto3"`
	FSfixed32 []int32   `protobuf:"fixed32,1002,rep,name=f1002,packed,proto3"`
	FFloat    []float32 `protobuf:"fixed32,536870910,rep,name=f536870910,packed,proto3"`
	FFixed64  []uint64  `protobuf:"fixed64,262143,rep,name=f262143,packed,proto3"`
	FDouble   []float64 `protobuf:"fixed64,262144,rep,name=f262144,packed,proto3"`
	FSfixed64 []int64   `protobuf:"fixed64,20000,rep,name=f20000,packed,proto3"`
	FFixed32  []uint32  `protobuf:"fixed32,536870911,rep,name=f536870911,packed,proto3"`
	FUint64   []uint64  `protobuf:"varint,1001,rep,name=f1001,packed,proto3"`
	FInt64    []int64   `protobuf:"varint,999,rep,name=f999,packed,proto3"`
	FSint32   []int32   `protobuf:"zigzag32,2047,rep,name=f2047,packed,proto3"`
	FBool     []bool    `protobuf:"varint,16,rep,name=f16,packed,proto3"`
}

type Required struct {
	FInt32    *int32   `protobuf:"varint,2,req,name=f2"`
	FUint32   *uint32  `protobuf:"varint,4,req,name=f4"`
	FSint64   *int64   `protobuf:"zigzag64,6,req,name=f6"`
	FSfixed32 *int32   `protobuf:"fixed32,8,req,name=f8"`
	FFloat    *float32 `protobuf:"fixed32,10,req,name=f10"`
	FFixed64  *uint64  `protobuf:"fixed64,12,req,name=f12"`
	FString   *string  `protobuf:"bytes,14,req,name=f14"`
	FBytes    []byte   `protobuf:"bytes,15,req,name=f15"`
	FDouble   *float64 `protobuf:"fixed64,13,req,name=f13"`
	FSfixed64 *int64   `protobuf:"fixed64,11,req,name=f11"`
	FFixed32  *uint32  `protobuf:"fixed32,9,req,name=f9"`
	FUint64   *uint64  `protobuf:"varint,7,req,name=f7"`
	FInt64    *int64   `protobuf:"varint,5,req,name=f5"`
	FSint32   *int32   `protobuf:"zigzag32,3,req,name=f3"`
	FBool     *bool    `protobuf:"varint,1,req,name=f1"`
}

type ReqVal struct {
	FInt32    int32   `protobuf:"varint,2,req,name=f2,proto3"`
	FUint32   uint32  `protobuf:"varint,4,req,name=f4,proto3"`
	FSint64   int64   `protobuf:"zigzag64,6,req,name=f6,proto3"`
	FSfixed32 int32   `protobuf:"fixed32,8,req,name=f8,proto3"`
	FFloat    float32 `protobuf:"fixed32,10,req,name=f10,proto3"`
	FFixed64  uint64  `protobuf:"fixed64,12,req,name=f12,proto3"`
	FString   string  `protobuf:"bytes,14,req,name=f14,proto3"`
	FBytes    []byte  `protobuf:"bytes,15,opt,name=f15,proto3"`
	FDouble   float64 `protobuf:"fixed64,13,req,name=f13,proto3"`
	FSfixed64 int64   `protobuf:"fixed64,11,req,name=f11,proto3"`
	FFixed32  uint32  `protobuf:"fixed32,9,req,name=f9,proto3"`
	FUint64   uint64  `protobuf:"varint,7,req,name=f7,proto3"`
	FInt64    int64   `protobuf:"varint,5,req,name=f5,proto3"`
	FSint32   int32   `protobuf:"zigzag32,3,req,name=f3,proto3"`
	FBool     bool    `protobuf:"varint,1,req,name=f1,proto3"`
	PB        *[]byte `protobuf:"bytes,16,opt,name=f16"`
}

type MapBool struct {
	VBool     map[bool]bool      `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[bool]int32     `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[bool]int32     `protobuf:"bytes,15,rep,name=f15" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[bool]uint32    `protobuf:"bytes,5,rep,name=f5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[bool]int64     `protobuf:"bytes,12,rep,name=f12" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[bool]int64     `protobuf:"bytes,2,rep,name=f2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[bool]uint64    `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[bool]int32     `protobuf:"bytes,16,rep,name=f16" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[bool]uint32    `protobuf:"bytes,6,rep,name=f6" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[bool]float32   `protobuf:"bytes,13,rep,name=f13" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[bool]int64     `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[bool]uint64    `protobuf:"bytes,10,rep,name=f10" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[bool]float64   `protobuf:"bytes,17,rep,name=f17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[bool]string    `protobuf:"bytes,7,rep,name=f7" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[bool][]byte    `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[bool]*Leaf     `protobuf:"bytes,30,rep,name=f30" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[bool]Leaf      `protobuf:"bytes,31,rep,name=f31" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[bool]*EmptyMsg `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[bool]EmptyMsg  `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[bool]*MapBool  `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[bool]*LeafU    `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapInt32 struct {
	VBool     map[int32]bool      `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[int32]int32     `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[int32]int32     `protobuf:"bytes,15,rep,name=f15" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[int32]uint32    `protobuf:"bytes,5,rep,name=f5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[int32]int64     `protobuf:"bytes,12,rep,name=f12" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[int32]int64     `protobuf:"bytes,2,rep,name=f2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[int32]uint64    `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[int32]int32     `protobuf:"bytes,16,rep,name=f16" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[int32]uint32    `protobuf:"bytes,6,rep,name=f6" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[int32]float32   `protobuf:"bytes,13,rep,name=f13" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[int32]int64     `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[int32]uint64    `protobuf:"bytes,10,rep,name=f10" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[int32]float64   `protobuf:"bytes,17,rep,name=f17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[int32]string    `protobuf:"bytes,7,rep,name=f7" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[int32][]byte    `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[int32]*Leaf     `protobuf:"bytes,30,rep,name=f30" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[int32]Leaf      `protobuf:"bytes,31,rep,name=f31" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[int32]*EmptyMsg `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[int32]EmptyMsg  `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[int32]*MapInt32 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[int32]*LeafU    `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapSint32 struct {
	VBool     map[int32]bool       `protobuf:"bytes,1,rep,name=f1" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[int32]int32      `protobuf:"bytes,8,rep,name=f8" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[int32]int32      `protobuf:"bytes,15,rep,name=f15" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[int32]uint32     `protobuf:"bytes,5,rep,name=f5" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[int32]int64      `protobuf:"bytes,12,rep,name=f12" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[int32]int64      `protobuf:"bytes,2,rep,name=f2" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[int32]uint64     `protobuf:"bytes,9,rep,name=f9" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[int32]int32      `protobuf:"bytes,16,rep,name=f16" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[int32]uint32     `protobuf:"bytes,6,rep,name=f6" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[int32]float32    `protobuf:"bytes,13,rep,name=f13" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[int32]int64      `protobuf:"bytes,3,rep,name=f3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[int32]uint64     `protobuf:"bytes,10,rep,name=f10" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[int32]float64    `protobuf:"bytes,17,rep,name=f17" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[int32]string     `protobuf:"bytes,7,rep,name=f7" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[int32][]byte     `protobuf:"bytes,14,rep,name=f14" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[int32]*Leaf      `protobuf:"bytes,30,rep,name=f30" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[int32]Leaf       `protobuf:"bytes,31,rep,name=f31" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[int32]*EmptyMsg  `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[int32]EmptyMsg   `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[int32]*MapSint32 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[int32]*LeafU     `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapUint32 struct {
	VBool     map[uint32]bool       `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[uint32]int32      `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[uint32]int32      `protobuf:"bytes,15,rep,name=f15" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[uint32]uint32     `protobuf:"bytes,5,rep,name=f5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[uint32]int64      `protobuf:"bytes,12,rep,name=f12" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[uint32]int64      `protobuf:"bytes,2,rep,name=f2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[uint32]uint64     `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[uint32]int32      `protobuf:"bytes,16,rep,name=f16" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[uint32]uint32     `protobuf:"bytes,6,rep,name=f6" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[uint32]float32    `protobuf:"bytes,13,rep,name=f13" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[uint32]int64      `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[uint32]uint64     `protobuf:"bytes,10,rep,name=f10" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[uint32]float64    `protobuf:"bytes,17,rep,name=f17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[uint32]string     `protobuf:"bytes,7,rep,name=f7" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[uint32][]byte     `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[uint32]*Leaf      `protobuf:"bytes,30,rep,name=f30" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[uint32]Leaf       `protobuf:"bytes,31,rep,name=f31" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[uint32]*EmptyMsg  `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[uint32]EmptyMsg   `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[uint32]*MapUint32 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[uint32]*LeafU     `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapInt64 struct {
	VBool     map[int64]bool      `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[int64]int32     `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[int64]int32     `protobuf:"bytes,15,rep,name=f15" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[int64]uint32    `protobuf:"bytes,5,rep,name=f5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[int64]int64     `protobuf:"bytes,12,rep,name=f12" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[int64]int64     `protobuf:"bytes,2,rep,name=f2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[int64]uint64    `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[int64]int32     `protobuf:"bytes,16,rep,name=f16" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[int64]uint32    `protobuf:"bytes,6,rep,name=f6" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[int64]float32   `protobuf:"bytes,13,rep,name=f13" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[int64]int64     `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[int64]uint64    `protobuf:"bytes,10,rep,name=f10" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[int64]float64   `protobuf:"bytes,17,rep,name=f17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[int64]string    `protobuf:"bytes,7,rep,name=f7" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[int64][]byte    `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[int64]*Leaf     `protobuf:"bytes,30,rep,name=f30" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[int64]Leaf      `protobuf:"bytes,31,rep,name=f31" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[int64]*EmptyMsg `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[int64]EmptyMsg  `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[int64]*MapInt64 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[int64]*LeafU    `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapSint64 struct {
	VBool     map[int64]bool       `protobuf:"bytes,1,rep,name=f1" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[int64]int32      `protobuf:"bytes,8,rep,name=f8" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[int64]int32      `protobuf:"bytes,15,rep,name=f15" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[int64]uint32     `protobuf:"bytes,5,rep,name=f5" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[int64]int64      `protobuf:"bytes,12,rep,name=f12" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[int64]int64      `protobuf:"bytes,2,rep,name=f2" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[int64]uint64     `protobuf:"bytes,9,rep,name=f9" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[int64]int32      `protobuf:"bytes,16,rep,name=f16" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[int64]uint32     `protobuf:"bytes,6,rep,name=f6" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[int64]float32    `protobuf:"bytes,13,rep,name=f13" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[int64]int64      `protobuf:"bytes,3,rep,name=f3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[int64]uint64     `protobuf:"bytes,10,rep,name=f10" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[int64]float64    `protobuf:"bytes,17,rep,name=f17" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[int64]string     `protobuf:"bytes,7,rep,name=f7" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[int64][]byte     `protobuf:"bytes,14,rep,name=f14" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[int64]*Leaf      `protobuf:"bytes,30,rep,name=f30" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[int64]Leaf       `protobuf:"bytes,31,rep,name=f31" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[int64]*EmptyMsg  `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[int64]EmptyMsg   `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[int64]*MapSint64 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[int64]*LeafU     `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapUint64 struct {
	VBool     map[uint64]bool       `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[uint64]int32      `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[uint64]int32      `protobuf:"bytes,15,rep,name=f15" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[uint64]uint32     `protobuf:"bytes,5,rep,name=f5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[uint64]int64      `protobuf:"bytes,12,rep,name=f12" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[uint64]int64      `protobuf:"bytes,2,rep,name=f2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[uint64]uint64     `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[uint64]int32      `protobuf:"bytes,16,rep,name=f16" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[uint64]uint32     `protobuf:"bytes,6,rep,name=f6" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[uint64]float32    `protobuf:"bytes,13,rep,name=f13" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[uint64]int64      `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[uint64]uint64     `protobuf:"bytes,10,rep,name=f10" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[uint64]float64    `protobuf:"bytes,17,rep,name=f17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[uint64]string     `protobuf:"bytes,7,rep,name=f7" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[uint64][]byte     `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[uint64]*Leaf      `protobuf:"bytes,30,rep,name=f30" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[uint64]Leaf       `protobuf:"bytes,31,rep,name=f31" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[uint64]*EmptyMsg  `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[uint64]EmptyMsg   `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[uint64]*MapUint64 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[uint64]*LeafU     `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapSfixed32 struct {
	VBool     map[int32]bool         `protobuf:"bytes,1,rep,name=f1" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[int32]int32        `protobuf:"bytes,8,rep,name=f8" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[int32]int32        `protobuf:"bytes,15,rep,name=f15" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[int32]uint32       `protobuf:"bytes,5,rep,name=f5" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[int32]int64        `protobuf:"bytes,12,rep,name=f12" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[int32]int64        `protobuf:"bytes,2,rep,name=f2" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[int32]uint64       `protobuf:"bytes,9,rep,name=f9" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[int32]int32        `protobuf:"bytes,16,rep,name=f16" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[int32]uint32       `protobuf:"bytes,6,rep,name=f6" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[int32]float32      `protobuf:"bytes,13,rep,name=f13" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[int32]int64        `protobuf:"bytes,3,rep,name=f3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[int32]uint64       `protobuf:"bytes,10,rep,name=f10" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[int32]float64      `protobuf:"bytes,17,rep,name=f17" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[int32]string       `protobuf:"bytes,7,rep,name=f7" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[int32][]byte       `protobuf:"bytes,14,rep,name=f14" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[int32]*Leaf        `protobuf:"bytes,30,rep,name=f30" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[int32]Leaf         `protobuf:"bytes,31,rep,name=f31" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[int32]*EmptyMsg    `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[int32]EmptyMsg     `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[int32]*MapSfixed32 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[int32]*LeafU       `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapFixed32 struct {
	VBool     map[uint32]bool        `protobuf:"bytes,1,rep,name=f1" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[uint32]int32       `protobuf:"bytes,8,rep,name=f8" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[uint32]int32       `protobuf:"bytes,15,rep,name=f15" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[uint32]uint32      `protobuf:"bytes,5,rep,name=f5" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[uint32]int64       `protobuf:"bytes,12,rep,name=f12" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[uint32]int64       `protobuf:"bytes,2,rep,name=f2" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[uint32]uint64      `protobuf:"bytes,9,rep,name=f9" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[uint32]int32       `protobuf:"bytes,16,rep,name=f16" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[uint32]uint32      `protobuf:"bytes,6,rep,name=f6" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[uint32]float32     `protobuf:"bytes,13,rep,name=f13" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[uint32]int64       `protobuf:"bytes,3,rep,name=f3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[uint32]uint64      `protobuf:"bytes,10,rep,name=f10" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[uint32]float64     `protobuf:"bytes,17,rep,name=f17" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[uint32]string      `protobuf:"bytes,7,rep,name=f7" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[uint32][]byte      `protobuf:"bytes,14,rep,name=f14" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[uint32]*Leaf       `protobuf:"bytes,30,rep,name=f30" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[uint32]Leaf        `protobuf:"bytes,31,rep,name=f31" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[uint32]*EmptyMsg   `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[uint32]EmptyMsg    `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[uint32]*MapFixed32 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[uint32]*LeafU      `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapSfixed64 struct {
	VBool     map[int64]bool         `protobuf:"bytes,1,rep,name=f1" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[int64]int32        `protobuf:"bytes,8,rep,name=f8" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[int64]int32        `protobuf:"bytes,15,rep,name=f15" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[int64]uint32       `protobuf:"bytes,5,rep,name=f5" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[int64]int64        `protobuf:"bytes,12,rep,name=f12" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[int64]int64        `protobuf:"bytes,2,rep,name=f2" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[int64]uint64       `protobuf:"bytes,9,rep,name=f9" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[int64]int32        `protobuf:"bytes,16,rep,name=f16" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[int64]uint32       `protobuf:"bytes,6,rep,name=f6" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[int64]float32      `protobuf:"bytes,13,rep,name=f13" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[int64]int64        `protobuf:"bytes,3,rep,name=f3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[int64]uint64       `protobuf:"bytes,10,rep,name=f10" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[int64]float64      `protobuf:"bytes,17,rep,name=f17" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[int64]string       `protobuf:"bytes,7,rep,name=f7" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[int64][]byte       `protobuf:"bytes,14,rep,name=f14" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[int64]*Leaf        `protobuf:"bytes,30,rep,name=f30" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[int64]Leaf         `protobuf:"bytes,31,rep,name=f31" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[int64]*EmptyMsg    `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[int64]EmptyMsg     `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[int64]*MapSfixed64 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[int64]*LeafU       `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapFixed64 struct {
	VBool     map[uint64]bool        `protobuf:"bytes,1,rep,name=f1" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[uint64]int32       `protobuf:"bytes,8,rep,name=f8" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[uint64]int32       `protobuf:"bytes,15,rep,name=f15" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[uint64]uint32      `protobuf:"bytes,5,rep,name=f5" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[uint64]int64       `protobuf:"bytes,12,rep,name=f12" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[uint64]int64       `protobuf:"bytes,2,rep,name=f2" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[uint64]uint64      `protobuf:"bytes,9,rep,name=f9" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[uint64]int32       `protobuf:"bytes,16,rep,name=f16" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[uint64]uint32      `protobuf:"bytes,6,rep,name=f6" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[uint64]float32     `protobuf:"bytes,13,rep,name=f13" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[uint64]int64       `protobuf:"bytes,3,rep,name=f3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[uint64]uint64      `protobuf:"bytes,10,rep,name=f10" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[uint64]float64     `protobuf:"bytes,17,rep,name=f17" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[uint64]string      `protobuf:"bytes,7,rep,name=f7" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[uint64][]byte      `protobuf:"bytes,14,rep,name=f14" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[uint64]*Leaf       `protobuf:"bytes,30,rep,name=f30" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[uint64]Leaf        `protobuf:"bytes,31,rep,name=f31" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[uint64]*EmptyMsg   `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[uint64]EmptyMsg    `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[uint64]*MapFixed64 `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[uint64]*LeafU      `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type MapString struct {
	VBool     map[string]bool       `protobuf:"bytes,1,rep,name=f1" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt32    map[string]int32      `protobuf:"bytes,8,rep,name=f8" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint32   map[string]int32      `protobuf:"bytes,15,rep,name=f15" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	VUint32   map[string]uint32     `protobuf:"bytes,5,rep,name=f5" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VInt64    map[string]int64      `protobuf:"bytes,12,rep,name=f12" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSint64   map[string]int64      `protobuf:"bytes,2,rep,name=f2" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	VUint64   map[string]uint64     `protobuf:"bytes,9,rep,name=f9" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	VSfixed32 map[string]int32      `protobuf:"bytes,16,rep,name=f16" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFixed32  map[string]uint32     `protobuf:"bytes,6,rep,name=f6" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VFloat    map[string]float32    `protobuf:"bytes,13,rep,name=f13" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	VSfixed64 map[string]int64      `protobuf:"bytes,3,rep,name=f3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VFixed64  map[string]uint64     `protobuf:"bytes,10,rep,name=f10" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VDouble   map[string]float64    `protobuf:"bytes,17,rep,name=f17" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	VString   map[string]string     `protobuf:"bytes,7,rep,name=f7" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VBytes    map[string][]byte     `protobuf:"bytes,14,rep,name=f14" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsg      map[string]*Leaf      `protobuf:"bytes,30,rep,name=f30" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VMsgVal   map[string]Leaf       `protobuf:"bytes,31,rep,name=f31" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmpty    map[string]*EmptyMsg  `protobuf:"bytes,1900,rep,name=f1900" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VEmptyVal map[string]EmptyMsg   `protobuf:"bytes,1901,rep,name=f1901" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VSelf     map[string]*MapString `protobuf:"bytes,1902,rep,name=f1902" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	VU        map[string]*LeafU     `protobuf:"bytes,1903,rep,name=f1903" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type isOneofAll_One interface{ isOneofAll_One() }

type OneofAll_ABool struct {
	ABool bool `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
}

func (*OneofAll_ABool) isOneofAll_One() {}

type OneofAll_AInt32 struct {
	AInt32 int32 `protobuf:"varint,2,opt,name=f2,proto3,oneof"`
}

func (*OneofAll_AInt32) isOneofAll_One() {}

type OneofAll_ASint32 struct {
	ASint32 int32 `protobuf:"zigzag32,3,opt,name=f3,proto3,oneof"`
}

func (*OneofAll_ASint32) isOneofAll_One() {}

type OneofAll_AUint32 struct {
	AUint32 uint32 `protobuf:"varint,4,opt,name=f4,proto3,oneof"`
}

func (*OneofAll_AUint32) isOneofAll_One() {}

type OneofAll_AInt64 struct {
	AInt64 int64 `protobuf:"varint,5,opt,name=f5,proto3,oneof"`
}

func (*OneofAll_AInt64) isOneofAll_One() {}

type OneofAll_ASint64 struct {
	ASint64 int64 `protobuf:"zigzag64,6,opt,name=f6,proto3,oneof"`
}

func (*OneofAll_ASint64) isOneofAll_One() {}

type OneofAll_AUint64 struct {
	AUint64 uint64 `protobuf:"varint,7,opt,name=f7,proto3,oneof"`
}

func (*OneofAll_AUint64) isOneofAll_One() {}

type OneofAll_ASfixed32 struct {
	ASfixed32 int32 `protobuf:"fixed32,8,opt,name=f8,proto3,oneof"`
}

func (*OneofAll_ASfixed32) isOneofAll_One() {}

type OneofAll_AFixed32 struct {
	AFixed32 uint32 `protobuf:"fixed32,9,opt,name=f9,proto3,oneof"`
}

func (*OneofAll_AFixed32) isOneofAll_One() {}

type OneofAll_AFloat struct {
	AFloat float32 `protobuf:"fixed32,10,opt,name=f10,proto3,oneof"`
}

func (*OneofAll_AFloat) isOneofAll_One() {}

type OneofAll_ASfixed64 struct {
	ASfixed64 int64 `protobuf:"fixed64,11,opt,name=f11,proto3,oneof"`
}

func (*OneofAll_ASfixed64) isOneofAll_One() {}

type OneofAll_AFixed64 struct {
	AFixed64 uint64 `protobuf:"fixed64,12,opt,name=f12,proto3,oneof"`
}

func (*OneofAll_AFixed64) isOneofAll_One() {}

type OneofAll_ADouble struct {
	ADouble float64 `protobuf:"fixed64,13,opt,name=f13,proto3,oneof"`
}

func (*OneofAll_ADouble) isOneofAll_One() {}

type OneofAll_AString struct {
	AString string `protobuf:"bytes,14,opt,name=f14,proto3,oneof"`
}

func (*OneofAll_AString) isOneofAll_One() {}

type OneofAll_ABytes struct {
	ABytes []byte `protobuf:"bytes,15,opt,name=f15,proto3,oneof"`
}

func (*OneofAll_ABytes) isOneofAll_One() {}

type OneofAll_AMsg struct {
	AMsg *Leaf `protobuf:"bytes,21,opt,name=f21,proto3,oneof"`
}

func (*OneofAll_AMsg) isOneofAll_One() {}

type OneofAll_ASelf struct {
	ASelf *OneofAll `protobuf:"bytes,22,opt,name=f22,proto3,oneof"`
}

func (*OneofAll_ASelf) isOneofAll_One() {}

type OneofAll_AEmpty struct {
	AEmpty *EmptyMsg `protobuf:"bytes,23,opt,name=f23,proto3,oneof"`
}

func (*OneofAll_AEmpty) isOneofAll_One() {}

type isOneofAll_Two interface{ isOneofAll_Two() }

type OneofAll_BBool struct {
	BBool bool `protobuf:"varint,101,opt,name=f101,proto3,oneof"`
}

func (*OneofAll_BBool) isOneofAll_Two() {}

type OneofAll_BInt64 struct {
	BInt64 int64 `protobuf:"varint,105,opt,name=f105,proto3,oneof"`
}

func (*OneofAll_BInt64) isOneofAll_Two() {}

type OneofAll_BFloat struct {
	BFloat float32 `protobuf:"fixed32,110,opt,name=f110,proto3,oneof"`
}

func (*OneofAll_BFloat) isOneofAll_Two() {}

type OneofAll_BBytes struct {
	BBytes []byte `protobuf:"bytes,115,opt,name=f115,proto3,oneof"`
}

func (*OneofAll_BBytes) isOneofAll_Two() {}

type OneofAll_BMsg struct {
	BMsg *LeafU `protobuf:"bytes,131,opt,name=f131,proto3,oneof"`
}

func (*OneofAll_BMsg) isOneofAll_Two() {}

type OneofAll_BVal struct {
	BVal Leaf `protobuf:"bytes,132,opt,name=f132,proto3,oneof"`
}

func (*OneofAll_BVal) isOneofAll_Two() {}

type OneofAll struct {
	X             int32          `protobuf:"varint,31,opt,name=f31,proto3"`
	One           isOneofAll_One `protobuf_oneof:"one"`
	S             string         `protobuf:"bytes,32,opt,name=f32,proto3"`
	R             []int64        `protobuf:"varint,33,rep,name=f33,packed"`
	Two           isOneofAll_Two `protobuf_oneof:"two"`
	M             *Leaf          `protobuf:"bytes,34,opt,name=f34,proto3"`
	unknownFields []byte
}

func (*OneofAll) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*OneofAll_ABool)(nil), (*OneofAll_AInt32)(nil), (*OneofAll_ASint32)(nil), (*OneofAll_AUint32)(nil), (*OneofAll_AInt64)(nil), (*OneofAll_ASint64)(nil), (*OneofAll_AUint64)(nil), (*OneofAll_ASfixed32)(nil), (*OneofAll_AFixed32)(nil), (*OneofAll_AFloat)(nil), (*OneofAll_ASfixed64)(nil), (*OneofAll_AFixed64)(nil), (*OneofAll_ADouble)(nil), (*OneofAll_AString)(nil), (*OneofAll_ABytes)(nil), (*OneofAll_AMsg)(nil), (*OneofAll_ASelf)(nil), (*OneofAll_AEmpty)(nil), (*OneofAll_BBool)(nil), (*OneofAll_BInt64)(nil), (*OneofAll_BFloat)(nil), (*OneofAll_BBytes)(nil), (*OneofAll_BMsg)(nil), (*OneofAll_BVal)(nil)}
}

type isOneofHigh_One interface{ isOneofHigh_One() }

type OneofHigh_ABool struct {
	ABool bool `protobuf:"varint,2040,opt,name=f2040,proto3,oneof"`
}

func (*OneofHigh_ABool) isOneofHigh_One() {}

type OneofHigh_AInt32 struct {
	AInt32 int32 `protobuf:"varint,2041,opt,name=f2041,proto3,oneof"`
}

func (*OneofHigh_AInt32) isOneofHigh_One() {}

type OneofHigh_ASint32 struct {
	ASint32 int32 `protobuf:"zigzag32,2042,opt,name=f2042,proto3,oneof"`
}

func (*OneofHigh_ASint32) isOneofHigh_One() {}

type OneofHigh_AUint32 struct {
	AUint32 uint32 `protobuf:"varint,2043,opt,name=f2043,proto3,oneof"`
}

func (*OneofHigh_AUint32) isOneofHigh_One() {}

type OneofHigh_AInt64 struct {
	AInt64 int64 `protobuf:"varint,2044,opt,name=f2044,proto3,oneof"`
}

func (*OneofHigh_AInt64) isOneofHigh_One() {}

type OneofHigh_ASint64 struct {
	ASint64 int64 `protobuf:"zigzag64,2045,opt,name=f2045,proto3,oneof"`
}

func (*OneofHigh_ASint64) isOneofHigh_One() {}

type OneofHigh_AUint64 struct {
	AUint64 uint64 `protobuf:"varint,2046,opt,name=f2046,proto3,oneof"`
}

func (*OneofHigh_AUint64) isOneofHigh_One() {}

type OneofHigh_ASfixed32 struct {
	ASfixed32 int32 `protobuf:"fixed32,2047,opt,name=f2047,proto3,oneof"`
}

func (*OneofHigh_ASfixed32) isOneofHigh_One() {}

type OneofHigh_AFixed32 struct {
	AFixed32 uint32 `protobuf:"fixed32,2048,opt,name=f2048,proto3,oneof"`
}

func (*OneofHigh_AFixed32) isOneofHigh_One() {}

type OneofHigh_AFloat struct {
	AFloat float32 `protobuf:"fixed32,2049,opt,name=f2049,proto3,oneof"`
}

func (*OneofHigh_AFloat) isOneofHigh_One() {}

type OneofHigh_ASfixed64 struct {
	ASfixed64 int64 `protobuf:"fixed64,2050,opt,name=f2050,proto3,oneof"`
}

func (*OneofHigh_ASfixed64) isOneofHigh_One() {}

type OneofHigh_AFixed64 struct {
	AFixed64 uint64 `protobuf:"fixed64,2051,opt,name=f2051,proto3,oneof"`
}

func (*OneofHigh_AFixed64) isOneofHigh_One() {}

type OneofHigh_ADouble struct {
	ADouble float64 `protobuf:"fixed64,2052,opt,name=f2052,proto3,oneof"`
}

func (*OneofHigh_ADouble) isOneofHigh_One() {}

type OneofHigh_AString struct {
	AString string `protobuf:"bytes,2053,opt,name=f2053,proto3,oneof"`
}

func (*OneofHigh_AString) isOneofHigh_One() {}

type OneofHigh_ABytes struct {
	ABytes []byte `protobuf:"bytes,2054,opt,name=f2054,proto3,oneof"`
}

func (*OneofHigh_ABytes) isOneofHigh_One() {}

type OneofHigh_AMsg struct {
	AMsg *Leaf `protobuf:"bytes,2060,opt,name=f2060,proto3,oneof"`
}

func (*OneofHigh_AMsg) isOneofHigh_One() {}

type OneofHigh_ASelf struct {
	ASelf *OneofHigh `protobuf:"bytes,2061,opt,name=f2061,proto3,oneof"`
}

func (*OneofHigh_ASelf) isOneofHigh_One() {}

type OneofHigh_AEmpty struct {
	AEmpty *EmptyMsg `protobuf:"bytes,2062,opt,name=f2062,proto3,oneof"`
}

func (*OneofHigh_AEmpty) isOneofHigh_One() {}

type isOneofHigh_Two interface{ isOneofHigh_Two() }

type OneofHigh_BBool struct {
	BBool bool `protobuf:"varint,2140,opt,name=f2140,proto3,oneof"`
}

func (*OneofHigh_BBool) isOneofHigh_Two() {}

type OneofHigh_BInt64 struct {
	BInt64 int64 `protobuf:"varint,2144,opt,name=f2144,proto3,oneof"`
}

func (*OneofHigh_BInt64) isOneofHigh_Two() {}

type OneofHigh_BFloat struct {
	BFloat float32 `protobuf:"fixed32,2149,opt,name=f2149,proto3,oneof"`
}

func (*OneofHigh_BFloat) isOneofHigh_Two() {}

type OneofHigh_BBytes struct {
	BBytes []byte `protobuf:"bytes,2154,opt,name=f2154,proto3,oneof"`
}

func (*OneofHigh_BBytes) isOneofHigh_Two() {}

type OneofHigh_BMsg struct {
	BMsg *LeafU `protobuf:"bytes,2170,opt,name=f2170,proto3,oneof"`
}

func (*OneofHigh_BMsg) isOneofHigh_Two() {}

type OneofHigh_BVal struct {
	BVal Leaf `protobuf:"bytes,2171,opt,name=f2171,proto3,oneof"`
}

func (*OneofHigh_BVal) isOneofHigh_Two() {}

type OneofHigh struct {
	X   int32           `protobuf:"varint,2070,opt,name=f2070,proto3"`
	One isOneofHigh_One `protobuf_oneof:"one"`
	S   string          `protobuf:"bytes,2071,opt,name=f2071,proto3"`
	R   []int64         `protobuf:"varint,2072,rep,name=f2072,packed"`
	Two isOneofHigh_Two `protobuf_oneof:"two"`
	M   *Leaf           `protobuf:"bytes,2073,opt,name=f2073,proto3"`
}

func (*OneofHigh) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*OneofHigh_ABool)(nil), (*OneofHigh_AInt32)(nil), (*OneofHigh_ASint32)(nil), (*OneofHigh_AUint32)(nil), (*OneofHigh_AInt64)(nil), (*OneofHigh_ASint64)(nil), (*OneofHigh_AUint64)(nil), (*OneofHigh_ASfixed32)(nil), (*OneofHigh_AFixed32)(nil), (*OneofHigh_AFloat)(nil), (*OneofHigh_ASfixed64)(nil), (*OneofHigh_AFixed64)(nil), (*OneofHigh_ADouble)(nil), (*OneofHigh_AString)(nil), (*OneofHigh_ABytes)(nil), (*OneofHigh_AMsg)(nil), (*OneofHigh_ASelf)(nil), (*OneofHigh_AEmpty)(nil), (*OneofHigh_BBool)(nil), (*OneofHigh_BInt64)(nil), (*OneofHigh_BFloat)(nil), (*OneofHigh_BBytes)(nil), (*OneofHigh_BMsg)(nil), (*OneofHigh_BVal)(nil)}
}

type isOneofSingle_Only interface{ isOneofSingle_Only() }

type OneofSingle_V struct {
	V uint32 `protobuf:"fixed32,5,opt,name=f5,oneof"`
}

func (*OneofSingle_V) isOneofSingle_Only() {}

type OneofSingle struct {
	Only isOneofSingle_Only `protobuf_oneof:"only"`
}

func (*OneofSingle) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*OneofSingle_V)(nil)}
}

type UBytes struct {
	A             int32             `protobuf:"varint,3,opt,name=f3,proto3"`
	S             string            `protobuf:"bytes,4,opt,name=f4,proto3"`
	L             []int32           `protobuf:"varint,5,rep,name=f5,packed"`
	Sub           *UBytes           `protobuf:"bytes,6,opt,name=f6"`
	Subs          []*UBytes         `protobuf:"bytes,7,rep,name=f7"`
	Vals          []UPtr            `protobuf:"bytes,8,rep,name=f8"`
	M             map[int32]*UOld   `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS            map[string]*UNone `protobuf:"bytes,10,rep,name=f10" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Val           UBytesLeaf        `protobuf:"bytes,11,opt,name=f11"`
	unknownFields []byte
}

type UPtr struct {
	A             int32             `protobuf:"varint,3,opt,name=f3,proto3"`
	S             string            `protobuf:"bytes,4,opt,name=f4,proto3"`
	L             []int32           `protobuf:"varint,5,rep,name=f5,packed"`
	Sub           *UPtr             `protobuf:"bytes,6,opt,name=f6"`
	Subs          []*UBytes         `protobuf:"bytes,7,rep,name=f7"`
	Vals          []UPtr            `protobuf:"bytes,8,rep,name=f8"`
	M             map[int32]*UOld   `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS            map[string]*UNone `protobuf:"bytes,10,rep,name=f10" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Val           UBytesLeaf        `protobuf:"bytes,11,opt,name=f11"`
	unknownFields *[]byte
}

type UOld struct {
	A                int32             `protobuf:"varint,3,opt,name=f3,proto3"`
	S                string            `protobuf:"bytes,4,opt,name=f4,proto3"`
	L                []int32           `protobuf:"varint,5,rep,name=f5,packed"`
	Sub              *UOld             `protobuf:"bytes,6,opt,name=f6"`
	Subs             []*UBytes         `protobuf:"bytes,7,rep,name=f7"`
	Vals             []UPtr            `protobuf:"bytes,8,rep,name=f8"`
	M                map[int32]*UOld   `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS               map[string]*UNone `protobuf:"bytes,10,rep,name=f10" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Val              UBytesLeaf        `protobuf:"bytes,11,opt,name=f11"`
	XXX_unrecognized []byte
}

type UOldPtr struct {
	A                int32             `protobuf:"varint,3,opt,name=f3,proto3"`
	S                string            `protobuf:"bytes,4,opt,name=f4,proto3"`
	L                []int32           `protobuf:"varint,5,rep,name=f5,packed"`
	Sub              *UOldPtr          `protobuf:"bytes,6,opt,name=f6"`
	Subs             []*UBytes         `protobuf:"bytes,7,rep,name=f7"`
	Vals             []UPtr            `protobuf:"bytes,8,rep,name=f8"`
	M                map[int32]*UOld   `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS               map[string]*UNone `protobuf:"bytes,10,rep,name=f10" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Val              UBytesLeaf        `protobuf:"bytes,11,opt,name=f11"`
	XXX_unrecognized *[]byte
}

type UNone struct {
	A    int32             `protobuf:"varint,3,opt,name=f3,proto3"`
	S    string            `protobuf:"bytes,4,opt,name=f4,proto3"`
	L    []int32           `protobuf:"varint,5,rep,name=f5,packed"`
	Sub  *UNone            `protobuf:"bytes,6,opt,name=f6"`
	Subs []*UBytes         `protobuf:"bytes,7,rep,name=f7"`
	Vals []UPtr            `protobuf:"bytes,8,rep,name=f8"`
	M    map[int32]*UOld   `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS   map[string]*UNone `protobuf:"bytes,10,rep,name=f10" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Val  UBytesLeaf        `protobuf:"bytes,11,opt,name=f11"`
}

type UBytesLeaf struct {
	Z             uint64 `protobuf:"varint,2,opt,name=f2"`
	unknownFields []byte
}

type Tree struct {
	V      int64            `protobuf:"zigzag64,1,opt,name=f1,proto3"`
	Left   *Tree            `protobuf:"bytes,2,opt,name=f2"`
	Right  *Tree            `protobuf:"bytes,3,opt,name=f3"`
	Kids   []*Tree          `protobuf:"bytes,4,rep,name=f4"`
	Vals   []Tree           `protobuf:"bytes,12,rep,name=f12"`
	ByI32  map[int32]*Tree  `protobuf:"bytes,5,rep,name=f5" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ByU64  map[uint64]*Tree `protobuf:"bytes,6,rep,name=f6" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ByStr  map[string]*Tree `protobuf:"bytes,7,rep,name=f7" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ByBool map[bool]*Tree   `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ByStrV map[string]Tree  `protobuf:"bytes,13,rep,name=f13" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	ByI64V map[int64]Tree   `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mut    *MutualA         `protobuf:"bytes,9,opt,name=f9"`
}

type isMutualA_Kind interface{ isMutualA_Kind() }

type MutualA_OTree struct {
	OTree *Tree `protobuf:"bytes,1,opt,name=f1,oneof"`
}

func (*MutualA_OTree) isMutualA_Kind() {}

type MutualA_OB struct {
	OB *MutualB `protobuf:"bytes,2,opt,name=f2,oneof"`
}

func (*MutualA_OB) isMutualA_Kind() {}

type MutualA_ON struct {
	ON int32 `protobuf:"varint,3,opt,name=f3,oneof"`
}

func (*MutualA_ON) isMutualA_Kind() {}

type MutualA struct {
	Kind isMutualA_Kind `protobuf_oneof:"kind"`
	B    *MutualB       `protobuf:"bytes,4,opt,name=f4"`
	Wrap ByValWrap      `protobuf:"bytes,5,opt,name=f5"`
}

func (*MutualA) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*MutualA_OTree)(nil), (*MutualA_OB)(nil), (*MutualA_ON)(nil)}
}

type MutualB struct {
	A  *MutualA            `protobuf:"bytes,1,opt,name=f1"`
	As []MutualA           `protobuf:"bytes,2,rep,name=f2"`
	T  map[uint32]*MutualA `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type ByValWrap struct {
	T *Tree `protobuf:"bytes,1,opt,name=f1"`
	N int32 `protobuf:"varint,2,opt,name=f2"`
}

type V1 struct {
	B bool `protobuf:"varint,1,opt,name=f1"`
}

type V4 struct {
	I int32 `protobuf:"varint,1,opt,name=f1"`
}

type V8 struct {
	I int64 `protobuf:"fixed64,1,opt,name=f1"`
}

type V8p struct {
	P *int32 `protobuf:"varint,1,opt,name=f1"`
}

type V8m struct {
	M map[int32]int32 `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

type V8two struct {
	A int32 `protobuf:"varint,1,opt,name=f1"`
	B int32 `protobuf:"varint,2,opt,name=f2"`
}

type V16 struct {
	S string `protobuf:"bytes,1,opt,name=f1"`
}

type V24 struct {
	L []byte `protobuf:"bytes,1,opt,name=f1,proto3"`
}

type V3 struct {
	A bool `protobuf:"varint,1,opt,name=f1"`
	B bool `protobuf:"varint,2,opt,name=f2"`
	C bool `protobuf:"varint,3,opt,name=f3"`
}

type ByVal struct {
	F0            EmptyMsg  `protobuf:"bytes,1,opt,name=f1"`
	F1            V1        `protobuf:"bytes,2,opt,name=f2"`
	F2            V3        `protobuf:"bytes,3,opt,name=f3"`
	F3            V4        `protobuf:"bytes,4,opt,name=f4"`
	F4            V8        `protobuf:"bytes,5,opt,name=f5"`
	F5            V8p       `protobuf:"bytes,6,opt,name=f6"`
	F6            V8m       `protobuf:"bytes,7,opt,name=f7"`
	F7            V8two     `protobuf:"bytes,8,opt,name=f8"`
	F8            V16       `protobuf:"bytes,9,opt,name=f9"`
	F9            V24       `protobuf:"bytes,10,opt,name=f10"`
	F10           Leaf      `protobuf:"bytes,11,opt,name=f11"`
	F11           Implicit  `protobuf:"bytes,12,opt,name=f12"`
	F12           ByValNest `protobuf:"bytes,13,opt,name=f13"`
	unknownFields []byte
}

type ByValList struct {
	F0  []EmptyMsg  `protobuf:"bytes,1,rep,name=f1"`
	F1  []V1        `protobuf:"bytes,2,rep,name=f2"`
	F2  []V3        `protobuf:"bytes,3,rep,name=f3"`
	F3  []V4        `protobuf:"bytes,4,rep,name=f4"`
	F4  []V8        `protobuf:"bytes,5,rep,name=f5"`
	F5  []V8p       `protobuf:"bytes,6,rep,name=f6"`
	F6  []V8m       `protobuf:"bytes,7,rep,name=f7"`
	F7  []V8two     `protobuf:"bytes,8,rep,name=f8"`
	F8  []V16       `protobuf:"bytes,9,rep,name=f9"`
	F9  []V24       `protobuf:"bytes,10,rep,name=f10"`
	F10 []Leaf      `protobuf:"bytes,11,rep,name=f11"`
	F11 []Implicit  `protobuf:"bytes,12,rep,name=f12"`
	F12 []ByValNest `protobuf:"bytes,13,rep,name=f13"`
}

type ByValMap struct {
	F0  map[uint32]EmptyMsg  `protobuf:"bytes,1,rep,name=f1" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F1  map[uint32]V1        `protobuf:"bytes,2,rep,name=f2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F2  map[uint32]V3        `protobuf:"bytes,3,rep,name=f3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F3  map[uint32]V4        `protobuf:"bytes,4,rep,name=f4" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F4  map[uint32]V8        `protobuf:"bytes,5,rep,name=f5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5  map[uint32]V8p       `protobuf:"bytes,6,rep,name=f6" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F6  map[uint32]V8m       `protobuf:"bytes,7,rep,name=f7" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F7  map[uint32]V8two     `protobuf:"bytes,8,rep,name=f8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F8  map[uint32]V16       `protobuf:"bytes,9,rep,name=f9" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F9  map[uint32]V24       `protobuf:"bytes,10,rep,name=f10" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F10 map[uint32]Leaf      `protobuf:"bytes,11,rep,name=f11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F11 map[uint32]Implicit  `protobuf:"bytes,12,rep,name=f12" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F12 map[uint32]ByValNest `protobuf:"bytes,13,rep,name=f13" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G0  map[string]EmptyMsg  `protobuf:"bytes,40,rep,name=f40" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G1  map[string]V1        `protobuf:"bytes,41,rep,name=f41" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G2  map[string]V3        `protobuf:"bytes,42,rep,name=f42" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G3  map[string]V4        `protobuf:"bytes,43,rep,name=f43" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G4  map[string]V8        `protobuf:"bytes,44,rep,name=f44" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G5  map[string]V8p       `protobuf:"bytes,45,rep,name=f45" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G6  map[string]V8m       `protobuf:"bytes,46,rep,name=f46" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G7  map[string]V8two     `protobuf:"bytes,47,rep,name=f47" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G8  map[string]V16       `protobuf:"bytes,48,rep,name=f48" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G9  map[string]V24       `protobuf:"bytes,49,rep,name=f49" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G10 map[string]Leaf      `protobuf:"bytes,50,rep,name=f50" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G11 map[string]Implicit  `protobuf:"bytes,51,rep,name=f51" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G12 map[string]ByValNest `protobuf:"bytes,52,rep,name=f52" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type ByPtr struct {
	F0  *EmptyMsg    `protobuf:"bytes,1,opt,name=f1"`
	F1  *V1          `protobuf:"bytes,2,opt,name=f2"`
	F2  *V3          `protobuf:"bytes,3,opt,name=f3"`
	F3  *V4          `protobuf:"bytes,4,opt,name=f4"`
	F4  *V8          `protobuf:"bytes,5,opt,name=f5"`
	F5  *V8p         `protobuf:"bytes,6,opt,name=f6"`
	F6  *V8m         `protobuf:"bytes,7,opt,name=f7"`
	F7  *V8two       `protobuf:"bytes,8,opt,name=f8"`
	F8  *V16         `protobuf:"bytes,9,opt,name=f9"`
	F9  *V24         `protobuf:"bytes,10,opt,name=f10"`
	F10 *Leaf        `protobuf:"bytes,11,opt,name=f11"`
	F11 *Implicit    `protobuf:"bytes,12,opt,name=f12"`
	F12 *ByValNest   `protobuf:"bytes,13,opt,name=f13"`
	G0  []*EmptyMsg  `protobuf:"bytes,31,rep,name=f31"`
	G1  []*V1        `protobuf:"bytes,32,rep,name=f32"`
	G2  []*V3        `protobuf:"bytes,33,rep,name=f33"`
	G3  []*V4        `protobuf:"bytes,34,rep,name=f34"`
	G4  []*V8        `protobuf:"bytes,35,rep,name=f35"`
	G5  []*V8p       `protobuf:"bytes,36,rep,name=f36"`
	G6  []*V8m       `protobuf:"bytes,37,rep,name=f37"`
	G7  []*V8two     `protobuf:"bytes,38,rep,name=f38"`
	G8  []*V16       `protobuf:"bytes,39,rep,name=f39"`
	G9  []*V24       `protobuf:"bytes,40,rep,name=f40"`
	G10 []*Leaf      `protobuf:"bytes,41,rep,name=f41"`
	G11 []*Implicit  `protobuf:"bytes,42,rep,name=f42"`
	G12 []*ByValNest `protobuf:"bytes,43,rep,name=f43"`
}

type ByValNest struct {
	A V8   `protobuf:"bytes,1,opt,name=f1"`
	B V16  `protobuf:"bytes,2,opt,name=f2"`
	C []V4 `protobuf:"bytes,3,rep,name=f3"`
}

type Layout struct {
	state         [3]uint64
	sizeCache     int32
	B1            bool `protobuf:"varint,1,opt,name=f1"`
	pad1          [3]byte
	I             *int32 `protobuf:"varint,2,opt,name=f2"`
	b2            bool
	U             uint64 `protobuf:"varint,3,opt,name=f3"`
	S             string `protobuf:"bytes,4,opt,name=f4"`
	ignored       map[string]any
	L             []string `protobuf:"bytes,5,rep,name=f5"`
	fn            func()
	Sub           *Layout `protobuf:"bytes,6,opt,name=f6"`
	unknownFields []byte
	tail          uint16
}

type Kitchen struct {
	Id               *uint64            `protobuf:"varint,1,req,name=f1"`
	Name             string             `protobuf:"bytes,2,opt,name=f2,proto3"`
	Tags             []string           `protobuf:"bytes,3,rep,name=f3"`
	Scores           []float64          `protobuf:"fixed64,4,rep,name=f4,packed"`
	Data             []byte             `protobuf:"bytes,5,opt,name=f5,proto3,oneof"`
	Kids             []*Kitchen         `protobuf:"bytes,6,rep,name=f6"`
	Attr             map[string]string  `protobuf:"bytes,7,rep,name=f7" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Sub              *Leaf              `protobuf:"bytes,8,opt,name=f8"`
	Val              V16                `protobuf:"bytes,9,opt,name=f9"`
	One              *OneofAll          `protobuf:"bytes,10,opt,name=f10"`
	Blobs            [][]byte           `protobuf:"bytes,11,rep,name=f11"`
	Flags            []bool             `protobuf:"varint,12,rep,name=f12,packed"`
	Z                []int32            `protobuf:"zigzag32,13,rep,name=f13"`
	ByKey            map[int64]*Kitchen `protobuf:"bytes,14,rep,name=f14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Opt              *string            `protobuf:"bytes,15,opt,name=f15,proto3,oneof"`
	F                *float32           `protobuf:"fixed32,16,opt,name=f16,def=1.5"`
	XXX_unrecognized []byte             `json:"-"`
}

// All holds a nil pointer of every type.
var All = []any{
	(*Leaf)(nil),
	(*LeafU)(nil),
	(*EmptyMsg)(nil),
	(*Implicit)(nil),
	(*Explicit)(nil),
	(*Rep)(nil),
	(*Packed)(nil),
	(*ImplicitNum)(nil),
	(*ExplicitNum)(nil),
	(*RepNum)(nil),
	(*PackedNum)(nil),
	(*Required)(nil),
	(*ReqVal)(nil),
	(*MapBool)(nil),
	(*MapInt32)(nil),
	(*MapSint32)(nil),
	(*MapUint32)(nil),
	(*MapInt64)(nil),
	(*MapSint64)(nil),
	(*MapUint64)(nil),
	(*MapSfixed32)(nil),
	(*MapFixed32)(nil),
	(*MapSfixed64)(nil),
	(*MapFixed64)(nil),
	(*MapString)(nil),
	(*OneofAll)(nil),
	(*OneofHigh)(nil),
	(*OneofSingle)(nil),
	(*UBytes)(nil),
	(*UPtr)(nil),
	(*UOld)(nil),
	(*UOldPtr)(nil),
	(*UNone)(nil),
	(*UBytesLeaf)(nil),
	(*Tree)(nil),
	(*MutualA)(nil),
	(*MutualB)(nil),
	(*ByValWrap)(nil),
	(*V1)(nil),
	(*V4)(nil),
	(*V8)(nil),
	(*V8p)(nil),
	(*V8m)(nil),
	(*V8two)(nil),
	(*V16)(nil),
	(*V24)(nil),
	(*V3)(nil),
	(*ByVal)(nil),
	(*ByValList)(nil),
	(*ByValMap)(nil),
	(*ByPtr)(nil),
	(*ByValNest)(nil),
	(*Layout)(nil),
	(*Kitchen)(nil),
	(*Deep)(nil),
	(*DeepPeer)(nil),
}
