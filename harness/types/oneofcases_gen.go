// Code generated. DO NOT EDIT.
package types

import "unsafe"

// OneofCase is a struct with one oneof whose only member has the given encoding and type.
type OneofCase struct {
	Enc string
	V   any // pointer to the struct
	F   any // pointer to the member's type
}

type isOHVarint interface{ isOHVarint() }
type OWVarint[T any] struct {
	F T `protobuf:"varint,1,opt,name=f,proto3,oneof"`
}

func (*OWVarint[T]) isOHVarint() {}

type OHVarint[T any] struct {
	X isOHVarint `protobuf_oneof:"x"`
	Y int32      `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf      `protobuf:"bytes,3,opt,name=z,proto3"`
}

func (*OHVarint[T]) XXX_OneofWrappers() []interface{} { return []interface{}{(*OWVarint[T])(nil)} }

func ocVarint[T any]() OneofCase { return OneofCase{"varint", new(OHVarint[T]), new(T)} }

type isOHZigzag32 interface{ isOHZigzag32() }
type OWZigzag32[T any] struct {
	F T `protobuf:"zigzag32,1,opt,name=f,proto3,oneof"`
}

func (*OWZigzag32[T]) isOHZigzag32() {}

type OHZigzag32[T any] struct {
	X isOHZigzag32 `protobuf_oneof:"x"`
	Y int32        `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf        `protobuf:"bytes,3,opt,name=z,proto3"`
}

func (*OHZigzag32[T]) XXX_OneofWrappers() []interface{} { return []interface{}{(*OWZigzag32[T])(nil)} }

func ocZigzag32[T any]() OneofCase { return OneofCase{"zigzag32", new(OHZigzag32[T]), new(T)} }

type isOHZigzag64 interface{ isOHZigzag64() }
type OWZigzag64[T any] struct {
	F T `protobuf:"zigzag64,1,opt,name=f,proto3,oneof"`
}

func (*OWZigzag64[T]) isOHZigzag64() {}

type OHZigzag64[T any] struct {
	X isOHZigzag64 `protobuf_oneof:"x"`
	Y int32        `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf        `protobuf:"bytes,3,opt,name=z,proto3"`
}

func (*OHZigzag64[T]) XXX_OneofWrappers() []interface{} { return []interface{}{(*OWZigzag64[T])(nil)} }

func ocZigzag64[T any]() OneofCase { return OneofCase{"zigzag64", new(OHZigzag64[T]), new(T)} }

type isOHFixed32 interface{ isOHFixed32() }
type OWFixed32[T any] struct {
	F T `protobuf:"fixed32,1,opt,name=f,proto3,oneof"`
}

func (*OWFixed32[T]) isOHFixed32() {}

type OHFixed32[T any] struct {
	X isOHFixed32 `protobuf_oneof:"x"`
	Y int32       `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf       `protobuf:"bytes,3,opt,name=z,proto3"`
}

func (*OHFixed32[T]) XXX_OneofWrappers() []interface{} { return []interface{}{(*OWFixed32[T])(nil)} }

func ocFixed32[T any]() OneofCase { return OneofCase{"fixed32", new(OHFixed32[T]), new(T)} }

type isOHFixed64 interface{ isOHFixed64() }
type OWFixed64[T any] struct {
	F T `protobuf:"fixed64,1,opt,name=f,proto3,oneof"`
}

func (*OWFixed64[T]) isOHFixed64() {}

type OHFixed64[T any] struct {
	X isOHFixed64 `protobuf_oneof:"x"`
	Y int32       `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf       `protobuf:"bytes,3,opt,name=z,proto3"`
}

func (*OHFixed64[T]) XXX_OneofWrappers() []interface{} { return []interface{}{(*OWFixed64[T])(nil)} }

func ocFixed64[T any]() OneofCase { return OneofCase{"fixed64", new(OHFixed64[T]), new(T)} }

type isOHBytes interface{ isOHBytes() }
type OWBytes[T any] struct {
	F T `protobuf:"bytes,1,opt,name=f,proto3,oneof"`
}

func (*OWBytes[T]) isOHBytes() {}

type OHBytes[T any] struct {
	X isOHBytes `protobuf_oneof:"x"`
	Y int32     `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf     `protobuf:"bytes,3,opt,name=z,proto3"`
}

func (*OHBytes[T]) XXX_OneofWrappers() []interface{} { return []interface{}{(*OWBytes[T])(nil)} }

func ocBytes[T any]() OneofCase { return OneofCase{"bytes", new(OHBytes[T]), new(T)} }

var OneofCases = []OneofCase{
	ocVarint[bool](),
	ocVarint[int32](),
	ocVarint[int64](),
	ocVarint[uint32](),
	ocVarint[uint64](),
	ocVarint[float32](),
	ocVarint[float64](),
	ocVarint[string](),
	ocVarint[[]byte](),
	ocVarint[*Leaf](),
	ocVarint[Leaf](),
	ocVarint[NamedEnum](),
	ocVarint[int](),
	ocVarint[int8](),
	ocVarint[int16](),
	ocVarint[uint](),
	ocVarint[uint8](),
	ocVarint[uint16](),
	ocVarint[uintptr](),
	ocVarint[complex64](),
	ocVarint[complex128](),
	ocVarint[[]int32](),
	ocVarint[[]string](),
	ocVarint[[][]byte](),
	ocVarint[[]*Leaf](),
	ocVarint[map[int32]int32](),
	ocVarint[map[string]*Leaf](),
	ocVarint[**Leaf](),
	ocVarint[**int32](),
	ocVarint[*[]int32](),
	ocVarint[[4]byte](),
	ocVarint[[2]int32](),
	ocVarint[any](),
	ocVarint[error](),
	ocVarint[chan int](),
	ocVarint[func()](),
	ocVarint[unsafe.Pointer](),
	ocZigzag32[bool](),
	ocZigzag32[int32](),
	ocZigzag32[int64](),
	ocZigzag32[uint32](),
	ocZigzag32[uint64](),
	ocZigzag32[float32](),
	ocZigzag32[float64](),
	ocZigzag32[string](),
	ocZigzag32[[]byte](),
	ocZigzag32[*Leaf](),
	ocZigzag32[Leaf](),
	ocZigzag32[NamedEnum](),
	ocZigzag32[int](),
	ocZigzag32[int8](),
	ocZigzag32[int16](),
	ocZigzag32[uint](),
	ocZigzag32[uint8](),
	ocZigzag32[uint16](),
	ocZigzag32[uintptr](),
	ocZigzag32[complex64](),
	ocZigzag32[complex128](),
	ocZigzag32[[]int32](),
	ocZigzag32[[]string](),
	ocZigzag32[[][]byte](),
	ocZigzag32[[]*Leaf](),
	ocZigzag32[map[int32]int32](),
	ocZigzag32[map[string]*Leaf](),
	ocZigzag32[**Leaf](),
	ocZigzag32[**int32](),
	ocZigzag32[*[]int32](),
	ocZigzag32[[4]byte](),
	ocZigzag32[[2]int32](),
	ocZigzag32[any](),
	ocZigzag32[error](),
	ocZigzag32[chan int](),
	ocZigzag32[func()](),
	ocZigzag32[unsafe.Pointer](),
	ocZigzag64[bool](),
	ocZigzag64[int32](),
	ocZigzag64[int64](),
	ocZigzag64[uint32](),
	ocZigzag64[uint64](),
	ocZigzag64[float32](),
	ocZigzag64[float64](),
	ocZigzag64[string](),
	ocZigzag64[[]byte](),
	ocZigzag64[*Leaf](),
	ocZigzag64[Leaf](),
	ocZigzag64[NamedEnum](),
	ocZigzag64[int](),
	ocZigzag64[int8](),
	ocZigzag64[int16](),
	ocZigzag64[uint](),
	ocZigzag64[uint8](),
	ocZigzag64[uint16](),
	ocZigzag64[uintptr](),
	ocZigzag64[complex64](),
	ocZigzag64[complex128](),
	ocZigzag64[[]int32](),
	ocZigzag64[[]string](),
	ocZigzag64[[][]byte](),
	ocZigzag64[[]*Leaf](),
	ocZigzag64[map[int32]int32](),
	ocZigzag64[map[string]*Leaf](),
	ocZigzag64[**Leaf](),
	ocZigzag64[**int32](),
	ocZigzag64[*[]int32](),
	ocZigzag64[[4]byte](),
	ocZigzag64[[2]int32](),
	ocZigzag64[any](),
	ocZigzag64[error](),
	ocZigzag64[chan int](),
	ocZigzag64[func()](),
	ocZigzag64[unsafe.Pointer](),
	ocFixed32[bool](),
	ocFixed32[int32](),
	ocFixed32[int64](),
	ocFixed32[uint32](),
	ocFixed32[uint64](),
	ocFixed32[float32](),
	ocFixed32[float64](),
	ocFixed32[string](),
	ocFixed32[[]byte](),
	ocFixed32[*Leaf](),
	ocFixed32[Leaf](),
	ocFixed32[NamedEnum](),
	ocFixed32[int](),
	ocFixed32[int8](),
	ocFixed32[int16](),
	ocFixed32[uint](),
	ocFixed32[uint8](),
	ocFixed32[uint16](),
	ocFixed32[uintptr](),
	ocFixed32[complex64](),
	ocFixed32[complex128](),
	ocFixed32[[]int32](),
	ocFixed32[[]string](),
	ocFixed32[[][]byte](),
	ocFixed32[[]*Leaf](),
	ocFixed32[map[int32]int32](),
	ocFixed32[map[string]*Leaf](),
	ocFixed32[**Leaf](),
	ocFixed32[**int32](),
	ocFixed32[*[]int32](),
	ocFixed32[[4]byte](),
	ocFixed32[[2]int32](),
	ocFixed32[any](),
	ocFixed32[error](),
	ocFixed32[chan int](),
	ocFixed32[func()](),
	ocFixed32[unsafe.Pointer](),
	ocFixed64[bool](),
	ocFixed64[int32](),
	ocFixed64[int64](),
	ocFixed64[uint32](),
	ocFixed64[uint64](),
	ocFixed64[float32](),
	ocFixed64[float64](),
	ocFixed64[string](),
	ocFixed64[[]byte](),
	ocFixed64[*Leaf](),
	ocFixed64[Leaf](),
	ocFixed64[NamedEnum](),
	ocFixed64[int](),
	ocFixed64[int8](),
	ocFixed64[int16](),
	ocFixed64[uint](),
	ocFixed64[uint8](),
	ocFixed64[uint16](),
	ocFixed64[uintptr](),
	ocFixed64[complex64](),
	ocFixed64[complex128](),
	ocFixed64[[]int32](),
	ocFixed64[[]string](),
	ocFixed64[[][]byte](),
	ocFixed64[[]*Leaf](),
	ocFixed64[map[int32]int32](),
	ocFixed64[map[string]*Leaf](),
	ocFixed64[**Leaf](),
	ocFixed64[**int32](),
	ocFixed64[*[]int32](),
	ocFixed64[[4]byte](),
	ocFixed64[[2]int32](),
	ocFixed64[any](),
	ocFixed64[error](),
	ocFixed64[chan int](),
	ocFixed64[func()](),
	ocFixed64[unsafe.Pointer](),
	ocBytes[bool](),
	ocBytes[int32](),
	ocBytes[int64](),
	ocBytes[uint32](),
	ocBytes[uint64](),
	ocBytes[float32](),
	ocBytes[float64](),
	ocBytes[string](),
	ocBytes[[]byte](),
	ocBytes[*Leaf](),
	ocBytes[Leaf](),
	ocBytes[NamedEnum](),
	ocBytes[int](),
	ocBytes[int8](),
	ocBytes[int16](),
	ocBytes[uint](),
	ocBytes[uint8](),
	ocBytes[uint16](),
	ocBytes[uintptr](),
	ocBytes[complex64](),
	ocBytes[complex128](),
	ocBytes[[]int32](),
	ocBytes[[]string](),
	ocBytes[[][]byte](),
	ocBytes[[]*Leaf](),
	ocBytes[map[int32]int32](),
	ocBytes[map[string]*Leaf](),
	ocBytes[**Leaf](),
	ocBytes[**int32](),
	ocBytes[*[]int32](),
	ocBytes[[4]byte](),
	ocBytes[[2]int32](),
	ocBytes[any](),
	ocBytes[error](),
	ocBytes[chan int](),
	ocBytes[func()](),
	ocBytes[unsafe.Pointer](),
}

// duplicated field numbers involving oneofs

type isDupA interface{ isDupA() }
type isDupB interface{ isDupB() }
type DupW1 struct {
	F int32 `protobuf:"varint,1,opt,name=f,proto3,oneof"`
}
type DupW2 struct {
	G string `protobuf:"bytes,1,opt,name=g,proto3,oneof"`
}
type DupW3 struct {
	H string `protobuf:"bytes,1,opt,name=h,proto3,oneof"`
}

func (*DupW1) isDupA() {}
func (*DupW2) isDupA() {}
func (*DupW3) isDupB() {}

type DupInOneof struct {
	X isDupA `protobuf_oneof:"x"`
}

func (*DupInOneof) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*DupW1)(nil), (*DupW2)(nil)}
}

type DupAcross struct {
	X isDupA `protobuf_oneof:"x"`
	Y isDupB `protobuf_oneof:"y"`
}

func (*DupAcross) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*DupW1)(nil), (*DupW3)(nil)}
}

type DupWithField struct {
	A int64  `protobuf:"varint,1,opt,name=a,proto3"`
	X isDupA `protobuf_oneof:"x"`
}

func (*DupWithField) XXX_OneofWrappers() []interface{} { return []interface{}{(*DupW1)(nil)} }

var DupOneofs = []any{new(DupInOneof), new(DupAcross), new(DupWithField)}

// OneofOnStruct has a oneof tag on a field that is no interface.
type OneofOnStruct struct {
	X int32 `protobuf_oneof:"x"`
}

func (*OneofOnStruct) XXX_OneofWrappers() []interface{} { return []interface{}{(*DupW1)(nil)} }

// twoFieldWrapper is a wrapper that is none.
type DupW4 struct {
	F int32 `protobuf:"varint,1,opt,name=f,proto3,oneof"`
	G int32 `protobuf:"varint,2,opt,name=f,proto3,oneof"`
}

func (*DupW4) isDupA() {}

type OneofTwoFields struct {
	X isDupA `protobuf_oneof:"x"`
}

func (*OneofTwoFields) XXX_OneofWrappers() []interface{} { return []interface{}{(*DupW4)(nil)} }

var BadOneofs = []any{new(OneofOnStruct), new(OneofTwoFields)}

// Promoted has unknown-field slots only in an embedded struct.
type Promoted struct {
	LeafU
	X int32 `protobuf:"varint,7,opt,name=x,proto3"`
}
