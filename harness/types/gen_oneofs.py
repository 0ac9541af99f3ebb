encs=["varint","zigzag32","zigzag64","fixed32","fixed64","bytes"]
o=['''// Code generated. DO NOT EDIT.
package types

import "unsafe"

// OneofCase is a struct with one oneof whose only member has the given encoding and type.
type OneofCase struct {
	Enc string
	V   any // pointer to the struct
	F   any // pointer to the member's type
}
''']
for e in encs:
    E=e.capitalize()
    o.append(f'''
type isOH{E} interface{{ isOH{E}() }}
type OW{E}[T any] struct {{
	F T `protobuf:"{e},1,opt,name=f,proto3,oneof"`
}}

func (*OW{E}[T]) isOH{E}() {{}}

type OH{E}[T any] struct {{
	X isOH{E} `protobuf_oneof:"x"`
	Y int32 `protobuf:"varint,2,opt,name=y,proto3"`
	Z *Leaf `protobuf:"bytes,3,opt,name=z,proto3"`
}}

func (*OH{E}[T]) XXX_OneofWrappers() []interface{{}} {{ return []interface{{}}{{(*OW{E}[T])(nil)}} }}

func oc{E}[T any]() OneofCase {{ return OneofCase{{"{e}", new(OH{E}[T]), new(T)}} }}
''')
tys=["bool","int32","int64","uint32","uint64","float32","float64","string","[]byte","*Leaf","Leaf","NamedEnum","int","int8","int16","uint","uint8","uint16","uintptr","complex64","complex128","[]int32","[]string","[][]byte","[]*Leaf","map[int32]int32","map[string]*Leaf","**Leaf","**int32","*[]int32","[4]byte","[2]int32","any","error","chan int","func()","unsafe.Pointer"]
o.append("var OneofCases = []OneofCase{\n"+"".join(f"\toc{e.capitalize()}[{t}](),\n" for e in encs for t in tys)+"}\n")
o.append('''
// duplicated field numbers involving oneofs

type isDupA interface{ isDupA() }
type isDupB interface{ isDupB() }
type DupW1 struct {
	F int32 `protobuf:"varint,1,opt,name=f,proto3,oneof"`
}
type DupW2 struct {
	G string `protobuf:"bytes,1,opt,name=g,proto3,oneof"`
}
type DupW3 struct {
	H string `protobuf:"bytes,1,opt,name=h,proto3,oneof"`
}

func (*DupW1) isDupA() {}
func (*DupW2) isDupA() {}
func (*DupW3) isDupB() {}

type DupInOneof struct {
	X isDupA `protobuf_oneof:"x"`
}

func (*DupInOneof) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*DupW1)(nil), (*DupW2)(nil)}
}

type DupAcross struct {
	X isDupA `protobuf_oneof:"x"`
	Y isDupB `protobuf_oneof:"y"`
}

func (*DupAcross) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*DupW1)(nil), (*DupW3)(nil)}
}

type DupWithField struct {
	A int64  `protobuf:"varint,1,opt,name=a,proto3"`
	X isDupA `protobuf_oneof:"x"`
}

func (*DupWithField) XXX_OneofWrappers() []interface{} { return []interface{}{(*DupW1)(nil)} }

var DupOneofs = []any{new(DupInOneof), new(DupAcross), new(DupWithField)}

// OneofOnStruct has a oneof tag on a field that is no interface.
type OneofOnStruct struct {
	X int32 `protobuf_oneof:"x"`
}

func (*OneofOnStruct) XXX_OneofWrappers() []interface{} { return []interface{}{(*DupW1)(nil)} }

// twoFieldWrapper is a wrapper that is none.
type DupW4 struct {
	F int32 `protobuf:"varint,1,opt,name=f,proto3,oneof"`
	G int32 `protobuf:"varint,2,opt,name=f,proto3,oneof"`
}

func (*DupW4) isDupA() {}

type OneofTwoFields struct {
	X isDupA `protobuf_oneof:"x"`
}

func (*OneofTwoFields) XXX_OneofWrappers() []interface{} { return []interface{}{(*DupW4)(nil)} }

var BadOneofs = []any{new(OneofOnStruct), new(OneofTwoFields)}

// Promoted has unknown-field slots only in an embedded struct.
type Promoted struct {
	LeafU
	X int32 `protobuf:"varint,7,opt,name=x,proto3"`
}
''')
open('/verif/harness/types/oneofcases_gen.go','w').write("\n".join(o))
