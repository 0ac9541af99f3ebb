package types

// Families of mutually referring types. Each instantiation is a family of its own that
// prutal has never seen before.

type FreshLeaf[T any] struct {
	A int32            `protobuf:"varint,1,opt,name=a,proto3"`
	B string           `protobuf:"bytes,2,opt,name=b,proto3"`
	C []uint32         `protobuf:"varint,3,rep,packed,name=c,proto3"`
	D map[int32]string `protobuf:"bytes,4,rep,name=d,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	E []string         `protobuf:"bytes,5,rep,name=e,proto3"`
	F *float64         `protobuf:"fixed64,6,opt,name=f,proto3,oneof"`
	G []byte           `protobuf:"bytes,7,opt,name=g,proto3"`
}

type isFreshNode_O interface{ isFreshNode_O() }

type FreshNode_OA[T any] struct {
	OA *FreshPeer[T] `protobuf:"bytes,20,opt,name=oa,proto3,oneof"`
}
type FreshNode_OB[T any] struct {
	OB int64 `protobuf:"zigzag64,21,opt,name=ob,proto3,oneof"`
}
type FreshNode_OC[T any] struct {
	OC *FreshChain1[T] `protobuf:"bytes,22,opt,name=oc,proto3,oneof"`
}

func (*FreshNode_OA[T]) isFreshNode_O() {}
func (*FreshNode_OB[T]) isFreshNode_O() {}
func (*FreshNode_OC[T]) isFreshNode_O() {}

type FreshNode[T any] struct {
	ID            int32                    `protobuf:"varint,1,opt,name=id,proto3"`
	Peer          *FreshPeer[T]            `protobuf:"bytes,2,opt,name=peer,proto3"`
	Kids          []*FreshNode[T]          `protobuf:"bytes,3,rep,name=kids,proto3"`
	M             map[string]*FreshPeer[T] `protobuf:"bytes,4,rep,name=m,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	V             FreshLeaf[T]             `protobuf:"bytes,5,opt,name=v,proto3"`
	O             isFreshNode_O            `protobuf_oneof:"o"`
	Name          string                   `protobuf:"bytes,6,opt,name=name,proto3"`
	unknownFields []byte
}

func (*FreshNode[T]) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*FreshNode_OA[T])(nil), (*FreshNode_OB[T])(nil), (*FreshNode_OC[T])(nil)}
}

type FreshPeer[T any] struct {
	Back *FreshNode[T]            `protobuf:"bytes,1,opt,name=back,proto3"`
	L    map[int64]*FreshLeaf[T]  `protobuf:"bytes,2,rep,name=l,proto3" protobuf_key:"zigzag64,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	LV   map[string]FreshLeaf[T]  `protobuf:"bytes,3,rep,name=lv,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	N    map[uint32]*FreshNode[T] `protobuf:"bytes,4,rep,name=n,proto3" protobuf_key:"fixed32,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	Ch   *FreshChain1[T]          `protobuf:"bytes,5,opt,name=ch,proto3"`
	X    *int32                   `protobuf:"zigzag32,6,opt,name=x,proto3,oneof"`
	Self []*FreshPeer[T]          `protobuf:"bytes,7,rep,name=self,proto3"`
}

// a chain of types with many fields, which takes long to analyse
type FreshChain1[T any] struct {
	N1   *FreshChain2[T]          `protobuf:"bytes,1,opt,name=n1,proto3"`
	N2   []*FreshChain3[T]        `protobuf:"bytes,2,rep,name=n2,proto3"`
	N3   *FreshNode[T]            `protobuf:"bytes,3,opt,name=n3,proto3"`
	F1   int32                    `protobuf:"varint,4,opt,name=f1,proto3"`
	F2   int64                    `protobuf:"zigzag64,5,opt,name=f2,proto3"`
	F3   map[bool]*FreshChain2[T] `protobuf:"bytes,6,rep,name=f3,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	F4   []float64                `protobuf:"fixed64,7,rep,packed,name=f4,proto3"`
	F5   []bool                   `protobuf:"varint,8,rep,packed,name=f5,proto3"`
	F6   *string                  `protobuf:"bytes,9,opt,name=f6,proto3,oneof"`
	High uint64                   `protobuf:"fixed64,5000,opt,name=high,proto3"`
}

type FreshChain2[T any] struct {
	N1 *FreshChain3[T]            `protobuf:"bytes,1,opt,name=n1,proto3"`
	N2 *FreshChain1[T]            `protobuf:"bytes,2,opt,name=n2,proto3"`
	V  FreshChain4[T]             `protobuf:"bytes,3,opt,name=v,proto3"`
	M1 map[int32]int64            `protobuf:"bytes,4,rep,name=m1,proto3" protobuf_key:"zigzag32,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	M2 map[string][]byte          `protobuf:"bytes,5,rep,name=m2,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	M3 map[uint64]*FreshChain4[T] `protobuf:"bytes,6,rep,name=m3,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	S  string                     `protobuf:"bytes,7,opt,name=s,proto3"`
}

type FreshChain3[T any] struct {
	V  []FreshChain4[T] `protobuf:"bytes,1,rep,name=v,proto3"`
	N  *FreshChain1[T]  `protobuf:"bytes,2,opt,name=n,proto3"`
	L  FreshLeaf[T]     `protobuf:"bytes,3,opt,name=l,proto3"`
	F1 []int64          `protobuf:"varint,4,rep,name=f1,proto3"`
	F2 [][]byte         `protobuf:"bytes,5,rep,name=f2,proto3"`
	F3 float32          `protobuf:"fixed32,6,opt,name=f3,proto3"`
	U  []byte           `protobuf:"bytes,7,opt,name=u,proto3"`

	XXX_unrecognized []byte
}

type FreshChain4[T any] struct {
	A  uint32             `protobuf:"fixed32,1,opt,name=a,proto3"`
	B  *FreshLeaf[T]      `protobuf:"bytes,2,opt,name=b,proto3"`
	C  []int32            `protobuf:"zigzag32,3,rep,packed,name=c,proto3"`
	D  map[uint32]float32 `protobuf:"bytes,4,rep,name=d,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"fixed32,2,opt,name=value,proto3"`
	E  *bool              `protobuf:"varint,5,opt,name=e,proto3,oneof"`
	Up *FreshPeer[T]      `protobuf:"bytes,6,opt,name=up,proto3"`
}

// types that are refused although they refer to good ones
type FreshBad[T any] struct {
	Node *FreshNode[T] `protobuf:"bytes,1,opt,name=node,proto3"`
	Bad  int32         `protobuf:"bytes,2,opt,name=bad,proto3"`
}

type FreshBadUser[T any] struct {
	Peer *FreshPeer[T]   `protobuf:"bytes,1,opt,name=peer,proto3"`
	Bads []*FreshBad[T]  `protobuf:"bytes,2,rep,name=bads,proto3"`
	Ch   *FreshChain1[T] `protobuf:"bytes,3,opt,name=ch,proto3"`
}

// refused because of each other
type FreshBadMid[T any] struct {
	Up *FreshBadNode[T]  `protobuf:"bytes,1,opt,name=up,proto3"`
	L  []*FreshBadMid[T] `protobuf:"bytes,2,rep,name=l,proto3"`
	I  int32             `protobuf:"varint,3,opt,name=i,proto3"`
	N  *FreshNode[T]     `protobuf:"bytes,4,opt,name=n,proto3"`
}

type FreshBadNode[T any] struct {
	Mid *FreshBadMid[T] `protobuf:"bytes,1,opt,name=mid,proto3"`
	F   []int64         `protobuf:"fixed32,2,rep,packed,name=f,proto3"`
}

type FreshBadMid2[T any] struct {
	M map[string]*FreshBadTag[T] `protobuf:"bytes,1,rep,name=m,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	P *FreshPeer[T]              `protobuf:"bytes,2,opt,name=p,proto3"`
	S string                     `protobuf:"bytes,3,opt,name=s,proto3"`
}

type FreshBadTag[T any] struct {
	Mid  *FreshBadMid2[T]  `protobuf:"bytes,1,opt,name=mid,proto3"`
	Self []*FreshBadTag[T] `protobuf:"bytes,2,rep,name=self,proto3"`
	F    int64             `protobuf:"varint,0,opt,name=f,proto3"`
}

// Family is one instantiation.
type Family struct {
	Good []any // pointers to structs
	Bad  []any
}

func family[T any]() Family {
	return Family{
		Good: []any{(*FreshNode[T])(nil), (*FreshPeer[T])(nil), (*FreshChain1[T])(nil), (*FreshChain2[T])(nil), (*FreshChain3[T])(nil), (*FreshChain4[T])(nil), (*FreshLeaf[T])(nil)},
		Bad:  []any{(*FreshBad[T])(nil), (*FreshBadUser[T])(nil), (*FreshBadMid[T])(nil), (*FreshBadNode[T])(nil), (*FreshBadMid2[T])(nil), (*FreshBadTag[T])(nil)},
	}
}
