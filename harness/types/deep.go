package types

// Deep refers to itself in every way a message can.
type Deep struct {
	P   *Deep            `protobuf:"bytes,1,opt,name=p,proto3"`
	LP  []*Deep          `protobuf:"bytes,2,rep,name=lp,proto3"`
	LV  []Deep           `protobuf:"bytes,3,rep,name=lv,proto3"`
	MS  map[string]*Deep `protobuf:"bytes,4,rep,name=ms,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MI  map[int32]*Deep  `protobuf:"bytes,5,rep,name=mi,proto3" protobuf_key:"zigzag32,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MU  map[uint64]*Deep `protobuf:"bytes,6,rep,name=mu,proto3" protobuf_key:"fixed64,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MB  map[bool]*Deep   `protobuf:"bytes,7,rep,name=mb,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MV  map[string]Deep  `protobuf:"bytes,8,rep,name=mv,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MVI map[int64]Deep   `protobuf:"bytes,9,rep,name=mvi,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	O   isDeep_O         `protobuf_oneof:"o"`
	B   *DeepBox         `protobuf:"bytes,20,opt,name=b,proto3"`
	X   *DeepPeer        `protobuf:"bytes,22,opt,name=x,proto3"`
	I   int32            `protobuf:"varint,30,opt,name=i,proto3"`
	S   []string         `protobuf:"bytes,31,rep,name=s,proto3"`
	MSc map[int32]string `protobuf:"bytes,32,rep,name=msc,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MSI map[int64]int64  `protobuf:"bytes,33,rep,name=msi,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	PK  []int32          `protobuf:"varint,34,rep,packed,name=pk,proto3"`

	unknownFields []byte
}

type isDeep_O interface{ isDeep_O() }
type Deep_OP struct {
	OP *Deep `protobuf:"bytes,10,opt,name=op,proto3,oneof"`
}
type Deep_OV struct {
	OV Deep `protobuf:"bytes,11,opt,name=ov,proto3,oneof"`
}
type Deep_OX struct {
	OX *DeepPeer `protobuf:"bytes,12,opt,name=ox,proto3,oneof"`
}

func (*Deep_OP) isDeep_O() {}
func (*Deep_OV) isDeep_O() {}
func (*Deep_OX) isDeep_O() {}

func (*Deep) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*Deep_OP)(nil), (*Deep_OV)(nil), (*Deep_OX)(nil)}
}

// DeepBox has a message by value, which is always there.
type DeepBox struct {
	W  DeepWrap   `protobuf:"bytes,20,opt,name=w,proto3"`
	LW []DeepWrap `protobuf:"bytes,21,rep,name=lw,proto3"`
}

// DeepWrap is kept by value.
type DeepWrap struct {
	D *Deep    `protobuf:"bytes,1,opt,name=d,proto3"`
	E DeepWrp2 `protobuf:"bytes,2,opt,name=e,proto3"`
}

type DeepWrp2 struct {
	L []*Deep `protobuf:"bytes,1,rep,name=l,proto3"`
}

// DeepPeer has no unknown-fields slot.
type DeepPeer struct {
	D *Deep               `protobuf:"bytes,1,req,name=d"`
	P *DeepPeer           `protobuf:"bytes,2,opt,name=p"`
	M map[uint32]DeepPeer `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}
