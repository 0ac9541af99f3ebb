package types

// Types which all have the name Same (local types of different functions): good and
// bad ones, with different fields behind the same name.

type isSame_O interface{ isSame_O() }

func same1() any {
	type Same struct {
		A int32 `protobuf:"varint,1,opt,name=a,proto3"`
	}
	return &Same{}
}

func same2() any {
	type Same struct {
		A string `protobuf:"bytes,1,opt,name=a,proto3"`
		B []byte `protobuf:"bytes,2,opt,name=b,proto3"`
	}
	return &Same{}
}

func same3() any {
	type Same struct {
		A map[string]int64 `protobuf:"bytes,1,rep,name=a,proto3" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	}
	return &Same{}
}

func same4() any {
	type Same struct {
		A []int32 `protobuf:"zigzag32,1,rep,packed,name=a,proto3"`
		N *Leaf   `protobuf:"bytes,2,opt,name=n,proto3"`
	}
	return &Same{}
}

func same5() any {
	type Same struct {
		A uint64 `protobuf:"fixed64,1,opt,name=a,proto3"`
		N []*Leaf
	}
	return &Same{}
}

func same6() any {
	type Same struct {
		A *bool `protobuf:"varint,1,opt,name=a,proto3,oneof"`
		M *Same `protobuf:"bytes,2,opt,name=m,proto3"`
	}
	return &Same{}
}

func same7() any {
	type Inner struct {
		A int32 `protobuf:"varint,1,opt,name=a,proto3"`
	}
	type Same struct {
		V *Inner `protobuf:"bytes,1,opt,name=v,proto3"`
	}
	return &Same{}
}

func same8() any {
	type Inner struct {
		A string `protobuf:"bytes,1,opt,name=a,proto3"`
	}
	type Same struct {
		V map[int32]*Inner `protobuf:"bytes,1,rep,name=v,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	}
	return &Same{}
}

func sameBad1() any {
	type Same struct {
		A int32 `protobuf:"varint,0,opt,name=a,proto3"`
	}
	return &Same{}
}

func sameBad2() any {
	type Same struct {
		A int32 `protobuf:"bytes,1,opt,name=a,proto3"`
	}
	return &Same{}
}

func sameBad3() any {
	type Inner struct {
		A [][]int32 `protobuf:"varint,1,rep,name=a,proto3"`
	}
	type Same struct {
		V *Inner `protobuf:"bytes,1,opt,name=v,proto3"`
	}
	return &Same{}
}

func sameBad4() any {
	type Same struct {
		A int32  `protobuf:"varint,1,opt,name=a,proto3"`
		B string `protobuf:"bytes,1,opt,name=b,proto3"`
	}
	return &Same{}
}

func sameBad5() any {
	type Same struct {
		A isSame_O `protobuf:"bytes,1,opt,name=a,proto3"`
	}
	return &Same{}
}

// SameGood and SameBad are pointers to types named Same.
var (
	SameGood = []any{same1(), same2(), same3(), same4(), same5(), same6(), same7(), same8()}
	SameBad  = []any{sameBad1(), sameBad2(), sameBad3(), sameBad4(), sameBad5()}
)
