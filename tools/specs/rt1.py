def rt(id, prop, edits, demo, needs, breaks, pkg=".", imports="", **kw):
    name = "prutal"
    return dict(id=id, prop=prop, edits=edits, pkg=pkg, needs=needs, breaks=breaks,
                demo="package %s\n\nimport (\n\t\"testing\"\n%s)\n\n%s\n" % (name, "".join('\t"%s"\n' % i for i in imports.split()), demo), **kw)

SPECS = [
 rt("C17-sizer-put", "C17", [("internal/prutal/sizer.go", "	t.MapTmpVarsPool.Put(tmp)\n	return n, retErr", "	if retErr == nil && n > 0 {\n		return n, nil\n	}\n	t.MapTmpVarsPool.Put(tmp)\n	return n, retErr")],
 '''type demoSub struct {
	A int32 `protobuf:"varint,1,opt,name=a,proto3"`
}

type demoMsg struct {
	M map[bool]*demoSub `protobuf:"bytes,1,rep,name=m,proto3" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
}

func TestDemo(t *testing.T) {
	m := &demoMsg{M: map[bool]*demoSub{true: {A: 1}}}
	if n := testing.AllocsPerRun(100, func() { Size(m) }); n != 0 {
		t.Fatal(n, "heap objects")
	}
}''', "a map of bool (no typed fast path) to messages with entries in it", "Size takes new variables for the iteration each time, and never gives them back"),
 rt("C17-length-room", "C17", [("internal/wire/encoder.go", "	for i := m; i > 1; i-- {\n		// reserved one byte, then m-1 bytes needed\n		b = append(b, 0)\n	}\n", "	// reserved one byte, then m-1 bytes needed, at most 4\n	b = append(b, 0, 0, 0, 0)[:len(b)+m-1]\n")],
 '''type demoSub struct {
	A string `protobuf:"bytes,1,opt,name=a,proto3"`
}

type demoMsg struct {
	S *demoSub `protobuf:"bytes,1,opt,name=s,proto3"`
}

func TestDemo(t *testing.T) {
	m := &demoMsg{S: &demoSub{A: string(make([]byte, 300))}}
	n, err := Size(m)
	if err != nil {
		t.Fatal(err)
	}
	dst := make([]byte, 0, n)
	b, err := MarshalAppend(dst, m)
	if err != nil || len(b) != n {
		t.Fatal(err, len(b))
	}
	if &b[0] != &dst[:1][0] {
		t.Fatal("the destination has the room but isn't used")
	}
}''', "a nested message of 128 bytes or more at the end of a destination with exactly the room for it", "MarshalAppend moves to new memory though the destination has the room which Size says"),
]
