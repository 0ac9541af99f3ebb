// Command vgrpc runs the monitored workload of C15: gRPC traffic between peers using
// PrutalCodec and peers using gRPC's own codec, checked message by message, and the
// codec's methods against prutal's.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
	"google.golang.org/grpc"
	_ "google.golang.org/genproto/googleapis/rpc/errdetails"
	_ "google.golang.org/grpc/channelz/grpc_channelz_v1"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/encoding"
	"google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/mem"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	_ "google.golang.org/protobuf/types/pluginpb"

	"vharness/gen"
	"vharness/model"
	_ "vharness/pb/ed"
	"vharness/pb/gp3"
	_ "vharness/pb/p2"
	_ "vharness/pb/p3"
	"vharness/vrun"
)

func main() {
	r := vrun.New()
	if r.Prop != "C15" {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(2)
	}
	w := newWorld(r)
	direct(r, w)
	retained(r, w)
	storms(r, w)
	hostile(r, w)
	r.Count("recycled_buffers", w.pool.n.Load())
	r.Finish()
}

var det = proto.MarshalOptions{Deterministic: true, AllowPartial: true}

type world struct {
	types []protoreflect.MessageType
	plain []reflect.Type // types by prutalgen, beside the official ones
	pool  *poison
	peers map[string]*peer // by server codec and transport
}

// poison is a buffer pool whose buffers are overwritten as soon as they are given back.
type poison struct {
	p mem.BufferPool
	n atomic.Int64
}

func (p *poison) Get(n int) *[]byte { return p.p.Get(n) }
func (p *poison) Put(b *[]byte) {
	x := (*b)[:cap(*b)]
	for i := range x {
		x[i] = 0xa5
	}
	p.n.Add(1)
	p.p.Put(b)
}

// codecV2 wraps PrutalCodec the way gRPC's own codec handles buffers: received data live in
// pooled buffers which are reused after Unmarshal.
type codecV2 struct {
	c    grpccodec.PrutalCodec
	pool mem.BufferPool
}

func (c codecV2) Name() string { return c.c.Name() }
func (c codecV2) Marshal(v any) (mem.BufferSlice, error) {
	b, err := c.c.Marshal(v)
	if err != nil {
		return nil, err
	}
	// from here on the buffer belongs to the stack, which recycles it after sending
	return mem.BufferSlice{mem.NewBuffer(&b, c.pool)}, nil
}

func (c codecV2) Unmarshal(data mem.BufferSlice, v any) error {
	buf := data.MaterializeToBuffer(c.pool)
	defer buf.Free()
	return c.c.Unmarshal(buf.ReadOnlyData(), v)
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Name() string { return "proto" }
func (rawCodec) Marshal(v any) ([]byte, error) {
	if b, ok := v.(*[]byte); ok {
		return *b, nil
	}
	return nil, errors.New("not raw")
}
func (rawCodec) Unmarshal(b []byte, v any) error { *v.(*[]byte) = append([]byte{}, b...); return nil }

var codecNames = []string{"std", "prutal", "prutal2"}

func (w *world) serverOpt(c string) []grpc.ServerOption {
	switch c {
	case "prutal":
		return []grpc.ServerOption{grpc.ForceServerCodec(grpccodec.PrutalCodec{})}
	case "prutal2":
		return []grpc.ServerOption{grpc.ForceServerCodecV2(codecV2{pool: w.pool})}
	}
	return nil
}

func (w *world) callOpt(c string) []grpc.CallOption {
	switch c {
	case "prutal":
		return []grpc.CallOption{grpc.ForceCodec(grpccodec.PrutalCodec{})}
	case "prutal2":
		return []grpc.CallOption{grpc.ForceCodecV2(codecV2{pool: w.pool})}
	case "raw":
		return []grpc.CallOption{grpc.ForceCodec(rawCodec{})}
	}
	return nil
}

type peer struct {
	srv  *grpc.Server
	conn *grpc.ClientConn
}

func newWorld(r *vrun.Run) *world {
	w := &world{pool: &poison{p: mem.DefaultBufferPool()}, peers: map[string]*peer{}}
	for _, t := range gen.AllTypes() {
		w.types = append(w.types, t)
	}
	for _, x := range []any{gp3.Leaf{}, gp3.Empty{}, gp3.Scalars{}, gp3.Opt{}, gp3.Rep{}, gp3.RepUnpacked{}, gp3.One{}, gp3.MapKeys{}, gp3.MapVals{}, gp3.Tree{}, gp3.WKT{}, gp3.State{}} {
		w.plain = append(w.plain, reflect.TypeOf(x))
	}
	var c encoding.Codec = grpccodec.PrutalCodec{} // gRPC takes it as it is
	if c.Name() != "proto" {
		r.Do("name", func(k *vrun.Case) { k.Fail("the codec's name is %q", c.Name()) })
	}
	return w
}

func (w *world) official(plain reflect.Type) protoreflect.MessageType {
	for _, t := range w.types {
		if string(t.Descriptor().FullName()) == "vh.p3."+plain.Name() {
			return t
		}
	}
	panic(plain.Name())
}

// chop is a connection which splits reads and writes and holds them up now and then.
type chop struct {
	net.Conn
	mu sync.Mutex
	g  *model.Rng
}

func (c *chop) pick(n int) (int, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if n > 1 && c.g.P(30) {
		n = 1 + c.g.N(n)
	}
	return n, c.g.P(3)
}

func (c *chop) Read(b []byte) (int, error) {
	n, nap := c.pick(len(b))
	if nap {
		time.Sleep(200 * time.Microsecond)
	}
	return c.Conn.Read(b[:n])
}

func (c *chop) Write(b []byte) (int, error) {
	k := 0
	for k < len(b) {
		n, nap := c.pick(len(b) - k)
		if nap {
			time.Sleep(200 * time.Microsecond)
		}
		m, err := c.Conn.Write(b[k : k+n])
		k += m
		if err != nil {
			return k, err
		}
	}
	return k, nil
}

// connect gives the client connection to a server of its own for one server codec and transport.
func (w *world) connect(r *vrun.Run, codec string, tcp bool) *peer {
	key := fmt.Sprint(codec, tcp)
	if p := w.peers[key]; p != nil {
		return p
	}
	const big = 64 << 20
	srv := grpc.NewServer(append(w.serverOpt(codec), grpc.MaxRecvMsgSize(big), grpc.MaxSendMsgSize(big))...)
	srv.RegisterService(&grpc.ServiceDesc{
		ServiceName: "vh.Echo", HandlerType: (*any)(nil),
		Methods: []grpc.MethodDesc{{MethodName: "Unary", Handler: func(_ any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
			s, err := stormOf(ctx)
			if err != nil {
				return nil, err
			}
			return s.unary(ctx, dec)
		}}},
		Streams: []grpc.StreamDesc{{StreamName: "Bidi", ServerStreams: true, ClientStreams: true, Handler: func(_ any, ss grpc.ServerStream) error {
			s, err := stormOf(ss.Context())
			if err != nil {
				return err
			}
			return s.bidi(ss)
		}}},
	}, struct{}{})
	var lis net.Listener
	dial := func(ctx context.Context) (net.Conn, error) { return nil, nil }
	if tcp {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness: no loopback:", err)
			os.Exit(8)
		}
		lis = l
		dial = func(ctx context.Context) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "tcp", l.Addr().String())
		}
	} else {
		l := bufconn.Listen(1 << 14)
		lis = l
		dial = l.DialContext
	}
	go srv.Serve(lis)
	conn, err := grpc.NewClient("passthrough:///vh", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) {
			c, err := dial(ctx)
			if err != nil {
				return nil, err
			}
			return &chop{Conn: c, g: model.NewRng(r.Seed, uint64(r.Shard), 5)}, nil
		}), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(big), grpc.MaxCallSendMsgSize(big)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(8)
	}
	p := &peer{srv, conn}
	w.peers[key] = p
	return p
}

// --- the methods, called directly

func direct(r *vrun.Run, w *world) {
	n := r.Scale(300, 4000)
	codec := grpccodec.PrutalCodec{}
	for _, mt := range w.types {
		mt := mt
		name := string(mt.Descriptor().FullName())
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("direct/%s/%d", name, i)
			r.Do(id, func(c *vrun.Case) {
				g := model.NewRng(r.Seed, model.HashStr(id))
				m := gen.Message(g, mt, 2, g.P(40))
				want := det0(m)
				b, err := codec.Marshal(m)
				pb, perr := prutal.Marshal(m)
				if (err == nil) != (perr == nil) || len(b) != len(pb) {
					c.Fail("%s: codec %d bytes, %v; prutal %d bytes, %v", name, len(b), err, len(pb), perr)
				}
				if !bytes.Equal(want, det0(m)) {
					c.Fail("%s: the codec changed the message", name)
				}
				in := b
				if g.P(40) {
					in = model.Mutate(g, b)
				}
				keep := append([]byte{}, in...)
				x, y := gen.Fresh(mt), gen.Fresh(mt)
				if g.P(30) { // into used values
					must(prutal.Unmarshal(want, x))
					must(prutal.Unmarshal(want, y))
				}
				e1, e2 := codec.Unmarshal(in, x), prutal.Unmarshal(keep, y)
				if (e1 == nil) != (e2 == nil) || !proto.Equal(x, y) {
					c.Fail("%s: codec: %v, prutal: %v on %x\n%v\n%v", name, e1, e2, in, x, y)
				}
				if !bytes.Equal(in, keep) {
					c.Fail("%s: the codec changed its input", name)
				}
				for i := range in {
					in[i] ^= 0xff
				}
				if !proto.Equal(x, y) {
					c.Fail("%s: the decoded message uses the input buffer", name)
				}
				c.Add("direct_calls", 2)
				c.Seen("d", name, string(keep))
			})
		}
	}
	var nilLeaf *gp3.Leaf
	var nilAny any
	for i, v := range []any{nil, nilAny, nilLeaf, gp3.Leaf{A: 1}, 5, "x", []byte{1}, new(int), &[]byte{1}, map[string]int{}, &struct{ A int }{1}, &struct {
		A int `protobuf:"bytes,1,opt,name=a"`
	}{1}, func() {}, new(*gp3.Leaf)} {
		v := v
		r.Do(fmt.Sprintf("odd/%d", i), func(c *vrun.Case) {
			do := func(f func() ([]byte, error)) (b []byte, err error, p any) {
				defer func() { p = recover() }()
				b, err = f()
				return
			}
			b1, e1, p1 := do(func() ([]byte, error) { return codec.Marshal(v) })
			b2, e2, p2 := do(func() ([]byte, error) { return prutal.Marshal(v) })
			if !bytes.Equal(b1, b2) || (e1 == nil) != (e2 == nil) || (p1 == nil) != (p2 == nil) {
				c.Fail("Marshal(%T): codec %x, %v, %v; prutal %x, %v, %v", v, b1, e1, p1, b2, e2, p2)
			}
			for _, in := range [][]byte{nil, {}, {8, 1}, {8}, {0xff}} {
				_, e1, p1 = do(func() ([]byte, error) { return nil, codec.Unmarshal(in, v) })
				_, e2, p2 = do(func() ([]byte, error) { return nil, prutal.Unmarshal(in, v) })
				if (e1 == nil) != (e2 == nil) || (p1 == nil) != (p2 == nil) {
					c.Fail("Unmarshal(%x, %T): codec %v, %v; prutal %v, %v", in, v, e1, p1, e2, p2)
				}
			}
			c.Add("odd_arguments", 1)
			c.Seen("odd", fmt.Sprintf("%T", v))
		})
	}
}

func det0(m proto.Message) []byte {
	b, err := det.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// retained: what Marshal returned stays as it is while later calls run, in many goroutines, and
// may be overwritten by its owner.
func retained(r *vrun.Run, w *world) {
	for i := 0; i < r.Scale(200, 2000); i++ {
		id := fmt.Sprintf("retained/%d", i)
		r.Do(id, func(c *vrun.Case) {
			codec := grpccodec.PrutalCodec{}
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				g := model.NewRng(r.Seed, model.HashStr(id), uint64(k))
				wg.Add(1)
				go func() {
					defer wg.Done()
					type kept struct {
						m    proto.Message
						b, s []byte
						over byte
					}
					var all []kept
					for j := 0; j < 30; j++ {
						m := gen.Message(g, w.types[g.N(len(w.types))], 2, true)
						b, err := codec.Marshal(m)
						if err != nil {
							c.Error("%T: %v", m, err)
							return
						}
						x := kept{m, b, append([]byte{}, b...), 0}
						if j%3 == 0 { // the owner reuses it, spare capacity included
							x.over = byte(1 + j)
							for q := range b[:cap(b)] {
								b[:cap(b)][q] = x.over
							}
						}
						all = append(all, x)
					}
					for _, x := range all {
						if x.over != 0 {
							for _, v := range x.b[:cap(x.b)] {
								if v != x.over {
									c.Error("%T: an encoding given away was written to later", x.m)
									return
								}
							}
							continue
						}
						if !bytes.Equal(x.b, x.s) {
							c.Error("%T: an encoding changed after later calls", x.m)
							return
						}
						o := x.m.ProtoReflect().New().Interface()
						if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(x.b, o); err != nil || !proto.Equal(o, x.m) {
							c.Error("%T: encoding of another message: %v", x.m, err)
							return
						}
					}
				}()
			}
			wg.Wait()
			c.Add("retained_encodings", 240)
			c.Seen(id)
		})
	}
}

// --- traffic

// storm is one burst of calls on one connection; both ends know which messages to expect.
type storm struct {
	id      string
	seed    uint64
	w       *world
	c       *vrun.Case
	srvStd  bool // the server needs official messages
	cliStd  bool
	calls   sync.Map // call number -> *int32 handled
	ctx     context.Context
	plainOK bool
}

var (
	stormsMu sync.Mutex
	running  = map[string]*storm{}
)

func stormOf(ctx context.Context) (*storm, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	v := md.Get("storm")
	stormsMu.Lock()
	defer stormsMu.Unlock()
	if len(v) == 0 || running[v[0]] == nil {
		return nil, status.Error(codes.FailedPrecondition, "no storm")
	}
	return running[v[0]], nil
}

func callOf(ctx context.Context) (n int) {
	md, _ := metadata.FromIncomingContext(ctx)
	fmt.Sscan(md.Get("call")[0], &n)
	return n
}

// pick is the type of the seq-th message of a call in a direction; plain may carry it as a prutalgen struct.
func (s *storm) pick(call, dir, seq int, plainSide bool) (mt protoreflect.MessageType, plain reflect.Type) {
	g := model.NewRng(s.seed, uint64(call), uint64(dir), uint64(seq), 1)
	if g.P(50) {
		t := s.w.plain[g.N(len(s.w.plain))]
		mt = s.w.official(t)
		if plainSide && g.P(60) {
			plain = t
		}
		return mt, plain
	}
	return s.w.types[g.N(len(s.w.types))], nil
}

func (s *storm) expected(call, dir, seq int) proto.Message {
	g := model.NewRng(s.seed, uint64(call), uint64(dir), uint64(seq), 2)
	mt, plainOK := s.pick(call, dir, seq, true)
	_ = plainOK
	// prutalgen structs keep no unknown fields, so those types carry none
	m := gen.Message(g, mt, g.Pick(0, 1, 2), g.P(30) && !strings.HasPrefix(string(mt.Descriptor().FullName()), "vh.p3."))
	if l, ok := m.(interface{ ProtoReflect() protoreflect.Message }); ok && g.P(4) && string(mt.Descriptor().FullName()) == "vh.p3.Leaf" {
		l.ProtoReflect().Set(mt.Descriptor().Fields().ByName("c"), protoreflect.ValueOfBytes(g.Bytes(g.Pick(1<<14, 1<<16, 1<<20))))
	}
	// required fields are not the matter here
	fillRequired(m.ProtoReflect())
	return m
}

func fillRequired(m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Cardinality() == protoreflect.Required && !m.Has(f) {
			switch {
			case f.Message() != nil:
				m.Mutable(f)
			case f.Kind() == protoreflect.BytesKind:
				m.Set(f, protoreflect.ValueOfBytes([]byte{1}))
			default:
				m.Set(f, f.Default())
			}
		}
	}
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.Message() == nil:
		case f.IsMap():
			if f.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, x protoreflect.Value) bool { fillRequired(x.Message()); return true })
			}
		case f.IsList():
			for i := 0; i < v.List().Len(); i++ {
				fillRequired(v.List().Get(i).Message())
			}
		default:
			fillRequired(v.Message())
		}
		return true
	})
}

// outgoing is the value to send, incoming a fresh value to receive into; std peers need official ones.
func (s *storm) outgoing(call, dir, seq int, std bool) any {
	m := s.expected(call, dir, seq)
	_, plain := s.pick(call, dir, seq, !std)
	if plain == nil {
		return m
	}
	x := reflect.New(plain).Interface()
	if err := prutal.Unmarshal(det0(m), x); err != nil {
		s.c.Error("%s: prutal.Unmarshal: %v", plain.Name(), err)
	}
	return x
}

func (s *storm) incoming(call, dir, seq int, std bool) any {
	mt, plain := s.pick(call, dir, seq, !std)
	if plain != nil {
		return reflect.New(plain).Interface()
	}
	return gen.Fresh(mt)
}

// check compares a received value; later, after more traffic, it is compared again.
func (s *storm) check(call, dir, seq int, got any, where string) bool {
	want := s.expected(call, dir, seq)
	m, ok := got.(proto.Message)
	if !ok {
		b, err := prutal.Marshal(got)
		if err != nil {
			s.c.Error("%s: %T: %v", where, got, err)
			return false
		}
		m = want.ProtoReflect().New().Interface()
		if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, m); err != nil {
			s.c.Error("%s: %T: %v", where, got, err)
			return false
		}
	}
	if !proto.Equal(want, m) {
		s.c.Error("%s: call %d direction %d message %d (%T) arrived changed:\nwant %.300s\ngot  %.300s", where, call, dir, seq, got, fmt.Sprint(want), fmt.Sprint(m))
		return false
	}
	return true
}

func (s *storm) handled(call int) {
	n, _ := s.calls.LoadOrStore(call, new(int32))
	atomic.AddInt32(n.(*int32), 1)
}

// unary: message (call,0,0) in, message (call,1,0) out.
func (s *storm) unary(ctx context.Context, dec func(any) error) (any, error) {
	call := callOf(ctx)
	s.handled(call)
	in := s.incoming(call, 0, 0, s.srvStd)
	if err := dec(in); err != nil {
		return nil, err
	}
	s.check(call, 0, 0, in, "server")
	return s.outgoing(call, 1, 0, s.srvStd), nil
}

// counts is how many messages go each way in a stream.
func (s *storm) counts(call int) (up, down int) {
	g := model.NewRng(s.seed, uint64(call), 9)
	return g.Pick(0, 1, 1, 2, 5, 20), g.Pick(0, 1, 1, 2, 5, 20)
}

func (s *storm) bidi(ss grpc.ServerStream) error {
	call := callOf(ss.Context())
	s.handled(call)
	return s.pump(call, 1, s.srvStd, "server", ss.SendMsg, ss.RecvMsg, nil)
}

// pump sends this end's messages while it receives and checks the other's; the received ones are
// checked again when the stream is over.
func (s *storm) pump(call, dir int, std bool, where string, send, recv func(any) error, closeSend func() error) error {
	up, down := s.counts(call)
	mine, theirs := up, down
	if dir == 1 {
		mine, theirs = down, up
	}
	errc := make(chan error, 1)
	go func() {
		for i := 0; i < mine; i++ {
			out := s.outgoing(call, dir, i, std)
			if err := send(out); err != nil {
				errc <- fmt.Errorf("send %d: %w", i, err)
				return
			}
			// once SendMsg returns the message is the sender's again: what was sent must not follow
			wipe(out)
		}
		if closeSend != nil {
			errc <- closeSend()
			return
		}
		errc <- nil
	}()
	var got []any
	for i := 0; ; i++ {
		var in any
		if i < theirs {
			in = s.incoming(call, 1-dir, i, std)
		} else if std {
			in = gen.Fresh(s.w.types[0])
		} else {
			in = new(gp3.Empty)
		}
		err := recv(in)
		if err == io.EOF {
			if i != theirs {
				s.c.Error("%s: call %d: %d messages arrived, not %d", where, call, i, theirs)
			}
			break
		}
		if err != nil {
			return fmt.Errorf("receive %d: %w", i, err)
		}
		if i >= theirs {
			s.c.Error("%s: call %d: more than the %d messages sent arrived", where, call, theirs)
			return nil
		}
		if !s.check(call, 1-dir, i, in, where) {
			return nil
		}
		got = append(got, in)
	}
	if err := <-errc; err != nil {
		return err
	}
	for i, in := range got {
		if !s.check(call, 1-dir, i, in, where+" later") {
			return nil
		}
	}
	s.c.Add("stream_messages", len(got))
	return nil
}

// wipe overwrites what a message refers to in place.
func wipe(v any) {
	var walk func(x reflect.Value)
	walk = func(x reflect.Value) {
		switch x.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !x.IsNil() {
				walk(x.Elem())
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				if x.Type().Field(i).PkgPath == "" {
					walk(x.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i))
			}
		case reflect.Map:
			for _, k := range x.MapKeys() {
				if e := x.MapIndex(k); e.Kind() == reflect.Ptr {
					walk(e)
				}
			}
		case reflect.Uint8:
			x.SetUint(0x5a)
		case reflect.Int32, reflect.Int64:
			x.SetInt(0x5a5a)
		case reflect.Uint32, reflect.Uint64:
			x.SetUint(0x5a5a)
		}
	}
	walk(reflect.ValueOf(v))
}

func storms(r *vrun.Run, w *world) {
	n := r.Scale(240, 3000)
	for _, cc := range codecNames {
		for _, sc := range codecNames {
			for i := 0; i < n; i++ {
				cc, sc := cc, sc
				id := fmt.Sprintf("storm/%s-%s/%d", cc, sc, i)
				r.Do(id, func(c *vrun.Case) {
					g := model.NewRng(r.Seed, model.HashStr(id))
					p := w.connect(r, sc, g.P(50))
					s := &storm{id: id, seed: g.U64(), w: w, c: c, srvStd: sc == "std", cliStd: cc == "std"}
					stormsMu.Lock()
					running[id] = s
					stormsMu.Unlock()
					defer func() { stormsMu.Lock(); delete(running, id); stormsMu.Unlock() }()
					s.run(p, w.callOpt(cc), g.Pick(1, 4, 16))
					c.Add("pairing_"+cc+"_"+sc, 1)
					c.Seen(id)
				})
			}
		}
	}
}

func (s *storm) run(p *peer, opts []grpc.CallOption, workers int) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	var wg sync.WaitGroup
	var calls atomic.Int64
	for k := 0; k < workers; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 6; j++ {
				call := k*100 + j
				g := model.NewRng(s.seed, uint64(call), 3)
				o := opts
				if g.P(15) {
					o = append(append([]grpc.CallOption{}, o...), grpc.UseCompressor(gzip.Name))
				}
				cx := metadata.AppendToOutgoingContext(ctx, "storm", s.id, "call", fmt.Sprint(call))
				calls.Add(1)
				if g.P(50) {
					out, in := s.outgoing(call, 0, 0, s.cliStd), s.incoming(call, 1, 0, s.cliStd)
					if err := p.conn.Invoke(cx, "/vh.Echo/Unary", out, in, o...); err != nil {
						s.c.Error("call %d: %T: %v", call, out, err)
						return
					}
					if !s.check(call, 1, 0, in, "client") {
						return
					}
					s.c.Add("unary_calls", 1)
					continue
				}
				st, err := p.conn.NewStream(cx, &grpc.StreamDesc{StreamName: "Bidi", ServerStreams: true, ClientStreams: true}, "/vh.Echo/Bidi", o...)
				if err != nil {
					s.c.Error("call %d: %v", call, err)
					return
				}
				if err := s.pump(call, 0, s.cliStd, "client", st.SendMsg, st.RecvMsg, st.CloseSend); err != nil {
					s.c.Error("call %d: %v", call, err)
					return
				}
				s.c.Add("streams", 1)
			}
		}()
	}
	wg.Wait()
	n := 0
	s.calls.Range(func(k, v any) bool {
		n++
		if *v.(*int32) != 1 {
			s.c.Error("call %v was handled %d times", k, *v.(*int32))
		}
		return true
	})
	if int64(n) != calls.Load() {
		s.c.Error("%d calls made, %d handled", calls.Load(), n)
	}
}

// hostile: bytes which are no message fail the call they come with and nothing else.
func hostile(r *vrun.Run, w *world) {
	bad := [][]byte{{0xff}, {8}, {0x0a, 5, 1}, {0}, {0x0b}, bytes.Repeat([]byte{0xff}, 40), {0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f}}
	for i := 0; i < r.Scale(200, 2000); i++ {
		for _, sc := range []string{"prutal", "prutal2"} {
			sc := sc
			id := fmt.Sprintf("hostile/%s/%d", sc, i)
			r.Do(id, func(c *vrun.Case) {
				g := model.NewRng(r.Seed, model.HashStr(id))
				p := w.connect(r, sc, g.P(50))
				s := &storm{id: id, seed: g.U64(), w: w, c: c, cliStd: true}
				stormsMu.Lock()
				running[id] = s
				stormsMu.Unlock()
				defer func() { stormsMu.Lock(); delete(running, id); stormsMu.Unlock() }()
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				defer cancel()
				ctx = metadata.AppendToOutgoingContext(ctx, "storm", id)
				var wg sync.WaitGroup
				for k := 0; k < 4; k++ {
					k := k
					b := append([]byte{}, bad[g.N(len(bad))]...)
					wg.Add(1)
					go func() {
						defer wg.Done()
						cx := metadata.AppendToOutgoingContext(ctx, "call", fmt.Sprint(k))
						if k%2 == 0 {
							var out []byte
							err := p.conn.Invoke(cx, "/vh.Echo/Unary", &b, &out, w.callOpt("raw")...)
							if err == nil {
								c.Error("the server accepted % x", b)
							} else if status.Code(err) == codes.Unavailable || status.Code(err) == codes.DeadlineExceeded {
								c.Error("malformed message took the connection down: %v", err)
							}
							return
						}
						out, in := s.outgoing(k, 0, 0, true), s.incoming(k, 1, 0, true)
						if err := p.conn.Invoke(cx, "/vh.Echo/Unary", out, in); err != nil {
							c.Error("a good call fails beside a bad one: %v", err)
							return
						}
						s.check(k, 1, 0, in, "client")
					}()
				}
				wg.Wait()
				c.Add("malformed_messages", 2)
				c.Seen(id)
			})
		}
	}
}
