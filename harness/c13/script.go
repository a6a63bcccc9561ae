// Package c13 runs generated call scripts through wrap.ServerToClient and through a real gRPC
// connection and compares what the client observes.
package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

// The service under test has a method of each shape, all taking and returning any message.
const service = "verif.Script"

type scriptServer interface {
	unary(ctx context.Context, dec func(any) error) (any, error)
	stream(ss grpc.ServerStream) error
}

var desc = grpc.ServiceDesc{
	ServiceName: service,
	HandlerType: (*scriptServer)(nil),
	Methods: []grpc.MethodDesc{{MethodName: "Unary", Handler: func(srv any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
		return srv.(scriptServer).unary(ctx, dec)
	}}},
	Streams: []grpc.StreamDesc{
		{StreamName: "Server", ServerStreams: true, Handler: func(srv any, ss grpc.ServerStream) error { return srv.(scriptServer).stream(ss) }},
		{StreamName: "Client", ClientStreams: true, Handler: func(srv any, ss grpc.ServerStream) error { return srv.(scriptServer).stream(ss) }},
		{StreamName: "Bidi", ServerStreams: true, ClientStreams: true, Handler: func(srv any, ss grpc.ServerStream) error { return srv.(scriptServer).stream(ss) }},
	},
}

type shape int

const (
	invoke shape = iota // unary through Invoke
	unaryStream
	serverStream
	clientStream
	bidi
	nShapes
)

func (s shape) String() string {
	return [...]string{"unary", "unary as stream", "server stream", "client stream", "bidi"}[s]
}

func (s shape) method() string {
	return "/" + service + "/" + [...]string{"Unary", "Unary", "Server", "Client", "Bidi"}[s]
}

func (s shape) desc() *grpc.StreamDesc {
	return &grpc.StreamDesc{StreamName: "x", ServerStreams: s == serverStream || s == bidi, ClientStreams: s == clientStream || s == bidi}
}

type kind int

const (
	kSend       kind = iota // client to server message
	kCloseSend              // client half closes, the server sees it
	kReply                  // server to client message
	kSetHeader              // server
	kSendHeader             // server
	kSetTrailer             // server
	kHeader                 // client looks at the header
	kCancel                 // client cancels, or its deadline passes; the server sees its context end
	kPending                // client starts waiting for a message, and gets it by a later step
	kReturn                 // server returns
)

type step struct {
	kind     kind
	msg      proto.Message
	md       metadata.MD
	viaCtx   bool // header/trailer through grpc.SetHeader(ctx) rather than the stream
	mutate   bool // the sender alters its message as soon as the send returned
	foreign  int  // the client uses 1: a dynamic message; 2: a message of another descriptor
	dirty    bool // the receiver passes a message that isn't empty
	deadline bool
	unseen   bool // kCloseSend: the server doesn't look
	err      error
	nilMsg   bool // reply with a typed nil message
}

func (s step) String() string {
	switch s.kind {
	case kSend:
		return "send"
	case kCloseSend:
		return "close-send"
	case kReply:
		return "reply"
	case kSetHeader:
		return fmt.Sprint("set-header ", s.md)
	case kSendHeader:
		return fmt.Sprint("send-header ", s.md)
	case kSetTrailer:
		return fmt.Sprint("set-trailer ", s.md)
	case kHeader:
		return "header"
	case kCancel:
		if s.deadline {
			return "deadline"
		}
		return "cancel"
	case kPending:
		return "recv-pending"
	case kReturn:
		return fmt.Sprintf("return %v", s.err)
	}
	return "?"
}

type script struct {
	shape       shape
	like        proto.Message
	steps       []step
	outgoing    metadata.MD
	incoming    metadata.MD // the call is made by a handler that was called with it
	precancel   int         // the context is 1: cancelled, 2: past its deadline before the call
	earlyHeader bool        // client asks for the header right after starting the call
	spawn       bool        // the handler leaves a goroutine behind that waits for its context
	extra       bool        // the client uses the stream after it ended
	wantHeader  bool        // Invoke with grpc.Header
	wantTrailer bool        // Invoke with grpc.Trailer
}

func (s script) String() string {
	var b strings.Builder
	fmt.Fprint(&b, s.shape)
	if s.precancel != 0 {
		fmt.Fprintf(&b, " precancel%d", s.precancel)
	}
	if s.earlyHeader {
		fmt.Fprint(&b, " early-header")
	}
	for _, st := range s.steps {
		fmt.Fprint(&b, " | ", st)
	}
	return b.String()
}

// testCtx is a context ended by the script, as a cancellation or an expired deadline.
type testCtx struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func newTestCtx(parent context.Context) *testCtx {
	return &testCtx{Context: parent, done: make(chan struct{})}
}

func (c *testCtx) Done() <-chan struct{} { return c.done }
func (c *testCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *testCtx) end(deadline bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		return
	}
	c.err = context.Canceled
	if deadline {
		c.err = context.DeadlineExceeded
	}
	close(c.done)
}

// transcript is what was observed. Entries are compared between transports in order.
type transcript struct {
	mu      sync.Mutex
	entries []string
	bad     []string // facts that are wrong whatever the other transport does
	sent    []sent
}

type sent struct {
	what      string
	msg, want proto.Message
}

func (t *transcript) add(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.entries = append(t.entries, fmt.Sprintf(format, args...))
}

func (t *transcript) wrong(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.bad = append(t.bad, fmt.Sprintf(format, args...))
}

func msgText(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "unmarshallable: " + err.Error()
	}
	return fmt.Sprintf("%x", b)
}

func mdText(md metadata.MD) string {
	var out []string
	for k, vs := range md {
		switch k {
		case "content-type", "user-agent", ":authority", "grpc-accept-encoding", "grpc-status", "grpc-message", "grpc-timeout", "grpc-status-details-bin":
			continue
		}
		if len(vs) == 0 {
			continue
		}
		out = append(out, fmt.Sprintf("%s=%q", k, vs))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// outcome renders an error the way a gRPC client understands it.
func outcome(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "EOF"
	}
	st, ok := status.FromError(err)
	if !ok {
		st = status.FromContextError(err)
	}
	return fmt.Sprintf("%v %q", st.Code(), st.Message())
}

func outcomeCode(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "EOF"
	}
	st, ok := status.FromError(err)
	if !ok {
		st = status.FromContextError(err)
	}
	return st.Code().String()
}

func fails(err error) string {
	if err == nil {
		return "ok"
	}
	return "fails"
}

// transport hosts the scripted server; at most one script runs at a time.
type transport struct {
	name string
	conn grpc.ClientConnInterface
	host *host
	stop func()
}

type host struct{ cur atomic.Pointer[exec] }

func (h *host) unary(ctx context.Context, dec func(any) error) (any, error) {
	e := h.cur.Load()
	if e == nil || !e.begin() {
		return nil, status.Error(codes.Aborted, "no script")
	}
	return e.serveUnary(ctx, dec)
}

func (h *host) stream(ss grpc.ServerStream) error {
	e := h.cur.Load()
	if e == nil || !e.begin() {
		return status.Error(codes.Aborted, "no script")
	}
	return e.serve(ss.Context(), ss)
}

func newWrap() *transport {
	h := &host{}
	return &transport{name: "wrap", conn: wrap.ServerToClient(desc, h), host: h, stop: func() {}}
}

func newGRPC() *transport {
	h := &host{}
	lis := bufconn.Listen(1 << 20)
	srv := grpc.NewServer()
	srv.RegisterService(&desc, h)
	go srv.Serve(lis)
	conn, err := grpc.NewClient("passthrough:///bufnet",
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return &transport{name: "grpc", conn: conn, host: h, stop: func() { conn.Close(); srv.Stop() }}
}

// exec is one script being run on a transport. The controller performs the steps one by one;
// client and server each run their own calls on their own goroutine.
type exec struct {
	transcript
	sc      script
	srvCmd  chan func()
	started chan struct{}
	once    sync.Once
	began   atomic.Bool
	ctx     *testCtx

	ss      grpc.ServerStream // nil for unary
	sctx    context.Context
	dec     func(any) error
	retResp any
	retErr  error
	ret     bool
	spawned chan struct{}
}

func (e *exec) begin() bool { return e.began.CompareAndSwap(false, true) }

func (e *exec) loop(ctx context.Context) {
	e.sctx = ctx
	if e.sc.spawn {
		go func() {
			<-ctx.Done()
			close(e.spawned)
		}()
	}
	e.once.Do(func() { close(e.started) })
	for f := range e.srvCmd {
		f()
		if e.ret {
			return
		}
	}
}

func (e *exec) serve(ctx context.Context, ss grpc.ServerStream) error {
	e.ss = ss
	e.loop(ctx)
	return e.retErr
}

func (e *exec) serveUnary(ctx context.Context, dec func(any) error) (any, error) {
	e.dec = dec
	e.loop(ctx)
	return e.retResp, e.retErr
}

// async runs f elsewhere and returns a function waiting for it.
func async(f func()) func() error {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	return func() error {
		select {
		case p := <-done:
			if p != nil {
				return fmt.Errorf("panic: %v", p)
			}
			return nil
		case <-time.After(vkit.Long * 2 / 3):
			return errors.New("still blocked after 20s\n" + vkit.Stacks("pkg/wrap"))
		}
	}
}

// server runs f on the handler's goroutine.
func (e *exec) server(f func()) func() error {
	return async(func() {
		<-e.started
		done := make(chan any)
		e.srvCmd <- func() {
			defer func() {
				if p := recover(); p != nil {
					done <- p
					return
				}
				close(done)
			}()
			f()
		}
		if p := <-done; p != nil {
			panic(p)
		}
	})
}

// dst makes the message a receiver passes to RecvMsg.
func dst(like proto.Message, foreign int, dirty proto.Message) proto.Message {
	var m proto.Message
	switch foreign {
	case 1:
		m = dynamicpb.NewMessage(like.ProtoReflect().Descriptor())
	case 2:
		m = dynamicpb.NewMessage(twin(like.ProtoReflect().Descriptor()))
	default:
		m = like.ProtoReflect().New().Interface()
	}
	if dirty != nil {
		b, _ := proto.Marshal(dirty)
		_ = proto.Unmarshal(b, m)
	}
	return m
}

func asForeign(m proto.Message, foreign int) proto.Message {
	if foreign == 0 {
		return proto.Clone(m)
	}
	d := dst(m, foreign, nil)
	b, _ := proto.Marshal(m)
	_ = proto.Unmarshal(b, d)
	return d
}

var (
	twinMu sync.Mutex
	twins  = map[protoreflect.FullName]protoreflect.MessageDescriptor{}
)

// twin is a message descriptor like md that isn't md.
func twin(md protoreflect.MessageDescriptor) protoreflect.MessageDescriptor {
	twinMu.Lock()
	defer twinMu.Unlock()
	if t := twins[md.FullName()]; t != nil {
		return t
	}
	fd, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(md.ParentFile()), protoregistry.GlobalFiles)
	if err != nil {
		panic(err)
	}
	var find func(ms protoreflect.MessageDescriptors) protoreflect.MessageDescriptor
	find = func(ms protoreflect.MessageDescriptors) protoreflect.MessageDescriptor {
		for i := 0; i < ms.Len(); i++ {
			if ms.Get(i).FullName() == md.FullName() {
				return ms.Get(i)
			}
			if f := find(ms.Get(i).Messages()); f != nil {
				return f
			}
		}
		return nil
	}
	t := find(fd.Messages())
	twins[md.FullName()] = t
	return t
}

// alter changes everything reachable from m in place.
func alter(m proto.Message) {
	r := m.ProtoReflect()
	if !r.IsValid() {
		return
	}
	r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			v.Map().Range(func(k protoreflect.MapKey, mv protoreflect.Value) bool {
				if fd.MapValue().Message() != nil {
					alter(mv.Message().Interface())
				} else if fd.MapValue().Kind() == protoreflect.BytesKind {
					for i := range mv.Bytes() {
						mv.Bytes()[i] ^= 0x55
					}
				} else {
					v.Map().Set(k, fd.MapValue().Default())
				}
				return true
			})
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				switch {
				case fd.Message() != nil:
					alter(v.List().Get(i).Message().Interface())
				case fd.Kind() == protoreflect.BytesKind:
					b := v.List().Get(i).Bytes()
					for j := range b {
						b[j] ^= 0x55
					}
				default:
					v.List().Set(i, v.List().NewElement())
				}
			}
		case fd.Message() != nil:
			alter(v.Message().Interface())
		case fd.Kind() == protoreflect.BytesKind:
			b := v.Bytes()
			for j := range b {
				b[j] ^= 0x55
			}
		default:
			r.Clear(fd)
		}
		return true
	})
}

// lateMsg is a destination whose use is held up until the sender's SendMsg returned and the sender altered
// its message, or for a moment.
type lateMsg struct {
	proto.Message
	once sync.Once
	wait <-chan struct{}
}

func (l *lateMsg) ProtoReflect() protoreflect.Message {
	l.once.Do(func() {
		select {
		case <-l.wait:
		case <-time.After(2 * time.Millisecond):
		}
	})
	return l.Message.ProtoReflect()
}
