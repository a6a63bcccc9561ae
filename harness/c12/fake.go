package c12

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/regen"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/router"
)

// theRouter is what all generated routers have in common.
type theRouter interface {
	router.Router
	Register(server grpc.ServiceRegistrar)
}

// theWrapper is what all generated wrappers have in common.
type theWrapper interface {
	Unwrap() any
	UnwrapService() (grpc.ClientConnInterface, grpc.ServiceDesc)
}

type service struct {
	label   string
	desc    *grpc.ServiceDesc
	router  func(...router.Option) theRouter
	client  func(grpc.ClientConnInterface) any
	wrap    func(any) theWrapper
	factory func(func(string) (any, error)) router.Option

	methods []*method
}

func (s *service) simpleName() string {
	return s.desc.ServiceName[strings.LastIndexByte(s.desc.ServiceName, '.')+1:]
}

type method struct {
	svc      *service
	name     string
	full     string // as used with a grpc.ClientConnInterface
	stream   bool
	req, res protoreflect.MessageType
}

func (m *method) String() string { return m.full }

// byService has the table's services by their full name, with the methods of the current API descriptors.
var byService = func() map[string]*service {
	out := map[string]*service{}
	for _, s := range services {
		out[s.desc.ServiceName] = s
	}
	for _, f := range regen.Files() {
		for i := 0; i < f.Services().Len(); i++ {
			sd := f.Services().Get(i)
			s := out[string(sd.FullName())]
			if s == nil {
				continue // TestTable reports it
			}
			for j := 0; j < sd.Methods().Len(); j++ {
				md := sd.Methods().Get(j)
				s.methods = append(s.methods, &method{
					svc: s, name: string(md.Name()), full: fmt.Sprintf("/%s/%s", sd.FullName(), md.Name()),
					stream: md.IsStreamingServer(),
					req:    drive.MessageType(md.Input().FullName()), res: drive.MessageType(md.Output().FullName()),
				})
			}
		}
	}
	return out
}()

var allMethods = func() (out []*method) {
	for _, s := range services {
		out = append(out, s.methods...)
	}
	return out
}()

// script is how a client answers a request.
type script struct {
	msgs            []proto.Message
	header, trailer metadata.MD
	openErr         error // the request can't be issued
	headerErr       error // the stream ends before its header
	err             error // how it ends
	hang            bool  // after the messages only the end of the context ends it
	feed            chan proto.Message
}

func (s *script) String() string {
	var b strings.Builder
	if s.openErr != nil {
		return fmt.Sprintf("open error %v", s.openErr)
	}
	if s.headerErr != nil {
		return fmt.Sprintf("header error %v", s.headerErr)
	}
	fmt.Fprintf(&b, "header %v, %d messages", s.header, len(s.msgs))
	for _, m := range s.msgs {
		fmt.Fprintf(&b, " [%s]", vkit.Text(m))
	}
	fmt.Fprintf(&b, ", trailer %v, error %v", s.trailer, s.err)
	if s.hang {
		b.WriteString(", hangs")
	}
	return b.String()
}

// received is a request that reached a client.
type received struct {
	method string
	reqs   []proto.Message
	closed int // CloseSend
	ctx    context.Context
}

// fakeConn is a connection of a client that records requests and answers by a script.
type fakeConn struct {
	name string

	mu    sync.Mutex
	next  *script
	calls []*received
}

func (c *fakeConn) setScript(s *script) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.next = s
}

func (c *fakeConn) take() []*received {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := c.calls
	c.calls = nil
	return out
}

func (c *fakeConn) start(ctx context.Context, method string) (*received, *script) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := &received{method: method, ctx: ctx}
	c.calls = append(c.calls, r)
	s := c.next
	if s == nil {
		s = &script{err: status.Error(codes.Internal, "no script")}
	}
	return r, s
}

func (c *fakeConn) request(r *received, m any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r.reqs = append(r.reqs, proto.Clone(m.(proto.Message)))
}

func (c *fakeConn) Invoke(ctx context.Context, method string, args any, reply any, opts ...grpc.CallOption) error {
	r, s := c.start(ctx, method)
	c.request(r, args)
	if s.hang {
		<-ctx.Done()
		return status.FromContextError(ctx.Err()).Err()
	}
	if s.openErr != nil {
		return s.openErr
	}
	if s.err != nil {
		return s.err
	}
	if len(s.msgs) > 0 {
		proto.Merge(reply.(proto.Message), s.msgs[0])
	}
	return nil
}

func (c *fakeConn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	r, s := c.start(ctx, method)
	if s.openErr != nil {
		return nil, s.openErr
	}
	return &fakeStream{conn: c, r: r, s: s}, nil
}

type fakeStream struct {
	conn *fakeConn
	r    *received
	s    *script
	sent int
}

func (f *fakeStream) Header() (metadata.MD, error) {
	if f.s.headerErr != nil {
		return nil, f.s.headerErr
	}
	if err := f.r.ctx.Err(); err != nil {
		return nil, status.FromContextError(err).Err()
	}
	return f.s.header.Copy(), nil
}

func (f *fakeStream) Trailer() metadata.MD { return f.s.trailer.Copy() }

func (f *fakeStream) CloseSend() error {
	f.conn.mu.Lock()
	defer f.conn.mu.Unlock()
	f.r.closed++
	return nil
}
func (f *fakeStream) Context() context.Context { return f.r.ctx }
func (f *fakeStream) SendMsg(m any) error {
	f.conn.request(f.r, m)
	return nil
}

func (f *fakeStream) RecvMsg(m any) error {
	if f.s.headerErr != nil {
		return f.s.headerErr
	}
	if err := f.r.ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	if f.s.feed != nil {
		select {
		case <-f.r.ctx.Done():
			return status.FromContextError(f.r.ctx.Err()).Err()
		case msg, ok := <-f.s.feed:
			if ok {
				proto.Merge(m.(proto.Message), msg)
				return nil
			}
		}
	} else if f.sent < len(f.s.msgs) {
		proto.Merge(m.(proto.Message), f.s.msgs[f.sent])
		f.sent++
		return nil
	}
	if f.s.hang {
		<-f.r.ctx.Done()
		return status.FromContextError(f.r.ctx.Err()).Err()
	}
	if f.s.err != nil {
		return f.s.err
	}
	return io.EOF
}

// result is what the caller sees of a request.
type result struct {
	msgs            []proto.Message
	header, trailer metadata.MD
	err             error
}

// issue makes a request, and waits for its end.
func issue(ctx context.Context, conn grpc.ClientConnInterface, m *method, req proto.Message) (r result) {
	if !m.stream {
		res := m.res.New().Interface()
		r.err = conn.Invoke(ctx, m.full, req, res)
		if r.err == nil {
			r.msgs = []proto.Message{res}
		}
		return r
	}
	ctx, done := context.WithCancel(ctx)
	defer done()
	s, err := conn.NewStream(ctx, &grpc.StreamDesc{StreamName: m.name, ServerStreams: true}, m.full)
	if err != nil {
		r.err = err
		return r
	}
	if err := s.SendMsg(req); err != nil && err != io.EOF {
		r.err = err
		return r
	}
	if err := s.CloseSend(); err != nil {
		r.err = err
		return r
	}
	r.header, _ = s.Header()
	for {
		res := m.res.New().Interface()
		if err := s.RecvMsg(res); err != nil {
			if err != io.EOF {
				r.err = err
			}
			break
		}
		r.msgs = append(r.msgs, res)
	}
	r.trailer = s.Trailer()
	return r
}

// sameMD ignores what the transport adds.
func mdText(md metadata.MD) string {
	var out []string
	for k, vs := range md {
		if k == "content-type" || k == "user-agent" || k == "grpc-status-details-bin" || len(vs) == 0 {
			continue
		}
		out = append(out, fmt.Sprintf("%s=%q", k, vs))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	s := status.Convert(err)
	return fmt.Sprintf("%v %q %q", s.Code(), s.Message(), fmt.Sprint(s.Proto().GetDetails()))
}

// check compares what the caller saw with how the client answered.
func (s *script) check(m *method, r result) error {
	want := s.err
	msgs := s.msgs
	header, trailer := s.header, s.trailer
	switch {
	case s.openErr != nil:
		want, msgs, header, trailer = s.openErr, nil, nil, nil
	case m.stream && s.headerErr != nil:
		want, msgs, header, trailer = s.headerErr, nil, nil, r.trailer
	}
	if !m.stream {
		header, trailer = nil, nil
		if want != nil {
			msgs = nil
		} else if len(msgs) == 0 {
			msgs = []proto.Message{m.res.New().Interface()}
		} else {
			msgs = msgs[:1]
		}
	}
	if errText(want) != errText(r.err) {
		return fmt.Errorf("the client's outcome was %s but the caller got %s", errText(want), errText(r.err))
	}
	if len(msgs) != len(r.msgs) {
		return fmt.Errorf("the client sent %d messages but the caller got %d", len(msgs), len(r.msgs))
	}
	for i := range msgs {
		if !vkit.Same(msgs[i], r.msgs[i]) {
			return fmt.Errorf("message %d was %s but the caller got %s", i, vkit.Text(msgs[i]), vkit.Text(r.msgs[i]))
		}
	}
	if mdText(header) != mdText(r.header) {
		return fmt.Errorf("the client's header was %s but the caller got %s", mdText(header), mdText(r.header))
	}
	if mdText(trailer) != mdText(r.trailer) {
		return fmt.Errorf("the client's trailer was %s but the caller got %s", mdText(trailer), mdText(r.trailer))
	}
	return nil
}

// gotOnce checks that a client received one request.
func gotOnce(calls []*received, m *method, req proto.Message, sc *script) error {
	if len(calls) != 1 {
		return fmt.Errorf("the client received %d requests, want 1", len(calls))
	}
	c := calls[0]
	if c.method != m.full {
		return fmt.Errorf("the client received a request for %s, want %s", c.method, m.full)
	}
	if m.stream && sc.openErr != nil && len(c.reqs) == 0 {
		return nil // there was nothing to send the request to
	}
	if len(c.reqs) != 1 {
		return fmt.Errorf("the client received %d request messages, want 1", len(c.reqs))
	}
	if !vkit.Same(c.reqs[0], req) {
		return fmt.Errorf("the client received %s, want %s", vkit.Text(c.reqs[0]), vkit.Text(req))
	}
	return nil
}

const short = 50 * time.Millisecond
