package c11

import (
	"context"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"testing"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

// script is what a server does for one call.
type script struct {
	out      []serverStep // by the goroutine that sends
	receive  int          // messages by the goroutine that receives, all of them if negative
	together bool         // whether the two run at once, else one after the other
	fails    bool
	waits    bool         // for the context before it returns
	aside    []serverStep // header and trailer, by another goroutine of the handler
	lingers  bool         // whether the handler doesn't wait for that one
}

type serverStep struct {
	kind string // send, set-header, send-header, trailer
	n    int
}

func (s *script) String() string {
	return fmt.Sprintf("%v, receives %d, together %v, fails %v, waits %v, aside %v, lingers %v", s.out, s.receive, s.together, s.fails, s.waits, s.aside, s.lingers)
}

// scripted is a server that does what the script says that the metadata of the call names.
type scripted struct {
	testproto.UnimplementedTestApiServer
	scripts []*script
}

// headers is how a server sends metadata.
type headers interface {
	SetHeader(metadata.MD) error
	SendHeader(metadata.MD) error
	SetTrailer(metadata.MD)
}

// alongside plays the steps of the script that another goroutine of the handler does.
// The handler calls the returned func before it returns.
func (s *scripted) alongside(sc *script, ss headers) (wait func()) {
	if len(sc.aside) == 0 {
		return func() {}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		playSteps(sc.aside, ss, nil)
	}()
	return func() {
		if !sc.lingers {
			<-done
		}
	}
}

func (s *scripted) script(ctx context.Context) *script {
	md, _ := metadata.FromIncomingContext(ctx)
	vs := md.Get("script")
	if len(vs) != 1 {
		return s.scripts[0]
	}
	i, _ := strconv.Atoi(vs[0])
	return s.scripts[i]
}

func mdOf(n int) metadata.MD {
	return metadata.Pairs("a", strconv.Itoa(n), "b-bin", "x")
}

func scribbleMD(md metadata.MD) {
	for k, vs := range md {
		for i := range vs {
			vs[i] += "!"
		}
		md[k] = append(vs, "more")
	}
	if md != nil {
		md["new"] = []string{"new"}
	}
}

// play does the steps of the sending goroutine of a server. send may be nil.
func (s *script) play(ss headers, send func(n int) error) { playSteps(s.out, ss, send) }

func playSteps(steps []serverStep, ss headers, send func(n int) error) {
	for _, st := range steps {
		switch st.kind {
		case "send":
			if send != nil && send(st.n) != nil {
				return
			}
		case "set-header":
			md := mdOf(st.n)
			_ = ss.SetHeader(md)
			scribbleMD(md)
		case "send-header":
			md := mdOf(st.n)
			_ = ss.SendHeader(md)
			scribbleMD(md)
		case "trailer":
			md := mdOf(st.n)
			ss.SetTrailer(md)
			scribbleMD(md)
		case "yield":
			runtime.Gosched()
		}
	}
}

func (s *script) end(ctx context.Context) error {
	if s.waits {
		<-ctx.Done()
	}
	if s.fails {
		return status.Error(codes.DataLoss, "failed")
	}
	return nil
}

// both runs the two halves of a server.
func (s *script) both(a, b func()) {
	if !s.together {
		a()
		b()
		return
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		a()
	}()
	b()
	wg.Wait()
}

type unaryHeaders struct{ ctx context.Context }

func (u unaryHeaders) SetHeader(md metadata.MD) error  { return grpc.SetHeader(u.ctx, md) }
func (u unaryHeaders) SendHeader(md metadata.MD) error { return grpc.SendHeader(u.ctx, md) }
func (u unaryHeaders) SetTrailer(md metadata.MD)       { _ = grpc.SetTrailer(u.ctx, md) }

func (s *scripted) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	sc := s.script(ctx)
	defer s.alongside(sc, unaryHeaders{ctx})()
	sc.play(unaryHeaders{ctx}, nil)
	resp := &testproto.UnaryResponse{Msg: req.GetMsg()}
	scribble(req)
	return resp, sc.end(ctx)
}

func (s *scripted) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	sc := s.script(ss.Context())
	defer s.alongside(sc, ss)()
	scribble(req)
	sc.play(ss, func(n int) error {
		m := &testproto.ServerStreamResponse{Counter: int32(n)}
		err := ss.Send(m)
		scribble(m)
		return err
	})
	return sc.end(ss.Context())
}

func (s *scripted) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	sc := s.script(ss.Context())
	defer s.alongside(sc, ss)()
	sc.both(func() { sc.play(ss, nil) }, func() {
		for i := 0; i != sc.receive; i++ {
			m, err := ss.Recv()
			if err != nil {
				return
			}
			scribble(m)
		}
	})
	if err := sc.end(ss.Context()); err != nil {
		return err
	}
	return ss.SendAndClose(&testproto.ClientStreamResponse{Msg: "done"})
}

func (s *scripted) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	sc := s.script(ss.Context())
	defer s.alongside(sc, ss)()
	sc.both(func() {
		sc.play(ss, func(n int) error {
			m := &testproto.BidiStreamResponse{Msg: strconv.Itoa(n)}
			err := ss.Send(m)
			scribble(m)
			return err
		})
	}, func() {
		for i := 0; i != sc.receive; i++ {
			m, err := ss.Recv()
			if err != nil {
				return
			}
			scribble(m)
		}
	})
	return sc.end(ss.Context())
}

var streamDescs = map[string]*grpc.StreamDesc{
	"Unary":        {},
	"ServerStream": {ServerStreams: true},
	"ClientStream": {ClientStreams: true},
	"BidiStream":   {ServerStreams: true, ClientStreams: true},
}

var reqTypes = map[string]proto.Message{
	"Unary":        &testproto.UnaryRequest{},
	"ServerStream": &testproto.ServerStreamRequest{},
	"ClientStream": &testproto.ClientStreamRequest{},
	"BidiStream":   &testproto.BidiStreamRequest{},
}

var respTypes = map[string]proto.Message{
	"Unary":        &testproto.UnaryResponse{},
	"ServerStream": &testproto.ServerStreamResponse{},
	"ClientStream": &testproto.ClientStreamResponse{},
	"BidiStream":   &testproto.BidiStreamResponse{},
}

func newOf(types map[string]proto.Message, name string) proto.Message {
	return types[name].ProtoReflect().New().Interface()
}

// TestWrap runs calls of one wrapped server at once, each with all that a client may do at once.
func TestWrap(t *testing.T) {
	methods := []string{"Unary", "ServerStream", "ClientStream", "BidiStream"}
	vkit.Check(t, vkit.N(2500, 50000), func(t *rapid.T) {
		server := &scripted{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "scripts"); i < n; i++ {
			sc := &script{receive: rapid.IntRange(-2, 3).Draw(t, "receive"), together: rapid.Bool().Draw(t, "together"),
				fails: rapid.IntRange(0, 3).Draw(t, "fails") == 0, waits: rapid.IntRange(0, 3).Draw(t, "waits") == 0}
			for k, n := 0, rapid.IntRange(0, 6).Draw(t, "steps"); k < n; k++ {
				sc.out = append(sc.out, serverStep{rapid.SampledFrom([]string{"send", "send", "set-header", "send-header", "trailer", "yield"}).Draw(t, "step"), k})
			}
			if rapid.IntRange(0, 2).Draw(t, "aside") == 0 {
				for k, n := 0, rapid.IntRange(1, 4).Draw(t, "aside steps"); k < n; k++ {
					sc.aside = append(sc.aside, serverStep{rapid.SampledFrom([]string{"set-header", "send-header", "trailer", "trailer", "yield"}).Draw(t, "step"), k})
				}
				sc.lingers = rapid.Bool().Draw(t, "lingers")
			}
			server.scripts = append(server.scripts, sc)
		}
		conn := wrap.ServerToClient(testproto.TestApi_ServiceDesc, server)
		what := fmt.Sprint("scripts ", server.scripts)
		calls := 0
		plans := draw(t, 4, func(int) task {
			name := rapid.SampledFrom(methods).Draw(t, "method")
			desc := streamDescs[name]
			full := "/" + testproto.TestApi_ServiceDesc.ServiceName + "/" + name
			at := rapid.IntRange(0, len(server.scripts)-1).Draw(t, "script")
			ends := rapid.IntRange(-3, 8).Draw(t, "ends after")
			waits := server.scripts[at].waits
			if waits && ends < 0 {
				ends = 4
			}
			calls++
			txt := fmt.Sprintf("%s script %d, ends after %d", name, at, ends)
			if name == "Unary" && rapid.Bool().Draw(t, "invoke") {
				return task{txt: "invoke " + txt, do: func(w *worker) {
					ctx := w.ending(ends)
					ctx = metadata.AppendToOutgoingContext(ctx, "script", strconv.Itoa(at))
					req, resp := &testproto.UnaryRequest{Msg: "hi"}, &testproto.UnaryResponse{}
					var header, trailer metadata.MD
					_ = conn.Invoke(ctx, full, req, resp, grpc.Header(&header), grpc.Trailer(&trailer))
					scribble(req)
					scribble(resp)
					lookMD(header)
					lookMD(trailer)
				}}
			}
			sends := rapid.IntRange(0, 4).Draw(t, "sends")
			if !desc.ClientStreams {
				sends = 1
			}
			headers := rapid.IntRange(0, 2).Draw(t, "headers")
			more := rapid.IntRange(-2, 4).Draw(t, "receives")
			txt += fmt.Sprintf(", sends %d, receives %d, headers %d", sends, more, headers)
			return task{txt: txt, do: func(w *worker) {
				ctx, cancel := context.WithCancel(w.ending(ends))
				defer cancel()
				ctx = metadata.AppendToOutgoingContext(ctx, "script", strconv.Itoa(at))
				cs, err := conn.NewStream(ctx, desc, full)
				if err != nil {
					return
				}
				var wg sync.WaitGroup
				for range headers {
					wg.Add(1)
					go func() {
						defer wg.Done()
						h, _ := cs.Header()
						lookMD(h)
						scribbleMD(h)
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for range sends {
						m := newOf(reqTypes, name)
						if f := m.ProtoReflect().Descriptor().Fields().ByName("msg"); f != nil {
							m.ProtoReflect().Set(f, protoreflect.ValueOfString("hi"))
						}
						err := cs.SendMsg(m)
						scribble(m)
						if err != nil {
							break
						}
					}
					_ = cs.CloseSend()
				}()
				ended := false
				for i := 0; i != more; i++ {
					m := newOf(respTypes, name)
					if cs.RecvMsg(m) != nil {
						ended = true
						break
					}
					scribble(m)
					if !desc.ServerStreams {
						ended = true
						break
					}
				}
				if ended {
					for range 2 {
						wg.Add(1)
						go func() {
							defer wg.Done()
							tr := cs.Trailer()
							lookMD(tr)
							scribbleMD(tr)
						}()
					}
				}
				cancel()
				wg.Wait()
			}}
		})
		run(t, what, plans)
		check(t, what, plans)
		vkit.Class("calls %d", min(calls, 20)/4*4)
		vkit.Nontrivial(what + describe(plans))
	})
}

// ending returns a context that ends after yielding n times, with the workload if n is negative.
func (w *worker) ending(n int) context.Context {
	if n < 0 {
		return w.all.ctx
	}
	ctx, cancel := context.WithCancel(w.all.ctx)
	w.all.wg.Add(1)
	go func() {
		defer w.all.wg.Done()
		for range n * n * 4 {
			runtime.Gosched()
		}
		cancel()
	}()
	return ctx
}

func lookMD(md metadata.MD) {
	n := 0
	for k, vs := range md {
		n += len(k)
		for _, v := range vs {
			n += len(v)
		}
	}
}
