package c12

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/regen"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/middleware/name"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

func TestMain(m *testing.M) { vkit.Main(m) }

var bg = context.Background()

var names = []string{"a", "b", "A", "a/b", "", "floor 1/ünï", "a ", strings.Repeat("x", 300)}

var msgGen = vkit.MsgGen{MaxFields: 3, MaxDepth: 2, MaxLen: 2, Special: true, Unknown: true}

func genName(t *rapid.T, label string) string { return vkit.Pick(t, names, label) }

func genReq(t *rapid.T, m *method, name, label string) proto.Message {
	g := msgGen
	g.Skip = func(fd protoreflect.FieldDescriptor) bool {
		return fd.FullName() == m.req.Descriptor().FullName().Append("name")
	}
	req := g.New(t, m.req, label)
	if fd := m.req.Descriptor().Fields().ByName("name"); fd != nil {
		req.ProtoReflect().Set(fd, protoreflect.ValueOfString(name))
	}
	return req
}

func genMD(t *rapid.T, label string) metadata.MD {
	n := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, label+" keys")
	if n == 0 {
		return nil
	}
	md := metadata.MD{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"a", "b", "c-d", "e.f_0", "x-bin"}).Draw(t, label+" key")
		vals := []string{"", "v", "two words", "a,b", "~!@#%25", "long" + strings.Repeat("x", 100)}
		if strings.HasSuffix(k, "-bin") {
			vals = []string{"\x00\xff", "v", "a,b"}
		}
		for j := rapid.IntRange(1, 2).Draw(t, label+" values"); j > 0; j-- {
			md.Append(k, rapid.SampledFrom(vals).Draw(t, label+" value"))
		}
	}
	return md
}

func genStatus(t *rapid.T, label string) error {
	st := status.New(codes.Code(rapid.IntRange(1, 16).Draw(t, label+" code")),
		rapid.SampledFrom([]string{"", "msg", "50% \n ünï", "EOF", "not found"}).Draw(t, label+" message"))
	if rapid.Bool().Draw(t, label+" details") {
		st, _ = st.WithDetails(durationpb.New(time.Second))
	}
	return st.Err()
}

func genScript(t *rapid.T, m *method, wire bool) *script {
	s := &script{}
	kind := rapid.IntRange(0, 9).Draw(t, "script")
	if kind == 0 && !wire {
		s.openErr = genStatus(t, "open error")
		return s
	}
	if kind == 1 && !wire && m.stream {
		s.headerErr = genStatus(t, "header error")
		return s
	}
	n := 1
	if m.stream {
		n = rapid.IntRange(0, 4).Draw(t, "messages")
		s.header = genMD(t, "header")
		s.trailer = genMD(t, "trailer")
	}
	if kind >= 6 {
		s.err = genStatus(t, "error")
		if !m.stream {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		s.msgs = append(s.msgs, msgGen.New(t, m.res, fmt.Sprintf("message %d", i)))
	}
	return s
}

func (s *script) class() string {
	switch {
	case s.openErr != nil:
		return "open error"
	case s.headerErr != nil:
		return "header error"
	case s.err != nil:
		return fmt.Sprintf("error after %d", len(s.msgs))
	}
	return fmt.Sprintf("ok after %d", len(s.msgs))
}

// TestRouteTable: the table the other tests go by has every service of the API, each with a router.
func TestRouteTable(t *testing.T) {
	vkit.Eval()
	seen := map[string]string{}
	for _, s := range services {
		if o := seen[s.desc.ServiceName]; o != "" {
			t.Errorf("%s and %s both are for %s", o, s.label, s.desc.ServiceName)
		}
		seen[s.desc.ServiceName] = s.label
	}
	for _, f := range regen.Files() {
		for i := 0; i < f.Services().Len(); i++ {
			sd := f.Services().Get(i)
			vkit.Nontrivial(string(sd.FullName()))
			if byService[string(sd.FullName())] == nil {
				t.Errorf("no router known for %s", sd.FullName())
			}
			for j := 0; j < sd.Methods().Len(); j++ {
				md := sd.Methods().Get(j)
				if md.IsStreamingClient() {
					t.Errorf("%s is client streaming, which these tests don't know", md.FullName())
				}
			}
		}
	}
	if len(allMethods) < 150 {
		t.Errorf("only %d methods found", len(allMethods))
	}
}

// setup is a router with its clients.
type setup struct {
	svc   *service
	r     theRouter
	conns map[string]*fakeConn // registered, or made on demand
	how   map[string]string    // added, factory, fallback

	dflt    string // what empty names stand for
	mu      sync.Mutex
	asked   map[string]int // factory and fallback calls
	changes []router.Change
}

func (s *setup) conn(name string) *fakeConn { return s.conns[name] }

func (s *setup) supplier(how string) func(string) (any, error) {
	return func(name string) (any, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.asked[how+" "+name]++
		if s.how[name] != how {
			if len(name)%2 == 0 {
				return nil, nil
			}
			return nil, errors.New("unknown to the " + how)
		}
		return s.svc.client(s.conns[name]), nil
	}
}

func newSetup(svc *service, how map[string]string) *setup {
	s := &setup{svc: svc, how: how, conns: map[string]*fakeConn{}, asked: map[string]int{}}
	for n := range how {
		s.conns[n] = &fakeConn{name: n}
	}
	s.r = svc.router(
		svc.factory(s.supplier("factory")),
		router.WithFallback(s.supplier("fallback")),
		router.WithOnChange(func(c router.Change) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.changes = append(s.changes, c)
		}),
	)
	for _, n := range names {
		if how[n] == "added" {
			s.r.Add(n, svc.client(s.conns[n]))
		}
	}
	return s
}

func genHow(t *rapid.T, label string) map[string]string {
	how := map[string]string{}
	for _, n := range names {
		if w := rapid.SampledFrom([]string{"added", "factory", "fallback", ""}).Draw(t, fmt.Sprintf("%s: %.10q", label, n)); w != "" {
			how[n] = w
		}
	}
	return how
}

// touched lists the clients that have received requests, forgetting them.
func (s *setup) touched(except string) (out []string) {
	for n, c := range s.conns {
		if n != except {
			for _, r := range c.take() {
				out = append(out, fmt.Sprintf("%q: %s", n, r.method))
			}
		}
	}
	return out
}

// oneRequest sends a request to the named device and checks everything about it.
func (s *setup) oneRequest(t *rapid.T, front grpc.ClientConnInterface, m *method, name string, wire bool) {
	req := genReq(t, m, name, "request")
	sent := proto.Clone(req)
	if name == "" && s.dflt != "" {
		name = s.dflt
		req.ProtoReflect().Set(m.req.Descriptor().Fields().ByName("name"), protoreflect.ValueOfString(name))
	}
	c := s.conn(name)
	if c == nil {
		var r result
		vkit.Within(t, m.full, func() { r = issue(bg, front, m, sent) })
		if got := s.touched(""); len(got) > 0 {
			t.Fatalf("%s for the unknown name %q reached %v", m, name, got)
		}
		if status.Code(r.err) != codes.NotFound {
			t.Fatalf("%s for the unknown name %q: got %s, want NotFound", m, name, errText(r.err))
		}
		if len(r.msgs) > 0 {
			t.Fatalf("%s for the unknown name %q: got %d messages", m, name, len(r.msgs))
		}
		vkit.Class("unknown name")
		vkit.Nontrivial(fmt.Sprint(m, name))
		return
	}
	sc := genScript(t, m, wire)
	c.setScript(sc)
	var r result
	vkit.Within(t, m.full, func() { r = issue(bg, front, m, sent) })
	if err := gotOnce(c.take(), m, req, sc); err != nil {
		t.Fatalf("%s to %q (%s)\n%s\nanswered with %v: %v", m, name, s.how[name], vkit.Text(req), sc, err)
	}
	if got := s.touched(name); len(got) > 0 {
		t.Fatalf("%s to %q also reached %v", m, name, got)
	}
	if err := sc.check(m, r); err != nil {
		t.Fatalf("%s to %q (%s)\n%s\nanswered with %v: %v", m, name, s.how[name], vkit.Text(req), sc, err)
	}
	vkit.Class("%s, %s", s.how[name], sc.class())
	vkit.Nontrivial(fmt.Sprint(m, name, vkit.Text(req), sc))
}

// checkSuppliers checks the factory made a client at most once, and that only those are remembered.
func (s *setup) checkSuppliers(t *rapid.T, used map[string]int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	autos := map[string]int{}
	for _, c := range s.changes {
		if c.Auto {
			autos[c.Name]++
		}
	}
	for _, n := range names {
		made := s.asked["factory "+n]
		switch {
		case s.how[n] == "factory" && used[n] > 0:
			if made != 1 || autos[n] != 1 || !s.r.Has(n) {
				t.Fatalf("%d requests to %q: factory called %d times, %d automatic changes reported, registered: %v", used[n], n, made, autos[n], s.r.Has(n))
			}
		case s.how[n] == "added":
			if made > 0 || s.asked["fallback "+n] > 0 || autos[n] > 0 || !s.r.Has(n) {
				t.Fatalf("%q is registered but was asked for: %v", n, s.asked)
			}
		default:
			if autos[n] > 0 || s.r.Has(n) {
				t.Fatalf("%q (%s) became registered", n, s.how[n])
			}
		}
	}
}

// TestRouteEvery goes through every method of every service.
func TestRouteEvery(t *testing.T) {
	vkit.Check(t, vkit.N(400, 6000), func(t *rapid.T) {
		how := genHow(t, "names")
		for _, svc := range services {
			s := newSetup(svc, how)
			front := wrap.ServerToClient(*svc.desc, s.r)
			used := map[string]int{}
			for _, m := range svc.methods {
				name := genName(t, m.full)
				used[name]++
				s.oneRequest(t, front, m, name, false)
			}
			s.checkSuppliers(t, used)
		}
	})
}

// TestRouteHistory interleaves requests with changes to the registry, through the typed functions too.
func TestRouteHistory(t *testing.T) {
	vkit.Check(t, vkit.N(25000, 400000), func(t *rapid.T) {
		svc := vkit.Pick(t, services, "service")
		s := newSetup(svc, map[string]string{"a": "factory", "A": "fallback"})
		front := wrap.ServerToClient(*svc.desc, s.r)
		rv := reflect.ValueOf(s.r)
		typed := func(verb string) reflect.Value {
			f := rv.MethodByName(verb + svc.simpleName() + "Client")
			if !f.IsValid() {
				t.Fatalf("%s has no %s%sClient", svc.label, verb, svc.simpleName())
			}
			return f
		}
		current := map[string]any{}     // the clients
		conns := map[string]*fakeConn{} // their connections
		ofClient := map[any]*fakeConn{} // connection by client
		all := []*fakeConn{s.conns["a"], s.conns["A"]}
		check := func(what string, got reflect.Value, want any) {
			var g any
			if got.IsValid() && !got.IsNil() {
				g = got.Interface()
			}
			if g != want {
				t.Fatalf("%s: got %v, want %v", what, g, want)
			}
		}
		n := rapid.IntRange(3, 12).Draw(t, "steps")
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom([]string{"a", "b", "A", "", "c"}).Draw(t, "name")
			helper := rapid.Bool().Draw(t, "typed")
			switch op := rapid.SampledFrom([]string{"add", "remove", "get", "request", "request", "request", "wrong"}).Draw(t, "op"); op {
			case "add":
				c := &fakeConn{name: fmt.Sprintf("%s#%d", name, i)}
				cl := svc.client(c)
				all = append(all, c)
				ofClient[cl] = c
				what := fmt.Sprintf("%d: Add(%q)", i, name)
				if helper {
					check(what, typed("Add").Call([]reflect.Value{reflect.ValueOf(name), reflect.ValueOf(cl)})[0], current[name])
				} else {
					check(what, reflect.ValueOf(s.r.Add(name, cl)), current[name])
				}
				current[name], conns[name] = cl, c
			case "remove":
				what := fmt.Sprintf("%d: Remove(%q)", i, name)
				if helper {
					check(what, typed("Remove").Call([]reflect.Value{reflect.ValueOf(name)})[0], current[name])
				} else {
					check(what, reflect.ValueOf(s.r.Remove(name)), current[name])
				}
				delete(current, name)
				delete(conns, name)
			case "wrong":
				if len(svc.methods) == 0 {
					continue // anything is such a client
				}
				for _, w := range []any{nil, 1, "x", s, s.r, svc.desc} {
					if s.r.HoldsType(w) {
						t.Fatalf("%s claims to hold clients of type %T", svc.label, w)
					}
					func() {
						defer func() {
							if recover() == nil {
								t.Fatalf("%s accepted a client of type %T", svc.label, w)
							}
						}()
						s.r.Add(name, w)
					}()
				}
				if !s.r.HoldsType(svc.client(&fakeConn{})) {
					t.Fatalf("%s denies to hold its clients", svc.label)
				}
			case "get":
				if s.r.Has(name) != (current[name] != nil) {
					t.Fatalf("%d: Has(%q) = %v", i, name, s.r.Has(name))
				}
				if current[name] == nil {
					if s.how[name] != "" {
						continue
					}
					if helper {
						out := typed("Get").Call([]reflect.Value{reflect.ValueOf(name)})
						err, _ := out[1].Interface().(error)
						if !out[0].IsNil() || status.Code(err) != codes.NotFound {
							t.Fatalf("%d: typed Get(%q) = %v %v, want NotFound", i, name, out[0], err)
						}
					} else if c, err := s.r.Get(name); c != nil || status.Code(err) != codes.NotFound {
						t.Fatalf("%d: Get(%q) = %v %v, want NotFound", i, name, c, err)
					}
					continue
				}
				what := fmt.Sprintf("%d: Get(%q)", i, name)
				if helper {
					out := typed("Get").Call([]reflect.Value{reflect.ValueOf(name)})
					check(what, out[0], current[name])
				} else {
					c, err := s.r.Get(name)
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
					check(what, reflect.ValueOf(c), current[name])
				}
			case "request":
				if len(svc.methods) == 0 {
					continue
				}
				m := vkit.Pick(t, svc.methods, "method")
				req := genReq(t, m, name, "request")
				c := conns[name]
				if c == nil {
					c = s.conns[name]
				}
				var sc *script
				if c != nil {
					sc = genScript(t, m, false)
					c.setScript(sc)
				}
				var r result
				vkit.Within(t, m.full, func() { r = issue(bg, front, m, proto.Clone(req)) })
				for _, o := range all {
					calls := o.take()
					if o == c {
						if err := gotOnce(calls, m, req, sc); err != nil {
							t.Fatalf("%d: %s to %q: %v", i, m, name, err)
						}
					} else if len(calls) > 0 {
						t.Fatalf("%d: %s to %q reached %q", i, m, name, o.name)
					}
				}
				if c == nil {
					if status.Code(r.err) != codes.NotFound || len(r.msgs) > 0 {
						t.Fatalf("%d: %s to %q, which isn't registered: %s", i, m, name, errText(r.err))
					}
				} else if err := sc.check(m, r); err != nil {
					t.Fatalf("%d: %s to %q: %v", i, m, name, err)
				}
				if conns[name] == nil && s.how[name] == "factory" {
					got, err := s.r.Get(name)
					if err != nil || !s.r.Has(name) {
						t.Fatalf("%d: %q made by the factory isn't registered: %v", i, name, err)
					}
					current[name], conns[name] = got, c
				}
				vkit.Nontrivial(fmt.Sprint(m, name, i, vkit.Text(req), sc))
			}
		}
		vkit.Class("%s", svc.label)
	})
}

// TestRouteStream: messages are passed on as they come, cancellation and failures of the caller reach the client.
func TestRouteStream(t *testing.T) {
	var streams []*method
	for _, m := range allMethods {
		if m.stream {
			streams = append(streams, m)
		}
	}
	ends := []string{"finish", "error", "cancel", "send error"}
	vkit.Check(t, vkit.N(60, 800), func(t *rapid.T) {
		for _, m := range streams {
			end := rapid.SampledFrom(ends).Draw(t, "end")
			// registry operations the stream has nothing to do with
			meddle := rapid.SampledFrom([]string{"", "remove", "replace"}).Draw(t, "meddle")
			n := rapid.IntRange(0, 3).Draw(t, "messages")
			s := newSetup(m.svc, map[string]string{"a": "added", "b": "added"})
			sc := &script{header: genMD(t, "header"), trailer: genMD(t, "trailer"), feed: make(chan proto.Message)}
			for i := 0; i < n; i++ {
				sc.msgs = append(sc.msgs, msgGen.New(t, m.res, "message"))
			}
			if end == "error" {
				sc.err = genStatus(t, "error")
			}
			c := s.conns["a"]
			c.setScript(sc)
			req := genReq(t, m, "a", "request")
			what := fmt.Sprintf("%s: %v, then %s (%s)", m, sc, end, meddle)
			leak := vkit.LeakBaseline()
			ctx, cancel := context.WithCancel(bg)
			got := make(chan proto.Message, 100)
			final := make(chan result, 1)
			header := make(chan metadata.MD, 1)
			sendErr := status.Error(codes.DataLoss, "caller gone")
			if end == "send error" {
				ss := &callerStream{ctx: ctx, req: req, header: header, got: got, failAt: n, err: sendErr}
				for _, sd := range m.svc.desc.Streams {
					if sd.StreamName == m.name {
						h := sd.Handler
						go func() {
							err := h(s.r, ss)
							final <- result{err: err, trailer: ss.trailer}
						}()
					}
				}
			} else {
				front := wrap.ServerToClient(*m.svc.desc, s.r)
				st, err := front.NewStream(ctx, &grpc.StreamDesc{StreamName: m.name, ServerStreams: true}, m.full)
				if err != nil {
					t.Fatalf("%s: NewStream: %v", what, err)
				}
				if err := st.SendMsg(req); err != nil {
					t.Fatalf("%s: SendMsg: %v", what, err)
				}
				_ = st.CloseSend()
				go func() {
					h, err := st.Header()
					if err == nil {
						header <- h
					}
					for {
						res := m.res.New().Interface()
						if err := st.RecvMsg(res); err != nil {
							if err == io.EOF {
								err = nil
							}
							final <- result{err: err, trailer: st.Trailer()}
							return
						}
						got <- res
					}
				}()
			}
			// the header doesn't wait for the first message
			vkit.Within(t, what+": waiting for the header", func() {
				if h := <-header; mdText(h) != mdText(sc.header) {
					t.Fatalf("%s: header %v", what, h)
				}
			})
			for i, msg := range sc.msgs {
				if i == n/2 {
					switch meddle {
					case "remove":
						s.r.Remove("a")
					case "replace":
						s.r.Add("a", m.svc.client(s.conns["b"]))
					}
				}
				vkit.Within(t, fmt.Sprintf("%s: message %d", what, i), func() {
					sc.feed <- msg
					if g := <-got; !vkit.Same(g, msg) {
						t.Fatalf("%s: message %d arrived as %s", what, i, vkit.Text(g))
					}
				})
			}
			calls := c.take()
			if err := gotOnce(calls, m, req, sc); err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			child := calls[0].ctx
			if child.Err() != nil {
				t.Fatalf("%s: the client's context ended early", what)
			}
			var r result
			switch end {
			case "finish", "error":
				close(sc.feed)
				vkit.Within(t, what+": waiting for the end", func() { r = <-final })
				if errText(r.err) != errText(sc.err) || mdText(r.trailer) != mdText(sc.trailer) {
					t.Fatalf("%s: ended with %s, trailer %v", what, errText(r.err), r.trailer)
				}
			case "cancel":
				cancel()
				vkit.Within(t, what+": waiting for the client's context to end", func() { <-child.Done() })
				vkit.Within(t, what+": waiting for the end", func() { r = <-final })
				if status.Code(status.FromContextError(context.Canceled).Err()) != status.Code(r.err) && !errors.Is(r.err, context.Canceled) {
					t.Fatalf("%s: ended with %s", what, errText(r.err))
				}
			case "send error":
				vkit.Within(t, what+": sending the undeliverable message", func() { sc.feed <- m.res.New().Interface() })
				vkit.Within(t, what+": waiting for the client's context to end", func() { <-child.Done() })
				vkit.Within(t, what+": waiting for the end", func() { r = <-final })
				if errText(r.err) != errText(sendErr) {
					t.Fatalf("%s: ended with %s", what, errText(r.err))
				}
			}
			if len(got) > 0 {
				t.Fatalf("%s: extra messages", what)
			}
			if calls := append(c.take(), s.conns["b"].take()...); len(calls) > 0 {
				t.Fatalf("%s: %d more requests were made", what, len(calls))
			}
			cancel()
			leak.Wait(t, what)
			vkit.Class("%s %s", end, meddle)
			vkit.Nontrivial(what)
		}
	})
}

// callerStream is a grpc.ServerStream whose caller stops receiving at some point.
type callerStream struct {
	ctx     context.Context
	req     proto.Message
	header  chan metadata.MD
	got     chan proto.Message
	failAt  int
	err     error
	sent    int
	trailer metadata.MD
	once    sync.Once
	md      metadata.MD
}

func (c *callerStream) SetHeader(md metadata.MD) error {
	c.md = metadata.Join(c.md, md)
	return nil
}
func (c *callerStream) SendHeader(md metadata.MD) error {
	c.once.Do(func() { c.header <- metadata.Join(c.md, md) })
	return nil
}
func (c *callerStream) SetTrailer(md metadata.MD) { c.trailer = metadata.Join(c.trailer, md) }
func (c *callerStream) Context() context.Context  { return c.ctx }
func (c *callerStream) SendMsg(m any) error {
	if c.sent == c.failAt {
		return c.err
	}
	c.sent++
	_ = c.SendHeader(nil)
	c.got <- proto.Clone(m.(proto.Message))
	return nil
}
func (c *callerStream) RecvMsg(m any) error {
	proto.Merge(m.(proto.Message), c.req)
	return nil
}

// wireChild is a real gRPC server that answers any request by a script.
type wireChild struct {
	*fakeConn // records, and has the script
	conn      *grpc.ClientConn
	stop      func()
}

func serve(srv *grpc.Server) (*grpc.ClientConn, func()) {
	lis := bufconn.Listen(1 << 20)
	go func() { _ = srv.Serve(lis) }()
	conn, err := grpc.NewClient("passthrough:///verif",
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return conn, func() { _ = conn.Close(); srv.Stop(); _ = lis.Close() }
}

var methodByFull = func() map[string]*method {
	out := map[string]*method{}
	for _, m := range allMethods {
		out[m.full] = m
	}
	return out
}()

func newWireChild(name string) *wireChild {
	w := &wireChild{fakeConn: &fakeConn{name: name}}
	srv := grpc.NewServer(grpc.UnknownServiceHandler(func(_ any, st grpc.ServerStream) error {
		full, _ := grpc.MethodFromServerStream(st)
		r, sc := w.start(st.Context(), full)
		m := methodByFull[full]
		if m == nil {
			return status.Error(codes.Internal, "no such method "+full)
		}
		req := m.req.New().Interface()
		for {
			msg := m.req.New().Interface()
			err := st.RecvMsg(msg)
			if err == io.EOF {
				break
			}
			if err != nil {
				return err
			}
			req = msg
			w.request(r, req)
		}
		if len(sc.header) > 0 {
			if err := st.SetHeader(sc.header); err != nil {
				return err
			}
		}
		if len(sc.msgs) > 0 || len(sc.header) > 0 {
			if err := st.SendHeader(nil); err != nil {
				return err
			}
		}
		st.SetTrailer(sc.trailer)
		for _, msg := range sc.msgs {
			if err := st.SendMsg(msg); err != nil {
				return err
			}
		}
		return sc.err
	}))
	w.conn, w.stop = serve(srv)
	return w
}

// TestRouteWire puts all routers into one gRPC server, in front of clients that are connections to gRPC servers.
func TestRouteWire(t *testing.T) {
	children := map[string]*wireChild{}
	for _, n := range []string{"a", "b"} {
		children[n] = newWireChild(n)
		defer children[n].stop()
	}
	srv := grpc.NewServer()
	named := grpc.NewServer(grpc.UnaryInterceptor(name.IfAbsentUnaryInterceptor("b")), grpc.StreamInterceptor(name.IfAbsentStreamInterceptor("b")))
	for _, svc := range services {
		r := svc.router(svc.factory(func(name string) (any, error) {
			if name != "b" {
				return nil, nil
			}
			return svc.client(children["b"].conn), nil
		}))
		r.Add("a", svc.client(children["a"].conn))
		r.Register(srv)
		r.Register(named)
	}
	front, stop := serve(srv)
	defer stop()
	namedFront, stop := serve(named)
	defer stop()
	s := &setup{conns: map[string]*fakeConn{}, how: map[string]string{"a": "wire", "b": "wire"}}
	for n, c := range children {
		s.conns[n] = c.fakeConn
	}
	vkit.Check(t, vkit.N(150, 2500), func(t *rapid.T) {
		for _, m := range allMethods {
			name := rapid.SampledFrom([]string{"a", "b", "a", "b", "ab", "", ""}).Draw(t, "name")
			f := front
			s.dflt = ""
			if rapid.Bool().Draw(t, "with default name") {
				f = namedFront
				s.dflt = "b"
			}
			s.oneRequest(t, f, m, name, true)
		}
	})
}

// TestWrap: each generated wrapper calls the server it was given, and gives it back.
func TestWrap(t *testing.T) {
	vkit.Check(t, vkit.N(60, 800), func(t *rapid.T) {
		for _, svc := range services {
			s := newSetup(svc, map[string]string{"a": "added"})
			w := svc.wrap(s.r)
			if w.Unwrap() != any(s.r) || reflect.ValueOf(w).MethodByName("UnwrapServer").Call(nil)[0].Interface() != any(s.r) {
				t.Fatalf("%s: the wrapper doesn't unwrap to its server", svc.label)
			}
			if wrap.UnwrapFully(w) != any(s.r) {
				t.Fatalf("%s: the wrapper doesn't fully unwrap to its server", svc.label)
			}
			conn, desc := w.UnwrapService()
			if desc.ServiceName != svc.desc.ServiceName || len(desc.Methods) != len(svc.desc.Methods) || len(desc.Streams) != len(svc.desc.Streams) || desc.HandlerType != svc.desc.HandlerType {
				t.Fatalf("%s: the wrapper's service is %s", svc.label, desc.ServiceName)
			}
			if !s.r.HoldsType(w) {
				t.Fatalf("%s: the wrapper isn't a client", svc.label)
			}
			for _, m := range svc.methods {
				s.oneRequest(t, conn, m, "a", false)
				// and through the typed client
				sc := genScript(t, m, false)
				s.conns["a"].setScript(sc)
				req := genReq(t, m, "a", "typed request")
				var r result
				vkit.Within(t, m.full, func() { r = typedIssue(t, w, m, proto.Clone(req)) })
				if err := gotOnce(s.conns["a"].take(), m, req, sc); err != nil {
					t.Fatalf("%s by wrapper: %v", m, err)
				}
				if err := sc.check(m, r); err != nil {
					t.Fatalf("%s by wrapper answered with %v: %v", m, sc, err)
				}
				vkit.Nontrivial(fmt.Sprint("wrapper", m, vkit.Text(req), sc))
			}
		}
	})
}

func typedIssue(t *rapid.T, client any, m *method, req proto.Message) (r result) {
	f := reflect.ValueOf(client).MethodByName(m.name)
	if !f.IsValid() {
		t.Fatalf("%T has no method %s", client, m.name)
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	out := f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
	if err, _ := out[1].Interface().(error); err != nil {
		r.err = err
		return r
	}
	if !m.stream {
		r.msgs = []proto.Message{out[0].Interface().(proto.Message)}
		return r
	}
	st := out[0].Interface().(grpc.ClientStream)
	r.header, _ = st.Header()
	recv := out[0].MethodByName("Recv")
	for {
		o := recv.Call(nil)
		if err, _ := o[1].Interface().(error); err != nil {
			if err != io.EOF {
				r.err = err
			}
			break
		}
		r.msgs = append(r.msgs, o[0].Interface().(proto.Message))
	}
	r.trailer = st.Trailer()
	return r
}
