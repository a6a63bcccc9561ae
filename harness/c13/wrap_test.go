package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

func TestMain(m *testing.M) { vkit.Main(m) }

var types = []protoreflect.MessageType{
	(&testproto.TestAllTypes{}).ProtoReflect().Type(),
	(&testproto.ForeignMessage{}).ProtoReflect().Type(),
	(&testproto.UnaryRequest{}).ProtoReflect().Type(),
	(&testproto.WellKnown{}).ProtoReflect().Type(),
}

func genMD(t *rapid.T, label string) metadata.MD {
	md := metadata.MD{}
	n := rapid.SampledFrom([]int{1, 1, 2, 0, 3}).Draw(t, label+" keys")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"a", "b", "c-d", "e.f_0", "x-bin"}).Draw(t, label+" key")
		vals := []string{"", "v", "two words", " padded ", "a,b", "~!@#%25", "long" + strings.Repeat("x", 100)}
		if strings.HasSuffix(k, "-bin") {
			vals = []string{"", "\x00\xff", "v", "a,b"}
		}
		for j := rapid.IntRange(1, 2).Draw(t, label+" values"); j > 0; j-- {
			md.Append(k, rapid.SampledFrom(vals).Draw(t, label+" value"))
		}
	}
	return md
}

func genErr(t *rapid.T) error {
	switch rapid.IntRange(0, 11).Draw(t, "error kind") {
	case 0, 1, 2, 3:
		return nil
	case 4, 5, 6, 7:
		c := codes.Code(rapid.IntRange(1, 16).Draw(t, "code"))
		st := status.New(c, rapid.SampledFrom([]string{"", "msg", "50% \n ünï", "EOF"}).Draw(t, "message"))
		if rapid.Bool().Draw(t, "details") {
			st, _ = st.WithDetails(durationpb.New(time.Second))
		}
		return st.Err()
	case 8:
		return errors.New("plain")
	case 9:
		return io.EOF
	case 10:
		return rapid.SampledFrom([]error{context.Canceled, context.DeadlineExceeded}).Draw(t, "ctx error")
	default:
		return fmt.Errorf("wrapped: %w", rapid.SampledFrom([]error{context.Canceled, io.EOF, status.Error(codes.NotFound, "x")}).Draw(t, "inner"))
	}
}

func genScript(t *rapid.T) script {
	sc := script{shape: shape(rapid.IntRange(0, int(nShapes)-1).Draw(t, "shape"))}
	mt := vkit.Pick(t, types, "type")
	g := vkit.MsgGen{MaxFields: 5, MaxDepth: 3, MaxLen: 3, Unknown: true}
	n := 0
	msg := func() proto.Message { n++; return g.New(t, mt, fmt.Sprintf("msg%d", n)) }
	chance := func(p int, what string) bool { return rapid.IntRange(0, p-1).Draw(t, what) == 0 }
	sc.like = msg()
	if chance(3, "outgoing") {
		sc.outgoing = genMD(t, "outgoing")
	}
	if chance(4, "incoming") {
		sc.incoming = genMD(t, "incoming")
	}
	if chance(15, "precancel") {
		sc.precancel = rapid.IntRange(1, 2).Draw(t, "precancelled")
		return sc
	}
	sc.extra = rapid.Bool().Draw(t, "extra")
	sc.spawn = chance(4, "spawn")
	sc.earlyHeader = sc.shape != invoke && chance(3, "early header")
	sc.wantHeader = !chance(4, "no header option")
	sc.wantTrailer = !chance(4, "no trailer option")
	recvOpts := func(st step) step {
		st.dirty = chance(4, "dirty")
		if chance(5, "foreign?") {
			st.foreign = rapid.IntRange(1, 2).Draw(t, "foreign")
		}
		st.mutate = chance(3, "mutate")
		return st
	}
	add := func(st step) { sc.steps = append(sc.steps, st) }
	multi := sc.shape == clientStream || sc.shape == bidi
	many := sc.shape == serverStream || sc.shape == bidi
	closed, replied, pending, cancelled, headerSent := false, false, false, false, false
	sends, replies := 0, 0
	if !multi {
		// some server metadata may come before the request is read
		for sc.shape != unaryStream && chance(5, "md first") {
			add(step{kind: kSetHeader, md: genMD(t, "md"), viaCtx: rapid.Bool().Draw(t, "via ctx")})
		}
		add(recvOpts(step{kind: kSend, msg: sc.like}))
		if sc.shape != invoke {
			add(step{kind: kCloseSend, unseen: sc.shape == unaryStream || rapid.Bool().Draw(t, "unseen")})
		}
		closed = true
	}
	for i := rapid.SampledFrom([]int{6, 4, 8, 10, 2, 0, 12}).Draw(t, "steps"); i > 0 && !cancelled; i-- {
		switch k := kind(rapid.IntRange(0, 8).Draw(t, "kind")); k {
		case kSend:
			if closed || sends == 5 {
				break
			}
			sends++
			st := recvOpts(step{kind: kSend, msg: msg()})
			if st.foreign == 2 && st.mutate {
				st.mutate = false
			}
			add(st)
		case kCloseSend:
			if closed {
				break
			}
			closed = true
			add(step{kind: kCloseSend, unseen: chance(4, "unseen")})
		case kReply:
			if sc.shape == invoke || sc.shape == unaryStream || replied || replies == 5 {
				break
			}
			st := recvOpts(step{kind: kReply, msg: msg(), nilMsg: chance(12, "nil")})
			if pending {
				st.dirty, st.foreign = false, 0
			}
			add(st)
			replies++
			headerSent = true
			replied = !many
			pending = pending && !many
		case kSetHeader, kSendHeader, kSetTrailer:
			if k == kSendHeader {
				headerSent = true
			}
			add(step{kind: k, md: genMD(t, "md"), viaCtx: rapid.Bool().Draw(t, "via ctx")})
		case kHeader:
			if sc.shape != invoke && headerSent {
				add(step{kind: kHeader})
			}
		case kPending:
			if sc.shape != invoke && !pending && !replied {
				pending = true
				add(recvOpts(step{kind: kPending, msg: sc.like}))
			}
		case kCancel:
			if chance(2, "cancel") {
				cancelled = true
				add(step{kind: kCancel, deadline: rapid.Bool().Draw(t, "deadline")})
			}
		}
	}
	st := recvOpts(step{kind: kReturn, msg: msg(), err: genErr(t), nilMsg: chance(12, "nil")})
	add(st)
	return sc
}

func (s script) classes() {
	vkit.Class("shape %v", s.shape)
	for _, st := range s.steps {
		switch st.kind {
		case kCancel:
			vkit.Class("cancel in %v", s.shape)
		case kReturn:
			if st.err != nil {
				vkit.Class("error in %v", s.shape)
			} else {
				vkit.Class("success in %v", s.shape)
			}
		}
	}
}

func judge(t *rapid.T, sc script, ref *exec, refErr error, got *exec, gotErr error) {
	if refErr != nil {
		t.Fatalf("%v\nthe script does not work over gRPC: %v\n%s", sc, refErr, strings.Join(ref.entries, "\n"))
	}
	if gotErr != nil {
		t.Fatalf("%v\nover the wrapper: %v\nso far:\n%s\nover gRPC:\n%s", sc, gotErr, strings.Join(got.entries, "\n"), strings.Join(ref.entries, "\n"))
	}
	for i := 0; i < len(ref.entries) || i < len(got.entries); i++ {
		a, b := "nothing", "nothing"
		if i < len(ref.entries) {
			a = ref.entries[i]
		}
		if i < len(got.entries) {
			b = got.entries[i]
		}
		if a != b {
			t.Fatalf("%v\nover gRPC:    %s\nover wrapper: %s\nbefore that:\n%s", sc, a, b, strings.Join(ref.entries[:i], "\n"))
		}
	}
	for _, s := range got.bad {
		t.Fatalf("%v\nover the wrapper: %s", sc, s)
	}
	for _, s := range got.sent {
		if msgText(s.msg) != msgText(s.want) {
			t.Fatalf("%v\nover the wrapper: %s was altered: now %s\nwas %s", sc, s.what, vkit.Text(s.msg), vkit.Text(s.want))
		}
	}
}

// TestScripts compares the two transports.
func TestScripts(t *testing.T) {
	g, w := newGRPC(), newWrap()
	defer g.stop()
	vkit.Check(t, vkit.N(6000, 120000), func(t *rapid.T) {
		sc := genScript(t)
		sc.classes()
		if len(sc.steps) > 3 {
			vkit.Nontrivial(sc.String())
		}
		ref, refErr := g.run(sc)
		leak := vkit.LeakBaseline()
		got, gotErr := w.run(sc)
		judge(t, sc, ref, refErr, got, gotErr)
		leak.Wait(t, sc.String(), "google.golang.org/grpc/internal", "grpc.(*Server)", "grpc.newClientStream")
	})
}

// TestRealDeadline makes calls that a real deadline ends.
func TestRealDeadline(t *testing.T) {
	g, w := newGRPC(), newWrap()
	defer g.stop()
	vkit.Check(t, vkit.N(60, 600), func(t *rapid.T) {
		s := shape(rapid.IntRange(0, int(nShapes)-1).Draw(t, "shape"))
		timeout := time.Duration(rapid.IntRange(-1, 5).Draw(t, "ms")) * time.Millisecond
		vkit.Nontrivial(fmt.Sprint(s, timeout))
		for _, tr := range []*transport{g, w} {
			leak := vkit.LeakBaseline()
			ctx, stop := context.WithTimeout(context.Background(), timeout)
			// the server does nothing until the call is over
			e := &exec{srvCmd: make(chan func()), started: make(chan struct{}), retErr: errLate}
			tr.host.cur.Store(e)
			var err error
			if werr := async(func() {
				if s == invoke {
					err = tr.conn.Invoke(ctx, s.method(), &testproto.UnaryRequest{Msg: "x"}, &testproto.UnaryRequest{})
					return
				}
				var cs grpc.ClientStream
				if cs, err = tr.conn.NewStream(ctx, s.desc(), s.method()); err == nil {
					err = cs.RecvMsg(&testproto.UnaryRequest{})
				}
			})(); werr != nil {
				t.Fatalf("%s %v with a deadline in %v: %v", tr.name, s, timeout, werr)
			}
			if outcomeCode(err) != "DeadlineExceeded" {
				// a unary request may not have met its receiver, that doesn't matter here
				t.Fatalf("%s %v with a deadline in %v: %v, want DeadlineExceeded", tr.name, s, timeout, err)
			}
			stop()
			close(e.srvCmd)
			tr.host.cur.Store(nil)
			if tr == w {
				leak.Wait(t, fmt.Sprintf("%v with a deadline", s), "google.golang.org/grpc/internal", "grpc.(*Server)", "grpc.newClientStream")
			}
		}
	})
}

// TestShapes calls methods that don't exist or have another shape.
func TestShapes(t *testing.T) {
	w := newWrap()
	methods := map[string]*shape{
		"/" + service + "/Missing": nil, "/other.Service/Unary": nil, service + "/Unary": nil, "Unary": nil, "": nil, "/" + service: nil, "/" + service + "/": nil,
		"/" + service + "/unary": nil, "/" + service + "/Unary/": nil, "//" + service + "/Unary": nil, "/verif.script/Unary": nil, "/Unary": nil,
	}
	for _, s := range []shape{invoke, serverStream, clientStream, bidi} {
		s := s
		methods[s.method()] = &s
	}
	for method, s := range methods {
		for c := 0; c < 5; c++ {
			vkit.Eval()
			vkit.Nontrivial(fmt.Sprint(method, c))
			leak := vkit.LeakBaseline()
			e := &exec{srvCmd: make(chan func()), started: make(chan struct{}), retErr: errLate}
			close(e.srvCmd)
			e.retResp, e.retErr = &testproto.UnaryResponse{}, nil
			w.host.cur.Store(e)
			ctx, stop := context.WithCancel(context.Background())
			var err error
			var what string
			match := s != nil
			if c == 4 {
				what = "Invoke"
				match = match && *s == invoke
				if !match {
					err = w.conn.Invoke(ctx, method, &testproto.UnaryRequest{}, &testproto.UnaryResponse{})
				}
			} else {
				d := &grpc.StreamDesc{StreamName: "x", ServerStreams: c&1 != 0, ClientStreams: c&2 != 0}
				what = fmt.Sprintf("NewStream(server=%v, client=%v)", d.ServerStreams, d.ClientStreams)
				match = match && s.desc().ServerStreams == d.ServerStreams && s.desc().ClientStreams == d.ClientStreams
				var cs grpc.ClientStream
				cs, err = w.conn.NewStream(ctx, d, method)
				if err == nil && !match {
					err = cs.RecvMsg(&testproto.UnaryResponse{})
				}
			}
			stop()
			var want codes.Code
			switch {
			case match:
				want = codes.OK
			case s == nil:
				want = codes.Unimplemented
			default:
				want = codes.Internal
			}
			if status.Code(err) != want {
				t.Errorf("VERIF %s of %q: %v, want %v", what, method, err, want)
			}
			w.host.cur.Store(nil)
			leak.Wait(t, what)
		}
	}
}

// freeServer answers calls whose sides run freely.
type freeServer struct {
	down     []proto.Message // what the server sends
	up       []proto.Message // what it received
	upErr    error
	parallel bool
	stopAt   int // stop receiving after this many, -1 for the end
	err      error
	done     chan struct{}
}

func (f *freeServer) unary(ctx context.Context, dec func(any) error) (any, error) {
	return nil, status.Error(codes.Unimplemented, "")
}

func (f *freeServer) stream(ss grpc.ServerStream) error {
	defer close(f.done)
	recv := func() {
		for f.stopAt < 0 || len(f.up) < f.stopAt {
			m := &testproto.ForeignMessage{}
			if f.upErr = ss.RecvMsg(m); f.upErr != nil {
				return
			}
			f.up = append(f.up, m)
		}
	}
	send := func() error {
		for _, m := range f.down {
			if err := ss.SendMsg(m); err != nil {
				return err
			}
			m.(*testproto.ForeignMessage).C = -1 // the message is the server's own
		}
		return nil
	}
	if f.parallel {
		received := make(chan struct{})
		go func() { recv(); close(received) }()
		err := send()
		<-received
		if err != nil {
			return err
		}
		return f.err
	}
	recv()
	if err := send(); err != nil {
		return err
	}
	return f.err
}

// TestFree runs streams whose sides send and receive freely, cancelled at any instant.
func TestFree(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 30000), func(t *rapid.T) {
		up := rapid.IntRange(0, 20).Draw(t, "up")
		down := rapid.IntRange(0, 20).Draw(t, "down")
		f := &freeServer{parallel: rapid.Bool().Draw(t, "parallel"), stopAt: -1, done: make(chan struct{})}
		if rapid.IntRange(0, 2).Draw(t, "fail") == 0 {
			f.err = status.Error(codes.DataLoss, "lost")
		}
		cancelAfter := -1
		if rapid.IntRange(0, 1).Draw(t, "cancel") == 0 {
			cancelAfter = rapid.IntRange(0, down).Draw(t, "cancel after")
		}
		spin := time.Duration(rapid.IntRange(0, 50).Draw(t, "spin")) * time.Microsecond
		for i := 0; i < down; i++ {
			f.down = append(f.down, &testproto.ForeignMessage{C: int32(i + 1)})
		}
		desc := fmt.Sprintf("bidi up=%d down=%d parallel=%v err=%v cancelAfter=%d", up, down, f.parallel, f.err, cancelAfter)
		vkit.Nontrivial(desc)
		leak := vkit.LeakBaseline()
		conn := wrap.ServerToClient(srvDesc, f)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		cs, err := conn.NewStream(ctx, bidi.desc(), bidi.method())
		if err != nil {
			t.Fatalf("%s: NewStream %v", desc, err)
		}
		if cancelAfter >= 0 {
			vkit.Class("cancelled")
		}
		var sendErr, end error
		var got []int32
		client := async(func() {
			sent := make(chan struct{})
			go func() {
				defer close(sent)
				for i := 0; i < up; i++ {
					m := &testproto.ForeignMessage{C: int32(i + 1), D: int32(i)}
					if sendErr = cs.SendMsg(m); sendErr != nil {
						return
					}
					m.C = -1
				}
				sendErr = cs.CloseSend()
			}()
			m := &testproto.ForeignMessage{}
			for {
				if len(got) == cancelAfter {
					for end := time.Now().Add(spin); time.Now().Before(end); {
					}
					cancel()
				}
				if end = cs.RecvMsg(m); end != nil {
					break
				}
				got = append(got, m.C)
			}
			<-sent
		})
		if err := client(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		vkit.Within(t, desc+": the handler ends", func() { <-f.done })
		for i, c := range got {
			if c != int32(i+1) {
				t.Fatalf("%s: the client received %v", desc, got)
			}
		}
		for i, m := range f.up {
			if m := m.(*testproto.ForeignMessage); m.C != int32(i+1) || m.D != int32(i) {
				t.Fatalf("%s: the server's message %d is %v", desc, i, vkit.Text(m))
			}
		}
		cancelled := outcomeCode(end) == "Canceled"
		if cancelled && cancelAfter >= 0 {
			if f.upErr == io.EOF && len(f.up) != up {
				t.Fatalf("%s: the server saw the client close its side after %d messages", desc, len(f.up))
			}
		} else {
			want := io.EOF
			if f.err != nil {
				want = f.err
			}
			if outcome(end) != outcome(want) {
				t.Fatalf("%s: the call ended with %v, want %v", desc, end, want)
			}
			if len(got) != down || len(f.up) != up || f.upErr != io.EOF || sendErr != nil {
				t.Fatalf("%s: the client received %d and the server %d (%v), sending: %v", desc, len(got), len(f.up), f.upErr, sendErr)
			}
		}
		cancel()
		leak.Wait(t, desc)
	})
}

// srvDesc is desc for the free server.
var srvDesc = desc

type onlyUnwrap struct{ v any }

func (o onlyUnwrap) Unwrap() any { return o.v }

// TestUnwrap checks UnwrapFully.
func TestUnwrap(t *testing.T) {
	vkit.Check(t, vkit.N(50, 500), func(t *rapid.T) {
		type leaf struct{ x int }
		var v any = &leaf{}
		want := v
		n := rapid.IntRange(0, 6).Draw(t, "depth")
		for i := 0; i < n; i++ {
			v = onlyUnwrap{v}
		}
		vkit.Nontrivial(fmt.Sprint(n))
		if got := wrap.UnwrapFully(v); got != want {
			t.Fatalf("UnwrapFully at depth %d: %v", n, got)
		}
	})
}
