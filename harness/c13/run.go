package c13

import (
	"context"
	"fmt"
	"io"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type received struct {
	msg proto.Message
	err error
}

// run performs the script. The error is a hang or panic.
func (tr *transport) run(sc script) (*exec, error) {
	base := context.Background()
	if sc.outgoing != nil {
		base = metadata.NewOutgoingContext(base, sc.outgoing)
	}
	if sc.incoming != nil {
		base = metadata.NewIncomingContext(base, sc.incoming)
	}
	e := &exec{sc: sc, srvCmd: make(chan func()), started: make(chan struct{}), spawned: make(chan struct{}), ctx: newTestCtx(base)}
	tr.host.cur.Store(e)
	defer tr.host.cur.Store(nil)
	if sc.precancel != 0 {
		e.ctx.end(sc.precancel == 2)
		return e, e.runEnded(tr)
	}
	if sc.shape == invoke {
		return e, e.runInvoke(tr)
	}
	return e, e.runStream(tr)
}

// send performs a message from one side to the other.
func (e *exec) transfer(st step, what string, like proto.Message, src proto.Message, sendOn, recvOn func(func()) func() error,
	send func(any) error, recv func(any) error, dstForeign int) error {
	want := proto.Clone(src)
	if st.nilMsg {
		want = like.ProtoReflect().New().Interface()
	}
	altered := make(chan struct{})
	sent1 := sendOn(func() {
		defer close(altered)
		err := send(src)
		e.add("%s: send %v", what, outcome(err))
		if st.mutate && !st.nilMsg {
			alter(src)
		}
	})
	var dirty proto.Message
	if st.dirty {
		dirty = st.msg
	}
	d := dst(like, dstForeign, dirty)
	var into proto.Message = d
	if st.mutate && dstForeign == 0 {
		into = &lateMsg{Message: d, wait: altered}
	}
	var rerr error
	got := recvOn(func() { rerr = recv(into) })
	if err := sent1(); err != nil {
		return fmt.Errorf("%s: send: %w", what, err)
	}
	if err := got(); err != nil {
		return fmt.Errorf("%s: receive: %w", what, err)
	}
	e.add("%s: received %v %s", what, outcome(rerr), msgText(d))
	if rerr == nil {
		e.sent = append(e.sent, sent{what + ": the received message", d, proto.Clone(d)})
	}
	if !st.mutate && !st.nilMsg {
		// alter what was received: the sender's message must not change
		if rerr == nil && st.dirty {
			e.sent = e.sent[:len(e.sent)-1]
			alter(d)
		}
		e.sent = append(e.sent, sent{what + ": the sent message", src, want})
	}
	return nil
}

func (e *exec) serverMD(st step) error {
	return e.server(func() {
		e.mdStep(st)
	})()
}

func (e *exec) mdStep(st step) {
	var err error
	useCtx := st.viaCtx || e.ss == nil
	// the server may go on to use its metadata
	md := st.md.Copy()
	switch st.kind {
	case kSetHeader:
		if useCtx {
			err = grpc.SetHeader(e.sctx, md)
		} else {
			err = e.ss.SetHeader(md)
		}
	case kSendHeader:
		if useCtx {
			err = grpc.SendHeader(e.sctx, md)
		} else {
			err = e.ss.SendHeader(md)
		}
	case kSetTrailer:
		if useCtx {
			err = grpc.SetTrailer(e.sctx, md)
		} else {
			e.ss.SetTrailer(md)
		}
	}
	e.add("server %v: %s", st, fails(err))
	for k, v := range md {
		for i := range v {
			v[i] = "altered"
		}
		md[k] = append(v, "altered")
	}
}

func (e *exec) doReturn(st step, resp any) error {
	if err := e.server(func() {
		e.retResp, e.retErr = resp, st.err
		e.ret = true
	})(); err != nil {
		return fmt.Errorf("%v: %w", st, err)
	}
	return nil
}

// runEnded makes a call whose context has already ended.
func (e *exec) runEnded(tr *transport) error {
	e.retErr = errLate
	close(e.srvCmd) // a handler that runs after all returns at once
	err := async(func() {
		like := e.sc.like
		if e.sc.shape == invoke {
			err := tr.conn.Invoke(e.ctx, e.sc.shape.method(), proto.Clone(like), dst(like, 0, nil))
			e.add("terminal %s", outcomeCode(err))
			return
		}
		cs, err := tr.conn.NewStream(e.ctx, e.sc.shape.desc(), e.sc.shape.method())
		if err == nil {
			err = cs.RecvMsg(dst(like, 0, nil))
		}
		e.add("terminal %s", outcomeCode(err))
	})()
	if err != nil {
		return fmt.Errorf("call with an ended context: %w", err)
	}
	return nil
}

func (e *exec) runInvoke(tr *transport) error {
	sc := e.sc
	var header, trailer metadata.MD
	var opts []grpc.CallOption
	if sc.wantHeader {
		opts = append(opts, grpc.Header(&header))
	}
	if sc.wantTrailer {
		opts = append(opts, grpc.Trailer(&trailer))
	}
	like := sc.like
	req := proto.Clone(like)
	for _, st := range sc.steps {
		if st.kind == kSend {
			req = asForeign(like, st.foreign)
		}
	}
	reqCopy := proto.Clone(req)
	last := sc.steps[len(sc.steps)-1]
	var dirty proto.Message
	if last.dirty {
		dirty = last.msg
	}
	reply := dst(like, last.foreign, dirty)
	var ierr error
	done := async(func() { ierr = tr.conn.Invoke(e.ctx, sc.shape.method(), req, reply, opts...) })
	cancelled := false
	for _, st := range sc.steps {
		switch st.kind {
		case kSend:
			var d proto.Message
			var err error
			if werr := e.server(func() {
				var dd proto.Message
				if st.dirty {
					dd = st.msg
				}
				d = dst(like, 0, dd)
				err = e.dec(d)
				md, _ := metadata.FromIncomingContext(e.sctx)
				e.add("server request %s %s metadata %s", outcome(err), msgText(d), mdText(md))
			})(); werr != nil {
				return fmt.Errorf("server receives the request: %w", werr)
			}
			if st.mutate {
				alter(d)
			}
			e.sent = append(e.sent, sent{"the request", req, reqCopy})
		case kSetHeader, kSendHeader, kSetTrailer:
			if err := e.serverMD(st); err != nil {
				return fmt.Errorf("%v: %w", st, err)
			}
		case kCancel:
			cancelled = true
			e.ctx.end(st.deadline)
			if err := done(); err != nil {
				return fmt.Errorf("Invoke after %v: %w", st, err)
			}
			e.add("terminal %s", outcomeCode(ierr))
			if err := e.server(func() { <-e.sctx.Done() })(); err != nil {
				return fmt.Errorf("server waits for its context after %v: %w", st, err)
			}
		case kReturn:
			var resp any
			var keep proto.Message
			if st.err == nil || st.mutate { // a response along with an error doesn't count
				keep = proto.Clone(st.msg)
				resp = keep
				if st.nilMsg {
					resp = like.ProtoReflect().Type().Zero().Interface()
				}
			}
			if err := e.doReturn(st, resp); err != nil {
				return err
			}
			if cancelled {
				break
			}
			if err := done(); err != nil {
				return fmt.Errorf("Invoke: %w", err)
			}
			e.add("terminal %s", outcome(ierr))
			e.add("reply %s", msgText(reply))
			if ierr == nil {
				if keep != nil && !st.nilMsg {
					alter(reply)
					e.sent = append(e.sent, sent{"the reply", keep, st.msg})
				}
			}
			e.add("header %s", mdText(header))
			e.add("trailer %s", mdText(trailer))
		}
	}
	return nil
}

func (e *exec) runStream(tr *transport) error {
	sc := e.sc
	cs, err := tr.conn.NewStream(e.ctx, sc.shape.desc(), sc.shape.method())
	if err != nil {
		e.add("NewStream %s", outcome(err))
		close(e.srvCmd)
		return nil
	}
	begin := func() error {
		if err := e.server(func() {
			md, _ := metadata.FromIncomingContext(e.sctx)
			e.add("server metadata %s", mdText(md))
		})(); err != nil {
			return fmt.Errorf("the handler doesn't start: %w", err)
		}
		return nil
	}
	if sc.shape != unaryStream { // there the handler starts once there is a request
		if err := begin(); err != nil {
			return err
		}
	}
	like := sc.like
	client := async

	var earlyHeader func() error
	if sc.earlyHeader {
		var h metadata.MD
		var herr error
		w := client(func() { h, herr = cs.Header() })
		earlyHeader = func() error {
			if err := w(); err != nil {
				return err
			}
			e.add("early header %s %s", fails(herr), mdText(h))
			return nil
		}
	}
	joinEarly := func() error {
		if earlyHeader != nil {
			if err := earlyHeader(); err != nil {
				return fmt.Errorf("Header: %w", err)
			}
			earlyHeader = nil
		}
		return nil
	}

	// a receive by the client that a later step completes
	var pending func() error
	var pendingGot received
	startRecv := func(st step) {
		var dirty proto.Message
		if st.dirty {
			dirty = like
		}
		d := dst(like, st.foreign, dirty)
		pendingGot = received{msg: d}
		pending = client(func() { pendingGot.err = cs.RecvMsg(d) })
	}
	oneReply := sc.shape == unaryStream || sc.shape == clientStream
	cancelled := false
	replied := false // the single reply was sent
	for _, st := range sc.steps {
		switch st.kind {
		case kSend:
			src := asForeign(st.msg, st.foreign)
			recv := func(m any) error {
				if e.ss != nil {
					return e.ss.RecvMsg(m)
				}
				return e.dec(m)
			}
			if err := e.transfer(st, "request", like, src, client, e.server, cs.SendMsg, recv, 0); err != nil {
				return err
			}
			if sc.shape == unaryStream {
				if err := begin(); err != nil {
					return err
				}
			}
		case kCloseSend:
			if err := client(func() { e.add("CloseSend %s", fails(cs.CloseSend())) })(); err != nil {
				return fmt.Errorf("CloseSend: %w", err)
			}
			if !st.unseen && e.ss != nil {
				if err := e.server(func() {
					m := dst(like, 0, nil)
					e.add("server sees close: %s", outcome(e.ss.RecvMsg(m)))
				})(); err != nil {
					return fmt.Errorf("server RecvMsg after CloseSend: %w", err)
				}
			}
		case kPending:
			startRecv(st)
		case kReply:
			var src proto.Message = proto.Clone(st.msg)
			if st.nilMsg {
				src = like.ProtoReflect().Type().Zero().Interface()
			}
			if oneReply {
				replied = true
				if sc.shape == unaryStream {
					break // sent on return
				}
				if pending == nil {
					startRecv(st)
				}
				if err := e.server(func() { e.add("reply: send %v", outcome(e.ss.SendMsg(src))) })(); err != nil {
					return fmt.Errorf("server SendMsg: %w", err)
				}
				if !st.nilMsg {
					if st.mutate {
						alter(src)
					} else {
						e.sent = append(e.sent, sent{"the reply", src, st.msg})
					}
				}
				if err := joinEarly(); err != nil {
					return err
				}
				break
			}
			if pending != nil {
				if err := e.server(func() { e.add("reply: send %v", outcome(e.ss.SendMsg(src))) })(); err != nil {
					return fmt.Errorf("server SendMsg: %w", err)
				}
				if st.mutate && !st.nilMsg {
					alter(src)
				}
				if err := pending(); err != nil {
					return fmt.Errorf("client RecvMsg: %w", err)
				}
				pending = nil
				e.add("reply: received %v %s", outcome(pendingGot.err), msgText(pendingGot.msg))
				break
			}
			if err := e.transfer(st, "reply", like, src, e.server, client, func(m any) error { return e.ss.SendMsg(m) }, cs.RecvMsg, st.foreign); err != nil {
				return err
			}
		case kSetHeader, kSendHeader, kSetTrailer:
			if err := e.serverMD(st); err != nil {
				return fmt.Errorf("%v: %w", st, err)
			}
			if st.kind == kSendHeader {
				if err := joinEarly(); err != nil {
					return err
				}
			}
		case kHeader:
			if err := joinEarly(); err != nil {
				return err
			}
			if err := client(func() { e.headerTwice(cs) })(); err != nil {
				return fmt.Errorf("Header: %w", err)
			}
		case kCancel:
			cancelled = true
			e.ctx.end(st.deadline)
			if pending == nil {
				if err := e.server(func() { <-e.sctx.Done() })(); err != nil {
					return fmt.Errorf("server waits for its context after %v: %w", st, err)
				}
				startRecv(step{})
			}
			if err := pending(); err != nil {
				return fmt.Errorf("client RecvMsg after %v: %w", st, err)
			}
			pending = nil
			e.add("terminal %s", outcomeCode(pendingGot.err))
			if err := e.server(func() { <-e.sctx.Done() })(); err != nil {
				return fmt.Errorf("server waits for its context after %v: %w", st, err)
			}
			if e.ss != nil {
				if err := e.server(func() {
					// no more messages reach the other side, and the server can tell this from the client closing its side
					if e.ss.SendMsg(proto.Clone(like)) == nil {
						e.wrong("server SendMsg after %v succeeded", st)
					}
					if err := e.ss.RecvMsg(dst(like, 0, nil)); !sc.closedBefore(st.kind) && (err == nil || err == io.EOF) {
						e.wrong("server RecvMsg after %v: %v, as if the client had closed its side", st, err)
					}
				})(); err != nil {
					return fmt.Errorf("server uses the stream after %v: %w", st, err)
				}
			}
			if err := joinEarly(); err != nil {
				return err
			}
		case kReturn:
			var resp any
			if sc.shape == unaryStream {
				resp = proto.Clone(st.msg)
				if st.nilMsg {
					resp = like.ProtoReflect().Type().Zero().Interface()
				}
				if st.err != nil && !st.mutate {
					resp = nil
				}
				if pending == nil && !cancelled {
					startRecv(st) // the reply needs a ready receiver
				}
			}
			if err := e.doReturn(st, resp); err != nil {
				return err
			}
			if cancelled {
				// the outcome the client has seen doesn't change
				if sc.extra && !oneReply {
					if err := client(func() { e.add("again %s", outcomeCode(cs.RecvMsg(dst(like, 0, nil)))) })(); err != nil {
						return fmt.Errorf("RecvMsg: %w", err)
					}
				}
				if err := client(func() {
					time.Sleep(300 * time.Microsecond) // the handler has ended
					e.add("trailer %s", mdText(cs.Trailer()))
				})(); err != nil {
					return fmt.Errorf("Trailer: %w", err)
				}
				break
			}
			if pending == nil {
				startRecv(step{})
			}
			if err := pending(); err != nil {
				return fmt.Errorf("client RecvMsg: %w", err)
			}
			e.add("terminal %s", outcome(pendingGot.err))
			e.add("message %s", msgText(pendingGot.msg))
			if err := joinEarly(); err != nil {
				return err
			}
			if err := client(func() {
				e.headerTwice(cs)
				tr1 := cs.Trailer()
				e.add("trailer %s", mdText(tr1))
				for k := range tr1 {
					tr1[k] = []string{"altered"}
				}
				e.add("trailer again %s", mdText(cs.Trailer()))
			})(); err != nil {
				return fmt.Errorf("metadata: %w", err)
			}
			_ = replied
			if sc.extra {
				if err := client(func() {
					if !oneReply {
						e.add("again %s", outcome(cs.RecvMsg(dst(like, 0, nil))))
					}
					if sc.shape == bidi || sc.shape == clientStream {
						e.add("send after the end %s", outcomeCode(cs.SendMsg(proto.Clone(like))))
					}
					e.add("close after the end %s", fails(cs.CloseSend()))
					e.add("close after the end %s", fails(cs.CloseSend()))
				})(); err != nil {
					return fmt.Errorf("using the stream after its end: %w", err)
				}
			}
		}
	}
	return nil
}

// headerTwice looks at the header, alters what it got and looks again.
func (e *exec) headerTwice(cs grpc.ClientStream) {
	h, err := cs.Header()
	e.add("header %s %s", fails(err), mdText(h))
	for k := range h {
		h[k] = []string{"altered"}
	}
	h, err = cs.Header()
	e.add("header again %s %s", fails(err), mdText(h))
}

// closedBefore reports whether the client half-closed before the first step of the kind.
func (s script) closedBefore(k kind) bool {
	for _, st := range s.steps {
		if st.kind == k {
			return false
		}
		if st.kind == kCloseSend {
			return true
		}
	}
	return false
}

var errLate = status.Error(codes.Aborted, "too late")
