package c17

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
)

// fake is a client of both traits whose calls are answered by functions.
type fake struct {
	mu    sync.Mutex
	calls []proto.Message
	unary func(ctx context.Context, name string) (int, error) // the brightness, or on/off state
	pull  func(ctx context.Context, name string, send func(v int)) error
}

func (f *fake) call(req proto.Message) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls = append(f.calls, proto.Clone(req))
}

type onOffClient struct {
	traits.OnOffApiClient
	*fake
}

func onOff(v int, err error) (*traits.OnOff, error) {
	if err != nil {
		return nil, err
	}
	return &traits.OnOff{State: traits.OnOff_State(v)}, nil
}

func (c onOffClient) GetOnOff(ctx context.Context, in *traits.GetOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	c.call(in)
	return onOff(c.unary(ctx, in.Name))
}

func (c onOffClient) UpdateOnOff(ctx context.Context, in *traits.UpdateOnOffRequest, _ ...grpc.CallOption) (*traits.OnOff, error) {
	c.call(in)
	return onOff(c.unary(ctx, in.Name))
}

func (c onOffClient) PullOnOff(ctx context.Context, in *traits.PullOnOffRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullOnOffResponse], error) {
	c.call(in)
	return pullFake(ctx, c.fake, in.Name, func(v int) *traits.PullOnOffResponse {
		return &traits.PullOnOffResponse{Changes: []*traits.PullOnOffResponse_Change{{Name: in.Name, OnOff: &traits.OnOff{State: traits.OnOff_State(v)}}}}
	}), nil
}

type lightClient struct {
	traits.LightApiClient
	*fake
}

func light(v int, err error) (*traits.Brightness, error) {
	if err != nil {
		return nil, err
	}
	return &traits.Brightness{LevelPercent: float32(v)}, nil
}

func (c lightClient) GetBrightness(ctx context.Context, in *traits.GetBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	c.call(in)
	return light(c.unary(ctx, in.Name))
}

func (c lightClient) UpdateBrightness(ctx context.Context, in *traits.UpdateBrightnessRequest, _ ...grpc.CallOption) (*traits.Brightness, error) {
	c.call(in)
	return light(c.unary(ctx, in.Name))
}

func (c lightClient) PullBrightness(ctx context.Context, in *traits.PullBrightnessRequest, _ ...grpc.CallOption) (grpc.ServerStreamingClient[traits.PullBrightnessResponse], error) {
	c.call(in)
	return pullFake(ctx, c.fake, in.Name, func(v int) *traits.PullBrightnessResponse {
		return &traits.PullBrightnessResponse{Changes: []*traits.PullBrightnessResponse_Change{{Name: in.Name, Brightness: &traits.Brightness{LevelPercent: float32(v)}}}}
	}), nil
}

// clientStream is a server stream seen by a client.
type clientStream[M any] struct {
	grpc.ClientStream
	ctx context.Context
	ch  chan *M
	err error // once ch is closed
}

func (s *clientStream[M]) Recv() (*M, error) {
	m, ok := <-s.ch
	if !ok {
		return nil, s.err
	}
	return m, nil
}

func (s *clientStream[M]) Context() context.Context { return s.ctx }

func pullFake[M any](ctx context.Context, f *fake, name string, mk func(v int) *M) *clientStream[M] {
	s := &clientStream[M]{ctx: ctx, ch: make(chan *M)}
	go func() {
		defer close(s.ch)
		s.err = f.pull(ctx, name, func(v int) {
			select {
			case s.ch <- mk(v):
			case <-ctx.Done():
			}
		})
	}()
	return s
}

// serverStream is a server stream seen by the server.
type serverStream[M any] struct {
	grpc.ServerStream
	ctx  context.Context
	send func(*M) error
}

func (s *serverStream[M]) Context() context.Context { return s.ctx }
func (s *serverStream[M]) Send(m *M) error          { return s.send(m) }

// subject is a group of one of the traits.
type subject struct {
	name   string
	get    func(ctx context.Context) (int, error)
	update func(ctx context.Context) (int, error)
	pull   func(ctx context.Context, send func(name string) error) error
	reqs   map[string]proto.Message // the request of the last call, by kind of call
}

func subjects(f *fake, read, write group.ExecutionStrategy, names []string) []subject {
	mask := &fieldmaskpb.FieldMask{Paths: []string{"state"}}
	og := onoffpb.NewGroup(onOffClient{fake: f}, names...)
	og.ReadExecution, og.WriteExecution = read, write
	getOnOff := &traits.GetOnOffRequest{Name: "group", ReadMask: mask}
	updateOnOff := &traits.UpdateOnOffRequest{Name: "group", OnOff: &traits.OnOff{State: traits.OnOff_ON}}
	pullOnOff := &traits.PullOnOffRequest{Name: "group", UpdatesOnly: true}
	lg := lightpb.NewGroup(lightClient{fake: f}, names...)
	lg.ReadExecution, lg.WriteExecution = read, write
	lmask := &fieldmaskpb.FieldMask{Paths: []string{"level_percent"}}
	getLight := &traits.GetBrightnessRequest{Name: "group", ReadMask: lmask}
	updateLight := &traits.UpdateBrightnessRequest{Name: "group", Brightness: &traits.Brightness{LevelPercent: 3}, Delta: true}
	pullLight := &traits.PullBrightnessRequest{Name: "group", UpdatesOnly: true}
	return []subject{
		{name: "onoff",
			get: func(ctx context.Context) (int, error) {
				r, err := og.GetOnOff(ctx, getOnOff)
				return int(r.GetState()), err
			},
			update: func(ctx context.Context) (int, error) {
				r, err := og.UpdateOnOff(ctx, updateOnOff)
				return int(r.GetState()), err
			},
			pull: func(ctx context.Context, send func(string) error) error {
				return og.PullOnOff(pullOnOff, &serverStream[traits.PullOnOffResponse]{ctx: ctx, send: func(m *traits.PullOnOffResponse) error {
					return send(m.Changes[0].Name)
				}})
			},
			reqs: map[string]proto.Message{"get": getOnOff, "update": updateOnOff, "pull": pullOnOff},
		},
		{name: "light",
			get: func(ctx context.Context) (int, error) {
				r, err := lg.GetBrightness(ctx, getLight)
				return int(r.GetLevelPercent()), err
			},
			update: func(ctx context.Context) (int, error) {
				r, err := lg.UpdateBrightness(ctx, updateLight)
				return int(r.GetLevelPercent()), err
			},
			pull: func(ctx context.Context, send func(string) error) error {
				return lg.PullBrightness(pullLight, &serverStream[traits.PullBrightnessResponse]{ctx: ctx, send: func(m *traits.PullBrightnessResponse) error {
					return send(m.Changes[0].Name)
				}})
			},
			reqs: map[string]proto.Message{"get": getLight, "update": updateLight, "pull": pullLight},
		},
	}
}

func memberNames(n int) []string {
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprint("m", i)
	}
	return names
}

// checkCalls checks that members got the group's request under their own name, each at most once.
func checkCalls(t vkit.Fataler, what string, calls []proto.Message, req, before proto.Message, want int) {
	if !proto.Equal(req, before) {
		t.Fatalf("%s: the request was altered: %s", what, vkit.Text(req))
	}
	seen := map[string]bool{}
	for _, c := range calls {
		fd := c.ProtoReflect().Descriptor().Fields().ByName("name")
		name := c.ProtoReflect().Get(fd).String()
		if seen[name] || name == "group" {
			t.Fatalf("%s: another call of %s", what, name)
		}
		seen[name] = true
		c.ProtoReflect().Set(fd, before.ProtoReflect().Get(fd))
		if !proto.Equal(c, before) {
			t.Fatalf("%s: member %s was asked %s, want %s", what, name, vkit.Text(c), vkit.Text(before))
		}
	}
	if len(calls) != want {
		t.Fatalf("%s: %d members were asked, want %d", what, len(calls), want)
	}
}

// TestTraitUnary checks Get and Update of the groups.
func TestTraitUnary(t *testing.T) {
	vkit.Check(t, vkit.N(2000, 40000), func(t *rapid.T) {
		n := rapid.IntRange(0, 6).Draw(t, "members")
		s := strategy(rapid.IntRange(0, int(unspecified)).Draw(t, "strategy"))
		outs := make([]error, n)
		fails := 0
		vals := make([]int, n)
		for i := range outs {
			vals[i] = rapid.IntRange(1, 2).Draw(t, "value")
			if rapid.Bool().Draw(t, "fail") {
				outs[i] = fmt.Errorf("member %d failed", i)
				fails++
			}
		}
		f := &fake{unary: func(_ context.Context, name string) (int, error) {
			var i int
			fmt.Sscanf(name, "m%d", &i)
			return vals[i], outs[i]
		}}
		other := strategy(rapid.IntRange(0, int(unspecified)).Draw(t, "other strategy"))
		kind := rapid.SampledFrom([]string{"get", "update"}).Draw(t, "call")
		read, write := s, other
		if kind == "update" {
			read, write = other, s
		}
		sub := vkit.Pick(t, subjects(f, strategies[read], strategies[write], memberNames(n)), "trait")
		what := fmt.Sprintf("%s %s %v fails=%v values=%v", sub.name, kind, s, outs, vals)
		vkit.Class("%s %s", sub.name, kind)
		if fails > 0 && fails < n || n == 0 {
			vkit.Nontrivial(what)
		}
		before := proto.Clone(sub.reqs[kind])
		leak := vkit.LeakBaseline()
		var got int
		var err error
		vkit.Within(t, what, func() {
			vkit.NoPanic(t, what, func() {
				if kind == "get" {
					got, err = sub.get(context.Background())
				} else {
					got, err = sub.update(context.Background())
				}
			})
		})
		leak.Wait(t, what)
		if n == 0 {
			return
		}
		asked := n
		if s == one {
			asked = 0
			for asked < n {
				asked++
				if outs[asked-1] == nil {
					break
				}
			}
		}
		checkCalls(t, what, f.calls, sub.reqs[kind], before, asked)
		wantFail := err != nil
		switch s {
		case all, unspecified:
			wantFail = fails > 0
		case most:
			wantFail = 2*fails > n
		case anyOf, one, fast:
			wantFail = fails == n
		case race:
			if fails == 0 || fails == n {
				wantFail = fails == n
			}
		}
		if wantFail != (err != nil) {
			t.Fatalf("%s: error %v, want one: %v", what, err, wantFail)
		}
		if err != nil {
			found := false
			for _, o := range outs {
				found = found || o != nil && errors.Is(err, o)
			}
			if !found {
				t.Fatalf("%s: error %v is of no member", what, err)
			}
			return
		}
		// a single member's result is the result
		if s == one || s == fast || s == race {
			ok := false
			for i := range outs {
				if outs[i] == nil {
					ok = ok || got == vals[i]
					if s == one {
						ok = got == vals[i]
						break
					}
				}
			}
			if !ok {
				t.Fatalf("%s: the result %d is of no member that succeeded", what, got)
			}
		}
	})
}

// TestTraitPull ends the members of a pulled group one by one.
func TestTraitPull(t *testing.T) {
	vkit.Check(t, vkit.N(1200, 25000), func(t *rapid.T) {
		n := rapid.IntRange(0, 5).Draw(t, "members")
		s := strategy(rapid.IntRange(0, int(unspecified)).Draw(t, "strategy"))
		names := memberNames(n)
		gates := map[string]chan struct{}{}
		sends := map[string]int{}
		errs := map[string]error{}
		var order []string
		for _, name := range names {
			gates[name] = make(chan struct{})
			sends[name] = rapid.IntRange(0, 3).Draw(t, "messages")
			errs[name] = fmt.Errorf("%s failed", name)
			order = append(order, name)
		}
		if n > 0 {
			order = rapid.Permutation(order).Draw(t, "order")
		}
		how := rapid.SampledFrom([]string{"members end", "client leaves", "send fails"}).Draw(t, "end")
		at := rapid.IntRange(0, n).Draw(t, "at")
		var mu sync.Mutex
		ctxs := map[string]context.Context{}
		f := &fake{pull: func(ctx context.Context, name string, send func(int)) error {
			mu.Lock()
			ctxs[name] = ctx
			mu.Unlock()
			for i := 0; i < sends[name]; i++ {
				send(1 + i%2)
			}
			select {
			case <-gates[name]:
				return errs[name]
			case <-ctx.Done():
				return ctx.Err()
			}
		}}
		sub := vkit.Pick(t, subjects(f, strategies[s], group.ExecutionStrategyAll, names), "trait")
		what := fmt.Sprintf("%s pull %v messages=%v order=%v %s at %d", sub.name, s, sends, order, how, at)
		vkit.Class("%s pull: %s", sub.name, how)
		if n > 1 {
			vkit.Nontrivial(what)
		}
		before := proto.Clone(sub.reqs["pull"])
		leak := vkit.LeakBaseline()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		sendErr := errors.New("client is gone")
		failNow := false
		returned := make(chan error, 1)
		go func() {
			returned <- sub.pull(ctx, func(name string) error {
				mu.Lock()
				defer mu.Unlock()
				if name != "group" {
					return fmt.Errorf("named %q", name)
				}
				if failNow {
					return sendErr
				}
				return nil
			})
		}()
		leak.Quiet(t, what)
		ended := false
		var got error
		poll := func() {
			leak.Quiet(t, what)
			select {
			case got = <-returned:
				ended = true
			default:
			}
		}
		poll()
		if n == 0 {
			if !ended {
				t.Fatalf("%s: the call goes on without members", what)
			}
			return
		}
		budget := map[strategy]int{all: 0, unspecified: 0, most: n / 2, anyOf: n - 1, one: n - 1, fast: n - 1, race: 0}[s]
		var first error
		released := map[string]bool{}
		for k, name := range order {
			if k == at && how != "members end" {
				break
			}
			if ended {
				break
			}
			close(gates[name])
			released[name] = true
			if first == nil {
				first = errs[name]
			}
			poll()
			over := k+1 > budget
			if s == one {
				first = errs[names[0]]
				over = true
				for _, m := range names {
					over = over && released[m]
				}
			}
			if over != ended {
				t.Fatalf("%s: %d members failed, returned: %v", what, k+1, ended)
			}
			if !over {
				mu.Lock()
				for m, c := range ctxs {
					if !released[m] && c.Err() != nil {
						t.Fatalf("%s: the context of %s ended though the group goes on", what, m)
					}
				}
				mu.Unlock()
			}
		}
		if ended {
			if !errors.Is(got, first) {
				t.Fatalf("%s: returned %v, want %v", what, got, first)
			}
		} else {
			switch how {
			case "client leaves":
				cancel()
			case "send fails":
				mu.Lock()
				failNow = true
				mu.Unlock()
				cancel() // no message is due, this is how a client that left shows
			}
			poll()
			if !ended {
				t.Fatalf("%s: the call goes on after the client left", what)
			}
			if got == nil || got == io.EOF {
				t.Fatalf("%s: returned %v", what, got)
			}
		}
		leak.Wait(t, what)
		leak.Quiet(t, what)
		mu.Lock()
		defer mu.Unlock()
		for m, c := range ctxs {
			if c.Err() == nil {
				t.Fatalf("%s: the context of %s goes on", what, m)
			}
		}
		if s != one {
			checkCalls(t, what, f.calls, sub.reqs["pull"], before, n)
		}
	})
}

// TestTraitPullSendFails has the client's stream break at any message.
func TestTraitPullSendFails(t *testing.T) {
	vkit.Check(t, vkit.N(600, 12000), func(t *rapid.T) {
		n := rapid.IntRange(1, 5).Draw(t, "members")
		s := strategy(rapid.IntRange(0, int(unspecified)).Draw(t, "strategy"))
		failAt := rapid.IntRange(0, 3).Draw(t, "fail at")
		f := &fake{pull: func(ctx context.Context, name string, send func(int)) error {
			for i := 0; ctx.Err() == nil; i++ {
				send(1 + i%2)
			}
			return ctx.Err()
		}}
		sub := vkit.Pick(t, subjects(f, strategies[s], group.ExecutionStrategyAll, memberNames(n)), "trait")
		what := fmt.Sprintf("%s pull %v %d members send %d fails", sub.name, s, n, failAt)
		vkit.Nontrivial(what)
		leak := vkit.LeakBaseline()
		sendErr := errors.New("client is gone")
		sent := 0
		var err error
		vkit.Within(t, what, func() {
			err = sub.pull(context.Background(), func(string) error {
				sent++
				if sent > failAt {
					return sendErr
				}
				return nil
			})
		})
		if err == nil {
			t.Fatalf("%s: returned no error", what)
		}
		if sent != failAt+1 {
			t.Fatalf("%s: %d messages were sent", what, sent)
		}
		leak.Wait(t, what)
	})
}
