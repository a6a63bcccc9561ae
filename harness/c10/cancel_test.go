package c10

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type failer interface {
	Helper()
	Fatalf(string, ...any)
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_CASE_SEED"), 10, 64)
	return n
}

// points counts the places where the code under test looks at a context, the clock, a predicate or an equivalence,
// from whatever goroutine, and runs what is planned for the n-th.
type points struct {
	n     atomic.Int64
	mu    sync.Mutex
	plans map[int64][]func()
}

func newPoints() *points { return &points{plans: map[int64][]func(){}} }

// at must be called before the code runs.
func (p *points) at(n int64, fn func()) { p.plans[n] = append(p.plans[n], fn) }

func (p *points) hit() {
	n := p.n.Add(1)
	p.mu.Lock()
	fns := p.plans[n]
	p.mu.Unlock()
	for _, fn := range fns {
		fn()
	}
}

type pointCtx struct {
	context.Context
	p *points
}

func (c pointCtx) Done() <-chan struct{} { c.p.hit(); return c.Context.Done() }
func (c pointCtx) Err() error            { c.p.hit(); return c.Context.Err() }

type pointClock struct{ p *points }

func (c pointClock) Now() time.Time { c.p.hit(); return time.Now() }

func withPoints(p *points) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	return pointCtx{ctx, p}, cancel
}

// closes drains ch and reports whether it was closed soon after.
func closes[T any](ch <-chan T, limit time.Duration) bool {
	deadline := time.NewTimer(limit)
	defer deadline.Stop()
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return true
			}
		case <-deadline.C:
			return false
		}
	}
}

// ---- the bus ----

type busEvent struct{ sender, seq int }

type busListener struct {
	stalled  bool          // stops receiving after a while
	after    int           // ... after this many events
	pace     time.Duration // between events
	cancelAt int64         // point at which it is cancelled, 0: not by a point
	early    bool          // cancelled before Listen
	late     time.Duration // when it starts listening, 0: before the senders
	delay    time.Duration // left to other goroutines after cancelling at a point

	ch        <-chan any
	ctx       context.Context
	cancel    context.CancelFunc
	opened    atomic.Bool
	cancelled atomic.Bool
	release   chan struct{}
	done      chan struct{}

	mu  sync.Mutex
	got []busEvent
}

type busScenario struct {
	listeners []*busListener
	senders   int
	events    int
	timeout   time.Duration // of the senders' contexts, 0: none
}

func (s busScenario) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d senders x %d events timeout %v;", s.senders, s.events, s.timeout)
	for i, l := range s.listeners {
		fmt.Fprintf(&sb, " [%d stalled=%v after=%d pace=%v cancelAt=%d early=%v late=%v delay=%v]", i, l.stalled, l.after, l.pace, l.cancelAt, l.early, l.late, l.delay)
	}
	return sb.String()
}

// runBus returns the number of points passed.
func runBus(t failer, s busScenario) int64 {
	vkit.Eval()
	leak := vkit.LeakBaseline()
	p := newPoints()
	var bus minibus.Bus
	type span struct{ live []int } // listeners that are live for the whole of a send
	for i, l := range s.listeners {
		l.ctx, l.cancel = withPoints(p)
		l.release, l.done = make(chan struct{}), make(chan struct{})
		_ = i
		if l.cancelAt > 0 {
			p.at(l.cancelAt, func() {
				l.cancelled.Store(true)
				l.cancel()
				if l.delay > 0 {
					time.Sleep(l.delay)
				} else {
					runtime.Gosched()
				}
			})
		}
	}
	start := func(l *busListener) {
		if l.early {
			l.cancelled.Store(true)
			l.cancel()
		}
		l.ch = bus.Listen(l.ctx)
		l.opened.Store(true)
		go func() {
			defer close(l.done)
			n := 0
			for {
				if l.stalled && n >= l.after {
					<-l.release
				}
				e, ok := <-l.ch
				if !ok {
					return
				}
				n++
				l.mu.Lock()
				l.got = append(l.got, e.(busEvent))
				l.mu.Unlock()
				if l.pace > 0 {
					time.Sleep(l.pace)
				}
			}
		}()
	}
	var wg sync.WaitGroup
	for _, l := range s.listeners {
		if l.late == 0 {
			start(l)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(l.late)
			start(l)
		}()
	}
	type sent struct {
		e    busEvent
		ok   bool
		done bool // the context was done by the time it returned
		live []int
	}
	var mu sync.Mutex
	var log []sent
	var senders sync.WaitGroup
	panics := make(chan string, s.senders)
	for i := 0; i < s.senders; i++ {
		senders.Add(1)
		go func() {
			defer senders.Done()
			defer func() {
				if r := recover(); r != nil {
					panics <- fmt.Sprintf("Send panicked: %v\n%s", r, stack())
				}
			}()
			for j := 0; j < s.events; j++ {
				ctx, cancel := withPoints(p)
				if s.timeout > 0 {
					inner, c2 := context.WithTimeout(context.Background(), s.timeout)
					cancel()
					ctx, cancel = pointCtx{inner, p}, c2
				}
				e := busEvent{i, j}
				var live []int
				for k, l := range s.listeners {
					if l.opened.Load() {
						live = append(live, k)
					}
				}
				ok := bus.Send(ctx, e)
				done := ctx.(pointCtx).Context.Err() != nil
				var still []int
				for _, k := range live {
					if !s.listeners[k].cancelled.Load() {
						still = append(still, k)
					}
				}
				mu.Lock()
				log = append(log, sent{e, ok, done, still})
				mu.Unlock()
				cancel()
			}
		}()
	}
	// stalled listeners are cancelled in the end, which has to set the senders free
	if s.timeout == 0 {
		go func() {
			time.Sleep(2 * time.Millisecond)
			wg.Wait()
			for _, l := range s.listeners {
				if l.stalled {
					l.cancelled.Store(true)
					l.cancel()
				}
			}
		}()
	}
	vkit.Within(t, s.String()+"\nSend", func() { senders.Wait() })
	select {
	case e := <-panics:
		t.Fatalf("%v\n%s", s, e)
	default:
	}
	wg.Wait()
	for _, l := range s.listeners {
		l.cancelled.Store(true)
		l.cancel()
		close(l.release)
	}
	for i, l := range s.listeners {
		select {
		case <-l.done:
		case <-time.After(vkit.Long):
			t.Fatalf("%v\nthe channel of listener %d is not closed", s, i)
		}
	}
	leak.Wait(t, s.String())

	// what was received
	ok := map[busEvent]sent{}
	for _, e := range log {
		ok[e.e] = e
		if !e.ok && !e.done {
			t.Fatalf("%v\nSend of %v returned false before its context was done", s, e.e)
		}
	}
	counts := make([]map[busEvent]int, len(s.listeners))
	delivered := 0
	for i, l := range s.listeners {
		counts[i] = map[busEvent]int{}
		last := make([]int, s.senders)
		for k := range last {
			last[k] = -1
		}
		for _, e := range l.got {
			delivered++
			counts[i][e]++
			if e.seq <= last[e.sender] {
				t.Fatalf("%v\nlistener %d received %v after seq %d of the same sender: %v", s, i, e, last[e.sender], l.got)
			}
			last[e.sender] = e.seq
		}
	}
	for _, e := range log {
		if !e.ok {
			continue
		}
		for _, k := range e.live {
			if counts[k][e.e] != 1 {
				t.Fatalf("%v\nSend of %v returned true, listener %d was live throughout and received it %d times: %v", s, e.e, k, counts[k][e.e], s.listeners[k].got)
			}
		}
	}
	if delivered > 0 {
		vkit.Nontrivial(s.String())
	}
	return p.n.Load()
}

func stack() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

// TestBusPoints: one listener is cancelled at every point in turn, the others read or stall.
func TestBusPoints(t *testing.T) {
	reps := 1
	if vkit.Thorough() {
		reps = 6
	}
	for shape := 0; shape < 12; shape++ {
		for _, delay := range []time.Duration{0, 100 * time.Microsecond} {
			for n := int64(1); n < 400; n++ {
				var passed int64
				for rep := 0; rep < reps; rep++ {
					var ls []*busListener
					victims := 1 + shape%2
					for i := 0; i < victims; i++ {
						ls = append(ls, &busListener{cancelAt: n, delay: delay, stalled: shape/2%2 == 1})
					}
					for i := 0; i < 1+shape/4; i++ {
						ls = append(ls, &busListener{stalled: i == 1, after: 1})
					}
					if shape/2%2 == 1 { // the victim last
						ls[0], ls[len(ls)-1] = ls[len(ls)-1], ls[0]
					}
					passed = runBus(t, busScenario{listeners: ls, senders: 1 + shape%2, events: 3})
				}
				if passed < n {
					vkit.Class("points: shape %d: %d", shape, (passed+4)/5*5)
					break
				}
			}
		}
	}
}

func drawListener(t *rapid.T, i int) *busListener {
	l := &busListener{}
	name := fmt.Sprint("l", i)
	switch rapid.IntRange(0, 3).Draw(t, name+"mode") {
	case 0:
		l.stalled = true
		l.after = rapid.IntRange(0, 4).Draw(t, name+"after")
	case 1:
		l.pace = time.Duration(rapid.IntRange(1, 5).Draw(t, name+"pace")) * 20 * time.Microsecond
	}
	if rapid.IntRange(0, 2).Draw(t, name+"plan") == 0 {
		l.cancelAt = int64(rapid.IntRange(1, 120).Draw(t, name+"at"))
		l.delay = time.Duration(rapid.IntRange(0, 2).Draw(t, name+"delay")) * 60 * time.Microsecond
	}
	if rapid.IntRange(0, 9).Draw(t, name+"e") == 0 {
		l.early = true
	}
	if rapid.IntRange(0, 3).Draw(t, name+"late") == 0 {
		l.late = time.Duration(rapid.IntRange(1, 40).Draw(t, name+"lateness")) * 10 * time.Microsecond
	}
	return l
}

// TestBusRandom: everything at once.
func TestBusRandom(t *testing.T) {
	vkit.Check(t, vkit.N(6000, 60000), func(t *rapid.T) {
		s := busScenario{senders: rapid.IntRange(1, 3).Draw(t, "senders"), events: rapid.IntRange(1, 8).Draw(t, "events")}
		for i := 0; i < rapid.IntRange(0, 8).Draw(t, "listeners"); i++ {
			s.listeners = append(s.listeners, drawListener(t, i))
		}
		if rapid.IntRange(0, 4).Draw(t, "timeout") == 0 {
			s.timeout = time.Duration(rapid.IntRange(1, 30).Draw(t, "timeout")) * 100 * time.Microsecond
		}
		vkit.Class("bus: %d listeners", len(s.listeners))
		runBus(t, s)
	})
}

// TestBusStalledOther: listeners that are waiting get the event although others never receive.
func TestBusStalledOther(t *testing.T) {
	type outcome struct{ why string }
	results := make(chan outcome)
	total := 0
	for n := 2; n <= 8; n++ {
		for mask := 1; mask < 1<<n-1; mask++ {
			if n > 4 && mask%7 != int(uint64(seed())%7) {
				continue
			}
			total++
			vkit.Eval()
			vkit.Nontrivial(fmt.Sprint(n, mask))
			go func() {
				results <- func() outcome {
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					var bus minibus.Bus
					got := make([]chan any, n)
					for i := 0; i < n; i++ {
						ch := bus.Listen(ctx)
						if mask>>i&1 == 1 {
							continue
						}
						got[i] = make(chan any, 10)
						go func() {
							for e := range ch {
								got[i] <- e
							}
						}()
					}
					sctx, scancel := context.WithTimeout(context.Background(), 3*time.Second)
					defer scancel()
					if bus.Send(sctx, 1) {
						return outcome{fmt.Sprintf("n=%d stalled=%b: Send says everybody received it", n, mask)}
					}
					for i := 0; i < n; i++ {
						if got[i] == nil {
							continue
						}
						select {
						case <-got[i]:
						case <-time.After(time.Second):
							return outcome{fmt.Sprintf("n=%d stalled=%b: listener %d was receiving all the time and was not sent the event", n, mask, i)}
						}
						if len(got[i]) > 0 {
							return outcome{fmt.Sprintf("n=%d stalled=%b: listener %d got it twice", n, mask, i)}
						}
					}
					return outcome{}
				}()
			}()
		}
	}
	for i := 0; i < total; i++ {
		if o := <-results; o.why != "" {
			t.Fatal(o.why)
		}
	}
}

// ---- resources ----

type sub struct {
	coll      bool
	pullID    bool
	id        string
	bp, only  bool
	mask      bool
	include   bool
	stalled   bool
	after     int
	drain     bool // keeps receiving after it was cancelled
	pace      time.Duration
	cancelAt  int64
	delay     time.Duration
	randomAt  time.Duration // cancelled after this long
	openLater bool

	ctx       context.Context
	cancel    context.CancelFunc
	cancelled atomic.Bool
	release   chan struct{}
	done      chan struct{}
	closed    func() bool

	mu  sync.Mutex
	got map[string][]int64 // stamps by id
}

func (s *sub) String() string {
	return fmt.Sprintf("[pullID=%v bp=%v only=%v mask=%v include=%v stalled=%v after=%d drain=%v pace=%v at=%d delay=%v random=%v later=%v]", s.pullID, s.bp, s.only, s.mask, s.include, s.stalled, s.after, s.drain, s.pace, s.cancelAt, s.delay, s.randomAt, s.openLater)
}

type resScenario struct {
	coll    bool
	equiv   bool
	subs    []*sub
	writers int
	writes  int
	remove  bool // the item of the single-item subscriptions is removed in the end
}

func (s resScenario) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "collection=%v equivalence=%v writers=%d writes=%d remove=%v", s.coll, s.equiv, s.writers, s.writes, s.remove)
	for _, u := range s.subs {
		sb.WriteString(" " + u.String())
	}
	return sb.String()
}

func stampOf(m proto.Message) int64 { return m.(*testproto.TestAllTypes).DefaultInt64 }

func runResource(t failer, s resScenario) int64 {
	vkit.Eval()
	leak := vkit.LeakBaseline()
	p := newPoints()
	opts := []resource.Option{resource.WithClock(pointClock{p})}
	if s.equiv {
		opts = append(opts, resource.WithEquivalence(resource.ComparerFunc(func(x, y proto.Message) bool { p.hit(); return proto.Equal(x, y) })))
	}
	var coll *resource.Collection
	var val *resource.Value
	ids := []string{"a", "b"}
	msg := func(id string, n int64) *testproto.TestAllTypes {
		return &testproto.TestAllTypes{DefaultString: id, DefaultInt64: n}
	}
	if s.coll {
		for _, id := range ids {
			opts = append(opts, resource.WithInitialRecord(id, msg(id, 0)))
		}
		coll = resource.NewCollection(opts...)
	} else {
		ids = []string{"v"}
		val = resource.NewValue(append(opts, resource.WithInitialValue(msg("v", 0)))...)
	}
	for _, u := range s.subs {
		u.ctx, u.cancel = withPoints(p)
		u.release, u.done = make(chan struct{}), make(chan struct{})
		u.got = map[string][]int64{}
		if u.cancelAt > 0 {
			p.at(u.cancelAt, func() {
				u.cancelled.Store(true)
				u.cancel()
				if u.delay > 0 {
					time.Sleep(u.delay)
				} else {
					runtime.Gosched()
				}
			})
		}
	}
	open := func(u *sub) {
		ro := []resource.ReadOption{resource.WithBackpressure(u.bp), resource.WithUpdatesOnly(u.only)}
		if u.mask {
			ro = append(ro, resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{"default_string", "default_int64"}}))
		}
		if u.include {
			ro = append(ro, resource.WithInclude(func(id string, m proto.Message) bool { p.hit(); return true }))
		}
		var next func() (string, proto.Message, bool)
		switch {
		case u.pullID || !s.coll:
			var ch <-chan *resource.ValueChange
			if s.coll {
				ch = coll.PullID(u.ctx, u.id, ro...)
			} else {
				ch = val.Pull(u.ctx, ro...)
				u.id = "v"
			}
			next = func() (string, proto.Message, bool) {
				e, ok := <-ch
				if !ok {
					return "", nil, false
				}
				return u.id, e.Value, true
			}
			u.closed = func() bool { return closes(ch, vkit.Long) }
		default:
			ch := coll.Pull(u.ctx, ro...)
			next = func() (string, proto.Message, bool) {
				e, ok := <-ch
				if !ok {
					return "", nil, false
				}
				if e.ChangeType == types.ChangeType_REMOVE {
					return e.Id, nil, true
				}
				return e.Id, e.NewValue, true
			}
			u.closed = func() bool { return closes(ch, vkit.Long) }
		}
		go func() {
			defer close(u.done)
			n := 0
			for {
				if u.stalled && n >= u.after {
					<-u.release
					return
				}
				id, m, ok := next()
				if !ok {
					return
				}
				n++
				if m != nil {
					u.mu.Lock()
					u.got[id] = append(u.got[id], stampOf(m))
					u.mu.Unlock()
				}
				if u.cancelled.Load() && !u.drain {
					return
				}
				if u.pace > 0 {
					time.Sleep(u.pace)
				}
			}
		}()
	}
	for _, u := range s.subs {
		if !u.openLater {
			vkit.Within(t, s.String()+"\nPull", func() { open(u) })
		}
	}
	var writers sync.WaitGroup
	failures := make(chan string, 100)
	stamps := make([]atomic.Int64, len(ids))
	for w := 0; w < s.writers; w++ {
		writers.Add(1)
		go func() {
			defer writers.Done()
			defer func() {
				if r := recover(); r != nil {
					failures <- fmt.Sprintf("a write panicked: %v\n%s", r, stack())
				}
			}()
			// each writer writes an item of its own, in order
			i := w % len(ids)
			for n := 0; n < s.writes; n++ {
				k := stamps[i].Add(1)
				var err error
				if s.coll {
					_, err = coll.Update(ids[i], msg(ids[i], k))
				} else {
					_, err = val.Set(msg("v", k))
				}
				if err != nil {
					failures <- fmt.Sprintf("write %d of %s failed: %v", k, ids[i], err)
					return
				}
			}
		}()
	}
	for _, u := range s.subs {
		if u.openLater {
			vkit.Within(t, s.String()+"\nPull", func() { open(u) })
		}
		if u.randomAt > 0 {
			go func() {
				time.Sleep(u.randomAt)
				u.cancelled.Store(true)
				u.cancel()
			}()
		}
	}
	go func() {
		time.Sleep(time.Millisecond)
		for _, u := range s.subs {
			if u.stalled || u.cancelled.Load() && !u.drain {
				u.cancelled.Store(true)
				u.cancel()
			}
		}
	}()
	vkit.Within(t, s.String()+"\nwriters", func() { writers.Wait() })
	// subscribers that are not cancelled with backpressure have everything
	for i, u := range s.subs {
		if u.stalled || u.cancelled.Load() || !u.bp || u.openLater {
			continue
		}
		deadline := time.Now().Add(vkit.Long)
		for k, id := range ids {
			if (u.pullID || !s.coll) && u.id != id {
				continue
			}
			want := stamps[k].Load()
			for {
				u.mu.Lock()
				got := append([]int64(nil), u.got[id]...)
				u.mu.Unlock()
				if u.cancelled.Load() { // by now
					break
				}
				n := want
				if !u.only {
					n++
				}
				if int64(len(got)) >= n || time.Now().After(deadline) {
					for j, g := range got {
						w := int64(j)
						if u.only {
							w++
						}
						if g != w {
							failures <- fmt.Sprintf("subscriber %d received %v of %s, written 1..%d in order", i, got, id, want)
							break
						}
					}
					if int64(len(got)) != n {
						failures <- fmt.Sprintf("subscriber %d received %v of %s, written 1..%d", i, got, id, want)
					}
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
		}
	}
	if s.coll && s.remove {
		vkit.Within(t, s.String()+"\nDelete", func() { _, _ = coll.Delete("a") })
		for i, u := range s.subs {
			if !u.pullID || u.id != "a" || u.stalled || u.cancelled.Load() {
				continue
			}
			select {
			case <-u.done:
			case <-time.After(vkit.Long):
				t.Fatalf("%v\nsubscriber %d of the removed item goes on", s, i)
			}
		}
	}
	select {
	case f := <-failures:
		t.Fatalf("%v\n%s", s, f)
	default:
	}
	for _, u := range s.subs {
		u.cancelled.Store(true)
		u.cancel()
		close(u.release)
	}
	// nobody has to drain a channel to be rid of the goroutines behind it
	leak.Wait(t, s.String(), "vkit.Within", "runResource")
	for i, u := range s.subs {
		vkit.Within(t, fmt.Sprintf("%v\nconsumer %d", s, i), func() { <-u.done })
		if !u.closed() {
			t.Fatalf("%v\nthe channel of subscriber %d is not closed", s, i)
		}
	}
	leak.Wait(t, s.String())
	vkit.Nontrivial(s.String())
	return p.n.Load()
}

// TestPoints: every option combination, a stalled or reading subscriber cancelled at every point in turn beside one
// that reads everything.
func TestPoints(t *testing.T) {
	step := int64(1)
	if !vkit.Thorough() {
		step = 2
	}
	for shape := 0; shape < 96; shape++ {
		coll, pullID := shape%3 != 0, shape%3 == 2
		bp, only := shape/3%2 == 1, shape/6%2 == 1
		stalled := shape/12%2 == 1
		two := shape/24%2 == 1
		equiv := shape/48%2 == 1
		for n := 1 + (seed()+int64(shape))%step; n < 300; n += step {
			s := resScenario{coll: coll, equiv: equiv, writers: 1, writes: 2, remove: pullID && n%2 == 0}
			s.subs = []*sub{
				{pullID: pullID, id: "a", bp: bp, only: only, stalled: stalled, after: int(n % 3), cancelAt: n, drain: n%4 < 2, delay: time.Duration(n%2) * 60 * time.Microsecond, mask: n%3 == 0, include: coll && n%5 == 0},
				{id: "a", bp: true},
			}
			if two {
				s.writers = 2
				s.subs = append(s.subs, &sub{pullID: coll, id: "a", bp: bp, only: true, cancelAt: n + 1})
				if !coll { // writers of one value are not ordered
					s.writers = 1
				}
			}
			if runResource(t, s) < n {
				break
			}
		}
	}
}

// TestRandom: 0-8 subscribers of every kind.
func TestRandom(t *testing.T) {
	vkit.Check(t, vkit.N(6000, 60000), func(t *rapid.T) {
		s := resScenario{
			coll: rapid.IntRange(0, 2).Draw(t, "coll") > 0, equiv: rapid.Bool().Draw(t, "equiv"),
			writers: rapid.IntRange(0, 2).Draw(t, "writers"), writes: rapid.IntRange(1, 10).Draw(t, "writes"),
			remove: rapid.Bool().Draw(t, "remove"),
		}
		if !s.coll && s.writers > 1 {
			s.writers = 1
		}
		for i := 0; i < rapid.IntRange(0, 8).Draw(t, "subs"); i++ {
			u := &sub{id: "a", coll: s.coll}
			b := func(name string) bool { return rapid.Bool().Draw(t, fmt.Sprint(name, i)) }
			n := func(name string, k int) int { return rapid.IntRange(0, k).Draw(t, fmt.Sprint(name, i)) }
			if s.coll {
				u.pullID = b("pullID")
				u.include = n("include", 3) == 0
				if n("id", 3) == 0 {
					u.id = "b"
				}
			}
			u.bp, u.only, u.mask = b("bp"), b("only"), n("mask", 3) == 0
			if n("stalled", 2) == 0 {
				u.stalled, u.after = true, n("after", 4)
			} else if b("slow") {
				u.pace = time.Duration(n("pace", 4)) * 20 * time.Microsecond
			}
			u.drain = b("drain")
			switch n("plan", 3) {
			case 0:
				u.cancelAt, u.delay = int64(1+n("at", 150)), time.Duration(n("delay", 2))*60*time.Microsecond
			case 1:
				u.randomAt = time.Duration(1+n("random", 40)) * 20 * time.Microsecond
			}
			u.openLater = n("later", 4) == 0
			s.subs = append(s.subs, u)
		}
		vkit.Class("%d subscribers", len(s.subs))
		runResource(t, s)
	})
}

// TestRemoved: a single-item subscription ends when its item is removed, its own context still live, and lets go of
// everything it started.
func TestRemoved(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	for v := 0; v < 1<<8; v++ {
		vkit.Eval()
		leak := vkit.LeakBaseline()
		var opts []resource.Option
		if v&1 == 1 {
			opts = append(opts, resource.WithNoDuplicates())
		}
		if v&2 == 2 {
			opts = append(opts, resource.WithIDInterceptor(strings.ToLower))
		}
		c := resource.NewCollection(opts...)
		present := v&4 == 4
		if present {
			_, _ = c.Add("a", &testproto.TestAllTypes{DefaultInt64: 1})
		}
		ctx, cancel := context.WithCancel(context.Background())
		ro := []resource.ReadOption{resource.WithBackpressure(v&8 == 8), resource.WithUpdatesOnly(v&16 == 16)}
		if v&32 == 32 {
			ro = append(ro, resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{"default_string"}}))
		}
		if v&64 == 64 {
			ro = append(ro, resource.WithInclude(func(id string, m proto.Message) bool { return m != nil && stampOf(m)%2 == 1 }))
		}
		id := "a"
		if v&2 == 2 {
			id = "A"
		}
		ch := c.PullID(ctx, id, ro...)
		what := fmt.Sprintf("variant %b", v)
		consume := v&128 == 128
		ended := make(chan struct{})
		if consume {
			go func() {
				for range ch {
				}
				close(ended)
			}()
		}
		if !consume && v&8 == 8 { // nobody receives and writers would wait
			cancel()
		}
		vkit.Within(t, what, func() {
			if !present {
				_, _ = c.Add("a", &testproto.TestAllTypes{DefaultInt64: 1})
				if v&8 == 0 {
					// with a lossy subscription the addition and the removal may cancel out; let it through
					time.Sleep(2 * time.Millisecond)
				}
			}
			for i := 0; i < rng.Intn(3); i++ {
				_, _ = c.Update("a", &testproto.TestAllTypes{DefaultInt64: int64(2*i) + 3})
			}
			_, _ = c.Add("other", &testproto.TestAllTypes{})
			_, _ = c.Delete("a")
			_, _ = c.Delete("other")
		})
		if consume {
			if !present && v&8 == 0 {
				// the subscription may have been told nothing at all
				select {
				case <-ended:
				case <-time.After(50 * time.Millisecond):
					cancel()
				}
			}
			select {
			case <-ended:
			case <-time.After(vkit.Long):
				t.Fatalf("%s: the subscription of a removed item goes on", what)
			}
			leak.Wait(t, what+" after the removal", "TestRemoved")
		}
		cancel()
		leak.Wait(t, what)
		vkit.Nontrivial(what)
	}
}
