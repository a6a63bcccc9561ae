// Package c17 releases the members of a group one by one, and judges after every step what the call, and the
// contexts of the members that are left, look like.
package c17

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/group"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type strategy int

const (
	all strategy = iota
	most
	anyOf
	one
	fast
	race
	unspecified
	upTo // ExecuteUpTo with any budget
	nStrategies
)

func (s strategy) String() string {
	return [...]string{"All", "Most", "Any", "One", "Fast", "Race", "Unspecified", "UpTo"}[s]
}

var strategies = map[strategy]group.ExecutionStrategy{
	all: group.ExecutionStrategyAll, most: group.ExecutionStrategyMost, anyOf: group.ExecutionStrategyAny,
	one: group.ExecutionStrategyOne, fast: group.ExecutionStrategyFast, race: group.ExecutionStrategyRace,
	unspecified: group.ExecutionStrategyUnspecified,
}

type outcome int

const (
	ok      outcome = iota
	okNil           // succeeds without a message
	fail            // fails
	failMsg         // fails, and returns a message too
	nOutcomes
)

func (o outcome) failed() bool { return o >= fail }

type member struct {
	i       int
	out     outcome
	aware   bool // ends with its context's error once that ends
	gate    chan struct{}
	mu      sync.Mutex
	ctx     context.Context
	starts  int
	ended   bool
	byCtx   bool
	msg     proto.Message
	err     error
	fastest bool // doesn't wait to be released
}

func (m *member) run(ctx context.Context) (proto.Message, error) {
	m.mu.Lock()
	m.ctx = ctx
	m.starts++
	m.mu.Unlock()
	if !m.fastest {
		if m.aware {
			select {
			case <-m.gate:
			case <-ctx.Done():
				m.mu.Lock()
				m.ended, m.byCtx = true, true
				m.mu.Unlock()
				return nil, ctx.Err()
			}
		} else {
			<-m.gate
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.ended = true
	switch m.out {
	case ok:
		return m.msg, nil
	case okNil:
		return nil, nil
	case failMsg:
		return m.msg, m.err
	default:
		return nil, m.err
	}
}

func (m *member) started() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.starts
}

func (m *member) done() (bool, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.ended, m.byCtx
}

func (m *member) ctxErr() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.ctx == nil {
		return nil
	}
	return m.ctx.Err()
}

type result struct {
	res []proto.Message // nil unless the call returns all
	msg proto.Message
	i   int
	err error
}

// scenario is one call.
type scenario struct {
	s       strategy
	direct  bool // call ExecuteX rather than Execute
	budget  int  // for upTo
	outs    []outcome
	aware   []bool
	order   []int // the members in the order they are released
	cancel  int   // end the caller's context before this release, -1 for never
	started []int
}

func (sc scenario) String() string {
	s := fmt.Sprintf("%v direct=%v outcomes=%v order=%v aware=%v", sc.s, sc.direct, sc.outs, sc.order, sc.aware)
	if sc.s == upTo {
		s += fmt.Sprintf(" budget=%d", sc.budget)
	}
	if sc.cancel >= 0 {
		s += fmt.Sprintf(" cancel before release %d", sc.cancel)
	}
	return s
}

func (sc scenario) call(ctx context.Context, ms []group.Member) result {
	if sc.s == upTo {
		res, err := group.ExecuteUpTo(ctx, sc.budget, ms)
		return result{res: res, err: err}
	}
	if sc.direct {
		switch sc.s {
		case all, unspecified:
			res, err := group.ExecuteAll(ctx, ms)
			return result{res: res, err: err}
		case most:
			res, err := group.ExecuteMost(ctx, ms)
			return result{res: res, err: err}
		case anyOf:
			res, err := group.ExecuteAny(ctx, ms)
			return result{res: res, err: err}
		case one:
			m, i, err := group.ExecuteOne(ctx, ms)
			return result{msg: m, i: i, err: err}
		case fast:
			m, i, err := group.ExecuteFast(ctx, ms)
			return result{msg: m, i: i, err: err}
		case race:
			m, i, err := group.ExecuteRace(ctx, ms)
			return result{msg: m, i: i, err: err}
		}
	}
	res, err := group.Execute(ctx, strategies[sc.s], ms)
	return result{res: res, err: err}
}

// run performs the scenario. The oracle follows the members' completions in the order in which they happen.
func (sc scenario) run(t vkit.Fataler) {
	n := len(sc.outs)
	leak := vkit.LeakBaseline()
	ms := make([]*member, n)
	gm := make([]group.Member, n)
	for i := range ms {
		ms[i] = &member{i: i, out: sc.outs[i], aware: sc.aware[i], gate: make(chan struct{}),
			msg: &testproto.ForeignMessage{C: int32(i + 1)}, err: fmt.Errorf("member %d failed", i)}
		gm[i] = ms[i].run
	}
	defer func() { // whatever happens, let them go
		for _, m := range ms {
			select {
			case <-m.gate:
			default:
				close(m.gate)
			}
		}
	}()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	returned := make(chan result, 1)
	panicked := make(chan any, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				panicked <- p
			}
		}()
		returned <- sc.call(ctx, gm)
	}()

	var got *result
	poll := func() {
		leak.Quiet(t, sc.String())
		select {
		case r := <-returned:
			got = &r
		case p := <-panicked:
			t.Fatalf("%v: panic: %v", sc, p)
		default:
		}
	}

	// the oracle's state
	completed := make([]bool, n)
	failed := make([]error, n)
	var firstErr error
	errs, oks, count := 0, 0, 0
	winner := -1
	decided, failure := false, false
	budget := map[strategy]int{all: 0, unspecified: 0, most: n / 2, anyOf: n - 1, upTo: sc.budget}[sc.s]
	parentEnded := false
	ambiguous := false // several members ended at once
	observe := func(i int, err error) {
		completed[i] = true
		failed[i] = err
		count++
		if err != nil {
			errs++
			if firstErr == nil {
				firstErr = err
			}
		} else {
			oks++
		}
		if decided {
			return
		}
		switch sc.s {
		case one, fast:
			if err == nil {
				decided, winner = true, i
			} else if errs == n {
				decided, failure = true, true
			}
		case race:
			decided, winner, failure = true, i, err != nil
		default:
			if errs > budget {
				decided, failure = true, true
			}
		}
	}
	// sync takes in what ended by itself
	sync := func() {
		if sc.s == one { // one after the other
			for i, m := range ms {
				if e, byCtx := m.done(); e && !completed[i] {
					var err error
					if byCtx {
						err = m.ctxErr()
					} else if m.out.failed() {
						err = m.err
					}
					observe(i, err)
				}
			}
			return
		}
		ended := 0
		for i, m := range ms {
			if e, byCtx := m.done(); e && byCtx && !completed[i] {
				ended++
				observe(i, m.ctxErr())
			}
		}
		if ended > 1 {
			ambiguous = true
		}
	}
	check := func(when string) {
		poll()
		sync()
		// who has been started
		for i, m := range ms {
			want := 1
			if sc.s == one {
				// one at a time, in order
				want = 0
				if i == 0 || completed[i-1] && failed[i-1] != nil {
					want = 1
				}
				for j := 0; j < i; j++ {
					if completed[j] && failed[j] == nil {
						want = 0
					}
				}
				if parentEnded && m.started() <= 1 && i > 0 {
					continue // whether to carry on once the caller gave up isn't specified
				}
			}
			if m.started() != want {
				t.Fatalf("%v: %s, member %d was started %d times, want %d", sc, when, i, m.started(), want)
			}
		}
		// the others are cancelled once, and only once, the outcome is decided
		for i, m := range ms {
			if completed[i] || m.started() == 0 {
				continue
			}
			wantEnded := decided || parentEnded
			if (m.ctxErr() != nil) != wantEnded {
				t.Fatalf("%v: %s, decided=%v, member %d's context: %v", sc, when, decided, i, m.ctxErr())
			}
		}
		// whether the call has returned
		must := count == n
		may := must
		switch sc.s {
		case one, fast, race:
			must = must || decided
			may = must || parentEnded
		}
		if must && got == nil {
			t.Fatalf("%v: %s, the call hasn't returned", sc, when)
		}
		if !may && got != nil {
			t.Fatalf("%v: %s, the call returned early: %v", sc, when, got.err)
		}
	}

	check("at the start")
	for k, i := range sc.order {
		if k == sc.cancel {
			cancel()
			parentEnded = true
			check(fmt.Sprintf("after the caller's context ended, before release %d", k))
		}
		if completed[i] || ms[i].started() == 0 && sc.s != one {
			continue
		}
		// release a member; a member of One may be released before it is started
		close(ms[i].gate)
		if sc.s != one {
			var err error
			if ms[i].out.failed() {
				err = ms[i].err
			}
			observe(i, err)
		}
		check(fmt.Sprintf("after releasing %v", sc.order[:k+1]))
	}
	if sc.cancel >= len(sc.order) {
		cancel()
		parentEnded = true
	}
	vkit.Within(t, sc.String()+": the call returns", func() {
		for got == nil {
			leak.Quiet(t, sc.String())
			select {
			case r := <-returned:
				got = &r
			case p := <-panicked:
				t.Fatalf("%v: panic: %v", sc, p)
			}
		}
	})
	sc.judge(t, ms, *got, completed, failed, firstErr, winner, failure, decided, parentEnded, ambiguous, budget)
	for _, m := range ms {
		select {
		case <-m.gate:
		default:
			close(m.gate)
		}
	}
	leak.Wait(t, sc.String())
}

func (sc scenario) judge(t vkit.Fataler, ms []*member, got result, completed []bool, failed []error, firstErr error, winner int, failure, decided, parentEnded, ambiguous bool, budget int) {
	n := len(ms)
	single := sc.s == one || sc.s == fast || sc.s == race
	if n == 0 {
		switch sc.s {
		case one, fast, race: // an error or none, the contract doesn't say
		case upTo:
			if (got.err != nil) && sc.budget >= 0 {
				t.Fatalf("%v: no members, error %v", sc, got.err)
			}
		default:
			if got.err != nil {
				t.Fatalf("%v: no members, error %v", sc, got.err)
			}
		}
		for _, m := range got.res {
			t.Fatalf("%v: no members, result %v", sc, m)
		}
		if got.msg != nil {
			t.Fatalf("%v: no members, result %v", sc, got.msg)
		}
		return
	}
	if single && parentEnded && !decided {
		// it may have given up with the caller's context
		if got.err == nil {
			t.Fatalf("%v: success though no member succeeded", sc)
		}
		return
	}
	if ambiguous && sc.s == race && !(winner >= 0 && !errors.Is(failed[winner], context.Canceled)) {
		// any of those that ended together
		if got.err == nil {
			t.Fatalf("%v: success though the members failed", sc)
		}
		return
	}
	if failure != (got.err != nil) {
		t.Fatalf("%v: error %v, want one: %v", sc, got.err, failure)
	}
	if failure {
		want := firstErr
		if sc.s == one {
			want = failed[0]
		}
		if !errors.Is(got.err, want) && !(ambiguous && errors.Is(got.err, context.Canceled)) {
			t.Fatalf("%v: error %v, want the first one observed, %v", sc, got.err, want)
		}
	}
	own := func(i int) proto.Message {
		if ms[i].out == ok || ms[i].out == failMsg {
			return ms[i].msg
		}
		return nil
	}
	if single {
		if got.res == nil {
			if winner >= 0 {
				if got.i != winner {
					t.Fatalf("%v: index %d, want %d", sc, got.i, winner)
				}
				if got.msg != own(winner) && !(failure && got.msg == nil) {
					t.Fatalf("%v: result %v, want that of member %d", sc, got.msg, winner)
				}
			} else if got.msg != nil {
				t.Fatalf("%v: result %v though all failed", sc, got.msg)
			}
			return
		}
		if len(got.res) != n {
			t.Fatalf("%v: %d results for %d members", sc, len(got.res), n)
		}
		for i, m := range got.res {
			switch {
			case i == winner && !failure && m != own(i):
				t.Fatalf("%v: result %d is %v, want its own", sc, i, m)
			case i != winner && m != nil:
				t.Fatalf("%v: result %d is %v, want only that of member %d", sc, i, m, winner)
			case m != nil && m != own(i):
				t.Fatalf("%v: result %d is %v, not its own", sc, i, m)
			}
		}
		return
	}
	if len(got.res) != n {
		t.Fatalf("%v: %d results for %d members", sc, len(got.res), n)
	}
	for i, m := range got.res {
		if failed[i] == nil && m != own(i) {
			t.Fatalf("%v: result %d is %v, want its own", sc, i, m)
		}
		if m != nil && m != own(i) {
			t.Fatalf("%v: result %d is %v, not its own", sc, i, m)
		}
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append(append(append([]int{}, p[:k]...), n-1), p[k:]...)
			out = append(out, q)
		}
	}
	return out
}

func (sc scenario) count() {
	vkit.Eval()
	f := 0
	for _, o := range sc.outs {
		if o.failed() {
			f++
		}
	}
	vkit.Class("%v", sc.s)
	if f > 0 && f < len(sc.outs) || len(sc.outs) == 0 {
		vkit.Nontrivial(sc.String())
	}
}

// TestExhaustive runs every strategy, assignment and completion order for up to four members.
func TestExhaustive(t *testing.T) {
	max := 4
	if vkit.Thorough() {
		max = 5
	}
	for n := 0; n <= max; n++ {
		perms := permutations(n)
		for bits := 0; bits < 1<<n; bits++ {
			outs := make([]outcome, n)
			for i := range outs {
				if bits&(1<<i) != 0 {
					outs[i] = fail
				}
			}
			for _, order := range perms {
				for s := all; s < nStrategies; s++ {
					direct := []bool{false, true}
					if s == upTo {
						direct = []bool{true}
					}
					for _, d := range direct {
						budgets := []int{0}
						if s == upTo {
							budgets = []int{1, n}
						}
						for _, b := range budgets {
							sc := scenario{s: s, direct: d, budget: b, outs: outs, aware: make([]bool, n), order: order, cancel: -1}
							sc.count()
							sc.run(t)
						}
					}
				}
			}
		}
	}
}

// TestRandom adds more members, members that follow their context, and callers that give up.
func TestRandom(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 40000), func(t *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(t, "members")
		sc := scenario{s: strategy(rapid.IntRange(0, int(nStrategies)-1).Draw(t, "strategy")), direct: rapid.Bool().Draw(t, "direct"), cancel: -1}
		sc.budget = rapid.IntRange(0, n+1).Draw(t, "budget")
		for i := 0; i < n; i++ {
			sc.outs = append(sc.outs, outcome(rapid.IntRange(0, int(nOutcomes)-1).Draw(t, "outcome")))
			sc.aware = append(sc.aware, rapid.Bool().Draw(t, "aware"))
			sc.order = append(sc.order, i)
		}
		if n > 0 {
			sc.order = rapid.Permutation(sc.order).Draw(t, "order")
		}
		if rapid.IntRange(0, 3).Draw(t, "give up") == 0 {
			sc.cancel = rapid.IntRange(0, n).Draw(t, "cancel at")
		}
		sc.count()
		sc.run(t)
	})
}

// TestFree runs groups whose members end whenever they like.
func TestFree(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 40000), func(t *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(t, "members")
		sc := scenario{s: strategy(rapid.IntRange(0, int(nStrategies)-1).Draw(t, "strategy")), direct: rapid.Bool().Draw(t, "direct"), cancel: -1}
		sc.budget = rapid.IntRange(0, n).Draw(t, "budget")
		var ms []*member
		var gm []group.Member
		fails := 0
		for i := 0; i < n; i++ {
			o := outcome(rapid.IntRange(0, int(nOutcomes)-1).Draw(t, "outcome"))
			if o.failed() {
				fails++
			}
			sc.outs = append(sc.outs, o)
			sc.aware = append(sc.aware, false)
			ms = append(ms, &member{i: i, out: o, fastest: true, msg: &testproto.ForeignMessage{C: int32(i + 1)}, err: fmt.Errorf("member %d failed", i)})
			gm = append(gm, ms[i].run)
		}
		sc.count()
		leak := vkit.LeakBaseline()
		var got result
		vkit.Within(t, sc.String(), func() {
			vkit.NoPanic(t, sc.String(), func() { got = sc.call(context.Background(), gm) })
		})
		leak.Wait(t, sc.String())
		if n == 0 {
			return
		}
		var wantFail bool
		switch sc.s {
		case all, unspecified:
			wantFail = fails > 0
		case most:
			wantFail = 2*fails > n
		case anyOf, one, fast:
			wantFail = fails == n
		case upTo:
			wantFail = fails > sc.budget
		case race:
			wantFail = got.err != nil
			if fails == 0 && wantFail || fails == n && !wantFail {
				t.Fatalf("%v: error %v", sc, got.err)
			}
		}
		if wantFail != (got.err != nil) {
			t.Fatalf("%v: error %v, want one: %v", sc, got.err, wantFail)
		}
		if got.err != nil {
			found := false
			for _, m := range ms {
				found = found || m.out.failed() && errors.Is(got.err, m.err)
			}
			if !found {
				t.Fatalf("%v: error %v is of no member", sc, got.err)
			}
		}
		for i, m := range got.res {
			if m != nil && m != proto.Message(ms[i].msg) {
				t.Fatalf("%v: result %d is %v", sc, i, m)
			}
		}
		if got.err == nil && got.res == nil && (ms[got.i].out.failed() || ms[got.i].out == ok && got.msg != proto.Message(ms[got.i].msg)) {
			t.Fatalf("%v: result of %d: %v", sc, got.i, got.msg)
		}
	})
}
