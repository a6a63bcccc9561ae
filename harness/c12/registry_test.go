package c12

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/router"
)

// cl is a client in tests of the registry.
type cl struct {
	id    int
	maker string // name of the factory call that made it, "" if it was added
}

func (c *cl) String() string {
	if c == nil {
		return "nil"
	}
	return fmt.Sprintf("#%d%s", c.id, c.maker)
}

func show(v any) string {
	if c, ok := v.(*cl); ok {
		return c.String()
	}
	return fmt.Sprint(v)
}

func showChange(c router.Change) string {
	s := fmt.Sprintf("%q: %s -> %s", c.Name, show(c.Old), show(c.New))
	if c.Auto {
		s += " auto"
	}
	return s
}

// nested is an operation done inside a callback.
type nested struct {
	kind, name string
}

// TestRegistry compares the registry with a map, with operations inside the factory, fallback and change callbacks.
func TestRegistry(t *testing.T) {
	vkit.Check(t, vkit.N(60000, 2000000), func(t *rapid.T) {
		var (
			r      router.Router
			state  = map[string]any{}
			log    []router.Change // as reported
			want   []router.Change // as they should be
			nextID int
			depth  int
			trace  []string
			deep   int // nested operations done
		)
		fresh := func(maker string) *cl { nextID++; return &cl{id: nextID, maker: maker} }
		note := func(format string, args ...any) { trace = append(trace, fmt.Sprintf(format, args...)) }
		fail := func(format string, args ...any) {
			t.Fatalf("%s\nafter:\n%s", fmt.Sprintf(format, args...), strings.Join(trace, "\n"))
		}
		var do func(kind, name string)
		maybeNested := func(where, name string) {
			if depth >= 2 || rapid.IntRange(0, 3).Draw(t, "nested") != 0 {
				return
			}
			depth++
			deep++
			note("(in %s %q:", where, name)
			n := name
			if rapid.IntRange(0, 2).Draw(t, "other name") == 0 {
				n = rapid.SampledFrom([]string{"a", "b", ""}).Draw(t, "nested name")
			}
			do(rapid.SampledFrom([]string{"add", "add", "remove", "has", "get"}).Draw(t, "nested op"), n)
			note(")")
			depth--
		}
		type answer struct {
			called bool
			ok     bool
			client any
			result any // what the Get is to return
		}
		var lastFallback, lastFactory answer
		supplier := func(where string, last *answer) router.Factory {
			return func(name string) (any, error) {
				maybeNested(where, name)
				a := answer{called: true}
				var err error
				switch rapid.IntRange(0, 5).Draw(t, where) {
				case 0:
					err = errors.New("no")
				case 1:
					err = status.Error(codes.Unavailable, "no")
					a.client = fresh(where)
				case 2:
				default:
					a.client = fresh(where)
					a.ok = true
				}
				note("%s(%q) = %s, %v", where, name, show(a.client), err)
				if where == "factory" && a.ok {
					// it is remembered, unless there is one by now
					if state[name] == nil {
						state[name] = a.client
						want = append(want, router.Change{Name: name, New: a.client, Auto: true})
					}
					a.result = state[name]
				}
				*last = a
				if c := a.client; c != nil {
					return c, err
				}
				return nil, err
			}
		}
		var opts []router.Option
		hasFallback := rapid.Bool().Draw(t, "with fallback")
		hasFactory := rapid.IntRange(0, 3).Draw(t, "with factory") > 0
		hasChange := rapid.IntRange(0, 3).Draw(t, "with change callback") > 0
		if hasFallback {
			opts = append(opts, router.WithFallback(supplier("fallback", &lastFallback)))
		}
		if hasFactory {
			opts = append(opts, router.WithFactory(supplier("factory", &lastFactory)))
		}
		if hasChange {
			opts = append(opts, router.WithOnChange(func(c router.Change) {
				log = append(log, c)
				note("change %s", showChange(c))
				// the change has happened
				if got := r.Has(c.Name); got != (state[c.Name] != nil) {
					fail("inside the callback of %s, Has(%q) = %v", showChange(c), c.Name, got)
				}
				maybeNested("change", c.Name)
			}))
		}
		r = router.NewRouter(opts...)
		do = func(kind, name string) {
			switch kind {
			case "add":
				c := fresh("")
				old := state[name]
				note("Add(%q, %s)", name, show(c))
				state[name] = c
				want = append(want, router.Change{Name: name, Old: old, New: c})
				if got := r.Add(name, c); got != old {
					fail("Add(%q) returned %s, want %s", name, show(got), show(old))
				}
			case "remove":
				old := state[name]
				note("Remove(%q)", name)
				delete(state, name)
				if old != nil {
					want = append(want, router.Change{Name: name, Old: old})
				}
				if got := r.Remove(name); got != old {
					fail("Remove(%q) returned %s, want %s", name, show(got), show(old))
				}
			case "has":
				if got := r.Has(name); got != (state[name] != nil) {
					fail("Has(%q) = %v, registered: %s", name, got, show(state[name]))
				}
			case "get":
				note("Get(%q)", name)
				before := state[name]
				if before != nil {
					seen := len(want)
					got, err := r.Get(name)
					if got != before || err != nil {
						fail("Get(%q) = %s, %v, registered: %s", name, show(got), err, show(before))
					}
					if len(want) != seen {
						fail("Get(%q) of a registered name asked for a client", name)
					}
					return
				}
				outerFallback, outerFactory := lastFallback, lastFactory
				lastFallback, lastFactory = answer{}, answer{}
				seen := len(want)
				got, err := r.Get(name)
				fb, fa := lastFallback, lastFactory
				lastFallback, lastFactory = outerFallback, outerFactory
				if hasFallback && !fb.called {
					fail("Get(%q) of an unknown name did not ask the fallback", name)
				}
				touched := false
				for _, c := range want[seen:] {
					touched = touched || c.Name == name
				}
				switch {
				case fb.ok:
					if fa.called {
						fail("Get(%q) asked the factory though the fallback had a client", name)
					}
					if got != fb.client && !(touched && got == state[name]) {
						fail("Get(%q) = %s, %v, want %s of the fallback", name, show(got), err, show(fb.client))
					}
					if err != nil {
						fail("Get(%q) of the fallback's client: %v", name, err)
					}
				case fa.ok:
					if err != nil {
						fail("Get(%q) of the factory's client: %v", name, err)
					}
					if got != fa.result {
						fail("Get(%q) = %s, want %s", name, show(got), show(fa.result))
					}
				default:
					if hasFactory && !fa.called && !touched {
						fail("Get(%q) of an unknown name did not ask the factory", name)
					}
					if touched && got != nil && err == nil {
						return // added meanwhile
					}
					if got != nil || status.Code(err) != codes.NotFound {
						fail("Get(%q) = %s, %v, want NotFound", name, show(got), err)
					}
				}
			}
		}
		n := rapid.IntRange(1, 12).Draw(t, "steps")
		for i := 0; i < n; i++ {
			do(rapid.SampledFrom([]string{"add", "remove", "has", "get", "get", "get"}).Draw(t, "op"),
				rapid.SampledFrom([]string{"a", "b", "", "c"}).Draw(t, "name"))
			for _, n := range []string{"a", "b", "", "c"} {
				do("has", n)
				if state[n] != nil {
					if got, err := r.Get(n); got != state[n] || err != nil {
						fail("Get(%q) = %s, %v, registered: %s", n, show(got), err, show(state[n]))
					}
				}
			}
			if hasChange {
				if len(log) != len(want) {
					fail("%d changes were reported, want %d", len(log), len(want))
				}
				for i := range log {
					if log[i] != want[i] {
						fail("change %d was reported as %s, want %s", i, showChange(log[i]), showChange(want[i]))
					}
				}
			}
		}
		vkit.Class("%d nested", min(deep, 3))
		if len(want) > 1 {
			vkit.Nontrivial(strings.Join(trace, "\n"))
		}
	})
}

// TestRegistryConcurrent: gets, adds and removes of one name meet inside the factory or the fallback.
// What each returns, and the changes reported, must be those of some order of the operations.
func TestRegistryConcurrent(t *testing.T) {
	vkit.Check(t, vkit.N(6000, 100000), func(t *rapid.T) {
		type step struct {
			kind   string // add remove has get
			wait   bool   // wait for everything to block or finish before the next
			opener bool   // let a blocked factory go on
			which  int
		}
		n := rapid.IntRange(2, 6).Draw(t, "operations")
		steps := make([]step, n)
		for i := range steps {
			steps[i] = step{
				kind:   rapid.SampledFrom([]string{"get", "get", "get", "add", "remove", "has"}).Draw(t, "op"),
				wait:   rapid.IntRange(0, 3).Draw(t, "wait") > 0,
				opener: rapid.Bool().Draw(t, "open"),
				which:  rapid.IntRange(0, 3).Draw(t, "which"),
			}
		}
		blockFallback := rapid.Bool().Draw(t, "fallback blocks")
		forced := rapid.IntRange(0, 4).Draw(t, "forced") > 0
		if !forced {
			for i := range steps {
				steps[i].wait = false
			}
		}

		var mu sync.Mutex
		var gates []chan struct{}
		var log []router.Change
		made := 0
		gate := func() {
			if !forced {
				return
			}
			g := make(chan struct{})
			mu.Lock()
			gates = append(gates, g)
			mu.Unlock()
			<-g
		}
		open := func(i int) bool {
			mu.Lock()
			defer mu.Unlock()
			if len(gates) == 0 {
				return false
			}
			i %= len(gates)
			close(gates[i])
			gates = append(gates[:i:i], gates[i+1:]...)
			return true
		}
		opts := []router.Option{
			router.WithFactory(func(name string) (any, error) {
				gate()
				mu.Lock()
				defer mu.Unlock()
				made++
				return &cl{id: made, maker: "factory"}, nil
			}),
			router.WithOnChange(func(c router.Change) {
				mu.Lock()
				defer mu.Unlock()
				log = append(log, c)
			}),
		}
		if blockFallback {
			opts = append(opts, router.WithFallback(func(name string) (any, error) {
				gate()
				return nil, nil
			}))
		}
		r := router.NewRouter(opts...)
		type event struct {
			kind       string
			arg, ret   any
			start, end int64
		}
		var clock int64
		tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
		events := make([]*event, 0, n)
		leak := vkit.LeakBaseline()
		var wg sync.WaitGroup
		for i, s := range steps {
			e := &event{kind: s.kind, end: 1 << 60}
			events = append(events, e)
			if s.kind == "add" {
				e.arg = &cl{id: 100 + i}
			}
			e.start = tick()
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch e.kind {
				case "add":
					e.ret = r.Add("x", e.arg)
				case "remove":
					e.ret = r.Remove("x")
				case "has":
					e.ret = r.Has("x")
				case "get":
					c, err := r.Get("x")
					e.ret = c
					if err != nil {
						e.ret = err
					}
				}
				e.end = tick()
			}()
			if s.wait {
				leak.Quiet(t, "registry operations")
				if s.opener && open(s.which) {
					leak.Quiet(t, "registry operations")
				}
			}
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		vkit.Within(t, "registry operations", func() {
			for {
				select {
				case <-done:
					return
				default:
				}
				if !open(0) {
					select {
					case <-done:
						return
					case <-timeAfter():
					}
				}
			}
		})
		var text []string
		for _, e := range events {
			text = append(text, fmt.Sprintf("[%d,%d] %s(%s) = %s", e.start, e.end, e.kind, show(e.arg), show(e.ret)))
		}
		var logText []string
		for _, c := range log {
			logText = append(logText, showChange(c))
		}
		sort.Strings(logText)
		wantLog := strings.Join(logText, "; ")
		used := make([]bool, n)
		var final any
		if r.Has("x") {
			final, _ = r.Get("x")
		}
		var search func(left int, state any, committed map[any]bool, changes []string) bool
		search = func(left int, state any, committed map[any]bool, changes []string) bool {
			if left == 0 {
				got := append([]string(nil), changes...)
				sort.Strings(got)
				return state == final && strings.Join(got, "; ") == wantLog
			}
			first := int64(1 << 61)
			for i, e := range events {
				if !used[i] && e.end < first {
					first = e.end
				}
			}
			for i, e := range events {
				if used[i] || e.start > first {
					continue
				}
				next, ch := state, changes
				ok := false
				com := committed
				switch e.kind {
				case "add":
					ok = e.ret == state
					next = e.arg
					ch = append(ch[:len(ch):len(ch)], showChange(router.Change{Name: "x", Old: state, New: e.arg}))
				case "remove":
					ok = e.ret == state
					next = nil
					if state != nil {
						ch = append(ch[:len(ch):len(ch)], showChange(router.Change{Name: "x", Old: state}))
					}
				case "has":
					ok = e.ret == (state != nil)
				case "get":
					if state != nil {
						ok = e.ret == state
						break
					}
					c, isClient := e.ret.(*cl)
					if ok = isClient && c.maker == "factory" && !committed[c]; ok {
						next = c
						com = map[any]bool{c: true}
						for k := range committed {
							com[k] = true
						}
						ch = append(ch[:len(ch):len(ch)], showChange(router.Change{Name: "x", New: c, Auto: true}))
					}
				}
				if !ok {
					continue
				}
				used[i] = true
				if search(left-1, next, com, ch) {
					return true
				}
				used[i] = false
			}
			return false
		}
		if !search(n, nil, map[any]bool{}, nil) {
			t.Fatalf("no order of these explains their results, the changes reported (%s) and %s being registered in the end:\n%s",
				wantLog, show(final), strings.Join(text, "\n"))
		}
		autos := strings.Count(wantLog, "auto")
		vkit.Class("forced=%v, factory clients: %d made, %d committed", forced, min(made, 3), autos)
		if made > 1 || n > 3 {
			vkit.Nontrivial(strings.Join(text, "\n"))
		}
	})
}

func timeAfter() <-chan time.Time { return time.After(50 * time.Microsecond) }
