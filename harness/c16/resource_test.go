package c16

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// step is one committed write: the item before and after, nil means absent.
type step struct {
	id       string
	old, new proto.Message
}

// event is what a subscriber gets.
type event struct {
	id  string
	typ types.ChangeType
	val proto.Message
}

func (e event) String() string { return fmt.Sprintf("%s %v %s", e.id, e.typ, show(e.val)) }

type sub struct {
	name      string
	mask      *fieldmaskpb.FieldMask
	only      bool // updates only
	lossy     bool
	pullID    string
	odd       *bool // include items with an odd (even) rendering
	held      map[string]proto.Message
	known     map[string]bool
	from      int // steps before this one are part of the seed
	seed      []event
	mu        sync.Mutex
	got       []event
	done      chan struct{}
	mustCount int
}

func (s *sub) includes(m proto.Message) bool {
	if m == nil {
		return false
	}
	return s.odd == nil || len(vkit.Text(m))%2 == 1 == *s.odd
}

func (s *sub) project(m proto.Message) proto.Message {
	if s.mask == nil || m == nil {
		return m
	}
	return vkit.Project(m, s.mask)
}

func (s *sub) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

// hyp is a hypothesis of what the subscriber holds after some events.
type hyp struct {
	held map[string]proto.Message
	n    int // events explained
}

func with(m map[string]proto.Message, id string, v proto.Message) map[string]proto.Message {
	out := map[string]proto.Message{}
	for k, x := range m {
		out[k] = x
	}
	if v == nil {
		delete(out, id)
	} else {
		out[id] = v
	}
	return out
}

// explain matches the events after the seed with the steps. Only the first update of an item the subscriber was
// not told about can go either way when it is equivalent to what there was.
func (s *sub) explain(got []event, steps []step, eq cmp.Message) string {
	hyps := []hyp{{held: map[string]proto.Message{}}}
	for _, e := range s.seed {
		if len(got) == 0 || got[0].String() != e.String() {
			return fmt.Sprintf("the seed should have %v", e)
		}
		hyps[0].held[e.id] = e.val
		got = got[1:]
	}
	for i, st := range steps {
		if s.pullID != "" && s.pullID != st.id {
			continue
		}
		a, b := s.includes(st.old), s.includes(st.new)
		var next []hyp
		var want []string
		for _, h := range hyps {
			deliver := func(e event) {
				want = append(want, e.String())
				if h.n < len(got) && got[h.n].String() == e.String() {
					next = append(next, hyp{with(h.held, e.id, e.val), h.n + 1})
				}
			}
			suppress := func(now proto.Message) {
				want = append(want, "nothing")
				next = append(next, hyp{with(h.held, st.id, now), h.n})
			}
			switch {
			case !a && !b:
				suppress(nil)
			case !a && b:
				deliver(event{st.id, types.ChangeType_ADD, s.project(st.new)})
			case a && !b:
				if s.pullID != "" {
					suppress(nil)
				} else {
					deliver(event{id: st.id, typ: types.ChangeType_REMOVE})
				}
			default:
				e := event{st.id, types.ChangeType_UPDATE, s.project(st.new)}
				held, known := h.held[st.id]
				switch {
				case known && eq(held, e.val):
					suppress(held)
				case !known && eq(s.project(st.old), e.val):
					suppress(s.project(st.old))
					deliver(e)
				default:
					deliver(e)
				}
			}
		}
		if len(next) == 0 {
			at := "nothing"
			if n := hyps[0].n; n < len(got) {
				at = got[n].String()
			}
			return fmt.Sprintf("write %d should lead to %s, got %s", i, strings.Join(want, " or "), at)
		}
		hyps = next
	}
	for _, h := range hyps {
		if h.n == len(got) {
			return ""
		}
	}
	return fmt.Sprintf("an extra event %s", got[hyps[0].n])
}

// min is the least number of events after the steps.
func (s *sub) min(steps []step, eq cmp.Message) int {
	hyps := []hyp{{map[string]proto.Message{}, len(s.seed)}}
	for _, e := range s.seed {
		hyps[0].held[e.id] = e.val
	}
	for _, st := range steps {
		if s.pullID != "" && s.pullID != st.id {
			continue
		}
		a, b := s.includes(st.old), s.includes(st.new)
		now := s.project(st.new)
		var next []hyp
		for _, h := range hyps {
			deliver := hyp{with(h.held, st.id, now), h.n + 1}
			held, known := h.held[st.id]
			if !known {
				held = s.project(st.old)
			}
			switch {
			case !a && !b:
				next = append(next, h)
			case !a && b:
				next = append(next, deliver)
			case a && !b:
				deliver.held = with(h.held, st.id, nil)
				if s.pullID != "" {
					deliver.n--
				}
				next = append(next, deliver)
			case !eq(held, now):
				next = append(next, deliver)
			default:
				next = append(next, hyp{with(h.held, st.id, held), h.n})
				if !known {
					next = append(next, deliver)
				}
			}
		}
		hyps = next
	}
	n := hyps[0].n
	for _, h := range hyps {
		n = min(n, h.n)
	}
	return n
}

// TestResource: subscribers of a resource with an equivalence.
func TestResource(t *testing.T) {
	vkit.Check(t, vkit.N(4000, 80000), func(t *rapid.T) {
		g := vkit.MsgGen{MaxFields: 3, MaxDepth: 2, Unknown: true}
		base := vkit.GenSubject(t, append(append([]protoreflect.MessageType{}, well...), all...), g)
		pool := []proto.Message{base.Msg(t, "base")}
		var ds []time.Duration
		var fs []float64
		for i := 0; i < 4; i++ {
			m := proto.Clone(pool[rapid.IntRange(0, len(pool)-1).Draw(t, "from")])
			mutate(t, m, g)
			diffs(pool[0].ProtoReflect(), m.ProtoReflect(), &ds, &fs)
			pool = append(pool, m)
		}
		var vs []cmp.Value
		var names []string
		for i := rapid.IntRange(0, 2).Draw(t, "comparers"); i > 0; i-- {
			e := genExpr(t, ds, fs, 1)
			vs = append(vs, e.v)
			names = append(names, e.name)
		}
		eq := cmp.Equal(vs...)
		opt := resource.WithMessageEquivalence(eq)
		if len(vs) == 0 && rapid.Bool().Draw(t, "noDuplicates") {
			opt = resource.WithNoDuplicates()
		}
		collection := rapid.Bool().Draw(t, "collection")
		state := map[string]proto.Message{}
		var v *resource.Value
		var c *resource.Collection
		if collection {
			c = resource.NewCollection(opt)
		} else {
			opts := []resource.Option{opt}
			if rapid.IntRange(0, 3).Draw(t, "initial") > 0 {
				state[""] = proto.Clone(pool[0])
				opts = append(opts, resource.WithInitialValue(pool[0]))
			}
			v = resource.NewValue(opts...)
		}
		log := []string{fmt.Sprintf("equivalence %v", names)}
		ctx, cancel := context.WithCancel(context.Background())
		var subs []*sub
		defer func() {
			cancel()
			for _, s := range subs {
				<-s.done
			}
		}()
		var steps []step
		fail := func(format string, args ...any) {
			for _, s := range subs {
				s.mu.Lock()
				log = append(log, fmt.Sprintf("%s got %v", s.name, s.got))
				s.mu.Unlock()
			}
			t.Fatalf("%s\n%s", strings.Join(log, "\n"), fmt.Sprintf(format, args...))
		}
		wait := func(s *sub, n int) {
			deadline := time.Now().Add(5 * time.Second)
			for i := 0; s.count() < n; i++ {
				if i > 100 {
					time.Sleep(20 * time.Microsecond)
				}
				if time.Now().After(deadline) {
					fail("%s should have %d events: %s", s.name, n, s.explain(s.got, steps[s.from:], eq))
				}
			}
		}
		subscribe := func() {
			s := &sub{name: fmt.Sprintf("subscriber %d", len(subs)), from: len(steps), done: make(chan struct{})}
			var opts []resource.ReadOption
			if rapid.IntRange(0, 2).Draw(t, "mask") == 0 {
				s.mask = base.Mask(t, "mask")
				opts = append(opts, resource.WithReadMask(s.mask))
			}
			s.lossy = rapid.Bool().Draw(t, "lossy")
			opts = append(opts, resource.WithBackpressure(!s.lossy))
			if !s.lossy && rapid.IntRange(0, 2).Draw(t, "only") == 0 {
				s.only = true
				opts = append(opts, resource.WithUpdatesOnly(true))
			}
			if collection && rapid.IntRange(0, 3).Draw(t, "include") == 0 {
				odd := rapid.Bool().Draw(t, "odd")
				s.odd = &odd
				opts = append(opts, resource.WithInclude(func(_ string, m proto.Message) bool { return s.includes(m) }))
			}
			got := func(e event) {
				s.mu.Lock()
				defer s.mu.Unlock()
				s.got = append(s.got, e)
			}
			for _, id := range []string{"", "a", "b"} {
				if m := state[id]; !s.only && s.includes(m) {
					s.seed = append(s.seed, event{id, types.ChangeType_ADD, s.project(m)})
				}
			}
			if !collection {
				ch := v.Pull(ctx, opts...)
				first := true // the first value a subscriber gets is new to it
				if s.only && state[""] != nil {
					first = false
				}
				go func() {
					defer close(s.done)
					for e := range ch {
						typ := types.ChangeType_UPDATE
						if first {
							typ = types.ChangeType_ADD
						}
						first = false
						got(event{"", typ, e.Value})
					}
				}()
			} else {
				ch := c.Pull(ctx, opts...)
				go func() {
					defer close(s.done)
					for e := range ch {
						got(event{e.Id, e.ChangeType, e.NewValue})
					}
				}()
			}
			log = append(log, fmt.Sprintf("%s: mask %s only %v lossy %v include %v", s.name, vkit.MaskText(s.mask), s.only, s.lossy, s.odd))
			subs = append(subs, s)
			wait(s, len(s.seed))
		}
		commit := func(id string, m proto.Message) {
			log = append(log, fmt.Sprintf("write %d: %q = %s", len(steps), id, show(m)))
			steps = append(steps, step{id, state[id], m})
			if m == nil {
				delete(state, id)
			} else {
				state[id] = m
			}
			for _, s := range subs {
				if s.lossy { // keep up
					wait(s, s.min(steps[s.from:], eq))
				}
			}
		}
		write := func(id string, m proto.Message) {
			var err error
			switch {
			case v != nil:
				_, err = v.Set(m)
			case m == nil:
				_, err = c.Delete(id)
			case state[id] == nil && rapid.Bool().Draw(t, "add"):
				_, err = c.Add(id, m)
			default:
				_, err = c.Update(id, m, resource.WithCreateIfAbsent())
			}
			if err != nil {
				fail("write %q %s: %v", id, show(m), err)
			}
			commit(id, proto.Clone(m))
		}
		for i := rapid.IntRange(3, 14).Draw(t, "writes"); i > 0; i-- {
			if len(subs) == 0 || len(subs) < 3 && rapid.IntRange(0, 5).Draw(t, "subscribe") == 0 {
				subscribe()
			}
			id := ""
			if collection {
				id = rapid.SampledFrom([]string{"a", "b"}).Draw(t, "id")
			}
			if collection && state[id] != nil && rapid.IntRange(0, 5).Draw(t, "delete") == 0 {
				write(id, nil)
				continue
			}
			from := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "value")]
			m := proto.Clone(from)
			if rapid.IntRange(0, 3).Draw(t, "mutate") == 0 {
				mutate(t, m, g)
			}
			write(id, m)
		}
		// everything that is going to be delivered is when the last event is there
		suppressed, delivered := 0, 0
		for _, s := range subs {
			wait(s, s.min(steps[s.from:], eq))
		}
		for k := 0; k < 3; k++ { // give what shouldn't come a chance to
			time.Sleep(30 * time.Microsecond)
		}
		for _, s := range subs {
			var got []event
			deadline := time.Now().Add(5 * time.Second)
			for {
				s.mu.Lock()
				got = append([]event{}, s.got...)
				s.mu.Unlock()
				why := s.explain(got, steps[s.from:], eq)
				if why == "" {
					break
				}
				if len(got) > 0 && s.count() > len(got) {
					continue
				}
				if time.Now().After(deadline) {
					fail("%s: %s", s.name, why)
				}
				time.Sleep(time.Millisecond)
			}
			delivered += len(got) - len(s.seed)
			suppressed += len(steps) - s.from - (len(got) - len(s.seed))
		}
		if suppressed > 0 && delivered > 0 {
			vkit.Nontrivial(strings.Join(log, ";"))
			vkit.Class("resource with %d tolerances, collection %v", len(vs), collection)
		}
	})
}
