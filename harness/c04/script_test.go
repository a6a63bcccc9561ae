package c04

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/resmodel"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

// ticking is a clock that never says the same time twice.
type ticking struct {
	mu sync.Mutex
	n  int64
}

func (c *ticking) Now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return time.Unix(1e6, c.n)
}

// span is a range of times: those the clock gave during a call, or the one write time.
type span struct{ from, to time.Time }

func (s span) has(t time.Time) bool { return !t.Before(s.from) && !t.After(s.to) }
func (s span) String() string {
	if s.from.Equal(s.to) {
		return s.from.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%s..%s", s.from.UTC().Format(time.RFC3339Nano), s.to.UTC().Format(time.RFC3339Nano))
}

var (
	sentinel = time.Unix(4e9, 0)
	flushing = time.Unix(3e9, 0)
)

// equivalence is a comparer with a name.
type equivalence struct {
	name string
	fn   func(x, y proto.Message) bool
}

// genEquivalence draws a resource equivalence; some aren't transitive.
func genEquivalence(t *rapid.T, g *resmodel.Source) *equivalence {
	switch rapid.IntRange(0, 5).Draw(t, "eq") {
	case 0, 1:
		return nil
	case 2, 3:
		return &equivalence{"no duplicates", nil}
	case 4:
		f := rapid.SampledFrom(g.Fields).Draw(t, "eq.f")
		return &equivalence{"presence of " + f, func(x, y proto.Message) bool {
			return hasField(x, f) == hasField(y, f)
		}}
	}
	// one field set more or less: near, but not transitive
	return &equivalence{"nearby", func(x, y proto.Message) bool {
		d := nset(x) - nset(y)
		return d >= -1 && d <= 1
	}}
}

func nset(m proto.Message) int {
	if m == nil {
		return -100
	}
	n := 0
	m.ProtoReflect().Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { n++; return true })
	return n
}

func hasField(m proto.Message, name string) bool {
	if m == nil {
		return false
	}
	fd := m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(name))
	return fd != nil && m.ProtoReflect().Has(fd)
}

func (e *equivalence) equal(x, y proto.Message) bool {
	if e.fn == nil {
		return proto.Equal(timeless(x), timeless(y))
	}
	return e.fn(x, y)
}

// timeless is a message without the times of its changes, which don't make a difference when duplicates are left out.
func timeless(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	m = proto.Clone(m)
	var clear func(m protoreflect.Message)
	clear = func(m protoreflect.Message) {
		if fd := m.Descriptor().Fields().ByName("change_time"); fd != nil && m.Descriptor().Name() == "Change" {
			m.Clear(fd)
		}
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsMap():
				if fd.MapValue().Message() != nil {
					v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
						clear(v.Message())
						return true
					})
				}
			case fd.Message() == nil:
			case fd.IsList():
				for i := 0; i < v.List().Len(); i++ {
					clear(v.List().Get(i).Message())
				}
			default:
				clear(v.Message())
			}
			return true
		})
	}
	clear(m.ProtoReflect())
	return m
}

// event is one delivered change.
type event struct {
	id         string
	kind       types.ChangeType
	old, new   proto.Message
	at         time.Time
	seed, last bool
}

func (e event) String() string {
	return fmt.Sprintf("%s %q %s -> %s at %s seed=%v last=%v", e.kind, e.id, txt(e.old), txt(e.new), e.at.UTC().Format(time.RFC3339Nano), e.seed, e.last)
}

func txt(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	return vkit.Text(m)
}

// want is what the writer's log says about one event.
type want struct {
	event
	at span
	// may: whether the event is delivered is open (nothing the subscriber holds to compare with)
	may  bool
	olds []proto.Message // acceptable old values
}

func (w want) String() string {
	return fmt.Sprintf("%s %q %s -> %s at %s seed=%v last=%v optional=%v", w.kind, w.id, txt(w.old), txt(w.new), w.at, w.seed, w.last, w.may)
}

// sub is one subscriber with what it should receive.
type sub struct {
	name   string
	mask   *fieldmaskpb.FieldMask
	only   bool
	eq     *equivalence
	value  bool // of a Value or one item
	pullID string
	key    string
	closed bool // the item was removed

	held  map[string]proto.Message // what the subscriber holds, projected
	bases map[string][]proto.Message
	wants []want

	cancel context.CancelFunc
	mu     sync.Mutex
	got    []event
	done   chan struct{}
	ended  bool // channel closed before the sentinel
}

func (s *sub) collect(next func() (event, bool)) {
	s.done = make(chan struct{})
	go func() {
		defer close(s.done)
		for {
			e, ok := next()
			if !ok {
				s.mu.Lock()
				s.ended = true
				s.mu.Unlock()
				return
			}
			if e.at.Equal(sentinel) {
				go func() {
					for ok := true; ok; {
						_, ok = next() // keep out of the way of the others
					}
				}()
				return
			}
			s.mu.Lock()
			s.got = append(s.got, e)
			s.mu.Unlock()
		}
	}()
}

func (s *sub) readOptions() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithBackpressure(true)}
	if s.only {
		o = append(o, resource.WithUpdatesOnly(true))
	}
	if s.mask != nil {
		o = append(o, resource.WithReadMask(s.mask))
	}
	return o
}

func newSub(t *rapid.T, g *resmodel.Source, eq *equivalence, n int) *sub {
	s := &sub{eq: eq, held: map[string]proto.Message{}, bases: map[string][]proto.Message{}}
	s.only = rapid.IntRange(0, 2).Draw(t, "updatesonly") == 0
	if rapid.IntRange(0, 2).Draw(t, "mask?") == 0 {
		s.mask = g.S.Mask(t, "mask", g.Values...)
	}
	s.name = fmt.Sprintf("subscriber %d (updates-only=%v mask=%s", n, s.only, vkit.MaskText(s.mask))
	return s
}

func fromValue(ch <-chan *resource.ValueChange, key string) func() (event, bool) {
	return func() (event, bool) {
		e, ok := <-ch
		if !ok {
			return event{}, false
		}
		return event{id: key, new: e.Value, at: e.ChangeTime, seed: e.SeedValue, last: e.LastSeedValue}, true
	}
}

func fromCollection(ch <-chan *resource.CollectionChange) func() (event, bool) {
	return func() (event, bool) {
		e, ok := <-ch
		if !ok {
			return event{}, false
		}
		return event{e.Id, e.ChangeType, e.OldValue, e.NewValue, e.ChangeTime, e.SeedValue, e.LastSeedValue}, true
	}
}

func (s *sub) view(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	return resmodel.View(m, s.mask)
}

// seed says what the subscriber is sent first.
func (s *sub) seed(st resmodel.State, at map[string]span) {
	if s.only {
		return
	}
	var keys []string
	for _, k := range st.Keys() {
		if st.Items[k] != nil && (s.pullID == "" || k == s.key) {
			keys = append(keys, k)
		}
	}
	for i, k := range keys {
		kind := types.ChangeType_ADD
		if s.value {
			kind = 0
		}
		s.wants = append(s.wants, want{event: event{id: k, kind: kind, new: s.view(st.Items[k]), seed: true, last: i == len(keys)-1}, at: at[k]})
		s.held[k] = s.view(st.Items[k])
	}
}

// wrote tells the subscriber's script about a write.
func (s *sub) wrote(e *resmodel.Effect, at span) {
	if s.closed || s.pullID != "" && e.Key != s.key {
		return
	}
	w := want{event: event{id: e.Key, kind: types.ChangeType_UPDATE, old: s.view(e.Old), new: s.view(e.New)}, at: at}
	w.olds = []proto.Message{w.old}
	if h, ok := s.held[e.Key]; ok {
		w.olds = append(w.olds, h)
	} else {
		w.olds = append(w.olds, s.bases[e.Key]...)
	}
	switch {
	case s.value && e.New == nil:
		s.closed = true
		return
	case e.New == nil:
		w.kind = types.ChangeType_REMOVE
		delete(s.held, e.Key)
		delete(s.bases, e.Key)
	case e.Old == nil && !s.value:
		w.kind = types.ChangeType_ADD
		s.held[e.Key] = w.new
		delete(s.bases, e.Key)
	default:
		if s.eq != nil {
			if h, ok := s.held[e.Key]; ok {
				if s.eq.equal(h, w.new) {
					return // suppressed
				}
			} else if e.Old != nil && s.only {
				// nothing was delivered yet, the subscriber may be taken to hold the value at the time it subscribed
				s.bases[e.Key] = append(s.bases[e.Key], w.old)
				for _, b := range s.bases[e.Key] {
					w.may = w.may || s.eq.equal(b, w.new)
				}
			}
		}
		if !w.may {
			s.held[e.Key] = w.new
		}
	}
	if s.value {
		w.kind, w.old, w.olds = 0, nil, nil
	}
	s.wants = append(s.wants, w)
}

func same(a, b proto.Message, mask *fieldmaskpb.FieldMask) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if mask != nil && len(mask.Paths) > 0 {
		trees := []*vkit.PathTree{vkit.MaskTree(mask)}
		a, b = vkit.SimplifyAll(a, trees), vkit.SimplifyAll(b, trees)
	}
	return proto.Equal(a, b)
}

func (s *sub) matches(e event, w want) string {
	switch {
	case e.id != w.id:
		return "wrong id"
	case e.kind != w.kind:
		return "wrong kind"
	case !same(e.new, w.new, s.mask):
		return "wrong new value"
	case e.seed != w.seed:
		return "wrong seed flag"
	case e.last != w.last:
		return "wrong last-seed flag"
	case !w.at.has(e.at):
		return "wrong change time"
	}
	if w.olds != nil {
		for _, o := range w.olds {
			if same(e.old, o, s.mask) {
				return ""
			}
		}
		return "wrong old value"
	}
	if e.old != nil {
		return "has an old value"
	}
	return ""
}

// verify compares what was delivered with the script. The equivalence decisions after an optional event depend on
// whether it was delivered, so the script of an id is followed from there.
func (s *sub) verify(t *rapid.T, log string, times map[string][]time.Time) {
	i := 0
	fail := func(why string, w *want) {
		var b strings.Builder
		for j, e := range s.got {
			m := " "
			if j == i {
				m = ">"
			}
			fmt.Fprintf(&b, "\n %s %s", m, e)
		}
		b.WriteString("\nexpected:")
		for _, w := range s.wants {
			fmt.Fprintf(&b, "\n   %s", w)
		}
		at := ""
		if w != nil {
			at = "\nat expected " + w.String()
		}
		t.Fatalf("%s\n%s: %s%s\nreceived:%s", log, s.name, why, at, b.String())
	}
	for k := range s.wants {
		w := s.wants[k]
		if w.may {
			if i < len(s.got) && s.matches(s.got[i], w) == "" && !s.got[i].seed {
				i++
			}
			continue
		}
		if i >= len(s.got) {
			fail("an event is missing", &w)
		}
		if why := s.matches(s.got[i], w); why != "" {
			fail(why, &w)
		}
		i++
	}
	for ; i < len(s.got); i++ {
		if !s.got[i].at.Equal(flushing) {
			fail("an event that no write explains", nil)
		}
	}
	if s.ended != s.closed {
		fail(fmt.Sprintf("channel closed: %v, want %v", s.ended, s.closed), nil)
	}
	for _, e := range s.got {
		id := e.id
		if e.new != nil && !e.at.Equal(flushing) {
			times[id] = append(times[id], e.at)
		}
	}
}

func TestCollectionScript(t *testing.T) {
	vkit.Check(t, vkit.N(9000, 100000), func(t *rapid.T) {
		g := resmodel.GenSource(t, true, true)
		eq := genEquivalence(t, g)
		clock := &ticking{}
		opts := append(g.C.Options(), resource.WithClock(clock))
		if eq != nil {
			if eq.fn == nil {
				opts = append(opts, resource.WithNoDuplicates())
			} else {
				opts = append(opts, resource.WithEquivalence(resource.ComparerFunc(eq.fn)))
			}
		}
		before := clock.Now()
		c := resource.NewCollection(opts...)
		after := clock.Now()
		st := resmodel.NewState(g.C, true)
		at := map[string]span{}
		for k := range st.Items {
			at[k] = span{before, after}
		}
		log := g.C.String()
		if eq != nil {
			log += " equivalence=" + eq.name
		}
		var subs []*sub
		defer func() {
			for _, s := range subs {
				s.cancel()
			}
		}()
		subscribe := func() {
			s := newSub(t, g, eq, len(subs))
			ctx, cancel := context.WithCancel(context.Background())
			s.cancel = cancel
			if rapid.IntRange(0, 3).Draw(t, "pullid") == 0 {
				s.value = true
				s.pullID = rapid.SampledFrom(g.IDs).Draw(t, "pullid.id")
				s.key = g.C.Map(s.pullID)
				if s.pullID == "" {
					s.pullID = " "
				}
				s.name += fmt.Sprintf(" id=%q", s.key)
				id := s.pullID
				if id == " " {
					id = ""
				}
				s.collect(fromValue(c.PullID(ctx, id, s.readOptions()...), s.key))
			} else {
				s.collect(fromCollection(c.Pull(ctx, s.readOptions()...)))
			}
			s.name += ")"
			s.seed(st, at)
			subs = append(subs, s)
			log += "\n-- " + s.name
		}
		n := rapid.IntRange(1, vkit.N(14, 30)).Draw(t, "ops")
		subAt := map[int]int{}
		for i := rapid.IntRange(1, 3).Draw(t, "subs"); i > 0; i-- {
			subAt[rapid.IntRange(0, n-1).Draw(t, "sub.at")]++
		}
		effects := 0
		var known []string
		for i := 0; i < n; i++ {
			for k := subAt[i]; k > 0; k-- {
				subscribe()
			}
			var vals []proto.Message
			for _, k := range st.Keys() {
				vals = append(vals, st.Items[k])
			}
			o := g.Op(t, true, known, vals)
			if o.Time != nil {
				// unique, in no particular order
				at := time.Unix(int64(rapid.IntRange(0, 1000).Draw(t, "when"))*[]int64{1, 999, 100003}[rapid.IntRange(0, 2).Draw(t, "era")], int64(i))
				o.Time = &at
			}
			log += "\n" + o.String()
			from := clock.Now()
			var res resmodel.Res
			vkit.Within(t, log, func() { res = resmodel.RunCollection(c, o) })
			sp := span{from, clock.Now()}
			if o.Time != nil {
				sp = span{*o.Time, *o.Time}
			}
			next, eff, err := g.C.Step(st, o, res)
			if err != nil {
				t.Skip("not the sequential model") // C01's business
			}
			st = next
			if eff != nil {
				effects++
				if eff.New != nil {
					at[eff.Key] = sp
				} else {
					delete(at, eff.Key)
				}
				for _, s := range subs {
					s.wrote(eff, sp)
				}
				known = append(known, res.IDs...)
				log += "\n      -> " + txt(eff.New) + " at " + sp.String()
			}
		}
		// an item that is added or removed is always announced
		finish := func(id string) {
			if _, ok := st.Items[g.C.Map(id)]; ok {
				_, _ = c.Delete(id, resource.WithWriteTime(sentinel))
				st = remove(st, g.C.Map(id))
			} else {
				_, _ = c.Add(id, g.S.MT.New().Interface(), resource.WithWriteTime(sentinel))
				st = put(st, g.C.Map(id), g.S.MT.New().Interface())
			}
		}
		finished := map[string]bool{}
		vkit.Within(t, log+"\nthe sentinel", func() {
			for _, s := range subs {
				if s.pullID != "" && !s.closed && !finished[s.key] {
					finished[s.key] = true
					_, ok := st.Items[s.key]
					id := strings.TrimSpace(s.pullID)
					finish(id)
					if ok {
						s.closed = true
						// other subscribers of the item see the same
						for _, o := range subs {
							if o.key == s.key && o.pullID != "" {
								o.closed = true
							}
						}
					}
				}
			}
			finish("zz-sentinel")
			for _, s := range subs {
				<-s.done
			}
		})
		times := map[string][]time.Time{}
		for _, s := range subs {
			// the sentinel of another subscriber can be an event of the item, it carries the sentinel time and ends collection
			s.verify(t, log, times)
		}
		storedTimes(t, log, subs)
		if effects > 1 {
			vkit.Nontrivial(log)
		}
		name := "none"
		if eq != nil {
			name = strings.Fields(eq.name)[0]
		}
		vkit.Class("collection equivalence=%s subs=%d effects=%d0+", name, len(subs), effects/10)
	})
}

func remove(s resmodel.State, key string) resmodel.State {
	n := resmodel.State{Items: map[string]proto.Message{}}
	for k, v := range s.Items {
		if k != key {
			n.Items[k] = v
		}
	}
	return n
}

func put(s resmodel.State, key string, m proto.Message) resmodel.State {
	n := remove(s, key)
	n.Items[key] = m
	return n
}

// storedTimes: the change time of a seed is the one that the event of the write carried.
func storedTimes(t *rapid.T, log string, subs []*sub) {
	for _, a := range subs {
		if a.mask != nil {
			continue
		}
		for _, b := range subs {
			for _, seed := range b.got {
				if !seed.seed {
					continue
				}
				for k, w := range b.wants {
					if k < len(b.got) && b.got[k] == seed && w.seed {
						// find the event of the write this seed came from: same id and the same range of times
						for _, e := range a.got {
							if e.id == seed.id && w.at.has(e.at) && !e.at.Equal(seed.at) {
								t.Fatalf("%s\n%s was told the change time of %q is %s as a seed, %s got %s for the same write", log, b.name, seed.id,
									seed.at.UTC().Format(time.RFC3339Nano), a.name, e.at.UTC().Format(time.RFC3339Nano))
							}
						}
					}
				}
			}
		}
	}
}

func TestValueScript(t *testing.T) {
	vkit.Check(t, vkit.N(9000, 100000), func(t *rapid.T) {
		g := resmodel.GenSource(t, false, true)
		eq := genEquivalence(t, g)
		clock := &ticking{}
		opts := append(g.C.Options(), resource.WithClock(clock))
		var different sync.Map // set once everything that matters was compared
		if eq != nil {
			fn := eq.equal
			opts = append(opts, resource.WithEquivalence(resource.ComparerFunc(func(x, y proto.Message) bool {
				if _, ok := different.Load("now"); ok {
					return false
				}
				return fn(x, y)
			})))
		}
		before := clock.Now()
		v := resource.NewValue(opts...)
		after := clock.Now()
		st := resmodel.NewState(g.C, false)
		at := map[string]span{"": {before, after}}
		log := g.C.String()
		if eq != nil {
			log += " equivalence=" + eq.name
		}
		var subs []*sub
		defer func() {
			for _, s := range subs {
				s.cancel()
			}
		}()
		n := rapid.IntRange(1, vkit.N(10, 25)).Draw(t, "ops")
		subAt := map[int]int{}
		for i := rapid.IntRange(1, 3).Draw(t, "subs"); i > 0; i-- {
			subAt[rapid.IntRange(0, n-1).Draw(t, "sub.at")]++
		}
		effects := 0
		for i := 0; i < n; i++ {
			for k := subAt[i]; k > 0; k-- {
				s := newSub(t, g, eq, len(subs))
				s.value = true
				s.name += ")"
				ctx, cancel := context.WithCancel(context.Background())
				s.cancel = cancel
				s.collect(fromValue(v.Pull(ctx, s.readOptions()...), ""))
				s.seed(st, at)
				subs = append(subs, s)
				log += "\n-- " + s.name
			}
			var vals []proto.Message
			if st.Items[""] != nil {
				vals = append(vals, st.Items[""])
			}
			o := g.Op(t, false, nil, vals)
			if o.Time != nil {
				at := time.Unix(int64(rapid.IntRange(0, 1000).Draw(t, "when"))*[]int64{1, 999, 100003}[rapid.IntRange(0, 2).Draw(t, "era")], int64(i))
				o.Time = &at
			}
			log += "\n" + o.String()
			from := clock.Now()
			var res resmodel.Res
			vkit.Within(t, log, func() { res = resmodel.RunValue(v, o) })
			sp := span{from, clock.Now()}
			if o.Time != nil {
				sp = span{*o.Time, *o.Time}
			}
			next, eff, err := g.C.Step(st, o, res)
			if err != nil {
				t.Skip("not the sequential model") // C01's business
			}
			st = next
			if eff != nil {
				effects++
				at[""] = sp
				for _, s := range subs {
					s.wrote(eff, sp)
				}
				log += "\n      -> " + txt(eff.New) + " at " + sp.String()
			}
		}
		vkit.Within(t, log+"\nthe sentinel", func() {
			last := st.Items[""]
			if last == nil {
				last = g.S.MT.New().Interface()
			}
			// by the time these were delivered everything before them was compared
			for i := 0; i < 3; i++ {
				_, _ = v.Set(vkit.Copy(last), resource.WithWriteTime(flushing))
			}
			different.Store("now", true)
			_, _ = v.Set(vkit.Copy(last), resource.WithWriteTime(sentinel))
			for _, s := range subs {
				<-s.done
			}
		})
		times := map[string][]time.Time{}
		for _, s := range subs {
			s.verify(t, log, times)
		}
		storedTimes(t, log, subs)
		if effects > 1 {
			vkit.Nontrivial(log)
		}
		name := "none"
		if eq != nil {
			name = strings.Fields(eq.name)[0]
		}
		vkit.Class("value equivalence=%s subs=%d effects=%d0+ nil=%v", name, len(subs), effects/10, g.C.Value == nil)
	})
}
