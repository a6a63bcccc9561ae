package c08

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

const sentinel = "zz"

type failer interface {
	Helper()
	Fatalf(string, ...any)
}

// table is a predicate: bits indexed by id and value, the last value stands for absent.
type table struct {
	ids    []string
	values int
	bits   uint64
}

func (p *table) bit(id string, v int) bool {
	for i, s := range p.ids {
		if s == id {
			return p.bits>>(i*(p.values+1)+v)&1 == 1
		}
	}
	return id == sentinel
}

func (p *table) include(id string, m proto.Message) bool {
	if m == nil {
		return p.bit(id, p.values)
	}
	return p.bit(id, int(m.(*testproto.TestAllTypes).DefaultInt32))
}

func (p *table) String() string {
	var b strings.Builder
	for _, id := range p.ids {
		fmt.Fprintf(&b, " %s:", id)
		for v := 0; v < p.values; v++ {
			if p.bit(id, v) {
				fmt.Fprintf(&b, "%d", v)
			}
		}
		if p.bit(id, p.values) {
			b.WriteString("-")
		}
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

var stamp int64

func msg(v int) *testproto.TestAllTypes {
	stamp++
	return &testproto.TestAllTypes{DefaultInt32: int32(v), DefaultInt64: stamp}
}

type event struct {
	id       string
	kind     types.ChangeType
	old, new proto.Message
	seed     bool
	last     bool
}

func txt(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	return vkit.Text(m)
}

func (e event) String() string {
	return fmt.Sprintf("%s %q %s -> %s seed=%v last=%v", e.kind, e.id, txt(e.old), txt(e.new), e.seed, e.last)
}

func eq(a, b proto.Message) bool { return (a == nil) == (b == nil) && (a == nil || proto.Equal(a, b)) }

func (e event) same(o event) bool {
	return e.id == o.id && e.kind == o.kind && eq(e.old, o.old) && eq(e.new, o.new) && e.seed == o.seed && e.last == o.last
}

// sub is one filtered subscription.
type sub struct {
	p      *table
	only   bool
	back   bool
	lazy   bool // doesn't receive before the writes are over
	mask   *fieldmaskpb.FieldMask
	pullID string

	cancel context.CancelFunc
	ch     <-chan event
	want   []event // what a lossless subscriber is sent
	view0  map[string]proto.Message
	ended  bool // the single item was removed
	got    []event
	closed bool
	done   chan struct{}
}

func (s *sub) String() string {
	return fmt.Sprintf("subscriber %s updates-only=%v backpressure=%v lazy=%v mask=%s pullid=%q", s.p, s.only, s.back, s.lazy, vkit.MaskText(s.mask), s.pullID)
}

func (s *sub) view(m proto.Message) proto.Message {
	if m == nil || s.mask == nil {
		return m
	}
	return vkit.Project(m, s.mask)
}

func (s *sub) options() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithInclude(s.p.include), resource.WithBackpressure(s.back), resource.WithUpdatesOnly(s.only)}
	if s.mask != nil {
		o = append(o, resource.WithReadMask(s.mask))
	}
	return o
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *sub) open(c *resource.Collection, stored map[string]proto.Message) {
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	s.done = make(chan struct{})
	s.view0 = map[string]proto.Message{}
	for _, id := range keys(stored) {
		if s.p.include(id, stored[id]) && (s.pullID == "" || s.pullID == id) {
			s.view0[id] = s.view(stored[id])
		}
	}
	if !s.only {
		ids := keys(s.view0)
		for i, id := range ids {
			s.want = append(s.want, event{id, types.ChangeType_ADD, nil, s.view0[id], true, i == len(ids)-1})
		}
	}
	ch := make(chan event)
	if s.pullID != "" {
		in := c.PullID(ctx, s.pullID, s.options()...)
		go func() {
			defer close(ch)
			for e := range in {
				ch <- event{s.pullID, 0, nil, e.Value, e.SeedValue, e.LastSeedValue}
			}
		}()
	} else {
		in := c.Pull(ctx, s.options()...)
		go func() {
			defer close(ch)
			for e := range in {
				ch <- event{e.Id, e.ChangeType, e.OldValue, e.NewValue, e.SeedValue, e.LastSeedValue}
			}
		}()
	}
	s.ch = ch
	if !s.lazy {
		s.receive()
	}
}

// receive collects events until the sentinel.
func (s *sub) receive() {
	go func() {
		defer close(s.done)
		for e := range s.ch {
			if e.id == sentinel {
				go func() {
					for range s.ch {
					}
				}()
				return
			}
			if s.pullID != "" && e.new != nil && e.new.(*testproto.TestAllTypes).DefaultString == sentinel {
				go func() {
					for range s.ch {
					}
				}()
				return
			}
			s.got = append(s.got, e)
		}
		s.closed = true
	}()
}

// wrote extends the script.
func (s *sub) wrote(id string, old, new proto.Message) {
	if s.pullID != "" && (id != s.pullID || s.ended) {
		return
	}
	was := old != nil && s.p.include(id, old)
	is := new != nil && s.p.include(id, new)
	e := event{id: id}
	switch {
	case was && is:
		e.kind, e.old, e.new = types.ChangeType_UPDATE, s.view(old), s.view(new)
	case was:
		e.kind, e.old = types.ChangeType_REMOVE, s.view(old)
	case is:
		e.kind, e.new = types.ChangeType_ADD, s.view(new)
	default:
		return
	}
	if s.pullID != "" {
		if e.new == nil {
			s.ended = true
			return
		}
		e.old, e.kind = nil, 0
	}
	s.want = append(s.want, e)
}

// final is the filtered collection at the end.
func (s *sub) final(stored map[string]proto.Message) map[string]proto.Message {
	out := map[string]proto.Message{}
	for id, m := range stored {
		if s.p.include(id, m) && (s.pullID == "" || s.pullID == id) {
			out[id] = s.view(m)
		}
	}
	return out
}

func (s *sub) verify(t failer, log string, c *resource.Collection, stored map[string]proto.Message) {
	t.Helper()
	fail := func(why string) {
		var b strings.Builder
		for _, e := range s.got {
			fmt.Fprintf(&b, "\n   %s", e)
		}
		b.WriteString("\nthe filtered collection did:")
		for _, e := range s.want {
			fmt.Fprintf(&b, "\n   %s", e)
		}
		t.Fatalf("%s\n%s: %s\nreceived:%s", log, s, why, b.String())
	}
	if s.pullID != "" {
		if s.closed != s.ended {
			fail(fmt.Sprintf("channel closed: %v, the item was removed: %v", s.closed, s.ended))
		}
		want := s.want
		for i := range want {
			want[i].kind, want[i].last = 0, want[i].seed
		}
		s.exact(fail)
		for _, e := range s.got {
			if e.new == nil || !s.p.include(s.pullID, e.new) && s.mask == nil {
				fail("an excluded version was delivered")
			}
		}
		if !s.ended && len(s.want) > 0 && (len(s.got) == 0 || !eq(s.got[len(s.got)-1].new, s.want[len(s.want)-1].new)) {
			fail("the last version delivered is not the last one")
		}
		return
	}
	if s.closed {
		fail("the channel was closed")
	}
	if s.back {
		s.exact(fail)
	}
	// a view that starts as what the subscriber is taken to know
	view := map[string]proto.Message{}
	if s.only {
		for id, m := range s.view0 {
			view[id] = m
		}
	}
	seeds := 0
	for i, e := range s.got {
		held, has := view[e.id]
		if e.seed {
			seeds++
			if i != seeds-1 {
				fail("a seed after an event")
			}
		}
		switch e.kind {
		case types.ChangeType_ADD:
			if has || e.old != nil || e.new == nil {
				fail("ADD of an item that is there: " + e.String())
			}
			view[e.id] = e.new
		case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
			if !has || e.new == nil || !eq(e.old, held) {
				fail(fmt.Sprintf("%s, the view has %s", e, txt(held)))
			}
			view[e.id] = e.new
		case types.ChangeType_REMOVE:
			if !has || e.new != nil || !eq(e.old, held) {
				fail(fmt.Sprintf("%s, the view has %s", e, txt(held)))
			}
			delete(view, e.id)
		default:
			fail("what is a " + e.kind.String())
		}
	}
	if !s.only && seeds != len(s.view0) {
		fail(fmt.Sprintf("%d seeds, want %d", seeds, len(s.view0)))
	}
	if s.only && seeds > 0 {
		fail("seeds for an updates-only subscription")
	}
	want := s.final(stored)
	if d := differ(view, want); d != "" {
		fail("the folded stream is not the filtered collection: " + d)
	}
	list := c.List(resource.WithInclude(s.p.include), resource.WithReadMask(s.mask))
	delete(want, sentinel)
	ids := keys(want)
	if _, ok := stored[sentinel]; ok || len(list) > 0 && len(list) == len(ids)+1 {
		list = list[:len(list)-1] // the sentinel sorts last
	}
	if len(list) != len(ids) {
		fail(fmt.Sprintf("List has %d items, want %d", len(list), len(ids)))
	}
	for i, id := range ids {
		if !eq(list[i], want[id]) {
			fail(fmt.Sprintf("List[%d] is %s, want %q %s", i, txt(list[i]), id, txt(want[id])))
		}
	}
}

func (s *sub) exact(fail func(string)) {
	for i := range s.want {
		if i >= len(s.got) {
			fail("missing: " + s.want[i].String())
		}
		if !s.got[i].same(s.want[i]) {
			fail(fmt.Sprintf("event %d is %s, want %s", i, s.got[i], s.want[i]))
		}
	}
	if len(s.got) > len(s.want) {
		fail("unexpected: " + s.got[len(s.want)].String())
	}
}

func differ(a, b map[string]proto.Message) string {
	for id, m := range a {
		o, ok := b[id]
		if !ok {
			return fmt.Sprintf("%q should not be there", id)
		}
		if !eq(m, o) {
			return fmt.Sprintf("%q is %s, want %s", id, txt(m), txt(o))
		}
	}
	for id := range b {
		if _, ok := a[id]; !ok {
			return fmt.Sprintf("%q is missing", id)
		}
	}
	return ""
}

type world struct {
	c      *resource.Collection
	stored map[string]proto.Message
	subs   []*sub
	log    []string
}

func (w *world) text() string { return strings.Join(w.log, "\n") }

// do makes one write: v is the value, -1 deletes.
func (w *world) do(t failer, id string, v int, how int) {
	t.Helper()
	old := w.stored[id]
	var err error
	var res proto.Message
	switch {
	case v < 0:
		_, err = w.c.Delete(id, resource.WithAllowMissing(how%2 == 0))
		w.log = append(w.log, fmt.Sprintf("delete %s: %v", id, err))
		if old == nil {
			return
		}
		if err != nil {
			t.Fatalf("%s\nfailed", w.text())
		}
		delete(w.stored, id)
		w.announce(id, old, nil)
		return
	case how == 0:
		res, err = w.c.Update(id, msg(v), resource.WithCreateIfAbsent())
	case how == 1:
		res, err = w.c.Add(id, msg(v))
	case how == 2:
		res, err = w.c.Update(id, msg(v), resource.WithUpdatePaths("default_int32"))
	case how == 3:
		res, err = w.c.Update(id, msg(v))
	default:
		res, err = w.c.Update(id, msg(v), resource.WithCreateIfAbsent(), resource.WithExpectedValue(&testproto.TestAllTypes{DefaultInt32: 99}))
	}
	w.log = append(w.log, fmt.Sprintf("write %d %s=%d: %s %v", how, id, v, txt(res), err))
	if err != nil {
		return
	}
	w.stored[id] = proto.Clone(res)
	w.announce(id, old, w.stored[id])
}

func (w *world) announce(id string, old, new proto.Message) {
	for _, s := range w.subs {
		s.wrote(id, old, new)
	}
}

func (w *world) finish(t failer) {
	t.Helper()
	for _, s := range w.subs {
		if s.lazy {
			s.receive()
		}
	}
	for _, s := range w.subs {
		if s.pullID != "" && !s.ended {
			// one more version of the single item that is included: it marks the end
			old := w.stored[s.pullID]
			for v := 0; v < s.p.values; v++ {
				if s.p.bit(s.pullID, v) {
					m := msg(v)
					m.DefaultString = sentinel
					_, _ = w.c.Update(s.pullID, m, resource.WithCreateIfAbsent(), resource.WithAllFieldsWritable())
					w.log = append(w.log, "end "+s.pullID)
					for _, o := range w.subs {
						if o != s {
							o.wrote(s.pullID, old, m)
						}
					}
					w.stored[s.pullID] = m
					break
				}
			}
			break
		}
	}
	_, _ = w.c.Update(sentinel, msg(0), resource.WithCreateIfAbsent())
	for _, s := range w.subs {
		select {
		case <-s.done:
		case <-time.After(10 * time.Second):
			t.Fatalf("%s\n%s: the last change was never delivered", w.text(), s)
		}
	}
	for _, s := range w.subs {
		s.verify(t, w.text(), w.c, w.stored)
	}
}

// TestOneItem: every history of one item up to a length x every predicate x every kind of subscriber.
func TestOneItem(t *testing.T) {
	length := 4
	if vkit.Thorough() {
		length = 6
	}
	total := 1
	for i := 0; i < length; i++ {
		total *= 3
	}
	type job struct{ initial, code, n int }
	var jobs []job
	for n, p := 0, 1; n <= length; n, p = n+1, p*3 {
		for code := 0; code < p; code++ {
			for initial := -1; initial < 2; initial++ {
				jobs = append(jobs, job{initial, code, n})
			}
		}
	}
	for _, j := range jobs {
		vkit.Eval()
		w := &world{stored: map[string]proto.Message{}}
		var opts []resource.Option
		if j.initial >= 0 {
			m := msg(j.initial)
			opts = append(opts, resource.WithInitialRecord("a", m))
			w.stored["a"] = proto.Clone(m)
		}
		w.log = []string{fmt.Sprintf("initial a=%d", j.initial)}
		w.c = resource.NewCollection(opts...)
		for bits := uint64(0); bits < 8; bits++ {
			for k := 0; k < 6; k++ {
				s := &sub{p: &table{[]string{"a"}, 2, bits}, only: k%2 == 1, back: k/2 == 0, lazy: k/2 == 1}
				s.open(w.c, w.stored)
				w.subs = append(w.subs, s)
			}
		}
		vkit.Within(t, w.text(), func() {
			for i, c := 0, j.code; i < j.n; i, c = i+1, c/3 {
				w.do(t, "a", c%3-1, 0)
			}
			w.finish(t)
		})
		for _, s := range w.subs {
			s.cancel()
		}
		vkit.Nontrivial(w.text())
	}
	vkit.Class("one item: %d histories x 8 predicates x 6 kinds of subscriber", len(jobs))
}

// TestTwoItems: every history of two items, subscribers for a random part of the 64 predicates each.
func TestTwoItems(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 12000), func(t *rapid.T) {
		w := &world{stored: map[string]proto.Message{}}
		w.c = resource.NewCollection()
		lazyWriters := rapid.Bool().Draw(t, "anylazy")
		for bits := uint64(0); bits < 64; bits++ {
			k := rapid.IntRange(0, 5).Draw(t, "kind")
			s := &sub{p: &table{[]string{"a", "b"}, 2, bits}, only: k%2 == 1, back: k/2 == 0, lazy: k/2 == 1 && lazyWriters}
			s.open(w.c, w.stored)
			w.subs = append(w.subs, s)
		}
		defer func() {
			for _, s := range w.subs {
				s.cancel()
			}
		}()
		n := rapid.IntRange(1, 7).Draw(t, "n")
		vkit.Within(t, "the history", func() {
			for i := 0; i < n; i++ {
				w.do(t, rapid.SampledFrom([]string{"a", "b"}).Draw(t, "id"), rapid.IntRange(-1, 1).Draw(t, "v"), 0)
			}
			w.finish(t)
		})
		vkit.Nontrivial(w.text())
		vkit.Class("two items: histories of %d", n)
	})
}

var masks = []*fieldmaskpb.FieldMask{nil, nil, {Paths: []string{"default_int64"}}, {Paths: []string{"default_int32"}}, {Paths: []string{"default_int32", "default_int64"}}, {}}

// TestRandom: longer histories with failing writes, masks, single item subscriptions, subscribing at any moment.
func TestRandom(t *testing.T) {
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		ids := []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(t, "ids")]
		values := rapid.IntRange(1, 3).Draw(t, "values")
		w := &world{stored: map[string]proto.Message{}}
		var opts []resource.Option
		for _, id := range ids {
			if v := rapid.IntRange(-1, values-1).Draw(t, "initial"); v >= 0 {
				m := msg(v)
				opts = append(opts, resource.WithInitialRecord(id, m))
				w.stored[id] = proto.Clone(m)
				w.log = append(w.log, fmt.Sprintf("initial %s %s", id, txt(m)))
			}
		}
		w.c = resource.NewCollection(opts...)
		defer func() {
			for _, s := range w.subs {
				s.cancel()
			}
		}()
		n := rapid.IntRange(1, vkit.N(12, 30)).Draw(t, "n")
		subAt := map[int]int{}
		for i := rapid.IntRange(1, 4).Draw(t, "subs"); i > 0; i-- {
			subAt[rapid.IntRange(0, n-1).Draw(t, "at")]++
		}
		single := 0
		for i := 0; i < n; i++ {
			for k := subAt[i]; k > 0; k-- {
				s := &sub{p: &table{ids, values, rapid.Uint64().Draw(t, "bits")}}
				s.only = rapid.IntRange(0, 2).Draw(t, "only") == 0
				s.back = rapid.Bool().Draw(t, "back")
				s.lazy = !s.back && rapid.Bool().Draw(t, "lazy")
				s.mask = vkit.Pick(t, masks, "mask")
				if single == 0 && rapid.IntRange(0, 4).Draw(t, "single") == 0 {
					s.pullID = rapid.SampledFrom(ids).Draw(t, "pullid")
					s.back, s.lazy = true, false // a lossy one may not notice a removal that is undone
					s.mask = nil
					if s.p.bit(s.pullID, 0) {
						single++
					} else {
						s.pullID = "" // needs a version to end with
					}
				}
				s.open(w.c, w.stored)
				w.subs = append(w.subs, s)
				w.log = append(w.log, "-- "+s.String())
			}
			v := rapid.IntRange(-1, values-1).Draw(t, "v")
			how := rapid.IntRange(0, 5).Draw(t, "how")
			id := rapid.SampledFrom(ids).Draw(t, "id")
			vkit.Within(t, w.text(), func() { w.do(t, id, v, how) })
			// a listing in between
			p := &table{ids, values, rapid.Uint64().Draw(t, "list")}
			mask := vkit.Pick(t, masks, "list.mask")
			var want []proto.Message
			for _, id := range keys(w.stored) {
				if p.include(id, w.stored[id]) {
					m := w.stored[id]
					if mask != nil {
						m = vkit.Project(m, mask)
					}
					want = append(want, m)
				}
			}
			got := w.c.List(resource.WithInclude(p.include), resource.WithReadMask(mask))
			ok := len(got) == len(want)
			for i := 0; ok && i < len(got); i++ {
				ok = eq(got[i], want[i])
			}
			if !ok {
				t.Fatalf("%s\nList %s mask=%s is %v, want %v", w.text(), p, vkit.MaskText(mask), got, want)
			}
		}
		vkit.Within(t, w.text(), func() { w.finish(t) })
		vkit.Nontrivial(w.text())
		vkit.Class("random ids=%d subs=%d single=%d", len(ids), len(w.subs), single)
	})
}

// TestStress: writers at full speed on their own ids, filtered subscribers opening in between.
func TestStress(t *testing.T) {
	var mu sync.Mutex
	vkit.Check(t, vkit.N(300, 4000), func(t *rapid.T) {
		ids := []string{"a", "b", "c"}
		c := resource.NewCollection()
		var wg, opened sync.WaitGroup
		start := make(chan struct{})
		n := rapid.IntRange(1, 40).Draw(t, "n")
		plans := make([][]int, len(ids))
		for i := range ids {
			plans[i] = rapid.SliceOfN(rapid.IntRange(-1, 1), n, n).Draw(t, "plan")
		}
		var stampMu sync.Mutex
		mk := func(v int) *testproto.TestAllTypes {
			stampMu.Lock()
			defer stampMu.Unlock()
			return msg(v)
		}
		for i, id := range ids {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, v := range plans[i] {
					if v < 0 {
						_, _ = c.Delete(id, resource.WithAllowMissing(true))
					} else {
						_, _ = c.Update(id, mk(v), resource.WithCreateIfAbsent())
					}
				}
			}()
		}
		var subs []*sub
		for k := rapid.IntRange(1, 6).Draw(t, "subs"); k > 0; k-- {
			s := &sub{p: &table{ids, 2, rapid.Uint64().Draw(t, "bits")}, back: rapid.Bool().Draw(t, "back")}
			delay := time.Duration(rapid.IntRange(0, 200).Draw(t, "delay")) * time.Microsecond
			opened.Add(1)
			go func() {
				defer opened.Done()
				<-start
				time.Sleep(delay)
				s.open(c, nil)
				mu.Lock()
				subs = append(subs, s)
				mu.Unlock()
			}()
		}
		vkit.Within(t, "writers and subscribers", func() {
			close(start)
			wg.Wait()
			opened.Wait()
		})
		_, _ = c.Add(sentinel, mk(0))
		for _, s := range subs {
			select {
			case <-s.done:
			case <-time.After(10 * time.Second):
				t.Fatalf("%s: the last change was never delivered", s)
			}
			s.cancel()
			view := map[string]proto.Message{}
			for _, e := range s.got {
				if e.kind == types.ChangeType_REMOVE {
					delete(view, e.id)
				} else {
					if !s.p.include(e.id, e.new) {
						t.Fatalf("%s: delivered %s", s, e)
					}
					view[e.id] = e.new
				}
			}
			var got []proto.Message
			for _, id := range keys(view) {
				got = append(got, view[id])
			}
			want := c.List(resource.WithInclude(func(id string, m proto.Message) bool { return id != sentinel && s.p.include(id, m) }))
			if len(got) != len(want) {
				t.Fatalf("%s: folded %v, List %v\n%v", s, got, want, s.got)
			}
			for i := range got {
				if !eq(got[i], want[i]) {
					t.Fatalf("%s: folded %v, List %v\n%v", s, got, want, s.got)
				}
			}
		}
		vkit.Nontrivial(fmt.Sprint(plans, len(subs)))
		vkit.Class("stress subs=%d", len(subs))
	})
}
