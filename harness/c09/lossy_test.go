package c09

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type failer interface {
	Helper()
	Fatalf(string, ...any)
}

const sentinel = "zz"

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_CASE_SEED"), 10, 64)
	return n
}

func txt(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	return vkit.Text(m)
}

// store is a collection whose history is known: version n of an id is what its n-th write left (nil: removed).
type store struct {
	c        *resource.Collection
	versions map[string][]proto.Message
	log      []string
	n        int64
	slowest  time.Duration
}

func newStore(initial ...string) *store {
	s := &store{versions: map[string][]proto.Message{}}
	var opts []resource.Option
	for _, id := range initial {
		m := s.msg(id)
		opts = append(opts, resource.WithInitialRecord(id, m))
		s.versions[id] = []proto.Message{proto.Clone(m)}
	}
	s.c = resource.NewCollection(opts...)
	return s
}

func (s *store) msg(id string) *testproto.TestAllTypes {
	s.n++
	return &testproto.TestAllTypes{DefaultString: id, DefaultInt64: s.n, DefaultInt32: int32(s.n % 2)}
}

func (s *store) current(id string) proto.Message {
	vs := s.versions[id]
	if len(vs) == 0 {
		return nil
	}
	return vs[len(vs)-1]
}

const patience = 3 * time.Second

// write makes a write and expects it back soon: "" or what is wrong.
func (s *store) write(id string, remove bool) string {
	var res proto.Message
	var err error
	start := time.Now()
	done := make(chan struct{})
	m := s.msg(id)
	go func() {
		defer close(done)
		if remove {
			_, err = s.c.Delete(id, resource.WithAllowMissing(true))
		} else {
			res, err = s.c.Update(id, m, resource.WithCreateIfAbsent())
		}
	}()
	select {
	case <-done:
	case <-time.After(patience):
		return fmt.Sprintf("a write of %q has been waiting for %v", id, patience)
	}
	if d := time.Since(start); d > s.slowest {
		s.slowest = d
	}
	s.log = append(s.log, fmt.Sprintf("write %s remove=%v: %s %v", id, remove, txt(res), err))
	if err != nil {
		return "a write failed: " + err.Error()
	}
	if remove {
		if s.current(id) != nil {
			s.versions[id] = append(s.versions[id], nil)
		}
		return ""
	}
	s.versions[id] = append(s.versions[id], proto.Clone(res))
	return ""
}

// reader is a lossy subscriber that folds what it gets.
type reader struct {
	s      *store
	name   string
	only   bool
	mask   *fieldmaskpb.FieldMask
	pullID string
	ch     <-chan *resource.CollectionChange
	cancel context.CancelFunc
	view   map[string]proto.Message
	at     map[string]int // version of each id the view has
	events []string
}

func (s *store) open(only bool, mask *fieldmaskpb.FieldMask) *reader {
	r := &reader{s: s, only: only, mask: mask, view: map[string]proto.Message{}, at: map[string]int{}}
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	opts := []resource.ReadOption{resource.WithUpdatesOnly(only)}
	if mask != nil {
		opts = append(opts, resource.WithReadMask(mask))
	}
	r.ch = s.c.Pull(ctx, opts...)
	for id, vs := range s.versions {
		r.at[id] = -1
		if only {
			r.at[id] = len(vs) - 1
			if vs[len(vs)-1] != nil {
				r.view[id] = r.project(vs[len(vs)-1])
			}
		}
	}
	return r
}

func (r *reader) project(m proto.Message) proto.Message {
	if m == nil || r.mask == nil {
		return m
	}
	return vkit.Project(m, r.mask)
}

func eq(a, b proto.Message) bool { return (a == nil) == (b == nil) && (a == nil || proto.Equal(a, b)) }

// take folds one event, returning what is wrong with it.
func (r *reader) take(e *resource.CollectionChange) string {
	r.events = append(r.events, fmt.Sprintf("%s %q %s -> %s seed=%v", e.ChangeType, e.Id, txt(e.OldValue), txt(e.NewValue), e.SeedValue))
	held, has := r.view[e.Id]
	switch e.ChangeType {
	case types.ChangeType_ADD:
		if has || e.OldValue != nil || e.NewValue == nil {
			return "an ADD that doesn't follow from the view"
		}
	case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
		if !has || e.NewValue == nil || !eq(e.OldValue, held) {
			return "an update whose old value is not what the view has: " + txt(held)
		}
	case types.ChangeType_REMOVE:
		if !has || e.NewValue != nil || !eq(e.OldValue, held) {
			return "a REMOVE whose old value is not what the view has: " + txt(held)
		}
	default:
		return "what is a " + e.ChangeType.String()
	}
	if e.NewValue == nil {
		delete(r.view, e.Id)
	} else {
		r.view[e.Id] = e.NewValue
	}
	// the version it brings the view to is newer than the last
	vs := r.s.versions[e.Id]
	from, ok := r.at[e.Id]
	if !ok {
		from = -1
	}
	for v := from + 1; v < len(vs); v++ {
		if eq(r.project(vs[v]), e.NewValue) {
			r.at[e.Id] = v
			return ""
		}
	}
	if e.Id == sentinel {
		return ""
	}
	return fmt.Sprintf("no version of %q after number %d is %s", e.Id, from, txt(e.NewValue))
}

func (r *reader) text() string {
	return fmt.Sprintf("%s\nsubscriber %s updates-only=%v mask=%s received:\n   %s", strings.Join(r.s.log, "\n"), r.name, r.only, vkit.MaskText(r.mask), strings.Join(r.events, "\n   "))
}

// finish drains to the sentinel and compares with the store.
func (r *reader) finish() string {
	deadline := time.After(10 * time.Second)
	for {
		select {
		case e, ok := <-r.ch:
			if !ok {
				return "the channel was closed"
			}
			if why := r.take(e); why != "" {
				return why
			}
			if e.Id != sentinel {
				continue
			}
		case <-deadline:
			return "the most recent change was never delivered"
		}
		break
	}
	for id, vs := range r.s.versions {
		want := r.project(vs[len(vs)-1])
		if !eq(r.view[id], want) {
			return fmt.Sprintf("the view has %q %s, the store %s", id, txt(r.view[id]), txt(want))
		}
	}
	return ""
}

// try receives one event if there is one.
func (r *reader) try(patience int) string {
	for i := 0; i <= patience; i++ {
		select {
		case e, ok := <-r.ch:
			if !ok {
				return "the channel was closed"
			}
			return r.take(e)
		default:
			runtime.Gosched()
		}
	}
	return ""
}

// TestPatterns: every history up to a length x every pattern of when the consumer receives.
func TestPatterns(t *testing.T) {
	length := 4
	if vkit.Thorough() {
		length = 6
	}
	for _, ids := range [][]string{{"a"}, {"a", "b"}} {
		n := length
		if len(ids) == 1 {
			n = length + 2
		}
		base := 2 * len(ids)
		total := 1
		for i := 0; i < n; i++ {
			total *= base
		}
		for code := 0; code < total; code++ {
			for initial := 0; initial < 2; initial++ {
				vkit.Eval()
				s := newStore(ids[:initial]...)
				var rs []*reader
				for p := 0; p < 1<<n; p++ {
					r := s.open(p&1 == 1 && code%3 == 0, nil)
					r.name = fmt.Sprintf("%0*b", n, p)
					rs = append(rs, r)
				}
				c := code
				for i := 0; i < n; i++ {
					k := c % base
					c /= base
					if why := s.write(ids[k/2], k%2 == 1); why != "" {
						t.Fatalf("%s\n%s", strings.Join(s.log, "\n"), why)
					}
					for p, r := range rs {
						if p>>i&1 == 1 {
							if why := r.try(3); why != "" {
								t.Fatalf("%s\n%s", r.text(), why)
							}
						}
					}
				}
				if why := s.write(sentinel, false); why != "" {
					t.Fatalf("%s\n%s", strings.Join(s.log, "\n"), why)
				}
				for _, r := range rs {
					if why := r.finish(); why != "" {
						t.Fatalf("%s\n%s", r.text(), why)
					}
					r.cancel()
				}
				vkit.Nontrivial(strings.Join(s.log, "\n"))
			}
		}
		vkit.Class("patterns ids=%d: %d histories of %d x 2 initial x %d receive patterns", len(ids), total, n, 1<<n)
	}
}

// TestPatternsRandom: longer histories, more ids, masks, subscribing in between.
func TestPatternsRandom(t *testing.T) {
	masks := []*fieldmaskpb.FieldMask{nil, nil, {Paths: []string{"default_int64"}}, {Paths: []string{"default_string"}}, {Paths: []string{"default_int32"}}}
	vkit.Check(t, vkit.N(6000, 60000), func(t *rapid.T) {
		ids := []string{"a", "b", "c", "d"}[:rapid.IntRange(1, 4).Draw(t, "ids")]
		s := newStore(ids[:rapid.IntRange(0, len(ids)).Draw(t, "initial")]...)
		var rs []*reader
		n := rapid.IntRange(1, vkit.N(25, 60)).Draw(t, "n")
		for i := 0; i < n; i++ {
			if i == 0 || rapid.IntRange(0, 6).Draw(t, "open?") == 0 && len(rs) < 6 {
				r := s.open(rapid.IntRange(0, 2).Draw(t, "only") == 0, vkit.Pick(t, masks, "mask"))
				r.name = fmt.Sprint(len(rs))
				s.log = append(s.log, "-- subscriber "+r.name)
				rs = append(rs, r)
				defer r.cancel()
			}
			if why := s.write(rapid.SampledFrom(ids).Draw(t, "id"), rapid.IntRange(0, 2).Draw(t, "remove") == 0); why != "" {
				t.Fatalf("%s\n%s", strings.Join(s.log, "\n"), why)
			}
			for _, r := range rs {
				for k := rapid.IntRange(0, 3).Draw(t, "take") - 1; k > 0; k-- {
					if why := r.try(5); why != "" {
						t.Fatalf("%s\n%s", r.text(), why)
					}
				}
			}
		}
		if why := s.write(sentinel, false); why != "" {
			t.Fatalf("%s\n%s", strings.Join(s.log, "\n"), why)
		}
		for _, r := range rs {
			if why := r.finish(); why != "" {
				t.Fatalf("%s\n%s", r.text(), why)
			}
		}
		vkit.Nontrivial(strings.Join(s.log, "\n"))
		vkit.Class("random ids=%d subscribers=%d", len(ids), len(rs))
	})
}

// TestSingle: a lossy single item subscription ends with the removal, or holds the latest version.
func TestSingle(t *testing.T) {
	vkit.Check(t, vkit.N(3000, 30000), func(t *rapid.T) {
		s := newStore("a")
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := s.c.PullID(ctx, "a")
		n := rapid.IntRange(1, 12).Draw(t, "n")
		at, removed, closed := -1, false, false
		var got []string
		take := func(e *resource.ValueChange, ok bool) {
			if !ok {
				closed = true
				if !removed {
					t.Fatalf("%s\nclosed though never removed\n%v", strings.Join(s.log, "\n"), got)
				}
				return
			}
			got = append(got, txt(e.Value))
			for v := at + 1; v < len(s.versions["a"]); v++ {
				if eq(s.versions["a"][v], e.Value) {
					at = v
					return
				}
			}
			t.Fatalf("%s\nno version after number %d is %s\n%v", strings.Join(s.log, "\n"), at, txt(e.Value), got)
		}
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 5).Draw(t, "k")
			id := "a"
			if k == 5 {
				id = "b"
			}
			if why := s.write(id, k == 0); why != "" {
				t.Fatalf("%s\n%s", strings.Join(s.log, "\n"), why)
			}
			removed = removed || k == 0
			for j := rapid.IntRange(0, 3).Draw(t, "take") - 1; j > 0 && !closed; j-- {
				for k := 0; k < 4; k++ {
					select {
					case e, ok := <-ch:
						take(e, ok)
						k = 4
					default:
						runtime.Gosched()
					}
				}
			}
		}
		last := s.current("a")
		deadline := time.After(10 * time.Second)
		for !closed {
			if last != nil && at == len(s.versions["a"])-1 {
				break
			}
			select {
			case e, ok := <-ch:
				take(e, ok)
			case <-deadline:
				t.Fatalf("%s\nneither closed nor up to date\n%v", strings.Join(s.log, "\n"), got)
			}
		}
		vkit.Nontrivial(strings.Join(s.log, "\n"))
		vkit.Class("single removed=%v", removed)
	})
}

// TestValuePatterns: every pattern of set and receive on a Value.
func TestValuePatterns(t *testing.T) {
	n := 9
	if vkit.Thorough() {
		n = 13
	}
	for p := 0; p < 1<<n; p++ {
		for variant := 0; variant < 4; variant++ {
			vkit.Eval()
			var opts []resource.Option
			if variant&1 == 1 {
				opts = append(opts, resource.WithInitialValue(&testproto.TestAllTypes{DefaultInt64: 0}))
			}
			v := resource.NewValue(opts...)
			ctx, cancel := context.WithCancel(context.Background())
			ch := v.Pull(ctx, resource.WithUpdatesOnly(variant&2 == 2))
			var log []string
			last, stamp := int64(0), int64(0)
			if variant == 1 {
				last = -1 // the seed is owed
			}
			take := func(e *resource.ValueChange, ok bool) {
				if !ok {
					t.Fatalf("%v\nclosed", log)
				}
				got := e.Value.(*testproto.TestAllTypes).DefaultInt64
				log = append(log, fmt.Sprint("got ", got))
				if got <= last || got > stamp {
					t.Fatalf("%v\nreceived %d after %d, written up to %d", log, got, last, stamp)
				}
				last = got
			}
			for i := 0; i < n; i++ {
				if p>>i&1 == 0 {
					stamp++
					done := make(chan error, 1)
					go func() {
						_, err := v.Set(&testproto.TestAllTypes{DefaultInt64: stamp})
						done <- err
					}()
					select {
					case err := <-done:
						if err != nil {
							t.Fatalf("%v\n%v", log, err)
						}
					case <-time.After(patience):
						t.Fatalf("%v\nSet waits for a lossy subscriber", log)
					}
					log = append(log, fmt.Sprint("set ", stamp))
					continue
				}
				for k := 0; k < 4; k++ {
					select {
					case e, ok := <-ch:
						take(e, ok)
						k = 4
					default:
						runtime.Gosched()
					}
				}
			}
			deadline := time.After(10 * time.Second)
			for last < stamp {
				select {
				case e, ok := <-ch:
					take(e, ok)
				case <-deadline:
					t.Fatalf("%v\nthe most recent value %d was never delivered", log, stamp)
				}
			}
			cancel()
			vkit.Nontrivial(fmt.Sprint(variant, log))
		}
	}
	vkit.Class("value: %d patterns x 4", 1<<n)
}

// TestDropExcess: what a receive gets is always what was sent last.
func TestDropExcess(t *testing.T) {
	n := 12
	for p := 0; p < 1<<n; p++ {
		vkit.Eval()
		in := make(chan any)
		out := minibus.DropExcess(in)
		pending, next := 0, 1
		var log []string
		wait := time.NewTimer(patience)
		for i := 0; i < n; i++ {
			if p>>i&1 == 0 {
				select {
				case in <- next:
				case <-wait.C:
					t.Fatalf("%v\nsending blocks", log)
				}
				log = append(log, fmt.Sprint("send ", next))
				pending = next
				next++
				continue
			}
			if pending == 0 {
				select {
				case e, ok := <-out:
					t.Fatalf("%v\nreceived %v %v though nothing is pending", log, e, ok)
				default:
				}
				continue
			}
			select {
			case e := <-out:
				log = append(log, fmt.Sprint("receive ", e))
				if e != pending {
					t.Fatalf("%v\nwant %d", log, pending)
				}
			case <-wait.C:
				t.Fatalf("%v\n%d is not delivered", log, pending)
			}
			pending = 0
		}
		close(in)
		for {
			e, ok := <-out
			if !ok {
				break
			}
			if e != pending {
				t.Fatalf("%v\nreceived %v on closing", log, e)
			}
			pending = 0
		}
		wait.Stop()
		vkit.Nontrivial(fmt.Sprint(log))
	}
	vkit.Class("drop excess: %d patterns", 1<<n)
}

// TestStress: writers at full speed on their own ids, slow readers of every pace; writers never wait.
func TestStress(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	for round := 0; round < vkit.N(150, 2000); round++ {
		vkit.Eval()
		s := newStore()
		ids := []string{"a", "b", "c", "d"}
		type plan []bool // remove?
		plans := map[string]plan{}
		for _, id := range ids {
			p := make(plan, 1+rng.Intn(200))
			for i := range p {
				p[i] = rng.Intn(3) == 0
			}
			plans[id] = p
		}
		readers := 1 + rng.Intn(5)
		var rs []*reader
		for i := 0; i < readers; i++ {
			r := s.open(rng.Intn(3) == 0, nil)
			r.name = fmt.Sprint(i)
			rs = append(rs, r)
		}
		// versions are known up front, writers only use their own id
		for _, id := range ids {
			present := false
			for i, remove := range plans[id] {
				if remove {
					if present {
						s.versions[id] = append(s.versions[id], nil)
					}
					present = false
					continue
				}
				present = true
				s.versions[id] = append(s.versions[id], &testproto.TestAllTypes{DefaultString: id, DefaultInt64: int64(i) + 1})
			}
		}
		var wg sync.WaitGroup
		var slowest atomic.Int64
		for _, id := range ids {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, remove := range plans[id] {
					start := time.Now()
					if remove {
						_, _ = s.c.Delete(id, resource.WithAllowMissing(true))
					} else {
						_, _ = s.c.Update(id, &testproto.TestAllTypes{DefaultString: id, DefaultInt64: int64(i) + 1}, resource.WithCreateIfAbsent())
					}
					if d := int64(time.Since(start)); d > slowest.Load() {
						slowest.Store(d)
					}
				}
			}()
		}
		stop := make(chan struct{})
		results := make(chan string, readers)
		for _, r := range rs {
			pace := time.Duration(rng.Intn(4)) * 30 * time.Microsecond
			idle := rng.Intn(3) == 0
			go func() {
				if idle {
					<-stop
				}
				for {
					e, ok := <-r.ch
					if !ok {
						results <- "the channel was closed"
						return
					}
					if why := r.take(e); why != "" {
						results <- r.text() + "\n" + why
						return
					}
					if e.Id == sentinel {
						results <- ""
						return
					}
					time.Sleep(pace)
				}
			}()
		}
		vkit.Within(t, "the writers", wg.Wait)
		if d := time.Duration(slowest.Load()); d > patience {
			t.Fatalf("a write took %v", d)
		}
		_, _ = s.c.Add(sentinel, &testproto.TestAllTypes{DefaultString: sentinel})
		close(stop)
		for range rs {
			select {
			case why := <-results:
				if why != "" {
					t.Fatal(why)
				}
			case <-time.After(20 * time.Second):
				t.Fatal("the most recent change was never delivered")
			}
		}
		for _, r := range rs {
			r.cancel()
			for id, vs := range s.versions {
				if len(vs) > 0 && !eq(r.view[id], vs[len(vs)-1]) {
					t.Fatalf("%s\nthe view has %q %s, the store %s", r.text(), id, txt(r.view[id]), txt(vs[len(vs)-1]))
				}
			}
		}
		vkit.Nontrivial(fmt.Sprint(plans))
	}
}

// TestWritersWait: with backpressure nothing is dropped and writers don't run ahead of the slowest reader.
func TestWritersWait(t *testing.T) {
	vkit.Check(t, vkit.N(400, 4000), func(t *rapid.T) {
		value := rapid.Bool().Draw(t, "value")
		n := rapid.IntRange(2, 12).Draw(t, "n")
		only := rapid.Bool().Draw(t, "only")
		others := rapid.IntRange(0, 3).Draw(t, "others")
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var next func() (int64, bool)
		var write func(i int64) error
		if value {
			v := resource.NewValue(resource.WithInitialValue(&testproto.TestAllTypes{}))
			for i := 0; i < others; i++ {
				v.Pull(ctx) // lossy and idle
			}
			ch := v.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(only))
			next = func() (int64, bool) {
				e, ok := <-ch
				if !ok {
					return 0, false
				}
				return e.Value.(*testproto.TestAllTypes).DefaultInt64, true
			}
			write = func(i int64) error { _, err := v.Set(&testproto.TestAllTypes{DefaultInt64: i}); return err }
		} else {
			c := resource.NewCollection(resource.WithInitialRecord("a", &testproto.TestAllTypes{}))
			for i := 0; i < others; i++ {
				c.Pull(ctx)
			}
			ch := c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(only))
			next = func() (int64, bool) {
				e, ok := <-ch
				if !ok {
					return 0, false
				}
				return e.NewValue.(*testproto.TestAllTypes).DefaultInt64, true
			}
			write = func(i int64) error { _, err := c.Update("a", &testproto.TestAllTypes{DefaultInt64: i}); return err }
		}
		var written atomic.Int64
		var failed atomic.Value
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := 1; i <= n; i++ {
				if err := write(int64(i)); err != nil {
					failed.Store(err)
					return
				}
				written.Store(int64(i))
			}
		}()
		pause := make([]int, n+1)
		for i := range pause {
			pause[i] = rapid.SampledFrom([]int{0, 0, 0, 200, 1000}).Draw(t, "pause")
		}
		want := int64(0)
		if only {
			want = 1
		}
		got := []int64{}
		vkit.Within(t, "receiving everything", func() {
			for ; want <= int64(n); want++ {
				time.Sleep(time.Duration(pause[want]) * time.Microsecond)
				// everything up to want-1 is received; the pipe may hold one more and a write may be about to return
				if ahead := written.Load() - (want - 1); ahead > 2 {
					t.Fatalf("value=%v: %d writes returned, the subscriber has received up to %d", value, written.Load(), want-1)
				}
				v, ok := next()
				got = append(got, v)
				if !ok || v != want {
					t.Fatalf("value=%v: received %v, want %d next", value, got, want)
				}
			}
			<-done
		})
		if err := failed.Load(); err != nil {
			t.Fatalf("a write failed: %v", err)
		}
		vkit.Nontrivial(fmt.Sprint(value, n, only, others, pause))
		vkit.Class("backpressure value=%v only=%v", value, only)
	})
}

// TestSendTimeout: a Value write that can't be delivered gives up, one that can after a while doesn't.
func TestSendTimeout(t *testing.T) {
	type kase struct {
		resume  time.Duration // when the subscriber starts to receive, 0 never
		only    bool
		writers int
		lively  int // subscribers that keep receiving
		lossy   int // idle lossy subscribers
		masked  bool
	}
	var cases []kase
	rng := rand.New(rand.NewSource(seed()))
	for i := 0; i < vkit.N(60, 240); i++ {
		cases = append(cases, kase{
			resume:  []time.Duration{0, 0, 0, 300 * time.Millisecond, 1500 * time.Millisecond, 2500 * time.Millisecond}[rng.Intn(6)],
			only:    rng.Intn(2) == 0,
			writers: 1 + rng.Intn(3),
			lively:  rng.Intn(3),
			lossy:   rng.Intn(3),
			masked:  rng.Intn(3) == 0,
		})
	}
	var wg sync.WaitGroup
	fails := make(chan string, len(cases))
	for _, k := range cases {
		vkit.Eval()
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := sendTimeout(k.resume, k.only, k.writers, k.lively, k.lossy, k.masked); err != nil {
				fails <- fmt.Sprintf("%+v: %v", k, err)
			}
		}()
		vkit.Nontrivial(fmt.Sprintf("%+v", k))
	}
	vkit.Class("send timeouts: %d", len(cases))
	wg.Wait()
	close(fails)
	var all []string
	for f := range fails {
		all = append(all, f)
	}
	if len(all) > 0 {
		sort.Strings(all)
		t.Fatal(all[0])
	}
}

func sendTimeout(resume time.Duration, only bool, writers, lively, lossy int, masked bool) error {
	v := resource.NewValue(resource.WithInitialValue(&testproto.TestAllTypes{}))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var seen [3]atomic.Int64
	drain := func(i int, ch <-chan *resource.ValueChange) {
		for e := range ch {
			seen[i].Store(e.Value.(*testproto.TestAllTypes).DefaultInt64)
		}
	}
	for i := 0; i < lively/2; i++ {
		go drain(i, v.Pull(ctx, resource.WithBackpressure(true)))
	}
	for i := 0; i < lossy; i++ {
		v.Pull(ctx)
	}
	opts := []resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(only)}
	if masked {
		opts = append(opts, resource.WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{"default_int64"}}))
	}
	stuck := v.Pull(ctx, opts...)
	for i := lively / 2; i < lively; i++ {
		go drain(i, v.Pull(ctx, resource.WithBackpressure(true)))
	}
	if only { // the pipe takes one
		if _, err := v.Set(&testproto.TestAllTypes{DefaultInt64: 1}); err != nil {
			return fmt.Errorf("the first write failed: %v", err)
		}
	}
	if resume > 0 {
		time.AfterFunc(resume, func() {
			for range stuck {
			}
		})
	}
	type result struct {
		err  error
		took time.Duration
	}
	results := make(chan result, writers)
	for w := 0; w < writers; w++ {
		go func() {
			start := time.Now()
			// a relative write, so concurrent ones don't abort each other by value
			_, err := v.Set(&testproto.TestAllTypes{DefaultInt64: int64(w) + 2, DefaultInt32: int32(w)})
			results <- result{err, time.Since(start)}
		}()
	}
	for w := 0; w < writers; w++ {
		select {
		case r := <-results:
			aborted := r.err != nil && strings.Contains(r.err.Error(), "concurrent update")
			switch {
			case r.took > 12*time.Second:
				return fmt.Errorf("a write took %v: %v", r.took, r.err)
			case aborted:
			case resume == 0 && r.err == nil:
				return errors.New("a write that wasn't delivered reports success")
			case resume == 0 && r.took < 4*time.Second:
				return fmt.Errorf("a write gave up after %v: %v", r.took, r.err)
			case resume > 0 && r.err != nil:
				return fmt.Errorf("a write failed though the subscriber received after %v: %v", resume, r.err)
			}
		case <-time.After(20 * time.Second):
			return errors.New("a write hangs")
		}
	}
	if resume == 0 {
		// the others are not affected, and nothing is once the subscriber is gone
		cancel()
	}
	var err error
	done := make(chan struct{})
	go func() {
		defer close(done)
		_, err = v.Set(&testproto.TestAllTypes{DefaultInt64: 99})
	}()
	select {
	case <-done:
		if err != nil {
			return fmt.Errorf("a later write failed: %v", err)
		}
	case <-time.After(patience):
		return errors.New("a later write hangs")
	}
	return nil
}
