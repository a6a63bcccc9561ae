package c03

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/resmodel"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type failer interface {
	Helper()
	Fatalf(string, ...any)
}

// patience is how long a view may take to catch up once writers stopped; only reached when it never does.
const patience = 8 * time.Second

func goid() string {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	return string(bytes.Fields(buf[:n])[1])
}

// hook runs a function once, when armed and reached from the goroutine it is armed for.
type hook struct {
	mu   sync.Mutex
	id   string
	skip int
	fn   func()
}

func (h *hook) arm(id string, skip int, fn func()) {
	h.mu.Lock()
	h.id, h.skip, h.fn = id, skip, fn
	h.mu.Unlock()
}

func (h *hook) hit() {
	h.mu.Lock()
	fn := h.fn
	if fn == nil || h.id != goid() {
		h.mu.Unlock()
		return
	}
	if h.skip > 0 {
		h.skip--
		h.mu.Unlock()
		return
	}
	h.fn = nil
	h.mu.Unlock()
	fn()
}

// hookCtx tells the hook whenever somebody looks at it.
type hookCtx struct {
	context.Context
	h *hook
}

func (c hookCtx) Done() <-chan struct{} { c.h.hit(); return c.Context.Done() }
func (c hookCtx) Err() error            { c.h.hit(); return c.Context.Err() }

type hookClock struct{ h *hook }

func (c hookClock) Now() time.Time { c.h.hit(); return time.Now() }

// target is the resource under test; messages carry their id in default_string and a unique stamp in default_int64.
type target struct {
	coll  *resource.Collection
	val   *resource.Value
	stamp atomic.Int64
	hook  *hook
	mu    sync.Mutex
	log   []string
	dels  map[string]int // deletes begun
	gone  map[string]int // deletes finished
}

func newTarget(collection bool, ids []string) *target {
	x := &target{hook: &hook{}, dels: map[string]int{}, gone: map[string]int{}}
	opts := []resource.Option{resource.WithClock(hookClock{x.hook})}
	if collection {
		for _, id := range ids {
			opts = append(opts, resource.WithInitialRecord(id, x.msg(id)))
		}
		x.coll = resource.NewCollection(opts...)
	} else {
		if len(ids) > 0 {
			opts = append(opts, resource.WithInitialValue(x.msg("")))
		}
		x.val = resource.NewValue(opts...)
	}
	return x
}

func (x *target) msg(id string) *testproto.TestAllTypes {
	n := x.stamp.Add(1)
	return &testproto.TestAllTypes{DefaultString: id, DefaultInt64: n, DefaultInt32: int32(n % 3), DefaultDouble: float64(n)}
}

func (x *target) note(format string, args ...any) {
	x.mu.Lock()
	x.log = append(x.log, fmt.Sprintf(format, args...))
	x.mu.Unlock()
}

func (x *target) logText() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return strings.Join(x.log, "\n")
}

// write makes one of a few kinds of write.
func (x *target) write(kind int, id string) {
	if x.val != nil {
		m := x.msg("")
		opts := []resource.WriteOption{}
		if kind%2 == 1 {
			opts = append(opts, resource.WithUpdatePaths("default_int64", "default_double"))
		}
		_, err := x.val.Set(m, opts...)
		x.note("set %d: %v", m.DefaultInt64, err)
		return
	}
	switch kind % 6 {
	case 0, 1:
		m := x.msg(id)
		_, err := x.coll.Update(id, m, resource.WithCreateIfAbsent())
		x.note("update %s %d create: %v", id, m.DefaultInt64, err)
	case 2:
		m := x.msg(id)
		_, err := x.coll.Update(id, m, resource.WithUpdatePaths("default_int64", "default_double"))
		x.note("update %s %d masked: %v", id, m.DefaultInt64, err)
	case 3:
		m := x.msg(id)
		_, err := x.coll.Add(id, m)
		x.note("add %s %d: %v", id, m.DefaultInt64, err)
	default:
		x.mu.Lock()
		x.dels[id]++ // about to happen
		x.mu.Unlock()
		_, err := x.coll.Delete(id, resource.WithAllowMissing(true))
		x.mu.Lock()
		x.gone[id]++
		x.mu.Unlock()
		x.note("delete %s: %v", id, err)
	}
}

// contents is what is stored, by id.
func (x *target) contents() map[string]proto.Message {
	out := map[string]proto.Message{}
	if x.val != nil {
		if m := x.val.Get(); m != nil {
			out[""] = m
		}
		return out
	}
	for _, m := range x.coll.List() {
		out[m.(*testproto.TestAllTypes).DefaultString] = m
	}
	return out
}

// viewer folds the events of one subscription.
type viewer struct {
	x      *target
	name   string
	id     string // of PullID
	single bool
	only   bool
	back   bool
	mask   *fieldmaskpb.FieldMask
	pace   int
	hooked *hook
	incl   func(string, proto.Message) bool

	cancel context.CancelFunc
	dels0  int

	mu     sync.Mutex
	view   map[string]proto.Message
	base   map[string]proto.Message // what was stored when an updates-only subscription was surely open
	events []string
	closed bool
	notify chan struct{}
}

func (v *viewer) options() []resource.ReadOption {
	o := []resource.ReadOption{resource.WithBackpressure(v.back), resource.WithUpdatesOnly(v.only)}
	if v.mask != nil {
		o = append(o, resource.WithReadMask(v.mask))
	}
	if v.incl != nil {
		o = append(o, resource.WithInclude(v.incl))
	}
	return o
}

func (v *viewer) record(id string, kind types.ChangeType, m proto.Message, seed bool) {
	switch v.pace {
	case 1:
		runtime.Gosched()
	case 2:
		for i := 0; i < 2000; i++ {
			_ = i
		}
	case 3:
		time.Sleep(50 * time.Microsecond)
	}
	v.mu.Lock()
	if kind == types.ChangeType_REMOVE {
		delete(v.view, id)
		m = nil
	} else {
		v.view[id] = m
	}
	if len(v.events) < 400 {
		v.events = append(v.events, fmt.Sprintf("%s %q %s seed=%v", kind, id, txt(m), seed))
	}
	v.mu.Unlock()
	select {
	case v.notify <- struct{}{}:
	default:
	}
}

func (v *viewer) open() {
	ctx, cancel := context.WithCancel(context.Background())
	v.cancel = cancel
	if v.hooked != nil {
		ctx = hookCtx{ctx, v.hooked}
	}
	v.view = map[string]proto.Message{}
	v.notify = make(chan struct{}, 1)
	end := func() {
		v.mu.Lock()
		v.closed = true
		v.mu.Unlock()
		select {
		case v.notify <- struct{}{}:
		default:
		}
	}
	v.x.mu.Lock()
	v.dels0 = v.x.gone[v.id] // a delete still under way may or may not be part of the subscription
	v.x.mu.Unlock()
	switch {
	case v.x.val != nil:
		ch := v.x.val.Pull(ctx, v.options()...)
		go func() {
			for e := range ch {
				v.record("", 0, e.Value, e.SeedValue)
			}
			end()
		}()
	case v.single:
		ch := v.x.coll.PullID(ctx, v.id, v.options()...)
		go func() {
			for e := range ch {
				v.record(v.id, 0, e.Value, e.SeedValue)
			}
			end()
		}()
	default:
		ch := v.x.coll.Pull(ctx, v.options()...)
		go func() {
			for e := range ch {
				v.record(e.Id, e.ChangeType, e.NewValue, e.SeedValue)
			}
			end()
		}()
	}
	if v.only {
		v.base = v.x.contents()
	}
}

func txt(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	return vkit.Text(m)
}

// behind says how the view differs from what is stored, "" when it doesn't.
func (v *viewer) behind(want map[string]proto.Message) string {
	v.mu.Lock()
	defer v.mu.Unlock()
	ids := map[string]bool{}
	for id := range want {
		ids[id] = true
	}
	for id := range v.view {
		ids[id] = true
	}
	keys := make([]string, 0, len(ids))
	for id := range ids {
		keys = append(keys, id)
	}
	sort.Strings(keys)
	if v.single && v.closed {
		return "" // judged by ending
	}
	for _, id := range keys {
		if v.single && id != v.id {
			continue
		}
		w, wok := want[id]
		g, gok := v.view[id]
		if v.only && !gok {
			// nothing was delivered: then nothing changed since, or it was removed and not there before
			b, bok := v.base[id]
			if wok != bok || wok && !proto.Equal(w, b) {
				if !wok && (v.single || !v.back) {
					continue // removed again, the addition may have been merged away or come before
				}
				return fmt.Sprintf("%q is %s, it was %s when subscribing and no change was delivered", id, txt(w), txt(b))
			}
			continue
		}
		if wok != gok {
			return fmt.Sprintf("%q: stored=%v in view=%v", id, wok, gok)
		}
		if wok && !resmodel.SameView(w, g, v.mask) {
			return fmt.Sprintf("%q is %s, the view has %s", id, txt(resmodel.View(w, v.mask)), txt(g))
		}
	}
	return ""
}

func (v *viewer) describe() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	return fmt.Sprintf("%s pullid=%v %q updates-only=%v backpressure=%v mask=%s pace=%d closed=%v\nreceived:\n  %s",
		v.name, v.single, v.id, v.only, v.back, vkit.MaskText(v.mask), v.pace, v.closed, strings.Join(v.events, "\n  "))
}

// await waits until ok says "".
func (v *viewer) await(ok func() string) string {
	deadline := time.NewTimer(patience)
	defer deadline.Stop()
	for {
		why := ok()
		if why == "" {
			return ""
		}
		select {
		case <-v.notify:
		case <-deadline.C:
			return why
		}
	}
}

// settle checks all views once writers stopped.
func settle(t failer, x *target, vs []*viewer) {
	t.Helper()
	want := x.contents()
	for _, v := range vs {
		if why := v.await(func() string { return v.behind(want) }); why != "" {
			t.Fatalf("%s\nthe view is stale: %s\n%s", x.logText(), why, v.describe())
		}
		if v.single {
			v.mu.Lock()
			closed, saw := v.closed, len(v.events)
			v.mu.Unlock()
			_, present := want[v.id]
			x.mu.Lock()
			dels := x.dels[v.id] - v.dels0
			x.mu.Unlock()
			if closed && dels == 0 && present {
				t.Fatalf("%s\nthe channel was closed though the item was never removed\n%s", x.logText(), v.describe())
			}
			if !present && saw > 0 && !closed {
				if why := v.await(func() string {
					v.mu.Lock()
					defer v.mu.Unlock()
					if v.closed {
						return ""
					}
					return "the item is gone but the channel is open"
				}); why != "" {
					t.Fatalf("%s\n%s\n%s", x.logText(), why, v.describe())
				}
			}
		}
	}
	// a sentinel write: nothing stale arrives before it
	if x.val != nil {
		_, _ = x.val.Set(x.msg(""))
	} else {
		_, _ = x.coll.Update("~", x.msg("~"), resource.WithCreateIfAbsent())
	}
	last := want
	want = x.contents()
	for _, v := range vs {
		if why := v.await(func() string { return v.behind(want) }); why != "" {
			t.Fatalf("%s\nafter the sentinel the view is stale: %s\n%s", x.logText(), why, v.describe())
		}
	}
	_ = last
	for _, v := range vs {
		v.cancel()
	}
}

var masks = []*fieldmaskpb.FieldMask{nil, nil, nil, {Paths: []string{"default_int64"}}, {Paths: []string{"default_double", "default_string"}}, {Paths: []string{"default_int64", "default_nested_message.a"}}}

// brief lets fn run in its own goroutine and waits for it, but not long: it may have to wait for us.
func brief(wg *sync.WaitGroup, fn func()) {
	wg.Add(1)
	done := make(chan struct{})
	go func() {
		defer wg.Done()
		defer close(done)
		fn()
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Millisecond):
	}
}

// TestForced runs a second writer or a new subscriber inside the windows of a write, and a writer inside the window
// of a subscription.
func TestForced(t *testing.T) {
	vkit.Check(t, vkit.N(2500, 30000), func(t *rapid.T) {
		collection := rapid.IntRange(0, 3).Draw(t, "collection") > 0
		ids := []string{"a", "b", "c"}[:rapid.IntRange(0, 3).Draw(t, "initial")]
		x := newTarget(collection, ids)
		var vs []*viewer
		n := 0
		draw := func() *viewer {
			v := &viewer{x: x, name: fmt.Sprintf("subscriber %d", n)}
			n++
			v.only = rapid.IntRange(0, 3).Draw(t, "only") == 0
			v.back = rapid.Bool().Draw(t, "back")
			v.mask = masks[rapid.IntRange(0, len(masks)-1).Draw(t, "mask")]
			v.pace = rapid.IntRange(0, 3).Draw(t, "pace")
			if collection && rapid.IntRange(0, 3).Draw(t, "single") == 0 {
				v.single, v.id = true, rapid.SampledFrom([]string{"a", "b"}).Draw(t, "id")
			}
			return v
		}
		var wg sync.WaitGroup
		for i := rapid.IntRange(0, 3).Draw(t, "before"); i >= 0; i-- {
			v := draw()
			if rapid.Bool().Draw(t, "hooked") {
				v.hooked = x.hook
			}
			v.open()
			vs = append(vs, v)
		}
		kind := func(l string) int { return rapid.IntRange(0, 5).Draw(t, l) }
		id := func(l string) string { return rapid.SampledFrom([]string{"a", "a", "b"}).Draw(t, l) }
		for r := rapid.IntRange(1, 3).Draw(t, "rounds"); r > 0; r-- {
			k1, i1 := kind("first"), id("first.id")
			k2, i2 := kind("second"), id("second.id")
			skip := rapid.IntRange(0, 4).Draw(t, "skip")
			switch rapid.IntRange(0, 3).Draw(t, "window") {
			case 0, 1: // another write inside a write
				vkit.Within(t, "a write", func() {
					x.hook.arm(goid(), skip, func() {
						x.note("-- inside:")
						brief(&wg, func() { x.write(k2, i2) })
						x.note("-- end")
					})
					x.write(k1, i1)
				})
			case 2: // subscribing inside a write
				v := draw()
				vkit.Within(t, "a write", func() {
					opened := make(chan struct{})
					x.hook.arm(goid(), skip, func() {
						x.note("-- %s subscribes", v.name)
						brief(&wg, func() { v.open(); close(opened) })
						x.note("-- end")
					})
					x.write(k1, i1)
					x.hook.arm("", 0, nil)
					wg.Wait()
					select {
					case <-opened:
						vs = append(vs, v)
					default:
					}
				})
			case 3: // a write inside subscribing
				if !collection {
					continue
				}
				v := draw()
				h := &hook{}
				v.incl = func(string, proto.Message) bool { h.hit(); return true }
				vkit.Within(t, "subscribing", func() {
					h.arm(goid(), skip%2, func() {
						x.note("-- inside %s subscribing:", v.name)
						brief(&wg, func() { x.write(k2, i2) })
						x.note("-- end")
					})
					v.only = false
					v.open()
					h.arm("", 0, nil)
				})
				vs = append(vs, v)
			}
			x.hook.arm("", 0, nil)
			vkit.Within(t, "the inner call", wg.Wait)
		}
		if strings.Contains(x.logText(), "--") {
			vkit.Nontrivial(x.logText() + fmt.Sprint(len(vs)))
		}
		vkit.Class("forced collection=%v windows=%d", collection, strings.Count(x.logText(), "-- end"))
		settle(t, x, vs)
	})
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_CASE_SEED"), 10, 64)
	return n
}

// stress: writers at full speed, subscribers opening at any moment.
func stress(t *testing.T, rng *rand.Rand, collection bool) {
	vkit.Eval()
	ids := []string{"a", "b", "c", "d"}[:rng.Intn(5)]
	x := newTarget(collection, ids)
	writers := 1 + rng.Intn(3)
	var wwg, swg sync.WaitGroup
	start := make(chan struct{})
	deletes := rng.Intn(3) > 0
	few := rng.Intn(2) == 0
	fresh := rng.Intn(3) == 0 // every id is written once: a missed event is never made up for
	for w := 0; w < writers; w++ {
		r := rand.New(rand.NewSource(rng.Int63()))
		n := 1 + rng.Intn(40)
		name := string(rune('p' + w))
		wwg.Add(1)
		go func() {
			defer wwg.Done()
			<-start
			for i := 0; i < n; i++ {
				k := r.Intn(6)
				if !deletes && k > 3 {
					k = 0
				}
				id := []string{"a", "b", "c", "d"}[r.Intn(4)]
				if few {
					id = "a"
				}
				if fresh && collection {
					x.write(0, fmt.Sprintf("%s%d", name, i))
					continue
				}
				x.write(k, id)
				if r.Intn(8) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	var vs []*viewer
	for s := 1 + rng.Intn(6); s > 0; s-- {
		v := &viewer{x: x, name: fmt.Sprintf("subscriber %d", s)}
		v.only = rng.Intn(4) == 0
		v.back = rng.Intn(2) == 0
		v.mask = masks[rng.Intn(len(masks))]
		v.pace = rng.Intn(4)
		if collection && rng.Intn(4) == 0 {
			v.single, v.id = true, "a"
		}
		vs = append(vs, v)
		spin := rng.Intn(3000)
		wait := time.Duration(rng.Intn(300)) * time.Microsecond
		early := rng.Intn(3)
		swg.Add(1)
		go func() {
			defer swg.Done()
			if early == 0 {
				v.open()
				return
			}
			<-start
			if early == 1 {
				time.Sleep(wait)
			} else {
				for i := 0; i < spin; i++ {
					_ = i
				}
			}
			v.open()
		}()
	}
	vkit.Within(t, "writers and subscribers", func() {
		close(start)
		wwg.Wait()
		swg.Wait()
	})
	vkit.Nontrivial(fmt.Sprint(collection, writers, len(vs), x.logText()))
	vkit.Class("stress collection=%v writers=%d", collection, writers)
	settle(t, x, vs)
}

func TestStressValue(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	for i := 0; i < vkit.N(3000, 60000); i++ {
		stress(t, rng, false)
	}
}

func TestStressCollection(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	for i := 0; i < vkit.N(3000, 60000); i++ {
		stress(t, rng, true)
	}
}

// TestSubscribeRace: many short subscriptions against one writer at full speed.
func TestSubscribeRace(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	for round := 0; round < vkit.N(150, 2500); round++ {
		collection := rng.Intn(2) == 0
		fresh := rng.Intn(2) == 0
		x := newTarget(collection, []string{"a"})
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < 1+rng.Intn(2); w++ {
			wg.Add(1)
			name := string(rune('p' + w))
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					if fresh && collection {
						id := fmt.Sprintf("%s%d", name, i%3000)
						_, _ = x.coll.Update(id, x.msg(id), resource.WithCreateIfAbsent())
						continue
					}
					if x.val != nil {
						_, _ = x.val.Set(x.msg(""))
					} else {
						_, _ = x.coll.Update("a", x.msg("a"))
					}
				}
			}()
		}
		var vs []*viewer
		var open sync.WaitGroup
		var mu sync.Mutex
		for s := 0; s < 4; s++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			open.Add(1)
			go func() {
				defer open.Done()
				for k := 0; k < 6; k++ {
					v := &viewer{x: x, name: fmt.Sprintf("subscriber %d.%d", s, k), back: r.Intn(4) == 0, only: r.Intn(5) == 0}
					v.single = collection && r.Intn(4) == 0
					if v.single {
						v.id = "a"
					}
					v.open()
					mu.Lock()
					vs = append(vs, v)
					mu.Unlock()
				}
			}()
		}
		vkit.Within(t, "subscribing while a writer runs", func() {
			open.Wait()
			close(stop)
			wg.Wait()
		})
		vkit.Eval()
		vkit.Nontrivial(fmt.Sprint("subscribe", round, collection))
		settle(t, x, vs)
	}
}
