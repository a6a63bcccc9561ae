package c19

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
)

func TestMain(m *testing.M) { vkit.Main(m) }

var bg = context.Background()

// ticker is the model clock. Its time moves only when the harness says so, and each reading is a window.
type ticker struct {
	clock.Clock
	mu   sync.Mutex
	now  time.Time
	hook func()
}

func newTicker() *ticker { return &ticker{Clock: clock.Real(), now: time.Unix(1000, 0).UTC()} }

func (c *ticker) Now() time.Time {
	c.mu.Lock()
	h := c.hook
	now := c.now
	c.mu.Unlock()
	if h != nil {
		h()
	}
	return now
}

func (c *ticker) tick() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.now = c.now.Add(time.Second + 7)
	return c.now
}

func (c *ticker) setHook(h func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.hook = h
}

// rngSource is a deterministic source with a window at each draw.
type rngSource struct {
	mu   sync.Mutex
	src  rand.Source
	hook func()
}

func (s *rngSource) Int63() int64 {
	s.mu.Lock()
	h := s.hook
	v := s.src.Int63()
	s.mu.Unlock()
	if h != nil {
		h()
	}
	return v
}
func (s *rngSource) Seed(int64) {}

type op struct {
	kind   string // create add update delete set change clear
	id     string
	normal bool
	mask   []string
	masked bool
	allow  bool // delete: allow missing, update: create if absent
	rpc    bool // through the RPC of the server, where there is one
	full   *traits.ElectricMode
	extra  []resource.WriteOption
}

func (o op) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s(%s", o.kind, o.id)
	if o.normal {
		b.WriteString(" normal")
	}
	if o.masked {
		fmt.Fprintf(&b, " mask=%v", o.mask)
	}
	if o.allow {
		b.WriteString(" allow")
	}
	if o.full != nil {
		b.WriteString(" " + vkit.Text(o.full))
	}
	b.WriteString(")")
	if o.rpc {
		b.WriteString("/rpc")
	}
	return b.String()
}

func (o op) mode() *traits.ElectricMode {
	m := &traits.ElectricMode{Title: "t-" + o.id}
	if o.full != nil {
		m = vkit.Copy(o.full)
	}
	m.Id, m.Normal = o.id, o.normal
	return m
}

func (o op) opts() []resource.WriteOption {
	var out []resource.WriteOption
	if o.masked {
		out = append(out, resource.WithUpdateMask(&fieldmaskpb.FieldMask{Paths: o.mask}))
	}
	return append(out, o.extra...)
}

type dev struct {
	m   *electricpb.Model
	s   *electricpb.ModelServer
	clk *ticker
	rng *rngSource
}

func newDev(opts ...resource.Option) *dev {
	d := &dev{clk: newTicker(), rng: &rngSource{src: rand.NewSource(7)}}
	opts = append([]resource.Option{electricpb.WithClock(d.clk), electricpb.WithRNG(rand.New(d.rng))}, opts...)
	d.m = electricpb.NewModel(opts...)
	d.s = electricpb.NewModelServer(d.m)
	return d
}

func (d *dev) do(o op) (*traits.ElectricMode, error) {
	switch o.kind {
	case "create":
		m := o.mode()
		m.Id = ""
		if o.rpc {
			return d.s.CreateMode(bg, &electricpb.CreateModeRequest{Name: "n", Mode: m})
		}
		return d.m.CreateMode(m)
	case "add":
		m := o.mode()
		return m, d.m.AddMode(m)
	case "update":
		if o.rpc && !o.allow && len(o.extra) == 0 {
			req := &electricpb.UpdateModeRequest{Name: "n", Mode: o.mode()}
			if o.masked {
				req.UpdateMask = &fieldmaskpb.FieldMask{Paths: o.mask}
			}
			return d.s.UpdateMode(bg, req)
		}
		opts := o.opts()
		if o.allow {
			opts = append(opts, resource.WithCreateIfAbsent())
		}
		return d.m.UpdateMode(o.mode(), opts...)
	case "delete":
		if o.rpc && len(o.extra) == 0 {
			_, err := d.s.DeleteMode(bg, &electricpb.DeleteModeRequest{Name: "n", Id: o.id, AllowMissing: o.allow})
			return nil, err
		}
		return nil, d.m.DeleteMode(o.id, append(o.opts(), resource.WithAllowMissing(o.allow))...)
	case "set":
		m := o.mode()
		return m, d.m.SetActiveMode(m)
	case "change":
		if o.rpc {
			return d.s.UpdateActiveMode(bg, &traits.UpdateActiveModeRequest{Name: "n", ActiveMode: o.mode()})
		}
		return d.m.ChangeActiveMode(o.id)
	case "clear":
		if o.rpc {
			return d.s.ClearActiveMode(bg, &traits.ClearActiveModeRequest{Name: "n"})
		}
		return d.m.ChangeToNormalMode()
	}
	panic(o.kind)
}

// view is what can be seen from outside.
type view struct {
	normal map[string]bool // by id, the modes there are
	ids    []string
	active *traits.ElectricMode
}

func (v view) normals() (out []string) {
	for _, id := range v.ids {
		if v.normal[id] {
			out = append(out, id)
		}
	}
	return out
}

func (v view) String() string {
	return fmt.Sprintf("modes %v, normal %v, active %q", v.ids, v.normals(), v.active.GetId())
}

type history struct {
	d       *dev
	changed bool
	log     []string
}

func (h *history) what() string { return strings.Join(h.log, " ") }

// look reads the state and checks the invariants that hold after every operation.
func (h *history) look(t vkit.Fataler) view {
	t.Helper()
	v := view{normal: map[string]bool{}}
	for _, m := range h.d.m.Modes() {
		if _, dup := v.normal[m.Id]; dup {
			t.Fatalf("after %s: two modes with id %q", h.what(), m.Id)
		}
		v.normal[m.Id] = m.Normal
		v.ids = append(v.ids, m.Id)
	}
	v.active = h.d.m.ActiveMode()
	if n := v.normals(); len(n) > 1 {
		t.Fatalf("after %s: %d modes are normal: %v", h.what(), len(n), n)
	}
	if h.changed {
		if _, ok := v.normal[v.active.Id]; !ok {
			t.Fatalf("after %s: the active mode %q doesn't exist: %v", h.what(), v.active.Id, v)
		}
		if _, ok := h.d.m.FindMode(v.active.Id); !ok {
			t.Fatalf("after %s: the active mode %q can't be found", h.what(), v.active.Id)
		}
	}
	nm, ok := h.d.m.NormalMode()
	if ok != (len(v.normals()) == 1) || ok && (nm.Id != v.normals()[0] || !nm.Normal) {
		t.Fatalf("after %s: NormalMode is %q, %v with %v", h.what(), nm.GetId(), ok, v)
	}
	rpc, err := h.d.s.GetActiveMode(bg, &traits.GetActiveModeRequest{Name: "n"})
	if err != nil || !proto.Equal(rpc, v.active) {
		t.Fatalf("after %s: GetActiveMode %v, %v; ActiveMode %v", h.what(), rpc, err, v.active)
	}
	return v
}

// step runs one operation and checks what the property says about it.
func (h *history) step(t vkit.Fataler, before view, o op) view {
	t.Helper()
	now := h.d.clk.tick()
	h.log = append(h.log, o.String())
	var resp *traits.ElectricMode
	var err error
	vkit.NoPanic(t, h.what(), func() { resp, err = h.d.do(o) })
	h.log[len(h.log)-1] += fmt.Sprintf("=%v", status.Code(err))
	if err == nil && (o.kind == "set" || o.kind == "change" || o.kind == "clear") {
		h.changed = true
	}
	after := h.look(t)
	has := func(v view, id string) bool { _, ok := v.normal[id]; return ok }
	if has(before, before.active.Id) && !has(after, before.active.Id) {
		t.Fatalf("after %s: the active mode %q was deleted", h.what(), before.active.Id)
	}
	switch o.kind {
	case "create", "add", "update", "delete":
		if after.active.Id != before.active.Id {
			t.Fatalf("after %s: the active mode went from %q to %q", h.what(), before.active.Id, after.active.Id)
		}
	default:
		if strings.Join(before.ids, ",") != strings.Join(after.ids, ",") || strings.Join(before.normals(), ",") != strings.Join(after.normals(), ",") {
			t.Fatalf("after %s: modes went from %v to %v", h.what(), before, after)
		}
		if err != nil && !proto.Equal(before.active, after.active) {
			t.Fatalf("after %s: the active mode went from %v to %v", h.what(), before.active, after.active)
		}
	}
	switch o.kind {
	case "delete":
		switch {
		case !has(before, o.id) && !o.allow:
			if status.Code(err) != codes.NotFound {
				t.Fatalf("%s: deleting an absent mode gave %v, want NotFound", h.what(), err)
			}
		case !has(before, o.id):
			if err != nil {
				t.Fatalf("%s: deleting an absent mode with allow missing gave %v", h.what(), err)
			}
		case o.id == before.active.Id:
			if err == nil {
				t.Fatalf("%s: deleting the active mode succeeded", h.what())
			}
		case err == nil && has(after, o.id):
			t.Fatalf("%s: %q is still there", h.what(), o.id)
		}
		if err != nil && len(after.ids) != len(before.ids) {
			t.Fatalf("%s: failed delete changed the modes from %v to %v", h.what(), before, after)
		}
	case "set", "change":
		if (err == nil) != has(before, o.id) {
			t.Fatalf("%s: mode %q exists: %v, got %v", h.what(), o.id, has(before, o.id), err)
		}
		if err == nil && after.active.Id != o.id {
			t.Fatalf("%s: active mode is %q", h.what(), after.active.Id)
		}
	case "clear":
		n := before.normals()
		if (err == nil) != (len(n) == 1) {
			t.Fatalf("%s: normal modes %v, got %v", h.what(), n, err)
		}
		if err == nil && after.active.Id != n[0] {
			t.Fatalf("%s: active mode is %q, the normal one is %q", h.what(), after.active.Id, n[0])
		}
	}
	if err == nil && (o.kind == "change" || o.kind == "clear") {
		if !proto.Equal(resp, after.active) {
			t.Fatalf("%s: responded %v, active mode is %v", h.what(), resp, after.active)
		}
		if before.active.Id != after.active.Id {
			if st := after.active.StartTime; st == nil || !st.AsTime().Equal(now) {
				t.Fatalf("%s: switched from %q to %q at %v, start time is %v", h.what(), before.active.Id, after.active.Id, now, st)
			}
		}
	}
	return after
}

// watch folds PullModes and PullActiveMode as events come, with every event delivered.
type watch struct {
	t      vkit.Fataler
	mu     sync.Mutex
	modes  map[string]*traits.ElectricMode
	ever   map[string]bool
	active *traits.ElectricMode
	bad    string
	stop   func()
	done   sync.WaitGroup
}

func newWatch(d *dev) *watch {
	w := &watch{modes: map[string]*traits.ElectricMode{}, ever: map[string]bool{d.m.ActiveMode().Id: true}}
	ctx, stop := context.WithCancel(bg)
	w.stop = stop
	pm := d.m.PullModes(ctx, resource.WithBackpressure(true))
	pa := d.m.PullActiveMode(ctx, resource.WithBackpressure(true))
	w.done.Add(2)
	go func() {
		defer w.done.Done()
		for c := range pm {
			w.mu.Lock()
			if c.NewValue == nil {
				delete(w.modes, c.OldValue.GetId())
			} else {
				w.modes[c.NewValue.Id] = c.NewValue
				w.ever[c.NewValue.Id] = true
			}
			n := 0
			for _, m := range w.modes {
				if m.Normal {
					n++
				}
			}
			if n > 1 && w.bad == "" {
				w.bad = fmt.Sprintf("PullModes showed %d normal modes: %v", n, w.modes)
			}
			w.mu.Unlock()
		}
	}()
	go func() {
		defer w.done.Done()
		for c := range pa {
			w.mu.Lock()
			w.active = c.ActiveMode
			w.mu.Unlock()
		}
	}()
	return w
}

// finish waits for the streams to catch up with the model.
func (w *watch) finish(t vkit.Fataler, h *history) {
	t.Helper()
	want := h.look(t)
	deadline := time.Now().Add(30 * time.Second)
	for {
		w.mu.Lock()
		bad := w.bad
		same := len(w.modes) == len(want.ids) && w.active != nil && proto.Equal(w.active, want.active)
		for id, n := range want.normal {
			same = same && w.modes[id] != nil && w.modes[id].Normal == n
		}
		w.mu.Unlock()
		if bad != "" {
			t.Fatalf("%s: %s", h.what(), bad)
		}
		if same {
			break
		}
		if time.Now().After(deadline) {
			t.Fatalf("%s: streams show %v and active %v, the model has %v", h.what(), w.modes, w.active, want)
		}
		time.Sleep(50 * time.Microsecond)
	}
	w.stop()
	vkit.Within(t, "streams end", w.done.Wait)
}

type start struct {
	name string
	opts func() []resource.Option
}

func mode(id string, normal bool) *traits.ElectricMode {
	return &traits.ElectricMode{Id: id, Title: "initial " + id, Normal: normal}
}

var starts = []start{
	{"empty", func() []resource.Option { return nil }},
	{"a!b", func() []resource.Option {
		return []resource.Option{electricpb.WithInitialMode(mode("a", true), mode("b", false))}
	}},
	{"ab active a", func() []resource.Option {
		return []resource.Option{electricpb.WithInitialMode(mode("a", false), mode("b", false)), electricpb.WithInitialActiveMode(mode("a", false))}
	}},
	{"b active absent a", func() []resource.Option {
		return []resource.Option{electricpb.WithInitialMode(mode("b", false)), electricpb.WithInitialActiveMode(mode("a", true))}
	}},
}

func alphabet() []op {
	ops := []op{
		{kind: "create"}, {kind: "create", normal: true}, {kind: "clear"},
		{kind: "change", id: "zz"}, {kind: "delete", id: "zz"}, {kind: "delete", id: "zz", allow: true}, {kind: "set", id: "zz"},
		{kind: "update", id: "b", normal: true, masked: true, mask: []string{"normal", "title"}, allow: true},
		{kind: "update", id: "b", normal: true, masked: true, mask: []string{"title"}, allow: true},
	}
	for _, id := range []string{"a", "b"} {
		ops = append(ops,
			op{kind: "add", id: id}, op{kind: "add", id: id, normal: true},
			op{kind: "update", id: id}, op{kind: "update", id: id, normal: true},
			op{kind: "update", id: id, normal: true, masked: true, mask: []string{"normal"}},
			op{kind: "update", id: id, normal: true, masked: true, mask: []string{"title"}},
			op{kind: "delete", id: id}, op{kind: "delete", id: id, allow: true},
			op{kind: "set", id: id}, op{kind: "change", id: id},
		)
	}
	return ops
}

// TestSequences runs every sequence of three operations (four thorough), from each start, by model and by RPC.
func TestSequences(t *testing.T) {
	ops := alphabet()
	n := vkit.N(3, 4)
	var wg sync.WaitGroup
	for _, st := range starts {
		for _, rpc := range []bool{false, true} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				idx := make([]int, n)
				for {
					h := &history{d: newDev(st.opts()...), log: []string{"[" + st.name + "]"}}
					v := h.look(t)
					for _, i := range idx {
						o := ops[i]
						o.rpc = rpc
						v = h.step(t, v, o)
					}
					vkit.Eval()
					if h.changed && len(v.normals()) > 0 {
						vkit.Nontrivial(h.what())
					}
					k := n - 1
					for k >= 0 {
						idx[k]++
						if idx[k] < len(ops) {
							break
						}
						idx[k] = 0
						k--
					}
					if k < 0 {
						return
					}
				}
			}()
		}
	}
	wg.Wait()
}

var ids = []string{"a", "b", "c", "dd"}

func genOp(t *rapid.T, known []string) op {
	o := op{
		kind:   vkit.Pick(t, []string{"create", "add", "update", "update", "update", "delete", "delete", "set", "change", "change", "clear"}, "kind"),
		normal: rapid.IntRange(0, 2).Draw(t, "normal") == 0,
		allow:  rapid.IntRange(0, 2).Draw(t, "allow") == 0,
		rpc:    rapid.Bool().Draw(t, "rpc"),
	}
	o.id = vkit.Pick(t, ids, "id")
	if len(known) > 0 && rapid.IntRange(0, 2).Draw(t, "known") > 0 {
		o.id = vkit.Pick(t, known, "knownID")
	}
	if o.kind == "create" || o.kind == "clear" {
		o.id = ""
	}
	if o.kind == "update" && rapid.Bool().Draw(t, "masked") {
		o.masked = true
		o.mask = rapid.SliceOfN(rapid.SampledFrom([]string{"normal", "normal", "title", "description", "segments", "voltage", "id", "start_time", "nope"}), 0, 3).Draw(t, "mask")
	}
	if o.kind != "delete" && o.kind != "clear" && rapid.IntRange(0, 2).Draw(t, "full") == 0 {
		o.full = vkit.Gen[*traits.ElectricMode](t, vkit.MsgGen{MaxFields: 4, MaxDepth: 2}, "mode")
	}
	return o
}

func genStart(t *rapid.T) []resource.Option {
	var opts []resource.Option
	k := rapid.IntRange(0, 3).Draw(t, "initial")
	normal := rapid.IntRange(-2, 2).Draw(t, "initialNormal")
	for i := 0; i < k; i++ {
		m := vkit.Gen[*traits.ElectricMode](t, vkit.MsgGen{MaxFields: 3, MaxDepth: 1}, "initialMode")
		m.Id, m.Normal = ids[i], i == normal
		opts = append(opts, electricpb.WithInitialMode(m))
	}
	if rapid.IntRange(0, 3).Draw(t, "initialActive") == 0 {
		opts = append(opts, electricpb.WithInitialActiveMode(mode(vkit.Pick(t, ids, "activeID"), rapid.Bool().Draw(t, "an"))))
	}
	return opts
}

// TestRandom runs long random sequences, with the streams folded alongside.
func TestRandom(t *testing.T) {
	vkit.Check(t, vkit.N(2500, 100000), func(t *rapid.T) {
		h := &history{d: newDev(genStart(t)...)}
		v := h.look(t)
		var w *watch
		if rapid.IntRange(0, 3).Draw(t, "watched") == 0 {
			w = newWatch(h.d)
		}
		h.log = append(h.log, "["+v.String()+"]")
		switched := 0
		for n := rapid.IntRange(1, 14).Draw(t, "n"); n > 0; n-- {
			before := v.active.Id
			v = h.step(t, v, genOp(t, v.ids))
			if v.active.Id != before {
				switched++
			}
		}
		if switched > 0 && len(v.ids) > 1 {
			vkit.Nontrivial(h.what())
		}
		if w != nil {
			w.finish(t, h)
		}
		vkit.Class("switched=%d normal=%v watched=%v", min(switched, 3), len(v.normals()), w != nil)
	})
}

// state is the reference for concurrent histories.
type state struct {
	modes  map[string]bool
	active string
}

func (s state) key() string {
	var out []string
	for id, n := range s.modes {
		out = append(out, fmt.Sprintf("%s=%v", id, n))
	}
	sort.Strings(out)
	return strings.Join(out, ",") + "|" + s.active
}

func (s state) with(id string, normal bool) state {
	n := state{map[string]bool{}, s.active}
	for k, v := range s.modes {
		n.modes[k] = v
	}
	n.modes[id] = normal
	return n
}

func (s state) normalID() (string, bool) {
	for id, n := range s.modes {
		if n {
			return id, true
		}
	}
	return "", false
}

// apply returns the state after o and whether o succeeds. got is the id a create was given.
func (s state) apply(o op, got string) (state, bool) {
	_, has := s.modes[o.id]
	nid, hasNormal := s.normalID()
	switch o.kind {
	case "create":
		if o.normal && hasNormal {
			return s, false
		}
		return s.with(got, o.normal), true
	case "add":
		if has || o.normal && hasNormal {
			return s, false
		}
		return s.with(o.id, o.normal), true
	case "update":
		writes := !o.masked
		for _, p := range o.mask {
			writes = writes || p == "normal"
		}
		if !has && !o.allow || writes && o.normal && hasNormal && nid != o.id {
			return s, false
		}
		n := s.modes[o.id]
		if writes {
			n = o.normal
		}
		return s.with(o.id, n), true
	case "delete":
		if !has {
			return s, o.allow
		}
		if s.active == o.id {
			return s, false
		}
		n := s.with(o.id, false)
		delete(n.modes, o.id)
		return n, true
	case "set", "change":
		if !has {
			return s, false
		}
		return state{s.modes, o.id}, true
	case "clear":
		if !hasNormal {
			return s, false
		}
		return state{s.modes, nid}, true
	}
	panic(o.kind)
}

type call struct {
	o          op
	start, end int64
	ok         bool
	id         string // of the response
	code       codes.Code
}

// linear searches an order of the calls, consistent with their times, that explains every outcome and the end.
func linear(init state, calls []*call, final string) bool {
	seen := map[string]bool{}
	var rec func(done uint, s state) bool
	rec = func(done uint, s state) bool {
		if done == 1<<len(calls)-1 {
			return s.key() == final
		}
		k := fmt.Sprint(done, s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		minEnd := int64(1 << 62)
		for i, c := range calls {
			if done&(1<<i) == 0 && c.end < minEnd {
				minEnd = c.end
			}
		}
		for i, c := range calls {
			if done&(1<<i) != 0 || c.start > minEnd {
				continue
			}
			n, ok := s.apply(c.o, c.id)
			if ok != c.ok {
				continue
			}
			if ok && (c.o.kind == "change" || c.o.kind == "clear") && n.active != c.id {
				continue
			}
			if rec(done|1<<i, n) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

var seq atomic.Int64

func (d *dev) timed(t vkit.Fataler, o op) *call {
	c := &call{o: o, start: seq.Add(1)}
	resp, err := d.do(o)
	c.end = seq.Add(1)
	c.ok = err == nil
	c.code = status.Code(err)
	c.id = resp.GetId()
	return c
}

func (c *call) String() string { return fmt.Sprintf("%s=%v[%d-%d]", c.o, c.code, c.start, c.end) }

func stateOf(v view) state { return state{v.normal, v.active.Id} }

// judge checks a finished concurrent history.
func judge(t vkit.Fataler, h *history, before view, calls []*call) view {
	t.Helper()
	sort.Slice(calls, func(i, j int) bool { return calls[i].start < calls[j].start })
	for _, c := range calls {
		h.log = append(h.log, c.String())
		if c.ok && (c.o.kind == "set" || c.o.kind == "change" || c.o.kind == "clear") {
			h.changed = true
		}
		if c.o.kind == "delete" && c.o.allow && c.code == codes.NotFound {
			t.Fatalf("%s: delete with allow missing reported NotFound", h.what())
		}
	}
	after := h.look(t)
	if !linear(stateOf(before), calls, stateOf(after).key()) {
		t.Fatalf("no order of the calls explains their outcomes: from %v, %s, to %v", before, h.what(), after)
	}
	return after
}

// simple keeps operations whose effect the concurrent reference knows exactly.
func simple(o op) op {
	o.full = nil
	if o.masked {
		var m []string
		for _, p := range o.mask {
			if p != "nope" && p != "id" {
				m = append(m, p)
			}
		}
		o.mask = m
	}
	if o.kind == "update" && o.allow {
		o.rpc = false
	}
	return o
}

// windows calls fire at the window-th point at which o lets outside code run, returns how many points there were.
func (d *dev) windows(o op, window int, fire func()) (op, func() int) {
	var n atomic.Int64
	hit := func() {
		if int(n.Add(1))-1 == window {
			fire()
		}
	}
	d.clk.setHook(hit)
	d.rng.mu.Lock()
	d.rng.hook = hit
	d.rng.mu.Unlock()
	switch o.kind {
	case "update":
		o.extra = []resource.WriteOption{resource.InterceptBefore(func(_, _ proto.Message) { hit() })}
	case "delete":
		o.extra = []resource.WriteOption{resource.WithExpectedCheck(func(proto.Message) error { hit(); return nil })}
	}
	return o, func() int {
		d.clk.setHook(nil)
		d.rng.mu.Lock()
		d.rng.hook = nil
		d.rng.mu.Unlock()
		return int(n.Load())
	}
}

// interfere runs inner, in other goroutines, inside the given window of outer.
func interfere(t vkit.Fataler, h *history, outer op, window int, inner []op) (n int) {
	before := h.look(t)
	d := h.d
	var mu sync.Mutex
	var calls []*call
	var wg sync.WaitGroup
	o, end := d.windows(outer, window, func() {
		base := vkit.LeakBaseline()
		for _, in := range inner {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := d.timed(t, in)
				mu.Lock()
				calls = append(calls, c)
				mu.Unlock()
			}()
		}
		base.Quiet(t, "interference")
	})
	vkit.Within(t, h.what()+" "+outer.String(), func() {
		c := d.timed(t, o)
		c.o = outer
		wg.Wait()
		mu.Lock()
		calls = append(calls, c)
		mu.Unlock()
	})
	n = end()
	judge(t, h, before, calls)
	return n
}

// TestWindows puts every operation into every window of every other.
func TestWindows(t *testing.T) {
	ops := alphabet()
	for _, st := range starts {
		for _, act := range []string{"", "a", "b"} {
			for _, outer := range ops {
				max := 1
				for w := 0; w < max && w < 4; w++ {
					for _, inner := range ops {
						d := newDev(st.opts()...)
						h := &history{d: d, log: []string{"[" + st.name + "]"}}
						if act != "" {
							if _, err := d.m.ChangeActiveMode(act); err != nil {
								continue
							}
							h.changed = true
							h.log = append(h.log, "active "+act)
						}
						n := interfere(t, h, outer, w, []op{inner})
						if n > max {
							max = n
						}
						vkit.Eval()
						if n > w {
							vkit.Nontrivial(fmt.Sprintf("%s window %d", h.what(), w))
						}
						if t.Failed() {
							return
						}
					}
				}
			}
		}
	}
}

// TestInterference is the same with random states and up to two interfering operations.
func TestInterference(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 60000), func(t *rapid.T) {
		h := &history{d: newDev(genStart(t)...)}
		v := h.look(t)
		for n := rapid.IntRange(0, 3).Draw(t, "prefix"); n > 0; n-- {
			v = h.step(t, v, genOp(t, v.ids))
		}
		outer := simple(genOp(t, v.ids))
		inner := []op{simple(genOp(t, v.ids))}
		if rapid.Bool().Draw(t, "two") {
			inner = append(inner, simple(genOp(t, v.ids)))
		}
		h.log = append([]string{"[" + v.String() + "]"}, "window:")
		w := rapid.IntRange(0, 2).Draw(t, "window")
		if interfere(t, h, outer, w, inner) > w {
			vkit.Nontrivial(h.what())
		}
	})
}

// TestConcurrent runs 2-4 goroutines.
func TestConcurrent(t *testing.T) {
	vkit.Check(t, vkit.N(2500, 80000), func(t *rapid.T) {
		h := &history{d: newDev(genStart(t)...)}
		v := h.look(t)
		for n := rapid.IntRange(0, 2).Draw(t, "prefix"); n > 0; n-- {
			v = h.step(t, v, genOp(t, v.ids))
		}
		h.log = []string{"[" + v.String() + "]"}
		k := rapid.IntRange(2, 4).Draw(t, "goroutines")
		scripts := make([][]op, k)
		for i := range scripts {
			for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
				scripts[i] = append(scripts[i], simple(genOp(t, v.ids)))
			}
		}
		yield := rapid.IntRange(0, 3).Draw(t, "yield")
		var w *watch
		if rapid.IntRange(0, 3).Draw(t, "watched") == 0 {
			w = newWatch(h.d)
		}
		if yield > 0 {
			f := func() {
				for i := 0; i < yield; i++ {
					runtime.Gosched()
				}
			}
			h.d.clk.setHook(f)
			h.d.rng.hook = f
		}
		var mu sync.Mutex
		var calls []*call
		vkit.Within(t, "concurrent calls", func() {
			var wg sync.WaitGroup
			for _, s := range scripts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, o := range s {
						c := h.d.timed(t, o)
						mu.Lock()
						calls = append(calls, c)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		})
		h.d.clk.setHook(nil)
		judge(t, h, v, calls)
		n := 0
		for _, c := range calls {
			if c.ok {
				n++
			}
		}
		if n > 1 {
			vkit.Nontrivial(h.what())
		}
		if w != nil {
			w.finish(t, h)
		}
		vkit.Class("calls=%d", len(calls))
	})
}

var _ = types.ChangeType_ADD
