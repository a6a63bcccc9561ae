package c01

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	_ "github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/resmodel"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type failer interface {
	Helper()
	Fatalf(string, ...any)
}

// event is one observed change.
type event struct {
	id       string
	old, new proto.Message
	at       time.Time
}

// watch collects what a resource emits until an event at the sentinel time.
type watch struct {
	mu     sync.Mutex
	events []event
	done   chan struct{}
	stop   context.CancelFunc
}

var sentinel = time.Unix(4e9, 0)

func watchCollection(c *resource.Collection) *watch {
	ctx, stop := context.WithCancel(context.Background())
	w := &watch{done: make(chan struct{}), stop: stop}
	ch := c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
	go func() {
		defer close(w.done)
		for e := range ch {
			if e.ChangeTime.Equal(sentinel) {
				return
			}
			w.mu.Lock()
			w.events = append(w.events, event{e.Id, e.OldValue, e.NewValue, e.ChangeTime})
			w.mu.Unlock()
		}
	}()
	return w
}

func watchValue(c *resource.Value) *watch {
	ctx, stop := context.WithCancel(context.Background())
	w := &watch{done: make(chan struct{}), stop: stop}
	ch := c.Pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
	go func() {
		defer close(w.done)
		for e := range ch {
			if e.ChangeTime.Equal(sentinel) {
				return
			}
			w.mu.Lock()
			w.events = append(w.events, event{"", nil, e.Value, e.ChangeTime})
			w.mu.Unlock()
		}
	}()
	return w
}

func (w *watch) finish(t failer, what string, write func()) []event {
	t.Helper()
	vkit.Within(t, what+": the sentinel write", func() { write(); <-w.done })
	w.stop()
	return w.events
}

func checkEvents(t failer, what string, got []event, want []*resmodel.Effect) {
	t.Helper()
	if len(got) != len(want) {
		var b strings.Builder
		for _, e := range got {
			fmt.Fprintf(&b, "\n  %q -> %s", e.id, txt(e.new))
		}
		t.Fatalf("%s\n%d writes took effect but %d events were emitted:%s", what, len(want), len(got), b.String())
	}
	for i, e := range got {
		w := want[i]
		if e.id != w.Key || (e.new == nil) != (w.New == nil) || e.new != nil && !proto.Equal(e.new, w.New) {
			t.Fatalf("%s\nevent %d is %q -> %s, the write left %q -> %s", what, i, e.id, txt(e.new), w.Key, txt(w.New))
		}
	}
}

func txt(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	return vkit.Text(m)
}

// contents compares everything stored with the model.
func contents(t failer, what string, c *resource.Collection, conf *resmodel.Config, s resmodel.State) {
	t.Helper()
	list := c.List()
	keys := s.Keys()
	if len(list) != len(keys) {
		t.Fatalf("%s\nList has %d items, want %d: %s", what, len(list), len(keys), s)
	}
	for i, k := range keys {
		if !proto.Equal(list[i], s.Items[k]) {
			t.Fatalf("%s\nList[%d] is %s, want %q %s", what, i, txt(list[i]), k, txt(s.Items[k]))
		}
	}
}

type run struct {
	conf  *resmodel.Config
	log   []string
	state resmodel.State
	effs  []*resmodel.Effect
	known []string // ids reported by the id callback
}

func (r *run) String() string { return r.conf.String() + "\n" + strings.Join(r.log, "\n") }

func (r *run) step(t failer, o resmodel.Op, call func(resmodel.Op) resmodel.Res) {
	r.log = append(r.log, o.String())
	var res resmodel.Res
	vkit.NoPanic(t, r.String(), func() { res = call(o) })
	r.log[len(r.log)-1] += "\n      -> " + res.String()
	next, eff, err := r.conf.Step(r.state, o, res)
	if err != nil {
		t.Fatalf("%s\n%v", r, err)
	}
	r.state = next
	if eff != nil {
		r.effs = append(r.effs, eff)
	}
	if res.Err == nil {
		r.known = append(r.known, res.IDs...)
	}
}

func (r *run) values() []proto.Message {
	var vs []proto.Message
	for _, k := range r.state.Keys() {
		if m := r.state.Items[k]; m != nil {
			vs = append(vs, m)
		}
	}
	return vs
}

func TestCollectionRandom(t *testing.T) {
	vkit.Check(t, vkit.N(6000, 60000), func(t *rapid.T) {
		g := resmodel.GenSource(t, true, false)
		c := resource.NewCollection(g.C.Options()...)
		r := &run{conf: g.C, state: resmodel.NewState(g.C, true)}
		var w *watch
		if rapid.Bool().Draw(t, "watch") {
			w = watchCollection(c)
			defer w.stop()
		}
		n := rapid.IntRange(1, vkit.N(25, 60)).Draw(t, "ops")
		for i := 0; i < n; i++ {
			o := g.Op(t, true, r.known, r.values())
			r.step(t, o, func(o resmodel.Op) resmodel.Res { return resmodel.RunCollection(c, o) })
			contents(t, r.String(), c, g.C, r.state)
			for _, id := range append(append([]string{}, g.IDs...), r.known...) {
				// what an id leads to
				got, ok := c.Get(id)
				want, wantOK := r.state.Items[g.C.Map(id)]
				if ok != wantOK || ok && !proto.Equal(got, want) {
					t.Fatalf("%s\nGet(%q) is %s, %v, want %s, %v", r, id, txt(got), ok, txt(want), wantOK)
				}
			}
		}
		if w != nil {
			checkEvents(t, r.String(), w.finish(t, r.String(), func() {
				_, _ = c.Update("sentinel", g.S.MT.New().Interface(), resource.WithCreateIfAbsent(), resource.WithAllFieldsWritable(), resource.WithWriteTime(sentinel))
			}), r.effs)
		}
		if len(r.effs) > 0 && len(r.log) > 2 {
			vkit.Nontrivial(r.String())
		}
		vkit.Class("collection intercept=%s rng=%s writable=%v effects=%d0+", g.C.Intercept, g.C.RNG, g.C.Writable != nil, len(r.effs)/10)
	})
}

// TestGeneratedIDs: mostly writes that ask for an id, with random sources that run dry.
func TestGeneratedIDs(t *testing.T) {
	vkit.Check(t, vkit.N(2000, 20000), func(t *rapid.T) {
		conf := &resmodel.Config{MT: (&testproto.TestAllTypes{}).ProtoReflect().Type(), RNGSeed: rapid.Int64().Draw(t, "rngseed")}
		conf.Intercept = rapid.SampledFrom([]string{"", "", "lower", "prefix", "soft-prefix", "const"}).Draw(t, "intercept")
		conf.RNG = rapid.SampledFrom([]string{"", "zero", "zero", "cycle", "cycle", "fail", "short"}).Draw(t, "rng")
		c := resource.NewCollection(conf.Options()...)
		r := &run{conf: conf, state: resmodel.NewState(conf, true)}
		generated := 0
		for i := rapid.IntRange(1, 40).Draw(t, "ops"); i > 0; i-- {
			o := resmodel.Op{Kind: "add", GenID: true, Msg: msg(int32(i), "m"), Bare: rapid.Bool().Draw(t, "bare")}
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k < 5:
			case k < 8:
				o.Kind, o.Create = "update", rapid.IntRange(0, 4).Draw(t, "create") > 0
				o.ExpectAbsent = rapid.Bool().Draw(t, "absent")
			case len(r.known) == 0:
				continue
			default:
				o.ID = rapid.SampledFrom(r.known).Draw(t, "id")
				o.Kind = rapid.SampledFrom([]string{"get", "update", "delete", "add"}).Draw(t, "known")
			}
			before := len(r.effs)
			r.step(t, o, func(o resmodel.Op) resmodel.Res { return resmodel.RunCollection(c, o) })
			if o.ID == "" && len(r.effs) > before {
				generated++
			}
			contents(t, r.String(), c, conf, r.state)
		}
		if generated > 1 {
			vkit.Nontrivial(r.String())
		}
		vkit.Class("generated intercept=%s rng=%s ids=%d0+", conf.Intercept, conf.RNG, generated/10)
	})
}

func TestValueRandom(t *testing.T) {
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		g := resmodel.GenSource(t, false, false)
		v := resource.NewValue(g.C.Options()...)
		r := &run{conf: g.C, state: resmodel.NewState(g.C, false)}
		var w *watch
		if rapid.Bool().Draw(t, "watch") {
			w = watchValue(v)
			defer w.stop()
		}
		n := rapid.IntRange(1, vkit.N(15, 40)).Draw(t, "ops")
		for i := 0; i < n; i++ {
			o := g.Op(t, false, nil, r.values())
			r.step(t, o, func(o resmodel.Op) resmodel.Res { return resmodel.RunValue(v, o) })
			got, want := v.Get(), r.state.Items[""]
			if (got == nil) != (want == nil) || got != nil && !proto.Equal(got, want) {
				t.Fatalf("%s\nGet is %s, want %s", r, txt(got), txt(want))
			}
		}
		if w != nil {
			checkEvents(t, r.String(), w.finish(t, r.String(), func() {
				_, _ = v.Set(g.S.MT.New().Interface(), resource.WithAllFieldsWritable(), resource.WithWriteTime(sentinel))
			}), r.effs)
		}
		if len(r.effs) > 0 && len(r.log) > 2 {
			vkit.Nontrivial(r.String())
		}
		vkit.Class("value nil=%v writable=%v effects=%d0+", g.C.Value == nil, g.C.Writable != nil, len(r.effs)/10)
	})
}

func msg(i int32, s string) proto.Message {
	return &testproto.TestAllTypes{DefaultInt32: i, DefaultString: s}
}

func paths(p ...string) *fieldmaskpb.FieldMask { return &fieldmaskpb.FieldMask{Paths: p} }

func collectionAlphabet() []resmodel.Op {
	v1, v2, empty := msg(1, "x"), msg(2, "y"), msg(0, "")
	no := &resmodel.Check{Has: "default_bool", Err: resmodel.ErrPlain}
	has := &resmodel.Check{Has: "default_int32", Err: resmodel.ErrPlain}
	var ops []resmodel.Op
	for _, id := range []string{"a", "B"} {
		ops = append(ops,
			resmodel.Op{Kind: "add", ID: id, Msg: v1, Bare: true},
			resmodel.Op{Kind: "add", ID: id, Msg: v1, GenID: true, Update: paths("default_int32")},
			resmodel.Op{Kind: "update", ID: id, Msg: v2, Bare: true},
			resmodel.Op{Kind: "update", ID: id, Msg: v2, Create: true, Update: paths("default_string"), After: &resmodel.Edit{How: "inc", Field: "default_int64"}},
			resmodel.Op{Kind: "update", ID: id, Msg: v1, Expected: v1},
			resmodel.Op{Kind: "update", ID: id, Msg: v1, Create: true, Expected: empty},
			resmodel.Op{Kind: "update", ID: id, Msg: v2, Create: true, ExpectAbsent: true, Check: no},
			resmodel.Op{Kind: "update", ID: id, Msg: v2, Create: true, Check: has, Reset: paths("default_string")},
			resmodel.Op{Kind: "update", ID: id, Msg: v1, Create: true, Before: &resmodel.Edit{How: "add", Field: "default_int32"}},
			resmodel.Op{Kind: "delete", ID: id, Bare: true},
			resmodel.Op{Kind: "delete", ID: id, AllowMissing: true, Expected: v1},
			resmodel.Op{Kind: "delete", ID: id, Check: has},
		)
	}
	return append(ops,
		resmodel.Op{Kind: "add", Msg: v1, GenID: true, Bare: true},
		resmodel.Op{Kind: "update", Msg: v2, GenID: true, Create: true, Before: &resmodel.Edit{How: "inc", Field: "default_int32"}},
		resmodel.Op{Kind: "update", Msg: v2, GenID: true},
		resmodel.Op{Kind: "update", ID: "a", Msg: v2, Update: paths("nope"), Create: true},
		resmodel.Op{Kind: "update", ID: "a", Msg: v2, Reset: paths("nope"), Create: true},
	)
}

func valueAlphabet() []resmodel.Op {
	v1, v2, empty := msg(1, "x"), msg(2, "y"), msg(0, "")
	no := &resmodel.Check{Has: "default_bool", Err: resmodel.ErrPlain}
	has := &resmodel.Check{Has: "default_int32", Err: resmodel.ErrPlain}
	return []resmodel.Op{
		{Kind: "set", Msg: v1, Bare: true},
		{Kind: "set", Msg: v2, Update: paths("default_string")},
		{Kind: "set", Msg: v2, Update: paths("default_int32"), Reset: paths("default_string")},
		{Kind: "set", Msg: v1, Expected: v1},
		{Kind: "set", Msg: v2, Expected: v1, Check: has},
		{Kind: "set", Msg: v2, Expected: empty},
		{Kind: "set", Msg: v2, Check: no},
		{Kind: "set", Msg: v1, Before: &resmodel.Edit{How: "add", Field: "default_int32"}},
		{Kind: "set", Msg: v1, After: &resmodel.Edit{How: "inc", Field: "default_int64"}, Update: paths()},
		{Kind: "set", Msg: v1, Update: paths("nope")},
		{Kind: "read", ReadMask: paths("default_string")},
	}
}

// exhaust runs every sequence of at most n calls, in parts by shard.
func exhaust(t *testing.T, ops []resmodel.Op, n int, one func(seq []resmodel.Op)) {
	seq := make([]resmodel.Op, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			vkit.Eval()
			one(seq)
			return
		}
		for _, o := range ops {
			seq[i] = o
			rec(i + 1)
		}
	}
	rec(0)
}

func TestCollectionExhaustive(t *testing.T) {
	for _, conf := range []*resmodel.Config{
		{},
		{Intercept: "lower", Initial: map[string]proto.Message{"a": msg(1, "x")}},
		{RNG: "zero", Writable: paths("default_int32", "default_int64")},
		{Intercept: "soft-prefix", RNG: "cycle"},
	} {
		conf.MT = (&testproto.TestAllTypes{}).ProtoReflect().Type()
		if conf.Initial == nil {
			conf.Initial = map[string]proto.Message{}
		}
		if conf.RNG != "cycle" && !vkit.Thorough() && conf.Intercept == "" && conf.RNG == "zero" {
			// the writable variant only matters with masks; two calls do in a quick run
			exhaust(t, collectionAlphabet(), 2, func(seq []resmodel.Op) { seqCollection(t, conf, seq) })
			continue
		}
		exhaust(t, collectionAlphabet(), 3, func(seq []resmodel.Op) { seqCollection(t, conf, seq) })
	}
	if vkit.Thorough() {
		conf := &resmodel.Config{MT: (&testproto.TestAllTypes{}).ProtoReflect().Type(), Initial: map[string]proto.Message{"a": msg(1, "x")}}
		exhaust(t, collectionAlphabet(), 4, func(seq []resmodel.Op) { seqCollection(t, conf, seq) })
	}
}

func seqCollection(t *testing.T, conf *resmodel.Config, seq []resmodel.Op) {
	c := resource.NewCollection(conf.Options()...)
	r := &run{conf: conf, state: resmodel.NewState(conf, true)}
	for _, o := range seq {
		var res resmodel.Res
		vkit.NoPanic(t, fmt.Sprint(seq), func() { res = resmodel.RunCollection(c, o) })
		next, eff, err := conf.Step(r.state, o, res)
		if err == nil {
			r.state = next
			if eff != nil {
				r.effs = append(r.effs, eff)
			}
			list := c.List()
			if len(list) != len(next.Items) {
				err = fmt.Errorf("List has %d items, want %s", len(list), next)
			}
			for i, k := range next.Keys() {
				if err == nil && !proto.Equal(list[i], next.Items[k]) {
					err = fmt.Errorf("List[%d] is %s, want %q: %s", i, txt(list[i]), k, txt(next.Items[k]))
				}
			}
			for _, id := range append([]string{"a", "B", "b"}, res.IDs...) {
				got, ok := c.Get(id)
				want, wantOK := next.Items[conf.Map(id)]
				if err == nil && res.Err == nil && (ok != wantOK || ok && !proto.Equal(got, want)) {
					err = fmt.Errorf("Get(%q) is %s, %v, want %s, %v", id, txt(got), ok, txt(want), wantOK)
				}
			}
		}
		if err != nil {
			t.Fatalf("%s\n%v\nlast call %s\n -> %s\n%v", conf, seq, o, res, err)
		}
	}
	if len(r.effs) > 1 {
		vkit.Nontrivial(conf.Intercept + conf.RNG + fmt.Sprint(seq))
	}
}

func TestValueExhaustive(t *testing.T) {
	for _, initial := range []proto.Message{nil, msg(1, "x")} {
		conf := &resmodel.Config{MT: (&testproto.TestAllTypes{}).ProtoReflect().Type(), Value: initial}
		exhaust(t, valueAlphabet(), vkit.N(3, 5), func(seq []resmodel.Op) {
			v := resource.NewValue(conf.Options()...)
			s := resmodel.NewState(conf, false)
			for _, o := range seq {
				var res resmodel.Res
				vkit.NoPanic(t, fmt.Sprint(seq), func() { res = resmodel.RunValue(v, o) })
				next, _, err := conf.Step(s, o, res)
				if err == nil {
					s = next
					got, want := v.Get(), s.Items[""]
					if (got == nil) != (want == nil) || got != nil && !proto.Equal(got, want) {
						err = fmt.Errorf("Get is %s, want %s", txt(got), txt(want))
					}
				}
				if err != nil {
					t.Fatalf("%s\n%v\nlast call %s\n -> %s\n%v", conf, seq, o, res, err)
				}
			}
			vkit.Nontrivial(fmt.Sprint(initial == nil, seq))
		})
	}
}
