package c02

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"

	_ "github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/resmodel"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type failer interface {
	Helper()
	Fatalf(string, ...any)
}

func msg(i int32, s string) proto.Message {
	return &testproto.TestAllTypes{DefaultInt32: i, DefaultString: s}
}

func paths(p ...string) *fieldmaskpb.FieldMask { return &fieldmaskpb.FieldMask{Paths: p} }

var mt = (&testproto.TestAllTypes{}).ProtoReflect().Type()

// subject is a resource with its model.
type subject struct {
	conf  *resmodel.Config
	start resmodel.State
	coll  *resource.Collection
	val   *resource.Value
	tick  resmodel.Ticker
	mu    sync.Mutex
	calls []resmodel.Call
}

func newSubject(conf *resmodel.Config, collection bool) *subject {
	s := &subject{conf: conf, start: resmodel.NewState(conf, collection)}
	if collection {
		s.coll = resource.NewCollection(conf.Options()...)
	} else {
		s.val = resource.NewValue(conf.Options()...)
	}
	return s
}

// do makes the call and records it.
func (s *subject) do(by int, o resmodel.Op) resmodel.Res {
	inv := s.tick.Next()
	var r resmodel.Res
	if s.coll != nil {
		r = resmodel.RunCollection(s.coll, o)
	} else {
		r = resmodel.RunValue(s.val, o)
	}
	ret := s.tick.Next()
	s.mu.Lock()
	s.calls = append(s.calls, resmodel.Call{Op: o, Res: r, Inv: inv, Ret: ret, By: by})
	s.mu.Unlock()
	return r
}

// verify reads everything back and looks for an explanation.
func (s *subject) verify(t failer) {
	t.Helper()
	if s.coll != nil {
		s.do(0, resmodel.Op{Kind: "list"})
		ids := map[string]bool{}
		for _, k := range s.calls {
			if k.Op.ID != "" {
				ids[k.Op.ID] = true
			}
			for _, id := range k.Res.IDs {
				ids[id] = true
			}
		}
		if len(s.calls)+len(ids) < 20 {
			for id := range ids {
				s.do(0, resmodel.Op{Kind: "get", ID: id})
			}
		}
	} else {
		s.do(0, resmodel.Op{Kind: "read"})
	}
	if err := s.conf.Linearize(s.start, s.calls); err != nil {
		t.Fatalf("%s%s\n%v", s.conf, resmodel.History(s.calls), err)
	}
}

// settle makes another write, which the earlier ones shouldn't hold up.
func (s *subject) settle(t failer) {
	t.Helper()
	o := resmodel.Op{Kind: "set", Msg: msg(77, "")}
	if s.coll != nil {
		o = resmodel.Op{Kind: "update", ID: "settled", Msg: msg(77, ""), Create: true}
	}
	vkit.Within(t, "a write after "+resmodel.History(s.calls), func() { s.do(1, o) })
}

func (s *subject) outcomes() (ok, lost int) {
	for _, k := range s.calls {
		if !k.Op.Write() {
			continue
		}
		if k.Res.Err == nil {
			ok++
		} else if c := status.Code(k.Res.Err); c == codes.Aborted || c == codes.Unavailable {
			lost++
		}
	}
	return
}

var (
	no    = &resmodel.Check{Has: "default_bool", Err: resmodel.ErrPlain}
	has   = &resmodel.Check{Has: "default_int32", Err: resmodel.ErrPlain}
	hasnt = &resmodel.Check{Has: "!default_int32", Err: status.Error(codes.FailedPrecondition, "has it")}
	v1    = msg(1, "x")
	v2    = msg(2, "y")
	empty = msg(0, "")
	inc   = &resmodel.Edit{How: "inc", Field: "default_int32"}
	add   = &resmodel.Edit{How: "add", Field: "default_int32"}
	keep  = &resmodel.Edit{How: "keep", Field: "default_string"}
	count = &resmodel.Edit{How: "inc", Field: "default_int64"}
)

func collectionOps() []resmodel.Op {
	return []resmodel.Op{
		{Kind: "add", ID: "a", Msg: v1},
		{Kind: "add", ID: "a", Msg: empty},
		{Kind: "update", ID: "a", Msg: v2},
		{Kind: "update", ID: "a", Msg: empty},
		{Kind: "update", ID: "a", Msg: v2, Create: true},
		{Kind: "update", ID: "a", Msg: v1, Expected: v1, Before: inc},
		{Kind: "update", ID: "a", Msg: v2, Create: true, Expected: empty},
		{Kind: "update", ID: "a", Msg: empty, Create: true},
		{Kind: "update", ID: "a", Msg: v1, Create: true, Check: hasnt},
		{Kind: "update", ID: "a", Msg: v2, Check: has, Update: paths("default_string")},
		{Kind: "update", ID: "a", Msg: v1, Create: true, Before: add, Update: paths("default_int32")},
		{Kind: "update", ID: "a", Msg: v1, Create: true, ExpectAbsent: true, After: count},
		{Kind: "update", ID: "a", Msg: v2, After: keep},
		{Kind: "update", ID: "b", Msg: v2, Create: true},
		{Kind: "delete", ID: "a"},
		{Kind: "delete", ID: "a", AllowMissing: true, Expected: v1},
		{Kind: "delete", ID: "a", Check: has},
		{Kind: "add", Msg: v1, GenID: true},
	}
}

func valueOps() []resmodel.Op {
	return []resmodel.Op{
		{Kind: "set", Msg: v1},
		{Kind: "set", Msg: empty},
		{Kind: "set", Msg: v2, Update: paths("default_string")},
		{Kind: "set", Msg: v2, Expected: v1},
		{Kind: "set", Msg: v1, Expected: empty},
		{Kind: "set", Msg: v2, Check: has, Reset: paths("default_string")},
		{Kind: "set", Msg: v2, Check: no},
		{Kind: "set", Msg: v1, Before: add},
		{Kind: "set", Msg: v1, Before: inc, Update: paths("default_int32")},
		{Kind: "set", Msg: v2, After: count},
	}
}

// bare leaves out the callbacks that only observe.
func bare(o resmodel.Op) resmodel.Op {
	o.Bare = true
	return o
}

var windows = []string{"check", "before", "after"}

// inWindow makes fn run once inside o's window.
func inWindow(o resmodel.Op, window string, fn func()) resmodel.Op {
	ran := false
	f := func() {
		if !ran {
			ran = true
			fn()
		}
	}
	switch window {
	case "check":
		o.OnCheck = f
	case "before":
		o.OnBefore = f
	case "after":
		o.OnAfter = f
	}
	return o
}

func initials(collection bool) []*resmodel.Config {
	if !collection {
		return []*resmodel.Config{{MT: mt, Value: v1}, {MT: mt, Value: empty}, {MT: mt}, {MT: mt, Value: v1, Writable: paths("default_string")}}
	}
	return []*resmodel.Config{
		{MT: mt, Initial: map[string]proto.Message{}},
		{MT: mt, Initial: map[string]proto.Message{"a": v1}},
		{MT: mt, Initial: map[string]proto.Message{"a": empty}},
		{MT: mt, Initial: map[string]proto.Message{"a": v1}, Writable: paths("default_string")},
	}
}

// forced runs outer with the inner calls, one after the other, inside its window.
func forced(t failer, conf *resmodel.Config, collection bool, outer resmodel.Op, window string, inner ...resmodel.Op) {
	t.Helper()
	vkit.Eval()
	s := newSubject(conf, collection)
	o := inWindow(outer, window, func() {
		for i, in := range inner {
			s.do(i+2, in)
		}
	})
	vkit.Within(t, fmt.Sprintf("%s with %v in its %s window", outer, inner, window), func() { s.do(1, o) })
	s.settle(t)
	if len(s.calls) > 1 {
		ok, lost := s.outcomes()
		vkit.Nontrivial(fmt.Sprint(conf, collection, outer, window, inner))
		vkit.Class("forced %s: %d succeeded, %d lost", window, ok, lost)
	}
	s.verify(t)
}

// TestForced puts every call, and every pair of calls, into every window of every call.
func TestForced(t *testing.T) {
	for _, collection := range []bool{true, false} {
		ops := valueOps()
		if collection {
			ops = collectionOps()
		}
		for _, conf := range initials(collection) {
			for _, outer := range ops {
				for _, w := range windows {
					if outer.Kind == "delete" && w != "check" {
						continue
					}
					for i, in := range ops {
						forced(t, conf, collection, outer, w, in)
						forced(t, conf, collection, bare(outer), w, bare(in))
						for j, in2 := range ops {
							if w == "before" && !vkit.Thorough() {
								continue
							}
							if (i+j)%2 == 0 || vkit.Thorough() {
								forced(t, conf, collection, outer, w, in, in2)
							}
							if (i+j)%2 == 1 || vkit.Thorough() {
								forced(t, conf, collection, bare(outer), w, bare(in), bare(in2))
							}
						}
					}
				}
			}
		}
	}
}

// TestForcedNested puts calls into windows of calls that are in a window themselves, and several at once.
func TestForcedNested(t *testing.T) {
	vkit.Check(t, vkit.N(20000, 200000), func(t *rapid.T) {
		collection := rapid.Bool().Draw(t, "collection")
		ops := valueOps()
		if collection {
			ops = collectionOps()
		}
		conf := vkit.Pick(t, initials(collection), "initial")
		s := newSubject(conf, collection)
		left := rapid.IntRange(2, 7).Draw(t, "calls")
		by := 0
		var build func(depth int) resmodel.Op
		build = func(depth int) resmodel.Op {
			left--
			o := vkit.Pick(t, ops, "op")
			o.Bare = rapid.Bool().Draw(t, "bare")
			if collection && rapid.IntRange(0, 5).Draw(t, "other") == 0 && o.ID == "b" {
				o.ID = "b"
			}
			if depth == 3 {
				return o
			}
			for _, w := range windows {
				n := rapid.IntRange(0, 2).Draw(t, "inner."+w)
				var inner []resmodel.Op
				for ; n > 0 && left > 0; n-- {
					inner = append(inner, build(depth+1))
				}
				if len(inner) > 0 {
					each := rapid.Bool().Draw(t, "each")
					k := 0
					fn := func() {
						// a Delete checks again each time it lost; give it one call each time or all of them the first time
						for k < len(inner) {
							by++
							in := inner[k]
							k++
							s.do(by, in)
							if each {
								break
							}
						}
					}
					switch w {
					case "check":
						o.OnCheck = fn
					case "before":
						o.OnBefore = fn
					case "after":
						o.OnAfter = fn
					}
				}
			}
			return o
		}
		outer := build(0)
		vkit.Within(t, "nested calls", func() { s.do(100, outer) })
		if len(s.calls) > 2 {
			vkit.Nontrivial(resmodel.History(s.calls))
		}
		s.verify(t)
	})
}

// TestForcedDrawn is TestForcedNested with messages, options and configurations of any kind.
func TestForcedDrawn(t *testing.T) {
	vkit.Check(t, vkit.N(20000, 300000), func(t *rapid.T) {
		collection := rapid.Bool().Draw(t, "collection")
		g := resmodel.GenSource(t, collection, false)
		g.C.RNG = "" // ids don't run out
		if g.C.Intercept == "const" {
			g.C.Intercept = ""
		}
		s := newSubject(g.C, collection)
		left := rapid.IntRange(2, 6).Draw(t, "calls")
		by := 0
		var build func(depth int) resmodel.Op
		build = func(depth int) resmodel.Op {
			left--
			o := g.Op(t, collection, nil, g.Values)
			if depth == 2 || !o.Write() {
				return o
			}
			for _, w := range windows {
				var inner []resmodel.Op
				for n := rapid.IntRange(0, 2).Draw(t, "inner."+w); n > 0 && left > 0; n-- {
					inner = append(inner, build(depth+1))
				}
				if len(inner) == 0 {
					continue
				}
				o = inWindow(o, w, func() {
					for _, in := range inner {
						by++
						s.do(by, in)
					}
				})
			}
			return o
		}
		outer := build(0)
		vkit.Within(t, "nested calls", func() { s.do(100, outer) })
		if len(s.calls) > 2 {
			vkit.Nontrivial(resmodel.History(s.calls))
		}
		ok, lost := s.outcomes()
		vkit.Class("drawn: %d succeeded, lost %v", ok, lost > 0)
		s.verify(t)
	})
}

// TestDeleteRetries: a Delete meets other writes each time it has checked what it is about to remove.
func TestDeleteRetries(t *testing.T) {
	interfere := [][]resmodel.Op{
		{{Kind: "update", ID: "a", Msg: v2}},
		{{Kind: "delete", ID: "a"}},
		{{Kind: "delete", ID: "a"}, {Kind: "add", ID: "a", Msg: v1}},
		{{Kind: "update", ID: "a", Msg: v2}, {Kind: "update", ID: "a", Msg: v1}},
		{{Kind: "update", ID: "a", Msg: empty}},
	}
	deletes := []resmodel.Op{
		{Kind: "delete", ID: "a"},
		{Kind: "delete", ID: "a", AllowMissing: true},
		{Kind: "delete", ID: "a", Check: has},
		{Kind: "delete", ID: "a", Expected: v1},
	}
	var seq []int
	var all func(n int)
	all = func(n int) {
		if len(seq) > 0 {
			for _, del := range deletes {
				vkit.Eval()
				s := newSubject(&resmodel.Config{MT: mt, Initial: map[string]proto.Message{"a": v1}}, true)
				k := 0
				del.OnCheck = func() {
					if k < len(seq) {
						k++
						for _, o := range interfere[seq[k-1]] {
							s.do(k+1, o)
						}
					}
				}
				vkit.Within(t, fmt.Sprint(del, " while others do ", seq), func() { s.do(1, del) })
				if k > 1 {
					vkit.Nontrivial(fmt.Sprint(del, seq))
				}
				vkit.Class("delete interrupted %d times", k)
				s.settle(t)
				s.verify(t)
			}
		}
		if n == 0 {
			return
		}
		for i := range interfere {
			seq = append(seq, i)
			all(n - 1)
			seq = seq[:len(seq)-1]
		}
	}
	all(vkit.N(4, 6))
	// longer than anyone retries
	for i := range interfere {
		seq = nil
		for n := 0; n < 12; n++ {
			seq = append(seq, i)
			if len(seq) > 4 {
				all(0)
			}
		}
	}
}

// stress runs the calls of each goroutine concurrently.
func stress(t failer, s *subject, progs [][]resmodel.Op, yield int) {
	t.Helper()
	var wg sync.WaitGroup
	start := make(chan struct{})
	var pause func()
	if yield == 1 {
		pause = runtime.Gosched
	}
	for g, prog := range progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range prog {
				if pause != nil && !o.Bare {
					o.OnCheck, o.OnBefore, o.OnAfter = pause, pause, pause
				}
				s.do(g+1, o)
			}
		}()
	}
	vkit.Within(t, "concurrent writers", func() { close(start); wg.Wait() })
	s.verify(t)
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_CASE_SEED"), 10, 64)
	return n
}

// TestStress: 2-4 goroutines, a few calls each, many times.
func TestStress(t *testing.T) {
	rng := rand.New(rand.NewSource(seed()))
	for round := 0; round < vkit.N(30000, 600000); round++ {
		vkit.Eval()
		collection := rng.Intn(2) == 0
		ops := valueOps()
		if collection {
			ops = collectionOps()
		}
		confs := initials(collection)
		s := newSubject(confs[rng.Intn(len(confs))], collection)
		n := 2 + rng.Intn(3)
		var progs [][]resmodel.Op
		for g := 0; g < n; g++ {
			var prog []resmodel.Op
			for k := 1 + rng.Intn(3); k > 0; k-- {
				o := ops[rng.Intn(len(ops))]
				o.Bare = rng.Intn(2) == 0
				prog = append(prog, o)
				if rng.Intn(6) == 0 {
					if collection {
						prog = append(prog, resmodel.Op{Kind: "list"})
					} else {
						prog = append(prog, resmodel.Op{Kind: "read"})
					}
				}
			}
			progs = append(progs, prog)
		}
		stress(t, s, progs, rng.Intn(2))
		ok, lost := s.outcomes()
		if ok > 1 {
			vkit.Nontrivial(resmodel.History(s.calls))
		}
		vkit.Class("stress: lost %v", lost > 0)
	}
}

// TestCounter: increments that report success are never lost.
func TestCounter(t *testing.T) {
	for round := 0; round < vkit.N(60, 1000); round++ {
		for _, collection := range []bool{false, true} {
			vkit.Eval()
			s := newSubject(&resmodel.Config{MT: mt, Initial: map[string]proto.Message{}}, collection)
			var wg sync.WaitGroup
			var mu sync.Mutex
			succeeded := int32(0)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 25; i++ {
						o := resmodel.Op{Kind: "set", Msg: v1, Before: add, Update: paths("default_int32"), Bare: true}
						if collection {
							o.Kind, o.ID, o.Create = "update", "a", true
						}
						var r resmodel.Res
						if collection {
							r = resmodel.RunCollection(s.coll, o)
						} else {
							r = resmodel.RunValue(s.val, o)
						}
						if r.Err == nil {
							mu.Lock()
							succeeded++
							mu.Unlock()
						} else if status.Code(r.Err) != codes.Aborted {
							mu.Lock()
							succeeded = -1 << 20
							mu.Unlock()
						}
					}
				}()
			}
			vkit.Within(t, "increments", wg.Wait)
			var got *testproto.TestAllTypes
			if collection {
				m, _ := s.coll.Get("a")
				got = m.(*testproto.TestAllTypes)
			} else {
				got = s.val.Get().(*testproto.TestAllTypes)
			}
			if got.DefaultInt32 != succeeded {
				t.Fatalf("collection=%v: %d increments succeeded, the counter is %d (negative: an error other than Aborted)", collection, succeeded, got.DefaultInt32)
			}
			vkit.Nontrivial(fmt.Sprint("counter", collection, round))
		}
	}
}

// TestGeneratedIDs: concurrent Adds with generated ids all get their own.
func TestGeneratedIDs(t *testing.T) {
	for round := 0; round < vkit.N(300, 5000); round++ {
		vkit.Eval()
		s := newSubject(&resmodel.Config{MT: mt, Initial: map[string]proto.Message{}, RNGSeed: int64(round)}, true)
		var wg sync.WaitGroup
		var mu sync.Mutex
		ids := map[string]int32{}
		dup, other := "", error(nil)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 8; i++ {
					n := int32(g*100 + i + 1)
					r := resmodel.RunCollection(s.coll, resmodel.Op{Kind: "add", Msg: msg(n, ""), GenID: true, Bare: true})
					mu.Lock()
					if r.Err == nil {
						for _, id := range r.IDs {
							if _, ok := ids[id]; ok {
								dup = id
							}
							ids[id] = n
						}
					} else if status.Code(r.Err) != codes.Aborted {
						other = r.Err
					}
					mu.Unlock()
				}
			}()
		}
		vkit.Within(t, "adds", wg.Wait)
		if dup != "" || other != nil {
			t.Fatalf("two Adds were given the id %q (or an Add failed: %v)", dup, other)
		}
		if n := len(s.coll.List()); n != len(ids) {
			t.Fatalf("%d Adds succeeded, List has %d items", len(ids), n)
		}
		for id, n := range ids {
			m, ok := s.coll.Get(id)
			if !ok || m.(*testproto.TestAllTypes).DefaultInt32 != n {
				t.Fatalf("Get(%q) is %v, %v, the Add that was given it wrote %d", id, m, ok, n)
			}
		}
		vkit.Nontrivial(fmt.Sprint("ids", round))
	}
}
