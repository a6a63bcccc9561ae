// Package join checks subscriptions that are opened while a writer is writing.
// One writer keeps a journal of its writes, what each subscriber sees has to be the contents after some number of
// writes, that fits the time of the subscription, followed by (what is left of) the writes after those.
package join

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// Options say which kinds of subscriptions are opened.
type Options struct {
	Lossy       bool
	Include     bool // with include predicates
	Collections bool // only
}

// entry is a write that took effect. Values are told apart by a number that is never used twice, 0 means absent.
type entry struct {
	id       string
	kind     types.ChangeType
	old, new int32
	at       time.Time
}

func (e entry) String() string {
	return fmt.Sprintf("%s %q %d -> %d at %d", e.kind, e.id, e.old, e.new, e.at.UnixNano()%1e9)
}

func num(m proto.Message) int32 {
	if m == nil {
		return 0
	}
	return m.(*testproto.ForeignMessage).C
}

// journal is what the writer did.
type journal struct {
	mu  sync.Mutex
	log []entry
}

func (j *journal) len() int {
	j.mu.Lock()
	defer j.mu.Unlock()
	return len(j.log)
}

// joined is what one subscriber saw.
type joined struct {
	lo, hi  int // the subscription started after this many writes at least, at most
	only    bool
	lossy   bool
	single  string
	modulus int32 // include values that are a multiple of it
	isValue bool
	seed    []entry
	events  []entry
	flags   string // what is wrong with the flags of the seed
}

func (o *joined) String() string {
	return fmt.Sprintf("value=%v updates only=%v lossy=%v id=%q modulus=%d opened after %d to %d writes", o.isValue, o.only, o.lossy, o.single, o.modulus, o.lo, o.hi)
}

func (o *joined) include(id string, n int32) bool {
	return n != 0 && (o.modulus == 0 || n%o.modulus == 0) && (o.single == "" || o.single == id)
}

// state returns the contents after n writes.
func (o *joined) state(log []entry, n int) map[string]entry {
	s := make(map[string]entry)
	for _, e := range log[:n] {
		if o.include(e.id, e.new) {
			s[e.id] = e
		} else {
			delete(s, e.id)
		}
	}
	return s
}

// see returns e as seen by the subscriber.
func (o *joined) see(e entry) (entry, bool) {
	was, is := o.include(e.id, e.old), o.include(e.id, e.new)
	switch {
	case was && is:
		e.kind = types.ChangeType_UPDATE
	case is:
		e.kind, e.old = types.ChangeType_ADD, 0
	case was:
		e.kind, e.new = types.ChangeType_REMOVE, 0
	default:
		return e, false
	}
	return e, true
}

// explain returns why no number of writes before the subscription explains what was seen.
func (o *joined) explain(log []entry) string {
	if o.flags != "" {
		return o.flags
	}
	var why []string
	for n := o.lo; n <= min(o.hi, len(log)); n++ {
		w := o.from(log, n)
		if w == "" {
			return ""
		}
		why = append(why, fmt.Sprintf("after %d writes: %s", n, w))
	}
	return strings.Join(why, "\n  ")
}

func (o *joined) from(log []entry, n int) string {
	if !o.only {
		var want []entry
		for id, e := range o.state(log, n) {
			want = append(want, entry{id: id, kind: types.ChangeType_ADD, new: e.new, at: e.at})
		}
		sort.Slice(want, func(a, b int) bool { return want[a].id < want[b].id })
		if len(want) < len(o.seed) {
			return fmt.Sprintf("seed %v, want %v", o.seed, want)
		}
		for i := range o.seed { // it may have been cancelled early
			if want[i].new != o.seed[i].new || want[i].id != o.seed[i].id || !want[i].at.Equal(o.seed[i].at) {
				return fmt.Sprintf("seed %v, want %v", o.seed, want)
			}
		}
		if len(want) > len(o.seed) && len(o.events) > 0 {
			return fmt.Sprintf("seed %v, want %v", o.seed, want)
		}
	}
	if o.lossy {
		return o.fold(log, n)
	}
	i := 0
	for _, e := range log[n:] {
		if i == len(o.events) {
			return ""
		}
		e, ok := o.see(e)
		if !ok {
			continue
		}
		got := o.events[i]
		bad := got.new != e.new || got.id != e.id || !got.at.Equal(e.at)
		if !o.isValue && o.single == "" {
			bad = bad || got.kind != e.kind || got.old != e.old
		}
		if bad {
			return fmt.Sprintf("event %d is %v, want %v (seed %v)", i, got, e, o.seed)
		}
		i++
	}
	if i < len(o.events) {
		return fmt.Sprintf("event %d is %v but there were no more writes", i, o.events[i])
	}
	return ""
}

// fold applies lossy events to the contents after n writes.
func (o *joined) fold(log []entry, n int) string {
	view := o.state(log, n)
	last := make(map[string]int)
	for i, e := range o.events {
		at := -1
		for k := max(n, last[e.id]); k < len(log); k++ {
			w := log[k]
			if w.id == e.id && w.at.Equal(e.at) && (w.new == e.new || e.new == 0 && !o.include(w.id, w.new)) {
				at = k
				break
			}
		}
		if at < 0 {
			return fmt.Sprintf("event %d %v isn't a newer version (events %v, seed %v)", i, e, o.events, o.seed)
		}
		last[e.id] = at + 1
		if o.isValue || o.single != "" {
			continue
		}
		held := view[e.id].new
		ok := e.old == held
		switch e.kind {
		case types.ChangeType_ADD:
			ok = ok && held == 0 && e.new != 0
		case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
			ok = ok && held != 0 && e.new != 0
		case types.ChangeType_REMOVE:
			ok = ok && held != 0 && e.new == 0
		default:
			ok = false
		}
		if !ok {
			return fmt.Sprintf("event %d %v, the view has %d (events %v, seed %v)", i, e, held, o.events, o.seed)
		}
		if e.new == 0 {
			delete(view, e.id)
		} else {
			view[e.id] = e
		}
	}
	return ""
}

// Run does one round.
func Run(t *testing.T, rng *rand.Rand, cfg Options) {
	vkit.Eval()
	isValue := !cfg.Collections && !cfg.Include && rng.Intn(3) == 0
	ids := []string{"a", "b", "c", "d"}[:1+rng.Intn(4)]
	grow := !isValue && rng.Intn(6) == 0 // always new ids
	deletes := rng.Intn(3)
	var val *resource.Value
	var coll *resource.Collection
	if isValue {
		val = resource.NewValue(resource.WithInitialValue(&testproto.ForeignMessage{}))
		ids = []string{""}
	} else {
		coll = resource.NewCollection()
	}
	j := &journal{}
	stop := make(chan struct{})
	var writer, subs sync.WaitGroup
	seed := rng.Int63()
	writer.Add(1)
	var problem string
	go func() {
		defer writer.Done()
		r := rand.New(rand.NewSource(seed))
		held := map[string]int32{}
		n := int32(0)
		for {
			select {
			case <-stop:
				return
			default:
			}
			n++
			id := ids[r.Intn(len(ids))]
			if grow && n < 200 {
				id = fmt.Sprint(n)
			}
			at := time.Unix(1000, int64(n))
			opts := []resource.WriteOption{resource.WithWriteTime(at)}
			msg := &testproto.ForeignMessage{C: n}
			e := entry{id: id, kind: types.ChangeType_UPDATE, old: held[id], new: n, at: at}
			var err error
			switch {
			case isValue:
				held[id] = n
				_, err = val.Set(msg, opts...)
			case r.Intn(4) < deletes:
				_, err = coll.Delete(id, opts...)
				e.kind, e.new = types.ChangeType_REMOVE, 0
				if held[id] == 0 {
					if err == nil {
						problem = "deleted an absent item"
					}
					continue
				}
				delete(held, id)
			case r.Intn(8) == 0: // fails
				_, _ = coll.Update(id, msg, append(opts, resource.WithExpectedValue(&testproto.ForeignMessage{C: -1}), resource.WithCreateIfAbsent())...)
				continue
			default:
				if held[id] == 0 {
					e.kind = types.ChangeType_ADD
				}
				held[id] = n
				_, err = coll.Update(id, msg, append(opts, resource.WithCreateIfAbsent())...)
			}
			if err != nil {
				problem = fmt.Sprintf("%v: %v", e, err)
				return
			}
			j.mu.Lock()
			j.log = append(j.log, e)
			j.mu.Unlock()
			if cfg.Lossy && n%64 == 0 {
				time.Sleep(10 * time.Microsecond) // nobody holds it up
			}
		}
	}()
	var mu sync.Mutex
	var all []*joined
	for s := 0; s < 6; s++ {
		seed := rng.Int63()
		subs.Add(1)
		go func() {
			defer subs.Done()
			r := rand.New(rand.NewSource(seed))
			for k := 0; k < 12; k++ {
				o := &joined{isValue: isValue, lossy: cfg.Lossy, only: !cfg.Lossy && r.Intn(5) == 0}
				switch {
				case isValue:
				case cfg.Include:
					o.modulus = 1 + r.Int31n(3)
				case deletes == 0 && !grow && r.Intn(4) == 0:
					o.single = ids[r.Intn(len(ids))]
				}
				pause := time.Duration(0)
				if cfg.Lossy {
					pause = time.Duration(r.Intn(3)) * 20 * time.Microsecond
				}
				o.watch(j, val, coll, r.Intn(7), pause)
				mu.Lock()
				all = append(all, o)
				mu.Unlock()
			}
		}()
	}
	vkit.Within(t, "subscriptions while a writer runs", func() {
		subs.Wait()
		close(stop)
		writer.Wait()
	})
	if problem != "" {
		t.Fatal(problem)
	}
	inside := 0
	for _, o := range all {
		if isValue && len(o.seed) > 0 && o.seed[0].new == 0 { // the initial value
			o.seed = nil
			if o.lo > 0 {
				t.Fatalf("seed is the initial value after %d writes", o.lo)
			}
			o.hi = 0
		}
		if o.hi > o.lo+1 || len(o.events) > 0 {
			inside++
		}
		if w := o.explain(j.log); w != "" {
			t.Fatalf("a subscription (%v):\n  %s\nwrites: %v", o, w, j.log[o.lo:min(len(j.log), o.hi+8)])
		}
	}
	vkit.Class("join value=%v", isValue)
	if inside > 0 {
		vkit.Nontrivial(fmt.Sprint("join", seed))
	}
}

// watch opens a subscription and takes up to n events after the seed.
func (o *joined) watch(j *journal, val *resource.Value, coll *resource.Collection, n int, pause time.Duration) {
	ctx, cancel := context.WithCancel(context.Background())
	opts := []resource.ReadOption{resource.WithBackpressure(!o.lossy), resource.WithUpdatesOnly(o.only)}
	if o.modulus > 0 {
		opts = append(opts, resource.WithInclude(func(id string, m proto.Message) bool { return o.include(id, num(m)) }))
	}
	o.lo = j.len()
	var next func() (e entry, seed, last, ok bool)
	switch {
	case val != nil || o.single != "":
		var ch <-chan *resource.ValueChange
		if val != nil {
			ch = val.Pull(ctx, opts...)
		} else {
			ch = coll.PullID(ctx, o.single, opts...)
		}
		next = func() (entry, bool, bool, bool) {
			c, ok := <-ch
			if !ok {
				return entry{}, false, false, false
			}
			return entry{id: o.single, new: num(c.Value), at: c.ChangeTime}, c.SeedValue, c.LastSeedValue, true
		}
	default:
		ch := coll.Pull(ctx, opts...)
		next = func() (entry, bool, bool, bool) {
			c, ok := <-ch
			if !ok {
				return entry{}, false, false, false
			}
			return entry{id: c.Id, kind: c.ChangeType, old: num(c.OldValue), new: num(c.NewValue), at: c.ChangeTime}, c.SeedValue, c.LastSeedValue, true
		}
	}
	o.hi = j.len() + 1
	timer := time.AfterFunc(200*time.Millisecond, cancel) // there may be nothing more to see
	defer timer.Stop()
	defer cancel()
	last := o.only
	for len(o.events) <= n {
		e, isSeed, isLast, ok := next()
		if !ok {
			return
		}
		if isSeed {
			if len(o.events) > 0 || last {
				o.flags = fmt.Sprintf("%v is part of the seed, after the end of it", e)
			}
			o.seed = append(o.seed, e)
			last = isLast
			continue
		}
		if len(o.seed) > 0 && !last {
			o.flags = fmt.Sprintf("%v came before the end of the seed %v", e, o.seed)
		}
		o.events = append(o.events, e)
		time.Sleep(pause)
	}
}
