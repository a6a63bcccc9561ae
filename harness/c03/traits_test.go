package c03

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/internal/verif/watch"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// watcher is a subscription to a model's stream and what makes up for its options when reading.
type watcher struct {
	s      *watch.Stream
	opts   string
	list   []resource.ReadOption
	f      *watch.Folder
	cancel func()
}

func genTraitMask(t *rapid.T, s *watch.Stream) *fieldmaskpb.FieldMask {
	if rapid.IntRange(0, 2).Draw(t, "masked") > 0 {
		return nil
	}
	fields := s.Type.ProtoReflect().Descriptor().Fields()
	mask := &fieldmaskpb.FieldMask{}
	for i := 0; i < fields.Len(); i++ {
		n := string(fields.Get(i).Name())
		if n == s.Key || rapid.IntRange(0, 2).Draw(t, n) == 0 {
			mask.Paths = append(mask.Paths, n)
		}
	}
	if len(mask.Paths) == 0 {
		return nil
	}
	return mask
}

// TestTraitViews: the streams of trait models and of their servers, folded, against what the model lists.
func TestTraitViews(t *testing.T) {
	kinds := watch.Kinds()
	for _, k := range watch.Kinds() { // collections more often, there is more that can happen
		if !k.New().Streams[0].Register {
			kinds = append(kinds, k, k)
		}
	}
	vkit.Check(t, vkit.N(4000, 30000), func(t *rapid.T) {
		base := vkit.LeakBaseline()
		kind := kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]
		d := kind.New()
		var mu sync.Mutex
		var log []string
		note := func(format string, args ...any) {
			mu.Lock()
			log = append(log, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		text := func() string {
			mu.Lock()
			defer mu.Unlock()
			return kind.Name + "\n" + strings.Join(log, "\n")
		}
		// the writes, in order, and where subscriptions are made between them
		type step struct {
			what  string
			write func() error
			w     *watcher
			ctx   context.Context
			held  bool // updates only
			pull  []resource.ReadOption
			quiet bool
		}
		var steps []step
		busy := rapid.IntRange(0, 3).Draw(t, "busy") == 0 // another writer runs all the time
		nsub := 0
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "before"); i < n; i++ {
			what, write := d.Write(t)
			steps = append(steps, step{what: what, write: write})
		}
		for i, n := 0, rapid.IntRange(2, 12).Draw(t, "steps"); i < n; i++ {
			if nsub < 3 && rapid.IntRange(0, 3).Draw(t, "sub") == 0 || i == 1 && nsub == 0 {
				nsub++
				s := d.Streams[rapid.IntRange(0, len(d.Streams)-1).Draw(t, "stream")]
				server := s.Server != nil && rapid.Bool().Draw(t, "server")
				if server {
					s = s.Server
				}
				w := &watcher{s: s}
				st := step{w: w}
				if mask := genTraitMask(t, s); mask != nil {
					st.pull = append(st.pull, resource.WithReadMask(mask))
					w.list = append(w.list, resource.WithReadMask(mask))
					w.opts += " mask " + vkit.MaskText(mask)
				}
				if !server && rapid.Bool().Draw(t, "backpressure") {
					st.pull = append(st.pull, resource.WithBackpressure(true))
					w.opts += " backpressure"
				}
				if !busy && rapid.Bool().Draw(t, "updates only") {
					st.pull = append(st.pull, resource.WithUpdatesOnly(true))
					st.held = true
					w.opts += " updates only"
				}
				// a server's subscription has begun once nothing moves
				st.quiet = server && st.held
				steps = append(steps, st)
				continue
			}
			what, write := d.Write(t)
			steps = append(steps, step{what: what, write: write})
		}
		type act struct {
			what  string
			write func() error
		}
		var more []act
		if busy {
			for i, n := 0, rapid.IntRange(1, 8).Draw(t, "more"); i < n; i++ {
				what, write := d.Write(t)
				more = append(more, act{what, write})
			}
		}

		var watchers []*watcher
		defer func() {
			for _, w := range watchers {
				w.cancel()
			}
		}()
		var wg sync.WaitGroup
		if busy {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, a := range more {
					err := a.write()
					note("other: %s: %v", a.what, err)
				}
			}()
		}
		took := 0
		for _, st := range steps {
			if st.w == nil {
				err := st.write()
				if err == nil {
					took++
				}
				note("%s: %v", st.what, err)
				continue
			}
			w := st.w
			ctx, cancel := context.WithCancel(context.Background())
			w.cancel = cancel
			held := watch.View{}
			if st.held {
				held = w.s.Stored(w.list...)
			}
			w.f = watch.Fold(w.s, held, w.s.Pull(ctx, st.pull...), nil)
			watchers = append(watchers, w)
			note("-- %s%s", w.s.Name, w.opts)
			if st.quiet {
				base.Quiet(t, "subscribing")
			}
		}
		wg.Wait()
		deadline := time.Now().Add(patience)
		for _, w := range watchers {
			for d := 10 * time.Microsecond; ; {
				want := w.s.Stored(w.list...)
				view, bad, got, over := w.f.State()
				if bad != "" {
					t.Fatalf("%s\n%s%s: %s\nevents %v", text(), w.s.Name, w.opts, bad, got)
				}
				if over && w.s.ID != "" || view.Same(want) {
					break // over: the item was removed
				}
				if over || time.Now().After(deadline) {
					t.Fatalf("%s\n%s%s: folded %v, stored %v (over %v)\nevents %v", text(), w.s.Name, w.opts, view, want, over, got)
				}
				time.Sleep(d)
				if d < 5*time.Millisecond {
					d *= 2
				}
			}
		}
		// and it stays that way
		base.Quiet(t, "after the writes")
		for _, w := range watchers {
			want := w.s.Stored(w.list...)
			view, bad, got, over := w.f.State()
			if bad != "" || !over && !view.Same(want) {
				t.Fatalf("%s\n%s%s: folded %v, stored %v in the end; %s\nevents %v", text(), w.s.Name, w.opts, view, want, bad, got)
			}
		}
		if took > 0 && len(watchers) > 0 {
			vkit.Nontrivial(text())
		}
		vkit.Class("trait view %s", kind.Name)
		for _, w := range watchers {
			w.cancel()
		}
		base.Wait(t, "after cancel")
	})
}
