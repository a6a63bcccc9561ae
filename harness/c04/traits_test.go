package c04

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/internal/verif/watch"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// expected is an event that a write has to cause, or may cause if nothing changed that the subscriber can see.
type expected struct {
	e        watch.Event
	optional bool
	from, to time.Time // when the write was made
}

func (x expected) String() string {
	s := x.e.String()
	if x.optional {
		s += "?"
	}
	return s
}

// TestTraitScripts: a backpressured subscriber to a trait model gets one event for each change, and it is that change.
func TestTraitScripts(t *testing.T) {
	kinds := watch.Kinds()
	for _, k := range watch.Kinds() { // collections more often, there is more that can happen
		if !k.New().Streams[0].Register {
			kinds = append(kinds, k, k)
		}
	}
	vkit.Check(t, vkit.N(2500, 20000), func(t *rapid.T) {
		base := vkit.LeakBaseline()
		kind := kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]
		d := kind.New()
		s := d.Streams[rapid.IntRange(0, len(d.Streams)-1).Draw(t, "stream")]
		log := []string{kind.Name}
		var mask *fieldmaskpb.FieldMask
		if rapid.IntRange(0, 2).Draw(t, "masked") == 0 {
			mask = &fieldmaskpb.FieldMask{}
			fields := s.Type.ProtoReflect().Descriptor().Fields()
			for i := 0; i < fields.Len(); i++ {
				n := string(fields.Get(i).Name())
				if n == s.Key || rapid.IntRange(0, 2).Draw(t, n) == 0 {
					mask.Paths = append(mask.Paths, n)
				}
			}
		}
		read := []resource.ReadOption{resource.WithReadMask(mask)}
		if mask == nil || len(mask.Paths) == 0 {
			read = nil
		}
		only := rapid.Bool().Draw(t, "updates only")
		before := rapid.IntRange(0, 4).Draw(t, "before")
		n := rapid.IntRange(1, 10).Draw(t, "writes")

		write := func() bool {
			what, fn := d.Write(t)
			err := fn()
			log = append(log, fmt.Sprintf("%s: %v", what, err))
			return err == nil
		}
		for i := 0; i < before; i++ {
			write()
		}
		log = append(log, fmt.Sprintf("-- %s mask %s updates only %v", s.Name, vkit.MaskText(mask), only))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		state, full := s.Stored(read...), s.Stored()
		var script []expected
		held := watch.View{}
		if only {
			held = state
		} else {
			var ids []string
			for id := range state {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				e := watch.Event{ID: id, New: state[id]}
				if !s.Register && s.ID == "" {
					e.Kind = types.ChangeType_ADD
				}
				script = append(script, expected{e: e})
			}
		}
		opts := append([]resource.ReadOption{resource.WithBackpressure(true), resource.WithUpdatesOnly(only)}, read...)
		f := watch.Fold(s, held, s.Pull(ctx, opts...), nil)
		changes, gone := 0, false
		for i := 0; i < n; i++ {
			from := time.Now()
			ok := write()
			to := time.Now()
			now, fullNow := s.Stored(read...), s.Stored()
			if gone {
				continue // the stream is over with its item
			}
			for _, id := range watch.Touched(full, fullNow) {
				if _, is := fullNow[id]; !is && s.ID != "" {
					gone = true
					continue
				}
				x := expected{from: from, to: to, e: watch.Event{ID: id, Old: state[id], New: now[id]}}
				switch {
				case s.Register || s.ID != "":
					x.e.Old = nil
				case x.e.Old == nil:
					x.e.Kind = types.ChangeType_ADD
				case x.e.New == nil:
					x.e.Kind = types.ChangeType_REMOVE
				default:
					x.e.Kind = types.ChangeType_UPDATE
				}
				x.optional = x.e.Kind != types.ChangeType_ADD && x.e.Kind != types.ChangeType_REMOVE && vkit.Same(state[id], now[id])
				script = append(script, x)
				changes++
				if !ok {
					t.Fatalf("%s\nthe write failed, but %v", strings.Join(log, "\n"), x)
				}
			}
			state, full = now, fullNow
			if ok {
				// a write that changes nothing may be told, as long as it says so
				script = append(script, expected{optional: true, from: from, to: to, e: watch.Event{ID: "*"}})
			}
		}
		base.Quiet(t, "after the writes")
		_, bad, got, over := f.State()
		fail := func(format string, args ...any) {
			t.Fatalf("%s\n%s\nscript %v\nevents %v", strings.Join(log, "\n"), fmt.Sprintf(format, args...), script, got)
		}
		if bad != "" {
			fail("%s", bad)
		}
		if over != gone {
			fail("over %v, the item removed %v", over, gone)
		}
		if !s.Loose {
			if why := follows(s, got, script, held); why != "" {
				fail("%s", why)
			}
		}
		if changes > 0 {
			vkit.Nontrivial(strings.Join(log, "\n"))
		}
		vkit.Class("trait script %s %s", kind.Name, s.Name)
		cancel()
		base.Wait(t, "after cancel")
	})
}

// follows says why the events aren't the script.
func follows(s *watch.Stream, got []watch.Event, script []expected, held watch.View) string {
	view := held.Clone()
	timed := func(e watch.Event, x expected) string {
		if !x.from.IsZero() && (e.At.Before(x.from.Truncate(0)) || e.At.After(x.to)) {
			return fmt.Sprintf("%v at %v, the write was made from %v to %v", e, e.At, x.from, x.to)
		}
		return ""
	}
	i := 0
	for _, x := range script {
		if i == len(got) {
			if x.optional {
				continue
			}
			return fmt.Sprintf("no event for %v", x)
		}
		e := got[i]
		if x.e.ID == "*" { // an update that changes nothing
			was := view[e.ID]
			same := was != nil && e.New != nil && vkit.Same(was, e.New) && (s.Register || s.ID != "" || e.Kind == types.ChangeType_UPDATE && e.Old != nil && vkit.Same(was, e.Old))
			if same && !e.At.Before(x.from.Truncate(0)) && !e.At.After(x.to) {
				i++
			}
			continue
		}
		same := e.ID == x.e.ID && e.Kind == x.e.Kind && (e.Old == nil) == (x.e.Old == nil) && (e.New == nil) == (x.e.New == nil) &&
			(e.Old == nil || vkit.Same(e.Old, x.e.Old)) && (e.New == nil || vkit.Same(e.New, x.e.New))
		if !same {
			if x.optional {
				continue
			}
			return fmt.Sprintf("event %d is %v, not %v", i, e, x)
		}
		if why := timed(e, x); why != "" {
			return why
		}
		if e.New == nil {
			delete(view, e.ID)
		} else {
			view[e.ID] = e.New
		}
		i++
	}
	if i < len(got) {
		return fmt.Sprintf("no write for event %d, %v", i, got[i])
	}
	return ""
}
