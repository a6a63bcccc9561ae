package c20

import (
	"context"
	"fmt"
	"runtime/debug"
	"slices"
	"sort"
	"sync/atomic"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

// contended runs the writes at the same time: all of them have seen the same value before the first one is committed.
// A write may give up with Aborted.
func (s *steps) contended(pull func() (drain func()), first func() error, writes ...func() error) (errs []error) {
	leak := vkit.LeakBaseline()
	drain := pull()
	leak.Quiet(s.t, s.at)
	errs = make([]error, len(writes)+1)
	all := make(chan struct{}, len(errs))
	panics := make(chan string, len(errs))
	start := func(i int, w func() error) {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					panics <- fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				all <- struct{}{}
			}()
			errs[i] = w()
		}()
	}
	start(0, first)
	leak.Quiet(s.t, s.at)
	for i, w := range writes {
		start(i+1, w)
	}
	leak.Quiet(s.t, s.at)
	drain()
	vkit.Within(s.t, s.at, func() {
		for range errs {
			<-all
		}
	})
	select {
	case r := <-panics:
		s.failf("panic: %v", r)
	default:
	}
	return errs
}

// lost is whether the write gave up because of another one.
func lost(err error) bool {
	c := status.Code(err)
	return c == codes.Aborted || c == codes.Unavailable
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// drained reads events until the model has been told everything.
func drained[T any](pull func(ctx context.Context, opts ...resource.ReadOption) <-chan T) func() func() {
	return func() func() {
		ctx, cancel := context.WithCancel(bg)
		ch := pull(ctx, resource.WithBackpressure(true), resource.WithUpdatesOnly(true))
		stopped = append(stopped, cancel)
		return func() {
			go func() {
				for range ch {
				}
			}()
		}
	}
}

var stopped []func()

// TestContended has writers of the same model see the same value before any of them commits: each either gives up or
// is accounted for exactly once. Parents don't give up, panic or lose traits.
func TestContended(t *testing.T) {
	vkit.Check(t, vkit.N(1600, 10000), func(t *rapid.T) {
		s := &steps{t: t}
		defer func() {
			for _, c := range stopped {
				c()
			}
			stopped = nil
		}()
		n := rapid.IntRange(2, 4).Draw(t, "writers")
		// writes blocks its caller after some writes because the subscriber doesn't receive yet
		writes := func(w func() error) func() error {
			return func() error {
				for i := 0; i < 5; i++ {
					if err := w(); err != nil && !lost(err) {
						return err
					}
				}
				return nil
			}
		}
		count := func(errs []error, allowed ...codes.Code) (ok int) {
			for _, err := range errs {
				if err == nil {
					ok++
					continue
				}
				if !lost(err) && !slices.Contains(allowed, status.Code(err)) {
					s.failf("error %v", err)
				}
				vkit.Class("gave up: %v", status.Code(err))
			}
			return ok
		}
		repeat := func(w func(i int) error) (ws []func() error) {
			for i := 0; i < n; i++ {
				ws = append(ws, func() error { return w(i) })
			}
			return ws
		}
		switch model := rapid.IntRange(0, 7).Draw(t, "model"); model {
		case 0:
			s.step("%d enters at once", n)
			m := enterleavesensorpb.NewModel()
			var leaves atomic.Int32
			errs := s.contended(drained(m.PullEnterLeaveEvents), writes(func() error {
				err := m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_LEAVE})
				if err == nil {
					leaves.Add(1)
				}
				return err
			}), repeat(func(int) error {
				return m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_ENTER})
			})...)
			ok := count(errs[1:])
			got, _ := m.GetEnterLeaveEvent()
			if int(got.GetEnterTotal()) != ok || got.GetLeaveTotal() != leaves.Load() {
				s.failf("%d enters and %d leaves succeeded: %s", ok, leaves.Load(), vkit.Text(got))
			}
		case 1:
			s.step("dispense %d times at once", n)
			m := vendingpb.NewModel(vendingpb.WithInitialStock(&traits.Consumable_Stock{
				Consumable: "a", Used: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER},
				Remaining: &traits.Consumable_Quantity{Unit: traits.Consumable_CUBIC_METER, Amount: 1},
			}, &traits.Consumable_Stock{Consumable: "b"}))
			errs := s.contended(drained(m.PullInventory), writes(func() error {
				_, err := m.DispenseInstantly("b", &traits.Consumable_Quantity{})
				return err
			}), repeat(func(int) error {
				_, err := m.DispenseInstantly("a", &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 125})
				return err
			})...)
			ok := count(errs[1:])
			got, _ := m.GetStock("a")
			if got.GetUsed().GetAmount() != float32(125*ok) || got.GetRemaining().GetAmount() != 1-0.125*float32(ok) {
				s.failf("%d of 125 l succeeded: %s", ok, vkit.Text(got))
			}
		case 2, 3:
			var presets []fanspeedpb.Preset
			for i := 0; i < 40; i++ {
				presets = append(presets, fanspeedpb.Preset{Name: fmt.Sprint("p", i), Percentage: float32(i)})
			}
			m := fanspeedpb.NewModel(fanspeedpb.WithPresets(presets...), fanspeedpb.WithInitialFanSpeed(&traits.FanSpeed{Preset: "p0"}))
			srv := fanspeedpb.NewModelServer(m)
			change := &traits.FanSpeed{PresetIndex: 1}
			if model == 3 {
				change = &traits.FanSpeed{Percentage: 1}
			}
			s.step("%d relative fan speed updates %s at once", n, vkit.Text(change))
			up := func() error {
				_, err := srv.UpdateFanSpeed(bg, &traits.UpdateFanSpeedRequest{FanSpeed: vkit.Copy(change), Relative: true})
				return err
			}
			var first atomic.Int32
			errs := s.contended(drained(m.PullFanSpeed), writes(func() error {
				err := up()
				if err == nil {
					first.Add(1)
				}
				return err
			}), repeat(func(int) error { return up() })...)
			ok := count(errs[1:]) + int(first.Load())
			got := m.FanSpeed()
			if int(got.PresetIndex) != ok || got.Preset != fmt.Sprint("p", ok) || got.Percentage != float32(ok) {
				s.failf("%d updates succeeded: %s", ok, vkit.Text(got))
			}
		case 4:
			s.step("%d mode steps at once", n)
			mode := &traits.Modes_Mode{Name: "m"}
			for i := 0; i < 7; i++ {
				mode.Values = append(mode.Values, &traits.Modes_Value{Name: fmt.Sprint(i)})
			}
			m := modepb.NewModelModes(&traits.Modes{Modes: []*traits.Modes_Mode{mode}})
			srv := modepb.NewModelServer(m)
			up := func() error {
				_, err := srv.UpdateModeValues(bg, &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"m": 1}}})
				return err
			}
			var first atomic.Int32
			errs := s.contended(drained(m.PullModeValues), writes(func() error {
				err := up()
				if err == nil {
					first.Add(1)
				}
				return err
			}), repeat(func(int) error { return up() })...)
			ok := count(errs[1:]) + int(first.Load())
			if got := m.ModeValues().Values["m"]; got != fmt.Sprint(ok%7) {
				s.failf("%d steps succeeded: %v", ok, got)
			}
		case 5:
			s.step("%d acknowledgements at once", n)
			m := publicationpb.NewModel(publicationpb.WithInitialPublication(&traits.Publication{Id: "a", Version: "1", Audience: &traits.Publication_Audience{Name: "x"}},
				&traits.Publication{Id: "b"}))
			srv := publicationpb.NewModelServer(m)
			errs := s.contended(drained(m.PullPublications), writes(func() error {
				_, err := m.UpdatePublication("b", &traits.Publication{Id: "b"})
				return err
			}), repeat(func(i int) error {
				_, err := srv.AcknowledgePublication(bg, &traits.AcknowledgePublicationRequest{Id: "a", Version: "1",
					Receipt: traits.Publication_Audience_REJECTED, ReceiptRejectedReason: fmt.Sprint(i)})
				return err
			})...)
			if ok := count(errs[1:], codes.FailedPrecondition); ok != 1 {
				s.failf("%d acknowledgements succeeded: %v", ok, errs[1:])
			}
			got, _ := m.GetPublication("a")
			for i, err := range errs[1:] {
				if err == nil && got.GetAudience().GetReceiptRejectedReason() != fmt.Sprint(i) {
					s.failf("acknowledgement %d succeeded: %s", i, vkit.Text(got))
				}
			}
		default:
			names := []string{"A", "B", "C", "D"}
			var opts []resource.Option
			var initial set
			if coin(t, "initial") {
				initial = set{}.with(genSubset(t, names))
				opts = append(opts, parentpb.WithInitialChildren(initial.child("a")))
			}
			m := parentpb.NewModel(opts...)
			calls := make([]parentCall, n)
			ws := make([]func() error, n)
			text := ""
			for i := range calls {
				c := &calls[i]
				c.add, c.traits = !one(t, 3, "remove"), genSubset(t, names)
				text += fmt.Sprintf(" add %v %v", c.add, c.traits)
				ws[i] = func() error {
					if c.add {
						c.got, c.created = m.AddChildTrait("a", asTraits(c.traits)...)
					} else {
						c.got = m.RemoveChildTrait("a", asTraits(c.traits)...)
					}
					return nil
				}
			}
			s.step("children %v, at once:%s", initial, text)
			s.contended(drained(m.PullChildren), writes(func() error {
				m.AddChildTrait("b", "A")
				return nil
			}), ws...)
			var final *traits.Child
			for _, c := range m.ListChildren() {
				if c.Name == "a" {
					final = c
				}
			}
			if !explained(initial, calls, final) {
				for _, c := range calls {
					s.t.Logf("add %v %v: %s created %v", c.add, c.traits, vkit.Text(c.got), c.created)
				}
				s.failf("no order of the calls explains their results and %s", vkit.Text(final))
			}
		}
		vkit.Nontrivial(s.at)
	})
}

func genSubset(t *rapid.T, names []string) (sub []string) {
	for _, n := range names {
		if coin(t, n) {
			sub = append(sub, n)
		}
	}
	return sub
}

type parentCall struct {
	add     bool
	traits  []string
	got     *traits.Child
	created bool
}

// explained is whether the calls could have been made one after the other. A nil set means there's no child.
func explained(state set, calls []parentCall, final *traits.Child) bool {
	if len(calls) == 0 {
		if state == nil {
			return final == nil
		}
		return final != nil && vkit.Same(final, state.child("a"))
	}
	for i, c := range calls {
		next := state
		switch {
		case c.add:
			if c.created != (state == nil) {
				continue
			}
			next = state.with(c.traits)
		case state == nil:
			if c.got != nil {
				continue
			}
		default:
			next = state.without(c.traits)
		}
		if next != nil && (c.got == nil || !vkit.Same(c.got, next.child("a"))) {
			continue
		}
		rest := append(append([]parentCall(nil), calls[:i]...), calls[i+1:]...)
		if explained(next, rest, final) {
			return true
		}
	}
	return false
}
