package c20

import (
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
)

// TestEnterLeave counts.
func TestEnterLeave(t *testing.T) {
	vkit.Check(t, vkit.N(48000, 400000), func(t *rapid.T) {
		s := &steps{t: t}
		total := func(label string, near *int32) *int32 {
			switch rapid.IntRange(0, 5).Draw(t, label) {
			case 0:
				return proto.Int32(int32(rapid.IntRange(0, 9).Draw(t, label)))
			case 1:
				return proto.Int32(0)
			case 2:
				if near != nil {
					return proto.Int32(*near)
				}
			}
			return nil
		}
		var cur = &traits.EnterLeaveEvent{EnterTotal: proto.Int32(0), LeaveTotal: proto.Int32(0)}
		var opts []resource.Option
		if coin(t, "initial") {
			cur = &traits.EnterLeaveEvent{EnterTotal: total("initial enter", nil), LeaveTotal: total("initial leave", nil)}
			opts = append(opts, enterleavesensorpb.WithInitialEnterLeaveEvent(vkit.Copy(cur)))
		}
		var m *enterleavesensorpb.Model
		var srv *enterleavesensorpb.ModelServer
		s.step("NewModel(%s)", vkit.Text(cur))
		s.do(func() { m = enterleavesensorpb.NewModel(opts...); srv = enterleavesensorpb.NewModelServer(m) })
		check := func() {
			var got *traits.EnterLeaveEvent
			var err error
			s.do(func() { got, err = srv.GetEnterLeaveEvent(bg, &traits.GetEnterLeaveEventRequest{Name: "device"}) })
			s.ok(err)
			s.same("event", got, cur)
		}
		check()

		// the caller may use the same message more than once
		var events []*traits.EnterLeaveEvent
		var given []*traits.EnterLeaveEvent
		for i, n := 0, rapid.IntRange(1, 10).Draw(t, "ops"); i < n; i++ {
			if one(t, 8, "reset") {
				s.step("ResetTotals of %s", vkit.Text(cur))
				var err error
				s.do(func() {
					if coin(t, "by model") {
						err = m.ResetTotals()
					} else {
						_, err = srv.ResetEnterLeaveTotals(bg, &traits.ResetEnterLeaveTotalsRequest{Name: "device"})
					}
				})
				s.ok(err)
				cur.EnterTotal, cur.LeaveTotal = proto.Int32(0), proto.Int32(0)
				check()
				continue
			}
			var k int
			if len(events) > 0 && one(t, 4, "same event again") {
				k = rapid.IntRange(0, len(events)-1).Draw(t, "event")
				vkit.Class("reused event")
			} else {
				e := &traits.EnterLeaveEvent{
					Direction:  traits.EnterLeaveEvent_Direction(rapid.IntRange(0, 2).Draw(t, "direction")),
					EnterTotal: total("enter", cur.EnterTotal), LeaveTotal: total("leave", cur.LeaveTotal),
				}
				if one(t, 3, "occupant") {
					e.Occupant = &traits.EnterLeaveEvent_Occupant{Name: "somebody"}
				}
				k = len(events)
				events = append(events, e)
				given = append(given, vkit.Copy(e))
			}
			e := given[k]
			s.step("CreateEnterLeaveEvent(%s) after %s", vkit.Text(e), vkit.Text(cur))
			next := vkit.Copy(e)
			count := func(given, cur *int32, inc bool) *int32 {
				var c int32
				if cur != nil {
					c = *cur
				}
				if given != nil && *given != c {
					vkit.Class("given total")
					return proto.Int32(*given)
				}
				if inc {
					c++
				}
				return proto.Int32(c)
			}
			next.EnterTotal = count(e.EnterTotal, cur.EnterTotal, e.Direction == traits.EnterLeaveEvent_ENTER)
			next.LeaveTotal = count(e.LeaveTotal, cur.LeaveTotal, e.Direction == traits.EnterLeaveEvent_LEAVE)
			var err error
			s.do(func() { err = m.CreateEnterLeaveEvent(events[k]) })
			s.ok(err)
			if e.Direction != 0 {
				vkit.Nontrivial(s.at)
			}
			cur = next
			check()
		}
	})
}
