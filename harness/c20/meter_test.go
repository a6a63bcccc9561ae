package c20

import (
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
)

// TestMeter records readings.
func TestMeter(t *testing.T) {
	vkit.Check(t, vkit.N(40000, 300000), func(t *rapid.T) {
		s := &steps{t: t}
		c := newManual(1000)
		opts := []resource.Option{resource.WithClock(c)}
		var initial *traits.MeterReading
		if !one(t, 4, "no initial") {
			initial = genReading(t, c.Now(), true)
			opts = append(opts, resource.WithInitialValue(vkit.Copy(initial)))
		}
		var m *meterpb.Model
		var srv *meterpb.ModelServer
		s.step("NewModel(%s) at %v", vkit.Text(initial), c.Now().Unix())
		s.do(func() { m = meterpb.NewModel(opts...); srv = meterpb.NewModelServer(m) })
		get := func() *traits.MeterReading {
			var got *traits.MeterReading
			var err error
			s.do(func() { got, err = srv.GetMeterReading(bg, &traits.GetMeterReadingRequest{Name: "device"}) })
			s.ok(err)
			return got
		}
		ordered := func(r *traits.MeterReading) {
			if r.StartTime == nil || r.EndTime == nil || r.StartTime.AsTime().After(r.EndTime.AsTime()) {
				s.failf("reading %s has no proper start and end time", vkit.Text(r))
			}
		}
		cur := get()
		if initial == nil {
			s.same("reading", cur, &traits.MeterReading{StartTime: c.stamp(), EndTime: c.stamp()})
		} else {
			if cur.Usage != initial.Usage {
				s.failf("usage is %v, want %v", cur.Usage, initial.Usage)
			}
			start, end := initial.StartTime, initial.EndTime
			if start != nil {
				s.same("start time", cur.StartTime, start)
			}
			if end != nil {
				s.same("end time", cur.EndTime, end)
			}
			now := c.Now()
			if start == nil && (end == nil || !end.AsTime().Before(now)) {
				s.same("start time", cur.StartTime, c.stamp())
			}
			if end == nil && (start == nil || !start.AsTime().After(now)) {
				s.same("end time", cur.EndTime, c.stamp())
			}
			vkit.Class("initial, start %v, end %v", start != nil, end != nil)
		}
		if initial.GetStartTime() == nil || initial.GetEndTime() == nil {
			ordered(cur)
		}

		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
			if !one(t, 4, "same time") {
				c.tick(time.Duration(rapid.IntRange(1, 3000).Draw(t, "ms")) * time.Millisecond)
			}
			var got *traits.MeterReading
			var err error
			want := vkit.Copy(cur)
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0, 1, 2:
				v := vkit.Pick(t, []float32{0, 1, 2.5, 100, -3, cur.Usage, cur.Usage + 1}, "usage")
				s.step("RecordReading(%v) at %v", v, c.Now().UnixMilli())
				s.do(func() { got, err = m.RecordReading(v) })
				want.Usage = v
				want.EndTime = c.stamp()
				vkit.Nontrivial(s.at + vkit.Text(cur))
			case 3:
				s.step("Reset() at %v", c.Now().UnixMilli())
				s.do(func() { got, err = m.Reset() })
				want = &traits.MeterReading{StartTime: c.stamp(), EndTime: c.stamp()}
			case 4:
				// times that are in order, so that recording keeps them so
				r := genReading(t, c.Now(), false)
				um := mask(t, "mask", "usage", "start_time", "end_time")
				s.step("UpdateMeterReading(%s, mask %v)", vkit.Text(r), um.GetPaths())
				s.do(func() { got, err = m.UpdateMeterReading(vkit.Copy(r), resource.WithUpdateMask(um)) })
				var w *fieldmaskpb.FieldMask
				want = vkit.RefMerge(cur, r, um, w, w, true).(*traits.MeterReading)
			}
			s.ok(err)
			s.same("reading", got, want)
			cur = get()
			s.same("current reading", cur, want)
		}
	})
}

func genReading(t *rapid.T, now time.Time, future bool) *traits.MeterReading {
	at := func(label string, lo, hi int) *timestamppb.Timestamp {
		return timestamppb.New(now.Add(time.Duration(rapid.IntRange(lo, hi).Draw(t, label)) * time.Second))
	}
	r := &traits.MeterReading{Usage: vkit.Pick(t, []float32{0, 1, 7.25, 5000}, "usage")}
	hi := 0
	if future {
		hi = 20
	}
	has := rapid.IntRange(0, 3).Draw(t, "start, end")
	if has&1 != 0 {
		r.StartTime = at("start", -100, hi-10)
	}
	if has&2 != 0 {
		r.EndTime = at("end", -100, hi)
		if r.StartTime != nil && r.EndTime.AsTime().Before(r.StartTime.AsTime()) {
			r.StartTime, r.EndTime = r.EndTime, r.StartTime
		}
	}
	return r
}
