package c20

import (
	"fmt"
	"math"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
)

var percentages = []float32{0, 5, 10, 15, 25, 33.3, 40, 50, 60, 75, 90, 100}

func genPresets(t *rapid.T) []fanspeedpb.Preset {
	var ps []fanspeedpb.Preset
	names := []string{"off", "low", "med", "high", "full", "turbo"}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "presets"); i < n; i++ {
		k := rapid.IntRange(0, len(names)-1).Draw(t, "preset name")
		ps = append(ps, fanspeedpb.Preset{Name: names[k], Percentage: vkit.Pick(t, percentages, "preset percentage")})
		names = append(names[:k:k], names[k+1:]...)
	}
	return ps
}

// fan is the lookup table a fan speed is judged by.
type fan []fanspeedpb.Preset

func (f fan) index(name string) int {
	for i, p := range f {
		if p.Name == name {
			return i
		}
	}
	return -1
}

// consistent is whether preset, index and percentage of v belong together.
func (f fan) consistent(v *traits.FanSpeed) error {
	if v.PresetIndex == -1 && v.Preset == "" {
		for _, p := range f {
			if p.Percentage == v.Percentage {
				return fmt.Errorf("%v%% is the preset %v", v.Percentage, p.Name)
			}
		}
		return nil
	}
	if v.PresetIndex < 0 || int(v.PresetIndex) >= len(f) {
		return fmt.Errorf("there's no preset with index %v", v.PresetIndex)
	}
	if p := f[v.PresetIndex]; p.Name != v.Preset || p.Percentage != v.Percentage {
		return fmt.Errorf("preset %v is %+v", v.PresetIndex, p)
	}
	return nil
}

func (f fan) set(v *traits.FanSpeed, i int) *traits.FanSpeed {
	if len(f) == 0 {
		v.Preset, v.PresetIndex = "", -1
		return v
	}
	i = max(0, min(len(f)-1, i))
	v.Preset, v.PresetIndex, v.Percentage = f[i].Name, int32(i), f[i].Percentage
	return v
}

func (f fan) setPercentage(v *traits.FanSpeed, p float32) *traits.FanSpeed {
	v.Preset, v.PresetIndex, v.Percentage = "", -1, p
	for i, pr := range f {
		if pr.Percentage == p {
			v.Preset, v.PresetIndex = pr.Name, int32(i)
			break
		}
	}
	return v
}

// update is the fan speed after the update, or nil if more than one reading of the update makes sense.
// Without a mask, absent fields can mean both that they aren't updated and that they're reset.
func (f fan) update(old, change *traits.FanSpeed, mask *fieldmaskpb.FieldMask, relative bool) (want *traits.FanSpeed, invalid bool) {
	in := func(path string, set bool) bool {
		if mask == nil {
			return set
		}
		return has(mask, path)
	}
	want = vkit.Copy(old)
	if in("direction", true) {
		want.Direction = change.Direction
		if mask == nil && relative && change.Direction == 0 {
			want.Direction = old.Direction
		}
	}
	preset := in("preset", change.Preset != "")
	index := in("preset_index", change.PresetIndex != 0)
	percentage := in("percentage", change.Percentage != 0)
	if change.Preset != "" && f.index(change.Preset) < 0 {
		return nil, true
	}
	if preset && change.Preset != "" && change.Preset != old.Preset {
		return f.set(want, f.index(change.Preset)), false
	}
	if mask == nil && !relative && !preset && !index && !percentage {
		return nil, false
	}
	if preset && change.Preset == "" {
		return nil, false // clearing the preset
	}
	if index {
		i := int64(change.PresetIndex)
		if relative {
			if old.PresetIndex < 0 && i < 0 {
				return nil, false // a step down from nowhere
			}
			i = max(math.MinInt32, min(math.MaxInt32, i+int64(old.PresetIndex)))
		}
		if i != int64(old.PresetIndex) {
			if len(f) == 0 && percentage {
				return nil, false
			}
			return f.set(want, int(i)), false
		}
	}
	if percentage {
		p := change.Percentage
		if relative {
			p += old.Percentage
		}
		if p < 0 || p > 100 {
			return nil, false
		}
		if p != old.Percentage {
			return f.setPercentage(want, p), false
		}
	}
	return want, false
}

// TestFanSpeed updates fans by preset, index and percentage, absolutely and relatively.
func TestFanSpeed(t *testing.T) {
	vkit.Check(t, vkit.N(48000, 400000), func(t *rapid.T) {
		s := &steps{t: t}
		f := fan(fanspeedpb.DefaultPresets)
		var opts []resource.Option
		if !one(t, 4, "default presets") {
			f = genPresets(t)
			opts = append(opts, fanspeedpb.WithPresets(append([]fanspeedpb.Preset(nil), f...)...))
		}
		presetName := func(label string) string {
			if len(f) == 0 || one(t, 6, label+" odd") {
				return vkit.Pick(t, []string{"", "unknown", "off"}, label)
			}
			return vkit.Pick(t, []fanspeedpb.Preset(f), label).Name
		}
		genSpeed := func(label string) *traits.FanSpeed {
			v := &traits.FanSpeed{}
			which := rapid.IntRange(0, 7).Draw(t, label+" fields")
			if which < 3 { // usually only one of them is given
				which = 1 << which
			}
			if which&1 != 0 {
				v.Preset = presetName(label + " preset")
			}
			if which&2 != 0 {
				v.PresetIndex = int32(rapid.IntRange(-2, len(f)+1).Draw(t, label+" index"))
				if one(t, 12, label+" huge index") {
					v.PresetIndex = vkit.Pick(t, []int32{math.MaxInt32, math.MinInt32}, label+" index")
				}
			}
			if which&4 != 0 {
				v.Percentage = vkit.Pick(t, percentages, label+" percentage")
				if one(t, 4, "near") {
					v.Percentage += vkit.Pick(t, []float32{0.001, 0.005, 0.25, 1}, "by") // near a preset isn't the preset
				}
			}
			if one(t, 3, label+" has direction") {
				v.Direction = traits.FanSpeed_Direction(rapid.IntRange(0, 2).Draw(t, label+" direction"))
			}
			return v
		}
		var initial *traits.FanSpeed
		if coin(t, "has initial") {
			initial = genSpeed("initial")
			opts = append(opts, fanspeedpb.WithInitialFanSpeed(vkit.Copy(initial)))
		}

		var m *fanspeedpb.Model
		var srv *fanspeedpb.ModelServer
		s.step("NewModel(presets %+v, initial %s)", f, vkit.Text(initial))
		s.do(func() { m = fanspeedpb.NewModel(opts...); srv = fanspeedpb.NewModelServer(m) })
		get := func() *traits.FanSpeed {
			var got *traits.FanSpeed
			var err error
			s.do(func() { got, err = srv.GetFanSpeed(bg, &traits.GetFanSpeedRequest{}) })
			s.ok(err)
			if err := f.consistent(got); err != nil {
				s.failf("fan speed %s: %v", vkit.Text(got), err)
			}
			return got
		}
		cur := get()
		if initial != nil {
			if cur.Direction != initial.Direction {
				s.failf("initial direction is %v", cur.Direction)
			}
			known := f.index(initial.Preset)
			switch {
			case initial.Preset != "" && known >= 0:
				s.same("fan speed", cur, f.set(vkit.Copy(initial), known))
			case initial.Preset == "" && initial.PresetIndex == 0 && initial.Percentage != 0:
				s.same("fan speed", cur, f.setPercentage(vkit.Copy(initial), initial.Percentage))
			case initial.Preset == "" && initial.PresetIndex > 0 && int(initial.PresetIndex) < len(f) && initial.Percentage == 0:
				s.same("fan speed", cur, f.set(vkit.Copy(initial), int(initial.PresetIndex)))
			}
		}

		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); op {
			case 0:
				var got *traits.FanSpeed
				var err error
				s.step("ReverseFanSpeedDirection(%s)", vkit.Text(cur))
				s.do(func() {
					got, err = srv.ReverseFanSpeedDirection(bg, &traits.ReverseFanSpeedDirectionRequest{Name: "device"})
				})
				s.ok(err)
				want := vkit.Copy(cur)
				switch cur.Direction {
				case traits.FanSpeed_FORWARD:
					want.Direction = traits.FanSpeed_BACKWARD
				case traits.FanSpeed_BACKWARD:
					want.Direction = traits.FanSpeed_FORWARD
				default:
					want.Direction = got.GetDirection()
				}
				s.same("fan speed", got, want)
				cur = get()
				s.same("current fan speed", cur, want)
			default:
				change := genSpeed("update")
				um := mask(t, "update mask", "preset", "preset_index", "percentage", "direction")
				if len(um.GetPaths()) > 0 && one(t, 3, "single") {
					um.Paths = um.Paths[:1]
				}
				relative := op >= 6
				if relative && change.Percentage != 0 && coin(t, "less") {
					change.Percentage = -change.Percentage
				}
				var got *traits.FanSpeed
				var err error
				if op == 1 {
					s.step("model.UpdateFanSpeed(%s, mask %v) of %s", vkit.Text(change), um.GetPaths(), vkit.Text(cur))
					s.do(func() { got, err = m.UpdateFanSpeed(vkit.Copy(change), resource.WithUpdateMask(um)) })
				} else {
					s.step("UpdateFanSpeed(%s, mask %v, relative %v) of %s", vkit.Text(change), um.GetPaths(), relative, vkit.Text(cur))
					s.do(func() {
						got, err = srv.UpdateFanSpeed(bg, &traits.UpdateFanSpeedRequest{Name: "device", FanSpeed: vkit.Copy(change), UpdateMask: um, Relative: relative})
					})
				}
				want, invalid := f.update(cur, change, um, relative)
				now := get()
				switch {
				case invalid && err == nil && um != nil && !has(um, "preset"):
					// the unknown preset isn't part of the update
					vkit.Class("preset ignored")
				case invalid:
					s.code(err, codes.InvalidArgument)
					s.same("fan speed after an invalid update", now, cur)
					vkit.Class("invalid")
				case want != nil:
					s.ok(err)
					s.same("response", got, want)
					s.same("current fan speed", now, want)
					if !vkit.Same(want, cur) {
						vkit.Nontrivial(s.at)
						vkit.Class("exact, relative %v, masked %v", relative, um != nil)
					}
				default:
					s.ok(err)
					s.same("response", got, now)
					vkit.Class("consistent only")
				}
				cur = now
			}
		}
	})
}
