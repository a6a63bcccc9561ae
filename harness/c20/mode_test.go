package c20

import (
	"fmt"
	"math"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
)

func genModes(t *rapid.T) *traits.Modes {
	modes := &traits.Modes{}
	names := []string{"temperature", "spin", "speed", "soil"}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "modes"); i < n; i++ {
		m := &traits.Modes_Mode{Name: names[i], Ordered: coin(t, "ordered")}
		for j, k := 0, rapid.IntRange(0, 5).Draw(t, "values"); j < k; j++ {
			m.Values = append(m.Values, &traits.Modes_Value{Name: fmt.Sprintf("%v%d", names[i][:2], j)})
		}
		modes.Modes = append(modes.Modes, m)
	}
	return modes
}

// TestMode steps through modes.
func TestMode(t *testing.T) {
	vkit.Check(t, vkit.N(48000, 400000), func(t *rapid.T) {
		s := &steps{t: t}
		var m *modepb.Model
		modes := modepb.DefaultModes
		if one(t, 5, "default modes") {
			s.step("NewModel()")
			s.do(func() { m = modepb.NewModel() })
		} else {
			modes = genModes(t)
			s.step("NewModelModes(%s)", vkit.Text(modes))
			s.do(func() { m = modepb.NewModelModes(vkit.Copy(modes)) })
		}
		srv := modepb.NewModelServer(m)
		values := map[string][]string{}
		cur := map[string]string{}
		var names []string
		for _, mode := range modes.Modes {
			names = append(names, mode.Name)
			for _, v := range mode.Values {
				values[mode.Name] = append(values[mode.Name], v.Name)
			}
			if len(mode.Values) > 0 {
				cur[mode.Name] = mode.Values[0].Name
			}
		}
		names = append(names, "unknown")
		s.do(func() {
			s.same("modes", m.Modes(), modes)
			for _, n := range names {
				av := m.AvailableValues(n)
				if len(av) != len(values[n]) {
					s.failf("%d values of %s available, want %v", len(av), n, values[n])
				}
				for i, v := range av {
					if v.Name != values[n][i] {
						s.failf("available value %d of %s is %s, want %s", i, n, v.Name, values[n][i])
					}
				}
			}
		})
		get := func() map[string]string {
			var got *traits.ModeValues
			var err error
			s.do(func() { got, err = srv.GetModeValues(bg, &traits.GetModeValuesRequest{Name: "device"}) })
			s.ok(err)
			return got.Values
		}
		same := func(what string, got, want map[string]string, optional map[string]bool) {
			t.Helper()
			for k, v := range want {
				g, ok := got[k]
				if !ok && optional[k] {
					continue
				}
				if !ok || g != v {
					s.failf("%s is %v, want %v", what, got, want)
				}
			}
			for k := range got {
				if _, ok := want[k]; !ok {
					s.failf("%s is %v, want %v", what, got, want)
				}
			}
		}
		same("initial values", get(), cur, nil)

		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
			req := &traits.UpdateModeValuesRequest{Name: "device"}
			kind := rapid.IntRange(0, 5).Draw(t, "kind") // relative mostly
			if kind <= 1 || kind == 5 {
				req.ModeValues = &traits.ModeValues{Values: map[string]string{}}
				for j, k := 0, rapid.IntRange(0, 3).Draw(t, "given"); j < k; j++ {
					name := vkit.Pick(t, names, "mode")
					v := "odd"
					if vs := values[name]; len(vs) > 0 && !one(t, 6, "odd") {
						v = vkit.Pick(t, vs, "value")
					}
					req.ModeValues.Values[name] = v
				}
			}
			if kind >= 1 {
				req.Relative = &traits.ModeValuesRelative{Values: map[string]int32{}}
				for j, k := 0, rapid.IntRange(0, 3).Draw(t, "relative"); j < k; j++ {
					d := int32(rapid.IntRange(-12, 12).Draw(t, "step"))
					if one(t, 6, "huge") {
						d = vkit.Pick(t, []int32{math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MinInt32 + 1}, "step")
					}
					req.Relative.Values[vkit.Pick(t, names, "mode")] = d
				}
			}
			if one(t, 4, "mask") {
				req.UpdateMask = &fieldmaskpb.FieldMask{Paths: []string{"values"}}
			}
			s.step("UpdateModeValues(%s) of %v", vkit.Text(req), cur)
			relative := len(req.GetRelative().GetValues()) > 0

			want := map[string]string{}
			optional := map[string]bool{}
			given := req.ModeValues.GetValues()
			merge := req.UpdateMask != nil && (len(given) > 0 || relative)
			for k, v := range cur {
				if relative || merge {
					want[k] = v
					// whether an update without a mask drops modes it doesn't mention, isn't said
					optional[k] = req.UpdateMask == nil && len(given) > 0
				}
			}
			for k, v := range given {
				want[k] = v
				optional[k] = false
			}
			wrapped := false
			for k, d := range req.GetRelative().GetValues() {
				vs := values[k]
				if len(vs) == 0 {
					continue
				}
				if _, ok := given[k]; ok && d == 0 {
					continue
				}
				optional[k] = false
				at := -1
				for i, v := range vs {
					if v == cur[k] {
						at = i
					}
				}
				if at < 0 {
					want[k] = vs[0]
					continue
				}
				to := (int64(at) + int64(d)) % int64(len(vs))
				if to < 0 {
					to += int64(len(vs))
				}
				want[k] = vs[to]
				wrapped = wrapped || int64(at)+int64(d) != to
			}
			var got *traits.ModeValues
			var err error
			s.do(func() { got, err = srv.UpdateModeValues(bg, vkit.Copy(req)) })
			s.ok(err)
			now := get()
			same("response", got.GetValues(), want, optional)
			same("current values", now, want, optional)
			if len(now) != len(got.GetValues()) {
				s.failf("current values are %v, the response said %v", now, got.GetValues())
			}
			cur = now
			if relative {
				vkit.Nontrivial(s.at)
				vkit.Class("relative, wrapped %v, masked %v, mixed %v", wrapped, req.UpdateMask != nil, len(given) > 0)
			}
		}
	})
}
