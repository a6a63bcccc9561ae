package c20

import (
	"math"
	"math/big"
	"sort"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb/unitpb"
)

// dim is what a unit measures and its size relative to the base unit of that.
type dim struct {
	of   string
	size *big.Rat
}

func rat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(s)
	}
	return r
}

// dims is written from the definitions of the units, not from the code: a US cup is a 16th of a US gallon, which is
// 231 cubic inches of 2.54 cm, i.e. 3.785411784 l.
var dims = map[traits.Consumable_Unit]dim{
	traits.Consumable_METER:       {"length", rat("1")},
	traits.Consumable_LITER:       {"volume", rat("1")},
	traits.Consumable_CUBIC_METER: {"volume", rat("1000")},
	traits.Consumable_CUP:         {"volume", new(big.Rat).Quo(rat("3.785411784"), rat("16"))},
	traits.Consumable_KILOGRAM:    {"weight", rat("1")},
}

// units has all the units there are, and two there aren't.
var units = func() []traits.Consumable_Unit {
	var us []traits.Consumable_Unit
	for n := range traits.Consumable_Unit_name {
		us = append(us, traits.Consumable_Unit(n))
	}
	us = append(us, 97, -3)
	sort.Slice(us, func(i, j int) bool { return us[i] < us[j] })
	return us
}()

// factor is what a quantity in one unit is multiplied with to get the quantity in the other.
func factor(from, to traits.Consumable_Unit) (*big.Rat, bool) {
	if from == to {
		return rat("1"), true
	}
	f, okF := dims[from]
	t, okT := dims[to]
	if !okF || !okT || f.of != t.of {
		return nil, false
	}
	return new(big.Rat).Quo(f.size, t.size), true
}

// convert is the exact conversion of v.
func convert(v float64, from, to traits.Consumable_Unit) (*big.Rat, bool) {
	f, ok := factor(from, to)
	if !ok {
		return nil, false
	}
	return f.Mul(f, new(big.Rat).SetFloat64(v)), true
}

// near is whether got is within rel of want, relative to scale.
func near(got float64, want *big.Rat, rel float64, scale float64) bool {
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	d := new(big.Rat).Sub(new(big.Rat).SetFloat64(got), want)
	d.Abs(d)
	w, _ := new(big.Rat).Abs(want).Float64()
	lim := new(big.Rat).SetFloat64(rel * max(w, scale))
	return d.Cmp(lim) <= 0
}

// genUnit prefers convertible units.
func genUnit(t *rapid.T, label string) traits.Consumable_Unit {
	if one(t, 4, label+" any") {
		return vkit.Pick(t, units, label)
	}
	return vkit.Pick(t, []traits.Consumable_Unit{traits.Consumable_LITER, traits.Consumable_CUBIC_METER, traits.Consumable_CUP,
		traits.Consumable_KILOGRAM, traits.Consumable_METER}, label)
}

// sameCategory draws a unit convertible to u.
func sameCategory(t *rapid.T, u traits.Consumable_Unit, label string) traits.Consumable_Unit {
	var us []traits.Consumable_Unit
	for _, o := range units {
		if _, ok := factor(u, o); ok {
			us = append(us, o)
		}
	}
	return vkit.Pick(t, us, label)
}

func genMagnitude(t *rapid.T, exp int, label string) float64 {
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		return float64(rapid.IntRange(-20, 1000).Draw(t, label))
	case 1:
		return vkit.Pick(t, []float64{0, 1, 0.5, 1000, 0.001, 0.2365882365, 4.2267528377, 1e6, -1}, label)
	default:
		return rapid.Float64Range(-10, 10).Draw(t, label) * math.Pow(10, float64(rapid.IntRange(-exp, exp).Draw(t, label+" exp")))
	}
}

// TestUnits compares unit conversion with exact rational arithmetic, and there and back again.
func TestUnits(t *testing.T) {
	vkit.Check(t, vkit.N(80000, 1000000), func(t *rapid.T) {
		from := genUnit(t, "from")
		to := genUnit(t, "to")
		if coin(t, "same category") {
			to = sameCategory(t, from, "to")
		}
		v := genMagnitude(t, 100, "v")
		s := &steps{t: t}
		s.step("Convert(%v, %v, %v)", v, from, to)

		want, ok := convert(v, from, to)
		var got, back float64
		var err, backErr error
		s.do(func() { got, err = unitpb.Convert(v, from, to) })
		if !ok {
			if err == nil {
				s.failf("no error, got %v", got)
			}
			vkit.Class("refused")
		} else {
			s.ok(err)
			if !near(got, want, 1e-14, 1e-290) {
				f, _ := want.Float64()
				s.failf("got %v, want %v", got, f)
			}
			if from == to && got != v {
				s.failf("got %v, want the value itself", got)
			}
			s.do(func() { back, backErr = unitpb.Convert(got, to, from) })
			s.ok(backErr)
			if !near(back, new(big.Rat).SetFloat64(v), 1e-14, 1e-285) {
				s.failf("%v %v is %v %v, which is %v %v", v, from, got, to, back, from)
			}
			if from != to {
				vkit.Nontrivial(s.at)
				vkit.Class("%v to %v", from, to)
			}
		}

		v32 := float32(genMagnitude(t, 20, "v32"))
		s.step("Convert32(%v, %v, %v)", v32, from, to)
		var got32, back32 float32
		s.do(func() { got32, err = unitpb.Convert32(v32, from, to) })
		want, ok = convert(float64(v32), from, to)
		if !ok {
			if err == nil {
				s.failf("no error, got %v", got32)
			}
			return
		}
		s.ok(err)
		if !near(float64(got32), want, 2e-7, 1e-37) {
			f, _ := want.Float64()
			s.failf("got %v, want %v", got32, f)
		}
		s.do(func() { back32, err = unitpb.Convert32(got32, to, from) })
		s.ok(err)
		if !near(float64(back32), new(big.Rat).SetFloat64(float64(v32)), 4e-7, 1e-34) {
			s.failf("%v %v is %v %v, which is %v %v", v32, from, got32, to, back32, from)
		}
	})
}
