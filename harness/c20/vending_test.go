package c20

import (
	"math"
	"math/big"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

func genAmount(t *rapid.T, label string) float32 {
	switch rapid.IntRange(0, 2).Draw(t, label+" kind") {
	case 0:
		return float32(rapid.IntRange(0, 20).Draw(t, label))
	case 1:
		return vkit.Pick(t, []float32{0, 0.5, 0.001, 1000, 0.23658824, 12.25}, label)
	default:
		return float32(rapid.Float64Range(0, 5000).Draw(t, label))
	}
}

func genQuantity(t *rapid.T, label string) *traits.Consumable_Quantity {
	return &traits.Consumable_Quantity{Amount: genAmount(t, label+" amount"), Unit: genUnit(t, label+" unit")}
}

func genStock(t *rapid.T, name string) *traits.Consumable_Stock {
	s := &traits.Consumable_Stock{Consumable: name, Dispensing: one(t, 4, "dispensing")}
	if one(t, 3, "has last dispensed") {
		s.LastDispensed = genQuantity(t, "last dispensed")
	}
	has := rapid.IntRange(0, 3).Draw(t, "used, remaining")
	if has&1 != 0 {
		s.Used = genQuantity(t, "used")
	}
	if has&2 != 0 {
		s.Remaining = genQuantity(t, "remaining")
	}
	return s
}

// dispense is the expected stock after quantity has been dispensed, but for the amounts which are exact.
func dispense(old *traits.Consumable_Stock, q *traits.Consumable_Quantity) (want *traits.Consumable_Stock, used, remaining *big.Rat, ok bool) {
	want = vkit.Copy(old)
	want.Dispensing = false
	want.LastDispensed = vkit.Copy(q)
	if old.Used != nil {
		d, ok := convert(float64(q.Amount), q.Unit, old.Used.Unit)
		if !ok {
			return nil, nil, nil, false
		}
		used = d.Add(d, new(big.Rat).SetFloat64(float64(old.Used.Amount)))
	}
	if old.Remaining != nil {
		d, ok := convert(float64(q.Amount), q.Unit, old.Remaining.Unit)
		if !ok {
			return nil, nil, nil, false
		}
		remaining = d.Sub(new(big.Rat).SetFloat64(float64(old.Remaining.Amount)), d)
		if remaining.Sign() < 0 {
			remaining.SetInt64(0)
		}
	}
	return want, used, remaining, true
}

// scale is the size of values that affects the precision of sums with q, subnormal floats have an absolute one.
func scale(q *traits.Consumable_Quantity) float64 {
	return max(math.Abs(float64(q.Amount)), 1e-37)
}

// settle compares the amounts of got with the exact ones, then copies them to want.
func (s *steps) settle(got, want *traits.Consumable_Stock, used, remaining *big.Rat, old *traits.Consumable_Stock) {
	if used != nil && got.GetUsed() != nil {
		if !near(float64(got.Used.Amount), used, 3e-7, scale(old.Used)) {
			f, _ := used.Float64()
			s.failf("used is %v, want %v (stock before: %s)", got.Used.Amount, f, vkit.Text(old))
		}
		want.Used.Amount = got.Used.Amount
	}
	if remaining != nil && got.GetRemaining() != nil {
		a := float64(got.Remaining.Amount)
		if !near(a, remaining, 3e-7, scale(old.Remaining)) || a < 0 {
			f, _ := remaining.Float64()
			s.failf("remaining is %v, want %v (stock before: %s)", got.Remaining.Amount, f, vkit.Text(old))
		}
		want.Remaining.Amount = got.Remaining.Amount
	}
}

// TestVending dispenses and updates stock.
func TestVending(t *testing.T) {
	names := []string{"a", "b", "c", "unknown"}
	vkit.Check(t, vkit.N(40000, 300000), func(t *rapid.T) {
		s := &steps{t: t}
		ref := map[string]*traits.Consumable_Stock{}
		cons := map[string]*traits.Consumable{}
		var opts []resource.Option
		for _, n := range names[:3] {
			if coin(t, "initial stock") {
				ref[n] = genStock(t, n)
				opts = append(opts, vendingpb.WithInitialStock(vkit.Copy(ref[n])))
			}
			if coin(t, "initial consumable") {
				cons[n] = &traits.Consumable{Name: n, DisplayName: "the " + n}
				opts = append(opts, vendingpb.WithInitialConsumable(vkit.Copy(cons[n])))
			}
		}
		var m *vendingpb.Model
		var srv *vendingpb.ModelServer
		s.step("NewModel(%d initial stock, %d initial consumables)", len(ref), len(cons))
		s.do(func() { m = vendingpb.NewModel(opts...); srv = vendingpb.NewModelServer(m) })

		check := func() {
			var stock []*traits.Consumable_Stock
			var consumables []*traits.Consumable
			s.do(func() { stock = m.ListInventory(); consumables = m.ListConsumables() })
			if len(stock) != len(ref) {
				s.failf("%d stock records, want %d", len(stock), len(ref))
			}
			for _, st := range stock {
				if ref[st.Consumable] == nil {
					s.failf("unexpected stock %s", vkit.Text(st))
				}
				s.same("stock "+st.Consumable, st, ref[st.Consumable])
			}
			if len(consumables) != len(cons) {
				s.failf("%d consumables, want %d", len(consumables), len(cons))
			}
			for _, c := range consumables {
				if cons[c.Name] == nil {
					s.failf("unexpected consumable %s", vkit.Text(c))
				}
				s.same("consumable "+c.Name, c, cons[c.Name])
			}
		}
		check()

		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
			name := vkit.Pick(t, names, "name")
			switch op := rapid.IntRange(0, 11).Draw(t, "op"); op {
			case 0, 1, 2, 3, 4, 5, 6:
				q := genQuantity(t, "quantity")
				old := ref[name]
				// prefer quantities that can be converted and amounts near what's there
				if have := old.GetRemaining(); have != nil && one(t, 3, "near remaining") {
					q.Unit = sameCategory(t, have.Unit, "unit")
					if d, ok := convert(float64(have.Amount), have.Unit, q.Unit); ok {
						f, _ := d.Float64()
						q.Amount = float32(f * vkit.Pick(t, []float64{1, 0.999, 1.001, 0.5, 2}, "of remaining"))
					}
				} else if have := old.GetUsed(); have != nil && one(t, 3, "near used") {
					q.Unit = sameCategory(t, have.Unit, "unit")
				}
				if one(t, 12, "no quantity") {
					q = nil
				}
				given := proto.Clone(q).(*traits.Consumable_Quantity)
				var got *traits.Consumable_Stock
				var err error
				if op < 3 {
					s.step("DispenseInstantly(%q, %s)", name, vkit.Text(q))
					s.do(func() { got, err = m.DispenseInstantly(name, given) })
				} else {
					if op == 3 && one(t, 3, "no name") {
						name, old = "", nil
					}
					s.step("Dispense(%q, %s)", name, vkit.Text(q))
					s.do(func() {
						got, err = srv.Dispense(bg, &traits.DispenseRequest{Name: "device", Consumable: name, Quantity: given})
					})
				}
				if q == nil {
					if err == nil && old != nil && (old.Used != nil || old.Remaining != nil) {
						// dispensing nothing is an error or changes nothing
						s.same("used", got.GetUsed(), old.Used)
						s.same("remaining", got.GetRemaining(), old.Remaining)
						ref[name] = got
					}
					break
				}
				if old == nil {
					switch {
					case err == nil:
						s.failf("no error")
					case name != "":
						s.code(err, codes.NotFound)
					}
					break
				}
				want, used, remaining, ok := dispense(old, q)
				if !ok {
					if err == nil {
						s.failf("no error, %s (stock before: %s)", vkit.Text(got), vkit.Text(old))
					}
					vkit.Class("conversion refused")
					break
				}
				s.ok(err)
				s.settle(got, want, used, remaining, old)
				s.same("stock", got, want)
				ref[name] = want
				switch {
				case old.Used != nil && old.Remaining != nil && old.Used.Unit != old.Remaining.Unit:
					vkit.Class("different units")
					vkit.Nontrivial(s.at + vkit.Text(old))
				case old.Used != nil || old.Remaining != nil:
					vkit.Class("used %v remaining %v", old.Used != nil, old.Remaining != nil)
					vkit.Nontrivial(s.at + vkit.Text(old))
				}
				if remaining != nil && remaining.Sign() == 0 {
					vkit.Class("floored")
				}
			case 7:
				st := genStock(t, name)
				um := mask(t, "update mask", "used", "remaining", "dispensing", "last_dispensed", "used.amount", "remaining.unit")
				s.step("UpdateStock(%s, mask %v)", vkit.Text(st), um.GetPaths())
				var got *traits.Consumable_Stock
				var err error
				s.do(func() {
					got, err = srv.UpdateStock(bg, &traits.UpdateStockRequest{Stock: vkit.Copy(st), UpdateMask: um})
				})
				if ref[name] == nil {
					s.code(err, codes.NotFound)
					break
				}
				s.ok(err)
				var w *fieldmaskpb.FieldMask
				ref[name] = vkit.RefMerge(ref[name], st, um, w, w, true).(*traits.Consumable_Stock)
				s.same("stock", got, ref[name])
			case 8:
				st := genStock(t, name)
				s.step("CreateStock(%s)", vkit.Text(st))
				var got *traits.Consumable_Stock
				var err error
				s.do(func() { got, err = m.CreateStock(vkit.Copy(st)) })
				if ref[name] != nil {
					s.code(err, codes.AlreadyExists)
					break
				}
				s.ok(err)
				s.same("stock", got, st)
				ref[name] = st
			case 9:
				s.step("DeleteStock(%q)", name)
				var err error
				s.do(func() { _, err = m.DeleteStock(name) })
				if ref[name] == nil {
					s.code(err, codes.NotFound)
					break
				}
				s.ok(err)
				delete(ref, name)
			case 10:
				s.step("StopDispense(%q)", name)
				var got *traits.Consumable_Stock
				var err error
				s.do(func() {
					got, err = srv.StopDispense(bg, &traits.StopDispenseRequest{Name: "a", Consumable: name})
				})
				if ref[name] == nil {
					s.code(err, codes.NotFound)
					break
				}
				s.ok(err)
				s.same("stock", got, ref[name])
			case 11:
				c := &traits.Consumable{Name: name, DisplayName: "new " + name}
				s.step("CreateConsumable(%s)", vkit.Text(c))
				var got *traits.Consumable
				var err error
				s.do(func() { got, err = m.CreateConsumable(vkit.Copy(c)) })
				if cons[name] != nil {
					s.code(err, codes.AlreadyExists)
					break
				}
				s.ok(err)
				s.same("consumable", got, c)
				cons[name] = c
			}
			check()
		}
	})
}
