package c10

import (
	"context"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

// stream is a subscription of a trait model and a write that it is told about.
type stream struct {
	name string
	open func() (pull func(ctx context.Context, opts ...resource.ReadOption) any, write func(i int))
}

func v1[T any](fn func(ctx context.Context, opts ...resource.ReadOption) <-chan T) func(context.Context, ...resource.ReadOption) any {
	return func(ctx context.Context, opts ...resource.ReadOption) any { return fn(ctx, opts...) }
}

func v2[T any](id string, fn func(ctx context.Context, id string, opts ...resource.ReadOption) <-chan T) func(context.Context, ...resource.ReadOption) any {
	return func(ctx context.Context, opts ...resource.ReadOption) any { return fn(ctx, id, opts...) }
}

type puller = func(context.Context, ...resource.ReadOption) any

var streams = []stream{
	{"AccessAttempts", func() (puller, func(int)) {
		m := accesspb.NewModel()
		return v1(m.PullAccessAttempts), func(i int) {
			_, _ = m.UpdateLastAccessAttempt(&traits.AccessAttempt{Reason: fmt.Sprint(i)})
		}
	}},
	{"AirQuality", func() (puller, func(int)) {
		m := airqualitysensorpb.NewModel()
		return v1(m.PullAirQuality), func(i int) {
			f := float32(i)
			_, _ = m.UpdateAirQuality(&traits.AirQuality{AirPressure: &f})
		}
	}},
	{"AirTemperature", func() (puller, func(int)) {
		m := airtemperaturepb.NewModel()
		return v1(m.PullAirTemperature), func(i int) {
			f := float32(i)
			_, _ = m.UpdateAirTemperature(&traits.AirTemperature{AmbientHumidity: &f})
		}
	}},
	{"Bookings", func() (puller, func(int)) {
		m := bookingpb.NewModel()
		return v1(m.PullBookings), func(i int) { _, _ = m.CreateBooking(&traits.Booking{Bookable: fmt.Sprint(i)}) }
	}},
	{"Demand", func() (puller, func(int)) {
		m := electricpb.NewModel()
		return v1(m.PullDemand), func(i int) { _, _ = m.UpdateDemand(&traits.ElectricDemand{Current: float32(i)}) }
	}},
	{"ActiveMode", func() (puller, func(int)) {
		m := electricpb.NewModel()
		_ = m.AddMode(&traits.ElectricMode{Id: "0"})
		_ = m.AddMode(&traits.ElectricMode{Id: "1"})
		return v1(m.PullActiveMode), func(i int) { _, _ = m.ChangeActiveMode(fmt.Sprint(i % 2)) }
	}},
	{"Modes", func() (puller, func(int)) {
		m := electricpb.NewModel()
		return v1(m.PullModes), func(i int) { _, _ = m.CreateMode(&traits.ElectricMode{Title: fmt.Sprint(i)}) }
	}},
	{"EnergyLevel", func() (puller, func(int)) {
		m := energystoragepb.NewModel()
		return v1(m.PullEnergyLevel), func(i int) { _, _ = m.UpdateEnergyLevel(&traits.EnergyLevel{PluggedIn: i%2 == 0}) }
	}},
	{"EnterLeaveEvents", func() (puller, func(int)) {
		m := enterleavesensorpb.NewModel()
		return v1(m.PullEnterLeaveEvents), func(i int) {
			_ = m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_ENTER})
		}
	}},
	{"FanSpeed", func() (puller, func(int)) {
		m := fanspeedpb.NewModel()
		return v1(m.PullFanSpeed), func(i int) { _, _ = m.UpdateFanSpeed(&traits.FanSpeed{Percentage: float32(i % 100)}) }
	}},
	{"Hail", func() (puller, func(int)) {
		m := hailpb.NewModel()
		h, _ := m.CreateHail(&traits.Hail{})
		return v2(h.Id, m.PullHail), func(i int) {
			_, _ = m.UpdateHail(&traits.Hail{Id: h.Id, Origin: &traits.Hail_Location{DisplayName: fmt.Sprint(i)}})
		}
	}},
	{"Hails", func() (puller, func(int)) {
		m := hailpb.NewModel()
		return v1(m.PullHails), func(i int) {
			_, _ = m.CreateHail(&traits.Hail{Origin: &traits.Hail_Location{DisplayName: fmt.Sprint(i)}})
		}
	}},
	{"Brightness", func() (puller, func(int)) {
		m := lightpb.NewModel()
		return v1(m.PullBrightness), func(i int) { _, _ = m.UpdateBrightness(&traits.Brightness{LevelPercent: float32(i % 100)}) }
	}},
	{"Metadata", func() (puller, func(int)) {
		m := metadatapb.NewModel()
		return v1(m.PullMetadata), func(i int) {
			_, _ = m.UpdateMetadata(&traits.Metadata{Appearance: &traits.Metadata_Appearance{Title: fmt.Sprint(i)}})
		}
	}},
	{"CollectionMetadata", func() (puller, func(int)) {
		m := metadatapb.NewCollection()
		return v2("a", m.PullMetadata), func(i int) {
			_, _ = m.UpdateMetadata("a", &traits.Metadata{Appearance: &traits.Metadata_Appearance{Title: fmt.Sprint(i)}}, resource.WithCreateIfAbsent())
		}
	}},
	{"AllMetadata", func() (puller, func(int)) {
		m := metadatapb.NewCollection()
		return v1(m.PullAllMetadata), func(i int) {
			_, _ = m.UpdateMetadata(fmt.Sprint(i), &traits.Metadata{Appearance: &traits.Metadata_Appearance{Title: fmt.Sprint(i)}}, resource.WithCreateIfAbsent())
		}
	}},
	{"MeterReadings", func() (puller, func(int)) {
		m := meterpb.NewModel()
		return v1(m.PullMeterReadings), func(i int) { _, _ = m.UpdateMeterReading(&traits.MeterReading{Usage: float32(i)}) }
	}},
	{"ModeValues", func() (puller, func(int)) {
		m := modepb.NewModel()
		return v1(m.PullModeValues), func(i int) {
			modes := m.Modes().Modes
			if len(modes) > 0 && len(modes[0].Values) > 0 {
				_, _ = m.UpdateModeValues(&traits.ModeValues{Values: map[string]string{modes[0].Name: modes[0].Values[i%len(modes[0].Values)].Name}})
			}
		}
	}},
	{"Occupancy", func() (puller, func(int)) {
		m := occupancysensorpb.NewModel()
		return v1(m.PullOccupancy), func(i int) { _, _ = m.SetOccupancy(&traits.Occupancy{PeopleCount: int32(i)}) }
	}},
	{"OnOff", func() (puller, func(int)) {
		m := onoffpb.NewModel()
		return v1(m.PullOnOff), func(i int) { _, _ = m.UpdateOnOff(&traits.OnOff{State: traits.OnOff_State(1 + i%2)}) }
	}},
	{"Positions", func() (puller, func(int)) {
		m := openclosepb.NewModel()
		_, _ = m.UpdatePosition(&traits.OpenClosePosition{OpenPercent: 50}, resource.WithCreateIfAbsent())
		return v1(m.PullPositions), func(i int) {
			_, _ = m.UpdatePosition(&traits.OpenClosePosition{OpenPercent: float32(i % 100)})
		}
	}},
	{"Children", func() (puller, func(int)) {
		m := parentpb.NewModel()
		return v1(m.PullChildren), func(i int) { m.AddChildTrait(fmt.Sprint("c", i), trait.OnOff) }
	}},
	{"PressedState", func() (puller, func(int)) {
		m := presspb.NewModel(traits.PressedState_UNPRESSED)
		return v1(m.PullPressedState), func(i int) {
			_, _ = m.UpdatePressedState(&traits.PressedState{State: traits.PressedState_Press(1 + i%2)})
		}
	}},
	{"Publication", func() (puller, func(int)) {
		m := publicationpb.NewModel()
		p, _ := m.CreatePublication(&traits.Publication{Id: "p"})
		return v2(p.Id, m.PullPublication), func(i int) {
			_, _ = m.UpdatePublication(p.Id, &traits.Publication{Id: p.Id, Body: []byte(fmt.Sprint(i))})
		}
	}},
	{"Publications", func() (puller, func(int)) {
		m := publicationpb.NewModel()
		return v1(m.PullPublications), func(i int) { _, _ = m.CreatePublication(&traits.Publication{Id: fmt.Sprint(i)}) }
	}},
	{"Consumable", func() (puller, func(int)) {
		m := vendingpb.NewModel()
		_, _ = m.CreateConsumable(&traits.Consumable{Name: "c"})
		return v2("c", m.PullConsumable), func(i int) { _, _ = m.UpdateConsumable(&traits.Consumable{Name: "c", DisplayName: fmt.Sprint(i)}) }
	}},
	{"Consumables", func() (puller, func(int)) {
		m := vendingpb.NewModel()
		return v1(m.PullConsumables), func(i int) { _, _ = m.CreateConsumable(&traits.Consumable{Name: fmt.Sprint("c", i)}) }
	}},
	{"Stock", func() (puller, func(int)) {
		m := vendingpb.NewModel()
		_, _ = m.CreateStock(&traits.Consumable_Stock{Consumable: "c"})
		return v2("c", m.PullStock), func(i int) {
			_, _ = m.UpdateStock(&traits.Consumable_Stock{Consumable: "c", Remaining: &traits.Consumable_Quantity{Amount: float32(i)}})
		}
	}},
	{"Inventory", func() (puller, func(int)) {
		m := vendingpb.NewModel()
		return v1(m.PullInventory), func(i int) { _, _ = m.CreateStock(&traits.Consumable_Stock{Consumable: fmt.Sprint("c", i)}) }
	}},
	{"WasteRecords", func() (puller, func(int)) {
		m := wastepb.NewModel()
		return v1(m.PullWasteRecords), func(i int) { _, _ = m.AddWasteRecord(&traits.WasteRecord{Id: fmt.Sprint(i)}) }
	}},
}

// TestTraits: every subscription of every trait model, its consumer gone after k events with more to come.
func TestTraits(t *testing.T) {
	reps := vkit.N(3, 40)
	for _, s := range streams {
		for received := 0; received <= 3; received++ {
			for variant := 0; variant < 4; variant++ {
				for rep := 0; rep < reps; rep++ {
					vkit.Eval()
					what := fmt.Sprintf("%s: consumer stops after %d events, backpressure %v, updates only %v", s.name, received, variant&1 == 1, variant&2 == 2)
					leak := vkit.LeakBaseline()
					pull, write := s.open()
					ctx, cancel := context.WithCancel(context.Background())
					ch := reflect.ValueOf(pull(ctx, resource.WithBackpressure(variant&1 == 1), resource.WithUpdatesOnly(variant&2 == 2)))
					writer := make(chan struct{})
					stop := make(chan struct{})
					written := make(chan struct{}, 1000)
					go func() {
						defer close(writer)
						for i := 0; i < 500; i++ {
							select {
							case <-stop:
								return
							default:
							}
							write(i)
							select {
							case written <- struct{}{}:
							default:
							}
							time.Sleep(20 * time.Microsecond)
						}
					}()
					got := 0
					vkit.Within(t, what+": receiving", func() {
						for got < received {
							if _, ok := ch.Recv(); !ok {
								panic("closed early")
							}
							got++
						}
					})
					// leave it a moment so that the next event is on its way to the consumer
					time.Sleep(time.Duration(rep%3) * 100 * time.Microsecond)
					cancel()
					close(stop)
					vkit.Within(t, what+": the writer after the cancel", func() { <-writer })
					leak.Wait(t, what)
					vkit.Within(t, what+": closing", func() {
						for {
							if _, ok := ch.Recv(); !ok {
								return
							}
						}
					})
					vkit.Nontrivial(fmt.Sprint(what, rep))
				}
			}
		}
		vkit.Class("trait stream %s", s.name)
	}
}
