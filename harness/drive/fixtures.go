// Package drive calls the public methods of every trait model, model server and memory device with generated
// arguments, without knowing them one by one.
package drive

import (
	"math/rand"
	"time"

	"google.golang.org/grpc"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

// Fixture is something with public methods to call.
type Fixture struct {
	Name string
	New  func() Device
}

// Device is a model with the server on top of it (either may be nil). Opts are applied to every resource.
type Device struct {
	Model  any
	Server any
}

// Fixtures lists every trait model, server and memory device.
// Options given to it are applied to models that take any.
func Fixtures(opts ...resource.Option) []Fixture {
	rng := func() resource.Option { return resource.WithRNG(rand.New(rand.NewSource(1))) }
	with := func(more ...resource.Option) []resource.Option {
		return append(append([]resource.Option{rng()}, opts...), more...)
	}
	return []Fixture{
		{"access", func() Device {
			m := accesspb.NewModel(with()...)
			return Device{m, accesspb.NewModelServer(m)}
		}},
		{"airquality", func() Device {
			m := airqualitysensorpb.NewModel(with()...)
			return Device{m, airqualitysensorpb.NewModelServer(m)}
		}},
		{"airtemperature", func() Device {
			m := airtemperaturepb.NewModel(with()...)
			return Device{m, airtemperaturepb.NewModelServer(m)}
		}},
		{"airtemperature-memory", func() Device { return Device{nil, airtemperaturepb.NewMemoryDevice()} }},
		{"booking", func() Device {
			m := bookingpb.NewModel(with()...)
			return Device{m, bookingpb.NewModelServer(m)}
		}},
		{"count-memory", func() Device { return Device{nil, countpb.NewMemoryDevice()} }},
		{"electric", func() Device {
			m := electricpb.NewModel(append(append([]resource.Option{}, opts...), electricpb.WithInitialMode(
				&traits.ElectricMode{Id: "a", Normal: true, Segments: []*traits.ElectricMode_Segment{{Magnitude: 1}}},
				&traits.ElectricMode{Id: "b"}))...)
			return Device{m, electricpb.NewModelServer(m)}
		}},
		{"electric-empty", func() Device {
			m := electricpb.NewModel(opts...)
			return Device{m, electricpb.NewModelServer(m)}
		}},
		{"emergency-memory", func() Device { return Device{nil, emergencypb.NewMemoryDevice()} }},
		{"energystorage", func() Device {
			m := energystoragepb.NewModel(with()...)
			return Device{m, energystoragepb.NewModelServer(m)}
		}},
		{"enterleave", func() Device {
			m := enterleavesensorpb.NewModel(with()...)
			return Device{m, enterleavesensorpb.NewModelServer(m)}
		}},
		{"fanspeed", func() Device {
			m := fanspeedpb.NewModel(with(fanspeedpb.WithPresets(fanspeedpb.Preset{Name: "a", Percentage: 10}, fanspeedpb.Preset{Name: "b", Percentage: 60}))...)
			return Device{m, fanspeedpb.NewModelServer(m)}
		}},
		{"hail", func() Device {
			m := hailpb.NewModel(with(hailpb.WithKeepAlive(time.Hour))...)
			return Device{m, hailpb.NewModelServer(m)}
		}},
		{"light", func() Device {
			m := lightpb.NewModel(with(lightpb.WithPreset(10, &traits.LightPreset{Name: "a", Title: "A"}), lightpb.WithPreset(60, &traits.LightPreset{Name: "b"}))...)
			return Device{m, lightpb.NewModelServer(m)}
		}},
		{"light-memory", func() Device { return Device{nil, lightpb.NewMemoryDevice()} }},
		{"metadata", func() Device {
			m := metadatapb.NewModel(with()...)
			return Device{m, metadatapb.NewModelServer(m)}
		}},
		{"metadata-collection", func() Device {
			m := metadatapb.NewCollection(with()...)
			return Device{m, metadatapb.NewCollectionServer(m)}
		}},
		{"meter", func() Device {
			m := meterpb.NewModel(with()...)
			return Device{m, meterpb.NewModelServer(m)}
		}},
		{"mode", func() Device {
			m := modepb.NewModel()
			return Device{m, modepb.NewModelServer(m)}
		}},
		{"mode-given", func() Device {
			m := modepb.NewModelModes(&traits.Modes{Modes: []*traits.Modes_Mode{
				{Name: "a", Values: []*traits.Modes_Value{{Name: "a"}, {Name: "b"}}, Ordered: true},
				{Name: "b", Values: []*traits.Modes_Value{{Name: "a"}, {Name: "b"}, {Name: "c"}}},
			}})
			return Device{m, modepb.NewModelServer(m)}
		}},
		{"occupancy", func() Device {
			m := occupancysensorpb.NewModel(with()...)
			return Device{m, occupancysensorpb.NewModelServer(m)}
		}},
		{"onoff", func() Device {
			m := onoffpb.NewModel(with()...)
			return Device{m, onoffpb.NewModelServer(m)}
		}},
		{"openclose", func() Device {
			m := openclosepb.NewModel(with(
				openclosepb.WithInitialPositions(&traits.OpenClosePosition{Direction: 0, OpenPercent: 10}, &traits.OpenClosePosition{Direction: 1, OpenPercent: 20}),
				openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "a"}, &traits.OpenClosePosition{Direction: 0, OpenPercent: 10}, &traits.OpenClosePosition{Direction: 1, OpenPercent: 20}),
				openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "b", Title: "B"}, &traits.OpenClosePosition{Direction: 0, OpenPercent: 70}, &traits.OpenClosePosition{Direction: 1, OpenPercent: 80}),
			)...)
			return Device{m, openclosepb.NewModelServer(m)}
		}},
		{"openclose-empty", func() Device {
			m := openclosepb.NewModel(with()...)
			return Device{m, openclosepb.NewModelServer(m)}
		}},
		{"parent", func() Device {
			m := parentpb.NewModel(with()...)
			return Device{m, parentpb.NewModelServer(m)}
		}},
		{"press", func() Device {
			m := presspb.NewModel(traits.PressedState_UNPRESSED)
			return Device{m, presspb.NewModelServer(m)}
		}},
		{"publication", func() Device {
			m := publicationpb.NewModel(with()...)
			return Device{m, publicationpb.NewModelServer(m)}
		}},
		{"speaker-memory", func() Device { return Device{nil, speakerpb.NewMemoryDevice(&types.AudioLevel{Gain: 4})} }},
		{"vending", func() Device {
			m := vendingpb.NewModel(with(
				vendingpb.WithInitialConsumable(&traits.Consumable{Name: "a", AvailablePortions: []*traits.Consumable_Portion{{Unit: 1}}}),
				vendingpb.WithInitialStock(&traits.Consumable_Stock{Consumable: "a", Remaining: &traits.Consumable_Quantity{Amount: 50}}),
			)...)
			return Device{m, vendingpb.NewModelServer(m)}
		}},
		{"vending-empty", func() Device {
			m := vendingpb.NewModel(with()...)
			return Device{m, vendingpb.NewModelServer(m)}
		}},
		{"waste", func() Device {
			m := wastepb.NewModel(with()...)
			return Device{m, wastepb.NewModelServer(m)}
		}},
	}
}

// Descs lists the services of the traits.
var Descs = []*grpc.ServiceDesc{
	&traits.AccessApi_ServiceDesc,
	&traits.AirQualitySensorApi_ServiceDesc,
	&traits.AirQualitySensorInfo_ServiceDesc,
	&traits.AirTemperatureApi_ServiceDesc,
	&traits.AirTemperatureInfo_ServiceDesc,
	&traits.BookingApi_ServiceDesc,
	&traits.BookingInfo_ServiceDesc,
	&traits.BrightnessSensorApi_ServiceDesc,
	&traits.BrightnessSensorInfo_ServiceDesc,
	&traits.ChannelApi_ServiceDesc,
	&traits.ChannelInfo_ServiceDesc,
	&traits.ColorApi_ServiceDesc,
	&traits.ColorInfo_ServiceDesc,
	&traits.CountApi_ServiceDesc,
	&traits.CountInfo_ServiceDesc,
	&traits.ElectricApi_ServiceDesc,
	&traits.ElectricInfo_ServiceDesc,
	&traits.EmergencyApi_ServiceDesc,
	&traits.EmergencyInfo_ServiceDesc,
	&traits.EnergyStorageApi_ServiceDesc,
	&traits.EnergyStorageInfo_ServiceDesc,
	&traits.EnterLeaveSensorApi_ServiceDesc,
	&traits.EnterLeaveSensorInfo_ServiceDesc,
	&traits.ExtendRetractApi_ServiceDesc,
	&traits.ExtendRetractInfo_ServiceDesc,
	&traits.FanSpeedApi_ServiceDesc,
	&traits.FanSpeedInfo_ServiceDesc,
	&traits.HailApi_ServiceDesc,
	&traits.HailInfo_ServiceDesc,
	&traits.InputSelectApi_ServiceDesc,
	&traits.InputSelectInfo_ServiceDesc,
	&traits.LightApi_ServiceDesc,
	&traits.LightInfo_ServiceDesc,
	&traits.LockUnlockApi_ServiceDesc,
	&traits.LockUnlockInfo_ServiceDesc,
	&traits.MetadataApi_ServiceDesc,
	&traits.MetadataInfo_ServiceDesc,
	&traits.MeterApi_ServiceDesc,
	&traits.MeterInfo_ServiceDesc,
	&traits.MicrophoneApi_ServiceDesc,
	&traits.MicrophoneInfo_ServiceDesc,
	&traits.ModeApi_ServiceDesc,
	&traits.ModeInfo_ServiceDesc,
	&traits.MotionSensorApi_ServiceDesc,
	&traits.MotionSensorSensorInfo_ServiceDesc,
	&traits.OccupancySensorApi_ServiceDesc,
	&traits.OccupancySensorInfo_ServiceDesc,
	&traits.OnOffApi_ServiceDesc,
	&traits.OnOffInfo_ServiceDesc,
	&traits.OpenCloseApi_ServiceDesc,
	&traits.OpenCloseInfo_ServiceDesc,
	&traits.ParentApi_ServiceDesc,
	&traits.ParentInfo_ServiceDesc,
	&traits.PressApi_ServiceDesc,
	&traits.PtzApi_ServiceDesc,
	&traits.PtzInfo_ServiceDesc,
	&traits.PublicationApi_ServiceDesc,
	&traits.SpeakerApi_ServiceDesc,
	&traits.SpeakerInfo_ServiceDesc,
	&traits.TemperatureApi_ServiceDesc,
	&traits.VendingApi_ServiceDesc,
	&traits.VendingInfo_ServiceDesc,
	&traits.WasteApi_ServiceDesc,
	&traits.WasteInfo_ServiceDesc,
	&electricpb.MemorySettingsApi_ServiceDesc,
}
