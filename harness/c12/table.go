// Code generated by tools/routers.py from the list of routers. DO NOT EDIT.

package c12

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc"

	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/brightnesssensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/channelpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/colorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/extendretractpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/inputselectpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lockunlockpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/microphonepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/motionsensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/ptzpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/temperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

var services = []*service{
	{
		label:  "accesspb.ApiRouter",
		desc:   &traits.AccessApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return accesspb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewAccessApiClient(c) },
		wrap:   func(s any) theWrapper { return accesspb.WrapApi(s.(traits.AccessApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return accesspb.WithAccessApiClientFactory(func(n string) (traits.AccessApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.AccessApiClient), err
			})
		},
	},
	{
		label:  "airqualitysensorpb.ApiRouter",
		desc:   &traits.AirQualitySensorApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return airqualitysensorpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewAirQualitySensorApiClient(c) },
		wrap:   func(s any) theWrapper { return airqualitysensorpb.WrapApi(s.(traits.AirQualitySensorApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorApiClientFactory(func(n string) (traits.AirQualitySensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.AirQualitySensorApiClient), err
			})
		},
	},
	{
		label:  "airqualitysensorpb.InfoRouter",
		desc:   &traits.AirQualitySensorInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return airqualitysensorpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewAirQualitySensorInfoClient(c) },
		wrap:   func(s any) theWrapper { return airqualitysensorpb.WrapInfo(s.(traits.AirQualitySensorInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(n string) (traits.AirQualitySensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.AirQualitySensorInfoClient), err
			})
		},
	},
	{
		label:  "airtemperaturepb.ApiRouter",
		desc:   &traits.AirTemperatureApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return airtemperaturepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewAirTemperatureApiClient(c) },
		wrap:   func(s any) theWrapper { return airtemperaturepb.WrapApi(s.(traits.AirTemperatureApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureApiClientFactory(func(n string) (traits.AirTemperatureApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.AirTemperatureApiClient), err
			})
		},
	},
	{
		label:  "airtemperaturepb.InfoRouter",
		desc:   &traits.AirTemperatureInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return airtemperaturepb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewAirTemperatureInfoClient(c) },
		wrap:   func(s any) theWrapper { return airtemperaturepb.WrapInfo(s.(traits.AirTemperatureInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureInfoClientFactory(func(n string) (traits.AirTemperatureInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.AirTemperatureInfoClient), err
			})
		},
	},
	{
		label:  "bookingpb.ApiRouter",
		desc:   &traits.BookingApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return bookingpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewBookingApiClient(c) },
		wrap:   func(s any) theWrapper { return bookingpb.WrapApi(s.(traits.BookingApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingApiClientFactory(func(n string) (traits.BookingApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.BookingApiClient), err
			})
		},
	},
	{
		label:  "bookingpb.InfoRouter",
		desc:   &traits.BookingInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return bookingpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewBookingInfoClient(c) },
		wrap:   func(s any) theWrapper { return bookingpb.WrapInfo(s.(traits.BookingInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingInfoClientFactory(func(n string) (traits.BookingInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.BookingInfoClient), err
			})
		},
	},
	{
		label:  "brightnesssensorpb.ApiRouter",
		desc:   &traits.BrightnessSensorApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return brightnesssensorpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewBrightnessSensorApiClient(c) },
		wrap:   func(s any) theWrapper { return brightnesssensorpb.WrapApi(s.(traits.BrightnessSensorApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorApiClientFactory(func(n string) (traits.BrightnessSensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.BrightnessSensorApiClient), err
			})
		},
	},
	{
		label:  "brightnesssensorpb.InfoRouter",
		desc:   &traits.BrightnessSensorInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return brightnesssensorpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewBrightnessSensorInfoClient(c) },
		wrap:   func(s any) theWrapper { return brightnesssensorpb.WrapInfo(s.(traits.BrightnessSensorInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(n string) (traits.BrightnessSensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.BrightnessSensorInfoClient), err
			})
		},
	},
	{
		label:  "channelpb.ApiRouter",
		desc:   &traits.ChannelApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return channelpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewChannelApiClient(c) },
		wrap:   func(s any) theWrapper { return channelpb.WrapApi(s.(traits.ChannelApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelApiClientFactory(func(n string) (traits.ChannelApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ChannelApiClient), err
			})
		},
	},
	{
		label:  "channelpb.InfoRouter",
		desc:   &traits.ChannelInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return channelpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewChannelInfoClient(c) },
		wrap:   func(s any) theWrapper { return channelpb.WrapInfo(s.(traits.ChannelInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelInfoClientFactory(func(n string) (traits.ChannelInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ChannelInfoClient), err
			})
		},
	},
	{
		label:  "colorpb.ApiRouter",
		desc:   &traits.ColorApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return colorpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewColorApiClient(c) },
		wrap:   func(s any) theWrapper { return colorpb.WrapApi(s.(traits.ColorApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorApiClientFactory(func(n string) (traits.ColorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ColorApiClient), err
			})
		},
	},
	{
		label:  "colorpb.InfoRouter",
		desc:   &traits.ColorInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return colorpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewColorInfoClient(c) },
		wrap:   func(s any) theWrapper { return colorpb.WrapInfo(s.(traits.ColorInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorInfoClientFactory(func(n string) (traits.ColorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ColorInfoClient), err
			})
		},
	},
	{
		label:  "countpb.ApiRouter",
		desc:   &traits.CountApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return countpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewCountApiClient(c) },
		wrap:   func(s any) theWrapper { return countpb.WrapApi(s.(traits.CountApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return countpb.WithCountApiClientFactory(func(n string) (traits.CountApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.CountApiClient), err
			})
		},
	},
	{
		label:  "countpb.InfoRouter",
		desc:   &traits.CountInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return countpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewCountInfoClient(c) },
		wrap:   func(s any) theWrapper { return countpb.WrapInfo(s.(traits.CountInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return countpb.WithCountInfoClientFactory(func(n string) (traits.CountInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.CountInfoClient), err
			})
		},
	},
	{
		label:  "electricpb.ApiRouter",
		desc:   &traits.ElectricApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return electricpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewElectricApiClient(c) },
		wrap:   func(s any) theWrapper { return electricpb.WrapApi(s.(traits.ElectricApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricApiClientFactory(func(n string) (traits.ElectricApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ElectricApiClient), err
			})
		},
	},
	{
		label:  "electricpb.InfoRouter",
		desc:   &traits.ElectricInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return electricpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewElectricInfoClient(c) },
		wrap:   func(s any) theWrapper { return electricpb.WrapInfo(s.(traits.ElectricInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricInfoClientFactory(func(n string) (traits.ElectricInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ElectricInfoClient), err
			})
		},
	},
	{
		label:  "electricpb.MemorySettingsApiRouter",
		desc:   &electricpb.MemorySettingsApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return electricpb.NewMemorySettingsApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return electricpb.NewMemorySettingsApiClient(c) },
		wrap: func(s any) theWrapper {
			return electricpb.WrapMemorySettingsApi(s.(electricpb.MemorySettingsApiServer))
		},
		factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithMemorySettingsApiClientFactory(func(n string) (electricpb.MemorySettingsApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(electricpb.MemorySettingsApiClient), err
			})
		},
	},
	{
		label:  "emergencypb.ApiRouter",
		desc:   &traits.EmergencyApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return emergencypb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewEmergencyApiClient(c) },
		wrap:   func(s any) theWrapper { return emergencypb.WrapApi(s.(traits.EmergencyApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyApiClientFactory(func(n string) (traits.EmergencyApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.EmergencyApiClient), err
			})
		},
	},
	{
		label:  "emergencypb.InfoRouter",
		desc:   &traits.EmergencyInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return emergencypb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewEmergencyInfoClient(c) },
		wrap:   func(s any) theWrapper { return emergencypb.WrapInfo(s.(traits.EmergencyInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyInfoClientFactory(func(n string) (traits.EmergencyInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.EmergencyInfoClient), err
			})
		},
	},
	{
		label:  "energystoragepb.ApiRouter",
		desc:   &traits.EnergyStorageApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return energystoragepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewEnergyStorageApiClient(c) },
		wrap:   func(s any) theWrapper { return energystoragepb.WrapApi(s.(traits.EnergyStorageApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageApiClientFactory(func(n string) (traits.EnergyStorageApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.EnergyStorageApiClient), err
			})
		},
	},
	{
		label:  "energystoragepb.InfoRouter",
		desc:   &traits.EnergyStorageInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return energystoragepb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewEnergyStorageInfoClient(c) },
		wrap:   func(s any) theWrapper { return energystoragepb.WrapInfo(s.(traits.EnergyStorageInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageInfoClientFactory(func(n string) (traits.EnergyStorageInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.EnergyStorageInfoClient), err
			})
		},
	},
	{
		label:  "enterleavesensorpb.ApiRouter",
		desc:   &traits.EnterLeaveSensorApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return enterleavesensorpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorApiClient(c) },
		wrap:   func(s any) theWrapper { return enterleavesensorpb.WrapApi(s.(traits.EnterLeaveSensorApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(n string) (traits.EnterLeaveSensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.EnterLeaveSensorApiClient), err
			})
		},
	},
	{
		label:  "enterleavesensorpb.InfoRouter",
		desc:   &traits.EnterLeaveSensorInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return enterleavesensorpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorInfoClient(c) },
		wrap:   func(s any) theWrapper { return enterleavesensorpb.WrapInfo(s.(traits.EnterLeaveSensorInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(n string) (traits.EnterLeaveSensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.EnterLeaveSensorInfoClient), err
			})
		},
	},
	{
		label:  "extendretractpb.ApiRouter",
		desc:   &traits.ExtendRetractApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return extendretractpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewExtendRetractApiClient(c) },
		wrap:   func(s any) theWrapper { return extendretractpb.WrapApi(s.(traits.ExtendRetractApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractApiClientFactory(func(n string) (traits.ExtendRetractApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ExtendRetractApiClient), err
			})
		},
	},
	{
		label:  "extendretractpb.InfoRouter",
		desc:   &traits.ExtendRetractInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return extendretractpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewExtendRetractInfoClient(c) },
		wrap:   func(s any) theWrapper { return extendretractpb.WrapInfo(s.(traits.ExtendRetractInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractInfoClientFactory(func(n string) (traits.ExtendRetractInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ExtendRetractInfoClient), err
			})
		},
	},
	{
		label:  "fanspeedpb.ApiRouter",
		desc:   &traits.FanSpeedApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return fanspeedpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewFanSpeedApiClient(c) },
		wrap:   func(s any) theWrapper { return fanspeedpb.WrapApi(s.(traits.FanSpeedApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedApiClientFactory(func(n string) (traits.FanSpeedApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.FanSpeedApiClient), err
			})
		},
	},
	{
		label:  "fanspeedpb.InfoRouter",
		desc:   &traits.FanSpeedInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return fanspeedpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewFanSpeedInfoClient(c) },
		wrap:   func(s any) theWrapper { return fanspeedpb.WrapInfo(s.(traits.FanSpeedInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedInfoClientFactory(func(n string) (traits.FanSpeedInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.FanSpeedInfoClient), err
			})
		},
	},
	{
		label:  "hailpb.ApiRouter",
		desc:   &traits.HailApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return hailpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewHailApiClient(c) },
		wrap:   func(s any) theWrapper { return hailpb.WrapApi(s.(traits.HailApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailApiClientFactory(func(n string) (traits.HailApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.HailApiClient), err
			})
		},
	},
	{
		label:  "hailpb.InfoRouter",
		desc:   &traits.HailInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return hailpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewHailInfoClient(c) },
		wrap:   func(s any) theWrapper { return hailpb.WrapInfo(s.(traits.HailInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailInfoClientFactory(func(n string) (traits.HailInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.HailInfoClient), err
			})
		},
	},
	{
		label:  "inputselectpb.ApiRouter",
		desc:   &traits.InputSelectApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return inputselectpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewInputSelectApiClient(c) },
		wrap:   func(s any) theWrapper { return inputselectpb.WrapApi(s.(traits.InputSelectApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectApiClientFactory(func(n string) (traits.InputSelectApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.InputSelectApiClient), err
			})
		},
	},
	{
		label:  "inputselectpb.InfoRouter",
		desc:   &traits.InputSelectInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return inputselectpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewInputSelectInfoClient(c) },
		wrap:   func(s any) theWrapper { return inputselectpb.WrapInfo(s.(traits.InputSelectInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectInfoClientFactory(func(n string) (traits.InputSelectInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.InputSelectInfoClient), err
			})
		},
	},
	{
		label:  "lightpb.ApiRouter",
		desc:   &traits.LightApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return lightpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewLightApiClient(c) },
		wrap:   func(s any) theWrapper { return lightpb.WrapApi(s.(traits.LightApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightApiClientFactory(func(n string) (traits.LightApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.LightApiClient), err
			})
		},
	},
	{
		label:  "lightpb.InfoRouter",
		desc:   &traits.LightInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return lightpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewLightInfoClient(c) },
		wrap:   func(s any) theWrapper { return lightpb.WrapInfo(s.(traits.LightInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightInfoClientFactory(func(n string) (traits.LightInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.LightInfoClient), err
			})
		},
	},
	{
		label:  "lockunlockpb.ApiRouter",
		desc:   &traits.LockUnlockApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return lockunlockpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewLockUnlockApiClient(c) },
		wrap:   func(s any) theWrapper { return lockunlockpb.WrapApi(s.(traits.LockUnlockApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockApiClientFactory(func(n string) (traits.LockUnlockApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.LockUnlockApiClient), err
			})
		},
	},
	{
		label:  "lockunlockpb.InfoRouter",
		desc:   &traits.LockUnlockInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return lockunlockpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewLockUnlockInfoClient(c) },
		wrap:   func(s any) theWrapper { return lockunlockpb.WrapInfo(s.(traits.LockUnlockInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockInfoClientFactory(func(n string) (traits.LockUnlockInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.LockUnlockInfoClient), err
			})
		},
	},
	{
		label:  "metadatapb.ApiRouter",
		desc:   &traits.MetadataApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return metadatapb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMetadataApiClient(c) },
		wrap:   func(s any) theWrapper { return metadatapb.WrapApi(s.(traits.MetadataApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataApiClientFactory(func(n string) (traits.MetadataApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MetadataApiClient), err
			})
		},
	},
	{
		label:  "metadatapb.InfoRouter",
		desc:   &traits.MetadataInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return metadatapb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMetadataInfoClient(c) },
		wrap:   func(s any) theWrapper { return metadatapb.WrapInfo(s.(traits.MetadataInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataInfoClientFactory(func(n string) (traits.MetadataInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MetadataInfoClient), err
			})
		},
	},
	{
		label:  "meterpb.ApiRouter",
		desc:   &traits.MeterApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return meterpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMeterApiClient(c) },
		wrap:   func(s any) theWrapper { return meterpb.WrapApi(s.(traits.MeterApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterApiClientFactory(func(n string) (traits.MeterApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MeterApiClient), err
			})
		},
	},
	{
		label:  "meterpb.InfoRouter",
		desc:   &traits.MeterInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return meterpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMeterInfoClient(c) },
		wrap:   func(s any) theWrapper { return meterpb.WrapInfo(s.(traits.MeterInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterInfoClientFactory(func(n string) (traits.MeterInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MeterInfoClient), err
			})
		},
	},
	{
		label:  "microphonepb.ApiRouter",
		desc:   &traits.MicrophoneApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return microphonepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMicrophoneApiClient(c) },
		wrap:   func(s any) theWrapper { return microphonepb.WrapApi(s.(traits.MicrophoneApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneApiClientFactory(func(n string) (traits.MicrophoneApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MicrophoneApiClient), err
			})
		},
	},
	{
		label:  "microphonepb.InfoRouter",
		desc:   &traits.MicrophoneInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return microphonepb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMicrophoneInfoClient(c) },
		wrap:   func(s any) theWrapper { return microphonepb.WrapInfo(s.(traits.MicrophoneInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneInfoClientFactory(func(n string) (traits.MicrophoneInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MicrophoneInfoClient), err
			})
		},
	},
	{
		label:  "modepb.ApiRouter",
		desc:   &traits.ModeApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return modepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewModeApiClient(c) },
		wrap:   func(s any) theWrapper { return modepb.WrapApi(s.(traits.ModeApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return modepb.WithModeApiClientFactory(func(n string) (traits.ModeApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ModeApiClient), err
			})
		},
	},
	{
		label:  "modepb.InfoRouter",
		desc:   &traits.ModeInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return modepb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewModeInfoClient(c) },
		wrap:   func(s any) theWrapper { return modepb.WrapInfo(s.(traits.ModeInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return modepb.WithModeInfoClientFactory(func(n string) (traits.ModeInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ModeInfoClient), err
			})
		},
	},
	{
		label:  "motionsensorpb.ApiRouter",
		desc:   &traits.MotionSensorApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return motionsensorpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMotionSensorApiClient(c) },
		wrap:   func(s any) theWrapper { return motionsensorpb.WrapApi(s.(traits.MotionSensorApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorApiClientFactory(func(n string) (traits.MotionSensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MotionSensorApiClient), err
			})
		},
	},
	{
		label:  "motionsensorpb.SensorInfoRouter",
		desc:   &traits.MotionSensorSensorInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return motionsensorpb.NewSensorInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewMotionSensorSensorInfoClient(c) },
		wrap:   func(s any) theWrapper { return motionsensorpb.WrapSensorInfo(s.(traits.MotionSensorSensorInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorSensorInfoClientFactory(func(n string) (traits.MotionSensorSensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.MotionSensorSensorInfoClient), err
			})
		},
	},
	{
		label:  "occupancysensorpb.ApiRouter",
		desc:   &traits.OccupancySensorApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return occupancysensorpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewOccupancySensorApiClient(c) },
		wrap:   func(s any) theWrapper { return occupancysensorpb.WrapApi(s.(traits.OccupancySensorApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorApiClientFactory(func(n string) (traits.OccupancySensorApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.OccupancySensorApiClient), err
			})
		},
	},
	{
		label:  "occupancysensorpb.InfoRouter",
		desc:   &traits.OccupancySensorInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return occupancysensorpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewOccupancySensorInfoClient(c) },
		wrap:   func(s any) theWrapper { return occupancysensorpb.WrapInfo(s.(traits.OccupancySensorInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorInfoClientFactory(func(n string) (traits.OccupancySensorInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.OccupancySensorInfoClient), err
			})
		},
	},
	{
		label:  "onoffpb.ApiRouter",
		desc:   &traits.OnOffApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return onoffpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewOnOffApiClient(c) },
		wrap:   func(s any) theWrapper { return onoffpb.WrapApi(s.(traits.OnOffApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffApiClientFactory(func(n string) (traits.OnOffApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.OnOffApiClient), err
			})
		},
	},
	{
		label:  "onoffpb.InfoRouter",
		desc:   &traits.OnOffInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return onoffpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewOnOffInfoClient(c) },
		wrap:   func(s any) theWrapper { return onoffpb.WrapInfo(s.(traits.OnOffInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffInfoClientFactory(func(n string) (traits.OnOffInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.OnOffInfoClient), err
			})
		},
	},
	{
		label:  "openclosepb.ApiRouter",
		desc:   &traits.OpenCloseApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return openclosepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewOpenCloseApiClient(c) },
		wrap:   func(s any) theWrapper { return openclosepb.WrapApi(s.(traits.OpenCloseApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseApiClientFactory(func(n string) (traits.OpenCloseApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.OpenCloseApiClient), err
			})
		},
	},
	{
		label:  "openclosepb.InfoRouter",
		desc:   &traits.OpenCloseInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return openclosepb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewOpenCloseInfoClient(c) },
		wrap:   func(s any) theWrapper { return openclosepb.WrapInfo(s.(traits.OpenCloseInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseInfoClientFactory(func(n string) (traits.OpenCloseInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.OpenCloseInfoClient), err
			})
		},
	},
	{
		label:  "parentpb.ApiRouter",
		desc:   &traits.ParentApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return parentpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewParentApiClient(c) },
		wrap:   func(s any) theWrapper { return parentpb.WrapApi(s.(traits.ParentApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentApiClientFactory(func(n string) (traits.ParentApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ParentApiClient), err
			})
		},
	},
	{
		label:  "parentpb.InfoRouter",
		desc:   &traits.ParentInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return parentpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewParentInfoClient(c) },
		wrap:   func(s any) theWrapper { return parentpb.WrapInfo(s.(traits.ParentInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentInfoClientFactory(func(n string) (traits.ParentInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.ParentInfoClient), err
			})
		},
	},
	{
		label:  "presspb.ApiRouter",
		desc:   &traits.PressApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return presspb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewPressApiClient(c) },
		wrap:   func(s any) theWrapper { return presspb.WrapApi(s.(traits.PressApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return presspb.WithPressApiClientFactory(func(n string) (traits.PressApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.PressApiClient), err
			})
		},
	},
	{
		label:  "ptzpb.ApiRouter",
		desc:   &traits.PtzApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return ptzpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewPtzApiClient(c) },
		wrap:   func(s any) theWrapper { return ptzpb.WrapApi(s.(traits.PtzApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzApiClientFactory(func(n string) (traits.PtzApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.PtzApiClient), err
			})
		},
	},
	{
		label:  "ptzpb.InfoRouter",
		desc:   &traits.PtzInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return ptzpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewPtzInfoClient(c) },
		wrap:   func(s any) theWrapper { return ptzpb.WrapInfo(s.(traits.PtzInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzInfoClientFactory(func(n string) (traits.PtzInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.PtzInfoClient), err
			})
		},
	},
	{
		label:  "publicationpb.ApiRouter",
		desc:   &traits.PublicationApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return publicationpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewPublicationApiClient(c) },
		wrap:   func(s any) theWrapper { return publicationpb.WrapApi(s.(traits.PublicationApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return publicationpb.WithPublicationApiClientFactory(func(n string) (traits.PublicationApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.PublicationApiClient), err
			})
		},
	},
	{
		label:  "speakerpb.ApiRouter",
		desc:   &traits.SpeakerApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return speakerpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewSpeakerApiClient(c) },
		wrap:   func(s any) theWrapper { return speakerpb.WrapApi(s.(traits.SpeakerApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerApiClientFactory(func(n string) (traits.SpeakerApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.SpeakerApiClient), err
			})
		},
	},
	{
		label:  "speakerpb.InfoRouter",
		desc:   &traits.SpeakerInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return speakerpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewSpeakerInfoClient(c) },
		wrap:   func(s any) theWrapper { return speakerpb.WrapInfo(s.(traits.SpeakerInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerInfoClientFactory(func(n string) (traits.SpeakerInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.SpeakerInfoClient), err
			})
		},
	},
	{
		label:  "temperaturepb.ApiRouter",
		desc:   &traits.TemperatureApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return temperaturepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewTemperatureApiClient(c) },
		wrap:   func(s any) theWrapper { return temperaturepb.WrapApi(s.(traits.TemperatureApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return temperaturepb.WithTemperatureApiClientFactory(func(n string) (traits.TemperatureApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.TemperatureApiClient), err
			})
		},
	},
	{
		label:  "vendingpb.ApiRouter",
		desc:   &traits.VendingApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return vendingpb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewVendingApiClient(c) },
		wrap:   func(s any) theWrapper { return vendingpb.WrapApi(s.(traits.VendingApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingApiClientFactory(func(n string) (traits.VendingApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.VendingApiClient), err
			})
		},
	},
	{
		label:  "vendingpb.InfoRouter",
		desc:   &traits.VendingInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return vendingpb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewVendingInfoClient(c) },
		wrap:   func(s any) theWrapper { return vendingpb.WrapInfo(s.(traits.VendingInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingInfoClientFactory(func(n string) (traits.VendingInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.VendingInfoClient), err
			})
		},
	},
	{
		label:  "wastepb.ApiRouter",
		desc:   &traits.WasteApi_ServiceDesc,
		router: func(o ...router.Option) theRouter { return wastepb.NewApiRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewWasteApiClient(c) },
		wrap:   func(s any) theWrapper { return wastepb.WrapApi(s.(traits.WasteApiServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteApiClientFactory(func(n string) (traits.WasteApiClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.WasteApiClient), err
			})
		},
	},
	{
		label:  "wastepb.InfoRouter",
		desc:   &traits.WasteInfo_ServiceDesc,
		router: func(o ...router.Option) theRouter { return wastepb.NewInfoRouter(o...) },
		client: func(c grpc.ClientConnInterface) any { return traits.NewWasteInfoClient(c) },
		wrap:   func(s any) theWrapper { return wastepb.WrapInfo(s.(traits.WasteInfoServer)) },
		factory: func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteInfoClientFactory(func(n string) (traits.WasteInfoClient, error) {
				c, err := f(n)
				if c == nil {
					return nil, err
				}
				return c.(traits.WasteInfoClient), err
			})
		},
	},
}
