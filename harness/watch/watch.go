// Package watch subscribes to trait models and servers and folds what comes, next to writes that are the model's own.
package watch

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

// Event is a change as a model or a server reports it.
type Event struct {
	ID       string
	Kind     types.ChangeType // unspecified for a register
	Old, New proto.Message
	At       time.Time
}

func (e Event) String() string {
	return fmt.Sprintf("{%v %q old %s new %s}", e.Kind, e.ID, text(e.Old), text(e.New))
}

func text(m proto.Message) string {
	if Nil(m) {
		return "none"
	}
	return vkit.Text(m)
}

// Nil says whether there is no message.
func Nil(m proto.Message) bool {
	return m == nil || reflect.ValueOf(m).Kind() == reflect.Ptr && reflect.ValueOf(m).IsNil()
}

// View is what is held, by id ("" for a register).
type View map[string]proto.Message

func (v View) String() string {
	var ids []string
	for id := range v {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for i, id := range ids {
		ids[i] = fmt.Sprintf("%q: %s", id, vkit.Text(v[id]))
	}
	return "{" + strings.Join(ids, "; ") + "}"
}

// Same compares views.
func (v View) Same(w View) bool {
	if len(v) != len(w) {
		return false
	}
	for id, m := range v {
		if o, ok := w[id]; !ok || !vkit.Same(m, o) {
			return false
		}
	}
	return true
}

// Clone copies a view with its messages.
func (v View) Clone() View {
	c := View{}
	for id, m := range v {
		c[id] = vkit.Copy(m)
	}
	return c
}

// Stream is one way to subscribe to something and to read it.
type Stream struct {
	Name string
	// Key is the field of messages with the id, Register whether there are no ids, ID the only item if not empty.
	Key      string
	Register bool
	ID       string
	Type     proto.Message
	// Pull subscribes. List is what is stored, with the read options.
	Pull func(ctx context.Context, opts ...resource.ReadOption) <-chan Event
	List func(opts ...resource.ReadOption) View
	// Norm is the part of a message that counts.
	Norm func(m proto.Message) proto.Message
	// Loose is for streams where a write may be several events.
	Loose bool
	// Server is the same stream of the model's server.
	Server *Stream
}

// Stored is what is stored, by List, as far as it counts.
func (s *Stream) Stored(opts ...resource.ReadOption) View {
	v := View{}
	for id, m := range s.List(opts...) {
		v[id] = s.norm(m)
	}
	return v
}

func (s *Stream) norm(m proto.Message) proto.Message {
	if Nil(m) {
		return nil
	}
	if s.Norm == nil {
		return vkit.Copy(m)
	}
	return s.Norm(m)
}

// Device is a model with streams and a way to write.
type Device struct {
	Streams []*Stream
	// Write draws a write and returns it with its description. It fails or not as it likes.
	Write func(t *rapid.T) (string, func() error)
}

// Kind is a kind of device.
type Kind struct {
	Name string
	New  func(opts ...resource.Option) *Device
}

// IDs are the ids of the items of all collections.
var IDs = []string{"a", "b", "c"}

// conv makes an Event of a change, a struct or a generated message with the usual fields.
func conv(c any, key, id string) Event {
	v := reflect.Indirect(reflect.ValueOf(c))
	e := Event{ID: id}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		switch x := v.Field(i).Interface().(type) {
		case types.ChangeType:
			e.Kind = x
		case time.Time:
			e.At = x
		case *timestamppb.Timestamp:
			if x != nil {
				e.At = x.AsTime()
			}
		case string:
			if key == "" && id == "" { // the change names the item
				e.ID = x
			}
		case proto.Message:
			if Nil(x) {
				continue
			}
			if f.Name == "OldValue" {
				e.Old = x
			} else {
				e.New = x
			}
		}
	}
	if key != "" && id == "" {
		m := e.New
		if m == nil {
			m = e.Old
		}
		if m != nil {
			e.ID = str(m, key)
		}
	}
	return e
}

func str(m proto.Message, field string) string {
	fd := m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(field))
	return m.ProtoReflect().Get(fd).String()
}

func forward[C any](in <-chan C, key, id string) <-chan Event {
	out := make(chan Event)
	go func() {
		defer close(out)
		for c := range in {
			out <- conv(c, key, id)
		}
	}()
	return out
}

func pull[C any](key, id string, p func(context.Context, ...resource.ReadOption) <-chan C) func(context.Context, ...resource.ReadOption) <-chan Event {
	return func(ctx context.Context, opts ...resource.ReadOption) <-chan Event {
		return forward(p(ctx, opts...), key, id)
	}
}

func register[C any, M proto.Message](name string, p func(context.Context, ...resource.ReadOption) <-chan C, get func(...resource.ReadOption) M) *Stream {
	var zero M
	return &Stream{Name: name, Register: true, Type: zero, Pull: func(ctx context.Context, opts ...resource.ReadOption) <-chan Event {
		in := p(ctx, opts...)
		out := make(chan Event)
		go func() {
			defer close(out)
			for c := range in {
				e := conv(c, "", "-")
				e.ID = ""
				out <- e
			}
		}()
		return out
	}, List: func(opts ...resource.ReadOption) View {
		return View{"": get(opts...)}
	}}
}

func registerErr[C any, M proto.Message](name string, p func(context.Context, ...resource.ReadOption) <-chan C, get func(...resource.ReadOption) (M, error)) *Stream {
	return register(name, p, func(opts ...resource.ReadOption) M {
		m, err := get(opts...)
		if err != nil {
			panic(err)
		}
		return m
	})
}

func collection[C any, M proto.Message](name, key string, p func(context.Context, ...resource.ReadOption) <-chan C, list func(...resource.ReadOption) []M) *Stream {
	var zero M
	return &Stream{Name: name, Key: key, Type: zero, Pull: pull(key, "", p), List: func(opts ...resource.ReadOption) View {
		v := View{}
		for _, m := range list(opts...) {
			v[str(m, key)] = m
		}
		return v
	}}
}

func item[C any, M proto.Message](name, key, id string, p func(context.Context, string, ...resource.ReadOption) <-chan C, get func(string, ...resource.ReadOption) (M, bool)) *Stream {
	var zero M
	return &Stream{Name: name, Key: key, ID: id, Type: zero, Pull: func(ctx context.Context, opts ...resource.ReadOption) <-chan Event {
		return forward(p(ctx, id, opts...), key, id)
	}, List: func(opts ...resource.ReadOption) View {
		m, ok := get(id, opts...)
		if !ok {
			return View{}
		}
		return View{id: m}
	}}
}

func id(t *rapid.T) string { return IDs[rapid.IntRange(0, len(IDs)-1).Draw(t, "id")] }

func num(t *rapid.T) int { return rapid.IntRange(1, 9).Draw(t, "n") }

func wrote(_ any, err error) error { return err }

func device(server any, streams []*Stream, write func(t *rapid.T) (string, func() error)) *Device {
	methods := drive.ServerMethods(server)
	for _, s := range streams {
		for _, m := range methods {
			if m.Name == s.Name {
				s.Server = s.served(m)
			}
		}
	}
	return &Device{streams, write}
}

// served is the stream as it comes from a server, which knows fewer options.
func (s *Stream) served(m *drive.Method) *Stream {
	c := *s
	c.Name = "server." + m.Name
	c.Pull = func(ctx context.Context, opts ...resource.ReadOption) <-chan Event {
		cfg := resource.ComputeReadConfig(opts...)
		req := m.Req().New()
		fields := req.Descriptor().Fields()
		if fd := fields.ByName("read_mask"); fd != nil && cfg.ReadMask != nil {
			req.Set(fd, protoreflect.ValueOfMessage(cfg.ReadMask.ProtoReflect()))
		}
		if fd := fields.ByName("updates_only"); fd != nil && cfg.UpdatesOnly {
			req.Set(fd, protoreflect.ValueOfBool(true))
		}
		if s.ID != "" {
			for _, n := range []protoreflect.Name{"id", "consumable", "name"} {
				if fd := fields.ByName(n); fd != nil {
					req.Set(fd, protoreflect.ValueOfString(s.ID))
					break
				}
			}
		}
		out := make(chan Event)
		go func() {
			defer close(out)
			m.WithRequest(req.Interface()).Run(ctx, func(ms ...proto.Message) {
				for _, m := range ms {
					changes := m.ProtoReflect().Get(m.ProtoReflect().Descriptor().Fields().ByName("changes")).List()
					for i := 0; i < changes.Len(); i++ {
						key, id := s.Key, s.ID
						if s.Register {
							id = "-"
						}
						e := conv(changes.Get(i).Message().Interface(), key, id)
						if s.Register {
							e.ID = ""
						}
						out <- e
					}
				}
			})
		}()
		return out
	}
	return &c
}

// Kinds lists the kinds of device.
func Kinds() []Kind {
	simple := func(what string, fn func(n int) error) func(t *rapid.T) (string, func() error) {
		return func(t *rapid.T) (string, func() error) {
			n := num(t)
			return fmt.Sprintf("%s %d", what, n), func() error { return fn(n) }
		}
	}
	return []Kind{
		{"access", func(opts ...resource.Option) *Device {
			m := accesspb.NewModel(opts...)
			return device(accesspb.NewModelServer(m), []*Stream{registerErr("PullAccessAttempts", m.PullAccessAttempts, m.GetLastAccessAttempt)},
				simple("attempt", func(n int) error {
					return wrote(m.UpdateLastAccessAttempt(&traits.AccessAttempt{Grant: traits.AccessAttempt_Grant(n % 3), Reason: fmt.Sprint(n)}))
				}))
		}},
		{"airquality", func(opts ...resource.Option) *Device {
			m := airqualitysensorpb.NewModel(opts...)
			return device(airqualitysensorpb.NewModelServer(m), []*Stream{registerErr("PullAirQuality", m.PullAirQuality, m.GetAirQuality)},
				simple("air quality", func(n int) error {
					f := float32(n * 10)
					return wrote(m.UpdateAirQuality(&traits.AirQuality{CarbonDioxideLevel: &f, Comfort: traits.AirQuality_Comfort(n % 3)}))
				}))
		}},
		{"airtemperature", func(opts ...resource.Option) *Device {
			m := airtemperaturepb.NewModel(opts...)
			return device(airtemperaturepb.NewModelServer(m), []*Stream{registerErr("PullAirTemperature", m.PullAirTemperature, m.GetAirTemperature)},
				simple("air temperature", func(n int) error {
					f := float32(n * 10)
					return wrote(m.UpdateAirTemperature(&traits.AirTemperature{AmbientHumidity: &f, Mode: traits.AirTemperature_Mode(n % 3)}))
				}))
		}},
		{"booking", func(opts ...resource.Option) *Device {
			m := bookingpb.NewModel(opts...)
			return device(bookingpb.NewModelServer(m), []*Stream{collection("PullBookings", "id", m.PullBookings, m.ListBookings)},
				func(t *rapid.T) (string, func() error) {
					b := &traits.Booking{Id: id(t), Title: fmt.Sprint("t", num(t)), Bookable: fmt.Sprint("k", num(t))}
					if rapid.Bool().Draw(t, "create") {
						return "create " + vkit.Text(b), func() error { return wrote(m.CreateBooking(b)) }
					}
					return "update " + vkit.Text(b), func() error { return wrote(m.UpdateBooking(b)) }
				})
		}},
		{"demand", func(opts ...resource.Option) *Device {
			m := electricpb.NewModel(opts...)
			return device(electricpb.NewModelServer(m), []*Stream{register("PullDemand", m.PullDemand, m.Demand)},
				simple("demand", func(n int) error {
					return wrote(m.UpdateDemand(&traits.ElectricDemand{Current: float32(n * 10), Rating: float32(n)}))
				}))
		}},
		{"electric", func(opts ...resource.Option) *Device {
			m := electricpb.NewModel(opts...)
			return device(electricpb.NewModelServer(m), []*Stream{collection("PullModes", "id", m.PullModes, m.Modes), register("PullActiveMode", m.PullActiveMode, m.ActiveMode)},
				func(t *rapid.T) (string, func() error) {
					e := &traits.ElectricMode{Id: id(t), Title: fmt.Sprint("t", num(t)), Normal: rapid.IntRange(0, 3).Draw(t, "normal") == 0}
					switch rapid.IntRange(0, 6).Draw(t, "write") {
					case 0:
						return "delete " + e.Id, func() error { return m.DeleteMode(e.Id) }
					case 1, 4:
						return "update " + vkit.Text(e), func() error { return wrote(m.UpdateMode(e)) }
					case 2:
						return "change to " + e.Id, func() error { return wrote(m.ChangeActiveMode(e.Id)) }
					case 3:
						return "change to normal", func() error { return wrote(m.ChangeToNormalMode()) }
					}
					return "add " + vkit.Text(e), func() error { return m.AddMode(e) }
				})
		}},
		{"energystorage", func(opts ...resource.Option) *Device {
			m := energystoragepb.NewModel(opts...)
			return device(energystoragepb.NewModelServer(m), []*Stream{registerErr("PullEnergyLevel", m.PullEnergyLevel, m.GetEnergyLevel)},
				simple("energy level", func(n int) error {
					return wrote(m.UpdateEnergyLevel(&traits.EnergyLevel{Quantity: &traits.EnergyLevel_Quantity{Percentage: float32(n * 10)}, PluggedIn: n%2 == 0}))
				}))
		}},
		{"enterleave", func(opts ...resource.Option) *Device {
			m := enterleavesensorpb.NewModel(opts...)
			s := registerErr("PullEnterLeaveEvents", m.PullEnterLeaveEvents, m.GetEnterLeaveEvent)
			s.Norm = func(m proto.Message) proto.Message { // a seed is without the last occupant
				e := vkit.Copy(m).(*traits.EnterLeaveEvent)
				e.Occupant, e.Direction = nil, 0
				return e
			}
			return device(enterleavesensorpb.NewModelServer(m), []*Stream{s},
				func(t *rapid.T) (string, func() error) {
					e := &traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_Direction(1 + num(t)%2), Occupant: &traits.EnterLeaveEvent_Occupant{Name: id(t)}}
					if rapid.IntRange(0, 3).Draw(t, "reset") == 0 {
						return "reset", m.ResetTotals
					}
					return vkit.Text(e), func() error { return m.CreateEnterLeaveEvent(e) }
				})
		}},
		{"fanspeed", func(opts ...resource.Option) *Device {
			m := fanspeedpb.NewModel(append([]resource.Option{fanspeedpb.WithPresets(fanspeedpb.Preset{Name: "a", Percentage: 10}, fanspeedpb.Preset{Name: "b", Percentage: 60})}, opts...)...)
			return device(fanspeedpb.NewModelServer(m), []*Stream{register("PullFanSpeed", m.PullFanSpeed, m.FanSpeed)},
				simple("fan speed", func(n int) error {
					return wrote(m.UpdateFanSpeed(&traits.FanSpeed{Percentage: float32(n * 10), Direction: traits.FanSpeed_Direction(n % 3)}))
				}))
		}},
		{"hail", func(opts ...resource.Option) *Device {
			m := hailpb.NewModel(append([]resource.Option{hailpb.WithKeepAlive(time.Hour)}, opts...)...)
			return device(hailpb.NewModelServer(m), []*Stream{collection("PullHails", "id", m.PullHails, m.ListHails), item("PullHail", "id", "a", m.PullHail, m.GetHail)},
				func(t *rapid.T) (string, func() error) {
					h := &traits.Hail{Id: id(t), State: traits.Hail_State(num(t) % 4), Origin: &traits.Hail_Location{Name: fmt.Sprint("n", num(t))}}
					switch rapid.IntRange(0, 5).Draw(t, "write") {
					case 0:
						return "delete " + h.Id, func() error { return wrote(m.DeleteHail(h.Id)) }
					case 1:
						return "update " + vkit.Text(h), func() error { return wrote(m.UpdateHail(h)) }
					case 2: // an id of its own
						return "create " + vkit.Text(h), func() error { return wrote(m.CreateHail(vkit.Copy(h))) }
					}
					return "put " + vkit.Text(h), func() error { return wrote(m.UpdateHail(h, resource.WithCreateIfAbsent())) }
				})
		}},
		{"light", func(opts ...resource.Option) *Device {
			m := lightpb.NewModel(opts...)
			return device(lightpb.NewModelServer(m), []*Stream{registerErr("PullBrightness", m.PullBrightness, m.GetBrightness)},
				simple("brightness", func(n int) error {
					return wrote(m.UpdateBrightness(&traits.Brightness{LevelPercent: float32(n * 10)}))
				}))
		}},
		{"metadata", func(opts ...resource.Option) *Device {
			m := metadatapb.NewModel(opts...)
			return device(metadatapb.NewModelServer(m), []*Stream{registerErr("PullMetadata", m.PullMetadata, m.GetMetadata)},
				func(t *rapid.T) (string, func() error) {
					md := &traits.Metadata{Name: id(t), More: map[string]string{id(t): fmt.Sprint(num(t))}}
					switch rapid.IntRange(0, 2).Draw(t, "write") {
					case 0:
						return "update " + vkit.Text(md), func() error { return wrote(m.UpdateMetadata(md)) }
					case 1:
						tm := &traits.TraitMetadata{Name: id(t), More: map[string]string{"x": fmt.Sprint(num(t))}}
						return "trait " + vkit.Text(tm), func() error { return wrote(m.UpdateTraitMetadata(tm)) }
					}
					return "merge " + vkit.Text(md), func() error { return wrote(m.MergeMetadata(md)) }
				})
		}},
		{"metadata collection", func(opts ...resource.Option) *Device {
			m := metadatapb.NewCollection(opts...)
			byName := &Stream{Name: "PullMetadata", Key: "name", ID: "a", Type: (*traits.Metadata)(nil),
				Pull: func(ctx context.Context, opts ...resource.ReadOption) <-chan Event {
					return forward(m.PullMetadata(ctx, "a", opts...), "name", "a")
				}, List: func(opts ...resource.ReadOption) View {
					md, err := m.GetMetadata("a", opts...)
					if err != nil {
						return View{}
					}
					return View{"a": md}
				}}
			return device(metadatapb.NewCollectionServer(m), []*Stream{collection("PullAllMetadata", "name", m.PullAllMetadata, m.ListMetadata), byName},
				func(t *rapid.T) (string, func() error) {
					md := &traits.Metadata{Name: id(t), More: map[string]string{id(t): fmt.Sprint(num(t))}}
					switch rapid.IntRange(0, 2).Draw(t, "write") {
					case 0:
						return "delete " + md.Name, func() error { return wrote(m.DeleteMetadata(md.Name)) }
					case 1:
						return "merge " + vkit.Text(md), func() error { return wrote(m.MergeMetadata(md.Name, md)) }
					}
					return "update " + vkit.Text(md), func() error { return wrote(m.UpdateMetadata(md.Name, md, resource.WithCreateIfAbsent())) }
				})
		}},
		{"meter", func(opts ...resource.Option) *Device {
			m := meterpb.NewModel(opts...)
			return device(meterpb.NewModelServer(m), []*Stream{registerErr("PullMeterReadings", m.PullMeterReadings, m.GetMeterReading)},
				simple("reading", func(n int) error {
					if n == 1 {
						return wrote(m.Reset())
					}
					return wrote(m.RecordReading(float32(n * 10)))
				}))
		}},
		{"mode", func(opts ...resource.Option) *Device {
			m := modepb.NewModelModes(&traits.Modes{Modes: []*traits.Modes_Mode{
				{Name: "a", Values: []*traits.Modes_Value{{Name: "a"}, {Name: "b"}, {Name: "c"}}, Ordered: true}}})
			return device(modepb.NewModelServer(m), []*Stream{register("PullModeValues", m.PullModeValues, m.ModeValues)},
				func(t *rapid.T) (string, func() error) {
					v := id(t)
					return "mode a: " + v, func() error {
						return wrote(m.UpdateModeValues(&traits.ModeValues{Values: map[string]string{"a": v}}))
					}
				})
		}},
		{"occupancy", func(opts ...resource.Option) *Device {
			m := occupancysensorpb.NewModel(opts...)
			return device(occupancysensorpb.NewModelServer(m), []*Stream{registerErr("PullOccupancy", m.PullOccupancy, m.GetOccupancy)},
				simple("occupancy", func(n int) error {
					return wrote(m.SetOccupancy(&traits.Occupancy{State: traits.Occupancy_State(n % 3), PeopleCount: int32(n)}))
				}))
		}},
		{"onoff", func(opts ...resource.Option) *Device {
			m := onoffpb.NewModel(opts...)
			return device(onoffpb.NewModelServer(m), []*Stream{registerErr("PullOnOff", m.PullOnOff, m.GetOnOff)},
				simple("on/off", func(n int) error { return wrote(m.UpdateOnOff(&traits.OnOff{State: traits.OnOff_State(n % 3)})) }))
		}},
		{"openclose", func(opts ...resource.Option) *Device {
			m := openclosepb.NewModel(append([]resource.Option{
				openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "p"}, &traits.OpenClosePosition{Direction: 1, OpenPercent: 10})}, opts...)...)
			s := registerErr("PullPositions", m.PullPositions, m.GetPositions)
			s.Loose = true
			return device(openclosepb.NewModelServer(m), []*Stream{s},
				func(t *rapid.T) (string, func() error) {
					one := func() *traits.OpenClosePosition {
						return &traits.OpenClosePosition{Direction: traits.OpenClosePosition_Direction(num(t) % 3), OpenPercent: float32(num(t) * 10)}
					}
					p := one()
					if rapid.Bool().Draw(t, "all") {
						ps := &traits.OpenClosePositions{States: []*traits.OpenClosePosition{p}}
						if q := one(); q.Direction != p.Direction {
							ps.States = append(ps.States, q)
						}
						return "positions " + vkit.Text(ps), func() error { return wrote(m.UpdatePositions(ps)) }
					}
					return "position " + vkit.Text(p), func() error { return wrote(m.UpdatePosition(p, resource.WithCreateIfAbsent())) }
				})
		}},
		{"parent", func(opts ...resource.Option) *Device {
			m := parentpb.NewModel(opts...)
			s := collection("PullChildren", "name", m.PullChildren, func(opts ...resource.ReadOption) []*traits.Child {
				f := resource.ComputeReadConfig(opts...).ResponseFilter()
				var cs []*traits.Child
				for _, c := range m.ListChildren() {
					cs = append(cs, f.FilterClone(c).(*traits.Child))
				}
				return cs
			})
			return device(parentpb.NewModelServer(m), []*Stream{s},
				func(t *rapid.T) (string, func() error) {
					name, tr := id(t), trait.Name(id(t))
					switch rapid.IntRange(0, 4).Draw(t, "write") {
					case 0:
						return "remove " + name, func() error { return wrote(m.RemoveChildByName(name)) }
					case 1:
						return "remove trait " + name + " " + string(tr), func() error { m.RemoveChildTrait(name, tr); return nil }
					case 2:
						return "add " + name, func() error { m.AddChild(&traits.Child{Name: name, Parent: string(tr)}); return nil }
					}
					return "add trait " + name + " " + string(tr), func() error { m.AddChildTrait(name, tr); return nil }
				})
		}},
		{"press", func(opts ...resource.Option) *Device {
			m := presspb.NewModel(traits.PressedState_UNPRESSED)
			return device(presspb.NewModelServer(m), []*Stream{register("PullPressedState", m.PullPressedState, m.GetPressedState)},
				simple("pressed", func(n int) error {
					return wrote(m.UpdatePressedState(&traits.PressedState{State: traits.PressedState_Press(n % 3)}))
				}))
		}},
		{"publication", func(opts ...resource.Option) *Device {
			m := publicationpb.NewModel(opts...)
			return device(publicationpb.NewModelServer(m), []*Stream{collection("PullPublications", "id", m.PullPublications, m.ListPublications), item("PullPublication", "id", "a", m.PullPublication, m.GetPublication)},
				func(t *rapid.T) (string, func() error) {
					p := &traits.Publication{Id: id(t), MediaType: fmt.Sprint("m", num(t)), Body: []byte{byte(num(t))}, Audience: &traits.Publication_Audience{Name: "x"}}
					switch rapid.IntRange(0, 4).Draw(t, "write") {
					case 0:
						return "delete " + p.Id, func() error { return wrote(m.DeletePublication(p.Id)) }
					case 1:
						return "update " + vkit.Text(p), func() error { return wrote(m.UpdatePublication(p.Id, p)) }
					case 2:
						ack := &traits.AcknowledgePublicationRequest{Id: p.Id, Receipt: traits.Publication_Audience_ACCEPTED, AllowAcknowledged: true}
						if rapid.Bool().Draw(t, "reject") {
							ack.Receipt, ack.ReceiptRejectedReason = traits.Publication_Audience_REJECTED, "no"
						}
						return "acknowledge " + vkit.Text(ack), func() error {
							return wrote(publicationpb.NewModelServer(m).AcknowledgePublication(context.Background(), ack))
						}
					}
					return "create " + vkit.Text(p), func() error { return wrote(m.CreatePublication(p)) }
				})
		}},
		{"consumables", func(opts ...resource.Option) *Device {
			m := vendingpb.NewModel(opts...)
			return device(vendingpb.NewModelServer(m), []*Stream{collection("PullConsumables", "name", m.PullConsumables, m.ListConsumables), item("PullConsumable", "name", "a", m.PullConsumable, m.GetConsumable)},
				func(t *rapid.T) (string, func() error) {
					c := &traits.Consumable{Name: id(t), Title: fmt.Sprint("t", num(t)), DisplayName: fmt.Sprint("d", num(t))}
					switch rapid.IntRange(0, 3).Draw(t, "write") {
					case 0:
						return "delete " + c.Name, func() error { return wrote(m.DeleteConsumable(c.Name)) }
					case 1:
						return "update " + vkit.Text(c), func() error { return wrote(m.UpdateConsumable(c)) }
					}
					return "create " + vkit.Text(c), func() error { return wrote(m.CreateConsumable(c)) }
				})
		}},
		{"inventory", func(opts ...resource.Option) *Device {
			m := vendingpb.NewModel(opts...)
			return device(vendingpb.NewModelServer(m), []*Stream{collection("PullInventory", "consumable", m.PullInventory, m.ListInventory), item("PullStock", "consumable", "a", m.PullStock, m.GetStock)},
				func(t *rapid.T) (string, func() error) {
					q := func() *traits.Consumable_Quantity {
						return &traits.Consumable_Quantity{Amount: float32(num(t)), Unit: traits.Consumable_NO_UNIT}
					}
					s := &traits.Consumable_Stock{Consumable: id(t), Used: q(), Remaining: q()}
					switch rapid.IntRange(0, 4).Draw(t, "write") {
					case 0:
						return "delete " + s.Consumable, func() error { return wrote(m.DeleteStock(s.Consumable)) }
					case 1:
						return "update " + vkit.Text(s), func() error { return wrote(m.UpdateStock(s)) }
					case 2:
						d := q()
						return "dispense " + s.Consumable + vkit.Text(d), func() error { return wrote(m.DispenseInstantly(s.Consumable, d)) }
					}
					return "create " + vkit.Text(s), func() error { return wrote(m.CreateStock(s)) }
				})
		}},
	}
}

// Folder folds events into a view.
type Folder struct {
	mu   sync.Mutex
	view View
	bad  string
	got  []Event
	over bool
}

// Fold starts to fold what comes into a view, beginning with what is already held.
// Each is called for every event, before it is folded.
func Fold(s *Stream, held View, in <-chan Event, each func(Event)) *Folder {
	f := &Folder{view: held.Clone()}
	go func() {
		for e := range in {
			if each != nil {
				each(e)
			}
			f.mu.Lock()
			e.Old, e.New = s.norm(e.Old), s.norm(e.New)
			f.got = append(f.got, e)
			if f.bad == "" {
				f.bad = f.apply(s, e)
			}
			f.mu.Unlock()
		}
		f.mu.Lock()
		f.over = true
		f.mu.Unlock()
	}()
	return f
}

func (f *Folder) apply(s *Stream, e Event) string {
	was, held := f.view[e.ID]
	if e.New != nil {
		f.view[e.ID] = e.New
	} else {
		delete(f.view, e.ID)
	}
	if s.Register || s.ID != "" {
		if e.New == nil {
			return fmt.Sprintf("no value in %v", e)
		}
		return ""
	}
	switch e.Kind {
	case types.ChangeType_ADD:
		switch {
		case held:
			return fmt.Sprintf("%v adds what is there: %s", e, vkit.Text(was))
		case e.Old != nil || e.New == nil:
			return fmt.Sprintf("values of %v", e)
		}
	case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
		switch {
		case !held:
			return fmt.Sprintf("%v updates what isn't there", e)
		case e.Old == nil || e.New == nil:
			return fmt.Sprintf("values of %v", e)
		case !vkit.Same(was, e.Old):
			return fmt.Sprintf("%v, but before it is %s", e, vkit.Text(was))
		}
	case types.ChangeType_REMOVE:
		switch {
		case !held:
			return fmt.Sprintf("%v removes what isn't there", e)
		case e.Old == nil || e.New != nil:
			return fmt.Sprintf("values of %v", e)
		case !vkit.Same(was, e.Old):
			return fmt.Sprintf("%v, but before it is %s", e, vkit.Text(was))
		}
	default:
		return fmt.Sprintf("kind of %v", e)
	}
	return ""
}

// State returns the view, what is wrong with the events if anything, the events and whether the stream is over.
func (f *Folder) State() (View, string, []Event, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.view.Clone(), f.bad, append([]Event(nil), f.got...), f.over
}

// Touched lists the ids of what differs, in order.
func Touched(a, b View) []string {
	var ids []string
	for id, m := range a {
		if o, ok := b[id]; !ok || !vkit.Same(m, o) {
			ids = append(ids, id)
		}
	}
	for id := range b {
		if _, ok := a[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	return ids
}
