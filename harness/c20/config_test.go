package c20

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/time/clock"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

// manualClock also waits, which models don't ask it to.
type manualClock struct {
	clock.Clock
	manual *manual
}

func (c manualClock) Now() time.Time { return c.manual.Now() }

// register is a resource of a model that holds a single message.
type register struct {
	name    string
	of      proto.Message
	model   func(...resource.Option) any
	initial func(proto.Message) resource.Option      // WithInitialX, if there is one
	target  func(...resource.Option) resource.Option // WithXOption, if there is one
	get     string
	set     string // optional
	pull    string
	only    bool // options for all resources don't suit the others
}

var registers = []register{
	{name: "access", of: &traits.AccessAttempt{},
		model: func(o ...resource.Option) any { return accesspb.NewModel(o...) },
		get:   "GetLastAccessAttempt", set: "UpdateLastAccessAttempt", pull: "PullAccessAttempts"},
	{name: "air quality", of: &traits.AirQuality{},
		model: func(o ...resource.Option) any { return airqualitysensorpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option {
			return airqualitysensorpb.WithInitialAirQuality(m.(*traits.AirQuality))
		},
		target: airqualitysensorpb.WithAirQualityOption,
		get:    "GetAirQuality", set: "UpdateAirQuality", pull: "PullAirQuality"},
	{name: "air temperature", of: &traits.AirTemperature{},
		model: func(o ...resource.Option) any { return airtemperaturepb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option {
			return airtemperaturepb.WithInitialAirTemperature(m.(*traits.AirTemperature))
		},
		target: airtemperaturepb.WithAirTemperatureOption,
		get:    "GetAirTemperature", set: "UpdateAirTemperature", pull: "PullAirTemperature"},
	{name: "electric demand", of: &traits.ElectricDemand{},
		model:   func(o ...resource.Option) any { return electricpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option { return electricpb.WithInitialDemand(m.(*traits.ElectricDemand)) },
		target:  electricpb.WithDemandOption,
		get:     "Demand", set: "UpdateDemand", pull: "PullDemand", only: true},
	{name: "electric active mode", of: &traits.ElectricMode{},
		model: func(o ...resource.Option) any { return electricpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option {
			return electricpb.WithInitialActiveMode(m.(*traits.ElectricMode))
		},
		target: electricpb.WithActiveModeOption,
		get:    "ActiveMode", pull: "PullActiveMode", only: true},
	{name: "energy level", of: &traits.EnergyLevel{},
		model: func(o ...resource.Option) any { return energystoragepb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option {
			return energystoragepb.WithInitialEnergyLevel(m.(*traits.EnergyLevel))
		},
		target: energystoragepb.WithEnergyLevelOption,
		get:    "GetEnergyLevel", set: "UpdateEnergyLevel", pull: "PullEnergyLevel"},
	{name: "enter leave", of: &traits.EnterLeaveEvent{},
		model: func(o ...resource.Option) any { return enterleavesensorpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option {
			return enterleavesensorpb.WithInitialEnterLeaveEvent(m.(*traits.EnterLeaveEvent))
		},
		target: enterleavesensorpb.WithEnterLeaveEventOption,
		get:    "GetEnterLeaveEvent", pull: "PullEnterLeaveEvents"},
	{name: "brightness", of: &traits.Brightness{},
		model:   func(o ...resource.Option) any { return lightpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option { return lightpb.WithInitialBrightness(m.(*traits.Brightness)) },
		target:  lightpb.WithBrightnessOption,
		get:     "GetBrightness", set: "UpdateBrightness", pull: "PullBrightness"},
	{name: "metadata", of: &traits.Metadata{},
		model: func(o ...resource.Option) any { return metadatapb.NewModel(o...) },
		get:   "GetMetadata", set: "UpdateMetadata", pull: "PullMetadata"},
	{name: "occupancy", of: &traits.Occupancy{},
		model: func(o ...resource.Option) any { return occupancysensorpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option {
			return occupancysensorpb.WithInitialOccupancy(m.(*traits.Occupancy))
		},
		target: occupancysensorpb.WithOccupancyOption,
		get:    "GetOccupancy", set: "SetOccupancy", pull: "PullOccupancy"},
	{name: "onoff", of: &traits.OnOff{},
		model:   func(o ...resource.Option) any { return onoffpb.NewModel(o...) },
		initial: func(m proto.Message) resource.Option { return onoffpb.WithInitialOnOff(m.(*traits.OnOff)) },
		target:  onoffpb.WithOnOffOption,
		get:     "GetOnOff", set: "UpdateOnOff", pull: "PullOnOff"},
}

// call calls a method of m, the first result is returned along with the error.
func call(m any, method string, args ...any) (any, error) {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	out := reflect.ValueOf(m).MethodByName(method).Call(in)
	var err error
	if n := len(out); n > 1 {
		err, _ = out[n-1].Interface().(error)
	}
	return out[0].Interface(), err
}

// TestConfiguredRegister gives models that hold single messages all sorts of configuration.
func TestConfiguredRegister(t *testing.T) {
	g := vkit.MsgGen{MaxDepth: 2, MaxLen: 2, MaxFields: 5}
	vkit.Check(t, vkit.N(12000, 120000), func(t *rapid.T) {
		s := &steps{t: t}
		r := vkit.Pick(t, registers, "resource")
		mt := r.of.ProtoReflect().Type()
		gen := func(label string) proto.Message { return g.New(t, mt, label) }
		c := newManual(int64(rapid.IntRange(1, 1000).Draw(t, "clock")))
		form := func(o resource.Option, label string) resource.Option {
			if r.target != nil && (r.only || coin(t, label+" for the resource")) {
				return r.target(o)
			}
			return o
		}
		var opts []resource.Option
		txt := ""
		var want proto.Message
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "initial values"); i < n; i++ {
			m := gen("initial")
			if r.initial != nil && coin(t, "as initial") {
				opts = append(opts, r.initial(proto.Clone(m)))
				txt += " with initial " + vkit.Text(m)
			} else {
				opts = append(opts, form(resource.WithInitialValue(proto.Clone(m)), "initial value"))
				txt += " with initial value " + vkit.Text(m)
			}
			want = m
		}
		var writable protoreflect.FieldDescriptor
		if fds := mt.Descriptor().Fields(); coin(t, "writable") {
			writable = fds.Get(rapid.IntRange(0, fds.Len()-1).Draw(t, "writable field"))
			opts = append(opts, form(resource.WithWritableFields(&fieldmaskpb.FieldMask{Paths: []string{string(writable.Name())}}), "writable"))
			txt += " only " + string(writable.Name()) + " writable"
		}
		clocked := coin(t, "with clock")
		if clocked {
			o := form(resource.WithClock(c), "clock")
			if strings.HasPrefix(r.name, "electric") && coin(t, "clock for the model") {
				o = electricpb.WithClock(manualClock{clock.Real(), c})
			}
			at := rapid.IntRange(0, len(opts)).Draw(t, "clock position")
			opts = append(opts[:at:at], append([]resource.Option{o}, opts[at:]...)...)
			txt += " and a clock"
		}
		s.step("%s%s", r.name, txt)
		var m any
		s.do(func() { m = r.model(opts...) })
		get := func() (got proto.Message) {
			s.do(func() {
				v, err := call(m, r.get)
				s.ok(err)
				got = v.(proto.Message)
			})
			return got
		}
		if want != nil {
			s.same("the initial value", get(), want)
			vkit.Nontrivial(s.at)
			vkit.Class("initial %s", r.name)
		}
		changeTime := func(want time.Time) {
			ctx, stop := context.WithCancel(bg)
			defer stop()
			v, _ := call(m, r.pull, ctx)
			change, ok := reflect.ValueOf(v).Recv()
			if !ok {
				s.failf("%s sends nothing", r.pull)
			}
			for change.Kind() == reflect.Pointer {
				change = change.Elem()
			}
			var got time.Time
			switch at := change.FieldByName("ChangeTime").Interface().(type) {
			case time.Time:
				got = at
			case *timestamppb.Timestamp:
				got = at.AsTime()
			}
			if !got.Equal(want) {
				s.failf("the change time is %v, the clock said %v", got, want)
			}
		}
		if clocked {
			changeTime(c.Now())
		}
		if r.set == "" {
			return
		}

		c.tick(time.Minute)
		before := get()
		update := gen("update")
		if b, ok := update.(*traits.Brightness); ok {
			b.Preset = nil // has its own rules
		}
		args := []any{proto.Clone(update)}
		full := update
		refused := false
		var paths []string
		if fds := mt.Descriptor().Fields(); coin(t, "masked") {
			fd := fds.Get(rapid.IntRange(0, fds.Len()-1).Draw(t, "mask field"))
			paths = []string{string(fd.Name())}
			args = append(args, resource.WithUpdatePaths(paths...))
			refused = writable != nil && writable.Name() != fd.Name()
			full = vkit.RefMerge(before, update, &fieldmaskpb.FieldMask{Paths: paths}, nil, nil, true)
		} else if writable != nil {
			full = vkit.RefMerge(before, update, nil, &fieldmaskpb.FieldMask{Paths: []string{string(writable.Name())}}, nil, true)
		}
		s.step("%s(%s, mask %v)", r.set, vkit.Text(update), paths)
		var err error
		s.do(func() { _, err = call(m, r.set, args...) })
		if refused {
			s.code(err, codes.InvalidArgument)
			s.same("the value after a refused write", get(), before)
			vkit.Class("refused %s", r.name)
			return
		}
		s.ok(err)
		s.same("the value", get(), full)
		if clocked {
			changeTime(c.Now())
		}
	})
}

// directory is a resource of a model that holds messages by id.
type directory struct {
	name    string
	of      proto.Message
	key     protoreflect.Name
	model   func(...resource.Option) any
	initial func(...proto.Message) resource.Option // WithInitialX, if there is one
	target  func(...resource.Option) resource.Option
	list    func(m any) []proto.Message
	only    bool
}

func toMessages[M proto.Message](ms []M) []proto.Message {
	res := make([]proto.Message, len(ms))
	for i, m := range ms {
		res[i] = m
	}
	return res
}

func ofMessages[M proto.Message](ms []proto.Message) []M {
	res := make([]M, len(ms))
	for i, m := range ms {
		res[i] = m.(M)
	}
	return res
}

var directories = []directory{
	{name: "bookings", of: &traits.Booking{}, key: "id",
		model: func(o ...resource.Option) any { return bookingpb.NewModel(o...) },
		initial: func(m ...proto.Message) resource.Option {
			return bookingpb.WithInitialBooking(ofMessages[*traits.Booking](m)...)
		},
		target: bookingpb.WithBookingOption,
		list:   func(m any) []proto.Message { return toMessages(m.(*bookingpb.Model).ListBookings()) }},
	{name: "electric modes", of: &traits.ElectricMode{}, key: "id",
		model: func(o ...resource.Option) any { return electricpb.NewModel(o...) },
		initial: func(m ...proto.Message) resource.Option {
			return electricpb.WithInitialMode(ofMessages[*traits.ElectricMode](m)...)
		},
		target: electricpb.WithModeOption,
		list:   func(m any) []proto.Message { return toMessages(m.(*electricpb.Model).Modes()) }, only: true},
	{name: "hails", of: &traits.Hail{}, key: "id",
		model: func(o ...resource.Option) any { return hailpb.NewModel(append(o, hailpb.WithKeepAlive(-1))...) },
		list:  func(m any) []proto.Message { return toMessages(m.(*hailpb.Model).ListHails()) }},
	{name: "children", of: &traits.Child{}, key: "name",
		model: func(o ...resource.Option) any { return parentpb.NewModel(o...) },
		initial: func(m ...proto.Message) resource.Option {
			return parentpb.WithInitialChildren(ofMessages[*traits.Child](m)...)
		},
		target: parentpb.WithChildrenOption,
		list:   func(m any) []proto.Message { return toMessages(m.(*parentpb.Model).ListChildren()) }},
	{name: "publications", of: &traits.Publication{}, key: "id",
		model: func(o ...resource.Option) any { return publicationpb.NewModel(o...) },
		initial: func(m ...proto.Message) resource.Option {
			return publicationpb.WithInitialPublication(ofMessages[*traits.Publication](m)...)
		},
		target: publicationpb.WithPublicationOption,
		list:   func(m any) []proto.Message { return toMessages(m.(*publicationpb.Model).ListPublications()) }},
	{name: "stock", of: &traits.Consumable_Stock{}, key: "consumable",
		model: func(o ...resource.Option) any { return vendingpb.NewModel(o...) },
		initial: func(m ...proto.Message) resource.Option {
			return vendingpb.WithInitialStock(ofMessages[*traits.Consumable_Stock](m)...)
		},
		target: vendingpb.WithInventoryOption,
		list:   func(m any) []proto.Message { return toMessages(m.(*vendingpb.Model).ListInventory()) }, only: true},
	{name: "consumables", of: &traits.Consumable{}, key: "name",
		model: func(o ...resource.Option) any { return vendingpb.NewModel(o...) },
		initial: func(m ...proto.Message) resource.Option {
			return vendingpb.WithInitialConsumable(ofMessages[*traits.Consumable](m)...)
		},
		target: vendingpb.WithConsumablesOption,
		list:   func(m any) []proto.Message { return toMessages(m.(*vendingpb.Model).ListConsumables()) }, only: true},
}

// TestConfiguredDirectory gives models that hold messages by id initial records in all sorts of ways.
func TestConfiguredDirectory(t *testing.T) {
	vkit.Check(t, vkit.N(10000, 100000), func(t *rapid.T) {
		s := &steps{t: t}
		d := vkit.Pick(t, directories, "resource")
		mt := d.of.ProtoReflect().Type()
		key := mt.Descriptor().Fields().ByName(d.key)
		g := vkit.MsgGen{MaxDepth: 2, MaxLen: 2, MaxFields: 4}
		ids := rapid.Permutation([]string{"a", "aa", "B", "b", "é", "a.b"}).Draw(t, "ids")[:rapid.IntRange(0, 5).Draw(t, "n")]
		var opts []resource.Option
		var want []proto.Message
		var batch []proto.Message
		txt := ""
		normal := false
		flush := func() {
			if len(batch) > 0 {
				opts = append(opts, d.initial(batch...))
				txt += fmt.Sprintf(" initial %d", len(batch))
				batch = nil
			}
		}
		for _, id := range ids {
			m := g.New(t, mt, "record")
			m.ProtoReflect().Set(key, protoreflect.ValueOfString(id))
			switch m := m.(type) {
			case *traits.ElectricMode:
				m.Normal = m.Normal && !normal
				normal = normal || m.Normal
			case *traits.Child:
				sort.Slice(m.Traits, func(i, j int) bool { return m.Traits[i].GetName() < m.Traits[j].GetName() })
				for i := 1; i < len(m.Traits); i++ {
					if m.Traits[i].GetName() == m.Traits[i-1].GetName() {
						m.Traits = m.Traits[:i]
						break
					}
				}
			}
			want = append(want, proto.Clone(m))
			switch {
			case d.initial != nil && !one(t, 3, "as record"):
				batch = append(batch, m)
				if coin(t, "last of batch") {
					flush()
				}
			case d.target != nil && (d.only || coin(t, "for the resource")):
				opts = append(opts, d.target(resource.WithInitialRecord(id, m)))
				txt += " record for the resource " + id
			default:
				opts = append(opts, resource.WithInitialRecord(id, m))
				txt += " record " + id
			}
		}
		flush()
		s.step("%s with%s: %d", d.name, txt, len(want))
		for _, m := range want {
			s.t.Logf("   %s", vkit.Text(m))
		}
		var got []proto.Message
		s.do(func() { got = d.list(d.model(opts...)) })
		sort.Slice(want, func(i, j int) bool {
			return want[i].ProtoReflect().Get(key).String() < want[j].ProtoReflect().Get(key).String()
		})
		if len(got) != len(want) {
			s.failf("%d records, want %d", len(got), len(want))
		}
		for i := range got {
			s.same("record", got[i], want[i])
		}
		if len(want) > 0 {
			vkit.Nontrivial(s.at)
			vkit.Class("initial %s", d.name)
		}
	})
}

// TestConfiguredPresets gives models presets, modes and states.
func TestConfiguredPresets(t *testing.T) {
	names := []string{"off", "low", "mid", "high", "a b", "é", "z"}
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		s := &steps{t: t}
		names := rapid.Permutation(names).Draw(t, "names")[:rapid.IntRange(0, 5).Draw(t, "n")]
		percent := func(label string) float32 {
			return float32(rapid.IntRange(0, 400).Draw(t, label)) / 4
		}
		switch rapid.IntRange(0, 4).Draw(t, "model") {
		case 0:
			var opts []resource.Option
			levels := map[string]float32{}
			var want []*traits.LightPreset
			for _, n := range names {
				p := &traits.LightPreset{Name: n, Title: genWord(t, "title")}
				levels[n] = percent("level")
				want = append(want, vkit.Copy(p))
				opts = append(opts, lightpb.WithPreset(levels[n], p))
				if one(t, 3, "other option") {
					opts = append(opts, resource.WithClock(newManual(1)))
				}
			}
			s.step("light presets %v", levels)
			var m *lightpb.Model
			s.do(func() { m = lightpb.NewModel(opts...) })
			got := m.ListPresets()
			if len(got) != len(want) {
				s.failf("%d presets, want %d", len(got), len(want))
			}
			for i := range got {
				s.same("preset", got[i], want[i])
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "updates"); i < n && len(want) > 0; i++ {
				p := vkit.Pick(t, want, "choose")
				s.step("light preset %q of %v", p.Name, levels)
				b := &traits.Brightness{Preset: &traits.LightPreset{Name: p.Name}, LevelPercent: percent("other level")}
				var opts []resource.WriteOption
				masked := coin(t, "masked")
				if masked {
					opts = append(opts, resource.WithUpdatePaths("preset"))
				}
				var err error
				var got *traits.Brightness
				s.do(func() { got, err = m.UpdateBrightness(b, opts...) })
				s.ok(err)
				if got.GetLevelPercent() != levels[p.Name] {
					s.failf("level %v, want %v", got.GetLevelPercent(), levels[p.Name])
				}
				if masked && p.Title == "" && got.GetPreset() != nil {
					got.Preset.Title = "" // a mask merges messages
				}
				s.same("preset", got.GetPreset(), p)
				vkit.Nontrivial(s.at)
				vkit.Class("light preset")
			}
		case 1:
			type preset struct {
				desc   *traits.OpenClosePositions_Preset
				states []*traits.OpenClosePosition
			}
			var opts []resource.Option
			var want []preset
			dirs := rapid.Permutation([]traits.OpenClosePosition_Direction{0, 1, 2, 3, 4}).Draw(t, "directions")[:rapid.IntRange(1, 3).Draw(t, "ndirections")]
			taken := map[string]bool{}
			for _, n := range names {
				p := preset{desc: &traits.OpenClosePositions_Preset{Name: n, Title: genWord(t, "title")}}
				id := ""
				for _, dir := range dirs {
					state := &traits.OpenClosePosition{Direction: dir, OpenPercent: percent("open")}
					p.states = append(p.states, state)
					id += fmt.Sprint(state.OpenPercent, " ")
				}
				if taken[id] {
					continue // which of them is chosen isn't known
				}
				taken[id] = true
				want = append(want, p)
				opts = append(opts, openclosepb.WithPreset(vkit.Copy(p.desc), p.states...))
			}
			s.step("open close presets %v of %v", names, dirs)
			var m *openclosepb.Model
			s.do(func() { m = openclosepb.NewModel(opts...) })
			got := m.ListPresets()
			if len(got) != len(want) {
				s.failf("%d presets, want %d", len(got), len(want))
			}
			for i := range got {
				s.same("preset", got[i], want[i].desc)
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "updates"); i < n && len(want) > 0; i++ {
				p := vkit.Pick(t, want, "choose")
				s.step("open close preset %q of %v", p.desc.Name, names)
				var err error
				var got *traits.OpenClosePositions
				s.do(func() {
					got, err = m.UpdatePositions(&traits.OpenClosePositions{Preset: &traits.OpenClosePositions_Preset{Name: p.desc.Name}})
				})
				s.ok(err)
				states := append([]*traits.OpenClosePosition(nil), p.states...)
				sort.Slice(states, func(i, j int) bool { return states[i].Direction < states[j].Direction })
				s.same("positions", got, &traits.OpenClosePositions{Preset: p.desc, States: states})
				vkit.Nontrivial(s.at)
				vkit.Class("open close preset")
			}
		case 2:
			modes := &traits.Modes{}
			want := &traits.ModeValues{Values: map[string]string{}}
			for _, n := range names {
				mode := &traits.Modes_Mode{Name: n, Ordered: coin(t, "ordered")}
				for i, k := 0, rapid.IntRange(0, 3).Draw(t, "values"); i < k; i++ {
					mode.Values = append(mode.Values, &traits.Modes_Value{Name: fmt.Sprint(genWord(t, "value"), i)})
				}
				if len(mode.Values) > 0 {
					want.Values[n] = mode.Values[0].Name
				}
				modes.Modes = append(modes.Modes, mode)
			}
			s.step("modes %s", vkit.Text(modes))
			var m *modepb.Model
			s.do(func() { m = modepb.NewModelModes(vkit.Copy(modes)) })
			s.same("modes", m.Modes(), modes)
			s.same("values", m.ModeValues(), want)
			for _, mode := range modes.Modes {
				got := m.AvailableValues(mode.Name)
				if len(got) != len(mode.Values) {
					s.failf("%d values of %s", len(got), mode.Name)
				}
				for i := range got {
					s.same("value", got[i], mode.Values[i])
				}
			}
			if len(names) > 0 {
				vkit.Nontrivial(s.at)
				vkit.Class("modes")
			}
		case 3:
			state := traits.PressedState_Press(rapid.IntRange(0, 2).Draw(t, "state"))
			s.step("press %v", state)
			var m *presspb.Model
			s.do(func() { m = presspb.NewModel(state) })
			s.same("state", m.GetPressedState(), &traits.PressedState{State: state})
			vkit.Class("press")
		default:
			level := &types.AudioLevel{Gain: percent("gain"), Muted: coin(t, "muted")}
			if math.Mod(float64(level.Gain), 2) == 0 {
				level.GainTween = &types.Tween{Progress: percent("progress")}
			}
			s.step("speaker %s", vkit.Text(level))
			var got *types.AudioLevel
			var err error
			s.do(func() {
				got, err = speakerpb.NewMemoryDevice(vkit.Copy(level)).GetVolume(bg, &traits.GetSpeakerVolumeRequest{Name: "device"})
			})
			s.ok(err)
			s.same("volume", got, level)
			vkit.Class("speaker")
		}
	})
}
