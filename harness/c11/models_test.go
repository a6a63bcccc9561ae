package c11

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
)

// fixtures are those of drive, and the same again with other options.
func fixtures() []drive.Fixture {
	fs := drive.Fixtures()
	one := func(name string, n func() drive.Device) { fs = append(fs, drive.Fixture{Name: name, New: n}) }
	one("electric-rng", func() drive.Device {
		m := electricpb.NewModel(electricpb.WithRNG(rand.New(rand.NewSource(3))), electricpb.WithInitialMode(
			&traits.ElectricMode{Id: "a"}, &traits.ElectricMode{Id: "b"}))
		return drive.Device{Model: m, Server: electricpb.NewModelServer(m)}
	})
	one("hail-gc", func() drive.Device {
		m := hailpb.NewModel(hailpb.WithKeepAlive(time.Millisecond))
		return drive.Device{Model: m, Server: hailpb.NewModelServer(m)}
	})
	one("hail-default", func() drive.Device {
		m := hailpb.NewModel()
		return drive.Device{Model: m, Server: hailpb.NewModelServer(m)}
	})
	one("parent-default", func() drive.Device {
		m := parentpb.NewModel()
		return drive.Device{Model: m, Server: parentpb.NewModelServer(m)}
	})
	one("metadata-default", func() drive.Device {
		m := metadatapb.NewModel()
		return drive.Device{Model: m, Server: metadatapb.NewModelServer(m)}
	})
	return fs
}

// TestModels runs calls of one or two devices of a kind at once.
func TestModels(t *testing.T) {
	fs := fixtures()
	vkit.Check(t, vkit.N(2000, 40000), func(t *rapid.T) {
		f := vkit.Pick(t, fs, "fixture")
		if only := os.Getenv("VERIF_FIXTURE"); only != "" && f.Name != only {
			for _, f2 := range fs {
				if f2.Name == only {
					f = f2
				}
			}
		}
		devices := []drive.Device{f.New()}
		if rapid.IntRange(0, 2).Draw(t, "two") == 0 {
			devices = append(devices, f.New())
		}
		g := drive.DefaultGen()
		g.Write = writeOption
		g.Options = sharedOptions()
		var methods [][]*drive.Method
		for _, d := range devices {
			ms, _ := drive.ModelMethods(d.Model)
			ms = append(ms, drive.ServerMethods(d.Server)...)
			methods = append(methods, ms)
		}
		// few methods, so that the same ones meet
		var few []int
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "methods"); i < n; i++ {
			few = append(few, rapid.IntRange(0, len(methods[0])-1).Draw(t, "method"))
		}
		writers, streams := map[int]bool{}, false
		plans := draw(t, 8, func(at int) task {
			d := rapid.IntRange(0, len(devices)-1).Draw(t, "device")
			i := vkit.Pick(t, few, "one of the methods")
			if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
				i = rapid.IntRange(0, len(methods[0])-1).Draw(t, "method")
			}
			m := methods[d][i]
			if m.Stream {
				streams = true
			} else if !m.Read {
				writers[at] = true
			}
			return methodTask(t, g, m, fmt.Sprintf("%d: ", d))
		})
		run(t, f.Name, plans)
		check(t, f.Name, plans)
		vkit.Class("%s", f.Name)
		if streams {
			vkit.Class("%s streams", f.Name)
		}
		if len(devices) > 1 {
			vkit.Class("%s two", f.Name)
		}
		if len(writers) >= 2 {
			vkit.Nontrivial(f.Name + describe(plans))
		}
	})
}

// writeOption draws an option whose callback reads what it is given.
func writeOption(t *rapid.T) (resource.WriteOption, string) {
	cb := func(a, b proto.Message) {
		for _, m := range []proto.Message{a, b} {
			if m != nil && m.ProtoReflect().IsValid() {
				read(m)
			}
		}
	}
	switch rapid.IntRange(0, 11).Draw(t, "callback") {
	case 0:
		return resource.InterceptBefore(cb), "before"
	case 1:
		return resource.InterceptAfter(cb), "after"
	case 2:
		return resource.WithExpectedCheck(func(m proto.Message) error { cb(m, nil); return nil }), "expected check"
	}
	return nil, ""
}

// sharedOptions returns what draws slices of options that many calls share.
func sharedOptions() func(t *rapid.T, slice reflect.Type, about protoreflect.MessageDescriptor) (reflect.Value, string) {
	type key struct {
		slice reflect.Type
		about protoreflect.MessageDescriptor
	}
	type shared struct {
		v   reflect.Value
		txt string
	}
	made := map[key]shared{}
	return func(t *rapid.T, slice reflect.Type, about protoreflect.MessageDescriptor) (reflect.Value, string) {
		if rapid.IntRange(0, 2).Draw(t, "shared options") > 0 {
			return reflect.Value{}, ""
		}
		k := key{slice, about}
		if s, ok := made[k]; ok {
			return s.v, s.txt
		}
		s := shared{txt: "shared options:"}
		var mask *fieldmaskpb.FieldMask
		if about != nil && about.Fields().Len() > 0 && rapid.Bool().Draw(t, "shared mask") {
			mask = vkit.GenMaskNonEmpty(t, about, nil, "mask")
			s.txt += " mask " + vkit.MaskText(mask)
		}
		// there is room for more in both
		if slice == reflect.TypeOf([]resource.ReadOption(nil)) {
			opts := make([]resource.ReadOption, 0, 8)
			if mask != nil {
				opts = append(opts, resource.WithReadMask(mask))
			}
			if rapid.Bool().Draw(t, "updates only") {
				s.txt += " updates only"
				opts = append(opts, resource.WithUpdatesOnly(true))
			}
			s.v = reflect.ValueOf(opts)
		} else {
			opts := make([]resource.WriteOption, 0, 8)
			if mask != nil {
				opts = append(opts, resource.WithUpdateMask(mask))
			}
			if rapid.Bool().Draw(t, "create") {
				s.txt += " create"
				opts = append(opts, resource.WithCreateIfAbsent())
			}
			if o, what := writeOption(t); o != nil {
				s.txt += " " + what
				opts = append(opts, o)
			}
			s.v = reflect.ValueOf(opts)
		}
		made[k] = s
		return s.v, s.txt
	}
}

// methodTask draws a call of m.
func methodTask(t *rapid.T, g *drive.Gen, m *drive.Method, prefix string) task {
	c := g.Draw(t, m)
	if !m.Stream {
		change := rapid.Bool().Draw(t, "scribble")
		return task{txt: prefix + c.String(), do: func(w *worker) {
			out, _, _ := c.Do()
			w.keep(out...)
			if change {
				for _, m := range c.In {
					scribble(m)
				}
			}
		}}
	}
	n := rapid.IntRange(0, 12).Draw(t, "events")
	return task{txt: fmt.Sprintf("%s%s for %d events", prefix, c, n), do: func(w *worker) {
		w.subscribe(func(cw *worker, ctx context.Context, cancel func()) {
			i := 0
			c.Run(ctx, func(ms ...proto.Message) {
				cw.keep(ms...)
				if i++; i == n {
					cancel()
				}
			})
		})
	}}
}
