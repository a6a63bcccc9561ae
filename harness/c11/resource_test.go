package c11

import (
	"context"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/resmodel"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

// subject is the resource a workload is about, a new one for each round.
type subject struct {
	c *resource.Collection
	v *resource.Value

	// slices that calls share, there is room for more in both
	reads  []resource.ReadOption
	writes []resource.WriteOption
}

func TestResource(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 30000), func(t *rapid.T) {
		collection := rapid.IntRange(0, 2).Draw(t, "collection") > 0
		g := resmodel.GenSource(t, collection, rapid.Bool().Draw(t, "simple"))
		// masks that calls share
		masks := []*fieldmaskpb.FieldMask{g.S.MaskN(t, "shared mask", g.Values...), g.S.MaskN(t, "shared mask", g.Values...)}
		s := &subject{reads: make([]resource.ReadOption, 0, 8), writes: make([]resource.WriteOption, 0, 8)}
		s.reads = append(s.reads, resource.WithReadMask(masks[0]))
		s.writes = append(s.writes, resource.WithUpdateMask(masks[0]), resource.WithResetMask(masks[1]))
		if o, _ := writeOption(t); o != nil {
			s.writes = append(s.writes, o)
		}
		writers, subs := 0, 0
		plans := draw(t, 8, func(int) task {
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k <= 7:
				writers++
				return call(t, g, s, collection, masks)
			default:
				subs++
				return subscription(t, g, s, collection, masks)
			}
		})
		what := fmt.Sprintf("collection %v, %v", collection, g.C)
		for round := 0; round < 2; round++ {
			opts := g.C.Options()
			if rapid.Bool().Draw(t, "default rng") && g.C.RNG == "" {
				opts = opts[:0:0]
			}
			if collection {
				s.c = resource.NewCollection(opts...)
			} else {
				initial := vkit.Copy(g.Values[0])
				s.v = resource.NewValue(append(opts, resource.WithInitialValue(initial))...)
				// which is the caller's again
				round := append([][]task(nil), plans...)
				round[0] = append([]task{{txt: "change the initial value", do: func(*worker) { scribble(initial) }}}, round[0]...)
				run(t, what, round)
				check(t, what, round)
				continue
			}
			run(t, what, plans)
			check(t, what, plans)
		}
		vkit.Class("workers: %d", len(plans))
		if subs > 0 {
			vkit.Class("with subscriptions")
		}
		if writers >= 2 {
			vkit.Nontrivial(what + describe(plans))
		}
	})
}

// call draws a read or a write.
func call(t *rapid.T, g *resmodel.Source, s *subject, collection bool, masks []*fieldmaskpb.FieldMask) task {
	o := g.Op(t, collection, nil, nil)
	o.Share = rapid.Bool().Draw(t, "share")
	if o.Share {
		// the same mask as other calls
		if o.Update != nil {
			o.Update = vkit.Pick(t, masks, "update mask")
		}
		if o.Reset != nil {
			o.Reset = vkit.Pick(t, masks, "reset mask")
		}
		if o.ReadMask != nil {
			o.ReadMask = vkit.Pick(t, masks, "read mask")
		}
		if o.MoreUpdate != nil {
			o.MoreUpdate = vkit.Pick(t, masks, "more mask")
		}
	}
	// what was received before is written as it is, so long as the interceptors leave it alone
	received := o.Before == nil && o.Msg != nil && rapid.IntRange(0, 2).Draw(t, "received") == 0
	txt := o.String()
	if received {
		txt += " or what was received"
	}
	if o.Share {
		txt += " shared"
	}
	slice := rapid.IntRange(0, 4).Draw(t, "slice") == 0
	if slice {
		txt += " shared options"
	}
	reads := func() []resource.ReadOption {
		if slice {
			return s.reads
		}
		return o.ReadOptions()
	}
	writes := func(res *resmodel.Res) []resource.WriteOption {
		if slice {
			return s.writes
		}
		return o.WriteOptions(res)
	}
	return task{txt: txt, do: func(w *worker) {
		var res resmodel.Res
		in := vkit.Copy(o.Msg)
		scribbles := true
		if received && len(w.kept) > 0 {
			in, scribbles = w.kept[len(w.kept)-1], false
		}
		switch o.Kind {
		case "get":
			m, _ := s.c.Get(o.ID, reads()...)
			w.keep(m)
		case "list":
			w.keep(s.c.List(reads()...)...)
		case "read":
			w.keep(s.v.Get(reads()...))
		case "add":
			m, _ := s.c.Add(o.ID, in, writes(&res)...)
			w.keep(m)
		case "update":
			m, _ := s.c.Update(o.ID, in, writes(&res)...)
			w.keep(m)
		case "delete":
			m, _ := s.c.Delete(o.ID, writes(&res)...)
			w.keep(m)
		case "set":
			m, _ := s.v.Set(in, writes(&res)...)
			w.keep(m)
		default:
			panic(o.Kind)
		}
		if scribbles {
			scribble(in)
		}
	}}
}

// subscription draws a Pull.
func subscription(t *rapid.T, g *resmodel.Source, s *subject, collection bool, masks []*fieldmaskpb.FieldMask) task {
	o := g.Op(t, collection, nil, nil)
	for i := 0; collection && o.Kind != "list" && i < 3; i++ {
		o = g.Op(t, collection, nil, nil)
	}
	var opts []resource.ReadOption
	txt := "pull"
	if rapid.Bool().Draw(t, "masked") {
		m := vkit.Pick(t, masks, "mask")
		opts = append(opts, resource.WithReadMask(m))
		txt += fmt.Sprintf(" mask=%v", m.GetPaths())
	}
	if rapid.Bool().Draw(t, "updates only") {
		opts = append(opts, resource.WithUpdatesOnly(true))
		txt += " updates only"
	}
	if rapid.Bool().Draw(t, "backpressure") {
		opts = append(opts, resource.WithBackpressure(true))
		txt += " backpressure"
	}
	if f := o.IncludeFunc(); f != nil {
		opts = append(opts, resource.WithInclude(f))
		txt += " " + o.String()
	} else if collection && rapid.IntRange(0, 3).Draw(t, "include") == 0 {
		opts = append(opts, resource.WithInclude(func(id string, m proto.Message) bool {
			if m != nil {
				read(m)
			}
			return len(id) < 3
		}))
		txt += " include"
	}
	if rapid.IntRange(0, 4).Draw(t, "slice") == 0 {
		opts = s.reads
		txt = "pull with shared options"
	}
	id := ""
	if collection && rapid.IntRange(0, 2).Draw(t, "one") == 0 {
		id = rapid.SampledFrom(g.IDs).Draw(t, "id")
		txt += fmt.Sprintf(" id=%q", id)
	}
	n := rapid.IntRange(0, 12).Draw(t, "events")
	txt += fmt.Sprintf(" for %d events", n)
	return task{txt: txt, do: func(w *worker) {
		w.subscribe(func(c *worker, ctx context.Context, cancel func()) {
			i := 0
			next := func(ms ...proto.Message) {
				c.keep(ms...)
				if i++; i == n {
					cancel()
				}
			}
			switch {
			case s.v != nil && !collection:
				for e := range s.v.Pull(ctx, opts...) {
					next(e.Value)
				}
			case id != "":
				for e := range s.c.PullID(ctx, id, opts...) {
					next(e.Value)
				}
			default:
				for e := range s.c.Pull(ctx, opts...) {
					next(e.OldValue, e.NewValue)
				}
			}
		})
	}}
}
