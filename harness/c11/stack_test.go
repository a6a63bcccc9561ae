package c11

import (
	"context"
	"fmt"
	"testing"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/c12"
	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/group"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/wrap"
)

// served are pairs of fixtures and a service they have.
type served struct {
	desc    *grpc.ServiceDesc
	fixture drive.Fixture
}

func allServed() (out []served) {
	for _, f := range fixtures() {
		d := f.New()
		for _, desc := range c12.Services() {
			if c12.Implements(desc, d.Server) {
				out = append(out, served{desc, f})
			}
		}
	}
	return out
}

// clientOf wraps a server, whose panics become errors.
func clientOf(desc *grpc.ServiceDesc, server any) any {
	d := *desc
	d.Methods = append([]grpc.MethodDesc(nil), d.Methods...)
	for i := range d.Methods {
		h := d.Methods[i].Handler
		d.Methods[i].Handler = func(srv any, ctx context.Context, dec func(any) error, interceptor grpc.UnaryServerInterceptor) (out any, err error) {
			defer func() {
				if p := recover(); p != nil {
					out, err = nil, status.Errorf(codes.Internal, "panic: %v", p)
				}
			}()
			return h(srv, ctx, dec, interceptor)
		}
	}
	d.Streams = append([]grpc.StreamDesc(nil), d.Streams...)
	for i := range d.Streams {
		h := d.Streams[i].Handler
		d.Streams[i].Handler = func(srv any, ss grpc.ServerStream) (err error) {
			defer func() {
				if p := recover(); p != nil {
					err = status.Errorf(codes.Internal, "panic: %v", p)
				}
			}()
			return h(srv, ss)
		}
	}
	return c12.Client(desc, wrap.ServerToClient(d, server))
}

// TestStack runs clients of a wrapped router of wrapped servers at once, while what is routed to changes.
func TestStack(t *testing.T) {
	all := allServed()
	vkit.Check(t, vkit.N(2000, 40000), func(t *rapid.T) {
		s := vkit.Pick(t, all, "service")
		// the devices of a and b are there from the start
		devices := map[string]any{"a": s.fixture.New().Server, "b": s.fixture.New().Server}
		what := s.fixture.Name + " " + s.desc.ServiceName
		var opts []router.Option
		if rapid.Bool().Draw(t, "factory") {
			what += " with factory"
			wrapping := rapid.Bool().Draw(t, "wrap in factory")
			opts = append(opts, router.WithFactory(func(name string) (any, error) {
				if name == "" || name == "zz" {
					return nil, status.Error(codes.NotFound, "no such device")
				}
				if d, ok := devices[name]; ok && wrapping {
					return clientOf(s.desc, d), nil
				}
				return clientOf(s.desc, s.fixture.New().Server), nil
			}))
		}
		r := c12.NewRouter(s.desc, opts...)
		clients := map[string]any{}
		for n, d := range devices {
			clients[n] = clientOf(s.desc, d)
			r.Add(n, clients[n])
		}
		conn, desc := c12.Wrap(s.desc, r).UnwrapService()
		var methods []*drive.Method
		for _, m := range drive.ServerMethods(devices["a"]) {
			if drive.MethodDescriptor(desc.ServiceName, m.Name) != nil && hasMethod(&desc, m.Name) {
				methods = append(methods, m)
			}
		}
		if len(methods) == 0 {
			t.Skip("no methods")
		}
		g := drive.DefaultGen()
		kinds := map[string]int{}
		plans := draw(t, 8, func(int) task {
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); k {
			case 0, 1, 2:
				name := rapid.SampledFrom([]string{"a", "b"}).Draw(t, "name")
				kind := rapid.SampledFrom([]string{"add", "add", "remove", "has", "get", "holds"}).Draw(t, "change")
				kinds[kind]++
				return task{txt: kind + " " + name, do: func(w *worker) {
					switch kind {
					case "add":
						r.Add(name, clients[name])
					case "remove":
						r.Remove(name)
					case "has":
						r.Has(name)
					case "get":
						_, _ = r.Get(name)
					case "holds":
						r.HoldsType(clients[name])
					}
				}}
			}
			m := vkit.Pick(t, methods, "method")
			req := g.Request(t, m)
			if fd := req.ProtoReflect().Descriptor().Fields().ByName("name"); fd == nil {
				t.Fatalf("%s has no name", m.Name)
			}
			full := "/" + desc.ServiceName + "/" + m.Name
			ends := rapid.IntRange(-6, 8).Draw(t, "ends after")
			txt := fmt.Sprintf("%s(%s) ends after %d", m.Name, vkit.Text(req), ends)
			if !m.Stream {
				kinds["call"]++
				return task{txt: txt, do: func(w *worker) {
					in, out := vkit.Copy(req), m.Resp().New().Interface()
					var header, trailer metadata.MD
					_ = conn.Invoke(w.ending(ends), full, in, out, grpc.Header(&header), grpc.Trailer(&trailer))
					scribble(in)
					read(out)
					scribble(out)
					lookMD(header)
					lookMD(trailer)
				}}
			}
			kinds["stream"]++
			n := rapid.IntRange(0, 8).Draw(t, "events")
			return task{txt: fmt.Sprintf("%s for %d events", txt, n), do: func(w *worker) {
				ending := w.ending(ends)
				w.subscribe(func(c *worker, ctx context.Context, cancel func()) {
					if ends >= 0 {
						ctx = ending
					}
					cs, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, full)
					if err != nil {
						return
					}
					in := vkit.Copy(req)
					if err := cs.SendMsg(in); err != nil {
						return
					}
					scribble(in)
					_ = cs.CloseSend()
					c.all.wg.Add(1)
					go func() {
						defer c.all.wg.Done()
						h, _ := cs.Header()
						lookMD(h)
					}()
					for i := 0; ; {
						out := m.Resp().New().Interface()
						if cs.RecvMsg(out) != nil {
							lookMD(cs.Trailer())
							return
						}
						read(out)
						scribble(out)
						if i++; i == n {
							cancel()
						}
					}
				})
			}}
		})
		run(t, what, plans)
		check(t, what, plans)
		vkit.Class("stack %s", s.desc.ServiceName)
		if kinds["call"]+kinds["stream"] > 1 {
			vkit.Nontrivial(what + describe(plans))
		}
	})
}

func hasMethod(d *grpc.ServiceDesc, name string) bool {
	for _, m := range d.Methods {
		if m.MethodName == name {
			return true
		}
	}
	for _, s := range d.Streams {
		if s.StreamName == name {
			return true
		}
	}
	return false
}

// groupFixtures are groups of wrapped models, some names of which may be missing.
func groupFixtures(t *rapid.T) drive.Fixture {
	strategy := func(what string) group.ExecutionStrategy {
		return group.ExecutionStrategy(rapid.IntRange(0, int(group.ExecutionStrategyRace)).Draw(t, what))
	}
	reads, writes := strategy("reads"), strategy("writes")
	names := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "missing"}), 0, 6).Draw(t, "members")
	what := fmt.Sprintf("group %v reads %d writes %d", names, reads, writes)
	if rapid.Bool().Draw(t, "lights") {
		return drive.Fixture{Name: "light " + what, New: func() drive.Device {
			r := lightpb.NewApiRouter()
			for _, n := range []string{"a", "b", "c"} {
				r.Add(n, clientOf(&traits.LightApi_ServiceDesc, lightpb.NewModelServer(lightpb.NewModel())))
			}
			gr := lightpb.NewGroup(lightpb.WrapApi(r), names...)
			gr.ReadExecution, gr.WriteExecution = reads, writes
			return drive.Device{Server: traits.LightApiServer(gr)}
		}}
	}
	return drive.Fixture{Name: "onoff " + what, New: func() drive.Device {
		r := onoffpb.NewApiRouter()
		for _, n := range []string{"a", "b", "c"} {
			r.Add(n, clientOf(&traits.OnOffApi_ServiceDesc, onoffpb.NewModelServer(onoffpb.NewModel())))
		}
		gr := onoffpb.NewGroup(onoffpb.WrapApi(r), names...)
		gr.ReadExecution, gr.WriteExecution = reads, writes
		return drive.Device{Server: traits.OnOffApiServer(gr)}
	}}
}

// TestGroups runs calls of groups at once.
func TestGroups(t *testing.T) {
	vkit.Check(t, vkit.N(1000, 20000), func(t *rapid.T) {
		f := groupFixtures(t)
		d := f.New()
		g := drive.DefaultGen()
		methods := drive.ServerMethods(d.Server)
		plans := draw(t, 6, func(int) task {
			return methodTask(t, g, vkit.Pick(t, methods, "method"), "")
		})
		run(t, f.Name, plans)
		check(t, f.Name, plans)
		vkit.Class("groups")
		vkit.Nontrivial(f.Name + describe(plans))
	})
}

// member is one member of a group.
type member struct {
	pause int
	fails bool
	waits bool
	none  bool
}

// TestExecute runs groups of actions at once, which share what they return.
func TestExecute(t *testing.T) {
	vkit.Check(t, vkit.N(1500, 30000), func(t *rapid.T) {
		types := vkit.MessageTypes("smartcore.traits.")
		sub := vkit.GenSubject(t, types, vkit.MsgGen{MaxFields: 4, MaxDepth: 2, MaxLen: 2})
		results := []proto.Message{sub.Msg(t, "result"), sub.Msg(t, "result")}
		plans := draw(t, 5, func(int) task {
			var ms []member
			for i, n := 0, rapid.IntRange(0, 6).Draw(t, "members"); i < n; i++ {
				ms = append(ms, member{pause: rapid.IntRange(0, 4).Draw(t, "pause"), fails: rapid.IntRange(0, 2).Draw(t, "fails") == 0,
					waits: rapid.IntRange(0, 7).Draw(t, "waits") == 0, none: rapid.IntRange(0, 5).Draw(t, "none") == 0})
			}
			strategy := group.ExecutionStrategy(rapid.IntRange(0, int(group.ExecutionStrategyRace)+1).Draw(t, "strategy"))
			ends := rapid.IntRange(0, 8).Draw(t, "ends after")
			return task{txt: fmt.Sprintf("execute %d %+v ends after %d", strategy, ms, ends), do: func(w *worker) {
				var actions []group.Member
				for i, m := range ms {
					actions = append(actions, func(ctx context.Context) (proto.Message, error) {
						pause(m.pause)
						if m.waits {
							<-ctx.Done()
						}
						if m.fails {
							return nil, errNone
						}
						if m.none {
							return nil, nil
						}
						// own messages must be handed over in full
						if i%2 == 0 {
							return vkit.Copy(results[i/2%2]), nil
						}
						return results[i/2%2], nil
					})
				}
				out, err := group.Execute(w.ending(ends), strategy, actions)
				_ = err
				for _, m := range out {
					if m != nil {
						w.keep(m)
					}
				}
				// the caller owns the result
				for i := range out {
					out[i] = nil
				}
			}}
		})
		run(t, "execute", plans)
		check(t, "execute", plans)
		vkit.Class("execute")
		vkit.Nontrivial(describe(plans))
	})
}
