package c07

import (
	"context"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/resmodel"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

// iso holds every message that crossed the API with a copy made at that time.
type iso struct {
	mu      sync.Mutex
	entries []entry
	seen    map[proto.Message]bool
}

type entry struct {
	what string
	msg  proto.Message
	copy []byte
	text string
}

func newIso() *iso { return &iso{seen: map[proto.Message]bool{}} }

func wire(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
	if err != nil { // invalid UTF-8
		return []byte(vkit.Text(m))
	}
	return b
}

func (s *iso) note(what string, m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.entries = append(s.entries, entry{what, m, wire(m), vkit.Text(m)})
}

// changed reports the first message that is no longer what it was.
func (s *iso) changed() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.entries {
		if string(wire(e.msg)) != string(e.copy) {
			return fmt.Sprintf("%s was\n   %s\n  and is now\n   %s", e.what, e.text, vkit.Text(e.msg))
		}
	}
	return ""
}

// forget drops the entries of m, which the caller is about to change.
func (s *iso) forget(m proto.Message) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []entry
	for _, e := range s.entries {
		if e.msg != m {
			out = append(out, e)
		}
	}
	s.entries = out
}

// scribble changes everything reachable from m in place.
func scribble(m protoreflect.Message) {
	type f struct {
		fd protoreflect.FieldDescriptor
		v  protoreflect.Value
	}
	var fs []f
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		fs = append(fs, f{fd, v})
		return true
	})
	for _, f := range fs {
		switch {
		case f.fd.IsMap():
			mp := m.Mutable(f.fd).Map()
			var keys []protoreflect.MapKey
			mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				keys = append(keys, k)
				return true
			})
			for i, k := range keys {
				if f.fd.MapValue().Message() != nil {
					scribble(mp.Get(k).Message())
				} else {
					mp.Set(k, other(f.fd.MapValue(), mp.Get(k)))
				}
				if i > 0 {
					mp.Clear(k)
				}
			}
		case f.fd.IsList():
			l := m.Mutable(f.fd).List()
			for i := 0; i < l.Len(); i++ {
				if f.fd.Message() != nil {
					scribble(l.Get(i).Message())
				} else {
					l.Set(i, other(f.fd, l.Get(i)))
				}
			}
			if l.Len() > 1 {
				a, b := l.Get(0), l.Get(l.Len()-1)
				l.Set(0, b)
				l.Set(l.Len()-1, a)
			}
		case f.fd.Message() != nil:
			scribble(m.Mutable(f.fd).Message())
		default:
			m.Set(f.fd, other(f.fd, f.v))
		}
	}
}

func other(fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(v.Enum() + 1)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString("scribbled " + v.String())
	case protoreflect.BytesKind:
		b := v.Bytes()
		for i := range b { // in place
			b[i] ^= 0xff
		}
		return v
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float() + 1))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int()) + 1)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(v.Int() + 1)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.Uint()) + 1)
	default:
		return protoreflect.ValueOfUint64(v.Uint() + 1)
	}
}

func diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i < len(lb) && la[i] != lb[i] {
			return fmt.Sprintf("   %s\n  became\n   %s", la[i], lb[i])
		}
	}
	return a + "\nbecame\n" + b
}

func runTrait(t *rapid.T, fx drive.Fixture, g *drive.Gen, steps int) {
	d := fx.New()
	methods, left := drive.ModelMethods(d.Model)
	for _, l := range left {
		vkit.Class("left out: %s model.%s", fx.Name, l)
	}
	methods = append(methods, drive.ServerMethods(d.Server)...)
	if len(methods) == 0 {
		t.Fatalf("%s has no methods", fx.Name)
	}
	var writes []*drive.Method
	for _, m := range methods {
		if !m.Read {
			writes = append(writes, m)
		}
	}
	reg := newIso()
	var log []string
	var streams []*drive.Stream
	defer func() {
		for _, s := range streams {
			s.Cancel()
		}
	}()
	fail := func(format string, args ...any) {
		t.Fatalf("%s:\n  %s\n%s", fx.Name, strings.Join(log, "\n  "), fmt.Sprintf(format, args...))
	}
	// settle waits until the streams have what they get
	settle := func() {
		if len(streams) == 0 {
			return
		}
		last := -1
		for i := 0; i < 50; i++ {
			time.Sleep(50 * time.Microsecond)
			n := 0
			for _, s := range streams {
				n += s.Count()
			}
			if n == last && i > 2 {
				break
			}
			last = n
		}
	}
	dump := func() (s string) {
		vkit.Within(t, fx.Name+" reads", func() {
			s = drive.Dump(d, nil)
		})
		return s
	}
	before := dump()
	changes, reads := 0, 0
	for i := 0; i < steps; i++ {
		m := vkit.Pick(t, methods, "method")
		if len(writes) > 0 && rapid.Bool().Draw(t, "write") {
			m = vkit.Pick(t, writes, "write")
		}
		c := g.Draw(t, m)
		log = append(log, c.String())
		if m.Stream {
			s := c.Start()
			s.OnMessage = func(msg proto.Message) { reg.note("an event of "+c.String(), msg) }
			streams = append(streams, s)
			settle()
			time.Sleep(100 * time.Microsecond)
		} else {
			var out []proto.Message
			var err error
			var panicked any
			vkit.Within(t, strings.Join(log, "\n"), func() { out, err, panicked = c.Do() })
			if panicked != nil { // not about isolation
				vkit.Class("panic: %s %s", fx.Name, m.Name)
				return
			}
			if err != nil {
				log[len(log)-1] += " => " + err.Error()
			}
			settle()
			for k, o := range out {
				reg.note(fmt.Sprintf("result %d of call %d", k, i), o)
			}
		}
		after := dump()
		if m.Read && after != before {
			fail("a read changed what is stored:\n%s", diff(before, after))
		}
		if m.Read {
			reads++
		} else if after != before {
			changes++
		}
		if why := reg.changed(); why != "" {
			fail("after the last call %s", why)
		}
		// the caller goes on with its own messages
		if !m.Stream {
			for _, in := range c.In {
				scribble(in.ProtoReflect())
			}
			if now := dump(); now != after {
				fail("changing the arguments of the last call after it changed what is stored:\n%s", diff(after, now))
			}
			if why := reg.changed(); why != "" {
				fail("after changing the arguments of the last call %s", why)
			}
			for k, in := range c.In {
				reg.note(fmt.Sprintf("argument %d of call %d", k, i), in)
			}
		}
		if i%5 == 4 {
			drive.Dump(d, func(what string, m proto.Message) { reg.note(fmt.Sprintf("%s after call %d", what, i), m) })
		}
		before = after
	}
	if changes > 0 && len(reg.entries) > 2 {
		vkit.Nontrivial(fx.Name + strings.Join(log, ";"))
		vkit.Class("%s", fx.Name)
	}
	for _, s := range streams {
		s.Cancel()
	}
	for _, s := range streams {
		s := s
		vkit.Within(t, "cancelled "+s.Name, func() { <-s.Done })
	}
}

// TestTraits: every public method of every trait model and server.
func TestTraits(t *testing.T) {
	fixtures := drive.Fixtures()
	if only := os.Getenv("VERIF_FIXTURE"); only != "" { // while developing
		fixtures = slices.DeleteFunc(fixtures, func(f drive.Fixture) bool { return f.Name != only })
	}
	vkit.Check(t, vkit.N(1500, 30000), func(t *rapid.T) {
		fx := vkit.Pick(t, fixtures, "fixture")
		g := drive.DefaultGen()
		g.Tweak = func(t *rapid.T, m *drive.Method, msg proto.Message) {
			if fx.Name == "light-memory" {
				noRamp(msg.ProtoReflect())
			}
		}
		runTrait(t, fx, g, rapid.IntRange(2, 14).Draw(t, "steps"))
	})
}

func noRamp(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if strings.Contains(string(fd.Name()), "tween") {
			m.Clear(fd)
		} else if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			noRamp(v.Message())
		}
		return true
	})
}

// TestResource: Value and Collection with all their options.
func TestResource(t *testing.T) {
	types := resmodel.Types()
	vkit.Check(t, vkit.N(1500, 30000), func(t *rapid.T) {
		g := vkit.MsgGen{MaxFields: 4}
		sub := vkit.GenSubject(t, types, g)
		reg := newIso()
		var log []string
		logf := func(format string, args ...any) { log = append(log, fmt.Sprintf(format, args...)) }
		fail := func(format string, args ...any) {
			t.Fatalf("%s:\n  %s\n%s", sub.MT.Descriptor().Name(), strings.Join(log, "\n  "), fmt.Sprintf(format, args...))
		}
		collection := rapid.Bool().Draw(t, "collection")
		var opts []resource.Option
		if rapid.IntRange(0, 2).Draw(t, "nodup") == 0 {
			opts = append(opts, resource.WithNoDuplicates())
		}
		ids := []string{"a", "b", "c"}
		var given []proto.Message
		initial := func() proto.Message {
			m := sub.Msg(t, "initial")
			given = append(given, m)
			return m
		}
		var v *resource.Value
		var c *resource.Collection
		if collection {
			for _, id := range ids[:rapid.IntRange(0, 2).Draw(t, "records")] {
				opts = append(opts, resource.WithInitialRecord(id, initial()))
			}
			c = resource.NewCollection(opts...)
		} else {
			if rapid.IntRange(0, 4).Draw(t, "initial?") > 0 {
				opts = append(opts, resource.WithInitialValue(initial()))
			}
			v = resource.NewValue(opts...)
		}
		dump := func() string {
			var sb strings.Builder
			if v != nil {
				fmt.Fprintln(&sb, "value:", vkit.Text(v.Get()))
				return sb.String()
			}
			for _, id := range ids {
				m, ok := c.Get(id)
				if ok {
					fmt.Fprintln(&sb, id, vkit.Text(m))
				} else {
					fmt.Fprintln(&sb, id, "absent")
				}
			}
			return sb.String()
		}
		received := func() proto.Message {
			if rapid.IntRange(0, 2).Draw(t, "received") > 0 {
				return nil
			}
			at := rapid.IntRange(0, 50).Draw(t, "which")
			reg.mu.Lock()
			defer reg.mu.Unlock()
			if len(reg.entries) == 0 {
				return nil
			}
			return reg.entries[at%len(reg.entries)].msg
		}
		before := dump()
		for _, m := range given {
			scribble(m.ProtoReflect())
			reg.note("initial value", m)
		}
		if now := dump(); now != before {
			fail("changing the initial value changed what is stored:\n%s", diff(before, now))
		}
		var wg sync.WaitGroup
		ctx, cancel := context.WithCancel(context.Background())
		defer func() {
			cancel()
			wg.Wait()
		}()
		var count, subs int
		var mu sync.Mutex
		settle := func() {
			if subs == 0 {
				return
			}
			last := -1
			for i := 0; i < 50; i++ {
				time.Sleep(40 * time.Microsecond)
				mu.Lock()
				n := count
				mu.Unlock()
				if n == last && i > 1 {
					return
				}
				last = n
			}
		}
		for i, n := 0, rapid.IntRange(2, 14).Draw(t, "steps"); i < n; i++ {
			var in []proto.Message
			read := false
			id := vkit.Pick(t, ids, "id")
			readOpts := func(stream bool) []resource.ReadOption {
				var ro []resource.ReadOption
				if rapid.Bool().Draw(t, "readMask?") {
					mask := sub.Mask(t, "readMask")
					logf("   mask %s", vkit.MaskText(mask))
					ro = append(ro, resource.WithReadMask(mask))
				}
				if collection && rapid.IntRange(0, 2).Draw(t, "include") == 0 {
					odd := len(ids[0]) == 1
					ro = append(ro, resource.WithInclude(func(id string, m proto.Message) bool {
						if m != nil {
							reg.note("an item given to the include predicate", m)
						}
						return odd || id == "a"
					}))
				}
				if stream {
					ro = append(ro, resource.WithUpdatesOnly(rapid.Bool().Draw(t, "only")), resource.WithBackpressure(rapid.Bool().Draw(t, "bp")))
				}
				return ro
			}
			writeOpts := func() []resource.WriteOption {
				var wo []resource.WriteOption
				if rapid.Bool().Draw(t, "updateMask?") {
					mask := sub.Mask(t, "updateMask")
					logf("   update mask %s", vkit.MaskText(mask))
					wo = append(wo, resource.WithUpdateMask(mask))
				}
				if rapid.IntRange(0, 3).Draw(t, "resetMask?") == 0 {
					mask := sub.Mask(t, "resetMask")
					logf("   reset mask %s", vkit.MaskText(mask))
					wo = append(wo, resource.WithResetMask(mask))
				}
				if rapid.IntRange(0, 2).Draw(t, "check") == 0 {
					wo = append(wo, resource.WithExpectedCheck(func(m proto.Message) error {
						if m != nil {
							reg.note("the value given to the expected check", m)
						}
						return nil
					}))
				}
				if rapid.IntRange(0, 2).Draw(t, "before") == 0 {
					wo = append(wo, resource.InterceptBefore(func(old, new proto.Message) {
						if old != nil {
							reg.note("the old value given to the before interceptor", old)
						}
					}))
				}
				if rapid.IntRange(0, 2).Draw(t, "after") == 0 {
					extra := rapid.Bool().Draw(t, "afterWrites")
					wo = append(wo, resource.InterceptAfter(func(old, new proto.Message) {
						if old != nil {
							reg.note("the old value given to the after interceptor", old)
						}
						if extra && new != nil { // allowed: the new value is theirs to adjust
							scribble(new.ProtoReflect())
						}
					}))
				}
				wo = append(wo, resource.WithCreateIfAbsent())
				return wo
			}
			// arg draws what is written, either the caller's own or something received before
			arg := func(what string, in *[]proto.Message) proto.Message {
				if m := received(); m != nil {
					logf("   what was received before")
					return m
				}
				m := sub.Msg(t, what)
				*in = append(*in, m)
				return m
			}
			results := func(ms ...proto.Message) {
				for _, m := range ms {
					if m != nil {
						reg.note(fmt.Sprintf("a result of step %d", i), m)
					}
				}
			}
			switch k := rapid.IntRange(0, 6).Draw(t, "op"); {
			case v != nil && k <= 1:
				read = true
				logf("Get")
				results(v.Get(readOpts(false)...))
			case v != nil && k <= 5:
				m := arg("set", &in)
				logf("Set %s", vkit.Text(m))
				r, err := v.Set(m, writeOpts()...)
				logf("   => %v", err)
				results(r)
			case v != nil:
				read = true
				logf("Pull")
				ch := v.Pull(ctx, readOpts(true)...)
				wg.Add(1)
				subs++
				go func() {
					defer wg.Done()
					for e := range ch {
						reg.note("the value of an event", e.Value)
						mu.Lock()
						count++
						mu.Unlock()
					}
				}()
			case k == 0:
				read = true
				logf("Get %s", id)
				m, _ := c.Get(id, readOpts(false)...)
				results(m)
			case k == 1:
				read = true
				logf("List")
				results(c.List(readOpts(false)...)...)
			case k == 2:
				m := arg("add", &in)
				logf("Add %s %s", id, vkit.Text(m))
				r, err := c.Add(id, m)
				logf("   => %v", err)
				results(r)
			case k <= 4:
				m := arg("update", &in)
				logf("Update %s %s", id, vkit.Text(m))
				r, err := c.Update(id, m, writeOpts()...)
				logf("   => %v", err)
				results(r)
			case k == 5:
				logf("Delete %s", id)
				r, _ := c.Delete(id)
				results(r)
			default:
				read = true
				subs++
				if rapid.Bool().Draw(t, "pullID") {
					logf("PullID %s", id)
					ch := c.PullID(ctx, id, readOpts(true)...)
					wg.Add(1)
					go func() {
						defer wg.Done()
						for e := range ch {
							reg.note("the value of an event", e.Value)
							mu.Lock()
							count++
							mu.Unlock()
						}
					}()
				} else {
					logf("Pull")
					ch := c.Pull(ctx, readOpts(true)...)
					wg.Add(1)
					go func() {
						defer wg.Done()
						for e := range ch {
							reg.note("the old value of an event", e.OldValue)
							reg.note("the new value of an event", e.NewValue)
							mu.Lock()
							count++
							mu.Unlock()
						}
					}()
				}
			}
			settle()
			after := dump()
			if read && after != before {
				fail("a read changed what is stored:\n%s", diff(before, after))
			}
			if why := reg.changed(); why != "" {
				fail("after the last call %s", why)
			}
			for _, m := range in {
				scribble(m.ProtoReflect())
			}
			if now := dump(); now != after {
				fail("changing the argument of the last call changed what is stored:\n%s", diff(after, now))
			}
			if why := reg.changed(); why != "" {
				fail("after changing the argument of the last call %s", why)
			}
			for _, m := range in {
				reg.note("an argument", m)
			}
			before = after
		}
		reg.mu.Lock()
		n := len(reg.entries)
		reg.mu.Unlock()
		if n > 3 {
			sort.Strings(ids)
			vkit.Nontrivial(strings.Join(log, ";"))
		}
	})
}
