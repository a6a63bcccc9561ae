package c05

import (
	"reflect"
	"strings"
	"testing"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

var writeOptions = reflect.TypeOf([]resource.WriteOption(nil))

// unmasked are calls whose update mask doesn't reach a write of a resource, or only sometimes.
var unmasked = map[string]bool{
	"server.UpdateActiveMode":       true, // the mode is looked up by id
	"server.Dispense":               true,
	"model.CreatePublication":       true,
	"model.UpdatePositions":         true, // doesn't write if there are no states
	"server.UpdatePositions":        true,
	"light-memory.UpdateBrightness": true, // keeps no resource
}

func isUnmasked(device, method string) bool {
	if strings.HasPrefix(method, "model.Delete") || strings.HasPrefix(method, "model.Remove") {
		return true
	}
	return unmasked[method] || unmasked[device+"."+strings.TrimPrefix(method, "server.")]
}

// warm puts a device in some state.
func warm(t *rapid.T, d drive.Device, g *drive.Gen, s *strings.Builder) {
	var writes []*drive.Method
	ms, _ := drive.ModelMethods(d.Model)
	for _, m := range append(ms, drive.ServerMethods(d.Server)...) {
		if !m.Read && !m.Stream {
			writes = append(writes, m)
		}
	}
	if len(writes) == 0 {
		return
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "calls before"); i < n; i++ {
		c := g.Draw(t, vkit.Pick(t, writes, "call"))
		_, err, _ := c.Do()
		s.WriteString("  " + c.String())
		if err != nil {
			s.WriteString(" = " + err.Error())
		}
		s.WriteString("\n")
	}
}

// TestTraitBadMask writes to models and servers with masks that name unknown fields.
func TestTraitBadMask(t *testing.T) {
	fixtures := drive.Fixtures()
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		f := vkit.Pick(t, fixtures, "device")
		d := f.New()
		g := drive.DefaultGen()
		var s strings.Builder
		s.WriteString(f.Name + "\n")
		warm(t, d, g, &s)

		badMask := func(about protoreflect.MessageDescriptor) *fieldmaskpb.FieldMask {
			mask := &fieldmaskpb.FieldMask{}
			if about.Fields().Len() > 0 && rapid.Bool().Draw(t, "and good") {
				mask.Paths = append(mask.Paths, vkit.GenPath(t, about, nil, "good"))
			}
			bad := "no_such_field"
			if about.Fields().Len() > 0 && rapid.Bool().Draw(t, "nested") {
				bad = vkit.GenBadPath(t, about, nil, "bad")
			}
			at := rapid.IntRange(0, len(mask.Paths)).Draw(t, "at")
			mask.Paths = append(mask.Paths[:at:at], append([]string{bad}, mask.Paths[at:]...)...)
			return mask
		}
		masked := false
		g.Options = func(t *rapid.T, slice reflect.Type, about protoreflect.MessageDescriptor) (reflect.Value, string) {
			if slice != writeOptions || about == nil {
				return reflect.Value{}, ""
			}
			masked = true
			mask := badMask(about)
			opts := []resource.WriteOption{resource.WithUpdateMask(mask)}
			txt := "mask:" + vkit.MaskText(mask)
			if rapid.Bool().Draw(t, "create") {
				opts = append(opts, resource.WithCreateIfAbsent())
				txt += " createIfAbsent"
			}
			return reflect.ValueOf(opts), txt
		}
		var ms []*drive.Method
		all, _ := drive.ModelMethods(d.Model)
		for _, m := range append(all, drive.ServerMethods(d.Server)...) {
			if m.Read || m.Stream {
				continue
			}
			if m.Req() != nil && m.Req().Descriptor().Fields().ByName("update_mask") == nil {
				continue
			}
			ms = append(ms, m)
		}
		if len(ms) == 0 {
			return
		}
		m := vkit.Pick(t, ms, "write")
		var c *drive.Call
		if m.Req() != nil {
			req := g.Request(t, m)
			about := drive.ResourceType(req.ProtoReflect().Descriptor(), false)
			if about == nil {
				return
			}
			r := req.ProtoReflect()
			r.Set(r.Descriptor().Fields().ByName("update_mask"), protoreflect.ValueOfMessage(badMask(about).ProtoReflect()))
			for i := 0; i < r.Descriptor().Fields().Len(); i++ {
				if fd := r.Descriptor().Fields().Get(i); fd.Message() == about && !r.Has(fd) {
					r.Set(fd, r.NewField(fd)) // the payload is there
				}
			}
			masked = true
			c = m.WithRequest(req)
		} else {
			c = g.Draw(t, m)
		}
		if !masked {
			return
		}
		before := drive.Dump(d, nil)
		out, err, p := c.Do()
		if p != nil {
			t.Fatalf("%s%s panics: %v", &s, c, p)
		}
		method := strings.SplitN(c.String(), "(", 2)[0]
		what := f.Name + " " + method
		if err == nil {
			if !isUnmasked(f.Name, method) {
				t.Fatalf("%s%s = %v: unknown field accepted", &s, c, out)
			}
			return
		}
		if after := drive.Dump(d, nil); before != after {
			t.Fatalf("%s%s = %v changed\n%s\nto\n%s", &s, c, err, before, after)
		}
		if status.Code(err) == codes.InvalidArgument {
			vkit.Nontrivial(s.String() + c.String())
			vkit.Class("%s", what)
		} else {
			vkit.Class("%s %v", what, status.Code(err))
		}
	})
}

// keys are the fields that tell apart the entries of the resources that have more than one.
var keys = map[protoreflect.FullName]protoreflect.Name{
	"smartcore.traits.Booking":          "id",
	"smartcore.traits.ElectricMode":     "id",
	"smartcore.traits.Hail":             "id",
	"smartcore.traits.Consumable.Stock": "consumable",
}

// derived are fields that a write of a resource may set on its own accord.
var derived = map[protoreflect.FullName][]string{
	"smartcore.traits.Emergency": {"level_change_time"},
}

// ownRules are resources whose fields depend on each other, C20 judges them.
var ownRules = map[protoreflect.FullName]bool{
	"smartcore.traits.Publication":        true,
	"smartcore.traits.FanSpeed":           true,
	"smartcore.traits.ModeValues":         true,
	"smartcore.traits.OpenClosePositions": true,
	"smartcore.traits.Brightness":         true,
}

// find appends the messages of the given type within m.
func find(m protoreflect.Message, name protoreflect.FullName, found *[]proto.Message) {
	if m.Descriptor().FullName() == name {
		*found = append(*found, m.Interface())
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Message() == nil, fd.IsMap():
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				find(v.List().Get(i).Message(), name, found)
			}
		default:
			find(v.Message(), name, found)
		}
		return true
	})
}

// TestTraitMask writes through servers with masks.
func TestTraitMask(t *testing.T) {
	fixtures := drive.Fixtures()
	type target struct {
		f drive.Fixture
		m string
	}
	var targets []target
	for _, f := range fixtures {
		for _, m := range drive.ServerMethods(f.New().Server) {
			if m.Read || m.Stream || !strings.HasPrefix(m.Name, "Update") || unmasked["server."+m.Name] || unmasked[f.Name+"."+m.Name] {
				continue
			}
			about := drive.ResourceType(m.Req().Descriptor(), false)
			if about == nil || m.Req().Descriptor().Fields().ByName("update_mask") == nil || ownRules[about.FullName()] {
				continue
			}
			targets = append(targets, target{f, m.Name})
		}
	}
	if len(targets) < 8 {
		t.Fatalf("only %d writes with masks", len(targets))
	}
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		to := vkit.Pick(t, targets, "target")
		d := to.f.New()
		g := drive.DefaultGen()
		g.Names = g.Names[:2]
		var s strings.Builder
		s.WriteString(to.f.Name + "\n")
		warm(t, d, g, &s)
		var m *drive.Method
		for _, sm := range drive.ServerMethods(d.Server) {
			if sm.Name == to.m {
				m = sm
			}
		}
		about := drive.ResourceType(m.Req().Descriptor(), false)
		read := func() (all []proto.Message) {
			seen := map[string]bool{}
			drive.Dump(d, func(what string, msg proto.Message) {
				var ms []proto.Message
				find(msg.ProtoReflect(), about.FullName(), &ms)
				for _, m := range ms {
					if txt := vkit.Text(m); !seen[txt] {
						seen[txt] = true
						all = append(all, vkit.Copy(m))
					}
				}
			})
			return all
		}
		req := g.Request(t, m)
		r := req.ProtoReflect()
		fields := r.Descriptor().Fields()
		for _, n := range []protoreflect.Name{"delta", "relative"} {
			if fd := fields.ByName(n); fd != nil {
				r.Clear(fd)
			}
		}
		var payload proto.Message
		for i := 0; i < fields.Len(); i++ {
			if fd := fields.Get(i); fd.Message() == about {
				payload = r.Mutable(fd).Message().Interface()
			}
		}
		same := func(msg proto.Message) bool { return true }
		before := read()
		if key, ok := keys[about.FullName()]; ok {
			fd := about.Fields().ByName(key)
			if len(before) > 0 && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
				payload.ProtoReflect().Set(fd, vkit.Pick(t, before, "known entry").ProtoReflect().Get(fd))
			}
			id := payload.ProtoReflect().Get(fd).String()
			same = func(msg proto.Message) bool { return msg.ProtoReflect().Get(fd).String() == id }
		}
		var old proto.Message
		for _, b := range before {
			if same(b) {
				if old != nil {
					return // an active mode may differ from the mode of its name
				}
				old = b
			}
		}
		if old == nil {
			return // nothing written before
		}
		mask := vkit.GenMaskNonEmpty(t, about, nil, "mask")
		r.Set(fields.ByName("update_mask"), protoreflect.ValueOfMessage(mask.ProtoReflect()))
		payload = vkit.Copy(payload)
		c := m.WithRequest(req)
		out, err, p := c.Do()
		if p != nil {
			t.Fatalf("%s%s panics: %v", &s, c, p)
		}
		if err != nil {
			vkit.Class("%s %s %v", to.f.Name, to.m, status.Code(err))
			return
		}
		plain := func(m proto.Message) proto.Message {
			m = vkit.Copy(m)
			for _, n := range derived[about.FullName()] {
				m.ProtoReflect().Clear(about.Fields().ByName(protoreflect.Name(n)))
			}
			return m
		}
		want := plain(vkit.RefMerge(old, payload, mask, nil, nil, true))
		other := plain(vkit.RefMerge(old, payload, mask, nil, nil, false))
		right := func(m proto.Message) bool {
			m = plain(m)
			return vkit.Same(m, want) || vkit.Same(m, other)
		}
		var got []proto.Message
		for _, o := range out {
			find(o.ProtoReflect(), about.FullName(), &got)
		}
		if len(got) != 1 || !right(got[0]) {
			t.Fatalf("%s%s\nof  %s\n  = %v\nwant %s", &s, c, vkit.Text(old), out, vkit.Text(want))
		}
		found := false
		for _, a := range read() {
			found = found || right(a)
		}
		if !found {
			t.Fatalf("%s%s\nof  %s\nwant %s, which isn't read", &s, c, vkit.Text(old), vkit.Text(want))
		}
		if !vkit.Same(plain(old), want) {
			vkit.Nontrivial(s.String() + c.String())
			vkit.Class("%s %s", to.f.Name, to.m)
		}
	})
}
