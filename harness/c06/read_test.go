package c06

import (
	"context"
	"fmt"
	"testing"

	_ "github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/masks"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

func msgTypes() []protoreflect.MessageType {
	all := []protoreflect.MessageType{(&testproto.TestAllTypes{}).ProtoReflect().Type()}
	return append(all, vkit.MessageTypes("smartcore.traits.")...)
}

type tuple struct {
	s    *vkit.Subject
	m    proto.Message
	mask *fieldmaskpb.FieldMask
	bad  bool // Validate must report the mask
	any  bool // and what a read gives isn't specified
}

func (c *tuple) String() string {
	return fmt.Sprintf("%s %s mask=%s", c.s.MT.Descriptor().Name(), vkit.Text(c.m), vkit.MaskText(c.mask))
}

func gen(t *rapid.T) *tuple {
	c := &tuple{}
	c.s = vkit.GenSubject(t, msgTypes(), vkit.MsgGen{Unknown: true, Special: true, MaxDepth: 3})
	c.m = c.s.Msg(t, "m")
	switch rapid.IntRange(0, 6).Draw(t, "bad") {
	case 0:
		c.mask = c.s.BadMask(t, "mask", c.m)
		c.bad, c.any = true, true
	case 1, 2:
		c.mask, c.bad = c.s.ListMask(t, "mask", c.m)
	default:
		c.mask = c.s.Mask(t, "mask", c.m)
	}
	if !c.bad && c.mask != nil && len(c.mask.Paths) > 0 && proto.Size(c.m) > 0 || c.bad && proto.Size(c.m) > 0 {
		vkit.Nontrivial(c.String())
	}
	return c
}

// same compares a read result with the projection of the stored message.
func (c *tuple) same(got, stored proto.Message) bool {
	tr := []*vkit.PathTree{vkit.MaskTree(c.mask)}
	return proto.Equal(vkit.SimplifyAll(got, tr), vkit.SimplifyAll(vkit.Project(stored, c.mask), tr))
}

func (c *tuple) check(t *rapid.T, what string, got, stored, storedCopy proto.Message) {
	t.Helper()
	if !proto.Equal(stored, storedCopy) {
		t.Fatalf("%s modified the message: %s, was %s (%s)", what, vkit.Text(stored), vkit.Text(storedCopy), c)
	}
	if c.any {
		return
	}
	if got == nil || !got.ProtoReflect().IsValid() {
		t.Fatalf("%s %s is nil", what, c)
	}
	if !c.same(got, storedCopy) {
		t.Fatalf("%s %s\n gave %s\n want %s", what, c, vkit.Text(got), vkit.Text(vkit.Project(storedCopy, c.mask)))
	}
}

func TestFilter(t *testing.T) {
	vkit.Check(t, vkit.N(40000, 400000), func(t *rapid.T) {
		c := gen(t)
		f := masks.NewResponseFilter(masks.WithFieldMask(c.mask))
		cp := vkit.Copy(c.m)
		var err error
		vkit.NoPanic(t, "Validate "+c.String(), func() { err = f.Validate(c.m) })
		if (err != nil) != c.bad {
			t.Fatalf("Validate %s gave %v", c, err)
		}
		var got proto.Message
		vkit.NoPanic(t, "FilterClone "+c.String(), func() { got = f.FilterClone(c.m) })
		c.check(t, "FilterClone", got, c.m, cp)
		in := vkit.Copy(c.m)
		vkit.NoPanic(t, "Filter "+c.String(), func() { f.Filter(in) })
		c.check(t, "Filter", in, c.m, cp)
		vkit.Class("filter bad=%v,%v mask=%v", c.bad, c.any, kind(c.mask))
	})
}

func kind(m *fieldmaskpb.FieldMask) string {
	switch {
	case m == nil:
		return "nil"
	case len(m.Paths) == 0:
		return "empty"
	}
	return "paths"
}

func (c *tuple) read() []resource.ReadOption {
	return []resource.ReadOption{resource.WithReadMask(c.mask)}
}

// recv takes n events (all are produced without further input).
func recv[T any](t *rapid.T, what string, ch <-chan T, n int) []T {
	var out []T
	vkit.Within(t, what, func() {
		for i := 0; i < n; i++ {
			out = append(out, <-ch)
		}
	})
	return out
}

func TestValueRead(t *testing.T) {
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		c := gen(t)
		v := resource.NewValue(resource.WithInitialValue(vkit.Copy(c.m)))
		stored := v.Get() // the stored message itself or a copy: either must stay as it is
		var got proto.Message
		vkit.NoPanic(t, "Get "+c.String(), func() { got = v.Get(c.read()...) })
		c.check(t, "Get", got, stored, c.m)
		c.check(t, "Get", got, v.Get(), c.m)

		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		back := rapid.Bool().Draw(t, "backpressure")
		ch := v.Pull(ctx, append(c.read(), resource.WithBackpressure(back))...)
		seed := recv(t, "Value.Pull seed "+c.String(), ch, 1)[0]
		if seed == nil {
			t.Fatalf("Pull closed (%s)", c)
		}
		c.check(t, "Pull seed", seed.Value, v.Get(), c.m)
		next := c.s.Msg(t, "next")
		done := make(chan error, 1)
		go func() { _, err := v.Set(vkit.Copy(next)); done <- err }()
		ev := recv(t, "Value.Pull event "+c.String(), ch, 1)[0]
		if err := <-done; err != nil {
			t.Fatalf("Set: %v", err)
		}
		c.check(t, "Pull event", ev.Value, v.Get(), next)
		c.check(t, "Pull seed later", seed.Value, c.m, c.m)
		c.check(t, "the old value", got, stored, c.m)
	})
}

func TestCollectionRead(t *testing.T) {
	vkit.Check(t, vkit.N(6000, 60000), func(t *rapid.T) {
		c := gen(t)
		n := rapid.IntRange(0, 3).Draw(t, "others")
		ids := []string{"m"}
		bodies := map[string]proto.Message{"m": c.m}
		opts := []resource.Option{resource.WithInitialRecord("m", vkit.Copy(c.m))}
		for i := 0; i < n; i++ {
			id := string(rune('n' + i))
			bodies[id] = c.s.Msg(t, id)
			ids = append(ids, id)
			opts = append(opts, resource.WithInitialRecord(id, vkit.Copy(bodies[id])))
		}
		col := resource.NewCollection(opts...)
		var got proto.Message
		var ok bool
		vkit.NoPanic(t, "Get "+c.String(), func() { got, ok = col.Get("m", c.read()...) })
		if !ok {
			t.Fatalf("Get lost the item (%s)", c)
		}
		full, _ := col.Get("m")
		c.check(t, "Get", got, full, c.m)
		var list []proto.Message
		vkit.NoPanic(t, "List "+c.String(), func() { list = col.List(c.read()...) })
		if len(list) != len(ids) {
			t.Fatalf("List has %d items, want %d", len(list), len(ids))
		}
		for i, id := range ids {
			full, _ := col.Get(id)
			c.check(t, "List", list[i], full, bodies[id])
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		back := resource.WithBackpressure(rapid.Bool().Draw(t, "backpressure"))
		ch := col.Pull(ctx, append(c.read(), back)...)
		one := col.PullID(ctx, "m", append(c.read(), resource.WithBackpressure(false))...)
		for i, ev := range recv(t, "Pull seed "+c.String(), ch, len(ids)) {
			full, _ := col.Get(ids[i])
			if ev == nil || ev.Id != ids[i] || ev.OldValue != nil && ev.OldValue.ProtoReflect().IsValid() {
				t.Fatalf("seed %d is %v (%s)", i, ev, c)
			}
			c.check(t, "Pull seed", ev.NewValue, full, bodies[ids[i]])
		}
		seed := recv(t, "PullID seed "+c.String(), one, 1)[0]
		if seed == nil {
			t.Fatalf("PullID closed (%s)", c)
		}
		c.check(t, "PullID seed", seed.Value, full, c.m)

		// an update and a removal: both values of the events are projections
		next := c.s.Msg(t, "next")
		done := make(chan error, 1)
		go func() {
			if _, err := col.Update("m", vkit.Copy(next)); err != nil {
				done <- err
				return
			}
			done <- nil
		}()
		ev := recv(t, "Pull update "+c.String(), ch, 1)[0]
		upd := recv(t, "PullID update "+c.String(), one, 1)[0]
		if err := <-done; err != nil {
			t.Fatalf("Update: %v", err)
		}
		now, _ := col.Get("m")
		if ev == nil || upd == nil || ev.ChangeType != types.ChangeType_UPDATE {
			t.Fatalf("update event %v %v", ev, upd)
		}
		c.check(t, "Pull update new", ev.NewValue, now, next)
		c.check(t, "Pull update old", ev.OldValue, full, c.m)
		c.check(t, "PullID update", upd.Value, now, next)
		go func() { _, err := col.Delete("m"); done <- err }()
		ev = recv(t, "Pull remove "+c.String(), ch, 1)[0]
		if err := <-done; err != nil {
			t.Fatalf("Delete: %v", err)
		}
		if ev == nil || ev.ChangeType != types.ChangeType_REMOVE || ev.NewValue != nil && ev.NewValue.ProtoReflect().IsValid() {
			t.Fatalf("remove event %v", ev)
		}
		c.check(t, "Pull remove old", ev.OldValue, now, next)
		vkit.Class("collection bad=%v mask=%v", c.bad, kind(c.mask))
	})
}
