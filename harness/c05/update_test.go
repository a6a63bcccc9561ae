package c05

import (
	"fmt"
	"testing"

	_ "github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/masks"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

func TestMain(m *testing.M) { vkit.Main(m) }

func types() []protoreflect.MessageType {
	all := []protoreflect.MessageType{(&testproto.TestAllTypes{}).ProtoReflect().Type()}
	return append(all, vkit.MessageTypes("smartcore.traits.")...)
}

// tuple is one generated case.
type tuple struct {
	s              *vkit.Subject
	pre, src       proto.Message
	upd, writ, rst *fieldmaskpb.FieldMask
	more           *fieldmaskpb.FieldMask // extra writable
	all            bool                   // all fields writable
	bad            bool                   // upd has an unknown path
}

func gen(t *rapid.T) *tuple {
	c := &tuple{}
	c.s = vkit.GenSubject(t, types(), vkit.MsgGen{Unknown: true, MaxDepth: 3})
	c.pre = c.s.Msg(t, "pre")
	c.src = c.s.Msg(t, "src")
	if rapid.IntRange(0, 2).Draw(t, "near") == 0 {
		// written message close to the stored one
		proto.Merge(c.src, c.pre)
	}
	c.upd = c.s.Mask(t, "upd", c.pre, c.src)
	if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
		c.upd = c.s.BadMask(t, "upd", c.pre, c.src)
		c.bad = true
	}
	switch rapid.IntRange(0, 4).Draw(t, "writ.kind") {
	case 0:
		c.writ = c.s.Mask(t, "writ", c.pre, c.src)
	case 1, 2:
		// writable fields derived from the update mask: it and some more, or part of it
		c.writ = &fieldmaskpb.FieldMask{}
		for _, p := range c.upd.GetPaths() {
			if vkit.ValidPath(c.s.MT.Descriptor(), p) && rapid.IntRange(0, 5).Draw(t, "writ.keep") > 0 {
				c.writ.Paths = append(c.writ.Paths, p)
			}
		}
		for i := rapid.IntRange(0, 2).Draw(t, "writ.extra"); i > 0; i-- {
			c.writ.Paths = append(c.writ.Paths, c.s.Path(t, "writ", c.pre, c.src))
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "more?") == 0 {
		c.more = c.s.Mask(t, "more", c.pre, c.src)
	}
	if rapid.IntRange(0, 2).Draw(t, "rst?") == 0 {
		c.rst = c.s.MaskN(t, "rst", c.pre, c.src)
	}
	c.all = rapid.IntRange(0, 9).Draw(t, "all") == 0
	return c
}

func (c *tuple) String() string {
	return fmt.Sprintf("%s pre=%s src=%s update=%s writable=%s more=%s all=%v reset=%s", c.s.MT.Descriptor().Name(),
		vkit.Text(c.pre), vkit.Text(c.src), vkit.MaskText(c.upd), vkit.MaskText(c.writ), vkit.MaskText(c.more), c.all, vkit.MaskText(c.rst))
}

// effective writable fields; nil is everything.
func (c *tuple) writable(useMore bool) *fieldmaskpb.FieldMask {
	if c.writ == nil || useMore && c.all {
		return nil
	}
	w := &fieldmaskpb.FieldMask{Paths: append([]string{}, c.writ.Paths...)}
	if useMore {
		w.Paths = append(w.Paths, c.more.GetPaths()...)
	}
	return w
}

const (
	mustAccept = iota
	mustReject
	either
)

// verdict: must the update mask be accepted?
func (c *tuple) verdict(w *fieldmaskpb.FieldMask) int {
	if !vkit.ValidMask(c.s.MT.Descriptor(), c.upd) {
		return mustReject
	}
	if c.upd == nil || w == nil {
		return mustAccept
	}
	wt := vkit.MaskTree(w)
	out := mustAccept
	for _, p := range c.upd.Paths {
		pt := vkit.Tree([]string{p})
		if wt.Covers(pt) {
			continue
		}
		if pt.Intersect(wt).Empty() {
			return mustReject
		}
		out = either // names a message only part of which is writable
	}
	return out
}

func (c *tuple) check(t *rapid.T, what string, w *fieldmaskpb.FieldMask, post proto.Message, err error) (accepted bool) {
	v := c.verdict(w)
	if err != nil {
		if v == mustAccept {
			t.Fatalf("%s rejected %s: %v", what, c, err)
		}
		if status.Code(err) != codes.InvalidArgument {
			t.Fatalf("%s rejected %s with %v, want InvalidArgument", what, c, err)
		}
		return false
	}
	if v == mustReject {
		t.Fatalf("%s accepted %s", what, c)
	}
	if post == nil {
		return true
	}
	if ok, want := vkit.MergeAccepts(c.pre, c.src, post, c.upd, w, c.rst); !ok {
		if c.rst != nil && c.upd != nil && len(c.upd.Paths) == 0 && proto.Equal(post, c.pre) {
			return true // "changes nothing" wins over the reset
		}
		t.Fatalf("%s %s\n left %s\n want %s", what, c, vkit.Text(post), vkit.Text(want))
	}
	// clauses of the property, once more and directly
	c.direct(t, what, w, post)
	return true
}

// direct restates the property on top level fields without the reference merge.
func (c *tuple) direct(t *rapid.T, what string, w *fieldmaskpb.FieldMask, post proto.Message) {
	in := vkit.MaskTree(c.upd).Intersect(vkit.MaskTree(w))
	if c.upd == nil && w == nil {
		in = &vkit.PathTree{All: true}
	}
	rst := vkit.Tree(c.rst.GetPaths())
	fs := c.s.MT.Descriptor().Fields()
	oneofSet := map[protoreflect.Name]bool{}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if o := fd.ContainingOneof(); o != nil && post.ProtoReflect().Has(fd) {
			oneofSet[o.Name()] = true
		}
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if rst.Kids[string(fd.Name())] != nil {
			if rst.Kids[string(fd.Name())].All && post.ProtoReflect().Has(fd) && (c.upd == nil || len(c.upd.Paths) > 0) {
				t.Fatalf("%s %s left reset field %s set: %s", what, c, fd.Name(), vkit.Text(post))
			}
			continue
		}
		named := in.All || in.Kids[string(fd.Name())] != nil
		if !named && !fieldEqual(fd, c.pre, post) {
			if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() && !post.ProtoReflect().Has(fd) {
				continue // another member of the oneof, or its reset, took over
			}
			t.Fatalf("%s %s changed %s which is outside: %s", what, c, fd.Name(), vkit.Text(post))
		}
		if named && fd.Message() == nil && !fd.IsList() && !fieldEqual(fd, c.src, post) {
			t.Fatalf("%s %s did not set %s: %s", what, c, fd.Name(), vkit.Text(post))
		}
	}
}

func fieldEqual(fd protoreflect.FieldDescriptor, a, b proto.Message) bool {
	ar, br := a.ProtoReflect(), b.ProtoReflect()
	if ar.Has(fd) != br.Has(fd) {
		return false
	}
	if !ar.Has(fd) {
		return true
	}
	return ar.Get(fd).Equal(br.Get(fd))
}

func (c *tuple) count(w *fieldmaskpb.FieldMask) {
	v := c.verdict(w)
	vkit.Class("verdict=%d upd=%v writable=%v reset=%v", v, kind(c.upd), kind(w), kind(c.rst))
	if v != mustReject && c.upd != nil && len(c.upd.Paths) > 0 && (proto.Size(c.pre) > 0 || proto.Size(c.src) > 0) {
		vkit.Nontrivial(c.String())
	}
	if v == mustReject && proto.Size(c.src) > 0 {
		vkit.Nontrivial(c.String())
	}
}

func kind(m *fieldmaskpb.FieldMask) string {
	switch {
	case m == nil:
		return "nil"
	case len(m.Paths) == 0:
		return "empty"
	}
	return "paths"
}

// TestUpdater drives masks.FieldUpdater itself.
func TestUpdater(t *testing.T) {
	vkit.Check(t, vkit.N(25000, 300000), func(t *rapid.T) {
		c := gen(t)
		c.count(c.writ)
		u := masks.NewFieldUpdater(masks.WithUpdateMask(c.upd), masks.WithWritableFields(c.writ), masks.WithResetMask(c.rst))
		var err error
		vkit.NoPanic(t, "Validate "+c.String(), func() { err = u.Validate(c.src) })
		if !c.check(t, "Validate", c.writ, nil, err) {
			return
		}
		dst := vkit.Copy(c.pre)
		src := vkit.Copy(c.src)
		vkit.NoPanic(t, "Merge "+c.String(), func() { u.Merge(dst, src) })
		c.check(t, "Merge", c.writ, dst, nil)
	})
}

func (c *tuple) writeOpts() []resource.WriteOption {
	var o []resource.WriteOption
	if c.upd != nil {
		o = append(o, resource.WithUpdateMask(c.upd))
	}
	if c.more != nil {
		o = append(o, resource.WithMoreWritableFields(c.more))
	}
	if c.all {
		o = append(o, resource.WithAllFieldsWritable())
	}
	if c.rst != nil {
		o = append(o, resource.WithResetMask(c.rst))
	}
	return o
}

func (c *tuple) resOpts() []resource.Option {
	if c.writ == nil {
		return nil
	}
	return []resource.Option{resource.WithWritableFields(c.writ)}
}

func (c *tuple) checkWrite(t *rapid.T, what string, ret proto.Message, err error, get func() proto.Message) {
	w := c.writable(true)
	after := get()
	if !c.check(t, what, w, ret, err) {
		if after == nil || !proto.Equal(after, c.pre) {
			t.Fatalf("%s %s failed but changed the stored value to %s", what, c, vkit.Text(after))
		}
		return
	}
	if ret == nil || !proto.Equal(ret, after) {
		t.Fatalf("%s %s returned %s, Get says %s", what, c, vkit.Text(ret), vkit.Text(after))
	}
}

func TestValueSet(t *testing.T) {
	vkit.Check(t, vkit.N(25000, 300000), func(t *rapid.T) {
		c := gen(t)
		c.count(c.writable(true))
		v := resource.NewValue(append(c.resOpts(), resource.WithInitialValue(vkit.Copy(c.pre)))...)
		var ret proto.Message
		var err error
		src := vkit.Copy(c.src)
		vkit.NoPanic(t, "Set "+c.String(), func() { ret, err = v.Set(src, c.writeOpts()...) })
		c.checkWrite(t, "Set", ret, err, func() proto.Message { return v.Get() })
	})
}

func TestCollectionUpdate(t *testing.T) {
	vkit.Check(t, vkit.N(25000, 300000), func(t *rapid.T) {
		c := gen(t)
		opts := c.writeOpts()
		var res []resource.Option
		if rapid.IntRange(0, 4).Draw(t, "create") == 0 {
			// the item doesn't exist: it is created from the zero message
			c.pre = c.s.MT.New().Interface()
			opts = append(opts, resource.WithCreateIfAbsent())
		} else {
			res = append(res, resource.WithInitialRecord("a", vkit.Copy(c.pre)))
		}
		c.count(c.writable(true))
		v := resource.NewCollection(append(res, c.resOpts()...)...)
		var ret proto.Message
		var err error
		src := vkit.Copy(c.src)
		vkit.NoPanic(t, "Update "+c.String(), func() { ret, err = v.Update("a", src, opts...) })
		c.checkWrite(t, "Update", ret, err, func() proto.Message {
			m, ok := v.Get("a")
			if !ok {
				return c.s.MT.New().Interface()
			}
			return m
		})
	})
}

// TestMoreUpdateMask: WithMoreUpdateMask extends a mask but leaves a nil one alone.
func TestMoreUpdateMask(t *testing.T) {
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) {
		c := gen(t)
		extra := c.s.Mask(t, "extra", c.pre, c.src)
		if extra == nil {
			extra = &fieldmaskpb.FieldMask{}
		}
		first := c.upd
		opts := c.writeOpts()
		opts = append(opts, resource.WithMoreUpdateMask(extra))
		if c.upd != nil {
			c.upd = &fieldmaskpb.FieldMask{Paths: append(append([]string{}, c.upd.Paths...), extra.Paths...)}
		}
		c.count(c.writable(true))
		before := vkit.Copy(first)
		v := resource.NewValue(append(c.resOpts(), resource.WithInitialValue(vkit.Copy(c.pre)))...)
		src := vkit.Copy(c.src)
		ret, err := v.Set(src, opts...)
		c.checkWrite(t, "Set with more mask", ret, err, func() proto.Message { return v.Get() })
		if first != nil && !proto.Equal(before, first) {
			t.Fatalf("WithMoreUpdateMask changed the caller's mask: %s was %s", vkit.MaskText(first), vkit.MaskText(before))
		}
	})
}
