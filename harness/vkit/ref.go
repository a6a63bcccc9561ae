package vkit

import (
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// PathTree is the set of paths of a mask: a nil child means the whole subtree.
type PathTree struct {
	All  bool
	Kids map[string]*PathTree
}

// Tree builds the union of the paths: "a" covers "a.b".
func Tree(paths []string) *PathTree {
	root := &PathTree{Kids: map[string]*PathTree{}}
	for _, p := range paths {
		cur := root
		parts := strings.Split(p, ".")
		for i, part := range parts {
			if cur.All {
				break
			}
			next := cur.Kids[part]
			if next == nil {
				next = &PathTree{Kids: map[string]*PathTree{}}
				cur.Kids[part] = next
			}
			if i == len(parts)-1 {
				next.All = true
				next.Kids = map[string]*PathTree{}
			}
			cur = next
		}
	}
	return root
}

// MaskTree is Tree for a mask with nil meaning everything.
func MaskTree(m *fieldmaskpb.FieldMask) *PathTree {
	if m == nil {
		return &PathTree{All: true}
	}
	return Tree(m.Paths)
}

// Intersect returns the paths in both trees.
func (a *PathTree) Intersect(b *PathTree) *PathTree {
	if a.All {
		return b
	}
	if b.All {
		return a
	}
	out := &PathTree{Kids: map[string]*PathTree{}}
	for k, av := range a.Kids {
		if bv, ok := b.Kids[k]; ok {
			c := av.Intersect(bv)
			if c.All || len(c.Kids) > 0 {
				out.Kids[k] = c
			}
		}
	}
	return out
}

// Covers reports whether every path of b is within a.
func (a *PathTree) Covers(b *PathTree) bool {
	if a.All {
		return true
	}
	if b.All {
		return false
	}
	for k, bv := range b.Kids {
		av, ok := a.Kids[k]
		if !ok || !av.Covers(bv) {
			return false
		}
	}
	return true
}

func (a *PathTree) Empty() bool { return !a.All && len(a.Kids) == 0 }

// Keys lists the children names, sorted.
func (a *PathTree) Keys() []string {
	var ks []string
	for k := range a.Kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Project returns a new message holding precisely the fields of m selected by a valid mask:
// nil selects everything, empty nothing.
func Project(m proto.Message, mask *fieldmaskpb.FieldMask) proto.Message {
	src := m.ProtoReflect()
	dst := src.New()
	projectInto(dst, src, MaskTree(mask), true)
	return dst.Interface()
}

func projectInto(dst, src protoreflect.Message, tree *PathTree, top bool) {
	src.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		sub := tree
		if !tree.All {
			sub = tree.Kids[string(fd.Name())]
		}
		if sub == nil {
			return true
		}
		if !sub.All && fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			projectInto(dst.Mutable(fd).Message(), v.Message(), sub, false)
			return true
		}
		if !sub.All && fd.Message() != nil && fd.IsList() {
			// a path through a repeated message selects within each element
			l := dst.Mutable(fd).List()
			for i := 0; i < v.List().Len(); i++ {
				nv := l.NewElement()
				projectInto(nv.Message(), v.List().Get(i).Message(), sub, false)
				l.Append(nv)
			}
			return true
		}
		copyField(dst, fd, v)
		return true
	})
	if tree.All && len(src.GetUnknown()) > 0 {
		dst.SetUnknown(append(protoreflect.RawFields(nil), src.GetUnknown()...))
	}
}

// copyField deep copies one field without using proto.Merge.
func copyField(dst protoreflect.Message, fd protoreflect.FieldDescriptor, v protoreflect.Value) {
	switch {
	case fd.IsMap():
		mp := dst.Mutable(fd).Map()
		v.Map().Range(func(k protoreflect.MapKey, mv protoreflect.Value) bool {
			if fd.MapValue().Message() != nil {
				nv := mp.NewValue()
				projectInto(nv.Message(), mv.Message(), &PathTree{All: true}, false)
				mp.Set(k, nv)
			} else {
				mp.Set(k, cloneScalar(mv))
			}
			return true
		})
	case fd.IsList():
		l := dst.Mutable(fd).List()
		for i := 0; i < v.List().Len(); i++ {
			if fd.Message() != nil {
				nv := l.NewElement()
				projectInto(nv.Message(), v.List().Get(i).Message(), &PathTree{All: true}, false)
				l.Append(nv)
			} else {
				l.Append(cloneScalar(v.List().Get(i)))
			}
		}
	case fd.Message() != nil:
		projectInto(dst.Mutable(fd).Message(), v.Message(), &PathTree{All: true}, false)
	default:
		dst.Set(fd, cloneScalar(v))
	}
}

func cloneScalar(v protoreflect.Value) protoreflect.Value {
	if b, ok := v.Interface().([]byte); ok {
		return protoreflect.ValueOfBytes(append([]byte{}, b...))
	}
	return v
}

// Simplify removes empty messages at the inner (non leaf) nodes of the trees, so that "present but empty"
// and "absent" compare equal where a mask only names something below them. It edits a copy.
func Simplify(m proto.Message, trees ...*PathTree) proto.Message {
	c := proto.Clone(m)
	for _, tr := range trees {
		simplify(c.ProtoReflect(), tr)
	}
	return c
}

func simplify(m protoreflect.Message, tree *PathTree) {
	if tree.All {
		return
	}
	for k, sub := range tree.Kids {
		if sub.All {
			continue
		}
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(k))
		if fd == nil || fd.Message() == nil || fd.IsMap() || !m.Has(fd) {
			continue
		}
		if fd.IsList() {
			for i, l := 0, m.Mutable(fd).List(); i < l.Len(); i++ {
				simplify(l.Get(i).Message(), sub)
			}
			continue
		}
		simplify(m.Mutable(fd).Message(), sub)
		if proto.Size(m.Get(fd).Message().Interface()) == 0 {
			m.Clear(fd)
		}
	}
}

// Copy deep copies a message without aliasing anything (independent of proto.Clone).
func Copy[M proto.Message](m M) M {
	if any(m) == nil || !m.ProtoReflect().IsValid() {
		return m
	}
	src := m.ProtoReflect()
	dst := src.New()
	projectInto(dst, src, &PathTree{All: true}, true)
	return dst.Interface().(M)
}

// Same is exact message equality: proto.Equal plus deterministic bytes when NaNs are not involved.
func Same(a, b proto.Message) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	return proto.Equal(a, b)
}

// RefMerge computes what a write leaves: pre is the stored message, src the written one, m the update mask,
// w the writable fields, r the reset mask. With bare, a message on the way to a named field is created
// whenever src has it, otherwise only when something is set inside (this matters to oneofs only).
func RefMerge(pre, src proto.Message, m, w, r *fieldmaskpb.FieldMask, bare bool) proto.Message {
	out := Copy(pre)
	tree := MaskTree(m).Intersect(MaskTree(w))
	if m == nil && w == nil {
		out = Copy(src)
	} else if !(m != nil && len(m.Paths) == 0) {
		refMerge(out.ProtoReflect(), src.ProtoReflect(), tree, m == nil, bare)
	}
	if r != nil {
		refReset(out.ProtoReflect(), Tree(r.Paths))
	}
	return out
}

func refMerge(dst, src protoreflect.Message, tree *PathTree, replace, bare bool) {
	fs := dst.Descriptor().Fields()
	// clears first: a oneof member that is cleared must not undo one that is set
	for pass := 0; pass < 2; pass++ {
		for _, k := range tree.Keys() {
			fd := fs.ByName(protoreflect.Name(k))
			sub := tree.Kids[k]
			if fd == nil {
				continue
			}
			has := src.Has(fd)
			if sub.All {
				if pass == 0 {
					if !has || replace {
						dst.Clear(fd)
					}
					continue
				}
				if !has {
					continue
				}
				switch {
				case fd.IsList(), fd.IsMap():
					copyField(dst, fd, src.Get(fd)) // appends / overwrites keys
				case fd.Message() != nil:
					proto.Merge(dst.Mutable(fd).Message().Interface(), src.Get(fd).Message().Interface())
				default:
					dst.Set(fd, cloneScalar(src.Get(fd)))
				}
				continue
			}
			// partially named message
			if pass == 0 {
				if dst.Has(fd) && !has {
					refMerge(dst.Mutable(fd).Message(), src.Get(fd).Message(), sub, replace, bare)
				}
				continue
			}
			if !has {
				continue
			}
			if !dst.Has(fd) {
				tmp := dst.NewField(fd).Message()
				refMerge(tmp, src.Get(fd).Message(), sub, replace, bare)
				if !bare && proto.Size(tmp.Interface()) == 0 {
					continue
				}
				dst.Set(fd, protoreflect.ValueOfMessage(tmp))
				continue
			}
			refMerge(dst.Mutable(fd).Message(), src.Get(fd).Message(), sub, replace, bare)
		}
	}
}

func refReset(m protoreflect.Message, tree *PathTree) {
	for k, sub := range tree.Kids {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(k))
		if fd == nil || !m.Has(fd) {
			continue
		}
		if sub.All {
			m.Clear(fd)
			continue
		}
		refReset(m.Mutable(fd).Message(), sub)
	}
}

// MergeAccepts reports whether post is what a write of src over pre may leave.
func MergeAccepts(pre, src, post proto.Message, m, w, r *fieldmaskpb.FieldMask) (ok bool, want proto.Message) {
	trees := []*PathTree{MaskTree(m).Intersect(MaskTree(w)), MaskTree(m), MaskTree(w)}
	if r != nil {
		trees = append(trees, Tree(r.Paths))
	}
	got := SimplifyAll(post, trees)
	for _, bare := range []bool{false, true} {
		want = RefMerge(pre, src, m, w, r, bare)
		if proto.Equal(SimplifyAll(want, trees), got) {
			return true, want
		}
	}
	return false, want
}

// SimplifyAll is Simplify, repeated until nothing changes.
func SimplifyAll(m proto.Message, trees []*PathTree) proto.Message {
	for {
		n := Simplify(m, trees...)
		if proto.Size(n) == proto.Size(m) {
			return n
		}
		m = n
	}
}
