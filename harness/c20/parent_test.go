package c20

import (
	"fmt"
	"sort"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
)

var traitNames = []string{"", "A", "B", "B.a", "C", "a", "onoff", "light", "~"}

type set map[string]bool

func (s set) with(names []string) set {
	out := set{}
	for n := range s {
		out[n] = true
	}
	for _, n := range names {
		out[n] = true
	}
	return out
}

func (s set) without(names []string) set {
	out := s.with(nil)
	for _, n := range names {
		delete(out, n)
	}
	return out
}

// child is the child with the traits of the set.
func (s set) child(name string) *traits.Child {
	c := &traits.Child{Name: name}
	for _, n := range keys(s) {
		c.Traits = append(c.Traits, &traits.Trait{Name: n})
	}
	return c
}

func genTraits(t *rapid.T, hi int) []string {
	var names []string
	for i, n := 0, rapid.IntRange(0, hi).Draw(t, "traits"); i < n; i++ {
		names = append(names, vkit.Pick(t, traitNames, "trait"))
	}
	return names
}

func asTraits(names []string) []trait.Name {
	var ts []trait.Name
	for _, n := range names {
		ts = append(ts, trait.Name(n))
	}
	return ts
}

// genChild draws a child, usually with sorted traits.
func genChild(t *rapid.T, name string) (c *traits.Child, s set, sorted bool) {
	names := genTraits(t, 4)
	if !one(t, 6, "unsorted") {
		sort.Strings(names)
	}
	c = &traits.Child{Name: name}
	for _, n := range names {
		c.Traits = append(c.Traits, &traits.Trait{Name: n})
	}
	return c, set{}.with(names), sort.StringsAreSorted(names)
}

// panics runs fn and says whether it panicked.
func panics(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	fn()
	return ""
}

// TestParent compares children with sets of traits.
func TestParent(t *testing.T) {
	vkit.Check(t, vkit.N(48000, 400000), func(t *rapid.T) {
		s := &steps{t: t}
		ref := map[string]set{}
		names := []string{"a", "b", "c", "a/b"}
		var opts []resource.Option
		for _, n := range names {
			if one(t, 3, "initial") {
				c, ts, sorted := genChild(t, n)
				if !sorted {
					continue
				}
				ref[n] = ts
				opts = append(opts, parentpb.WithInitialChildren(c))
			}
		}
		var m *parentpb.Model
		var srv *parentpb.ModelServer
		s.step("NewModel(%v)", ref)
		s.do(func() { m = parentpb.NewModel(opts...); srv = parentpb.NewModelServer(m) })
		check := func() {
			var got []*traits.Child
			var list *traits.ListChildrenResponse
			var err error
			s.do(func() {
				got = m.ListChildren()
				list, err = srv.ListChildren(bg, &traits.ListChildrenRequest{Name: "device", PageSize: 100})
			})
			s.ok(err)
			for what, got := range map[string][]*traits.Child{"children": got, "listed children": list.Children} {
				if len(got) != len(ref) {
					s.failf("%d %s, want %d", len(got), what, len(ref))
				}
				for _, c := range got {
					want, ok := ref[c.Name]
					if !ok {
						s.failf("unexpected child %s", vkit.Text(c))
					}
					s.same(what, c, want.child(c.Name))
				}
			}
		}
		check()
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "ops"); i < n; i++ {
			name := vkit.Pick(t, names, "child")
			old, exists := ref[name]
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0, 1, 2, 3:
				ts := genTraits(t, 4)
				s.step("AddChildTrait(%q, %q) to %v", name, ts, keys(old))
				var got *traits.Child
				var created bool
				s.do(func() { got, created = m.AddChildTrait(name, asTraits(ts)...) })
				ref[name] = old.with(ts)
				s.same("child", got, ref[name].child(name))
				if created == exists {
					s.failf("created is %v", created)
				}
				if len(ts) > 0 && exists {
					vkit.Nontrivial(s.at)
				}
				vkit.Class("add, created %v", created)
			case 4, 5, 6, 7:
				ts := genTraits(t, 4)
				s.step("RemoveChildTrait(%q, %q) from %v", name, ts, keys(old))
				var got *traits.Child
				s.do(func() { got = m.RemoveChildTrait(name, asTraits(ts)...) })
				if !exists {
					if got != nil {
						s.failf("got %s, want nil", vkit.Text(got))
					}
					break
				}
				ref[name] = old.without(ts)
				s.same("child", got, ref[name].child(name))
				if len(ts) > 0 && len(old) > 0 {
					vkit.Nontrivial(s.at)
				}
				vkit.Class("remove")
			case 8:
				c, ts, sorted := genChild(t, name)
				s.step("AddChild(%s)", vkit.Text(c))
				if !sorted {
					if panics(func() { m.AddChild(vkit.Copy(c)) }) == "" {
						// it could have been sorted for us, but it has to be
						if !exists {
							ref[name] = ts
						}
					}
					break
				}
				s.do(func() { m.AddChild(vkit.Copy(c)) })
				if !exists {
					ref[name] = ts
				}
				vkit.Class("add child")
			case 9:
				s.step("RemoveChildByName(%q)", name)
				var got *traits.Child
				var err error
				s.do(func() { got, err = m.RemoveChildByName(name) })
				if !exists {
					s.code(err, codes.NotFound)
					break
				}
				s.ok(err)
				s.same("child", got, old.child(name))
				delete(ref, name)
			}
			check()
		}
	})
}
