package c15

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type page struct {
	items []proto.Message
	next  string
	total int
	err   error
}

type request struct {
	size  int32
	token string
	mask  *fieldmaskpb.FieldMask
}

// list is one paged RPC over one collection. want holds the contents in the listing's order.
type list struct {
	call func(request) page
	want []proto.Message
	// remove deletes the item at an index of want, nil when the trait has no such operation.
	remove func(i int) error
}

type lister struct {
	name     string
	item     proto.Message
	key      protoreflect.Name
	intToken bool
	base     int // items every collection holds
	emptyKey bool
	build    func(items []proto.Message, how func(n int) int) *list
}

func conv[T proto.Message](in []T) []proto.Message {
	out := make([]proto.Message, len(in))
	for i, m := range in {
		out[i] = m
	}
	return out
}

func back[T proto.Message](in []proto.Message) []T {
	out := make([]T, len(in))
	for i, m := range in {
		out[i] = m.(T)
	}
	return out
}

func copies(in []proto.Message) []proto.Message {
	out := make([]proto.Message, len(in))
	for i, m := range in {
		out[i] = vkit.Copy(m)
	}
	return out
}

// keyOf reads the field a collection is keyed by.
func keyOf(m proto.Message, key protoreflect.Name) string {
	r := m.ProtoReflect()
	return r.Get(r.Descriptor().Fields().ByName(key)).String()
}

func sorted(in []proto.Message, key protoreflect.Name) []proto.Message {
	out := copies(in)
	sort.SliceStable(out, func(i, j int) bool { return keyOf(out[i], key) < keyOf(out[j], key) })
	return out
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("setup: %v", err))
	}
}

var bg = context.Background()

var listers = []*lister{
	{name: "ListModes", item: &traits.ElectricMode{}, key: "id", build: func(items []proto.Message, how func(int) int) *list {
		in := back[*traits.ElectricMode](copies(items))
		for _, m := range in {
			m.Normal = false
		}
		k := how(len(in) + 1)
		m := electricpb.NewModel(electricpb.WithInitialMode(in[:k]...))
		for _, mode := range in[k:] {
			must(m.AddMode(mode))
		}
		s := electricpb.NewModelServer(m)
		return &list{
			call: func(r request) page {
				resp, err := s.ListModes(bg, &traits.ListModesRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetModes()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want:   sorted(conv(in), "id"),
			remove: nil,
		}
	}},
	{name: "ListHails", item: &traits.Hail{}, key: "id", build: func(items []proto.Message, how func(int) int) *list {
		in := back[*traits.Hail](copies(items))
		m := hailpb.NewModel(hailpb.WithKeepAlive(-1)) // keeps arrived hails
		s := hailpb.NewModelServer(m)
		var stored []proto.Message
		for _, h := range in {
			if how(4) == 0 { // the server invents an id
				c := vkit.Copy(h)
				c.Id = ""
				got, err := s.CreateHail(bg, &traits.CreateHailRequest{Name: "n", Hail: c})
				must(err)
				stored = append(stored, got)
				continue
			}
			got, err := m.UpdateHail(h, resource.WithCreateIfAbsent())
			must(err)
			stored = append(stored, got)
		}
		l := &list{
			call: func(r request) page {
				resp, err := s.ListHails(bg, &traits.ListHailsRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetHails()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want: sorted(stored, "id"),
		}
		l.remove = func(i int) error {
			_, err := s.DeleteHail(bg, &traits.DeleteHailRequest{Name: "n", Id: keyOf(l.want[i], "id")})
			return err
		}
		return l
	}},
	{name: "ListChildren", item: &traits.Child{}, key: "name", emptyKey: true, build: func(items []proto.Message, how func(int) int) *list {
		in := back[*traits.Child](copies(items))
		for _, c := range in {
			c.Traits = nil
		}
		var initial, rest []*traits.Child
		for _, c := range in {
			if c.Name != "" && how(3) == 0 {
				initial = append(initial, c)
			} else {
				rest = append(rest, c)
			}
		}
		m := parentpb.NewModel(parentpb.WithInitialChildren(initial...))
		for _, c := range rest {
			if c.Name == "" || how(2) == 0 {
				// only AddChildTrait takes an empty name, and it keeps no more than name and traits
				n := c.Name
				c.Reset()
				c.Name = n
				c.Traits = []*traits.Trait{{Name: "t1"}, {Name: "t2"}}
				m.AddChildTrait(c.Name, trait.Name("t2"), trait.Name("t1"))
				continue
			}
			m.AddChild(c)
		}
		s := parentpb.NewModelServer(m)
		l := &list{
			call: func(r request) page {
				resp, err := s.ListChildren(bg, &traits.ListChildrenRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetChildren()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want: sorted(conv(in), "name"),
		}
		l.remove = func(i int) error {
			_, err := m.RemoveChildByName(keyOf(l.want[i], "name"))
			return err
		}
		return l
	}},
	{name: "ListPublications", item: &traits.Publication{}, key: "id", build: func(items []proto.Message, how func(int) int) *list {
		m := publicationpb.NewModel()
		s := publicationpb.NewModelServer(m)
		var stored []proto.Message
		for _, p := range back[*traits.Publication](copies(items)) {
			if how(4) == 0 {
				p.Id = ""
			}
			got, err := s.CreatePublication(bg, &traits.CreatePublicationRequest{Name: "n", Publication: p})
			must(err)
			stored = append(stored, got)
		}
		l := &list{
			call: func(r request) page {
				resp, err := s.ListPublications(bg, &traits.ListPublicationsRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetPublications()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want: sorted(stored, "id"),
		}
		l.remove = func(i int) error {
			_, err := s.DeletePublication(bg, &traits.DeletePublicationRequest{Name: "n", Id: keyOf(l.want[i], "id")})
			return err
		}
		return l
	}},
	{name: "ListConsumables", item: &traits.Consumable{}, key: "name", build: func(items []proto.Message, how func(int) int) *list {
		in := back[*traits.Consumable](copies(items))
		k := how(len(in) + 1)
		m := vendingpb.NewModel(vendingpb.WithInitialConsumable(in[:k]...))
		stored := conv(in[:k])
		for _, c := range in[k:] {
			if how(4) == 0 {
				c.Name = ""
			}
			got, err := m.CreateConsumable(c)
			must(err)
			stored = append(stored, got)
		}
		// the other list of the same trait holds something else
		_, err := m.CreateStock(&traits.Consumable_Stock{Consumable: "other"})
		must(err)
		s := vendingpb.NewModelServer(m)
		l := &list{
			call: func(r request) page {
				resp, err := s.ListConsumables(bg, &traits.ListConsumablesRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetConsumables()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want: sorted(stored, "name"),
		}
		l.remove = func(i int) error {
			_, err := m.DeleteConsumable(keyOf(l.want[i], "name"))
			return err
		}
		return l
	}},
	{name: "ListInventory", item: &traits.Consumable_Stock{}, key: "consumable", build: func(items []proto.Message, how func(int) int) *list {
		in := back[*traits.Consumable_Stock](copies(items))
		k := how(len(in) + 1)
		m := vendingpb.NewModel(vendingpb.WithInitialStock(in[:k]...))
		stored := conv(in[:k])
		for _, c := range in[k:] {
			if how(4) == 0 {
				c.Consumable = ""
			}
			got, err := m.CreateStock(c)
			must(err)
			stored = append(stored, got)
		}
		_, err := m.CreateConsumable(&traits.Consumable{Name: "other"})
		must(err)
		s := vendingpb.NewModelServer(m)
		l := &list{
			call: func(r request) page {
				resp, err := s.ListInventory(bg, &traits.ListInventoryRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetInventory()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want: sorted(stored, "consumable"),
		}
		l.remove = func(i int) error {
			_, err := m.DeleteStock(keyOf(l.want[i], "consumable"))
			return err
		}
		return l
	}},
	{name: "ListWasteRecords", item: &traits.WasteRecord{}, key: "id", intToken: true, emptyKey: true, base: 100, build: func(items []proto.Message, how func(int) int) *list {
		m := wastepb.NewModel()
		have := conv(m.ListWasteRecords(m.GetWasteRecordCount(), m.GetWasteRecordCount())) // newest first
		for i := range have {
			have[i] = vkit.Copy(have[i])
		}
		var newest []proto.Message
		for i, w := range back[*traits.WasteRecord](copies(items)) {
			if how(3) == 0 {
				got, err := m.GenerateWasteRecord(&timestamppb.Timestamp{Seconds: int64(i)})
				must(err)
				newest = append([]proto.Message{vkit.Copy(proto.Message(got))}, newest...)
				continue
			}
			_, err := m.AddWasteRecord(w)
			must(err)
			newest = append([]proto.Message{w}, newest...)
		}
		s := wastepb.NewModelServer(m)
		return &list{
			call: func(r request) page {
				resp, err := s.ListWasteRecords(bg, &traits.ListWasteRecordsRequest{Name: "n", PageSize: r.size, PageToken: r.token, ReadMask: r.mask})
				return page{conv(resp.GetWasteRecords()), resp.GetNextPageToken(), int(resp.GetTotalSize()), err}
			},
			want: append(newest, have...),
		}
	}},
}

func effective(size int32) int {
	switch {
	case size == 0:
		return 50
	case size > 1000:
		return 1000
	}
	return int(size)
}

// visible says whether got is the listed form of stored under mask.
func visible(got, stored proto.Message, mask *fieldmaskpb.FieldMask) bool {
	if proto.Equal(got, stored) {
		return true // a list may ignore the mask: what a mask selects is not this property
	}
	tr := []*vkit.PathTree{vkit.MaskTree(mask)}
	return proto.Equal(vkit.SimplifyAll(got, tr), vkit.SimplifyAll(vkit.Project(stored, mask), tr))
}

// chain is one client following tokens.
type chain struct {
	l     *list
	name  string
	mask  *fieldmaskpb.FieldMask
	sizes []int32
	at    int
	token string
	calls int
	done  bool
	log   []string
}

func (c *chain) step(t vkit.Fataler, size int32) {
	c.sizes = append(c.sizes, size)
	var p page
	vkit.NoPanic(t, fmt.Sprintf("%s(page_size=%d, token=%q) after %v", c.name, size, c.token, c.log), func() {
		p = c.l.call(request{size, c.token, c.mask})
	})
	c.calls++
	c.log = append(c.log, fmt.Sprintf("size=%d token=%q -> %d items, next=%q, total=%d", size, c.token, len(p.items), p.next, p.total))
	if len(c.log) > 6 {
		c.log = append(c.log[:2:2], c.log[len(c.log)-4:]...)
	}
	fail := func(f string, args ...any) {
		t.Helper()
		t.Fatalf("%s over %d items, mask %s: %s; calls (first and last): %s", c.name, len(c.l.want), vkit.MaskText(c.mask), fmt.Sprintf(f, args...), strings.Join(c.log, "; "))
	}
	if p.err != nil {
		fail("failed: %v", p.err)
	}
	if len(p.items) > effective(size) {
		fail("page of %d items, at most %d asked for", len(p.items), effective(size))
	}
	if p.total != len(c.l.want) {
		fail("total_size %d, there are %d items", p.total, len(c.l.want))
	}
	for _, it := range p.items {
		if c.at >= len(c.l.want) {
			fail("more items than there are: %s", vkit.Text(it))
		}
		if !visible(it, c.l.want[c.at], c.mask) {
			fail("item %d is %s, want %s", c.at, vkit.Text(it), vkit.Text(c.l.want[c.at]))
		}
		c.at++
	}
	c.token = p.next
	if p.next == "" {
		c.done = true
		if c.at != len(c.l.want) {
			fail("the chain ended after %d of %d items", c.at, len(c.l.want))
		}
		return
	}
	if c.calls > 2*len(c.l.want)+10 {
		fail("endless token chain, %d calls so far", c.calls)
	}
}

var alphabets = [][]rune{[]rune("ab"), []rune("aAzZ09-_~ "), []rune("éßa☃\U0001F600"), []rune("a\x00\x01/%+=")}

func genKeys(t *rapid.T, l *lister, n int) []string {
	al := vkit.Pick(t, alphabets, "alphabet")
	seen := map[string]bool{}
	var out []string
	if l.emptyKey && n > 0 && rapid.IntRange(0, 3).Draw(t, "emptyKey") == 0 {
		seen[""] = true
		out = append(out, "")
	}
	for len(out) < n {
		k := rapid.StringOfN(rapid.RuneFrom(al), 1, 8, -1).Draw(t, "key")
		if rapid.IntRange(0, 2).Draw(t, "extend") == 0 && len(out) > 0 {
			k = vkit.Pick(t, out, "of") + k
		}
		for seen[k] {
			k += string(vkit.Pick(t, al, "more"))
		}
		seen[k] = true
		out = append(out, k)
	}
	return out
}

func genItems(t *rapid.T, l *lister, n int, plain bool) []proto.Message {
	mt := l.item.ProtoReflect().Type()
	fd := mt.Descriptor().Fields().ByName(l.key)
	var keys []string
	if plain {
		for i := 0; i < n; i++ {
			keys = append(keys, strconv.Itoa(i))
		}
	} else {
		keys = genKeys(t, l, n)
	}
	g := vkit.MsgGen{MaxFields: 3, MaxDepth: 1}
	out := make([]proto.Message, n)
	for i, k := range keys {
		var m proto.Message
		if plain || i > 8 {
			m = mt.New().Interface()
		} else {
			m = g.New(t, mt, "item")
		}
		m.ProtoReflect().Set(fd, protoreflect.ValueOfString(k))
		out[i] = m
	}
	return out
}

var sizes = []int32{1, 2, 3, 7, 50, 1000, 5000, 0, 49, 51, 999, 1001}

func genSize(t *rapid.T) int32 {
	switch rapid.IntRange(0, 5).Draw(t, "sizeKind") {
	case 0:
		return vkit.Pick(t, sizes, "size")
	case 1:
		return int32(rapid.IntRange(1, 1<<31-1).Draw(t, "size"))
	}
	return int32(rapid.IntRange(1, 12).Draw(t, "size"))
}

// TestAllSizes is every collection size in 0..60 (100..160 for waste) with every fixed page size and no mask.
func TestAllSizes(t *testing.T) {
	max := vkit.N(60, 130)
	for _, l := range listers {
		for n := 0; n <= max; n++ {
			items := make([]proto.Message, n)
			for i := range items {
				m := l.item.ProtoReflect().New()
				// neither in order nor of one length: 0, 00, 1, 10, ...
				m.Set(m.Descriptor().Fields().ByName(l.key), protoreflect.ValueOfString(strconv.FormatInt(int64(i*37%(max+1)), 3)))
				items[i] = m.Interface()
			}
			lst := l.build(items, func(int) int { return 1 % (n + 1) })
			var all []int32
			for _, s := range sizes {
				all = append(all, s)
			}
			for d := -1; d <= 1; d++ {
				for _, s := range []int{len(lst.want) + d, len(lst.want)/2 + d} {
					if s > 0 {
						all = append(all, int32(s))
					}
				}
			}
			for _, s := range all {
				vkit.Eval()
				if len(lst.want) > 1 && effective(s) < len(lst.want) {
					vkit.Nontrivial(fmt.Sprintf("%s %d items by %d", l.name, len(lst.want), s))
				}
				c := &chain{l: lst, name: l.name}
				for !c.done {
					c.step(t, s)
				}
				if t.Failed() {
					return
				}
			}
		}
	}
}

// TestBoundary covers the cap of 1000 and the default of 50 with full-size collections.
func TestBoundary(t *testing.T) {
	ns := []int{49, 50, 51, 999, 1000, 1001, 2000, 2001, 1550}
	for _, l := range listers {
		for _, n := range ns {
			n -= l.base
			if n < 0 {
				continue
			}
			items := genPlain(l, n)
			lst := l.build(items, func(k int) int { return k - 1 })
			for _, s := range []int32{0, 1, 49, 50, 51, 333, 500, 999, 1000, 1001, 5000, 1<<31 - 1} {
				if s == 1 && n > 1001 {
					continue
				}
				vkit.Eval()
				if effective(s) < len(lst.want) {
					vkit.Nontrivial(fmt.Sprintf("%s %d items by %d", l.name, len(lst.want), s))
				}
				c := &chain{l: lst, name: l.name}
				for !c.done {
					c.step(t, s)
				}
			}
			vkit.Class("%s boundary", l.name)
		}
	}
}

func genPlain(l *lister, n int) []proto.Message {
	items := make([]proto.Message, n)
	for i := range items {
		m := l.item.ProtoReflect().New()
		m.Set(m.Descriptor().Fields().ByName(l.key), protoreflect.ValueOfString(fmt.Sprintf("%x-%d", i*7919%9973, i)))
		items[i] = m.Interface()
	}
	return items
}

func build(t *rapid.T, l *lister, max int) *list {
	n := rapid.IntRange(0, max).Draw(t, "n")
	items := genItems(t, l, n, false)
	lst := l.build(items, func(n int) int {
		if n <= 1 {
			return 0
		}
		return rapid.IntRange(0, n-1).Draw(t, "how")
	})
	return lst
}

// TestFollow runs one or two clients over random contents with random page sizes and masks, tokens replayed now and
// then, the clients' calls interleaved, and hostile requests in between.
func TestFollow(t *testing.T) {
	vkit.Check(t, vkit.N(2500, 60000), func(t *rapid.T) {
		l := vkit.Pick(t, listers, "rpc")
		lst := build(t, l, 30)
		n := rapid.IntRange(1, 2).Draw(t, "clients")
		var cs []*chain
		for i := 0; i < n; i++ {
			c := &chain{l: lst, name: l.name}
			switch rapid.IntRange(0, 3).Draw(t, "maskKind") {
			case 0:
				c.mask = vkit.GenMask(t, l.item.ProtoReflect().Descriptor(), nil, "mask")
			case 1:
				c.mask = &fieldmaskpb.FieldMask{Paths: []string{string(l.key)}}
			}
			cs = append(cs, c)
		}
		masked := false
		for {
			var open []*chain
			for _, c := range cs {
				if !c.done {
					open = append(open, c)
				}
			}
			if len(open) == 0 {
				break
			}
			c := open[0]
			if len(open) > 1 {
				c = vkit.Pick(t, open, "turn")
			}
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0: // a retried request: the page is thrown away
				again := *c
				again.log = append([]string{}, c.log...)
				again.step(t, genSize(t))
			case 1:
				hostile(t, l, lst, c.mask)
			}
			c.step(t, genSize(t))
			if c.mask != nil && len(c.sizes) > 1 {
				masked = true
			}
		}
		for _, c := range cs {
			if c.calls > 1 {
				vkit.Nontrivial(fmt.Sprintf("%s %d items, sizes %v, mask %s", l.name, len(lst.want), c.sizes, vkit.MaskText(c.mask)))
			}
		}
		vkit.Class("%s masked=%v", l.name, masked)
	})
}

type token struct {
	text string
	bad  bool // no reading of it makes sense
}

func genToken(t *rapid.T, l *lister, valid []string) token {
	kind := rapid.IntRange(0, 7).Draw(t, "tokenKind")
	if l.intToken {
		switch kind {
		case 0:
			return token{vkit.Pick(t, []string{"x", "1x", "0x10", "1.5", "--1", "1e3", "\x00", "١"}, "tok"), true}
		case 1:
			return token{strconv.Itoa(-rapid.IntRange(1, 1<<40).Draw(t, "neg")), true}
		case 2:
			return token{vkit.Pick(t, []string{"9223372036854775808", "-9223372036854775809", "99999999999999999999999"}, "tok"), true}
		case 3:
			return token{strconv.Itoa(rapid.IntRange(101, 1<<60).Draw(t, "big")), false}
		case 4:
			return token{vkit.Pick(t, []string{"0", "1", "-0", "+1", "007", "-9223372036854775808", "9223372036854775807"}, "tok"), false}
		}
	}
	switch kind {
	case 0, 1:
		s := rapid.StringOfN(rapid.RuneFrom([]rune("ab!#é \n=%")), 1, 12, -1).Draw(t, "tok")
		if _, err := base64.StdEncoding.DecodeString(s); err != nil || l.intToken {
			return token{s, true}
		}
		return token{s, false}
	case 2:
		b := rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(t, "bytes")
		bad := proto.Unmarshal(b, &types.PageToken{}) != nil
		return token{base64.StdEncoding.EncodeToString(b), bad || l.intToken}
	case 3:
		name := rapid.StringOfN(rapid.RuneFrom(vkit.Pick(t, alphabets, "al")), 0, 6, -1).Draw(t, "name")
		b, _ := proto.Marshal(&types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: name}})
		return token{base64.StdEncoding.EncodeToString(b), l.intToken && len(b) > 0}
	case 4:
		b, _ := proto.Marshal(&types.PageToken{PageStart: &types.PageToken_LastOffset{LastOffset: int32(rapid.Int32().Draw(t, "offset"))}})
		return token{base64.StdEncoding.EncodeToString(b), false}
	}
	if len(valid) == 0 {
		return token{"", false}
	}
	tok := vkit.Pick(t, valid, "valid")
	b := []byte(tok)
	switch rapid.IntRange(0, 3).Draw(t, "corrupt") {
	case 0:
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
	case 1:
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
	case 2:
		i := rapid.IntRange(0, len(b)).Draw(t, "at")
		b = append(b[:i:i], append([]byte{rapid.Byte().Draw(t, "byte")}, b[i:]...)...)
	}
	s := string(b)
	return token{s, !utf8.ValidString(s) || len(s) > 0 && undecodable(l, s)}
}

func undecodable(l *lister, s string) bool {
	if l.intToken {
		_, err := strconv.Atoi(s)
		return errors.Is(err, strconv.ErrSyntax)
	}
	b, err := base64.StdEncoding.DecodeString(s)
	return err != nil || proto.Unmarshal(b, &types.PageToken{}) != nil
}

// hostile sends one request no honest client would and checks the answer.
func hostile(t *rapid.T, l *lister, lst *list, mask *fieldmaskpb.FieldMask) {
	size := genSize(t)
	tok := token{}
	if rapid.Bool().Draw(t, "badToken") {
		var valid []string
		if p := lst.call(request{size: 2}); p.next != "" {
			valid = append(valid, p.next)
		}
		tok = genToken(t, l, valid)
	}
	negative := tok.text == "" || rapid.IntRange(0, 4).Draw(t, "neg") == 0
	if negative {
		size = -vkit.Pick(t, []int32{1, 2, 3, 5, 50, 1000, 1<<31 - 1, 4, 6, 101}, "negative")
		if rapid.IntRange(0, 9).Draw(t, "min") == 0 {
			size = -1 << 31
		}
	}
	bad := negative || tok.bad
	at, calls := 0, 0
	for next := tok.text; ; {
		var p page
		what := fmt.Sprintf("%s(page_size=%d, token=%q) over %d items (call %d from token %q)", l.name, size, next, len(lst.want), calls, tok.text)
		vkit.NoPanic(t, what, func() { p = lst.call(request{size, next, mask}) })
		calls++
		if p.err != nil {
			if status.Code(p.err) == codes.OK {
				t.Fatalf("%s: error %v has status OK", what, p.err)
			}
			if calls > 1 {
				t.Fatalf("%s: refused a token handed out by the call before: %v", what, p.err)
			}
			if bad {
				vkit.Nontrivial(fmt.Sprintf("%s refuses size=%d token=%q", l.name, size, tok.text))
			}
			vkit.Class("%s hostile refused", l.name)
			return
		}
		if bad {
			t.Fatalf("%s: accepted (%d items, next %q), want an error status", what, len(p.items), p.next)
		}
		if len(p.items) > effective(size) {
			t.Fatalf("%s: page of %d items", what, len(p.items))
		}
		if p.total != len(lst.want) {
			t.Fatalf("%s: total_size %d, there are %d", what, p.total, len(lst.want))
		}
		at += len(p.items)
		if at > len(lst.want) {
			t.Fatalf("%s: %d items in one chain", what, at)
		}
		if p.next == "" {
			vkit.Class("%s hostile served", l.name)
			return
		}
		if calls > 2*len(lst.want)+10 {
			t.Fatalf("%s: endless token chain", what)
		}
		next = p.next
		if size < 200 { // keep long chains short
			size = size*2 + 1
		}
	}
}

// TestHostile sends hostile requests to collections of any size, the empty one included, then lists normally.
func TestHostile(t *testing.T) {
	vkit.Check(t, vkit.N(4000, 120000), func(t *rapid.T) {
		l := vkit.Pick(t, listers, "rpc")
		lst := build(t, l, 8)
		var mask *fieldmaskpb.FieldMask
		if rapid.IntRange(0, 4).Draw(t, "masked") == 0 {
			mask = vkit.GenMask(t, l.item.ProtoReflect().Descriptor(), nil, "mask")
		}
		for i := rapid.IntRange(1, 4).Draw(t, "reqs"); i > 0; i-- {
			hostile(t, l, lst, mask)
		}
		c := &chain{l: lst, name: l.name, mask: mask}
		for !c.done {
			c.step(t, genSize(t))
		}
	})
}

// TestDeleted removes the item a token points at (or another): what is left after it still comes once, in order.
func TestDeleted(t *testing.T) {
	var with []*lister
	for _, l := range listers {
		if l.build(nil, func(int) int { return 0 }).remove != nil {
			with = append(with, l)
		}
	}
	vkit.Check(t, vkit.N(1000, 20000), func(t *rapid.T) {
		l := vkit.Pick(t, with, "rpc")
		lst := build(t, l, 15)
		c := &chain{l: lst, name: l.name}
		c.step(t, int32(rapid.IntRange(1, 6).Draw(t, "first")))
		if c.done || c.at == 0 {
			return
		}
		i := c.at - 1
		if rapid.Bool().Draw(t, "earlier") {
			i = rapid.IntRange(0, c.at-1).Draw(t, "which")
		}
		must(lst.remove(i))
		rest := append(append([]proto.Message{}, lst.want[:i]...), lst.want[i+1:]...)
		lst.want = rest
		c.at--
		c.log = append(c.log, fmt.Sprintf("item %d deleted", i))
		vkit.Nontrivial(fmt.Sprintf("%s deleted %d of %d, sizes %v", l.name, i, len(rest)+1, c.sizes))
		for !c.done {
			c.step(t, genSize(t))
		}
	})
}
