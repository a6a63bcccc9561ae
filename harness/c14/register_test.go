package c14

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/c12"
	"github.com/smart-core-os/sc-golang/internal/verif/drive"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
)

func TestMain(m *testing.M) { vkit.Main(m) }

// names the router knows, the first two are of the same server.
var names = []string{"a", "b", "c"}

func deviceOf(name string) int {
	if name == "c" {
		return 1
	}
	return 0
}

// slot is where a value is found.
type slot struct {
	r    *register
	name string
	key  string
}

func (s slot) String() string {
	return fmt.Sprintf("%v(%q, %q)", s.r.get.name, s.name, s.key)
}

func (s slot) with(more map[string]any) map[string]any {
	more["name"] = s.name
	if s.r.key != nil {
		more[string(s.r.key.Name())] = s.key
	}
	return more
}

type answer struct {
	msg proto.Message
	err error
}

func (a answer) String() string {
	if a.err != nil {
		return a.err.Error()
	}
	return vkit.Text(a.msg)
}

func (a answer) same(b answer) bool {
	if a.err != nil || b.err != nil {
		return status.Code(a.err) == status.Code(b.err)
	}
	return vkit.Same(a.msg, b.msg)
}

type state map[slot]answer

type openStream struct {
	*stream
	slot        slot
	mask        *fieldmaskpb.FieldMask
	updatesOnly bool
	last        proto.Message // received
	loose       bool          // its value was absent at some point
	txt         string
}

type run struct {
	t       *rapid.T
	fx      string
	devs    [2]drive.Device
	apis    []*api
	keys    map[*register][]string
	streams []*openStream
	leak    vkit.Leak
	at      string
	n       int
	g       *drive.Gen
}

func (c *run) step(format string, args ...any) {
	c.n++
	c.at = fmt.Sprintf(format, args...)
	c.t.Logf("%d: %s", c.n, c.at)
}

func (c *run) failf(format string, args ...any) {
	c.t.Helper()
	c.t.Fatalf("%s: %s: %s", c.fx, c.at, fmt.Sprintf(format, args...))
}

func (c *run) get(s slot, mask *fieldmaskpb.FieldMask) answer {
	msg, err := s.r.api.call(s.r.get, request(s.r.get, s.with(map[string]any{"read_mask": mask})))
	return answer{msg, err}
}

// look gets everything.
func (c *run) look() state {
	st := state{}
	for _, a := range c.apis {
		for _, r := range a.reads {
			for _, name := range names {
				for _, key := range c.keys[r] {
					s := slot{r, name, key}
					st[s] = c.get(s, nil)
				}
			}
		}
	}
	return st
}

func (c *run) quiet() { c.leak.Quiet(c.t, c.at) }

// slots in a fixed order.
func (c *run) slots(st state) (all, present []slot) {
	for s := range st {
		all = append(all, s)
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.r != b.r {
			return a.r.String() < b.r.String()
		}
		return a.String() < b.String()
	})
	for _, s := range all {
		if st[s].err == nil {
			present = append(present, s)
		}
	}
	return
}

// settle checks what the streams received when pre became post.
func (c *run) settle(pre, post state, strict bool) {
	c.t.Helper()
	for _, s := range c.streams {
		got, err := s.take()
		if pre[s.slot].err != nil || post[s.slot].err != nil {
			s.loose = true
		}
		for _, change := range got {
			name := change.Get(change.Descriptor().Fields().ByName("name")).String()
			if name != s.slot.name {
				c.failf("%s: got a change named %q: %s", s.txt, name, vkit.Text(change.Interface()))
			}
		}
		if s.loose {
			continue
		}
		if err != nil {
			c.failf("%s ended with %v", s.txt, err)
		}
		old, val := vkit.Project(pre[s.slot].msg, s.mask), vkit.Project(post[s.slot].msg, s.mask)
		var gotVals []proto.Message
		for _, change := range got {
			gotVals = append(gotVals, change.Get(s.slot.r.change).Message().Interface())
		}
		if strict {
			for _, v := range gotVals {
				if !vkit.Same(v, val) && !vkit.Same(v, old) {
					c.failf("%s: got %s, which is neither the value before, %s, nor after, %s", s.txt, vkit.Text(v), vkit.Text(old), vkit.Text(val))
				}
			}
		}
		changed := !within(old, val) && (s.last == nil || !within(s.last, val))
		switch {
		case changed && len(got) == 0:
			c.failf("%s: got nothing when the value changed from %s to %s", s.txt, vkit.Text(old), vkit.Text(val))
		case changed || len(got) > 0:
			last := gotVals[len(gotVals)-1]
			if !vkit.Same(last, val) && (changed || !within(last, val)) {
				c.failf("%s: the last change has %s, the value is %s", s.txt, vkit.Text(last), vkit.Text(val))
			}
			s.last = last
		}
		if changed {
			vkit.Class("event: %v %v", c.fx, s.slot.r.pull.name)
		}
	}
}

func (c *run) open(st state) {
	_, present := c.slots(st)
	if len(present) == 0 {
		return
	}
	s := &openStream{slot: vkit.Pick(c.t, present, "slot")}
	s.updatesOnly = rapid.IntRange(0, 3).Draw(c.t, "updates only") == 0
	if rapid.IntRange(0, 2).Draw(c.t, "masked") == 0 {
		s.mask = vkit.GenMaskNonEmpty(c.t, s.slot.r.value, st[s.slot].msg.ProtoReflect(), "read mask")
	}
	req := request(s.slot.r.pull, s.slot.with(map[string]any{"read_mask": s.mask, "updates_only": s.updatesOnly}))
	flags := req.ProtoReflect().Descriptor().Fields()
	for i := 0; i < flags.Len(); i++ { // what happens during tweens doesn't matter, there are none
		if fd := flags.Get(i); fd.Kind() == protoreflect.BoolKind && strings.HasPrefix(string(fd.Name()), "exclude_") && rapid.Bool().Draw(c.t, "exclude") {
			req.ProtoReflect().Set(fd, protoreflect.ValueOfBool(true))
		}
	}
	s.txt = fmt.Sprintf("%v(%s)", s.slot.r.pull.name, vkit.Text(req))
	c.step("open %s", s.txt)
	s.stream = s.slot.r.api.open(s.slot.r.pull, req)
	c.streams = append(c.streams, s)
	c.quiet()
	got, err := s.take()
	if err != nil {
		c.failf("ended with %v", err)
	}
	cur := vkit.Project(st[s.slot].msg, s.mask)
	if s.updatesOnly {
		if len(got) > 0 {
			c.failf("got %s without an update", vkit.Text(got[0].Interface()))
		}
		return
	}
	if len(got) != 1 {
		c.failf("got %d changes, want the current value %s", len(got), vkit.Text(cur))
	}
	name := got[0].Get(got[0].Descriptor().Fields().ByName("name")).String()
	if name != s.slot.name {
		c.failf("got a change named %q: %s", name, vkit.Text(got[0].Interface()))
	}
	val := got[0].Get(s.slot.r.change).Message().Interface()
	if want := seed(s.slot.r, st[s.slot].msg, s.mask); !vkit.Same(val, want) {
		c.failf("starts with %s, want %s", vkit.Text(val), vkit.Text(want))
	}
	s.last = val
	vkit.Class("seed: %v %v", c.fx, s.slot.r.pull.name)
}

// seed is what a new stream starts with.
func seed(r *register, cur proto.Message, mask *fieldmaskpb.FieldMask) proto.Message {
	cur = vkit.Copy(cur)
	if r.value.Name() == "EnterLeaveEvent" {
		// who entered isn't current, and documented to be absent
		m := cur.ProtoReflect()
		m.Clear(r.value.Fields().ByName("occupant"))
		m.Clear(r.value.Fields().ByName("direction"))
	}
	return vkit.Project(cur, mask)
}

// payload is the field of a write request with what is written.
func payload(md protoreflect.MessageDescriptor) protoreflect.FieldDescriptor {
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() && !strings.HasPrefix(string(fd.Message().FullName()), "google.protobuf") {
			return fd
		}
	}
	return nil
}

// genWrite draws a request.
func (c *run) genWrite(m *rpc, dm *drive.Method, st state, name string) proto.Message {
	t := c.t
	req := c.g.Request(t, dm)
	r := req.ProtoReflect()
	fields := r.Descriptor().Fields()
	r.Set(fields.ByName("name"), protoreflect.ValueOfString(name))
	_, present := c.slots(st)
	var of []slot // of the kind of value written
	for _, s := range present {
		if s.r == m.returns && s.name == name {
			of = append(of, s)
		}
	}
	pay := payload(r.Descriptor())
	if pay != nil && !r.Has(pay) {
		p := c.g.Msg.New(t, drive.MessageType(pay.Message().FullName()), "payload")
		r.Set(pay, protoreflect.ValueOfMessage(p.ProtoReflect()))
	}
	if pay != nil && m.returns != nil && pay.Message() == m.returns.value && len(of) > 0 && rapid.IntRange(0, 3).Draw(t, "like current") == 0 {
		// write something like the current value
		p := vkit.Copy(st[vkit.Pick(t, of, "current")].msg)
		if rapid.Bool().Draw(t, "nudged") {
			nudge(t, p.ProtoReflect())
		}
		r.Set(pay, protoreflect.ValueOfMessage(p.ProtoReflect()))
	}
	if len(of) > 0 {
		cur := st[vkit.Pick(t, of, "about")].msg.ProtoReflect()
		if fd := fields.ByName("version"); fd != nil && rapid.Bool().Draw(t, "current version") {
			r.Set(fd, cur.Get(cur.Descriptor().Fields().ByName("version")))
			if fd := fields.ByName("id"); fd != nil {
				r.Set(fd, cur.Get(cur.Descriptor().Fields().ByName("id")))
			}
		}
		// most writes are of values that exist
		if k := m.returns.valueKey; k != nil && pay != nil && pay.Message() == m.returns.value && !strings.HasPrefix(m.name, "Create") && rapid.IntRange(0, 3).Draw(t, "existing") > 0 {
			r.Mutable(pay).Message().Set(k, cur.Get(k))
		}
	}
	if m.name == "UpdateActiveMode" && rapid.IntRange(0, 3).Draw(t, "known") > 0 {
		p := r.Mutable(pay).Message()
		p.Set(pay.Message().Fields().ByName("id"), protoreflect.ValueOfString(vkit.Pick(t, []string{"a", "b"}, "mode")))
	}
	if fd := fields.ByName("update_mask"); fd != nil && pay != nil && rapid.IntRange(0, 12).Draw(t, "bad mask") == 0 {
		bad := &fieldmaskpb.FieldMask{Paths: []string{vkit.GenBadPath(t, pay.Message(), nil, "bad")}}
		r.Set(fd, protoreflect.ValueOfMessage(bad.ProtoReflect()))
	}
	calm(r)
	return req
}

// calm removes tweens, which keep changing values after the write.
func calm(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if strings.Contains(string(fd.Name()), "tween") {
			m.Clear(fd)
			return true
		}
		if fd.Message() == nil || fd.IsMap() {
			return true
		}
		if fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				calm(v.List().Get(i).Message())
			}
			return true
		}
		calm(v.Message())
		return true
	})
}

// nudge changes one number a little.
func nudge(t *rapid.T, m protoreflect.Message) {
	fields := m.Descriptor().Fields()
	var floats []protoreflect.FieldDescriptor
	for i := 0; i < fields.Len(); i++ {
		if fd := fields.Get(i); fd.Kind() == protoreflect.FloatKind && !fd.IsList() {
			floats = append(floats, fd)
		}
	}
	if len(floats) == 0 {
		return
	}
	fd := vkit.Pick(t, floats, "nudge")
	by := vkit.Pick(t, []float32{0.001, -0.001, 0.02, 0.5, -0.5, 3}, "by")
	m.Set(fd, protoreflect.ValueOfFloat32(float32(m.Get(fd).Float())+by))
}

func (c *run) write(st state) state {
	t := c.t
	var ws []*rpc
	apiOf := map[*rpc]*api{}
	for _, a := range c.apis {
		for _, w := range a.writes {
			ws = append(ws, w)
			if w.returns != nil && strings.HasPrefix(w.name, "Update") {
				ws = append(ws, w, w)
			}
			apiOf[w] = a
		}
	}
	regs, updates := 0, map[*register]bool{}
	for _, a := range c.apis {
		regs += len(a.reads)
	}
	for _, w := range ws {
		if w.returns != nil && strings.HasPrefix(w.name, "Update") {
			updates[w.returns] = true
		}
	}
	// values that can't be updated by rpc are updated by their model
	if len(ws) == 0 || rapid.IntRange(0, 5*regs-1).Draw(t, "direct") >= 1+5*len(updates) {
		return c.direct(st)
	}
	m := vkit.Pick(t, ws, "write")
	a := apiOf[m]
	name := vkit.Pick(t, names, "name")
	dm := c.method(m, name)
	req := c.genWrite(m, dm, st, name)
	c.step("%s(%s)", m.name, vkit.Text(req))
	resp, err := a.call(m, req)
	if status.Code(err) == codes.Unimplemented && m.returns != nil {
		if strings.HasPrefix(m.name, "Update") {
			c.failf("%v", err)
		}
		return st
	}
	if err != nil {
		post := c.look()
		for s, was := range st {
			if !was.same(post[s]) {
				c.failf("failed with %v, but %v is now %v, it was %v", err, s, post[s], was)
			}
		}
		c.quiet()
		c.settle(st, post, true)
		vkit.Class("rejected: %v %v %v", c.fx, m.name, status.Code(err))
		return post
	}
	r := m.returns
	removed := strings.HasPrefix(m.name, "Delete")
	key := ""
	if r != nil && r.valueKey != nil {
		key = resp.ProtoReflect().Get(r.valueKey).String()
		if fd := m.md.Input().Fields().ByName(r.key.Name()); removed && fd != nil {
			key = req.ProtoReflect().Get(fd).String() // there may have been nothing to remove
		}
		c.note(r, key)
		for _, n := range names { // absent until now
			if _, ok := st[slot{r, n, key}]; !ok {
				st[slot{r, n, key}] = answer{err: status.Error(codes.NotFound, "new")}
			}
		}
	}
	post := c.look()
	if r != nil {
		now, known := post[slot{r, name, key}]
		switch {
		case removed:
			if known && now.err == nil {
				c.failf("still there: %v", now)
			}
		case now.err != nil || !vkit.Same(now.msg, resp):
			c.failf("responded with %s, then %v is %v", vkit.Text(resp), slot{r, name, key}, now)
		}
	}
	for s, was := range st {
		if deviceOf(s.name) != deviceOf(name) && !was.same(post[s]) {
			c.failf("%v of another device is now %v, it was %v", s, post[s], was)
		}
	}
	c.quiet()
	// open close positions are a collection, updated one by one
	c.settle(st, post, r == nil || r.value.Name() != "OpenClosePositions")
	vkit.Class("ok: %v %v", c.fx, m.name)
	if len(c.streams) > 0 && r != nil {
		vkit.Nontrivial(c.fx + c.at + fmt.Sprint(len(c.streams)))
	}
	return post
}

// note remembers a key.
func (c *run) note(r *register, key string) {
	for _, k := range c.keys[r] {
		if k == key {
			return
		}
	}
	if key != "" {
		c.keys[r] = append(c.keys[r], key)
	}
}

// direct writes to the model.
func (c *run) direct(st state) state {
	t := c.t
	i := rapid.IntRange(0, 1).Draw(t, "device")
	ms, _ := drive.ModelMethods(c.devs[i].Model)
	var ws []*drive.Method
	for _, m := range ms {
		if !m.Read && !m.Stream {
			ws = append(ws, m)
			if strings.HasPrefix(m.Name, "Update") {
				ws = append(ws, m, m)
			}
		}
	}
	if len(ws) == 0 {
		return st
	}
	call := c.g.Draw(t, vkit.Pick(t, ws, "method"))
	for _, in := range call.In {
		calm(in.ProtoReflect())
	}
	c.step("model %d: %v", i, call)
	out, err, panicked := call.Do()
	_ = err
	if panicked != nil {
		vkit.Class("model panicked: %v %v", c.fx, call.Name)
	}
	for _, m := range out {
		for _, a := range c.apis {
			for _, r := range a.reads {
				if r.valueKey != nil && m.ProtoReflect().Descriptor() == r.value {
					key := m.ProtoReflect().Get(r.valueKey).String()
					c.note(r, key)
					for _, n := range names {
						if _, ok := st[slot{r, n, key}]; !ok && key != "" {
							st[slot{r, n, key}] = answer{err: status.Error(codes.NotFound, "new")}
						}
					}
				}
			}
		}
	}
	post := c.look()
	for s, was := range st {
		if deviceOf(s.name) != i && !was.same(post[s]) {
			c.failf("%v of another device is now %v, it was %v", s, post[s], was)
		}
	}
	c.quiet()
	c.settle(st, post, false)
	vkit.Class("model ok: %v %v", c.fx, call.Name)
	return post
}

// masked gets with a read mask.
func (c *run) masked(st state) {
	_, present := c.slots(st)
	if len(present) == 0 {
		return
	}
	s := vkit.Pick(c.t, present, "slot")
	mask := vkit.GenMaskNonEmpty(c.t, s.r.value, st[s].msg.ProtoReflect(), "read mask")
	if mask == nil {
		return
	}
	c.step("%v with %v", s, mask.Paths)
	got := c.get(s, mask)
	if want := vkit.Project(st[s].msg, mask); got.err != nil || !vkit.Same(got.msg, want) {
		c.failf("got %v, want %s (all: %v)", got, vkit.Text(want), st[s])
	}
	if vkit.Text(got.msg) != vkit.Text(st[s].msg) {
		vkit.Class("masked: %v %v", c.fx, s.r.get.name)
	}
}

// setup makes two devices and the stacks that lead to them.
func (c *run) setup(fx drive.Fixture) {
	c.devs = [2]drive.Device{fx.New(), fx.New()}
	if c.devs[0].Server == nil {
		return
	}
	for _, d := range c12.Services() {
		if !c12.Implements(d, c.devs[0].Server) {
			continue
		}
		a := newAPI(d, names, func(name string) any { return c.devs[deviceOf(name)].Server })
		kept := a.reads[:0]
		for _, r := range a.reads {
			if _, err := a.call(r.get, request(r.get, map[string]any{"name": "a"})); status.Code(err) == codes.Unimplemented {
				panic(fmt.Sprintf("%s: %v: %v", c.fx, r, err))
			}
			kept = append(kept, r)
			c.keys[r] = []string{""}
			if r.key != nil {
				c.keys[r] = []string{"a", "b", "c"}
			}
		}
		a.reads = kept
		if len(a.reads) > 0 {
			c.apis = append(c.apis, a)
		}
	}
}

// create adds values to devices that start without.
func (c *run) create() {
	t := c.t
	if !rapid.Bool().Draw(t, "create") {
		return
	}
	for _, a := range c.apis {
		for _, m := range a.writes {
			if strings.HasPrefix(m.name, "Create") && m.returns != nil && m.returns.key != nil {
				for _, name := range []string{"a", "c"} {
					dm := c.method(m, name)
					for i, n := 0, rapid.IntRange(0, 2).Draw(t, "entries"); i < n; i++ {
						req := c.genWrite(m, dm, nil, name)
						c.step("%s(%s)", m.name, vkit.Text(req))
						if resp, err := a.call(m, req); err == nil {
							c.note(m.returns, resp.ProtoReflect().Get(m.returns.valueKey).String())
						}
					}
				}
			}
		}
	}
	for i, d := range c.devs {
		switch m := d.Model.(type) {
		case *vendingpb.Model:
			id := vkit.Pick(t, []string{"a", "b", "c"}, "stock")
			st := c.g.Msg.New(t, (&traits.Consumable_Stock{}).ProtoReflect().Type(), "stock").(*traits.Consumable_Stock)
			st.Consumable = id
			c.step("model %d: CreateStock(%s)", i, vkit.Text(st))
			_, _ = m.CreateStock(st)
		case *metadatapb.Collection:
			for j, n := 0, rapid.IntRange(1, 2).Draw(t, "entries"); j < n; j++ {
				md := c.g.Msg.New(t, (&traits.Metadata{}).ProtoReflect().Type(), "metadata").(*traits.Metadata)
				name := vkit.Pick(t, names, "name")
				c.step("model %d: UpdateMetadata(%s, %s)", i, name, vkit.Text(md))
				_, _ = m.UpdateMetadata(name, md, resource.WithCreateIfAbsent())
			}
		}
	}
}

// method is the rpc of the server with the given name.
func (c *run) method(m *rpc, name string) *drive.Method {
	for _, d := range drive.ServerMethods(c.devs[deviceOf(name)].Server) {
		if d.Name == m.name && d.Req() == m.req {
			return d
		}
	}
	panic(m.name)
}

// mix spreads x, which rapid draws with a preference for small numbers.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func TestRegisters(t *testing.T) {
	fixtures := drive.Fixtures()
	for i := range fixtures {
		if fixtures[i].Name == "hail" { // without collecting those that arrived, which a Get would miss
			fixtures[i].New = func() drive.Device {
				m := hailpb.NewModel(hailpb.WithKeepAlive(-1))
				return drive.Device{Model: m, Server: hailpb.NewModelServer(m)}
			}
		}
	}
	if only := os.Getenv("VERIF_FIXTURE"); only != "" {
		kept := fixtures[:0]
		for _, f := range fixtures {
			if f.Name == only {
				kept = append(kept, f)
			}
		}
		fixtures = kept
	}
	kept := fixtures[:0]
	for _, f := range fixtures { // those that have a register
		c := &run{fx: f.Name, keys: map[*register][]string{}}
		if c.setup(f); len(c.apis) > 0 {
			kept = append(kept, f)
		}
	}
	if fixtures = kept; len(fixtures) == 0 {
		t.Fatal("no fixture has a register")
	}
	vkit.Check(t, vkit.N(6000, 100000), func(t *rapid.T) {
		fx := fixtures[mix(rapid.Uint64().Draw(t, "fixture"))%uint64(len(fixtures))]
		c := &run{t: t, fx: fx.Name, leak: vkit.LeakBaseline(), keys: map[*register][]string{}, g: drive.DefaultGen()}
		c.step("%s", fx.Name)
		c.setup(fx)
		defer func() {
			for _, s := range c.streams {
				s.cancel()
			}
			for _, s := range c.streams {
				<-s.done
			}
		}()
		c.create()
		st := c.look()
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "streams"); i < n; i++ {
			c.open(st)
		}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
			case k <= 4:
				st = c.write(st)
			case k == 5:
				st = c.direct(st)
			case k <= 7:
				if len(c.streams) < 3 {
					c.open(st)
				}
			case k == 8:
				if len(c.streams) > 0 {
					j := rapid.IntRange(0, len(c.streams)-1).Draw(t, "which")
					c.step("cancel %s", c.streams[j].txt)
					c.streams[j].cancel()
					<-c.streams[j].done
					c.streams = append(c.streams[:j:j], c.streams[j+1:]...)
				}
			}
			c.masked(st)
		}
	})
}
