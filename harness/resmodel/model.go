// Package resmodel is the sequential specification of resource.Value and resource.Collection: a register and an
// id-to-message map. It judges recorded calls, one at a time, without sharing any code with the implementation.
package resmodel

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

// Config is how a resource under test was built.
type Config struct {
	MT        protoreflect.MessageType
	Writable  *fieldmaskpb.FieldMask
	Intercept string // "", lower, prefix, const, soft-prefix
	RNG       string // "", zero, cycle, fail, short
	RNGSeed   int64
	Initial   map[string]proto.Message
	Value     proto.Message
}

// Map is the id interceptor.
func (c *Config) Map(id string) string {
	switch c.Intercept {
	case "lower":
		return strings.ToLower(id)
	case "prefix":
		return "p/" + id
	case "soft-prefix":
		if id == "" {
			return ""
		}
		return "p/" + id
	case "const":
		return "k"
	case "odd":
		// not idempotent and merges ids
		if id == "" {
			return ""
		}
		return strings.ToUpper(id[:1]) + strings.ToLower(id[1:]) + "#"
	}
	return id
}

type reader func(p []byte) (int, error)

func (r reader) Read(p []byte) (int, error) { return r(p) }

// Options are the resource options of c.
func (c *Config) Options() []resource.Option {
	var o []resource.Option
	if c.Writable != nil {
		o = append(o, resource.WithWritableFields(vkit.Copy(c.Writable)))
	}
	if c.Intercept != "" {
		o = append(o, resource.WithIDInterceptor(c.Map))
	}
	switch c.RNG {
	case "":
		o = append(o, resource.WithRNG(rand.New(rand.NewSource(c.RNGSeed))))
	case "zero":
		o = append(o, resource.WithRNG(reader(func(p []byte) (int, error) {
			for i := range p {
				p[i] = 0
			}
			return len(p), nil
		})))
	case "cycle":
		n := byte(0)
		o = append(o, resource.WithRNG(reader(func(p []byte) (int, error) {
			n = (n + 1) % 5
			for i := range p {
				p[i] = n
			}
			return len(p), nil
		})))
	case "fail":
		o = append(o, resource.WithRNG(reader(func(p []byte) (int, error) { return 0, errors.New("no entropy") })))
	case "short":
		r := rand.New(rand.NewSource(c.RNGSeed))
		o = append(o, resource.WithRNG(reader(func(p []byte) (int, error) { return r.Read(p[:1]) })))
	}
	ids := make([]string, 0, len(c.Initial))
	for id := range c.Initial {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		o = append(o, resource.WithInitialRecord(id, vkit.Copy(c.Initial[id])))
	}
	if c.Value != nil {
		o = append(o, resource.WithInitialValue(vkit.Copy(c.Value)))
	}
	return o
}

// degenerate reports whether id generation may run out of candidates.
func (c *Config) degenerate() bool { return c.RNG != "" || c.Intercept == "const" }

func (c *Config) String() string {
	s := fmt.Sprintf("%s writable=%s intercept=%q rng=%q value=%s", c.MT.Descriptor().Name(), vkit.MaskText(c.Writable), c.Intercept, c.RNG, text(c.Value))
	ids := []string{}
	for id, m := range c.Initial {
		ids = append(ids, fmt.Sprintf("%q:%s", id, text(m)))
	}
	sort.Strings(ids)
	return s + " initial=" + strings.Join(ids, ",")
}

func text(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	return vkit.Text(m)
}

// Check is a WithExpectedCheck.
type Check struct {
	Has  string        // passes when the value has this field, "!f" when it doesn't
	Same proto.Message // passes when the value equals this
	Err  error         // what a failure returns
}

func (c *Check) eval(old proto.Message) error {
	ok := true
	if c.Has != "" {
		name, neg := strings.CutPrefix(c.Has, "!")
		has := false
		if old != nil {
			has = hasField(old, name)
		}
		ok = has != neg
	}
	if c.Same != nil {
		ok = ok && old != nil && proto.Equal(old, c.Same)
	}
	if ok {
		return nil
	}
	return c.Err
}

func hasField(m proto.Message, name string) bool {
	fd := m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(name))
	return fd != nil && m.ProtoReflect().Has(fd)
}

// Edit is an interceptor: a function of the old and the new message.
type Edit struct {
	How   string // keep (new.f = old.f), clear (new.f cleared), add (new.f += old.f), inc (new.f = old.f + 1)
	Field string
}

func (e *Edit) apply(old, m proto.Message) {
	fd := m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(e.Field))
	if fd == nil {
		return
	}
	var ov protoreflect.Value
	oldHas := old != nil && old.ProtoReflect().Has(fd)
	if old != nil {
		ov = old.ProtoReflect().Get(fd)
	}
	p := m.ProtoReflect()
	switch e.How {
	case "keep":
		p.Clear(fd)
		if oldHas {
			src := vkit.Copy(old)
			p.Set(fd, src.ProtoReflect().Get(fd))
		}
	case "clear":
		p.Clear(fd)
	case "add", "inc":
		var o int64
		if old != nil {
			o = num(fd, ov)
		}
		n := int64(1)
		if e.How == "add" {
			n = num(fd, p.Get(fd))
		}
		switch fd.Kind() {
		case protoreflect.Int32Kind:
			p.Set(fd, protoreflect.ValueOfInt32(int32(o+n)))
		case protoreflect.Int64Kind:
			p.Set(fd, protoreflect.ValueOfInt64(o+n))
		}
	}
}

func num(fd protoreflect.FieldDescriptor, v protoreflect.Value) int64 {
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Int64Kind:
		if !fd.IsList() {
			return v.Int()
		}
	}
	return 0
}

// Op is one call.
type Op struct {
	Kind string // get list add update delete; read set for a Value
	ID   string
	Msg  proto.Message

	// write options
	Update, MoreUpdate, Reset *fieldmaskpb.FieldMask
	MoreWritable              *fieldmaskpb.FieldMask
	AllWritable               bool
	Expected                  proto.Message
	Check                     *Check
	ExpectAbsent              bool
	Create                    bool
	AllowMissing              bool
	GenID                     bool
	Before, After             *Edit
	Time                      *time.Time
	Bare                      bool // no recording callbacks beyond those asked for

	// read options
	ReadMask *fieldmaskpb.FieldMask
	Include  *Check // an item is included when the check passes
	IncludeN string // id prefix that is included

	// OnCheck, OnBefore, OnAfter run inside the callbacks (they force an interfering call into the window).
	OnCheck, OnBefore, OnAfter func()
	// Share hands masks and expected values over as they are, instead of copies.
	Share bool
}

func (o Op) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", o.Kind)
	if o.Kind != "list" && o.Kind != "set" && o.Kind != "read" {
		fmt.Fprintf(&b, " %q", o.ID)
	}
	if o.Msg != nil {
		fmt.Fprintf(&b, " %s", vkit.Text(o.Msg))
	}
	mask := func(n string, m *fieldmaskpb.FieldMask) {
		if m != nil {
			fmt.Fprintf(&b, " %s=%s", n, vkit.MaskText(m))
		}
	}
	flag := func(n string, v bool) {
		if v {
			fmt.Fprintf(&b, " %s", n)
		}
	}
	mask("update", o.Update)
	mask("more-update", o.MoreUpdate)
	mask("reset", o.Reset)
	mask("more-writable", o.MoreWritable)
	flag("all-writable", o.AllWritable)
	if o.Expected != nil {
		fmt.Fprintf(&b, " expected=%s", vkit.Text(o.Expected))
	}
	if o.Check != nil {
		fmt.Fprintf(&b, " check(has=%s same=%s err=%v)", o.Check.Has, text(o.Check.Same), o.Check.Err)
	}
	flag("expect-absent", o.ExpectAbsent)
	flag("create", o.Create)
	flag("allow-missing", o.AllowMissing)
	flag("gen-id", o.GenID)
	if o.Before != nil {
		fmt.Fprintf(&b, " before=%s(%s)", o.Before.How, o.Before.Field)
	}
	if o.After != nil {
		fmt.Fprintf(&b, " after=%s(%s)", o.After.How, o.After.Field)
	}
	flag("timed", o.Time != nil)
	mask("read-mask", o.ReadMask)
	if o.Include != nil {
		fmt.Fprintf(&b, " include(has=%s)", o.Include.Has)
	}
	if o.IncludeN != "" {
		fmt.Fprintf(&b, " include-prefix=%q", o.IncludeN)
	}
	return b.String()
}

// IncludeFunc is the predicate of o, nil when it has none.
func (o Op) IncludeFunc() resource.FilterFunc {
	if o.Include == nil && o.IncludeN == "" {
		return nil
	}
	return func(id string, m proto.Message) bool {
		return strings.HasPrefix(id, o.IncludeN) && (o.Include == nil || o.Include.eval(m) == nil)
	}
}

// Seen is the old message a callback was given.
type Seen struct {
	Where string
	Old   proto.Message
}

// Res is what a call did.
type Res struct {
	Msg     proto.Message
	OK      bool
	List    []proto.Message
	Err     error
	IDs     []string
	Created int
	Trace   []string // callbacks in order
	Seen    []Seen
	Merged  proto.Message // what InterceptAfter was handed
}

func (r Res) String() string {
	s := fmt.Sprintf("%s ok=%v err=%v ids=%q created=%d trace=%v", text(r.Msg), r.OK, r.Err, r.IDs, r.Created, r.Trace)
	for _, m := range r.List {
		s += " [" + text(m) + "]"
	}
	return s
}

func copyOf(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	return vkit.Copy(m)
}

// share is what a call is given of m.
func share[M proto.Message](o *Op, m M) M {
	if o.Share {
		return m
	}
	return vkit.Copy(m)
}

// ReadOptions are those of o.
func (o *Op) ReadOptions() []resource.ReadOption { return o.readOptions() }

// WriteOptions are those of o, what they see ends up in res.
func (o *Op) WriteOptions(res *Res) []resource.WriteOption { return o.writeOptions(res) }

func (o *Op) readOptions() []resource.ReadOption {
	var r []resource.ReadOption
	if o.ReadMask != nil {
		r = append(r, resource.WithReadMask(share(o, o.ReadMask)))
	}
	if f := o.IncludeFunc(); f != nil {
		r = append(r, resource.WithInclude(f))
	}
	return r
}

func (o *Op) writeOptions(res *Res) []resource.WriteOption {
	var w []resource.WriteOption
	if o.Update != nil {
		w = append(w, resource.WithUpdateMask(share(o, o.Update)))
	}
	if o.MoreUpdate != nil {
		w = append(w, resource.WithMoreUpdateMask(share(o, o.MoreUpdate)))
	}
	if o.Reset != nil {
		w = append(w, resource.WithResetMask(share(o, o.Reset)))
	}
	if o.MoreWritable != nil {
		w = append(w, resource.WithMoreWritableFields(share(o, o.MoreWritable)))
	}
	if o.AllWritable {
		w = append(w, resource.WithAllFieldsWritable())
	}
	if o.Expected != nil {
		w = append(w, resource.WithExpectedValue(share(o, o.Expected)))
	}
	if o.Check != nil || o.OnCheck != nil || !o.Bare {
		w = append(w, resource.WithExpectedCheck(func(old proto.Message) error {
			res.Trace = append(res.Trace, "check")
			res.Seen = append(res.Seen, Seen{"expected check", copyOf(old)})
			if o.OnCheck != nil {
				o.OnCheck()
			}
			if o.Check == nil {
				return nil
			}
			return o.Check.eval(old)
		}))
	}
	if o.ExpectAbsent {
		w = append(w, resource.WithExpectAbsent())
	}
	if o.Create {
		w = append(w, resource.WithCreateIfAbsent())
	}
	if o.AllowMissing {
		w = append(w, resource.WithAllowMissing(true))
	}
	if o.GenID {
		w = append(w, resource.WithGenIDIfAbsent())
	}
	if o.GenID || !o.Bare {
		w = append(w, resource.WithIDCallback(func(id string) {
			res.Trace = append(res.Trace, "id")
			res.IDs = append(res.IDs, id)
		}))
		w = append(w, resource.WithCreatedCallback(func() {
			res.Trace = append(res.Trace, "created")
			res.Created++
		}))
	}
	if o.Before != nil || o.OnBefore != nil || !o.Bare {
		w = append(w, resource.InterceptBefore(func(old, m proto.Message) {
			res.Trace = append(res.Trace, "before")
			res.Seen = append(res.Seen, Seen{"before interceptor", copyOf(old)})
			if o.OnBefore != nil {
				o.OnBefore()
			}
			if o.Before != nil {
				o.Before.apply(old, m)
			}
		}))
	}
	if o.After != nil || o.OnAfter != nil || !o.Bare {
		w = append(w, resource.InterceptAfter(func(old, m proto.Message) {
			res.Trace = append(res.Trace, "after")
			res.Seen = append(res.Seen, Seen{"after interceptor", copyOf(old)})
			res.Merged = copyOf(m)
			if o.OnAfter != nil {
				o.OnAfter()
			}
			if o.After != nil {
				o.After.apply(old, m)
			}
		}))
	}
	if o.Time != nil {
		w = append(w, resource.WithWriteTime(*o.Time))
	}
	return w
}

// RunCollection makes the call.
func RunCollection(c *resource.Collection, o Op) Res {
	var res Res
	switch o.Kind {
	case "get":
		res.Msg, res.OK = c.Get(o.ID, o.readOptions()...)
	case "list":
		res.List = c.List(o.readOptions()...)
	case "add":
		res.Msg, res.Err = c.Add(o.ID, vkit.Copy(o.Msg), o.writeOptions(&res)...)
	case "update":
		res.Msg, res.Err = c.Update(o.ID, vkit.Copy(o.Msg), o.writeOptions(&res)...)
	case "delete":
		res.Msg, res.Err = c.Delete(o.ID, o.writeOptions(&res)...)
	default:
		panic(o.Kind)
	}
	res.freeze()
	return res
}

// RunValue makes the call.
func RunValue(v *resource.Value, o Op) Res {
	var res Res
	switch o.Kind {
	case "read":
		res.Msg = v.Get(o.readOptions()...)
		res.OK = true
	case "set":
		res.Msg, res.Err = v.Set(vkit.Copy(o.Msg), o.writeOptions(&res)...)
	default:
		panic(o.Kind)
	}
	res.freeze()
	return res
}

func (r *Res) freeze() {
	r.Msg = copyOf(r.Msg)
	for i := range r.List {
		r.List[i] = copyOf(r.List[i])
	}
}

// State is what the resource holds: for a Value the item at "".
type State struct {
	Items map[string]proto.Message
}

// NewState is the state a resource of this config starts in.
func NewState(c *Config, collection bool) State {
	s := State{Items: map[string]proto.Message{}}
	if !collection {
		s.Items[""] = c.Value
		return s
	}
	for id, m := range c.Initial {
		s.Items[id] = m
	}
	return s
}

func (s State) with(key string, m proto.Message) State {
	n := State{Items: make(map[string]proto.Message, len(s.Items)+1)}
	for k, v := range s.Items {
		n.Items[k] = v
	}
	n.Items[key] = m
	return n
}

func (s State) without(key string) State {
	n := State{Items: make(map[string]proto.Message, len(s.Items))}
	for k, v := range s.Items {
		if k != key {
			n.Items[k] = v
		}
	}
	return n
}

// Keys are the sorted ids.
func (s State) Keys() []string {
	ks := make([]string, 0, len(s.Items))
	for k := range s.Items {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s State) String() string {
	var b strings.Builder
	for _, k := range s.Keys() {
		fmt.Fprintf(&b, "%q=%s;", k, text(s.Items[k]))
	}
	return b.String()
}

// Effect is what a call committed: nothing, a put or a removal.
type Effect struct {
	Key      string
	Old, New proto.Message // Old nil: created; New nil: removed
}

// View is the projection of m by mask.
func View(m proto.Message, mask *fieldmaskpb.FieldMask) proto.Message {
	if m == nil {
		return nil
	}
	return vkit.Project(m, mask)
}

// SameView compares a message read with mask with the projection of what is stored.
func SameView(stored, got proto.Message, mask *fieldmaskpb.FieldMask) bool {
	if stored == nil || got == nil {
		return stored == nil && got == nil
	}
	want := View(stored, mask)
	if mask != nil && len(mask.Paths) > 0 {
		tree := []*vkit.PathTree{vkit.MaskTree(mask)}
		return proto.Equal(vkit.SimplifyAll(want, tree), vkit.SimplifyAll(got, tree))
	}
	return proto.Equal(want, got)
}

// Step judges a call made in state s. eff is nil when nothing was written.
func (c *Config) Step(s State, o Op, r Res) (next State, eff *Effect, err error) {
	switch o.Kind {
	case "get", "read":
		return s, nil, c.stepGet(s, o, r)
	case "list":
		return s, nil, c.stepList(s, o, r)
	case "delete":
		return c.stepDelete(s, o, r)
	}
	return c.stepWrite(s, o, r)
}

func (c *Config) stepGet(s State, o Op, r Res) error {
	if !r.OK && r.Msg != nil {
		return fmt.Errorf("Get returned a message and false")
	}
	key := c.Map(o.ID)
	if o.Kind == "read" {
		key = "" // Value
	}
	m, ok := s.Items[key]
	if ok != r.OK {
		return fmt.Errorf("Get found=%v, want %v", r.OK, ok)
	}
	if !SameView(m, r.Msg, o.ReadMask) {
		return fmt.Errorf("Get returned %s, want %s", text(r.Msg), text(View(m, o.ReadMask)))
	}
	return nil
}

func (c *Config) stepList(s State, o Op, r Res) error {
	include := o.IncludeFunc()
	i := 0
	for _, k := range s.Keys() {
		if include != nil && !include(k, s.Items[k]) {
			continue
		}
		if i >= len(r.List) {
			return fmt.Errorf("List has %d items, %q is missing", len(r.List), k)
		}
		if !SameView(s.Items[k], r.List[i], o.ReadMask) {
			return fmt.Errorf("List[%d] is %s, want %q: %s", i, text(r.List[i]), k, text(View(s.Items[k], o.ReadMask)))
		}
		i++
	}
	if i != len(r.List) {
		return fmt.Errorf("List has %d items, want %d", len(r.List), i)
	}
	return nil
}

// fails says whether err is one the call may return: the code, and the identity of an error of the caller's.
func fails(err error, want ...error) bool {
	for _, w := range want {
		if errors.Is(err, w) {
			return true
		}
		if ws, ok := status.FromError(w); ok && status.Code(err) == ws.Code() {
			return true
		}
	}
	return false
}

var (
	errExists   = status.Error(codes.AlreadyExists, "already exists")
	errNotFound = status.Error(codes.NotFound, "not found")
	errExpected = status.Error(codes.FailedPrecondition, "not as expected")
)

func seen(r Res, old proto.Message, nilIsEmpty bool) error {
	for _, s := range r.Seen {
		if s.Old == nil && old == nil {
			continue
		}
		if s.Old == nil || old == nil || !proto.Equal(s.Old, old) {
			return fmt.Errorf("%s was given %s as the old value, it is %s", s.Where, text(s.Old), text(old))
		}
	}
	return nil
}

func count(r Res, what string) int {
	n := 0
	for _, x := range r.Trace {
		if x == what {
			n++
		}
	}
	return n
}

func (c *Config) stepDelete(s State, o Op, r Res) (State, *Effect, error) {
	key := c.Map(o.ID)
	old, ok := s.Items[key]
	if !ok {
		if o.AllowMissing {
			if r.Err != nil || r.Msg != nil {
				return s, nil, fmt.Errorf("Delete of an absent item with allow-missing returned %s, %v", text(r.Msg), r.Err)
			}
			return s, nil, nil
		}
		if !fails(r.Err, errNotFound) {
			return s, nil, fmt.Errorf("Delete of an absent item returned error %v, want NotFound", r.Err)
		}
		return s, nil, nil
	}
	var want []error
	if o.Check != nil {
		if e := o.Check.eval(old); e != nil {
			want = append(want, e)
		}
	}
	if o.Expected != nil && !proto.Equal(o.Expected, old) {
		want = append(want, errExpected)
	}
	if len(r.Seen) > 1 {
		r.Seen = r.Seen[len(r.Seen)-1:] // the call tried again
	}
	if err := seen(r, old, false); err != nil {
		return s, nil, err
	}
	if len(want) > 0 {
		if !fails(r.Err, want...) {
			return s, nil, fmt.Errorf("Delete returned error %v, want %v", r.Err, want)
		}
		return s, nil, nil
	}
	if r.Err != nil {
		return s, nil, fmt.Errorf("Delete failed: %v", r.Err)
	}
	if r.Msg == nil || !proto.Equal(r.Msg, old) {
		return s, nil, fmt.Errorf("Delete returned %s, want the removed %s", text(r.Msg), text(old))
	}
	return s.without(key), &Effect{Key: key, Old: old}, nil
}

// writable is the effective writable mask; nil is everything.
func (c *Config) writable(o Op) *fieldmaskpb.FieldMask {
	if c.Writable == nil || o.AllWritable {
		return nil
	}
	w := &fieldmaskpb.FieldMask{Paths: append([]string{}, c.Writable.Paths...)}
	w.Paths = append(w.Paths, o.MoreWritable.GetPaths()...)
	return w
}

func (o Op) updateMask() *fieldmaskpb.FieldMask {
	if o.Update == nil || o.MoreUpdate == nil {
		return o.Update
	}
	return &fieldmaskpb.FieldMask{Paths: append(append([]string{}, o.Update.Paths...), o.MoreUpdate.Paths...)}
}

// maskVerdict: must the masks be accepted (0), rejected (1), or is it open (2)?
func (c *Config) maskVerdict(o Op) int {
	d := c.MT.Descriptor()
	u := o.updateMask()
	if !vkit.ValidMask(d, u) || !vkit.ValidMask(d, o.Reset) {
		return 1
	}
	w := c.writable(o)
	if u == nil || w == nil {
		return 0
	}
	wt := vkit.MaskTree(w)
	v := 0
	for _, p := range u.Paths {
		pt := vkit.Tree([]string{p})
		if wt.Covers(pt) {
			continue
		}
		if pt.Intersect(wt).Empty() {
			return 1
		}
		v = 2
	}
	return v
}

func (c *Config) stepWrite(s State, o Op, r Res) (State, *Effect, error) {
	bad := func(format string, args ...any) (State, *Effect, error) {
		return s, nil, fmt.Errorf(format, args...)
	}
	if o.Kind == "add" {
		o.ExpectAbsent, o.Create = true, true
	}
	value := o.Kind == "set"

	switch c.maskVerdict(o) {
	case 1:
		if r.Err == nil {
			return bad("a write with an invalid mask succeeded")
		}
		if vkit.ValidMask(c.MT.Descriptor(), o.Reset) && status.Code(r.Err) != codes.InvalidArgument {
			return bad("a write with an invalid update mask returned %v", r.Err)
		}
		return s, nil, nil
	case 2:
		if status.Code(r.Err) == codes.InvalidArgument {
			return s, nil, nil
		}
	}

	key := ""
	gen := false
	if !value {
		key = c.Map(o.ID)
		if o.GenID {
			if key == "" {
				gen = true
			} else if o.ID == "" {
				gen = len(r.IDs) > 0 // whether an empty id that is mapped to something is absent isn't specified
			}
		}
	}
	if len(r.IDs) > 1 {
		return bad("the id callback was called %d times: %q", len(r.IDs), r.IDs)
	}
	if !gen && len(r.IDs) > 0 {
		return bad("the id callback was called with %q, no id was generated", r.IDs)
	}
	var pre proto.Message
	present := false
	if gen {
		if o.Create && status.Code(r.Err) == codes.Aborted && c.degenerate() && len(s.Items) > 0 {
			return s, nil, nil // ran out of candidates
		}
		if status.Code(r.Err) == codes.Aborted && c.degenerate() && len(s.Items) > 0 {
			return s, nil, nil
		}
		if len(r.IDs) == 1 {
			if r.IDs[0] == "" {
				return bad("generated an empty id")
			}
			key = c.Map(r.IDs[0])
			if _, ok := s.Items[key]; ok {
				return bad("generated id %q (stored as %q) is in use", r.IDs[0], key)
			}
		}
	} else {
		pre, present = s.Items[key]
	}

	if present && !value && o.ExpectAbsent {
		if !fails(r.Err, errExists) {
			return bad("writing an existing item with expect-absent returned error %v, want AlreadyExists", r.Err)
		}
		return s, nil, nil
	}
	if !present && !o.Create {
		if !fails(r.Err, errNotFound) {
			return bad("writing an absent item returned error %v, want NotFound", r.Err)
		}
		return s, nil, nil
	}
	created := !present
	base := pre // what the write starts from
	old := pre  // what callbacks are given
	if created {
		base = c.MT.New().Interface()
		old = base
	} else if pre == nil {
		base = c.MT.New().Interface() // a Value without initial value
	}
	if err := seen(r, old, created); err != nil {
		return bad("%v", err)
	}
	var want []error
	if o.Expected != nil && !(old != nil && proto.Equal(o.Expected, old)) {
		want = append(want, errExpected)
	}
	if o.Check != nil {
		if e := o.Check.eval(old); e != nil {
			want = append(want, e)
		}
	}
	if len(want) > 0 {
		if !fails(r.Err, want...) {
			return bad("the write returned error %v, want %v", r.Err, want)
		}
		if count(r, "before")+count(r, "after") > 0 {
			return bad("interceptors ran though a precondition failed: %v", r.Trace)
		}
		if r.Created > 0 {
			return bad("the created callback was called though a precondition failed")
		}
		return s, nil, nil
	}
	if r.Err != nil {
		return bad("the write failed: %v", r.Err)
	}
	if gen && len(r.IDs) != 1 {
		return bad("the id callback was called %d times", len(r.IDs))
	}
	if !o.Bare {
		for _, cb := range []string{"check", "before", "after"} {
			if n := count(r, cb); n != 1 {
				return bad("%s callback ran %d times: %v", cb, n, r.Trace)
			}
		}
		last := ""
		for _, x := range r.Trace {
			if x == "check" && last != "" || x == "before" && last != "check" || x == "after" && last != "before" {
				return bad("callbacks ran out of order: %v", r.Trace)
			}
			if x == "check" || x == "before" || x == "after" {
				last = x
			}
		}
	}
	if o.GenID || !o.Bare {
		n := 0
		if created {
			n = 1
		}
		if r.Created != n && !value {
			return bad("the created callback was called %d times, want %d", r.Created, n)
		}
	}

	src := vkit.Copy(o.Msg)
	if o.Before != nil {
		o.Before.apply(old, src)
	}
	merged := r.Merged
	if merged == nil {
		if r.Msg == nil {
			return bad("a successful write returned no message")
		}
		merged = r.Msg
	}
	m, w := o.updateMask(), c.writable(o)
	if ok, wantMsg := vkit.MergeAccepts(base, src, merged, m, w, o.Reset); !ok {
		if !(o.Reset != nil && m != nil && len(m.Paths) == 0 && proto.Equal(merged, base)) {
			return bad("the write of %s over %s left %s, want %s", text(src), text(base), text(merged), text(wantMsg))
		}
	}
	post := vkit.Copy(merged)
	if o.After != nil {
		o.After.apply(old, post)
	}
	if r.Msg == nil || !proto.Equal(post, r.Msg) {
		return bad("the write returned %s, want %s", text(r.Msg), text(post))
	}
	eff := &Effect{Key: key, New: post}
	if !created {
		eff.Old = pre
	}
	return s.with(key, post), eff, nil
}
