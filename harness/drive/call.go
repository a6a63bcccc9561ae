package drive

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
)

var (
	msgType    = reflect.TypeOf((*proto.Message)(nil)).Elem()
	ctxType    = reflect.TypeOf((*context.Context)(nil)).Elem()
	errType    = reflect.TypeOf((*error)(nil)).Elem()
	readType   = reflect.TypeOf((*resource.ReadOption)(nil)).Elem()
	writeType  = reflect.TypeOf((*resource.WriteOption)(nil)).Elem()
	timeType   = reflect.TypeOf(time.Time{})
	stampsType = reflect.TypeOf((*timestamppb.Timestamp)(nil))
)

// Method is one public way into a device.
type Method struct {
	Name   string
	Read   bool // by its name only reads
	Stream bool

	fn     reflect.Value // model method
	desc   *grpc.MethodDesc
	stream *grpc.StreamDesc
	srv    any
	req    protoreflect.MessageType
	resp   protoreflect.MessageType
}

// Everything else is taken to write.
var readPrefixes = []string{"Get", "List", "Pull", "Describe", "Has", "Find", "Is"}

var readNames = map[string]bool{"ActiveMode": true, "AvailableValues": true, "Demand": true, "FanSpeed": true,
	"ModeValues": true, "Modes": true, "NormalMode": true}

func isRead(name string) bool {
	if readNames[name] {
		return true
	}
	for _, p := range readPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var skipped = map[string]bool{"Register": true, "Unwrap": true, "DeriveValues": true}

// ModelMethods lists the exported methods of a model whose arguments can be generated, and those left out.
func ModelMethods(m any) (ms []*Method, left []string) {
	if m == nil {
		return nil, nil
	}
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumMethod(); i++ {
		name := v.Type().Method(i).Name
		if skipped[name] {
			continue
		}
		ft := v.Method(i).Type()
		ok := true
		for k := 0; k < ft.NumIn(); k++ {
			in := ft.In(k)
			if ft.IsVariadic() && k == ft.NumIn()-1 {
				in = in.Elem()
			}
			if !canGen(in) {
				ok = false
			}
		}
		if !ok {
			left = append(left, name)
			continue
		}
		meth := &Method{Name: name, Read: isRead(name), fn: v.Method(i)}
		if ft.NumOut() == 1 && ft.Out(0).Kind() == reflect.Chan {
			meth.Stream = true
		}
		ms = append(ms, meth)
	}
	return ms, left
}

func canGen(t reflect.Type) bool {
	switch {
	case t.Implements(msgType), t == ctxType, t == readType, t == writeType, t == timeType:
		return true
	}
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Int32, reflect.Int64, reflect.Float32, reflect.Float64, reflect.Bool:
		return true
	}
	return false
}

// ServerMethods lists the rpcs of a server.
func ServerMethods(srv any) (ms []*Method) {
	if srv == nil {
		return nil
	}
	t := reflect.TypeOf(srv)
	for _, d := range Descs {
		if !t.Implements(reflect.TypeOf(d.HandlerType).Elem()) {
			continue
		}
		for i := range d.Methods {
			m := &Method{Name: d.Methods[i].MethodName, desc: &d.Methods[i], srv: srv}
			m.Read = isRead(m.Name)
			m.types(d.ServiceName)
			ms = append(ms, m)
		}
		for i := range d.Streams {
			if d.Streams[i].ClientStreams {
				continue
			}
			m := &Method{Name: d.Streams[i].StreamName, stream: &d.Streams[i], srv: srv, Stream: true}
			m.Read = isRead(m.Name)
			m.types(d.ServiceName)
			ms = append(ms, m)
		}
	}
	return ms
}

func (m *Method) types(service string) {
	md := MethodDescriptor(service, m.Name)
	m.req, m.resp = MessageType(md.Input().FullName()), MessageType(md.Output().FullName())
}

// Req is the request type of a server method.
func (m *Method) Req() protoreflect.MessageType { return m.req }

// Resp is the response type of a server method.
func (m *Method) Resp() protoreflect.MessageType { return m.resp }

// Stream is a running subscription.
type Stream struct {
	Name   string
	Cancel context.CancelFunc
	Done   chan struct{}

	mu        sync.Mutex
	msgs      []proto.Message
	n         int
	err       error
	OnMessage func(proto.Message) // called from the receiving goroutine
}

// Take returns the messages received since the last call.
func (s *Stream) Take() []proto.Message {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := s.msgs
	s.msgs = nil
	return out
}

// Err is how it ended.
func (s *Stream) Err() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err
}

func (s *Stream) add(ms ...proto.Message) {
	s.mu.Lock()
	f := s.OnMessage
	s.msgs = append(s.msgs, ms...)
	s.n++
	s.mu.Unlock()
	if f != nil {
		for _, m := range ms {
			f(m)
		}
	}
}

// Count is the number of events received so far.
func (s *Stream) Count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

// Call is a method with its arguments.
type Call struct {
	*Method
	In  []proto.Message
	Req proto.Message // of a server method
	txt string
	do  func() ([]proto.Message, error)
	run func(ctx context.Context, s *Stream) // stream: blocks until it is over
}

func (c *Call) String() string { return c.txt }

// Do makes a unary call. A panic comes back as panicked.
func (c *Call) Do() (out []proto.Message, err error, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	out, err = c.do()
	return
}

// Run runs a stream until it is over, which is when ctx is done or sooner. A panic is returned.
func (c *Call) Run(ctx context.Context, each func(...proto.Message)) (panicked any) {
	defer func() { panicked = recover() }()
	c.run(ctx, &Stream{Name: c.txt, OnMessage: func(m proto.Message) { each(m) }})
	return nil
}

// Start starts a stream.
func (c *Call) Start() *Stream {
	ctx, cancel := context.WithCancel(context.Background())
	s := &Stream{Name: c.txt, Cancel: cancel, Done: make(chan struct{})}
	go func() {
		defer close(s.Done)
		defer cancel()
		defer func() {
			if r := recover(); r != nil {
				s.mu.Lock()
				s.err = fmt.Errorf("panic: %v", r)
				s.mu.Unlock()
			}
		}()
		c.run(ctx, s)
	}()
	return s
}

// Gen draws arguments.
type Gen struct {
	Names []string // pool for ids and names
	Msg   vkit.MsgGen
	// Tweak may adjust a generated message.
	Tweak func(t *rapid.T, m *Method, msg proto.Message)
	// Write may draw another write option, nil for none.
	Write func(t *rapid.T) (resource.WriteOption, string)
	// Options may give a slice of read or write options that is handed over as it is, an invalid one if not.
	Options func(t *rapid.T, slice reflect.Type, about protoreflect.MessageDescriptor) (reflect.Value, string)
	// NoMasks leaves all masks out.
	NoMasks bool
}

// DefaultGen is a generator with a small pool of names.
func DefaultGen() *Gen {
	g := &Gen{Names: []string{"a", "b", "c"}}
	g.Msg = vkit.MsgGen{MaxFields: 4, MaxDepth: 3, MaxLen: 3}
	g.Msg.Override = g.override
	return g
}

func (g *Gen) name(t *rapid.T, label string) string {
	i := rapid.IntRange(0, 9).Draw(t, label)
	if i < 8 {
		return g.Names[i%len(g.Names)]
	}
	if i == 8 {
		return ""
	}
	return "zz"
}

func (g *Gen) override(t *rapid.T, fd protoreflect.FieldDescriptor) (protoreflect.Value, bool) {
	switch fd.Kind() {
	case protoreflect.StringKind:
		switch fd.Name() {
		case "page_token":
			return protoreflect.ValueOfString(""), true
		}
		return protoreflect.ValueOfString(g.name(t, string(fd.Name()))), true
	case protoreflect.Int32Kind:
		switch fd.Name() {
		case "page_size":
			return protoreflect.ValueOfInt32(int32(rapid.IntRange(0, 3).Draw(t, "page_size"))), true
		}
		return protoreflect.ValueOfInt32(int32(rapid.IntRange(-2, 5).Draw(t, string(fd.Name())))), true
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(rapid.IntRange(0, 12).Draw(t, string(fd.Name())) * 10)), true
	}
	return protoreflect.Value{}, false
}

func (g *Gen) msg(t *rapid.T, m *Method, mt protoreflect.MessageType, label string) proto.Message {
	msg := g.Msg.New(t, mt, label)
	r := msg.ProtoReflect()
	// ids and names are set more often than not
	for i := 0; i < r.Descriptor().Fields().Len(); i++ {
		fd := r.Descriptor().Fields().Get(i)
		switch fd.Name() {
		case "id", "name", "consumable", "version":
			if fd.Kind() == protoreflect.StringKind && fd.Cardinality() != protoreflect.Repeated && rapid.IntRange(0, 3).Draw(t, label+"."+string(fd.Name())+"?") > 0 {
				r.Set(fd, protoreflect.ValueOfString(g.name(t, label+"."+string(fd.Name()))))
			}
		}
	}
	if g.Tweak != nil {
		g.Tweak(t, m, msg)
	}
	return msg
}

// ResourceType guesses what a request's masks are about: the type of the payload of a write, or of what a read
// returns.
func ResourceType(md protoreflect.MessageDescriptor, response bool) protoreflect.MessageDescriptor {
	if !response {
		for i := 0; i < md.Fields().Len(); i++ {
			fd := md.Fields().Get(i)
			if fd.Message() != nil && !fd.IsList() && !fd.IsMap() && !strings.HasPrefix(string(fd.Message().FullName()), "google.protobuf") {
				return fd.Message()
			}
		}
		return nil
	}
	changes := md.Fields().ByName("changes")
	if changes != nil && changes.Message() != nil {
		cmd := changes.Message()
		if fd := cmd.Fields().ByName("new_value"); fd != nil && fd.Message() != nil {
			return fd.Message()
		}
		for i := 0; i < cmd.Fields().Len(); i++ {
			fd := cmd.Fields().Get(i)
			if fd.Message() != nil && fd.Message().FullName() != "google.protobuf.Timestamp" {
				return fd.Message()
			}
		}
		return nil
	}
	if strings.HasPrefix(string(md.Name()), "List") {
		for i := 0; i < md.Fields().Len(); i++ {
			fd := md.Fields().Get(i)
			if fd.IsList() && fd.Message() != nil {
				return fd.Message()
			}
		}
		return nil
	}
	return md
}

// Request draws a request for a server method.
func (g *Gen) Request(t *rapid.T, m *Method) proto.Message {
	req := g.msg(t, m, m.req, m.Name)
	r := req.ProtoReflect()
	fields := r.Descriptor().Fields()
	for i := 0; i < fields.Len(); i++ {
		fd := fields.Get(i)
		if fd.Message() == nil || fd.IsList() || fd.IsMap() {
			continue
		}
		if fd.Message().FullName() == "google.protobuf.FieldMask" {
			r.Clear(fd)
			if g.NoMasks || rapid.IntRange(0, 2).Draw(t, "mask") > 0 {
				continue
			}
			var about protoreflect.MessageDescriptor
			if fd.Name() == "read_mask" {
				about = ResourceType(m.resp.Descriptor(), true)
			} else {
				about = ResourceType(r.Descriptor(), false)
			}
			if about == nil || about.Fields().Len() == 0 {
				continue
			}
			if mask := vkit.GenMaskNonEmpty(t, about, nil, "mask"); mask != nil {
				r.Set(fd, protoreflect.ValueOfMessage(mask.ProtoReflect()))
			}
			continue
		}
		// the payload of a write is nearly always there
		if !m.Read && !r.Has(fd) && !strings.HasPrefix(string(fd.Message().FullName()), "google.protobuf") {
			if rapid.IntRange(0, 7).Draw(t, "payload") > 0 {
				p := g.msg(t, m, MessageType(fd.Message().FullName()), string(fd.Name()))
				r.Set(fd, protoreflect.ValueOfMessage(p.ProtoReflect()))
			}
		}
	}
	return req
}

// Draw draws a call of m.
func (g *Gen) Draw(t *rapid.T, m *Method) *Call {
	if m.req != nil {
		return m.WithRequest(g.Request(t, m))
	}
	return g.modelCall(t, m)
}

// WithRequest is the call of a server method with the given request.
func (m *Method) WithRequest(req proto.Message) *Call {
	c := &Call{Method: m, In: []proto.Message{req}, Req: req}
	c.txt = fmt.Sprintf("server.%s(%s)", m.Name, vkit.Text(req))
	if m.desc != nil {
		c.do = func() ([]proto.Message, error) {
			resp, err := m.desc.Handler(m.srv, context.Background(), func(dst any) error {
				// the server gets the caller's own message, as it does in process
				reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(req).Elem())
				return nil
			}, nil)
			if pm, ok := resp.(proto.Message); ok && !isNil(pm) {
				return []proto.Message{pm}, err
			}
			return nil, err
		}
		return c
	}
	c.run = func(ctx context.Context, s *Stream) {
		err := m.stream.Handler(m.srv, &serverStream{ctx: ctx, req: req, s: s})
		s.mu.Lock()
		s.err = err
		s.mu.Unlock()
	}
	return c
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Ptr && r.IsNil()
}

type serverStream struct {
	ctx context.Context
	req proto.Message
	got bool
	s   *Stream
}

func (s *serverStream) SetHeader(metadata.MD) error  { return nil }
func (s *serverStream) SendHeader(metadata.MD) error { return nil }
func (s *serverStream) SetTrailer(metadata.MD)       {}
func (s *serverStream) Context() context.Context     { return s.ctx }
func (s *serverStream) SendMsg(m any) error {
	if s.ctx.Err() != nil {
		return s.ctx.Err()
	}
	s.s.add(m.(proto.Message))
	return nil
}
func (s *serverStream) RecvMsg(m any) error {
	if s.got {
		return io.EOF
	}
	s.got = true
	proto.Merge(m.(proto.Message), s.req)
	return nil
}

func (g *Gen) modelCall(t *rapid.T, m *Method) *Call {
	c := &Call{Method: m}
	ft := m.fn.Type()
	var about protoreflect.MessageDescriptor
	for i := 0; i < ft.NumIn(); i++ {
		if ft.In(i).Implements(msgType) && ft.In(i) != stampsType {
			about = reflect.Zero(ft.In(i)).Interface().(proto.Message).ProtoReflect().Descriptor()
		}
	}
	if about == nil {
		about = resultType(ft)
	}
	var args []reflect.Value
	var txt []string
	ctxAt := -1
	call := m.fn.Call
	for i := 0; i < ft.NumIn(); i++ {
		in := ft.In(i)
		if ft.IsVariadic() && i == ft.NumIn()-1 {
			if g.Options != nil && (in.Elem() == readType || in.Elem() == writeType) {
				if v, s := g.Options(t, in, about); v.IsValid() {
					args = append(args, v)
					txt = append(txt, s)
					call = m.fn.CallSlice
					break
				}
			}
			n := rapid.IntRange(0, 2).Draw(t, "variadic")
			if in.Elem() == readType || in.Elem() == writeType {
				n = 1
			}
			for k := 0; k < n; k++ {
				vs, s := g.arg(t, m, in.Elem(), about, c)
				args = append(args, vs...)
				txt = append(txt, s...)
			}
			break
		}
		if in == ctxType {
			ctxAt = i
			args = append(args, reflect.Value{})
			txt = append(txt, "ctx")
			continue
		}
		vs, s := g.arg(t, m, in, about, c)
		args = append(args, vs...)
		txt = append(txt, s...)
	}
	c.txt = fmt.Sprintf("model.%s(%s)", m.Name, strings.Join(txt, ", "))
	if m.Stream {
		c.run = func(ctx context.Context, s *Stream) {
			as := append([]reflect.Value(nil), args...)
			if ctxAt >= 0 {
				as[ctxAt] = reflect.ValueOf(ctx)
			}
			ch := call(as)[0]
			for {
				v, ok := ch.Recv()
				if !ok {
					return
				}
				s.add(Messages(v)...)
			}
		}
		return c
	}
	c.do = func() ([]proto.Message, error) {
		as := append([]reflect.Value(nil), args...)
		if ctxAt >= 0 {
			as[ctxAt] = reflect.ValueOf(context.Background())
		}
		var out []proto.Message
		var err error
		for _, v := range call(as) {
			if v.Type() == errType {
				if !v.IsNil() {
					err = v.Interface().(error)
				}
				continue
			}
			out = append(out, Messages(v)...)
		}
		return out, err
	}
	return c
}

func resultType(ft reflect.Type) protoreflect.MessageDescriptor {
	for i := 0; i < ft.NumOut(); i++ {
		if t := findMsg(ft.Out(i), 0); t != nil {
			return reflect.Zero(t).Interface().(proto.Message).ProtoReflect().Descriptor()
		}
	}
	return nil
}

func findMsg(t reflect.Type, depth int) reflect.Type {
	if depth > 3 {
		return nil
	}
	if t.Implements(msgType) && t.Kind() == reflect.Ptr {
		md := reflect.Zero(t).Interface().(proto.Message).ProtoReflect().Descriptor()
		if strings.HasSuffix(string(md.Name()), "Change") { // Pull...Response.Change
			if r := ResourceType(md, true); r != nil {
				for _, n := range []protoreflect.Name{"new_value", "metadata"} {
					if fd := md.Fields().ByName(n); fd != nil && fd.Message() != nil {
						return reflect.TypeOf(MessageType(fd.Message().FullName()).New().Interface())
					}
				}
			}
		}
		return t
	}
	switch t.Kind() {
	case reflect.Chan, reflect.Slice:
		return findMsg(t.Elem(), depth+1)
	case reflect.Struct:
		if t == timeType {
			return nil
		}
		for i := 0; i < t.NumField(); i++ {
			if r := findMsg(t.Field(i).Type, depth+1); r != nil {
				return r
			}
		}
	}
	return nil
}

func (g *Gen) arg(t *rapid.T, m *Method, in reflect.Type, about protoreflect.MessageDescriptor, c *Call) ([]reflect.Value, []string) {
	one := func(v any) ([]reflect.Value, []string) {
		return []reflect.Value{reflect.ValueOf(v).Convert(in)}, []string{fmt.Sprint(v)}
	}
	switch {
	case in == stampsType:
		ts := vkit.GenTime(t, "ts")
		c.In = append(c.In, ts)
		return []reflect.Value{reflect.ValueOf(ts)}, []string{ts.String()}
	case in.Implements(msgType):
		mt := MessageType(reflect.Zero(in).Interface().(proto.Message).ProtoReflect().Descriptor().FullName())
		msg := g.msg(t, m, mt, m.Name)
		c.In = append(c.In, msg)
		return []reflect.Value{reflect.ValueOf(msg)}, []string{vkit.Text(msg)}
	case in == timeType:
		return one(vkit.GenTime(t, "time").AsTime())
	case in == readType:
		var vs []reflect.Value
		var s []string
		add := func(o resource.ReadOption, what string) {
			vs = append(vs, reflect.ValueOf(&o).Elem())
			s = append(s, what)
		}
		if !g.NoMasks && about != nil && about.Fields().Len() > 0 && rapid.IntRange(0, 2).Draw(t, "readMask") == 0 {
			mask := vkit.GenMaskNonEmpty(t, about, nil, "readMask")
			add(resource.WithReadMask(mask), "mask:"+vkit.MaskText(mask))
		}
		if m.Stream && rapid.IntRange(0, 2).Draw(t, "only") == 0 {
			add(resource.WithUpdatesOnly(true), "updatesOnly")
		}
		if m.Stream && rapid.IntRange(0, 2).Draw(t, "bp") == 0 {
			add(resource.WithBackpressure(true), "backpressure")
		}
		return vs, s
	case in == writeType:
		var vs []reflect.Value
		var s []string
		add := func(o resource.WriteOption, what string) {
			vs = append(vs, reflect.ValueOf(&o).Elem())
			s = append(s, what)
		}
		if !g.NoMasks && about != nil && about.Fields().Len() > 0 && rapid.IntRange(0, 2).Draw(t, "updateMask") == 0 {
			mask := vkit.GenMaskNonEmpty(t, about, nil, "updateMask")
			add(resource.WithUpdateMask(mask), "mask:"+vkit.MaskText(mask))
		}
		if rapid.IntRange(0, 1).Draw(t, "create") == 0 {
			add(resource.WithCreateIfAbsent(), "createIfAbsent")
		}
		if rapid.IntRange(0, 2).Draw(t, "missing") == 0 {
			add(resource.WithAllowMissing(true), "allowMissing")
		}
		if !g.NoMasks && about != nil && about.Fields().Len() > 0 && rapid.IntRange(0, 5).Draw(t, "resetMask") == 0 {
			mask := &fieldmaskpb.FieldMask{Paths: []string{vkit.GenPath(t, about, nil, "resetMask")}}
			add(resource.WithResetMask(mask), "reset:"+vkit.MaskText(mask))
		}
		if g.Write != nil {
			if o, what := g.Write(t); o != nil {
				add(o, what)
			}
		}
		return vs, s
	}
	switch in.Kind() {
	case reflect.String:
		return one(g.name(t, "string"))
	case reflect.Int, reflect.Int64:
		return one(rapid.IntRange(0, 3).Draw(t, "int"))
	case reflect.Int32: // enums
		return one(rapid.IntRange(0, 2).Draw(t, "enum"))
	case reflect.Float32, reflect.Float64:
		return one(float64(rapid.IntRange(0, 12).Draw(t, "float") * 10))
	case reflect.Bool:
		return one(rapid.Bool().Draw(t, "bool"))
	}
	panic("cannot generate " + in.String())
}

// Messages finds the messages in v.
func Messages(v reflect.Value) (out []proto.Message) {
	switch {
	case !v.IsValid():
		return nil
	case v.Type().Implements(msgType):
		if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
			return nil
		}
		return []proto.Message{v.Interface().(proto.Message)}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return Messages(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			out = append(out, Messages(v.Index(i))...)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out = append(out, Messages(v.Field(i))...)
			}
		}
	}
	return out
}

// Dump calls every read of a device that needs nothing but options and renders what they return.
// With note, every returned message is passed to it.
func Dump(d Device, note func(what string, m proto.Message)) string {
	var sb strings.Builder
	ms, _ := ModelMethods(d.Model)
	sort.Slice(ms, func(i, j int) bool { return ms[i].Name < ms[j].Name })
	render := func(what string, out []proto.Message, err error) {
		fmt.Fprintf(&sb, "%s:", what)
		for _, m := range out {
			sb.WriteString(" " + vkit.Text(m))
			if note != nil {
				note(what, m)
			}
		}
		if err != nil {
			sb.WriteString(" error " + err.Error())
		}
		sb.WriteString("\n")
	}
	for _, m := range ms {
		if !m.Read || m.Stream {
			continue
		}
		ft := m.fn.Type()
		if ft.NumIn() > 1 || ft.NumIn() == 1 && !ft.IsVariadic() {
			continue
		}
		c := &Call{Method: m}
		fn := m.fn
		c.do = func() ([]proto.Message, error) {
			var out []proto.Message
			var err error
			for _, v := range fn.Call(nil) {
				if v.Type() == errType {
					if !v.IsNil() {
						err = v.Interface().(error)
					}
					continue
				}
				out = append(out, Messages(v)...)
			}
			return out, err
		}
		out, err, p := c.Do()
		if p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		render("model."+m.Name, out, err)
	}
	for _, m := range ServerMethods(d.Server) {
		if !m.Read || m.Stream {
			continue
		}
		out, err, p := m.WithRequest(m.req.New().Interface()).Do()
		if p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		render("server."+m.Name, out, err)
	}
	return sb.String()
}
