// Package c14 drives every trait server through wrapper, router and wrapper, as a register.
package c14

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/smart-core-os/sc-golang/internal/verif/c12"
	"github.com/smart-core-os/sc-golang/internal/verif/drive"
)

// api is one service, reached through the full stack.
type api struct {
	desc    *grpc.ServiceDesc
	client  reflect.Value // of the outer wrapper
	reads   []*register
	writes  []*rpc // unary methods that aren't reads
	methods map[string]*rpc
}

// rpc is a method of the service.
type rpc struct {
	name      string
	md        protoreflect.MethodDescriptor
	req, resp protoreflect.MessageType
	// returns is the register whose value the response is, if any
	returns *register
}

// register is a resource with a Get and a Pull rpc.
type register struct {
	api      *api
	get      *rpc
	pull     *rpc
	value    protoreflect.MessageDescriptor
	key      protoreflect.FieldDescriptor // of the get request, says which value, may be nil
	valueKey protoreflect.FieldDescriptor // of the value, the same
	change   protoreflect.FieldDescriptor // of the change, the value
}

func (r *register) String() string {
	return string(r.get.md.FullName())
}

// newAPI makes the stack of a service. Servers are given by the names the router knows them by.
func newAPI(desc *grpc.ServiceDesc, names []string, server func(name string) any) *api {
	router := c12.NewRouter(desc)
	inner := map[any]c12.Wrapper{}
	for _, name := range names {
		s := server(name)
		if inner[s] == nil {
			inner[s] = c12.Wrap(desc, s)
		}
		router.Add(name, inner[s])
	}
	a := &api{desc: desc, client: reflect.ValueOf(c12.Wrap(desc, router)), methods: map[string]*rpc{}}
	a.describe()
	return a
}

// valueKeys are the fields that tell the values of a keyed resource apart.
var valueKeys = []protoreflect.Name{"id", "consumable"}

func (a *api) describe() {
	var gets, pulls []*rpc
	add := func(name string) {
		md := drive.MethodDescriptor(a.desc.ServiceName, name)
		m := &rpc{name: name, md: md, req: drive.MessageType(md.Input().FullName()), resp: drive.MessageType(md.Output().FullName())}
		a.methods[name] = m
		switch {
		case strings.HasPrefix(name, "Get"):
			gets = append(gets, m)
		case strings.HasPrefix(name, "Pull") && md.IsStreamingServer():
			pulls = append(pulls, m)
		case strings.HasPrefix(name, "List"), strings.HasPrefix(name, "Describe"), md.IsStreamingServer(), md.IsStreamingClient():
		default:
			a.writes = append(a.writes, m)
		}
	}
	for _, m := range a.desc.Methods {
		add(m.MethodName)
	}
	for _, m := range a.desc.Streams {
		add(m.StreamName)
	}
	for _, get := range gets {
		r := &register{api: a, get: get, value: get.md.Output()}
		for _, n := range valueKeys {
			if fd := get.md.Input().Fields().ByName(n); fd != nil {
				r.key = fd
				r.valueKey = r.value.Fields().ByName(n)
			}
		}
		for _, pull := range pulls {
			changes := pull.md.Output().Fields().ByName("changes")
			if changes == nil {
				continue
			}
			if changes.Message().Fields().ByName("old_value") != nil {
				continue // of a collection
			}
			if r.key != nil && pull.md.Input().Fields().ByName(r.key.Name()) == nil {
				continue
			}
			for i := 0; i < changes.Message().Fields().Len(); i++ {
				if fd := changes.Message().Fields().Get(i); fd.Message() == r.value {
					r.pull, r.change = pull, fd
				}
			}
		}
		if r.pull != nil {
			a.reads = append(a.reads, r)
		}
	}
	for _, w := range a.writes {
		for _, r := range a.reads {
			if w.md.Output() == r.value {
				w.returns = r
			}
		}
	}
}

// call makes a unary call.
func (a *api) call(m *rpc, req proto.Message) (proto.Message, error) {
	fn := a.client.MethodByName(m.name)
	out := fn.Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.ValueOf(req)})
	err, _ := out[1].Interface().(error)
	if out[0].IsNil() {
		if err == nil {
			err = fmt.Errorf("%v: neither a response nor an error", m.name)
		}
		return nil, err
	}
	return out[0].Interface().(proto.Message), err
}

// stream is an open Pull.
type stream struct {
	cancel context.CancelFunc
	done   chan struct{}

	mu  sync.Mutex
	got []protoreflect.Message // changes
	err error
}

// open calls a Pull rpc, receiving everything it sends.
func (a *api) open(m *rpc, req proto.Message) *stream {
	ctx, cancel := context.WithCancel(context.Background())
	s := &stream{cancel: cancel, done: make(chan struct{})}
	fn := a.client.MethodByName(m.name)
	go func() {
		defer close(s.done)
		defer cancel()
		out := fn.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
		if err, _ := out[1].Interface().(error); err != nil {
			s.end(err)
			return
		}
		recv := out[0].MethodByName("Recv")
		for {
			out := recv.Call(nil)
			if err, _ := out[1].Interface().(error); err != nil {
				s.end(err)
				return
			}
			resp := out[0].Interface().(proto.Message).ProtoReflect()
			changes := resp.Get(resp.Descriptor().Fields().ByName("changes")).List()
			s.mu.Lock()
			for i := 0; i < changes.Len(); i++ {
				s.got = append(s.got, changes.Get(i).Message())
			}
			s.mu.Unlock()
		}
	}()
	return s
}

func (s *stream) end(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.err = err
}

// take returns the changes received since the last call, and how the stream ended if it did.
func (s *stream) take() ([]protoreflect.Message, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	got := s.got
	s.got = nil
	return got, s.err
}

var _ = io.EOF

// request makes a request from fields.
func request(m *rpc, fields map[string]any) proto.Message {
	req := m.req.New()
	for name, v := range fields {
		fd := req.Descriptor().Fields().ByName(protoreflect.Name(name))
		if fd == nil {
			continue
		}
		switch v := v.(type) {
		case string:
			req.Set(fd, protoreflect.ValueOfString(v))
		case bool:
			req.Set(fd, protoreflect.ValueOfBool(v))
		case proto.Message:
			if !reflect.ValueOf(v).IsNil() {
				req.Set(fd, protoreflect.ValueOfMessage(v.ProtoReflect()))
			}
		default:
			panic(fmt.Sprintf("%T", v))
		}
	}
	return req.Interface()
}
