package c12

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/middleware/name"
)

// namedTypes are messages with all kinds of name fields.
var namedTypes = func() (out []protoreflect.MessageType) {
	fd := &descriptorpb.FileDescriptorProto{}
	if err := prototext.Unmarshal([]byte(`
		name: "verif/names.proto" package: "verif.names" syntax: "proto3"
		message_type { name: "Str" field { name: "name" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL } field { name: "x" number: 2 type: TYPE_STRING label: LABEL_OPTIONAL } }
		message_type { name: "Late" field { name: "x" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL } field { name: "name" number: 900 type: TYPE_STRING label: LABEL_OPTIONAL } }
		message_type { name: "Opt" field { name: "name" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL proto3_optional: true oneof_index: 0 } oneof_decl { name: "_name" } }
		message_type { name: "One" field { name: "name" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL oneof_index: 0 } oneof_decl { name: "k" } }
		message_type { name: "Rep" field { name: "name" number: 1 type: TYPE_STRING label: LABEL_REPEATED } }
		message_type { name: "Int" field { name: "name" number: 1 type: TYPE_INT32 label: LABEL_OPTIONAL } }
		message_type { name: "Byt" field { name: "name" number: 1 type: TYPE_BYTES label: LABEL_OPTIONAL } }
		message_type { name: "Msg" field { name: "name" number: 1 type: TYPE_MESSAGE type_name: ".verif.names.Str" label: LABEL_OPTIONAL } }
		message_type { name: "Non" field { name: "nam" number: 1 type: TYPE_STRING label: LABEL_OPTIONAL } field { name: "Name" number: 2 json_name: "name2" type: TYPE_STRING label: LABEL_OPTIONAL } }
		message_type { name: "Sub" field { name: "child" number: 1 type: TYPE_MESSAGE type_name: ".verif.names.Str" label: LABEL_OPTIONAL } }
		message_type { name: "Nil" }
	`), fd); err != nil {
		panic(err)
	}
	f, err := protodesc.NewFile(fd, protoregistry.GlobalFiles)
	if err != nil {
		panic(err)
	}
	for i := 0; i < f.Messages().Len(); i++ {
		out = append(out, dynamicpb.NewMessageType(f.Messages().Get(i)))
	}
	return out
}()

// withName is what a request becomes if empty names stand for dflt.
func withName(m proto.Message, dflt string) proto.Message {
	m = proto.Clone(m)
	r := m.ProtoReflect()
	fd := r.Descriptor().Fields().ByName("name")
	if fd == nil || fd.Kind() != protoreflect.StringKind || fd.IsList() || fd.IsMap() || r.Get(fd).String() != "" {
		return m
	}
	r.Set(fd, protoreflect.ValueOfString(dflt))
	return m
}

func genNamed(t *rapid.T) proto.Message {
	var mt protoreflect.MessageType
	if rapid.Bool().Draw(t, "API request") {
		mt = vkit.Pick(t, allMethods, "method").req
	} else {
		mt = vkit.Pick(t, namedTypes, "type")
	}
	m := msgGen.New(t, mt, "request")
	fd := mt.Descriptor().Fields().ByName("name")
	if fd != nil && fd.Kind() == protoreflect.StringKind && !fd.IsList() {
		switch rapid.IntRange(0, 3).Draw(t, "name") {
		case 0:
			m.ProtoReflect().Clear(fd)
		case 1:
			m.ProtoReflect().Set(fd, protoreflect.ValueOfString("")) // present but empty, where that is a difference
		case 2:
			m.ProtoReflect().Set(fd, protoreflect.ValueOfString(rapid.SampledFrom([]string{" ", "x", "dflt", "\x00"}).Draw(t, "given name")))
		}
	}
	return m
}

type ctxKey struct{}

// TestName: the interceptors change nothing but empty names.
func TestName(t *testing.T) {
	vkit.Check(t, vkit.N(60000, 1000000), func(t *rapid.T) {
		dflt := rapid.SampledFrom([]string{"dflt", "other/ünï", "a", ""}).Draw(t, "default name")
		ctx := context.WithValue(bg, ctxKey{}, 1)
		handlerErr := rapid.SampledFrom([]error{nil, errors.New("plain"), status.Error(codes.Aborted, "x"), io.EOF}).Draw(t, "handler error")
		if rapid.Bool().Draw(t, "unary") {
			var req any = genNamed(t)
			var want any
			switch rapid.IntRange(0, 12).Draw(t, "odd request") {
			case 0:
				req, want = "a string", "a string"
			case 1:
				req, want = nil, nil
			case 2:
				type named struct{ name, Name string }
				req, want = named{}, named{}
			}
			m, isMsg := req.(proto.Message)
			var expect proto.Message
			before := ""
			if isMsg {
				expect = withName(m, dflt)
				before = vkit.Text(m)
			}
			info := &grpc.UnaryServerInfo{Server: t, FullMethod: "/x/y"}
			resp := new(int)
			calls := 0
			gotResp, gotErr := name.IfAbsentUnaryInterceptor(dflt)(ctx, req, info, func(c context.Context, got any) (any, error) {
				calls++
				if c.Value(ctxKey{}) != 1 {
					t.Fatalf("the handler's context isn't the caller's")
				}
				if !isMsg {
					if got != want {
						t.Fatalf("the handler got %v, want %v", got, want)
					}
				} else if g, ok := got.(proto.Message); !ok || !proto.Equal(g, expect) {
					t.Fatalf("default name %q: the handler got %v for %s, want %v", dflt, got, before, expect)
				}
				return resp, handlerErr
			})
			if calls != 1 || gotResp != any(resp) || gotErr != handlerErr {
				t.Fatalf("%d calls of the handler, result %v %v, want %v %v", calls, gotResp, gotErr, resp, handlerErr)
			}
			vkit.Class("unary, replaced: %v", isMsg && before != vkit.Text(expect))
			vkit.Nontrivial(fmt.Sprintf("%q %T %s", dflt, req, before))
			return
		}
		n := rapid.IntRange(1, 3).Draw(t, "messages")
		ss := &recorder{ctx: ctx}
		for i := 0; i < n; i++ {
			ss.in = append(ss.in, genNamed(t))
			ss.errs = append(ss.errs, rapid.SampledFrom([]error{nil, nil, nil, io.EOF, status.Error(codes.Canceled, "gone")}).Draw(t, "receive error"))
		}
		srv := new(int)
		calls := 0
		gotErr := name.IfAbsentStreamInterceptor(dflt)(srv, ss, &grpc.StreamServerInfo{FullMethod: "/x/y", IsServerStream: true}, func(s any, st grpc.ServerStream) error {
			calls++
			if s != any(srv) || st.Context().Value(ctxKey{}) != 1 {
				t.Fatalf("the handler got another server or context")
			}
			for i, in := range ss.in {
				m := in.ProtoReflect().New().Interface()
				err := st.RecvMsg(m)
				if err != ss.errs[i] {
					t.Fatalf("message %d: error %v, want %v", i, err, ss.errs[i])
				}
				if err == nil {
					if want := withName(in, dflt); !proto.Equal(m, want) {
						t.Fatalf("default name %q: the handler got %s for %s, want %s", dflt, vkit.Text(m), vkit.Text(in), vkit.Text(want))
					}
				} else if !proto.Equal(m, in.ProtoReflect().New().Interface()) {
					t.Fatalf("a message made up along with error %v: %s", err, vkit.Text(m))
				}
				// what goes the other way isn't touched
				out := proto.Clone(in)
				_ = st.SetHeader(metadata.Pairs("h", "1"))
				_ = st.SendHeader(metadata.Pairs("h", "2"))
				st.SetTrailer(metadata.Pairs("t", "3"))
				if err := st.SendMsg(out); err != ss.errs[i] {
					t.Fatalf("sending message %d: error %v, want %v", i, err, ss.errs[i])
				}
				if ss.out != any(out) || !proto.Equal(out, in) {
					t.Fatalf("message %d changed when sent", i)
				}
				if fmt.Sprint(ss.md) != "[map[h:[1]] map[h:[2]] map[t:[3]]]" {
					t.Fatalf("header or trailer: %v", ss.md)
				}
				ss.md = nil
			}
			return handlerErr
		})
		if calls != 1 || gotErr != handlerErr {
			t.Fatalf("%d calls of the handler, error %v, want %v", calls, gotErr, handlerErr)
		}
		vkit.Class("stream")
		vkit.Nontrivial(fmt.Sprint(dflt, ss.in, ss.errs))
	})
}

type recorder struct {
	ctx  context.Context
	in   []proto.Message
	errs []error
	i    int
	j    int
	out  any
	md   []metadata.MD
}

func (r *recorder) SetHeader(md metadata.MD) error  { r.md = append(r.md, md); return nil }
func (r *recorder) SendHeader(md metadata.MD) error { r.md = append(r.md, md); return nil }
func (r *recorder) SetTrailer(md metadata.MD)       { r.md = append(r.md, md) }
func (r *recorder) Context() context.Context        { return r.ctx }
func (r *recorder) SendMsg(m any) error {
	r.out = m
	r.j++
	return r.errs[r.j-1]
}
func (r *recorder) RecvMsg(m any) error {
	i := r.i
	r.i++
	if r.errs[i] != nil {
		return r.errs[i]
	}
	proto.Merge(m.(proto.Message), r.in[i])
	return nil
}
