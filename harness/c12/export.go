package c12

import (
	"fmt"
	"reflect"

	"google.golang.org/grpc"

	"github.com/smart-core-os/sc-golang/pkg/router"
)

// Router is what all generated routers have in common.
type Router = theRouter

// Wrapper is what all generated wrappers have in common.
type Wrapper = theWrapper

// NewRouter makes the generated router of a service.
func NewRouter(d *grpc.ServiceDesc, opts ...router.Option) Router { return find(d).router(opts...) }

// Wrap wraps a server of a service with the generated wrapper.
func Wrap(d *grpc.ServiceDesc, server any) Wrapper { return find(d).wrap(server) }

// Client makes the client of a service.
func Client(d *grpc.ServiceDesc, conn grpc.ClientConnInterface) any { return find(d).client(conn) }

// Services lists the services that have a generated router and wrapper.
func Services() (ds []*grpc.ServiceDesc) {
	for _, s := range services {
		ds = append(ds, s.desc)
	}
	return ds
}

// Implements says whether server implements the service.
func Implements(d *grpc.ServiceDesc, server any) bool {
	return server != nil && reflect.TypeOf(server).Implements(reflect.TypeOf(d.HandlerType).Elem())
}

func find(d *grpc.ServiceDesc) *service {
	for _, s := range services {
		if s.desc == d {
			return s
		}
	}
	panic(fmt.Sprintf("no generated router for %v", d.ServiceName))
}
