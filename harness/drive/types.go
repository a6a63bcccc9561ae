package drive

import (
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// MethodDescriptor finds an rpc.
func MethodDescriptor(service, method string) protoreflect.MethodDescriptor {
	d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(service))
	if err != nil {
		panic(err)
	}
	return d.(protoreflect.ServiceDescriptor).Methods().ByName(protoreflect.Name(method))
}

// MessageType finds a message type.
func MessageType(name protoreflect.FullName) protoreflect.MessageType {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(name)
	if err != nil {
		panic(err)
	}
	return mt
}
