package c14

import (
	"math"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

// tolerance of a resource, changes that are smaller needn't be published.
type tolerance struct {
	float, seconds float64
}

// tolerances are those configured by the models, by value type.
var tolerances = map[protoreflect.FullName]tolerance{
	"smartcore.traits.FanSpeed":       {float: 0.01},
	"smartcore.traits.EnergyLevel":    {float: 0.1, seconds: 1},
	"smartcore.traits.ElectricDemand": {float: 0.01},
}

// within says whether a and b differ by no more than the tolerance of their type.
func within(a, b proto.Message) bool {
	if vkit.Same(a, b) {
		return true
	}
	tol, ok := tolerances[a.ProtoReflect().Descriptor().FullName()]
	return ok && tol.msg(a.ProtoReflect(), b.ProtoReflect())
}

func (tol tolerance) msg(a, b protoreflect.Message) bool {
	switch am := a.Interface().(type) {
	case *timestamppb.Timestamp:
		bm := b.Interface().(*timestamppb.Timestamp)
		return tol.time(float64(am.Seconds-bm.Seconds) + float64(am.Nanos-bm.Nanos)/1e9)
	case *durationpb.Duration:
		bm := b.Interface().(*durationpb.Duration)
		return tol.time(float64(am.Seconds-bm.Seconds) + float64(am.Nanos-bm.Nanos)/1e9)
	}
	fields := a.Descriptor().Fields()
	for i := 0; i < fields.Len(); i++ {
		fd := fields.Get(i)
		if a.Has(fd) != b.Has(fd) && fd.HasPresence() {
			return false
		}
		av, bv := a.Get(fd), b.Get(fd)
		switch {
		case fd.IsList():
			if av.List().Len() != bv.List().Len() {
				return false
			}
			for k := 0; k < av.List().Len(); k++ {
				if !tol.val(fd, av.List().Get(k), bv.List().Get(k)) {
					return false
				}
			}
		case fd.IsMap():
			if av.Map().Len() != bv.Map().Len() {
				return false
			}
			ok := true
			av.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				ok = bv.Map().Has(k) && tol.val(fd.MapValue(), v, bv.Map().Get(k))
				return ok
			})
			if !ok {
				return false
			}
		case fd.HasPresence() && !a.Has(fd):
		default:
			if !tol.val(fd, av, bv) {
				return false
			}
		}
	}
	return true
}

func (tol tolerance) time(d float64) bool { return math.Abs(d) <= tol.seconds+1e-6 }

func (tol tolerance) val(fd protoreflect.FieldDescriptor, a, b protoreflect.Value) bool {
	switch fd.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		return tol.msg(a.Message(), b.Message())
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		d := math.Abs(a.Float() - b.Float())
		return d <= tol.float+1e-4*(1+math.Abs(a.Float()))
	}
	return a.Equal(b)
}
