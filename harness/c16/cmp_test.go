package c16

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	_ "github.com/smart-core-os/sc-api/go/traits"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
)

func TestMain(m *testing.M) { vkit.Main(m) }

type (
	fdesc = protoreflect.FieldDescriptor
	value = protoreflect.Value
)

var all = func() []protoreflect.MessageType {
	mts := vkit.MessageTypes("smartcore.traits.", "smartcore.types.")
	testMsg := (&testproto.TestAllTypes{}).ProtoReflect().Type()
	well := (&testproto.WellKnown{}).ProtoReflect().Type()
	// every kind of field is in the first
	for i := 0; i < len(mts)/2; i++ {
		mts = append(mts, testMsg)
	}
	for i := 0; i < len(mts)/6; i++ {
		mts = append(mts, well)
	}
	return mts
}()

// changes are the types with a change_time to ignore.
var changes = func() (out []protoreflect.MessageType) {
	for _, mt := range vkit.MessageTypes("smartcore.traits.") {
		if n := string(mt.Descriptor().Name()); strings.HasPrefix(n, "Pull") && strings.HasSuffix(n, "Response") || n == "Change" {
			out = append(out, mt)
		}
	}
	return out
}()

// reach lists m and every message within it.
func reach(m protoreflect.Message, out []protoreflect.Message) []protoreflect.Message {
	out = append(out, m)
	m.Range(func(fd fdesc, v value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, v value) bool { out = reach(v.Message(), out); return true })
			}
		case fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				out = reach(v.List().Get(i).Message(), out)
			}
		default:
			out = reach(v.Message(), out)
		}
		return true
	})
	return out
}

func nudge(t *rapid.T, fd fdesc, v value) (value, bool) {
	d := rapid.SampledFrom([]int64{1, -1, 2, 60}).Draw(t, "nudge")
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int()) + int32(d)), true
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(v.Int() + d), true
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.Uint()) + uint32(d)), true
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(v.Uint() + uint64(d)), true
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float() + rapid.SampledFrom(floatSteps).Draw(t, "step"))), true
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + rapid.SampledFrom(floatSteps).Draw(t, "step")), true
	}
	return v, false
}

var floatSteps = []float64{0.5, -0.5, 0.25, 1, 0.01, 0.1, -10, 1e-9}

// mutate changes m somewhere.
func mutate(t *rapid.T, m proto.Message, g vkit.MsgGen) {
	ms := reach(m.ProtoReflect(), nil)
	at := ms[rapid.IntRange(0, len(ms)-1).Draw(t, "at")]
	md := at.Descriptor()
	switch md.FullName() {
	case "google.protobuf.Timestamp", "google.protobuf.Duration":
		d := rapid.SampledFrom([]int64{1, 1e9, 5e8, -1, -1e9, 60e9, 1e9 + 1}).Draw(t, "delta")
		if ts, ok := at.Interface().(*timestamppb.Timestamp); ok {
			nt := timestamppb.New(ts.AsTime().Add(time.Duration(d)))
			ts.Seconds, ts.Nanos = nt.Seconds, nt.Nanos
		}
		if du, ok := at.Interface().(*durationpb.Duration); ok {
			nd := big.NewInt(du.Seconds)
			nd.Mul(nd, big.NewInt(1e9)).Add(nd, big.NewInt(int64(du.Nanos)+d))
			s, n := new(big.Int).QuoRem(nd, big.NewInt(1e9), new(big.Int))
			du.Seconds, du.Nanos = s.Int64(), int32(n.Int64())
		}
		return
	}
	var set []fdesc
	at.Range(func(fd fdesc, _ value) bool { set = append(set, fd); return true })
	sortFields(set)
	switch op := rapid.IntRange(0, 9).Draw(t, "mutation"); {
	case op <= 2 && md.Fields().Len() > 0: // a random value
		g.SetField(t, at, md.Fields().Get(rapid.IntRange(0, md.Fields().Len()-1).Draw(t, "field")), "new", 1)
	case op <= 4 && len(set) > 0: // absent
		at.Clear(set[rapid.IntRange(0, len(set)-1).Draw(t, "field")])
	case op == 5: // unknown fields
		switch rapid.IntRange(0, 2).Draw(t, "unknown") {
		case 0:
			at.SetUnknown(vkit.GenUnknown(t, "unknown"))
		case 1:
			at.SetUnknown(append(append([]byte{}, at.GetUnknown()...), vkit.GenUnknown(t, "unknown")...))
		default: // in another order
			u := at.GetUnknown()
			if len(u) >= 6 {
				at.SetUnknown(append(append([]byte{}, u[3:]...), u[:3]...))
			}
		}
	case len(set) > 0:
		fd := set[rapid.IntRange(0, len(set)-1).Draw(t, "field")]
		switch {
		case fd.IsMap():
			mp := at.Mutable(fd).Map()
			var ks []protoreflect.MapKey
			mp.Range(func(k protoreflect.MapKey, _ value) bool { ks = append(ks, k); return true })
			if len(ks) == 0 {
				return
			}
			sortKeys(ks)
			k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "key")]
			if fd.MapValue().Message() == nil && rapid.Bool().Draw(t, "nudge value") {
				if v, ok := nudge(t, fd.MapValue(), mp.Get(k)); ok {
					mp.Set(k, v)
				}
				return
			}
			mp.Clear(k)
		case fd.IsList():
			l := at.Mutable(fd).List()
			if l.Len() == 0 {
				return
			}
			i := rapid.IntRange(0, l.Len()-1).Draw(t, "index")
			switch rapid.IntRange(0, 3).Draw(t, "list") {
			case 0:
				l.Truncate(l.Len() - 1)
			case 1: // swap
				a, b := l.Get(i), l.Get(0)
				l.Set(i, b)
				l.Set(0, a)
			case 2:
				if fd.Message() == nil {
					if v, ok := nudge(t, fd, l.Get(i)); ok {
						l.Set(i, v)
					}
				}
			default:
				if fd.Message() == nil {
					l.Append(l.Get(i))
				} else {
					l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(i).Message().Interface()).ProtoReflect()))
				}
			}
		case fd.Message() == nil:
			if v, ok := nudge(t, fd, at.Get(fd)); ok {
				at.Set(fd, v)
			}
		}
	}
}

func sortFields(fs []fdesc) {
	for i := range fs {
		for j := i; j > 0 && fs[j].Number() < fs[j-1].Number(); j-- {
			fs[j], fs[j-1] = fs[j-1], fs[j]
		}
	}
}

func sortKeys(ks []protoreflect.MapKey) {
	for i := range ks {
		for j := i; j > 0 && ks[j].String() < ks[j-1].String(); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

// specials draws timestamps and durations over their whole range, and floats of all sorts.
func special() vkit.MsgGen {
	return vkit.MsgGen{MaxFields: 4, Special: true, Unknown: true, Override: func(t *rapid.T, fd fdesc) (value, bool) {
		switch fd.Kind() {
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(rapid.SampledFrom([]float32{0, 1, 1.1, 100, 110, -1, 0.5,
				float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32}).Draw(t, "f32")), true
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(rapid.SampledFrom([]float64{0, 1, 1.1, 100, 110, -1, 0.5,
				math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64}).Draw(t, "f64")), true
		}
		return value{}, false
	}}
}

// stretch sometimes moves the times and durations of m to the ends of their range.
func stretch(t *rapid.T, m proto.Message) {
	for _, at := range reach(m.ProtoReflect(), nil) {
		switch v := at.Interface().(type) {
		case *timestamppb.Timestamp:
			if rapid.IntRange(0, 5).Draw(t, "stretch") == 0 {
				v.Seconds = rapid.SampledFrom([]int64{-62135596800, 253402300799, -1, 0, 9_223_372_036, 9_223_372_037}).Draw(t, "seconds")
				v.Nanos = rapid.SampledFrom([]int32{0, 1, 999_999_999}).Draw(t, "nanos")
			}
		case *durationpb.Duration:
			if rapid.IntRange(0, 5).Draw(t, "stretch") == 0 {
				v.Seconds = rapid.SampledFrom([]int64{315576000000, -315576000000, 9_223_372_036, 9_223_372_037, -9_223_372_037, 0}).Draw(t, "seconds")
				v.Nanos = rapid.SampledFrom([]int32{0, 1, 999_999_999}).Draw(t, "nanos")
				if v.Seconds < 0 {
					v.Nanos = -v.Nanos
				}
			}
		}
	}
}

// pair draws two messages with a common ancestor.
func pair(t *rapid.T, types []protoreflect.MessageType) (x, y proto.Message, n int) {
	g := special()
	x = g.New(t, vkit.Pick(t, types, "type"), "x")
	stretch(t, x)
	y = proto.Clone(x)
	n = rapid.IntRange(0, 3).Draw(t, "mutations")
	for i := 0; i < n; i++ {
		mutate(t, y, g)
	}
	if n > 0 && rapid.IntRange(0, 5).Draw(t, "stretch y") == 0 {
		stretch(t, y)
	}
	if rapid.Bool().Draw(t, "swap") {
		x, y = y, x
	}
	return x, y, n
}

// clearTimes removes change_time from every Change.
func clearTimes(m proto.Message) proto.Message {
	m = proto.Clone(m)
	for _, at := range reach(m.ProtoReflect(), nil) {
		if at.Descriptor().Name() == "Change" {
			if fd := at.Descriptor().Fields().ByName("change_time"); fd != nil && at.IsValid() {
				at.Clear(fd)
			}
		}
	}
	return m
}

// TestDefault: cmp.Equal() is proto.Equal but for the change_time of changes.
func TestDefault(t *testing.T) {
	eq := cmp.Equal()
	vkit.Check(t, vkit.N(40000, 600000), func(t *rapid.T) {
		types := all
		if rapid.IntRange(0, 2).Draw(t, "changes") == 0 {
			types = changes
		}
		x, y, n := pair(t, types)
		switch rapid.IntRange(0, 24).Draw(t, "odd") {
		case 0:
			y = nil
		case 1:
			x, y = nil, nil
		case 2:
			y = y.ProtoReflect().Type().Zero().Interface() // a typed nil
		case 3:
			y = x.ProtoReflect().Type().Zero().Interface()
			x = y
		case 4:
			y = special().New(t, vkit.Pick(t, types, "other"), "other")
		case 5:
			y = vkit.Pick(t, types, "other").New().Interface()
			x = x.ProtoReflect().New().Interface()
		}
		want := proto.Equal(x, y)
		if x != nil && y != nil && x.ProtoReflect().IsValid() && y.ProtoReflect().IsValid() {
			want = proto.Equal(clearTimes(x), clearTimes(y))
		}
		if got := eq(x, y); got != want {
			t.Fatalf("Equal(%s, %s) is %v, want %v", show(x), show(y), got, want)
		}
		if got := eq(y, x); got != want {
			t.Fatalf("Equal(%s, %s) is %v, but the other way around %v", show(y), show(x), got, want)
		}
		for _, m := range []proto.Message{x, y} {
			if m != nil && !eq(m, proto.Clone(m)) {
				t.Fatalf("%s isn't equal to itself", show(m))
			}
		}
		vkit.Class("%d mutations, equal %v", n, want)
		if n > 0 {
			vkit.Nontrivial(show(x) + "|" + show(y))
		}
	})
}

func show(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	if !m.ProtoReflect().IsValid() {
		return "(*" + string(m.ProtoReflect().Descriptor().Name()) + ")(nil)"
	}
	return string(m.ProtoReflect().Descriptor().Name()) + vkit.Text(m)
}

type tri int

const (
	no tri = iota
	yes
	maybe // at the edge of a tolerance and not exact in floating point
)

func and(a, b tri) tri {
	switch {
	case a == no || b == no:
		return no
	case a == maybe || b == maybe:
		return maybe
	}
	return yes
}

func or(a, b tri) tri {
	switch {
	case a == yes || b == yes:
		return yes
	case a == maybe || b == maybe:
		return maybe
	}
	return no
}

func truth(b bool) tri {
	if b {
		return yes
	}
	return no
}

// expr is a value comparer and what it should do.
type expr struct {
	name string
	v    cmp.Value
	eval func(fd fdesc, x, y value) (tri, bool)
}

func isFloat(fd fdesc) bool {
	return fd.Kind() == protoreflect.FloatKind || fd.Kind() == protoreflect.DoubleKind
}

func isMsg(fd fdesc, name protoreflect.FullName) bool {
	return fd.Kind() == protoreflect.MessageKind && fd.Message().FullName() == name
}

func bf(f float64) *big.Float { return new(big.Float).SetPrec(3000).SetFloat64(f) }

func floatExpr(fraction, margin float64) expr {
	return expr{fmt.Sprintf("float(%v,%v)", fraction, margin), cmp.FloatValueApprox(fraction, margin), func(fd fdesc, x, y value) (tri, bool) {
		if !isFloat(fd) {
			return no, false
		}
		fx, fy := x.Float(), y.Float()
		switch {
		case math.IsNaN(fx) || math.IsNaN(fy):
			return truth(math.IsNaN(fx) && math.IsNaN(fy)), true
		case math.IsInf(fx, 0) || math.IsInf(fy, 0):
			return truth(fx == fy), true
		}
		diff := bf(0).Sub(bf(fx), bf(fy))
		diff.Abs(diff)
		smaller := math.Min(math.Abs(fx), math.Abs(fy))
		part := bf(0).Mul(bf(smaller), bf(fraction))
		bound := part
		if part.Cmp(bf(margin)) < 0 {
			bound = bf(margin)
		}
		fd64, _ := diff.Float64()
		fp64, _ := part.Float64()
		exact := !math.IsInf(fd64, 0) && bf(fd64).Cmp(diff) == 0 && !math.IsInf(fp64, 0) && bf(fp64).Cmp(part) == 0
		if !exact {
			edge := bf(0).Mul(bound, bf(1e-12))
			gap := bf(0).Sub(diff, bound)
			if gap.Abs(gap).Cmp(edge) <= 0 {
				return maybe, true
			}
		}
		return truth(diff.Cmp(bound) <= 0), true
	}}
}

func nanos(m protoreflect.Message) *big.Int {
	fs := m.Descriptor().Fields()
	n := big.NewInt(m.Get(fs.ByName("seconds")).Int())
	n.Mul(n, big.NewInt(1e9))
	return n.Add(n, big.NewInt(m.Get(fs.ByName("nanos")).Int()))
}

func apart(x, y value) *big.Int {
	d := nanos(x.Message())
	d.Sub(d, nanos(y.Message()))
	return d.Abs(d)
}

func withinExpr(what string, name protoreflect.FullName, v cmp.Value, d time.Duration) expr {
	return expr{fmt.Sprintf("%s(%v)", what, d), v, func(fd fdesc, x, y value) (tri, bool) {
		if !isMsg(fd, name) {
			return no, false
		}
		return truth(apart(x, y).Cmp(big.NewInt(int64(d))) <= 0), true
	}}
}

func percentExpr(p float32) expr {
	return expr{fmt.Sprintf("percent(%v)", p), cmp.DurationValueWithinP(p), func(fd fdesc, x, y value) (tri, bool) {
		if !isMsg(fd, "google.protobuf.Duration") {
			return no, false
		}
		a, b := nanos(x.Message()), nanos(y.Message())
		a.Abs(a)
		b.Abs(b)
		if b.Cmp(a) < 0 {
			a = b
		}
		diff := apart(x, y)
		bound := new(big.Rat).Mul(new(big.Rat).SetInt(a), new(big.Rat).SetFloat64(float64(p)))
		bound.Quo(bound, big.NewRat(100, 1))
		d := new(big.Rat).SetInt(diff)
		sec := big.NewRat(1e9, 1)
		if diff.Sign() != 0 && !(new(big.Rat).Quo(d, sec).IsInt() && new(big.Rat).Quo(bound, sec).IsInt()) {
			gap := new(big.Rat).Sub(d, bound)
			if gap.Abs(gap).Cmp(new(big.Rat).Mul(bound, big.NewRat(1, 1e12))) <= 0 {
				return maybe, true
			}
		}
		return truth(d.Cmp(bound) <= 0), true
	}}
}

// diffs finds how far the times, durations and floats at the same place in x and y are apart.
func diffs(x, y protoreflect.Message, ds *[]time.Duration, fs *[]float64) {
	one := func(fd fdesc, a, b value) {
		switch {
		case isFloat(fd):
			if d := math.Abs(a.Float() - b.Float()); !math.IsNaN(d) && !math.IsInf(d, 0) {
				*fs = append(*fs, d)
			}
		case isMsg(fd, "google.protobuf.Timestamp"), isMsg(fd, "google.protobuf.Duration"):
			if d := apart(a, b); d.IsInt64() {
				*ds = append(*ds, time.Duration(d.Int64()))
			}
		case fd.Message() != nil:
			diffs(a.Message(), b.Message(), ds, fs)
		}
	}
	fds := x.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !x.Has(fd) || !y.Has(fd) {
			continue
		}
		a, b := x.Get(fd), y.Get(fd)
		switch {
		case fd.IsList():
			for i := 0; i < a.List().Len() && i < b.List().Len(); i++ {
				one(fd, a.List().Get(i), b.List().Get(i))
			}
		case fd.IsMap():
			var ks []protoreflect.MapKey
			a.Map().Range(func(k protoreflect.MapKey, _ value) bool { ks = append(ks, k); return true })
			sortKeys(ks)
			for _, k := range ks {
				if b.Map().Has(k) {
					one(fd.MapValue(), a.Map().Get(k), b.Map().Get(k))
				}
			}
		default:
			one(fd, a, b)
		}
	}
}

// genExpr draws a comparer with tolerances around the differences of x and y.
func genExpr(t *rapid.T, ds []time.Duration, fs []float64, depth int) expr {
	dur := func() time.Duration {
		if len(ds) > 0 && rapid.IntRange(0, 2).Draw(t, "around") > 0 {
			d := ds[rapid.IntRange(0, len(ds)-1).Draw(t, "which")]
			d += rapid.SampledFrom([]time.Duration{0, 1, -1, 0}).Draw(t, "off")
			if d >= 0 {
				return d
			}
		}
		return rapid.SampledFrom([]time.Duration{0, 1, 499_999_999, time.Second, time.Second - 1, 2 * time.Second, time.Hour, math.MaxInt64}).Draw(t, "tolerance")
	}
	margin := func() float64 {
		if len(fs) > 0 && rapid.IntRange(0, 2).Draw(t, "around") > 0 {
			d := fs[rapid.IntRange(0, len(fs)-1).Draw(t, "which")]
			switch rapid.IntRange(0, 3).Draw(t, "off") {
			case 0:
				return math.Nextafter(d, math.Inf(1))
			case 1:
				return math.Nextafter(d, 0)
			}
			return d
		}
		return rapid.SampledFrom([]float64{0, 0.01, 0.1, 0.5, 1, 10}).Draw(t, "margin")
	}
	switch k := rapid.IntRange(0, 9).Draw(t, "expr"); {
	case k <= 2:
		d := dur()
		return withinExpr("time", "google.protobuf.Timestamp", cmp.TimeValueWithin(d), d)
	case k <= 4:
		d := dur()
		return withinExpr("duration", "google.protobuf.Duration", cmp.DurationValueWithin(d), d)
	case k == 5:
		return percentExpr(rapid.SampledFrom([]float32{0, 1, 5, 10, 50, 100, 200}).Draw(t, "percent"))
	case k <= 7:
		f := 0.0
		if rapid.Bool().Draw(t, "fraction?") {
			f = rapid.SampledFrom([]float64{0, 0.1, 0.25, 0.5, 0.01, 1, 2}).Draw(t, "fraction")
		}
		return floatExpr(f, margin())
	case k == 8 || depth == 0: // a comparer of the user
		kind := rapid.SampledFrom([]protoreflect.Kind{protoreflect.StringKind, protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.BytesKind}).Draw(t, "kind")
		res := rapid.Bool().Draw(t, "result")
		return expr{fmt.Sprintf("all %v %v", kind, res),
			func(fd fdesc, x, y value) (bool, bool) { return res && fd.Kind() == kind, fd.Kind() == kind },
			func(fd fdesc, x, y value) (tri, bool) { return truth(res), fd.Kind() == kind }}
	default:
		var es []expr
		for i := rapid.IntRange(0, 3).Draw(t, "parts"); i > 0; i-- {
			es = append(es, genExpr(t, ds, fs, depth-1))
		}
		return combine(rapid.Bool().Draw(t, "and"), es)
	}
}

func combine(conj bool, es []expr) expr {
	var vs []cmp.Value
	var names []string
	for _, e := range es {
		vs = append(vs, e.v)
		names = append(names, e.name)
	}
	name, v := "or", cmp.ValueOr(vs...)
	if conj {
		name, v = "and", cmp.ValueAnd(vs...)
	}
	return expr{name + "(" + strings.Join(names, ", ") + ")", v, func(fd fdesc, x, y value) (tri, bool) {
		res, any := truth(conj), false
		for _, e := range es {
			r, ok := e.eval(fd, x, y)
			if !ok {
				continue
			}
			any = true
			if conj {
				res = and(res, r)
			} else {
				res = or(res, r)
			}
		}
		return res, any
	}}
}

// refEqual is equality with a value comparer.
func refEqual(x, y protoreflect.Message, e expr) tri {
	if x.Descriptor().FullName() != y.Descriptor().FullName() {
		return no
	}
	one := func(fd fdesc, a, b value) tri {
		if r, ok := e.eval(fd, a, b); ok {
			return r
		}
		switch fd.Kind() {
		case protoreflect.MessageKind, protoreflect.GroupKind:
			return refEqual(a.Message(), b.Message(), e)
		case protoreflect.BytesKind:
			return truth(bytes.Equal(a.Bytes(), b.Bytes()))
		case protoreflect.FloatKind, protoreflect.DoubleKind:
			return truth(a.Float() == b.Float() || math.IsNaN(a.Float()) && math.IsNaN(b.Float()))
		default:
			return truth(a.Interface() == b.Interface())
		}
	}
	res := yes
	fds := x.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.Name() == "change_time" && x.Descriptor().Name() == "Change" {
			continue
		}
		if x.Has(fd) != y.Has(fd) {
			return no
		}
		if !x.Has(fd) {
			continue
		}
		a, b := x.Get(fd), y.Get(fd)
		switch {
		case fd.IsList():
			if a.List().Len() != b.List().Len() {
				return no
			}
			for i := 0; i < a.List().Len(); i++ {
				res = and(res, one(fd, a.List().Get(i), b.List().Get(i)))
			}
		case fd.IsMap():
			if a.Map().Len() != b.Map().Len() {
				return no
			}
			a.Map().Range(func(k protoreflect.MapKey, v value) bool {
				if !b.Map().Has(k) {
					res = no
					return false
				}
				res = and(res, one(fd.MapValue(), v, b.Map().Get(k)))
				return true
			})
		default:
			res = and(res, one(fd, a, b))
		}
	}
	ux, uy := x.New(), y.New()
	ux.SetUnknown(x.GetUnknown())
	uy.SetUnknown(y.GetUnknown())
	return and(res, truth(proto.Equal(ux.Interface(), uy.Interface())))
}

// TestTolerance: float, time and duration tolerances, alone and combined.
func TestTolerance(t *testing.T) {
	vkit.Check(t, vkit.N(40000, 600000), func(t *rapid.T) {
		types := all
		switch rapid.IntRange(0, 3).Draw(t, "changes") {
		case 0:
			types = changes
		case 1:
			types = well
		}
		x, y, n := pair(t, types)
		var ds []time.Duration
		var fs []float64
		diffs(x.ProtoReflect(), y.ProtoReflect(), &ds, &fs)
		var es []expr
		var vs []cmp.Value
		var names []string
		for i := rapid.IntRange(1, 3).Draw(t, "comparers"); i > 0; i-- {
			e := genExpr(t, ds, fs, 2)
			es = append(es, e)
			vs = append(vs, e.v)
			names = append(names, e.name)
		}
		eq := cmp.Equal(vs...)
		what := fmt.Sprintf("Equal(%s)", strings.Join(names, ", "))
		e := combine(true, es)
		want := refEqual(x.ProtoReflect(), y.ProtoReflect(), e)
		got := eq(x, y)
		if want != maybe && got != (want == yes) {
			t.Fatalf("%s(%s, %s) is %v", what, show(x), show(y), got)
		}
		if eq(y, x) != got {
			t.Fatalf("%s(%s, %s) is %v, but the other way around %v", what, show(x), show(y), got, !got)
		}
		if refEqual(x.ProtoReflect(), x.ProtoReflect(), e) == yes && (!eq(x, x) || !eq(x, proto.Clone(x))) {
			t.Fatalf("%s isn't true for %s and itself", what, show(x))
		}
		// each comparer on its own only looks at fields of its own kind
		for _, m := range reach(x.ProtoReflect(), nil) {
			m.Range(func(fd fdesc, v value) bool {
				if fd.IsList() || fd.IsMap() {
					return true
				}
				for _, e := range es {
					got, ok := e.v(fd, v, v)
					want, wantOK := e.eval(fd, v, v)
					if ok != wantOK || ok && want != maybe && got != (want == yes) {
						t.Fatalf("%s on %v of %s and itself is (%v, %v)", e.name, fd.Name(), show(m.Interface()), got, ok)
					}
				}
				return true
			})
		}
		if want == yes && !proto.Equal(x, y) || want == no && n > 0 && (len(ds) > 0 || len(fs) > 0) {
			vkit.Nontrivial(what + show(x) + show(y))
		}
		vkit.Class("tolerance: %v, proto.Equal %v", map[tri]string{yes: "equal", no: "different", maybe: "edge"}[want], proto.Equal(x, y))
	})
}

var well = []protoreflect.MessageType{(&testproto.WellKnown{}).ProtoReflect().Type(), (&testproto.TestAllTypes{}).ProtoReflect().Type()}

// TestLogic: And and Or of message comparers.
func TestLogic(t *testing.T) {
	vkit.Check(t, vkit.N(2000, 50000), func(t *rapid.T) {
		x, y, _ := pair(t, all)
		if rapid.IntRange(0, 9).Draw(t, "nil") == 0 {
			y = nil
		}
		var eqs []cmp.Message
		all, any := true, false
		var names []string
		for i := rapid.IntRange(0, 4).Draw(t, "comparers"); i > 0; i-- {
			var eq cmp.Message
			switch rapid.IntRange(0, 4).Draw(t, "comparer") {
			case 0:
				eq = func(a, b proto.Message) bool { return true }
			case 1:
				eq = func(a, b proto.Message) bool { return false }
			case 2:
				eq = cmp.Equal()
			case 3:
				eq = cmp.Equal(genExpr(t, nil, nil, 1).v)
			default:
				eq = proto.Equal
			}
			eqs = append(eqs, eq)
			r := eq(x, y)
			names = append(names, fmt.Sprint(r))
			all, any = all && r, any || r
		}
		if got := cmp.And(eqs...)(x, y); got != all {
			t.Fatalf("And of %v is %v", names, got)
		}
		if got := cmp.Or(eqs...)(x, y); got != any {
			t.Fatalf("Or of %v is %v", names, got)
		}
		if len(eqs) > 1 && all != any {
			vkit.Nontrivial(fmt.Sprint(names) + show(x) + show(y))
		}
	})
}
