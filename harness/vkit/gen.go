package vkit

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// MsgGen generates sparse messages of any type.
type MsgGen struct {
	MaxFields int                                                                          // fields set per message (default 4)
	MaxDepth  int                                                                          // nesting (default 3)
	MaxLen    int                                                                          // list/map length (default 3)
	Special   bool                                                                         // NaN, infinities, extremes
	Unknown   bool                                                                         // unknown fields
	Only      map[string]bool                                                              // if set: top level fields that may be set
	Skip      func(fd protoreflect.FieldDescriptor) bool                                   // fields never set
	Override  func(t *rapid.T, fd protoreflect.FieldDescriptor) (protoreflect.Value, bool) // custom scalar values
}

// Gen draws a message of the type of proto.
func Gen[M proto.Message](t *rapid.T, g MsgGen, label string) M {
	var zero M
	m := zero.ProtoReflect().New()
	g.Fill(t, m, label, 0)
	return m.Interface().(M)
}

// New draws a message of the given type.
func (g MsgGen) New(t *rapid.T, mt protoreflect.MessageType, label string) proto.Message {
	m := mt.New()
	g.Fill(t, m, label, 0)
	return m.Interface()
}

func def(v, d int) int {
	if v == 0 {
		return d
	}
	return v
}

// Fill sets random fields of m.
func (g MsgGen) Fill(t *rapid.T, m protoreflect.Message, label string, depth int) {
	md := m.Descriptor()
	switch md.FullName() {
	case "google.protobuf.Timestamp":
		ts := GenTime(t, label)
		fs := md.Fields()
		m.Set(fs.ByName("seconds"), protoreflect.ValueOfInt64(ts.Seconds))
		m.Set(fs.ByName("nanos"), protoreflect.ValueOfInt32(ts.Nanos))
		return
	case "google.protobuf.Duration":
		d := GenDuration(t, label)
		fs := md.Fields()
		m.Set(fs.ByName("seconds"), protoreflect.ValueOfInt64(d.Seconds))
		m.Set(fs.ByName("nanos"), protoreflect.ValueOfInt32(d.Nanos))
		return
	}
	var fields []protoreflect.FieldDescriptor
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if depth == 0 && g.Only != nil && !g.Only[string(fd.Name())] {
			continue
		}
		if g.Skip != nil && g.Skip(fd) {
			continue
		}
		if depth >= def(g.MaxDepth, 3) && fd.Message() != nil {
			continue
		}
		fields = append(fields, fd)
	}
	if len(fields) == 0 {
		return
	}
	n := rapid.IntRange(0, min(def(g.MaxFields, 4), len(fields))).Draw(t, label+".n")
	for i := 0; i < n; i++ {
		fd := fields[rapid.IntRange(0, len(fields)-1).Draw(t, label+".f")]
		g.SetField(t, m, fd, label+"."+string(fd.Name()), depth)
	}
	if g.Unknown && rapid.IntRange(0, 7).Draw(t, label+".unk") == 0 {
		m.SetUnknown(GenUnknown(t, label))
	}
}

// GenUnknown draws unknown field bytes.
func GenUnknown(t *rapid.T, label string) protoreflect.RawFields {
	var b []byte
	for i := rapid.IntRange(1, 3).Draw(t, label+".unkn"); i > 0; i-- {
		num := rapid.SampledFrom([]byte{0, 1}).Draw(t, label+".unknum")
		// field 2000+num, varint
		tag := uint64(2000+int(num)) << 3
		for tag >= 0x80 {
			b = append(b, byte(tag)|0x80)
			tag >>= 7
		}
		b = append(b, byte(tag))
		b = append(b, byte(rapid.IntRange(0, 3).Draw(t, label+".unkv")))
	}
	return b
}

// SetField sets fd of m to a random value.
func (g MsgGen) SetField(t *rapid.T, m protoreflect.Message, fd protoreflect.FieldDescriptor, label string, depth int) {
	switch {
	case fd.IsMap():
		mp := m.Mutable(fd).Map()
		for i := rapid.IntRange(0, def(g.MaxLen, 3)).Draw(t, label+".len"); i > 0; i-- {
			k := g.scalar(t, fd.MapKey(), label+".k").MapKey()
			if vd := fd.MapValue(); vd.Message() != nil {
				v := mp.NewValue()
				g.Fill(t, v.Message(), label+".v", depth+1)
				mp.Set(k, v)
			} else {
				mp.Set(k, g.scalar(t, vd, label+".v"))
			}
		}
	case fd.IsList():
		l := m.Mutable(fd).List()
		for i := rapid.IntRange(0, def(g.MaxLen, 3)).Draw(t, label+".len"); i > 0; i-- {
			if fd.Message() != nil {
				v := l.NewElement()
				g.Fill(t, v.Message(), label, depth+1)
				l.Append(v)
			} else {
				l.Append(g.scalar(t, fd, label))
			}
		}
	case fd.Message() != nil:
		g.Fill(t, m.Mutable(fd).Message(), label, depth+1)
	default:
		m.Set(fd, g.scalar(t, fd, label))
	}
}

func (g MsgGen) scalar(t *rapid.T, fd protoreflect.FieldDescriptor, label string) protoreflect.Value {
	if g.Override != nil {
		if v, ok := g.Override(t, fd); ok {
			return v
		}
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, label))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(rapid.IntRange(0, vs.Len()-1).Draw(t, label)).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		p := []int32{0, 1, 2, 3, -1, 7}
		if g.Special {
			p = append(p, math.MaxInt32, math.MinInt32)
		}
		return protoreflect.ValueOfInt32(rapid.SampledFrom(p).Draw(t, label))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		p := []int64{0, 1, 2, 3, -1, 7}
		if g.Special {
			p = append(p, math.MaxInt64, math.MinInt64)
		}
		return protoreflect.ValueOfInt64(rapid.SampledFrom(p).Draw(t, label))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(rapid.SampledFrom([]uint32{0, 1, 2, 3, math.MaxUint32}).Draw(t, label))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(rapid.SampledFrom([]uint64{0, 1, 2, 3, math.MaxUint64}).Draw(t, label))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(g.float(t, label)))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(g.float(t, label))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(rapid.SampledFrom([]string{"", "a", "b", "c", "d", "é"}).Draw(t, label))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(rapid.SampledFrom([]string{"", "a", "b", "\x00"}).Draw(t, label)))
	}
	panic("unexpected kind " + fd.Kind().String())
}

func (g MsgGen) float(t *rapid.T, label string) float64 {
	p := []float64{0, 1, 2, -1, 0.5, 100}
	if g.Special {
		p = append(p, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32)
	}
	return rapid.SampledFrom(p).Draw(t, label)
}

// GenTime draws a valid timestamp from a small pool around a base.
func GenTime(t *rapid.T, label string) *timestamppb.Timestamp {
	s := rapid.SampledFrom([]int64{0, 1, 2, 1_700_000_000, 1_700_000_001, -1}).Draw(t, label+".s")
	n := rapid.SampledFrom([]int32{0, 0, 1, 500_000_000}).Draw(t, label+".ns")
	return &timestamppb.Timestamp{Seconds: s, Nanos: n}
}

// GenDuration draws a valid duration.
func GenDuration(t *rapid.T, label string) *durationpb.Duration {
	return durationpb.New(rapid.SampledFrom([]time.Duration{0, 1, time.Second, 2 * time.Second, 1500 * time.Millisecond, -time.Second, time.Hour}).Draw(t, label))
}

// Paths lists the valid field mask paths of md up to depth levels.
func Paths(md protoreflect.MessageDescriptor, depth int) []string {
	var out []string
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		out = append(out, string(fd.Name()))
		if depth > 1 && fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			for _, p := range Paths(fd.Message(), depth-1) {
				out = append(out, string(fd.Name())+"."+p)
			}
		}
	}
	return out
}

// GenPath draws a valid path; prefer steers towards paths that exist in m.
func GenPath(t *rapid.T, md protoreflect.MessageDescriptor, prefer protoreflect.Message, label string) string {
	var parts []string
	for depth := 0; depth < 4; depth++ {
		var fds []protoreflect.FieldDescriptor
		if prefer != nil && prefer.IsValid() && rapid.IntRange(0, 3).Draw(t, label+".pref") > 0 {
			prefer.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
				fds = append(fds, fd)
				return true
			})
			sort.Slice(fds, func(i, j int) bool { return fds[i].Number() < fds[j].Number() })
		}
		if len(fds) == 0 {
			for i := 0; i < md.Fields().Len(); i++ {
				fds = append(fds, md.Fields().Get(i))
			}
		}
		if len(fds) == 0 {
			break
		}
		fd := fds[rapid.IntRange(0, len(fds)-1).Draw(t, label+".i")]
		parts = append(parts, string(fd.Name()))
		if fd.Message() == nil || fd.IsList() || fd.IsMap() || !rapid.Bool().Draw(t, label+".deep") {
			break
		}
		md = fd.Message()
		if prefer != nil {
			if prefer.Has(fd) {
				prefer = prefer.Get(fd).Message()
			} else {
				prefer = nil
			}
		}
	}
	return strings.Join(parts, ".")
}

// GenMask draws a valid mask (possibly with duplicate or overlapping paths). nil 1 in 6, empty 1 in 8.
func GenMask(t *rapid.T, md protoreflect.MessageDescriptor, prefer protoreflect.Message, label string) *fieldmaskpb.FieldMask {
	switch rapid.IntRange(0, 11).Draw(t, label+".kind") {
	case 0, 1:
		return nil
	case 2:
		return &fieldmaskpb.FieldMask{}
	}
	return GenMaskNonEmpty(t, md, prefer, label)
}

// GenMaskNonEmpty draws a valid mask with 1-4 paths.
func GenMaskNonEmpty(t *rapid.T, md protoreflect.MessageDescriptor, prefer protoreflect.Message, label string) *fieldmaskpb.FieldMask {
	n := rapid.IntRange(1, 4).Draw(t, label+".n")
	m := &fieldmaskpb.FieldMask{}
	for i := 0; i < n; i++ {
		m.Paths = append(m.Paths, GenPath(t, md, prefer, label))
	}
	return m
}

// GenBadPath draws an invalid path: unknown field, or one that continues through a scalar, map or list.
func GenBadPath(t *rapid.T, md protoreflect.MessageDescriptor, prefer protoreflect.Message, label string) string {
	for i := 0; i < 20; i++ {
		p := GenPath(t, md, prefer, label)
		fd := PathField(md, p)
		if rapid.IntRange(0, 3).Draw(t, label+".bk") == 0 {
			return p + "." + "no_such_field"
		}
		if fd.IsList() || fd.IsMap() || fd.Message() == nil {
			if fd.Message() != nil && fd.Message().Fields().Len() > 0 {
				fs := fd.Message().Fields()
				return p + "." + string(fs.Get(rapid.IntRange(0, fs.Len()-1).Draw(t, label+".bf")).Name())
			}
			return p + "." + rapid.SampledFrom([]string{"x", "value", "a"}).Draw(t, label+".bx")
		}
	}
	return "no_such_field"
}

// PathField resolves a valid path to its field.
func PathField(md protoreflect.MessageDescriptor, path string) protoreflect.FieldDescriptor {
	var fd protoreflect.FieldDescriptor
	for _, p := range strings.Split(path, ".") {
		fd = md.Fields().ByName(protoreflect.Name(p))
		if fd == nil {
			return nil
		}
		md = fd.Message()
	}
	return fd
}

// Text renders a message deterministically on one line.
func Text(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	if !m.ProtoReflect().IsValid() {
		return "<typed nil " + string(m.ProtoReflect().Descriptor().Name()) + ">"
	}
	b, err := prototext.MarshalOptions{AllowPartial: true, EmitUnknown: true}.Marshal(m)
	if err != nil {
		return fmt.Sprint(err)
	}
	// prototext randomises whitespace: normalise
	return "{" + strings.Join(strings.Fields(string(b)), " ") + "}"
}

// MaskText renders a mask.
func MaskText(m *fieldmaskpb.FieldMask) string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("%q", m.Paths)
}

// MessageTypes lists the registered message types whose full name starts with one of the prefixes, sorted.
func MessageTypes(prefixes ...string) []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		d := mt.Descriptor()
		if d.IsMapEntry() || d.Fields().Len() == 0 {
			return true
		}
		for _, p := range prefixes {
			if strings.HasPrefix(string(d.FullName()), p) {
				out = append(out, mt)
				break
			}
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

// ValidPath is an independent reading of the field mask rules: proto field names, and only singular
// messages may be continued through.
func ValidPath(md protoreflect.MessageDescriptor, path string) bool {
	if path == "" {
		return false
	}
	for _, p := range strings.Split(path, ".") {
		if md == nil {
			return false
		}
		fd := md.Fields().ByName(protoreflect.Name(p))
		if fd == nil {
			return false
		}
		md = nil
		if !fd.IsList() && !fd.IsMap() {
			md = fd.Message()
		}
	}
	return true
}

// ValidMask: every path is valid; a nil mask is.
func ValidMask(md protoreflect.MessageDescriptor, m *fieldmaskpb.FieldMask) bool {
	for _, p := range m.GetPaths() {
		if !ValidPath(md, p) {
			return false
		}
	}
	return true
}

// Subject is a message type with a small set of fields in focus, so that messages and masks drawn for it
// often meet.
type Subject struct {
	MT    protoreflect.MessageType
	Focus map[string]bool
	Pool  []string // valid paths starting at focus fields
	Gen   MsgGen
}

// GenSubject draws a subject from the types (the first one half of the time).
func GenSubject(t *rapid.T, types []protoreflect.MessageType, g MsgGen) *Subject {
	s := &Subject{Gen: g, Focus: map[string]bool{}}
	if rapid.Bool().Draw(t, "alltypes") {
		s.MT = types[0]
	} else {
		s.MT = Pick(t, types, "type")
	}
	fs := s.MT.Descriptor().Fields()
	n := rapid.IntRange(1, min(6, fs.Len())).Draw(t, "focus.n")
	// half of the time start at message fields
	var msgs []protoreflect.FieldDescriptor
	for i := 0; i < fs.Len(); i++ {
		if fd := fs.Get(i); fd.Message() != nil && !fd.IsList() && !fd.IsMap() || fd.ContainingOneof() != nil && !fd.ContainingOneof().IsSynthetic() {
			msgs = append(msgs, fd)
		}
	}
	for i := 0; i < n; i++ {
		var fd protoreflect.FieldDescriptor
		if len(msgs) > 0 && rapid.Bool().Draw(t, "focus.msg") {
			fd = Pick(t, msgs, "focus")
		} else {
			fd = fs.Get(rapid.IntRange(0, fs.Len()-1).Draw(t, "focus"))
		}
		s.Focus[string(fd.Name())] = true
	}
	for _, p := range Paths(s.MT.Descriptor(), 1) {
		if s.Focus[p] {
			s.Pool = append(s.Pool, p)
		}
	}
	s.Gen.Only = s.Focus
	if s.Gen.MaxFields == 0 {
		s.Gen.MaxFields = 6
	}
	return s
}

// Msg draws a message; nested types re-use few field numbers by being small anyway.
func (s *Subject) Msg(t *rapid.T, label string) proto.Message {
	return s.Gen.New(t, s.MT, label)
}

// Path draws a valid path; with two messages given it prefers walking into what they contain.
func (s *Subject) Path(t *rapid.T, label string, prefer ...proto.Message) string {
	p := rapid.SampledFrom(s.Pool).Draw(t, label)
	fd := s.MT.Descriptor().Fields().ByName(protoreflect.Name(p))
	var ms []protoreflect.Message
	for _, m := range prefer {
		if m != nil {
			ms = append(ms, m.ProtoReflect())
		}
	}
	for depth := 0; depth < 3 && fd.Message() != nil && !fd.IsList() && !fd.IsMap() && rapid.Bool().Draw(t, label+".deep"); depth++ {
		var next []protoreflect.Message
		set := map[protoreflect.FieldNumber]bool{}
		for _, m := range ms {
			if m.Has(fd) {
				n := m.Get(fd).Message()
				next = append(next, n)
				n.Range(func(f protoreflect.FieldDescriptor, _ protoreflect.Value) bool { set[f.Number()] = true; return true })
			}
		}
		fs := fd.Message().Fields()
		var cand []protoreflect.FieldDescriptor
		pref := rapid.IntRange(0, 3).Draw(t, label+".pref") > 0
		for i := 0; i < fs.Len(); i++ {
			if !pref || set[fs.Get(i).Number()] {
				cand = append(cand, fs.Get(i))
			}
		}
		if len(cand) == 0 {
			for i := 0; i < fs.Len(); i++ {
				cand = append(cand, fs.Get(i))
			}
		}
		if len(cand) == 0 {
			break
		}
		fd = Pick(t, cand, label+".f")
		p += "." + string(fd.Name())
		ms = next
	}
	return p
}

// Mask draws a valid mask: sometimes nil, sometimes empty, with duplicates and overlaps.
func (s *Subject) Mask(t *rapid.T, label string, prefer ...proto.Message) *fieldmaskpb.FieldMask {
	switch rapid.IntRange(0, 9).Draw(t, label+".kind") {
	case 0, 1:
		return nil
	case 2:
		return &fieldmaskpb.FieldMask{}
	}
	return s.MaskN(t, label, prefer...)
}

// MaskN draws a mask with 1-5 paths.
func (s *Subject) MaskN(t *rapid.T, label string, prefer ...proto.Message) *fieldmaskpb.FieldMask {
	m := &fieldmaskpb.FieldMask{}
	for i := rapid.IntRange(1, 5).Draw(t, label+".n"); i > 0; i-- {
		if len(m.Paths) > 0 && rapid.IntRange(0, 4).Draw(t, label+".rel") == 0 {
			// an ancestor or duplicate of an earlier path
			p := rapid.SampledFrom(m.Paths).Draw(t, label+".of")
			if i := strings.LastIndexByte(p, '.'); i > 0 && rapid.Bool().Draw(t, label+".up") {
				p = p[:i]
			}
			m.Paths = append(m.Paths, p)
			continue
		}
		m.Paths = append(m.Paths, s.Path(t, label, prefer...))
	}
	return m
}

// BadMask draws a mask with at least one invalid path.
func (s *Subject) BadMask(t *rapid.T, label string, prefer ...proto.Message) *fieldmaskpb.FieldMask {
	m := &fieldmaskpb.FieldMask{}
	if rapid.Bool().Draw(t, label+".mix") {
		m = s.MaskN(t, label, prefer...)
	}
	var p string
	for try := 0; ; try++ {
		p = s.Path(t, label+".bad", prefer...)
		fd := PathField(s.MT.Descriptor(), p)
		switch k := rapid.IntRange(0, 5).Draw(t, label+".how"); {
		case k == 0:
			p = "no_such_field"
		case k == 1 && !strings.Contains(p, "."):
			p = fd.JSONName() // JSON names aren't path segments
		case fd.Message() != nil && fd.IsList():
			fs := fd.Message().Fields()
			p += "." + string(fs.Get(rapid.IntRange(0, fs.Len()-1).Draw(t, label+".lf")).Name())
		case fd.IsMap():
			p += "." + rapid.SampledFrom([]string{"key", "value", "a", "value.a"}).Draw(t, label+".mf")
		case fd.Message() == nil:
			p += "." + rapid.SampledFrom([]string{"a", "seconds", "x.y"}).Draw(t, label+".sf")
		case k == 2:
			p = "." + p
		case k == 3:
			p = p + "."
		case k == 4:
			p = ""
		default:
			p += ".no_such_field"
		}
		if !ValidPath(s.MT.Descriptor(), p) {
			break
		}
		if try > 20 {
			p = "no_such_field"
			break
		}
	}
	i := rapid.IntRange(0, len(m.Paths)).Draw(t, label+".at")
	m.Paths = append(m.Paths[:i:i], append([]string{p}, m.Paths[i:]...)...)
	return m
}

// Pick draws an element by index (its dump in a failure report is a number).
func Pick[T any](t *rapid.T, s []T, label string) T {
	return s[rapid.IntRange(0, len(s)-1).Draw(t, label)]
}

// ListMask draws a mask of which at least one path continues through a repeated message: invalid, but with an
// obvious meaning (the fields of each element). ok is false if the type has no such field in focus.
func (s *Subject) ListMask(t *rapid.T, label string, prefer ...proto.Message) (m *fieldmaskpb.FieldMask, ok bool) {
	m = &fieldmaskpb.FieldMask{}
	for i := rapid.IntRange(1, 4).Draw(t, label+".n"); i > 0; i-- {
		p := s.Path(t, label, prefer...)
		for depth := 0; depth < 3; depth++ {
			fd := s.resolve(p)
			if fd == nil || fd.Message() == nil || fd.IsMap() || fd.Message().Fields().Len() == 0 {
				break
			}
			if !fd.IsList() && rapid.Bool().Draw(t, label+".stop") {
				break
			}
			if fd.IsList() && ok && rapid.IntRange(0, 3).Draw(t, label+".whole") == 0 {
				break
			}
			ok = ok || fd.IsList()
			fs := fd.Message().Fields()
			p += "." + string(fs.Get(rapid.IntRange(0, fs.Len()-1).Draw(t, label+".in")).Name())
		}
		m.Paths = append(m.Paths, p)
	}
	return m, ok
}

func (s *Subject) resolve(p string) protoreflect.FieldDescriptor {
	return PathField(s.MT.Descriptor(), p)
}
