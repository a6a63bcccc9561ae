package resmodel

import (
	"errors"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"pgregory.net/rapid"

	_ "github.com/smart-core-os/sc-api/go/traits" // the messages of Types
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

// Types are the message types written: the all-kinds test message and every trait message.
func Types() []protoreflect.MessageType {
	all := []protoreflect.MessageType{(&testproto.TestAllTypes{}).ProtoReflect().Type()}
	return append(all, vkit.MessageTypes("smartcore.traits.")...)
}

var types = Types()

// ErrPlain is a caller's error that isn't a status.
var ErrPlain = errors.New("the caller's check says no")

// Source draws configs and calls that share a small alphabet.
type Source struct {
	S      *vkit.Subject
	C      *Config
	IDs    []string
	Values []proto.Message
	Masks  []*fieldmaskpb.FieldMask
	Fields []string
	Nums   []string
	// Simple leaves out invalid masks, writable fields and read options.
	Simple bool
}

// GenSource draws a source.
func GenSource(t *rapid.T, collection, simple bool) *Source {
	g := &Source{Simple: simple}
	g.S = vkit.GenSubject(t, types, vkit.MsgGen{Unknown: rapid.IntRange(0, 9).Draw(t, "unknown") == 0, MaxDepth: 2, MaxFields: 3, MaxLen: 2})
	g.C = &Config{MT: g.S.MT, RNGSeed: rapid.Int64().Draw(t, "rngseed")}
	if rapid.IntRange(0, 3).Draw(t, "num") == 0 && g.S.MT == types[0] {
		g.S.Focus["default_int32"], g.S.Focus["default_int64"] = true, true
		g.S.Pool = append(g.S.Pool, "default_int32", "default_int64")
	}
	fs := g.S.MT.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !g.S.Focus[string(fd.Name())] {
			continue
		}
		g.Fields = append(g.Fields, string(fd.Name()))
		if k := fd.Kind(); (k == protoreflect.Int32Kind || k == protoreflect.Int64Kind) && !fd.IsList() && fd.ContainingOneof() == nil {
			g.Nums = append(g.Nums, string(fd.Name()))
		}
	}
	for i := rapid.IntRange(1, 4).Draw(t, "values"); i >= 0; i-- {
		g.Values = append(g.Values, g.S.Msg(t, "v"))
	}
	if rapid.Bool().Draw(t, "emptyvalue") {
		g.Values = append(g.Values, g.S.MT.New().Interface())
	}
	if rapid.IntRange(0, 2).Draw(t, "writable?") == 0 && !simple {
		g.C.Writable = g.S.Mask(t, "writable", g.Values...)
	}
	if collection {
		g.C.Intercept = rapid.SampledFrom([]string{"", "", "", "lower", "prefix", "soft-prefix", "const", "odd"}).Draw(t, "intercept")
		g.C.RNG = rapid.SampledFrom([]string{"", "", "", "", "zero", "cycle", "fail", "short"}).Draw(t, "rng")
		g.C.Initial = map[string]proto.Message{}
		g.IDs = []string{"a", "b", "A", "c"}[:rapid.IntRange(1, 4).Draw(t, "ids")]
		if rapid.IntRange(0, 3).Draw(t, "emptyid") == 0 {
			g.IDs = append(g.IDs, "")
		}
		for i := rapid.IntRange(0, 3).Draw(t, "initial"); i > 0; i-- {
			// initial records are stored under their id as it is
			g.C.Initial[g.C.Map(rapid.SampledFrom(g.IDs).Draw(t, "initial.id"))] = vkit.Pick(t, g.Values, "initial.v")
		}
	} else if rapid.IntRange(0, 4).Draw(t, "value?") > 0 {
		g.C.Value = vkit.Pick(t, g.Values, "initial")
	}
	return g
}

func one(t *rapid.T, in int, label string) bool {
	return rapid.IntRange(0, in-1).Draw(t, label) == in-1
}

func (g *Source) msg(t *rapid.T, label string) proto.Message {
	if one(t, 6, label+".fresh") {
		return g.S.Msg(t, label)
	}
	return vkit.Pick(t, g.Values, label)
}

func (g *Source) check(t *rapid.T) *Check {
	c := &Check{}
	if one(t, 3, "check.same") {
		c.Same = g.msg(t, "check.v")
	} else {
		c.Has = rapid.SampledFrom(g.Fields).Draw(t, "check.f")
		if rapid.Bool().Draw(t, "check.not") {
			c.Has = "!" + c.Has
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "check.err") {
	case 0, 1:
		c.Err = ErrPlain
	case 2:
		c.Err = status.Error(codes.ResourceExhausted, "full")
	case 3:
		c.Err = status.Error(codes.PermissionDenied, "no")
	}
	return c
}

func (g *Source) edit(t *rapid.T, label string) *Edit {
	if len(g.Nums) > 0 && rapid.Bool().Draw(t, label+".num") {
		return &Edit{How: rapid.SampledFrom([]string{"add", "inc"}).Draw(t, label+".how"), Field: rapid.SampledFrom(g.Nums).Draw(t, label+".f")}
	}
	return &Edit{How: rapid.SampledFrom([]string{"keep", "clear"}).Draw(t, label+".how"), Field: rapid.SampledFrom(g.Fields).Draw(t, label+".f")}
}

// Op draws a call; known are ids worth using besides the alphabet, current the stored values.
func (g *Source) Op(t *rapid.T, collection bool, known []string, current []proto.Message) Op {
	var o Op
	kinds := []string{"read", "set", "set", "set"}
	if collection {
		kinds = []string{"get", "list", "add", "add", "update", "update", "update", "update", "delete", "delete"}
	}
	o.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	if collection {
		if len(known) > 0 && one(t, 4, "known") {
			o.ID = rapid.SampledFrom(known).Draw(t, "id")
		} else {
			o.ID = rapid.SampledFrom(g.IDs).Draw(t, "id")
		}
	}
	switch o.Kind {
	case "get", "list", "read":
		if one(t, 3, "read.mask") {
			o.ReadMask = g.S.Mask(t, "read.mask", g.Values...)
		}
		if o.Kind == "list" && one(t, 3, "include") {
			if rapid.Bool().Draw(t, "include.id") {
				o.IncludeN = rapid.SampledFrom([]string{"a", "b", "p/a", "A"}).Draw(t, "include.n")
			} else {
				o.Include = g.check(t)
				o.Include.Err = ErrPlain
			}
		}
		return o
	}
	o.Bare = rapid.Bool().Draw(t, "bare")
	if o.Kind != "delete" {
		o.Msg = g.msg(t, "msg")
	}
	if one(t, 4, "expected") {
		if len(current) > 0 && rapid.Bool().Draw(t, "expected.cur") {
			o.Expected = vkit.Pick(t, current, "expected")
		} else {
			o.Expected = g.msg(t, "expected")
		}
	}
	if one(t, 5, "check") {
		o.Check = g.check(t)
	}
	if one(t, 4, "time") {
		at := time.Unix(int64(rapid.IntRange(0, 1000000).Draw(t, "at")), 0)
		o.Time = &at
	}
	if o.Kind == "delete" {
		o.AllowMissing = rapid.Bool().Draw(t, "allowmissing")
		return o
	}
	if one(t, 3, "update?") {
		o.Update = g.S.Mask(t, "update", g.Values...)
		if !g.Simple && one(t, 6, "update.bad") {
			o.Update = g.S.BadMask(t, "update", g.Values...)
		}
		if one(t, 4, "update.more") && vkit.ValidMask(g.S.MT.Descriptor(), o.Update) {
			o.MoreUpdate = g.S.MaskN(t, "more", g.Values...)
		}
	}
	if one(t, 5, "reset?") {
		o.Reset = g.S.MaskN(t, "reset", g.Values...)
		if !g.Simple && one(t, 10, "reset.bad") {
			o.Reset = g.S.BadMask(t, "reset", g.Values...)
		}
	}
	if g.C.Writable != nil {
		if one(t, 4, "morewritable") {
			o.MoreWritable = g.S.MaskN(t, "morewritable", g.Values...)
		}
		o.AllWritable = one(t, 6, "allwritable")
	}
	if one(t, 4, "before") {
		o.Before = g.edit(t, "before")
	}
	if one(t, 4, "after") {
		o.After = g.edit(t, "after")
	}
	if collection {
		if o.Kind == "update" {
			o.Create = rapid.Bool().Draw(t, "create")
			o.ExpectAbsent = one(t, 6, "expectabsent")
		}
		if o.ID == "" || one(t, 6, "gen") {
			o.GenID = rapid.IntRange(0, 5).Draw(t, "genid") > 0
			if o.GenID && rapid.Bool().Draw(t, "noid") {
				o.ID = ""
			}
		}
	}
	return o
}
