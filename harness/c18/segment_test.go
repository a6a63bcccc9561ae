package c18

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb/segmentpb"
)

type seg = traits.ElectricMode_Segment

// piece is one constant stretch [from,to) of a step function; to = inf for the unbounded one.
type piece struct {
	from, to time.Duration
	mag      float64
	index    int
}

const inf = time.Duration(math.MaxInt64)

// pieces reads a segment list as a step function; zero length segments have no extent.
func pieces(ss []*seg) []piece {
	var out []piece
	var at time.Duration
	for i, s := range ss {
		if s.Length == nil {
			out = append(out, piece{at, inf, float64(s.Magnitude), i})
			break
		}
		l := time.Duration(s.Length.Seconds)*time.Second + time.Duration(s.Length.Nanos)
		if l > 0 {
			out = append(out, piece{at, at + l, float64(s.Magnitude), i})
		}
		at += l
	}
	return out
}

// value of the step function: 0 outside.
func value(ps []piece, d time.Duration) (float64, bool) {
	for _, p := range ps {
		if d >= p.from && (p.to == inf || d < p.to) {
			return p.mag, true
		}
	}
	return 0, false
}

func total(ps []piece) (time.Duration, bool) {
	if len(ps) == 0 {
		return 0, false
	}
	last := ps[len(ps)-1]
	if last.to == inf {
		return last.from, true
	}
	return last.to, false
}

// genSegs draws a well-formed list (only the last length may be absent), with spare capacity behind it
// that holds a sentinel.
func genSegs(t *rapid.T, unit time.Duration, frac bool, label string) *segList {
	n := rapid.IntRange(0, 6).Draw(t, label+".n")
	l := &segList{}
	for i := 0; i < n; i++ {
		s := &seg{}
		if frac {
			s.Magnitude = rapid.SampledFrom([]float32{0, 0.1, 0.2, 0.3, 0.7, 1.1, 3.3}).Draw(t, label+".m")
		} else {
			s.Magnitude = float32(rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 10, -1, -2}).Draw(t, label+".m"))
		}
		k := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 7}).Draw(t, label+".l")
		s.Length = durationpb.New(time.Duration(k) * unit)
		if i == n-1 && rapid.IntRange(0, 2).Draw(t, label+".inf") == 0 {
			s.Length = nil
		}
		if rapid.IntRange(0, 3).Draw(t, label+".shape") == 0 {
			s.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: float32(rapid.IntRange(0, 2).Draw(t, label+".fixed"))}
		}
		l.full = append(l.full, s)
	}
	l.n = n
	for i := 0; i < 2; i++ {
		l.full = append(l.full, &seg{Magnitude: 12345})
	}
	l.snap()
	return l
}

// segList is an argument under watch: elements, element contents and spare capacity.
type segList struct {
	full []*seg
	n    int
	ptrs []*seg
	vals []*seg
}

func (l *segList) snap() {
	l.ptrs = append([]*seg(nil), l.full...)
	l.vals = nil
	for _, s := range l.full {
		l.vals = append(l.vals, vkit.Copy(s))
	}
}

func (l *segList) arg() []*seg { return l.full[:l.n] }

func (l *segList) unchanged(t vkit.Fataler, what string) {
	t.Helper()
	for i := range l.full {
		if l.full[i] != l.ptrs[i] {
			t.Fatalf("%s replaced element %d of its argument's array", what, i)
		}
		if !proto.Equal(l.full[i], l.vals[i]) {
			t.Fatalf("%s modified its argument: segment %d was %v, now %v", what, i, l.vals[i], l.full[i])
		}
	}
}

func segText(ss []*seg) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, s := range ss {
		if i > 0 {
			b.WriteByte(' ')
		}
		if s.Length == nil {
			fmt.Fprintf(&b, "%gx inf", s.Magnitude)
		} else {
			fmt.Fprintf(&b, "%gx%v", s.Magnitude, s.Length.AsDuration())
		}
		if s.Shape != nil {
			b.WriteByte('*')
		}
	}
	b.WriteByte(']')
	return b.String()
}

// samplePoints lists every break point, its neighbours and the mid points.
func samplePoints(lists ...[]piece) []time.Duration {
	set := map[time.Duration]bool{0: true, 1: true, -1: true}
	for _, ps := range lists {
		for _, p := range ps {
			set[p.from], set[p.from-1], set[p.from+1] = true, true, true
			if p.to != inf {
				set[p.to], set[p.to-1], set[p.to+1] = true, true, true
				set[(p.from+p.to)/2] = true
			} else {
				set[p.from+time.Hour] = true
			}
		}
	}
	var out []time.Duration
	for d := range set {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	n := len(out)
	for i := 0; i+1 < n; i++ {
		out = append(out, (out[i]+out[i+1])/2)
	}
	return append(out, out[n-1]+1000*time.Hour)
}

var units = []time.Duration{1, time.Microsecond, time.Second, time.Hour}

// genPoint draws a time at or around a break point.
func genPoint(t *rapid.T, ps []piece, unit time.Duration, label string) time.Duration {
	if rapid.IntRange(0, 3).Draw(t, label+".any") == 0 {
		return time.Duration(rapid.IntRange(-10, 40).Draw(t, label)) * unit
	}
	pts := samplePoints(ps)
	return rapid.SampledFrom(pts).Draw(t, label)
}

func nontrivial(l []*seg) bool {
	ps := pieces(l)
	return len(ps) >= 2
}

func TestSegmentRead(t *testing.T) {
	vkit.Check(t, vkit.N(15000, 150000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		l := genSegs(t, unit, false, "s")
		ss := l.arg()
		ps := pieces(ss)
		txt := segText(ss)
		if nontrivial(ss) {
			vkit.Nontrivial(txt)
		}
		for _, d := range samplePoints(ps) {
			wv, wok := value(ps, d)
			gv, gok := segmentpb.MagnitudeAt(d, ss...)
			if float64(gv) != wv || gok != wok {
				t.Fatalf("MagnitudeAt(%v, %s)=%v,%v want %v,%v", d, txt, gv, gok, wv, wok)
			}
			e, i := segmentpb.ActiveAt(d, ss...)
			we, wi := activeOracle(ss, ps, d)
			if (e != we || i != wi) && !(len(ss) == 0 && d < 0) {
				t.Fatalf("ActiveAt(%v, %s)=%v,%d want %v,%d", d, txt, e, i, we, wi)
			}
			wm := maxOracle(ss, wi)
			if gm := segmentpb.MaxAfter(d, ss...); gm != wm {
				t.Fatalf("MaxAfter(%v, %s)=%d want %d", d, txt, gm, wm)
			}
		}
		td, ti := total(ps)
		if g, gi := segmentpb.Duration(ss...); g != td || gi != ti {
			t.Fatalf("Duration(%s)=%v,%v want %v,%v", txt, g, gi, td, ti)
		}
		wm := maxOracle(ss, 0)
		if g := segmentpb.Max(ss...); g != wm {
			t.Fatalf("Max(%s)=%d want %d", txt, g, wm)
		}
		var want float32
		if wm < len(ss) {
			want = ss[wm].Magnitude
		}
		if g := segmentpb.MaxMagnitude(ss...); g != want {
			t.Fatalf("MaxMagnitude(%s)=%v want %v", txt, g, want)
		}
		var sum float32
		for _, s := range ss {
			sum += s.Magnitude
		}
		if g := segmentpb.SumMagnitude(ss...); g != sum {
			t.Fatalf("SumMagnitude(%s)=%v want %v", txt, g, sum)
		}
		l.unchanged(t, "reading "+txt)
	})
}

func activeOracle(ss []*seg, ps []piece, d time.Duration) (time.Duration, int) {
	if d < 0 {
		return d, 0
	}
	for _, p := range ps {
		if d >= p.from && (p.to == inf || d < p.to) {
			return p.from, p.index
		}
	}
	td, _ := total(ps)
	return td, len(ss)
}

// maxOracle is the first index >= from of a segment with extent and the largest magnitude.
func maxOracle(ss []*seg, from int) int {
	best := len(ss)
	for _, p := range pieces(ss) {
		if p.index < from {
			continue
		}
		if best == len(ss) || p.mag > float64(ss[best].Magnitude) {
			best = p.index
		}
	}
	return best
}

func sameFn(t vkit.Fataler, what string, got []*seg, want func(d time.Duration) float64, pts []time.Duration, tol float64) {
	t.Helper()
	ps := pieces(got)
	for _, d := range pts {
		if d < 0 {
			continue
		}
		gv, _ := value(ps, d)
		wv := want(d)
		if math.Abs(gv-wv) > tol {
			t.Fatalf("%s = %s: at %v it is %v, want %v", what, segText(got), d, gv, wv)
		}
		mv, ok := segmentpb.MagnitudeAt(d, got...)
		if !ok {
			mv = 0
		}
		if math.Abs(float64(mv)-wv) > tol {
			t.Fatalf("%s = %s: MagnitudeAt(%v) is %v, want %v", what, segText(got), d, mv, wv)
		}
	}
}

// wellFormed: only the last length may be absent, no negative lengths.
func wellFormed(t vkit.Fataler, what string, ss []*seg) {
	t.Helper()
	for i, s := range ss {
		if s == nil {
			t.Fatalf("%s has a nil segment at %d", what, i)
		}
		if s.Length == nil && i != len(ss)-1 {
			t.Fatalf("%s = %s: segment %d has no length but is not the last", what, segText(ss), i)
		}
		if s.Length != nil && s.Length.AsDuration() < 0 {
			t.Fatalf("%s = %s: negative length at %d", what, segText(ss), i)
		}
	}
}

func TestSegmentShift(t *testing.T) {
	vkit.Check(t, vkit.N(15000, 150000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		l := genSegs(t, unit, false, "s")
		ss := l.arg()
		ps := pieces(ss)
		d := genPoint(t, ps, unit, "d")
		if rapid.Bool().Draw(t, "neg") {
			d = -d
		}
		what := fmt.Sprintf("Shift(%v, %s)", d, segText(ss))
		if nontrivial(ss) && d != 0 {
			vkit.Nontrivial(what)
			vkit.Class("shift sign %v", d > 0)
		}
		out := segmentpb.Shift(d, ss...)
		l.unchanged(t, what)
		wellFormed(t, what, out)
		var pts []time.Duration
		for _, p := range samplePoints(ps) {
			pts = append(pts, p, p+d, p-d)
		}
		sameFn(t, what, out, func(x time.Duration) float64 {
			v, _ := value(ps, x-d)
			return v
		}, pts, 0)
		td, ti := total(ps)
		gd, gi := segmentpb.Duration(out...)
		if gi != ti {
			t.Fatalf("%s = %s: infinite=%v", what, segText(out), gi)
		}
		if !ti && len(ss) > 0 {
			if w := max(0, td+d); gd != w {
				t.Fatalf("%s = %s: lasts %v, want %v", what, segText(out), gd, w)
			}
		}
		// the cut segment keeps its shape: every extent of the result carries the shape that the source had there
		for _, p := range pieces(out) {
			x := p.from - d
			if x < 0 {
				x = 0
				if p.to != inf && p.to <= d {
					continue // the inserted lead-in
				}
			}
			for _, q := range ps {
				if x >= q.from && (q.to == inf || x < q.to) && q.mag == p.mag {
					if !sameShape(out[p.index], ss[q.index]) {
						t.Fatalf("%s = %s: shape lost at %v", what, segText(out), p.from)
					}
				}
			}
		}
	})
}

func sameShape(a, b *seg) bool {
	_, aok := a.Shape.(*traits.ElectricMode_Segment_Fixed)
	_, bok := b.Shape.(*traits.ElectricMode_Segment_Fixed)
	return aok == bok && a.GetFixed() == b.GetFixed()
}

func TestSegmentCut(t *testing.T) {
	vkit.Check(t, vkit.N(15000, 150000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		l := &segList{}
		for len(l.arg()) == 0 {
			l = genSegs(t, unit, false, "s")
		}
		s := l.arg()[len(l.arg())-1]
		one := []*seg{s}
		ps := pieces(one)
		d := genPoint(t, ps, unit, "d")
		what := fmt.Sprintf("Cut(%v, %s)", d, segText(one))
		before, after, outside := segmentpb.Cut(d, s)
		l.unchanged(t, what)
		var bl, al []*seg
		if before != nil {
			bl = []*seg{before}
		}
		if after != nil {
			al = []*seg{after}
		}
		what = fmt.Sprintf("%s = %s %s %v", what, segText(bl), segText(al), outside)
		ln := inf
		if s.Length != nil {
			ln = s.Length.AsDuration()
		}
		wantOutside := d < 0 || (d > 0 && d >= ln)
		if outside != wantOutside {
			t.Fatalf("%s: outside should be %v", what, wantOutside)
		}
		if (before == nil) != (d <= 0) || (after == nil) != (d > 0 && d >= ln) {
			t.Fatalf("%s: wrong sides", what)
		}
		vkit.Class("cut outside=%v infinite=%v", outside, ln == inf)
		if !outside && d > 0 {
			vkit.Nontrivial(fmt.Sprint(d, segText(one)))
			if got, _ := total(pieces(bl)); got != d {
				t.Fatalf("%s: before lasts %v", what, got)
			}
		}
		pts := samplePoints(ps, []piece{{from: max(d, 0), to: inf}})
		off := max(d, 0)
		if before != nil {
			sameFn(t, what+" before", bl, func(x time.Duration) float64 {
				if x >= off && !outside {
					return 0
				}
				v, _ := value(ps, x)
				return v
			}, pts, 0)
			if !sameShape(before, s) {
				t.Fatalf("%s: before lost the shape", what)
			}
		}
		if after != nil {
			sameFn(t, what+" after", al, func(x time.Duration) float64 {
				v, _ := value(ps, x+off)
				return v
			}, pts, 0)
			if !sameShape(after, s) {
				t.Fatalf("%s: after lost the shape", what)
			}
		}
	})
}

func sumCase(t *rapid.T, frac bool, tol float64) {
	unit := rapid.SampledFrom(units).Draw(t, "unit")
	n := rapid.IntRange(0, 4).Draw(t, "lists")
	var ls []*segList
	var args [][]*seg
	var pss [][]piece
	var txts []string
	anyInf := false
	for i := 0; i < n; i++ {
		l := genSegs(t, unit, frac, fmt.Sprint("s", i))
		ls = append(ls, l)
		args = append(args, l.arg())
		ps := pieces(l.arg())
		pss = append(pss, ps)
		txts = append(txts, segText(l.arg()))
		if _, i := total(ps); i {
			anyInf = true
		}
	}
	what := "Sum(" + strings.Join(txts, ", ") + ")"
	out := segmentpb.Sum(args...)
	for _, l := range ls {
		l.unchanged(t, what)
	}
	wellFormed(t, what, out)
	sameFn(t, what, out, func(x time.Duration) float64 {
		var s float64
		for _, ps := range pss {
			v, _ := value(ps, x)
			s += v
		}
		return s
	}, samplePoints(pss...), tol)
	if _, gi := total(pieces(out)); gi && !anyInf {
		t.Fatalf("%s = %s is infinite, no argument is", what, segText(out))
	}
	if n >= 2 {
		vkit.Nontrivial(what)
	}
	vkit.Class("sum of %d infinite=%v", n, anyInf)
}

func TestSegmentSum(t *testing.T) {
	vkit.Check(t, vkit.N(15000, 150000), func(t *rapid.T) { sumCase(t, false, 0) })
}

// TestSegmentSumFraction: magnitudes that are not exact in binary: values agree to rounding.
func TestSegmentSumFraction(t *testing.T) {
	vkit.Check(t, vkit.N(8000, 80000), func(t *rapid.T) { sumCase(t, true, 1e-3) })
}

// ---- modes

var bases = []time.Time{
	{}, // year 1, the Go zero time and the smallest valid timestamp
	time.Unix(0, 0).UTC(),
	time.Unix(1_700_000_000, 5).UTC(),
	time.Unix(-5, 0).UTC(),
}

func genMode(t *rapid.T, base time.Time, unit time.Duration, label string) (*traits.ElectricMode, *segList) {
	l := genSegs(t, unit, false, label)
	m := &traits.ElectricMode{Segments: l.arg()}
	if rapid.IntRange(0, 2).Draw(t, label+".st") > 0 {
		m.StartTime = timestamppb.New(base.Add(time.Duration(rapid.IntRange(0, 8).Draw(t, label+".at")) * unit))
	}
	m.Id = rapid.SampledFrom([]string{"", "id"}).Draw(t, label+".id")
	m.Title = rapid.SampledFrom([]string{"", "title"}).Draw(t, label+".title")
	m.Description = rapid.SampledFrom([]string{"", "desc"}).Draw(t, label+".desc")
	m.Voltage = float32(rapid.SampledFrom([]int{0, 240}).Draw(t, label+".v"))
	m.Normal = rapid.Bool().Draw(t, label+".normal")
	return m, l
}

func modeText(m *traits.ElectricMode) string {
	if m == nil {
		return "nil"
	}
	st := "-"
	if m.StartTime != nil {
		st = m.StartTime.AsTime().Format(time.RFC3339Nano)
	}
	return st + segText(m.Segments)
}

// modeAt: the mode as a function of absolute time; without a start time it starts at ref.
func modeAt(m *traits.ElectricMode, ref, at time.Time) (float64, bool) {
	st := ref
	if m.StartTime != nil {
		st = m.StartTime.AsTime()
	}
	return value(pieces(m.Segments), at.Sub(st))
}

type modeWatch struct {
	m    *traits.ElectricMode
	copy *traits.ElectricMode
	l    *segList
}

func watch(m *traits.ElectricMode, l *segList) *modeWatch {
	return &modeWatch{m, vkit.Copy(m), l}
}

func (w *modeWatch) unchanged(t vkit.Fataler, what string) {
	t.Helper()
	w.l.unchanged(t, what)
	if !proto.Equal(w.m, w.copy) {
		t.Fatalf("%s modified its argument: was %v now %v", what, w.copy, w.m)
	}
}

// sameMeta: everything but segments and start time.
func sameMeta(a, b *traits.ElectricMode) bool {
	a, b = vkit.Copy(a), vkit.Copy(b)
	a.Segments, b.Segments, a.StartTime, b.StartTime = nil, nil, nil, nil
	return proto.Equal(a, b)
}

func modePoints(ms []*traits.ElectricMode, ref time.Time) []time.Time {
	var out []time.Time
	for _, m := range ms {
		st := ref
		if m.StartTime != nil {
			st = m.StartTime.AsTime()
		}
		for _, d := range samplePoints(pieces(m.Segments)) {
			out = append(out, st.Add(d))
		}
	}
	return append(out, ref)
}

func TestModeRead(t *testing.T) {
	vkit.Check(t, vkit.N(10000, 100000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		base := rapid.SampledFrom(bases).Draw(t, "base")
		ms := map[string]*traits.ElectricMode{}
		var all []*traits.ElectricMode
		var ws []*modeWatch
		for i := rapid.IntRange(0, 4).Draw(t, "modes"); i > 0; i-- {
			m, l := genMode(t, base, unit, fmt.Sprint("m", i))
			ms[fmt.Sprint(i)] = m
			all = append(all, m)
			ws = append(ws, watch(m, l))
		}
		for _, at := range modePoints(all, base.Add(time.Duration(rapid.IntRange(0, 9).Draw(t, "ref"))*unit)) {
			for _, m := range all {
				st := at
				if m.StartTime != nil {
					st = m.StartTime.AsTime()
				}
				d := at.Sub(st)
				wv, wok := modeAt(m, at, at)
				if gv, gok := modepb.MagnitudeAt(at, m); float64(gv) != wv || gok != wok {
					t.Fatalf("MagnitudeAt(%v, %s)=%v,%v want %v,%v", at, modeText(m), gv, gok, wv, wok)
				}
				we, wi := activeOracle(m.Segments, pieces(m.Segments), d)
				if ge, gi := modepb.ActiveAt(at, m); (ge != we || gi != wi) && !(len(m.Segments) == 0 && d < 0) {
					t.Fatalf("ActiveAt(%v, %s)=%v,%v want %v,%v", at, modeText(m), ge, gi, we, wi)
				}
				if g, w := modepb.MaxSegmentAfter(at, m), maxOracle(m.Segments, wi); g != w {
					t.Fatalf("MaxSegmentAfter(%v, %s)=%v want %v", at, modeText(m), g, w)
				}
			}
			gm, gv := modepb.MinAt(at, ms)
			if len(ms) == 0 {
				if gm != nil {
					t.Fatalf("MinAt of no modes is %v", gm)
				}
				continue
			}
			best := math.Inf(1)
			for _, m := range all {
				v, _ := modeAt(m, at, at)
				best = math.Min(best, v)
			}
			found := false
			for _, m := range all {
				v, _ := modeAt(m, at, at)
				found = found || (m == gm && v == best)
			}
			if float64(gv) != best || !found {
				t.Fatalf("MinAt(%v) = %s, %v; the minimum is %v", at, modeText(gm), gv, best)
			}
		}
		for _, w := range ws {
			w.unchanged(t, "reading modes")
		}
		if len(all) > 1 {
			var s []string
			for _, m := range all {
				s = append(s, modeText(m))
			}
			vkit.Nontrivial(strings.Join(s, " "))
		}
	})
}

func TestModeShift(t *testing.T) {
	vkit.Check(t, vkit.N(10000, 100000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		base := rapid.SampledFrom(bases[1:]).Draw(t, "base")
		m, l := genMode(t, base, unit, "m")
		w := watch(m, l)
		d := genPoint(t, pieces(m.Segments), unit, "d")
		if rapid.Bool().Draw(t, "neg") {
			d = -d
		}
		what := fmt.Sprintf("Shift(%v, %s)", d, modeText(m))
		out := modepb.Shift(d, m)
		w.unchanged(t, what)
		if out == m && d != 0 {
			t.Fatalf("%s returned its argument", what)
		}
		if !sameMeta(out, m) {
			t.Fatalf("%s lost metadata: %v", what, out)
		}
		if (out.StartTime == nil) != (m.StartTime == nil) {
			t.Fatalf("%s: start time %v", what, out.StartTime)
		}
		if nontrivial(m.Segments) && d != 0 {
			vkit.Nontrivial(what)
		}
		wellFormed(t, what, out.Segments)
		if m.StartTime == nil {
			ps := pieces(m.Segments)
			var pts []time.Duration
			for _, p := range samplePoints(ps) {
				pts = append(pts, p, p+d)
			}
			sameFn(t, what, out.Segments, func(x time.Duration) float64 {
				v, _ := value(ps, x-d)
				return v
			}, pts, 0)
			return
		}
		if !out.StartTime.AsTime().Equal(m.StartTime.AsTime().Add(d)) {
			t.Fatalf("%s starts at %v", what, out.StartTime.AsTime())
		}
		for _, at := range modePoints([]*traits.ElectricMode{m, out}, base) {
			gv, gok := modeAt(out, at, at)
			wv, wok := modeAt(m, at.Add(-d), at.Add(-d))
			if gv != wv || gok != wok {
				t.Fatalf("%s = %s: at %v %v,%v want %v,%v", what, modeText(out), at, gv, gok, wv, wok)
			}
		}
	})
}

func TestModeCut(t *testing.T) {
	vkit.Check(t, vkit.N(15000, 150000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		base := rapid.SampledFrom(bases).Draw(t, "base")
		m, l := genMode(t, base, unit, "m")
		w := watch(m, l)
		pts := modePoints([]*traits.ElectricMode{m}, base)
		at := rapid.SampledFrom(pts).Draw(t, "at")
		what := fmt.Sprintf("Cut(%v, %s)", at.Format(time.RFC3339Nano), modeText(m))
		before, after, outside := modepb.Cut(at, m)
		w.unchanged(t, what)
		what = fmt.Sprintf("%s = %s | %s outside=%v", what, modeText(before), modeText(after), outside)
		if len(m.Segments) == 0 {
			if !outside {
				t.Fatalf("%s: nothing to be inside of", what)
			}
			return
		}
		st := at
		if m.StartTime != nil {
			st = m.StartTime.AsTime()
		}
		d := at.Sub(st)
		td, ti := total(pieces(m.Segments))
		wantOutside := d < 0 || d > 0 && !ti && d >= td
		if outside != wantOutside {
			t.Fatalf("%s: outside should be %v", what, wantOutside)
		}
		if (before == nil) != (d <= 0) {
			t.Fatalf("%s: wrong before", what)
		}
		if (after == nil) != (d > 0 && wantOutside) {
			t.Fatalf("%s: wrong after", what)
		}
		if !outside && d > 0 {
			vkit.Nontrivial(what)
			if !after.StartTime.AsTime().Equal(at) {
				t.Fatalf("%s: after starts at %v", what, after.StartTime)
			}
			bd, bi := total(pieces(before.Segments))
			if bi || bd != d {
				t.Fatalf("%s: before lasts %v, want %v", what, bd, d)
			}
		}
		for _, x := range append(pts, at, at.Add(1), at.Add(-1)) {
			wv, _ := modeAt(m, st, x)
			var bv, av float64
			if before != nil {
				bv, _ = modeAt(before, st, x)
			}
			if after != nil {
				av, _ = modeAt(after, st, x)
			}
			if bv+av != wv {
				t.Fatalf("%s: at %v before+after is %v, the mode was %v", what, x, bv+av, wv)
			}
			if !x.Before(at) && bv != 0 {
				t.Fatalf("%s: before is %v at %v", what, bv, x)
			}
			if x.Before(at) && av != 0 && !outside {
				t.Fatalf("%s: after is %v at %v", what, av, x)
			}
		}
		for _, h := range []*traits.ElectricMode{before, after} {
			if h != nil {
				wellFormed(t, what, h.Segments)
				if !sameMeta(h, m) {
					t.Fatalf("%s: metadata lost: %v", what, h)
				}
			}
		}
	})
}

func TestModeSum(t *testing.T) {
	vkit.Check(t, vkit.N(15000, 150000), func(t *rapid.T) {
		unit := rapid.SampledFrom(units).Draw(t, "unit")
		base := rapid.SampledFrom(bases).Draw(t, "base")
		var ms []*traits.ElectricMode
		var ws []*modeWatch
		var txts []string
		for i := rapid.IntRange(0, 4).Draw(t, "modes"); i > 0; i-- {
			m, l := genMode(t, base, unit, fmt.Sprint("m", i))
			ms = append(ms, m)
			ws = append(ws, watch(m, l))
			txts = append(txts, modeText(m))
		}
		what := "Sum(" + strings.Join(txts, ", ") + ")"
		full := append(append([]*traits.ElectricMode{}, ms...), nil)
		out := modepb.Sum(full[:len(ms)]...)
		for i, w := range ws {
			w.unchanged(t, what)
			if full[i] != ms[i] {
				t.Fatalf("%s replaced its arguments", what)
			}
		}
		if len(ms) == 0 {
			if out != nil {
				t.Fatalf("%s = %v", what, out)
			}
			return
		}
		if len(ms) > 1 {
			vkit.Nontrivial(what)
		}
		what += " = " + modeText(out)
		wellFormed(t, what, out.Segments)
		var earliest, latest *time.Time
		for _, m := range ms {
			if m.StartTime == nil {
				continue
			}
			st := m.StartTime.AsTime()
			if earliest == nil || st.Before(*earliest) {
				earliest = &st
			}
			if latest == nil || st.After(*latest) {
				latest = &st
			}
		}
		if (out.StartTime == nil) != (earliest == nil) {
			t.Fatalf("%s: start time %v", what, out.StartTime)
		}
		ref := base
		refOut := base
		if earliest != nil {
			if !out.StartTime.AsTime().Equal(*earliest) {
				t.Fatalf("%s starts at %v, want %v", what, out.StartTime.AsTime(), *earliest)
			}
			ref, refOut = *latest, *earliest
		}
		for _, at := range modePoints(append(ms, out), ref) {
			if at.Before(refOut) {
				continue
			}
			var want float64
			for _, m := range ms {
				v, _ := modeAt(m, ref, at)
				want += v
			}
			if got, _ := modeAt(out, refOut, at); got != want {
				t.Fatalf("%s: at %v it is %v, want %v", what, at, got, want)
			}
		}
		vkit.Class("modesum n=%d start=%v", len(ms), earliest != nil)
	})
}
