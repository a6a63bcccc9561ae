package c18

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	timepb "github.com/smart-core-os/sc-api/go/types/time"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	sctime "github.com/smart-core-os/sc-golang/pkg/time"
)

func TestMain(m *testing.M) { vkit.Main(m) }

// ns is the position of ts on the time line, exactly.
func ns(ts *timestamppb.Timestamp) *big.Int {
	v := big.NewInt(ts.GetSeconds())
	v.Mul(v, big.NewInt(1_000_000_000))
	return v.Add(v, big.NewInt(int64(ts.GetNanos())))
}

func cmp(a, b *timestamppb.Timestamp) int { return ns(a).Cmp(ns(b)) }

func sane(p *timepb.Period) bool {
	return p.StartTime == nil || p.EndTime == nil || cmp(p.StartTime, p.EndTime) <= 0
}

// overlap computes the largest start and smallest end and compares them.
func overlap(a, b *timepb.Period) (intersect, connected bool) {
	var lo, hi *timestamppb.Timestamp
	for _, p := range []*timepb.Period{a, b} {
		if p.StartTime != nil && (lo == nil || cmp(p.StartTime, lo) > 0) {
			lo = p.StartTime
		}
		if p.EndTime != nil && (hi == nil || cmp(p.EndTime, hi) < 0) {
			hi = p.EndTime
		}
	}
	if lo == nil || hi == nil {
		return true, true
	}
	c := cmp(lo, hi)
	return c < 0, c <= 0
}

func ptext(p *timepb.Period) string {
	f := func(ts *timestamppb.Timestamp) string {
		if ts == nil {
			return "-"
		}
		return fmt.Sprintf("%d.%09d", ts.Seconds, ts.Nanos)
	}
	return "[" + f(p.StartTime) + "," + f(p.EndTime) + ")"
}

func checkPair(t vkit.Fataler, a, b *timepb.Period) {
	t.Helper()
	a0, b0 := proto.Clone(a), proto.Clone(b)
	gi, gc := sctime.PeriodsIntersect(a, b), sctime.PeriodsConnected(a, b)
	ri, rc := sctime.PeriodsIntersect(b, a), sctime.PeriodsConnected(b, a)
	if gi != ri {
		t.Fatalf("PeriodsIntersect(%s, %s)=%v but swapped %v", ptext(a), ptext(b), gi, ri)
	}
	if gc != rc {
		t.Fatalf("PeriodsConnected(%s, %s)=%v but swapped %v", ptext(a), ptext(b), gc, rc)
	}
	if sane(a) && sane(b) {
		wi, wc := overlap(a, b)
		if gi != wi {
			t.Fatalf("PeriodsIntersect(%s, %s)=%v want %v", ptext(a), ptext(b), gi, wi)
		}
		if gc != wc {
			t.Fatalf("PeriodsConnected(%s, %s)=%v want %v", ptext(a), ptext(b), gc, wc)
		}
	}
	if !proto.Equal(a, a0) || !proto.Equal(b, b0) {
		t.Fatalf("period predicates modified their arguments: %s %s", ptext(a), ptext(b))
	}
}

// TestPeriodLattice covers every pair of periods over the stated lattice.
func TestPeriodLattice(t *testing.T) {
	ends := []*timestamppb.Timestamp{nil}
	for s := int64(0); s <= 5; s++ {
		for _, n := range []int32{0, 1, 999_999_999} {
			ends = append(ends, &timestamppb.Timestamp{Seconds: s, Nanos: n})
		}
	}
	var periods []*timepb.Period
	for _, a := range ends {
		for _, b := range ends {
			periods = append(periods, &timepb.Period{StartTime: a, EndTime: b})
		}
	}
	for _, a := range periods {
		for _, b := range periods {
			vkit.Eval()
			checkPair(t, a, b)
			if sane(a) && sane(b) {
				i, c := overlap(a, b)
				vkit.Class("lattice intersect=%v connected=%v", i, c)
				if a.StartTime != nil && b.EndTime != nil {
					vkit.Nontrivial(ptext(a) + " " + ptext(b))
				}
			}
		}
	}
	for _, a := range ends[1:] {
		for _, b := range ends[1:] {
			vkit.Eval()
			if got, want := sctime.CompareAscending(a, b), cmp(a, b); got != want {
				t.Fatalf("CompareAscending(%v, %v)=%d want %d", a, b, got, want)
			}
		}
	}
	for _, p := range periods {
		for _, f := range []func(a, b *timepb.Period) bool{sctime.PeriodsIntersect, sctime.PeriodsConnected} {
			if f(p, nil) || f(nil, p) || f(nil, nil) {
				t.Fatalf("a nil period overlaps %s", ptext(p))
			}
		}
	}
	// the constructors
	for _, a := range ends {
		for _, b := range ends {
			if got := sctime.PeriodBetween(a, b); !proto.Equal(got, &timepb.Period{StartTime: a, EndTime: b}) {
				t.Fatalf("PeriodBetween(%v,%v)=%v", a, b, got)
			}
		}
		if got := sctime.PeriodBefore(a); !proto.Equal(got, &timepb.Period{EndTime: a}) {
			t.Fatalf("PeriodBefore(%v)=%v", a, got)
		}
		if got := sctime.PeriodOnOrAfter(a); !proto.Equal(got, &timepb.Period{StartTime: a}) {
			t.Fatalf("PeriodOnOrAfter(%v)=%v", a, got)
		}
	}
}

var anyTime = rapid.Custom(func(t *rapid.T) *timestamppb.Timestamp {
	ts := &timestamppb.Timestamp{}
	switch rapid.IntRange(0, 3).Draw(t, "scale") {
	case 0:
		ts.Seconds = rapid.Int64().Draw(t, "s")
	case 1:
		ts.Seconds = rapid.SampledFrom([]int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1,
			math.MaxInt32, math.MinInt32, 1 << 32, -(1 << 32), 1<<32 + 1, 1 << 31, 0, -1, -62135596800, 253402300799}).Draw(t, "s")
	case 2:
		ts.Seconds = rapid.Int64Range(-3, 3).Draw(t, "s")
	default:
		ts.Seconds = rapid.Int64Range(-1<<40, 1<<40).Draw(t, "s")
	}
	ts.Nanos = rapid.OneOf(rapid.SampledFrom([]int32{0, 1, 999_999_999}), rapid.Int32Range(0, 999_999_999)).Draw(t, "ns")
	return ts
})

func drawEnd(t *rapid.T, pool []*timestamppb.Timestamp, label string) *timestamppb.Timestamp {
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		return nil
	case 1:
		return anyTime.Draw(t, label)
	}
	return rapid.SampledFrom(pool).Draw(t, label)
}

func TestPeriodRandom(t *testing.T) {
	vkit.Check(t, vkit.N(40000, 400000), func(t *rapid.T) {
		// a small pool, so that end points often coincide
		pool := rapid.SliceOfN(anyTime, 1, 3).Draw(t, "pool")
		draw := func(label string) *timepb.Period {
			return &timepb.Period{StartTime: drawEnd(t, pool, label+".start"), EndTime: drawEnd(t, pool, label+".end")}
		}
		a, b := draw("a"), draw("b")
		checkPair(t, a, b)
		if sane(a) && sane(b) {
			i, c := overlap(a, b)
			vkit.Class("random intersect=%v connected=%v", i, c)
			vkit.Nontrivial(ptext(a) + " " + ptext(b))
		}
	})
}

func TestCompareRandom(t *testing.T) {
	vkit.Check(t, vkit.N(40000, 400000), func(t *rapid.T) {
		a := anyTime.Draw(t, "a")
		b := anyTime.Draw(t, "b")
		switch rapid.IntRange(0, 3).Draw(t, "near") {
		case 0: // same second
			b.Seconds = a.Seconds
		case 1:
			b = proto.Clone(a).(*timestamppb.Timestamp)
		}
		got, want := sctime.CompareAscending(a, b), cmp(a, b)
		if got != want {
			t.Fatalf("CompareAscending(%v, %v)=%d want %d", a, b, got, want)
		}
		if r := sctime.CompareAscending(b, a); r != -got {
			t.Fatalf("CompareAscending(%v, %v)=%d but swapped %d", a, b, got, r)
		}
		vkit.Nontrivial(fmt.Sprint(a.Seconds, a.Nanos, b.Seconds, b.Nanos))
		vkit.Class("compare %d", want)
	})
}
