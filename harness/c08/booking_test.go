package c08

import (
	"context"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	timepb "github.com/smart-core-os/sc-api/go/types/time"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
)

func ns(ts *timestamppb.Timestamp) *big.Int {
	v := big.NewInt(ts.GetSeconds())
	v.Mul(v, big.NewInt(1_000_000_000))
	return v.Add(v, big.NewInt(int64(ts.GetNanos())))
}

// overlaps: the intersection of all of them has more than one point.
func overlaps(ps ...*timepb.Period) bool {
	var lo, hi *timestamppb.Timestamp
	for _, p := range ps {
		if p == nil {
			return false
		}
		if p.StartTime != nil && (lo == nil || ns(p.StartTime).Cmp(ns(lo)) > 0) {
			lo = p.StartTime
		}
		if p.EndTime != nil && (hi == nil || ns(p.EndTime).Cmp(ns(hi)) < 0) {
			hi = p.EndTime
		}
	}
	return lo == nil || hi == nil || ns(lo).Cmp(ns(hi)) < 0
}

func genPeriod(t *rapid.T, label string) *timepb.Period {
	p := &timepb.Period{}
	stamp := func(l string) *timestamppb.Timestamp {
		ts := &timestamppb.Timestamp{Seconds: int64(rapid.IntRange(0, 4).Draw(t, l))}
		if rapid.IntRange(0, 3).Draw(t, l+".n") == 0 {
			ts.Nanos = int32(rapid.SampledFrom([]int{1, 500000000, 999999999}).Draw(t, l+".nanos"))
		}
		return ts
	}
	switch rapid.IntRange(0, 7).Draw(t, label) {
	case 0:
		return nil
	case 1:
		p.StartTime = stamp(label + ".start")
	case 2:
		p.EndTime = stamp(label + ".end")
	case 3:
	default:
		p.StartTime, p.EndTime = stamp(label+".start"), stamp(label+".end")
		if ns(p.StartTime).Cmp(ns(p.EndTime)) > 0 {
			p.StartTime, p.EndTime = p.EndTime, p.StartTime
		}
	}
	return p
}

type bookingStream struct {
	grpc.ServerStream
	ctx context.Context
	mu  sync.Mutex
	got []*traits.PullBookingsResponse_Change
	id  string // of the bookings that mark progress
	end chan string
}

func (s *bookingStream) Context() context.Context { return s.ctx }

func (s *bookingStream) Send(m *traits.PullBookingsResponse) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range m.Changes {
		if strings.HasPrefix(c.NewValue.GetId(), sentinel) || strings.HasPrefix(c.OldValue.GetId(), sentinel) {
			if c.NewValue.GetId() == s.id {
				select {
				case <-s.end:
				default:
				}
				s.end <- c.NewValue.GetTitle()
			}
			continue
		}
		s.got = append(s.got, proto.Clone(c).(*traits.PullBookingsResponse_Change))
	}
	return nil
}

// TestBookings: ListBookings and PullBookings with a period.
func TestBookings(t *testing.T) {
	masks := []*fieldmaskpb.FieldMask{nil, nil, {Paths: []string{"id", "title"}}, {Paths: []string{"id", "title", "booked.start_time"}}}
	vkit.Check(t, vkit.N(4000, 40000), func(t *rapid.T) {
		stored := map[string]*traits.Booking{}
		var opts []resource.Option
		ids := []string{"a", "b", "c"}
		n := 0
		gen := func(id string) *traits.Booking {
			n++
			return &traits.Booking{Id: id, Title: fmt.Sprint(n), Booked: genPeriod(t, "booked")}
		}
		for _, id := range ids {
			if rapid.Bool().Draw(t, "initial") {
				b := gen(id)
				opts = append(opts, bookingpb.WithInitialBooking(b))
				stored[id] = proto.Clone(b).(*traits.Booking)
			}
		}
		model := bookingpb.NewModel(opts...)
		server := bookingpb.NewModelServer(model)
		var log []string
		for _, id := range keys(stored) {
			log = append(log, "initial "+vkit.Text(stored[id]))
		}
		included := func(b *traits.Booking, p *timepb.Period) bool { return b != nil && (p == nil || overlaps(b.Booked, p)) }
		view := func(b *traits.Booking, m *fieldmaskpb.FieldMask) *traits.Booking {
			if m == nil {
				return b
			}
			return vkit.Project(b, m).(*traits.Booking)
		}
		type stream struct {
			*bookingStream
			req  *traits.ListBookingsRequest
			view map[string]*traits.Booking
			done chan struct{}
		}
		var streams []*stream
		var cancels []context.CancelFunc
		defer func() {
			for _, c := range cancels {
				c()
			}
		}()
		ops := rapid.IntRange(1, 10).Draw(t, "ops")
		subAt := rapid.IntRange(0, ops-1).Draw(t, "sub.at")
		for i := 0; i < ops; i++ {
			if i == subAt || rapid.IntRange(0, 5).Draw(t, "sub?") == 0 {
				ctx, cancel := context.WithCancel(context.Background())
				cancels = append(cancels, cancel)
				s := &stream{bookingStream: &bookingStream{ctx: ctx, end: make(chan string, 1), id: fmt.Sprint(sentinel, len(streams))}, view: map[string]*traits.Booking{}, done: make(chan struct{})}
				s.req = &traits.ListBookingsRequest{Name: "n", BookingIntersects: genPeriod(t, "req"), ReadMask: vkit.Pick(t, masks, "mask")}
				s.req.UpdatesOnly = rapid.IntRange(0, 3).Draw(t, "only") == 0
				log = append(log, "-- PullBookings "+vkit.Text(s.req))
				if s.req.UpdatesOnly {
					for id, b := range stored {
						if included(b, s.req.BookingIntersects) {
							s.view[id] = view(b, s.req.ReadMask)
						}
					}
				}
				seeds := 0
				for _, b := range stored {
					if included(b, s.req.BookingIntersects) {
						seeds++
					}
				}
				go func() {
					defer close(s.done)
					_ = server.PullBookings(s.req, s)
				}()
				if s.req.UpdatesOnly || seeds == 0 {
					// subscribing isn't observable, a ping that is included is
					waitSubscribed(t, model, s.bookingStream, s.req.BookingIntersects)
				} else {
					for {
						s.mu.Lock()
						k := len(s.got)
						s.mu.Unlock()
						if k >= seeds {
							break
						}
						time.Sleep(20 * time.Microsecond)
					}
				}
				streams = append(streams, s)
			}
			id := rapid.SampledFrom(ids).Draw(t, "id")
			b := gen(id)
			switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
			case k < 3:
				res, err := server.CreateBooking(context.Background(), &traits.CreateBookingRequest{Name: "n", Booking: b})
				log = append(log, fmt.Sprintf("create %s: %v", vkit.Text(b), err))
				if (err == nil) != (stored[id] == nil) {
					t.Fatalf("%s\nwrong outcome", strings.Join(log, "\n"))
				}
				if err == nil {
					if res.BookingId != id {
						t.Fatalf("%s\nid %q", strings.Join(log, "\n"), res.BookingId)
					}
					stored[id] = proto.Clone(b).(*traits.Booking)
				}
			case k < 8:
				mask := vkit.Pick(t, []*fieldmaskpb.FieldMask{nil, {Paths: []string{"title"}}, {Paths: []string{"booked"}}, {Paths: []string{"booked.start_time"}}}, "update")
				res, err := server.UpdateBooking(context.Background(), &traits.UpdateBookingRequest{Name: "n", Booking: b, UpdateMask: mask})
				log = append(log, fmt.Sprintf("update %s mask=%s: %v", vkit.Text(b), vkit.MaskText(mask), err))
				if (err == nil) != (stored[id] != nil) {
					t.Fatalf("%s\nwrong outcome", strings.Join(log, "\n"))
				}
				if err == nil {
					stored[id] = proto.Clone(res.Booking).(*traits.Booking)
				}
			case k == 8:
				_, err := server.CheckInBooking(context.Background(), &traits.CheckInBookingRequest{Name: "n", BookingId: id, Time: &timestamppb.Timestamp{Seconds: 2}})
				log = append(log, fmt.Sprintf("check in %s: %v", id, err))
				if err == nil {
					stored[id] = get(model, id)
				}
			default:
				_, err := server.CheckOutBooking(context.Background(), &traits.CheckOutBookingRequest{Name: "n", BookingId: id, Time: &timestamppb.Timestamp{Seconds: 3}})
				log = append(log, fmt.Sprintf("check out %s: %v", id, err))
				if err == nil {
					stored[id] = get(model, id)
				}
			}
			req := &traits.ListBookingsRequest{Name: "n", BookingIntersects: genPeriod(t, "list"), ReadMask: vkit.Pick(t, masks, "list.mask")}
			res, err := server.ListBookings(context.Background(), req)
			if err != nil {
				t.Fatalf("%s\nListBookings: %v", strings.Join(log, "\n"), err)
			}
			var want []*traits.Booking
			for _, id := range keys(stored) {
				if included(stored[id], req.BookingIntersects) {
					want = append(want, view(stored[id], req.ReadMask))
				}
			}
			got := res.Bookings
			for i := 0; i < len(got); i++ {
				if strings.HasPrefix(got[i].Id, sentinel) {
					got = append(got[:i:i], got[i+1:]...)
					i--
				}
			}
			ok := len(got) == len(want)
			for i := 0; ok && i < len(want); i++ {
				ok = vkit.Same(vkit.Simplify(got[i], vkit.MaskTree(req.ReadMask)), vkit.Simplify(want[i], vkit.MaskTree(req.ReadMask)))
			}
			if !ok {
				t.Fatalf("%s\nListBookings(%s) is %v, want %v", strings.Join(log, "\n"), vkit.Text(req), got, want)
			}
		}
		// the end
		for _, s := range streams {
			p := s.req.BookingIntersects
			if p == nil || overlaps(p, p) {
				if !progress(model, s.bookingStream, p, 10*time.Second) {
					t.Fatalf("%s\nPullBookings %s: the last change was never delivered", strings.Join(log, "\n"), vkit.Text(s.req))
				}
			}
		}
		for _, c := range cancels {
			c()
		}
		for _, s := range streams {
			vkit.Within(t, "PullBookings ending", func() { <-s.done })
			for i, c := range s.got {
				fail := func(why string) {
					t.Fatalf("%s\nPullBookings %s: %s\nevent %d of %v", strings.Join(log, "\n"), vkit.Text(s.req), why, i, s.got)
				}
				id := c.NewValue.GetId()
				if c.NewValue == nil {
					id = c.OldValue.GetId()
				}
				held, has := s.view[id]
				if c.Name != "n" {
					fail("wrong name")
				}
				same := func(a, b *traits.Booking) bool {
					tree := vkit.MaskTree(s.req.ReadMask)
					return vkit.Same(vkit.Simplify(a, tree), vkit.Simplify(b, tree))
				}
				switch c.Type {
				case types.ChangeType_ADD:
					if has {
						fail("ADD of an item that is there")
					}
					s.view[id] = c.NewValue
				case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
					if !has || !same(held, c.OldValue) {
						fail("UPDATE doesn't follow")
					}
					s.view[id] = c.NewValue
				case types.ChangeType_REMOVE:
					if !has || !same(held, c.OldValue) {
						fail("REMOVE doesn't follow")
					}
					delete(s.view, id)
				}
			}
			want := map[string]*traits.Booking{}
			for id, b := range stored {
				if included(b, s.req.BookingIntersects) {
					want[id] = view(b, s.req.ReadMask)
				}
			}
			bad := len(want) != len(s.view)
			for id, b := range want {
				tree := vkit.MaskTree(s.req.ReadMask)
				bad = bad || !vkit.Same(vkit.Simplify(b, tree), vkit.Simplify(s.view[id], tree))
			}
			if bad {
				t.Fatalf("%s\nPullBookings %s: folded %v, want %v\nevents %v", strings.Join(log, "\n"), vkit.Text(s.req), s.view, want, s.got)
			}
		}
		vkit.Nontrivial(strings.Join(log, "\n"))
		vkit.Class("bookings streams=%d", len(streams))
	})
}

func get(model *bookingpb.Model, id string) *traits.Booking {
	for _, b := range model.ListBookings() {
		if b.Id == id {
			return proto.Clone(b).(*traits.Booking)
		}
	}
	return nil
}

var marks int

// progress writes a booking that is included and waits for the stream to show it; all masks show id and title.
func progress(model *bookingpb.Model, s *bookingStream, p *timepb.Period, d time.Duration) bool {
	select {
	case <-s.end:
	default:
	}
	if p == nil {
		p = &timepb.Period{}
	}
	marks++
	b := &traits.Booking{Id: s.id, Booked: p, Title: fmt.Sprint(marks)}
	if _, err := model.CreateBooking(b); err != nil {
		_, _ = model.UpdateBooking(b)
	}
	deadline := time.After(d)
	for {
		select {
		case title := <-s.end:
			if title == b.Title {
				return true
			}
		case <-deadline:
			return false
		}
	}
}

// waitSubscribed writes until the stream has seen a write.
func waitSubscribed(t *rapid.T, model *bookingpb.Model, s *bookingStream, p *timepb.Period) {
	if p != nil && !overlaps(p, p) {
		time.Sleep(5 * time.Millisecond) // includes nothing, ever
		return
	}
	for deadline := time.Now().Add(10 * time.Second); time.Now().Before(deadline); {
		if progress(model, s, p, 200*time.Microsecond) {
			return
		}
	}
	t.Fatalf("a subscriber doesn't see any write")
}
