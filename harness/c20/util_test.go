package c20

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

func TestMain(m *testing.M) { vkit.Main(m) }

var bg = context.Background()

// manual is a clock that moves when told to.
type manual struct {
	mu  sync.Mutex
	now time.Time
}

func newManual(sec int64) *manual { return &manual{now: time.Unix(sec, 0).UTC()} }

func (c *manual) Now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.now
}

func (c *manual) tick(d time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.now = c.now.Add(d)
}

func (c *manual) stamp() *timestamppb.Timestamp { return timestamppb.New(c.Now()) }

// log describes the steps of a case, it becomes part of failure messages.
type steps struct {
	t  *rapid.T
	at string
	n  int
}

func (s *steps) step(format string, args ...any) {
	s.n++
	s.at = fmt.Sprintf(format, args...)
	s.t.Logf("%d: %s", s.n, s.at)
}

func (s *steps) failf(format string, args ...any) {
	s.t.Helper()
	s.t.Fatalf("%s: %s", s.at, fmt.Sprintf(format, args...))
}

// do runs fn, which shouldn't panic.
func (s *steps) do(fn func()) {
	s.t.Helper()
	vkit.NoPanic(s.t, s.at, fn)
}

func (s *steps) same(what string, got, want proto.Message) {
	s.t.Helper()
	if !vkit.Same(got, want) {
		s.failf("%s is %s, want %s", what, vkit.Text(got), vkit.Text(want))
	}
}

func (s *steps) code(err error, want codes.Code) {
	s.t.Helper()
	if got := status.Code(err); got != want {
		s.failf("error %v, want %v", err, want)
	}
}

func (s *steps) ok(err error) {
	s.t.Helper()
	if err != nil {
		s.failf("unexpected error %v", err)
	}
}

// mask draws an update mask over paths, nil included.
func mask(t *rapid.T, label string, paths ...string) *fieldmaskpb.FieldMask {
	if rapid.IntRange(0, 2).Draw(t, label+" nil") == 0 {
		return nil
	}
	n := rapid.IntRange(0, min(3, len(paths))).Draw(t, label+" paths") // with none nothing is updated
	m := &fieldmaskpb.FieldMask{}
	for i := 0; i < n; i++ {
		p := vkit.Pick(t, paths, label)
		if !has(m, p) {
			m.Paths = append(m.Paths, p)
		}
	}
	return m
}

func has(m *fieldmaskpb.FieldMask, path string) bool {
	for _, p := range m.GetPaths() {
		if p == path {
			return true
		}
	}
	return false
}

func coin(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

func one(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == 0
}

var _ = testing.Short
