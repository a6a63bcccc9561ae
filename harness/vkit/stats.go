// Package vkit is the shared kit of the property checks: statistics, generators,
// reference functions and bounded waits.
package vkit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	statsMu  sync.Mutex
	evals    int64
	lastEval = time.Now()
	distinct = map[uint64]struct{}{}
	samples  []string
	classes  = map[string]int64{}
)

// Eval counts one generated case.
func Eval() {
	statsMu.Lock()
	evals++
	lastEval = time.Now()
	statsMu.Unlock()
}

// Nontrivial records a case that satisfies the check's non-triviality rule; canon identifies it.
func Nontrivial(canon string) {
	h := fnv.New64a()
	h.Write([]byte(canon))
	statsMu.Lock()
	defer statsMu.Unlock()
	k := h.Sum64()
	if _, ok := distinct[k]; ok {
		return
	}
	distinct[k] = struct{}{}
	n := len(distinct)
	if n == 1 || n == 10 || n == 100 || n == 1000 {
		if len(canon) > 1500 {
			canon = canon[:1500] + "..."
		}
		samples = append(samples, canon)
	}
}

// Class counts a case class, for the distribution in the evidence file.
func Class(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	statsMu.Lock()
	classes[s]++
	statsMu.Unlock()
}

// Thorough reports whether this is a thorough run.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a case count by tier; VERIF_SCALE (percent) scales it.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && s > 0 {
		n = n * s / 100
		if n < 1 {
			n = 1
		}
	}
	return n
}

// Check runs prop on n generated cases.
func Check(t *testing.T, n int, prop func(t *rapid.T)) {
	t.Helper()
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	rapid.Check(t, func(rt *rapid.T) {
		Eval()
		prop(rt)
	})
}

// Main is the TestMain of every check.
func Main(m *testing.M) {
	flag.Parse()
	go watch()
	code := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		statsMu.Lock()
		keys := make([]uint64, 0, len(distinct))
		for k := range distinct {
			keys = append(keys, k)
		}
		b, _ := json.Marshal(map[string]any{
			"evaluations": evals, "distinct": keys, "samples": samples, "classes": classes,
		})
		statsMu.Unlock()
		_ = os.WriteFile(p, b, 0o644)
	}
	os.Exit(code)
}

// Stuck is how long a case may take. It is reached only if the code under test never returns (most calls that could do
// that are also guarded by Within, which gives up much earlier).
const Stuck = 150 * time.Second

// watch ends the process when a case gets stuck.
func watch() {
	for {
		time.Sleep(time.Second)
		statsMu.Lock()
		stuck := time.Since(lastEval) > Stuck
		statsMu.Unlock()
		if !stuck {
			continue
		}
		for _, g := range goroutines() {
			if repoGoroutine(g) {
				fmt.Printf("--- FAIL: a case did not end within %v\n%s\n", Stuck, Stacks("sc-golang"))
				os.Exit(1)
			}
		}
		fmt.Printf("HARNESS-ERROR: a case did not end within %v\n%s\n", Stuck, Stacks(""))
		os.Exit(1)
	}
}

// Fataler is what the helpers need from testing.T / rapid.T.
type Fataler interface {
	Helper()
	Fatalf(format string, args ...any)
}

// Long is how long an operation that must terminate is given before it counts as stuck.
// It is only ever reached when something hangs.
const Long = 30 * time.Second

// Within runs fn and fails if it has not returned after Long.
func Within(t Fataler, what string, fn func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				done <- fmt.Sprintf("%v\n%s", p, buf)
				return
			}
			done <- nil
		}()
		fn()
	}()
	timer := time.NewTimer(Long)
	defer timer.Stop()
	select {
	case p := <-done:
		if p != nil {
			t.Fatalf("%s panicked: %v", what, p)
		}
	case <-timer.C:
		t.Fatalf("%s did not return within %v\n%s", what, Long, Stacks("sc-golang"))
	}
}

// NoPanic runs fn in this goroutine and reports a panic as a failure.
func NoPanic(t Fataler, what string, fn func()) {
	t.Helper()
	var msg string
	func() {
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				msg = fmt.Sprintf("%v\n%s", p, buf)
			}
		}()
		fn()
	}()
	if msg != "" {
		t.Fatalf("%s panicked: %s", what, msg)
	}
}

// goroutines returns the stacks of all goroutines.
func goroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return strings.Split(string(buf), "\n\n")
}

// Stacks returns the stacks of goroutines mentioning substr.
func Stacks(substr string) string {
	var out []string
	for _, g := range goroutines() {
		if strings.Contains(g, substr) {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	return s
}

func goroutineID(g string) string {
	if i := strings.Index(g, " ["); i > 0 {
		return g[:i]
	}
	return g
}

// repoGoroutine reports whether a goroutine was started by (created in) or runs code of the repository
// proper, as opposed to the harness.
func repoGoroutine(g string) bool {
	for _, line := range strings.Split(g, "\n") {
		line = strings.TrimPrefix(line, "created by ")
		if !strings.HasPrefix(line, "github.com/smart-core-os/sc-golang/") {
			continue
		}
		if strings.HasPrefix(line, "github.com/smart-core-os/sc-golang/internal/verif/") {
			continue
		}
		return true
	}
	return false
}

// Leak tracks goroutines that execute or were created by repository code.
type Leak map[string]bool

// LeakBaseline records the repository goroutines that exist now.
func LeakBaseline() Leak {
	l := Leak{}
	for _, g := range goroutines() {
		l[goroutineID(g)] = true
	}
	return l
}

// Leaked returns the stacks of repository goroutines started since the baseline that are still there.
// ignore drops goroutines whose stack contains one of the strings.
func (l Leak) leaked(ignore []string) []string {
	var out []string
outer:
	for _, g := range goroutines() {
		if l[goroutineID(g)] || !repoGoroutine(g) {
			continue
		}
		for _, s := range ignore {
			if strings.Contains(g, s) {
				continue outer
			}
		}
		out = append(out, g)
	}
	return out
}

// timeoutAlarm style helper goroutines of a finished call are ended by a cancel, so they also go; we just wait.

// Wait waits for all goroutines of repository code started since the baseline to end.
// It polls quickly at first and fails only after Long.
func (l Leak) Wait(t Fataler, what string, ignore ...string) {
	t.Helper()
	deadline := time.Now().Add(Long)
	d := 20 * time.Microsecond
	for {
		out := l.leaked(ignore)
		if len(out) == 0 {
			return
		}
		if time.Now().After(deadline) {
			s := strings.Join(out, "\n\n")
			if len(s) > 6000 {
				s = s[:6000] + "..."
			}
			t.Fatalf("%s: %d goroutines still running after %v:\n%s", what, len(out), Long, s)
		}
		runtime.Gosched()
		time.Sleep(d)
		if d < 50*time.Millisecond {
			d *= 2
		}
	}
}

// Quiet waits until every goroutine started since the baseline, other than the caller's, is blocked.
// Nothing happens after that until the caller (or a timer) makes it happen, whatever the schedule.
func (l Leak) Quiet(t Fataler, what string) {
	t.Helper()
	deadline := time.Now().Add(Long)
	for d := time.Microsecond; ; {
		busy := ""
		for i, g := range goroutines() {
			if i == 0 || l[goroutineID(g)] { // the first is the caller
				continue
			}
			a, b := strings.Index(g, " ["), strings.Index(g, "]:")
			if a < 0 || b < a {
				continue
			}
			state, _, _ := strings.Cut(g[a+2:b], ",")
			switch {
			case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "sync."), state == "IO wait",
				// but not the runtime's own use of semaphores
				state == "semacquire" && strings.HasPrefix(g[b+2:], "\nsync."):
			default:
				busy = g
			}
		}
		if busy == "" {
			return
		}
		if time.Now().After(deadline) {
			t.Fatalf("%s: still busy after %v:\n%s", what, Long, busy)
		}
		runtime.Gosched()
		time.Sleep(d)
		if d < time.Millisecond {
			d *= 2
		}
	}
}

// Seed is the seed of tests that don't use rapid.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_CASE_SEED"), 10, 64)
	return n
}
