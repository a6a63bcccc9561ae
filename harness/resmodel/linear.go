package resmodel

import (
	"fmt"
	"strings"
	"sync/atomic"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Call is a recorded call with its invocation and response order.
type Call struct {
	Op       Op
	Res      Res
	Inv, Ret int64
	By       int
}

// Ticker numbers invocations and responses.
type Ticker struct{ n atomic.Int64 }

// Next is the next number.
func (t *Ticker) Next() int64 { return t.n.Add(1) }

// Write says whether op is a write.
func (o Op) Write() bool { return o.Kind != "get" && o.Kind != "list" && o.Kind != "read" }

// lost says whether c gave up because of a concurrent write, in which case it has no effect.
func lost(calls []Call, i int) bool {
	c := calls[i]
	if code := status.Code(c.Res.Err); c.Res.Err == nil || !c.Op.Write() || code != codes.Aborted && code != codes.Unavailable {
		return false
	}
	for j, o := range calls {
		if j != i && o.Op.Write() && o.Inv < c.Ret && c.Inv < o.Ret {
			return true
		}
	}
	return false
}

// Linearize looks for a one-at-a-time order of the calls, consistent with real time, that the model accepts.
func (c *Config) Linearize(start State, calls []Call) error {
	var skip uint64
	for i := range calls {
		if lost(calls, i) {
			skip |= 1 << i
		}
	}
	all := uint64(1)<<len(calls) - 1
	seen := map[string]bool{}
	deepest, why := -1, ""
	var rec func(done uint64, s State, n int) bool
	rec = func(done uint64, s State, n int) bool {
		if done == all {
			return true
		}
		key := fmt.Sprint(done, s)
		if seen[key] {
			return false
		}
		seen[key] = true
		// a call can go next when nothing undone returned before it was made
		minRet := int64(1) << 62
		for i, k := range calls {
			if done&(1<<i) == 0 && k.Ret < minRet {
				minRet = k.Ret
			}
		}
		for i, k := range calls {
			if done&(1<<i) != 0 || k.Inv > minRet {
				continue
			}
			next, _, err := c.Step(s, k.Op, k.Res)
			if err != nil {
				if n > deepest {
					deepest, why = n, fmt.Sprintf("after %d calls, in state %s: %s: %v", n, s, k.Op, err)
				}
				continue
			}
			if rec(done|1<<i, next, n+1) {
				return true
			}
		}
		return false
	}
	if rec(skip, start, 0) {
		return nil
	}
	return fmt.Errorf("no one-at-a-time order explains these calls (%s)", why)
}

// History prints the calls.
func History(calls []Call) string {
	var b strings.Builder
	for _, k := range calls {
		fmt.Fprintf(&b, "\n  [%d..%d] by %d: %s\n        -> %s", k.Inv, k.Ret, k.By, k.Op, k.Res)
	}
	return b.String()
}
