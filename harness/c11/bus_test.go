package c11

import (
	"context"
	"fmt"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

// TestBus runs senders and listeners of one bus at once.
func TestBus(t *testing.T) {
	vkit.Check(t, vkit.N(2500, 50000), func(t *rapid.T) {
		bus := &minibus.Bus{}
		senders, listeners := 0, 0
		plans := draw(t, 8, func(at int) task {
			if rapid.IntRange(0, 2).Draw(t, "listen") > 0 {
				senders++
				// the context of a send may end by itself
				ends := rapid.IntRange(-4, 6).Draw(t, "ends after")
				audience := rapid.Bool().Draw(t, "audience")
				again := rapid.IntRange(1, 3).Draw(t, "times")
				return task{txt: fmt.Sprintf("send %d times, audience %v, ends after %d", again, audience, ends), do: func(w *worker) {
					ctx, cancel := context.WithCancel(w.all.ctx)
					defer cancel()
					if ends >= 0 {
						w.all.wg.Add(1)
						go func() {
							defer w.all.wg.Done()
							for range ends {
								runtime.Gosched()
							}
							cancel()
						}()
					}
					send := bus.Send
					if audience {
						send = bus.Audience().Send
					}
					for range again {
						send(ctx, newClient("event"))
					}
				}}
			}
			listeners++
			n := rapid.IntRange(0, 10).Draw(t, "events")
			drop := rapid.Bool().Draw(t, "drop excess")
			return task{txt: fmt.Sprintf("listen for %d events, drop excess %v", n, drop), do: func(w *worker) {
				w.subscribe(func(c *worker, ctx context.Context, cancel func()) {
					ch := bus.Listen(ctx)
					if drop {
						ch = minibus.DropExcess(ch)
					}
					i := 0
					for e := range ch {
						look(e)
						if i++; i == n {
							cancel()
						}
					}
				})
			}}
		})
		run(t, "bus", plans)
		check(t, "bus", plans)
		if senders > 1 && listeners > 0 {
			vkit.Nontrivial(describe(plans))
		}
		vkit.Class("senders %v listeners %v", min(senders, 4), min(listeners, 4))
	})
}
