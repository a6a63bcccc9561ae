package c14

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/c12"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
)

// TestRamp changes the brightness of a light over time.
// When all ramps are over, the light has the brightness the last accepted update asked for, and streams got that.
func TestRamp(t *testing.T) {
	vkit.Check(t, vkit.N(100, 2000), func(t *rapid.T) {
		dev := lightpb.NewMemoryDevice()
		var a *api
		var r *register
		for _, d := range c12.Services() {
			if d.ServiceName == "smartcore.traits.LightApi" {
				a = newAPI(d, names[:1], func(string) any { return dev })
				r = a.reads[0]
			}
		}
		if a == nil {
			t.Fatal("no light api")
		}
		update := a.methods["UpdateBrightness"]
		get := func() *traits.Brightness {
			m, err := a.call(r.get, request(r.get, map[string]any{"name": "a"}))
			if err != nil {
				t.Fatalf("get: %v", err)
			}
			return m.(*traits.Brightness)
		}
		plain := a.open(r.pull, &traits.PullBrightnessRequest{Name: "a"})
		quick := a.open(r.pull, &traits.PullBrightnessRequest{Name: "a", ExcludeRamping: true})
		defer func() {
			for _, s := range []*stream{plain, quick} {
				s.cancel()
				<-s.done
			}
		}()
		vkit.Within(t, "streams open", func() {
			for len(peek(plain)) == 0 || len(peek(quick)) == 0 {
				time.Sleep(time.Millisecond)
			}
		})
		last := get()
		what := ""
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "steps"); i < n; i++ {
			req := &traits.UpdateBrightnessRequest{Name: "a", Brightness: &traits.Brightness{}}
			req.Brightness.LevelPercent = vkit.Pick(t, []float32{0, 1, 20, 55.5, 99, 100, 120, -10}, "level")
			req.Delta = rapid.IntRange(0, 3).Draw(t, "delta") == 0
			if rapid.IntRange(0, 4).Draw(t, "ramp") > 0 {
				req.Brightness.BrightnessTween = &types.Tween{TotalDuration: durationpb.New(time.Duration(rapid.IntRange(1, 250).Draw(t, "ms")) * time.Millisecond)}
			}
			at := 1 // how many do it at once
			if !req.Delta && rapid.Bool().Draw(t, "at once") {
				at = rapid.IntRange(2, 24).Draw(t, "callers")
			}
			what = fmt.Sprintf("%s; %d x %s", what, at, vkit.Text(req))
			t.Logf("%d x %s", at, vkit.Text(req))
			resps := make([]*traits.Brightness, at)
			errs := make([]error, at)
			reqs := make([]proto.Message, at)
			for j := range reqs {
				reqs[j] = vkit.Copy(req)
			}
			var wg sync.WaitGroup
			for j := range reqs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					m, err := a.call(update, reqs[j])
					if errs[j] = err; err == nil {
						resps[j] = m.(*traits.Brightness)
					}
				}()
			}
			wg.Wait()
			accepted := 0
			for j := range reqs {
				if errs[j] == nil {
					accepted++
					last = resps[j]
				}
			}
			if at == 1 && accepted == 0 && i == 0 {
				t.Fatalf("%s: %v", vkit.Text(req), errs[0])
			}
			if !req.Delta && accepted > 0 {
				want := min(max(req.Brightness.LevelPercent, 0), 100)
				if d := req.Brightness.GetBrightnessTween().GetTotalDuration().AsDuration(); d > 0 {
					if got := last.TargetLevelPercent; got != want {
						t.Fatalf("%s: responded with %s", vkit.Text(req), vkit.Text(last))
					}
				} else if got := last.LevelPercent; got != want || last.BrightnessTween != nil {
					t.Fatalf("%s: responded with %s", vkit.Text(req), vkit.Text(last))
				}
			}
			time.Sleep(time.Duration(rapid.IntRange(0, 80).Draw(t, "wait")) * time.Millisecond)
		}
		// the end
		var now *traits.Brightness
		for deadline := time.Now().Add(vkit.Long); ; time.Sleep(2 * time.Millisecond) {
			if now = get(); now.BrightnessTween == nil {
				break
			}
			if time.Now().After(deadline) {
				t.Fatalf("still ramping: %s", vkit.Text(now))
			}
		}
		want := last.LevelPercent
		if last.BrightnessTween != nil {
			want = last.TargetLevelPercent
			vkit.Nontrivial(what)
		}
		if d := now.LevelPercent - want; d > 1e-3 || d < -1e-3 || now.TargetLevelPercent != 0 {
			t.Fatalf("ended with %s, last response was %s", vkit.Text(now), vkit.Text(last))
		}
		for i, s := range []*stream{plain, quick} {
			deadline := time.Now().Add(vkit.Long)
			for {
				got := peek(s)
				if len(got) > 0 && vkit.Same(got[len(got)-1], now) {
					break
				}
				if time.Now().After(deadline) {
					t.Fatalf("stream %d (1 is without ramps): did not get the end, %s, but %d messages, the last is %s", i, vkit.Text(now), len(got), vkit.Text(got[len(got)-1]))
				}
				time.Sleep(time.Millisecond)
			}
		}
		for _, b := range peek(quick) {
			if p := b.(*traits.Brightness).GetBrightnessTween().GetProgress(); p != 0 && p != 100 {
				t.Fatalf("got a ramp: %s", vkit.Text(b))
			}
		}
	})
}

// peek returns what a stream has received, without taking it.
func peek(s *stream) (vals []proto.Message) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.got {
		vals = append(vals, c.Get(c.Descriptor().Fields().ByName("brightness")).Message().Interface())
	}
	return vals
}
