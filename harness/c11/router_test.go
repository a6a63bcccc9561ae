package c11

import (
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
	"github.com/smart-core-os/sc-golang/pkg/router"
)

// client is what the routers hold.
type client struct {
	name string
	data []int
}

func newClient(name string) *client { return &client{name: name, data: []int{1, 2, 3}} }

// look reads all of a client.
func look(v any) {
	if c, ok := v.(*client); ok && c != nil {
		n := len(c.name)
		for _, d := range c.data {
			n += d
		}
	}
}

var errNone = errors.New("none")

// TestRouter runs calls of one router at once.
func TestRouter(t *testing.T) {
	names := []string{"a", "b", "c", ""}
	vkit.Check(t, vkit.N(2500, 50000), func(t *rapid.T) {
		var opts []router.Option
		what := "router"
		supplier := func(name string) func(string) (any, error) {
			how := map[string]int{}
			for _, n := range names {
				how[n] = rapid.IntRange(0, 3).Draw(t, name)
			}
			what += fmt.Sprintf(" %s %v", name, how)
			return func(n string) (any, error) {
				switch how[n] {
				case 0:
					return nil, errNone
				case 1:
					return nil, nil
				}
				return newClient(n), nil
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "factory?") > 0 {
			opts = append(opts, router.WithFactory(supplier("factory")))
		}
		if rapid.Bool().Draw(t, "fallback?") {
			opts = append(opts, router.WithFallback(supplier("fallback")))
		}
		var r router.Router
		if rapid.Bool().Draw(t, "changes") {
			asks := rapid.Bool().Draw(t, "asks")
			what += fmt.Sprintf(" changes %v", asks)
			opts = append(opts, router.WithOnChange(func(c router.Change) {
				look(c.Old)
				look(c.New)
				if asks {
					r.Has(c.Name)
				}
			}))
		}
		r = router.NewRouter(opts...)
		kinds := map[string]bool{}
		plans := draw(t, 10, func(int) task {
			name := vkit.Pick(t, names, "name")
			k := rapid.SampledFrom([]string{"add", "add", "remove", "has", "get", "get", "get", "holds"}).Draw(t, "kind")
			kinds[k] = true
			return task{txt: k + " " + name, do: func(w *worker) {
				switch k {
				case "add":
					look(r.Add(name, newClient(name)))
				case "remove":
					look(r.Remove(name))
				case "has":
					r.Has(name)
				case "get":
					c, _ := r.Get(name)
					look(c)
				case "holds":
					r.HoldsType(1)
				}
			}}
		})
		run(t, what, plans)
		check(t, what, plans)
		for k := range kinds {
			vkit.Class("router %s", k)
		}
		if kinds["add"] || kinds["remove"] || len(opts) > 0 {
			vkit.Nontrivial(what + describe(plans))
		}
	})
}
