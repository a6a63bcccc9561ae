package c08

import (
	"math/rand"
	"testing"

	"github.com/smart-core-os/sc-golang/internal/verif/join"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

// TestJoin opens subscriptions while one writer is writing. The seed of each must be the filtered contents after some number of
// writes that fits the time of the subscription, its events (what is left of) the writes after those.
func TestJoin(t *testing.T) {
	rng := rand.New(rand.NewSource(vkit.Seed()))
	for round := 0; round < vkit.N(800, 30000); round++ {
		join.Run(t, rng, join.Options{Include: true, Lossy: round%3 == 0})
	}
}
