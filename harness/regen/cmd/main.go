// Command cmd writes the regenerated routers and wrappers below a directory, and an overlay putting them in place of
// the checked-in ones.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/smart-core-os/sc-golang/internal/verif/regen"
)

func main() {
	repo, dir := os.Args[1], os.Args[2]
	rep := map[string]string{}
	for _, g := range []string{"protoc-gen-router", "protoc-gen-wrapper"} {
		b, err := regen.Build(repo, dir, g)
		check(err)
		gen, err := regen.Run(b, false)
		check(err)
		for name, text := range gen {
			p := filepath.Join(dir, "gen", name)
			check(os.MkdirAll(filepath.Dir(p), 0o755))
			check(os.WriteFile(p, []byte(text), 0o644))
			rep[filepath.Join(repo, name)] = p
		}
	}
	b, err := json.Marshal(rep)
	check(err)
	check(os.WriteFile(filepath.Join(dir, "regen.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
