package c12

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/smart-core-os/sc-golang/internal/verif/regen"
	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

// TestRegenerate runs the generators over the current API descriptors. What they make must be checked in, as far
// as can be told from outside: the same files with the exported declarations. That both do the same is for the other
// tests, which are run with the regenerated files in place of the checked-in ones as well.
func TestRegenerate(t *testing.T) {
	repo, scratch := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_SCRATCH")
	if repo == "" || scratch == "" {
		t.Skip("no repository")
	}
	for plugin, suffix := range map[string]string{"protoc-gen-router": "_router.pb.go", "protoc-gen-wrapper": "_wrap.pb.go"} {
		dir, err := os.MkdirTemp(scratch, plugin)
		if err != nil {
			t.Fatal(err)
		}
		bin, err := regen.Build(repo, dir, plugin)
		if err != nil {
			t.Fatal(err)
		}
		checked, err := regen.CheckedIn(repo, suffix)
		if err != nil {
			t.Fatal(err)
		}
		for _, all := range []bool{false, true} { // one file of the API at a time, all at once
			vkit.Eval()
			gen, err := regen.Run(bin, all)
			if err != nil {
				t.Errorf("%s (all at once: %v): %v", plugin, all, err)
				continue
			}
			for name := range checked {
				if _, ok := gen[name]; !ok {
					t.Errorf("%s is checked in but not made by %s", name, plugin)
				}
			}
			for name, content := range gen {
				old, ok := checked[name]
				if !ok {
					t.Errorf("%s is made by %s but not checked in", name, plugin)
					continue
				}
				want, err := exported(content)
				if err != nil {
					t.Errorf("%s makes %s, which can't be parsed: %v", plugin, name, err)
					continue
				}
				got, err := exported(old)
				if err != nil {
					t.Fatal(err)
				}
				for _, d := range diff(want, got) {
					t.Errorf("%s as made by %s has %s, the checked-in file has not", name, plugin, d)
				}
				vkit.Nontrivial(fmt.Sprint(name, all))
				vkit.Class("%s", plugin)
			}
		}
	}
}

func diff(a, b []string) (out []string) {
	has := map[string]bool{}
	for _, s := range b {
		has[s] = true
	}
	for _, s := range a {
		if !has[s] {
			out = append(out, s)
		}
	}
	return out
}

// exported lists the exported functions, methods and types of a file.
func exported(src string) (out []string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	types := func(l *ast.FieldList) string {
		var ts []string
		if l == nil {
			return ""
		}
		for _, p := range l.List {
			var b bytes.Buffer
			_ = printer.Fprint(&b, fset, p.Type)
			for i := 0; i < max(1, len(p.Names)); i++ {
				ts = append(ts, strings.ReplaceAll(b.String(), "interface{}", "any"))
			}
		}
		return strings.Join(ts, ", ")
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Name.IsExported() {
				out = append(out, fmt.Sprintf("func (%s) %s(%s) (%s)", types(d.Recv), d.Name.Name, types(d.Type.Params), types(d.Type.Results)))
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if s, ok := s.(*ast.TypeSpec); ok && s.Name.IsExported() {
					out = append(out, "type "+s.Name.Name)
				}
			}
		}
	}
	sort.Strings(out)
	return out, nil
}
