// Package regen runs the repository's generators over the current API descriptors.
package regen

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	_ "github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/pluginpb"

	_ "github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
)

// Files lists the registered API files that have services.
func Files() []protoreflect.FileDescriptor {
	var out []protoreflect.FileDescriptor
	protoregistry.GlobalFiles.RangeFiles(func(fd protoreflect.FileDescriptor) bool {
		p := fd.Path()
		if fd.Services().Len() > 0 && (strings.HasPrefix(p, "traits/") || strings.HasPrefix(p, "pkg/trait/")) {
			out = append(out, fd)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Path() < out[j].Path() })
	return out
}

// Generated is what a generator makes of all files, by path in the repository.
type Generated map[string]string

// Build compiles a generator, an error here says nothing about the generator's output.
func Build(repo, scratch, plugin string) (string, error) {
	out := filepath.Join(scratch, plugin)
	cmd := exec.Command("go", "build", "-o", out, "./cmd/"+plugin)
	cmd.Dir = repo
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building %s: %v\n%s", plugin, err, b)
	}
	return out, nil
}

// Run feeds one generator the files, as protoc would, a file at a time like the go:generate lines do.
func Run(binary string, all bool) (Generated, error) {
	gen := Generated{}
	files := Files()
	groups := [][]protoreflect.FileDescriptor{}
	if all {
		groups = append(groups, files)
	} else {
		for _, f := range files {
			groups = append(groups, []protoreflect.FileDescriptor{f})
		}
	}
	for _, g := range groups {
		req := &pluginpb.CodeGeneratorRequest{}
		seen := map[string]bool{}
		var add func(fd protoreflect.FileDescriptor)
		add = func(fd protoreflect.FileDescriptor) {
			if seen[fd.Path()] {
				return
			}
			seen[fd.Path()] = true
			for i := 0; i < fd.Imports().Len(); i++ {
				add(fd.Imports().Get(i).FileDescriptor)
			}
			req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(fd))
		}
		for _, f := range g {
			add(f)
			req.FileToGenerate = append(req.FileToGenerate, f.Path())
		}
		in, err := proto.Marshal(req)
		if err != nil {
			return nil, err
		}
		cmd := exec.Command(binary)
		cmd.Stdin = bytes.NewReader(in)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		outb, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("%s on %v: %v\n%s", filepath.Base(binary), req.FileToGenerate, err, stderr.String())
		}
		resp := &pluginpb.CodeGeneratorResponse{}
		if err := proto.Unmarshal(outb, resp); err != nil {
			return nil, fmt.Errorf("%s on %v: bad response: %v", filepath.Base(binary), req.FileToGenerate, err)
		}
		if resp.Error != nil {
			return nil, fmt.Errorf("%s on %v: %s", filepath.Base(binary), req.FileToGenerate, *resp.Error)
		}
		for _, f := range resp.File {
			if old, dup := gen[f.GetName()]; dup && old != f.GetContent() {
				return nil, fmt.Errorf("%s: two files %s", filepath.Base(binary), f.GetName())
			}
			gen[f.GetName()] = f.GetContent()
		}
	}
	return gen, nil
}

// CheckedIn lists the files of the repository with the given suffix.
func CheckedIn(repo, suffix string) (Generated, error) {
	names, err := filepath.Glob(filepath.Join(repo, "pkg/trait/*/*"+suffix))
	if err != nil {
		return nil, err
	}
	out := Generated{}
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		rel, _ := filepath.Rel(repo, n)
		out[rel] = string(b)
	}
	return out, nil
}
