// Package c11 runs generated concurrent workloads under the race detector.
package c11

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"github.com/smart-core-os/sc-golang/internal/verif/vkit"
)

// task is one step of a worker.
type task struct {
	txt   string
	pause int // times to yield first
	do    func(w *worker)
}

// worker is one goroutine of a workload. Nothing of it is shared with other workers before the end.
type worker struct {
	all   *workload
	tasks []task
	kept  []proto.Message // that were received, and are read again at the end
}

// workload is a set of workers that run at once.
type workload struct {
	workers []*worker
	ctx     context.Context // ends when the workers are done, subscriptions end with it
	wg      sync.WaitGroup  // subscriptions
}

// keep reads messages, now and again when there are more, and at the end.
func (w *worker) keep(ms ...proto.Message) {
	for _, m := range ms {
		if m == nil || !m.ProtoReflect().IsValid() {
			continue
		}
		read(m)
		if len(w.kept) < 64 {
			w.kept = append(w.kept, m)
		}
	}
	for _, m := range w.kept[max(0, len(w.kept)-6):] {
		read(m)
	}
}

// subscribe runs fn, which consumes a subscription until its context ends, as a worker of its own.
// Its context ends when the workers are done, or before by calling cancel.
func (w *worker) subscribe(fn func(c *worker, ctx context.Context, cancel func())) {
	ctx, cancel := context.WithCancel(w.all.ctx)
	c := &worker{all: w.all}
	w.all.wg.Add(1)
	go func() {
		defer w.all.wg.Done()
		defer cancel()
		fn(c, ctx, cancel)
		for _, m := range c.kept {
			read(m)
		}
	}()
}

// read looks at all of m.
func read(m proto.Message) {
	_ = proto.Size(m)
	walk(m.ProtoReflect())
}

func walk(m protoreflect.Message) {
	_ = len(m.GetUnknown())
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
				if fd.MapValue().Message() != nil {
					walk(v.Message())
				}
				return true
			})
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				if e := v.List().Get(i); fd.Message() != nil {
					walk(e.Message())
				}
			}
		case fd.Message() != nil:
			walk(v.Message())
		}
		return true
	})
}

// run runs the workers all at once, and fails if the race detector reports anything.
func run(t *rapid.T, what string, plans [][]task) {
	l := &workload{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l.ctx = ctx
	start := make(chan struct{})
	var workers sync.WaitGroup
	panics := make([]any, len(plans))
	for i, p := range plans {
		w := &worker{all: l, tasks: p}
		workers.Add(1)
		go func() {
			defer workers.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 8192)
					panics[i] = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			for _, task := range w.tasks {
				pause(task.pause)
				task.do(w)
			}
			for _, m := range w.kept {
				read(m)
			}
		}()
	}
	close(start)
	vkit.Within(t, what, func() {
		workers.Wait()
		cancel()
		l.wg.Wait()
	})
	for i, p := range panics {
		if p != nil {
			t.Fatalf("%s: worker %d panicked: %v", what, i, p)
		}
	}
}

// check fails if the race detector reported something.
func check(t *rapid.T, what string, plans [][]task) {
	if r := vkit.Races(); r != "" {
		t.Fatalf("%s\n%sdata race\n%s", what, describe(plans), r)
	}
}

func describe(plans [][]task) string {
	var b strings.Builder
	for i, p := range plans {
		for _, t := range p {
			fmt.Fprintf(&b, "  %2d: %s\n", i, t.txt)
		}
	}
	return b.String()
}

// draw draws the tasks of 4 to 16 workers.
func draw(t *rapid.T, most int, one func(worker int) task) [][]task {
	plans := make([][]task, rapid.IntRange(4, 16).Draw(t, "workers"))
	for i := range plans {
		for j, n := 0, rapid.IntRange(1, most).Draw(t, "tasks"); j < n; j++ {
			k := one(i)
			k.pause = rapid.IntRange(0, 3).Draw(t, "pause")
			plans[i] = append(plans[i], k)
		}
	}
	return plans
}

// scribble changes everything reachable from m in place, which is allowed for what was given to a call that has returned.
func scribble(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	scribbleMessage(m.ProtoReflect())
}

func scribbleMessage(m protoreflect.Message) {
	var fds []protoreflect.FieldDescriptor
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		fds = append(fds, fd)
		return true
	})
	for _, fd := range fds {
		m.Set(fd, m.Get(fd)) // the race detector doesn't see Clear
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				if fd.MapValue().Message() != nil {
					scribbleMessage(v.Message())
				} else {
					mp.Set(k, v)
				}
				return true
			})
		case fd.IsList():
			l := m.Mutable(fd).List()
			for i := 0; i < l.Len(); i++ {
				if fd.Message() != nil {
					scribbleMessage(l.Get(i).Message())
				} else {
					l.Set(i, l.Get(i))
				}
			}
		case fd.Message() != nil:
			scribbleMessage(m.Mutable(fd).Message())
		case fd.Kind() == protoreflect.BytesKind:
			b := m.Get(fd).Bytes()
			for i := range b {
				b[i]++
			}
		}
		if fd.ContainingOneof() == nil && !fd.IsList() && !fd.IsMap() && fd.Message() == nil {
			m.Clear(fd)
		}
	}
}

func pause(n int) {
	for range n {
		runtime.Gosched()
	}
}
