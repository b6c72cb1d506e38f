//go:build go1.22

// h10: creating local objects: operation sequences, crashes and failing calls.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/zzverif/crash"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

var bg = context.Background()

const (
	dest = "d/e/obj"
	attr = "user.vp"
)

// view is what a destination shows.
type view struct {
	there   bool
	content string
	attr    string
}

func (v view) String() string {
	if !v.there {
		return "nothing"
	}
	return fmt.Sprintf("%q (%q)", v.content, v.attr)
}

func look(path string) view {
	d := &filedriver.Driver{}
	o, err := d.Open(bg, path, -1)
	if err != nil {
		if !os.IsNotExist(err) {
			return view{true, err.Error(), ""}
		}
		return view{}
	}
	defer o.Close()
	return seen(o)
}

func seen(o driver.Object) view {
	b := make([]byte, o.Size()+10)
	n, _ := o.ReadAt(b, 0)
	v := view{true, string(b[:n]), ""}
	if x, ok := o.(driver.XattrObject); ok {
		a, err := x.GetXattr(attr)
		if err == nil {
			v.attr = string(a)
		}
	}
	return v
}

func others(dir string) (out []string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && p != filepath.Join(dir, dest) {
			out = append(out, p[len(dir)+1:])
		}
		return nil
	})
	return
}

// writer is one of the writers and what it has written.
type writer struct {
	w    driver.ObjectWriter
	v    view
	done bool // committed or aborted
	bad  bool // an operation failed
}

const (
	create = iota
	write
	setattr
	commit
	abort
	nOps
)

var names = [nOps]string{"create", "write", "setattr", "commit", "abort"}

type step struct{ w, op int }

func (s step) String() string { return fmt.Sprintf("%s%d", names[s.op], s.w) }

func piece(w, n int) string { return strings.Repeat(string(rune('A'+w)), 5) + fmt.Sprint(n) }

// apply performs a step; the model part is done by the caller.
func apply(ws []*writer, s step, path string) error {
	w := ws[s.w]
	switch s.op {
	case create:
		x, err := (&filedriver.Driver{}).Create(bg, path)
		if err != nil {
			return err
		}
		w.w = x
		w.v = view{there: true}
		return nil
	case write:
		p := piece(s.w, len(w.v.content))
		n, err := w.w.Write([]byte(p))
		if err == nil && n != len(p) {
			err = fmt.Errorf("short write")
		}
		w.v.content += p
		return err
	case setattr:
		x, ok := w.w.(driver.XattrObjectWriter)
		if !ok {
			return fmt.Errorf("no attributes")
		}
		w.v.attr = piece(s.w, 7)
		return x.SetXattr(attr, []byte(w.v.attr))
	case commit:
		_, err := w.w.Commit()
		return err
	default:
		w.w.Abort()
		return nil
	}
}

func before(path string) view {
	v := view{true, "old content", "old"}
	d := &filedriver.Driver{}
	w, err := d.Create(bg, path)
	if err == nil {
		_, err = w.Write([]byte(v.content))
	}
	if err == nil {
		err = w.(driver.XattrObjectWriter).SetXattr(attr, []byte(v.attr))
	}
	if err == nil {
		_, err = w.Commit()
	}
	if err != nil {
		panic(err)
	}
	w.Abort()
	return v
}

var scratch string
var dirs int

func fresh() string {
	dirs++
	d := filepath.Join(scratch, fmt.Sprintf("d%d", dirs))
	if err := os.Mkdir(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// enabled are the steps possible for the writers.
func enabled(ws []*writer, limit int) (out []step) {
	for i, w := range ws {
		if w.w == nil {
			if i == 0 || ws[i-1].w != nil {
				out = append(out, step{i, create})
			}
			continue
		}
		if !w.done {
			if len(w.v.content) < limit*6 {
				out = append(out, step{i, write})
			}
			if w.v.attr == "" {
				out = append(out, step{i, setattr})
			}
			out = append(out, step{i, commit})
		}
		out = append(out, step{i, abort})
	}
	return
}

// sequences looks at the destination after every operation.
func sequences(writers, depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		dir := fresh()
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, dest)
		var want view
		if c.Bool("exists") {
			want = before(path)
		}
		c.Assert(look(path) == want && len(others(dir)) == 0, "first content wrong", "%v %v", look(path), others(dir))
		ws := make([]*writer, writers)
		for i := range ws {
			ws[i] = &writer{}
		}
		type reader struct {
			o driver.Object
			v view
		}
		var readers []reader
		defer func() {
			for _, r := range readers {
				r.o.Close()
			}
		}()
		var did []step
		for n := 0; n < depth; n++ {
			en := enabled(ws, 2)
			k := c.Choose(len(en)+2, "operation")
			if k == 0 {
				break
			}
			if k == 1 {
				if len(readers) > 0 || !want.there {
					return
				}
				o, err := (&filedriver.Driver{}).Open(bg, path, -1)
				c.Assert(err == nil, "open failed", "%v", err)
				readers = append(readers, reader{o, want})
				continue
			}
			s := en[k-2]
			did = append(did, s)
			err := apply(ws, s, path)
			c.Step()
			c.Assert(err == nil, "operation failed", "%v: %v", did, err)
			if s.op == commit {
				want = ws[s.w].v
			}
			if s.op == commit || s.op == abort {
				ws[s.w].done = true
			}
			got := look(path)
			c.Assert(got == want, "destination wrong", "after %v: %v, want %v", did, got, want)
			for _, r := range readers {
				c.Assert(seen(r.o) == r.v, "reader disturbed", "after %v: %v, want %v", did, seen(r.o), r.v)
			}
			c.State(fmt.Sprint(did))
		}
		for _, w := range ws {
			if w.w != nil {
				w.w.Abort()
			}
		}
		c.Assert(look(path) == want, "abort has an effect", "after %v: %v, want %v", did, look(path), want)
		c.Assert(len(others(dir)) == 0, "something left behind", "after %v: %v", did, others(dir))
		c.Outcome(want.String())
	}
}

// A program for the child: whether the object exists, then steps.
type program struct {
	exists bool
	steps  []step
}

func (p program) String() string {
	s := "fresh"
	if p.exists {
		s = "exists"
	}
	for _, x := range p.steps {
		s += " " + x.String()
	}
	return s
}

func choose(c *mc.Ctx, writers, limit int) program {
	p := program{exists: c.Bool("exists")}
	ws := make([]*writer, writers)
	for i := range ws {
		ws[i] = &writer{}
	}
	fake := &filedriverWriter{}
	for {
		en := enabled(ws, limit)
		var now []step
		for _, s := range en {
			if s.op == abort && ws[s.w].bad {
				continue // aborted already
			}
			now = append(now, s)
		}
		if len(now) == 0 {
			return p
		}
		s := now[c.Choose(len(now), "operation")]
		p.steps = append(p.steps, s)
		w := ws[s.w]
		switch s.op {
		case create:
			w.w = fake
		case write:
			w.v.content += piece(0, 0)
		case setattr:
			w.v.attr = "x"
		case commit:
			w.done = true
		case abort:
			w.done, w.bad = true, true
		}
	}
}

type filedriverWriter struct{ driver.ObjectWriter }

// child runs the program given by the environment.
func child(dir string) {
	path := filepath.Join(dir, dest)
	words := strings.Fields(os.Getenv("VP_PROGRAM"))
	if words[0] == "exists" {
		before(path)
	}
	ws := []*writer{{}, {}}
	crash.Mark("start")
	for _, w := range words[1:] {
		s := step{w: int(w[len(w)-1] - '0')}
		for op, n := range names {
			if n == w[:len(w)-1] {
				s.op = op
			}
		}
		x := ws[s.w]
		if s.op != create && x.w == nil || x.bad && s.op != abort {
			fmt.Println("skipped")
			continue
		}
		crash.Mark("begin " + w)
		err := apply(ws, s, path)
		crash.Mark("end " + w)
		if err != nil {
			x.bad = true
			fmt.Println("failed", strings.ReplaceAll(err.Error(), "\n", " "))
		} else {
			fmt.Println("ok")
		}
	}
}

type recording struct {
	ops     []crash.Op
	results []string
	points  []crash.Fault
}

var memo = map[string]*recording{}

func record(c *mc.Ctx, p program, dir string, f *crash.Fault) *recording {
	ops, out, points, err := crash.Record(dir, f, "VP_PROGRAM="+p.String())
	if err != nil {
		panic(fmt.Sprintf("recording %v: %v", p, err))
	}
	return &recording{ops, strings.Split(strings.TrimSpace(string(out)), "\n"), points}
}

func recorded(c *mc.Ctx, p program) *recording {
	r := memo[p.String()]
	if r == nil {
		dir := fresh()
		r = record(c, p, dir, nil)
		os.RemoveAll(dir)
		memo[p.String()] = r
	}
	return r
}

// contents are what the writers of a program commit.
func contents(p program) map[int]view {
	out := map[int]view{}
	for _, s := range p.steps {
		v := out[s.w]
		switch s.op {
		case create:
			v = view{there: true}
		case write:
			v.content += piece(s.w, len(v.content))
		case setattr:
			v.attr = piece(s.w, 7)
		}
		out[s.w] = v
	}
	return out
}

func isTmp(name string) bool { return name != "obj" }

// crashes stops a program anywhere and restarts.
func crashes(writers, limit int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		p := choose(c, writers, limit)
		r := recorded(c, p)
		for i, s := range r.results {
			c.Assert(s == "ok", "operation failed", "%v: step %d: %s", p, i, s)
		}
		start := crash.Start(r.ops)
		var at []int
		for i := start; i <= len(r.ops); i++ {
			if i == len(r.ops) || r.ops[i].Kind != "mark" {
				at = append(at, i)
			}
		}
		n := at[c.Choose(len(at), "crash")]
		lost := ""
		t := crash.Lose(r.ops[:n], func(n int, what string) int {
			k := c.Choose(n, what)
			if k > 0 {
				lost += fmt.Sprintf(" %s/%d", what, k)
			}
			return k
		})
		c.Step()
		// What may be seen.
		allowed := map[view]bool{}
		var last view
		if p.exists {
			last = view{true, "old content", "old"}
		}
		allowed[last] = true
		vs := contents(p)
		sure := last
		var running *view
		for _, o := range r.ops[:n] {
			if o.Kind != "mark" {
				continue
			}
			w := strings.Fields(o.Path)
			if len(w) == 2 && strings.HasPrefix(w[1], "commit") {
				v := vs[int(w[1][6]-'0')]
				if w[0] == "begin" {
					running = &v
					allowed[v] = true
				} else {
					running = nil
					sure = v
				}
			}
		}
		dir := fresh()
		defer os.RemoveAll(dir)
		if err := t.Write(dir); err != nil {
			panic(err)
		}
		path := filepath.Join(dir, dest)
		got := look(path)
		where := "at the end"
		if n < len(r.ops) {
			where = "before " + r.ops[n].Kind
		}
		c.Assert(allowed[got], "torn object after a crash", "%v stopped %s, lost%s: %v", p, where, lost, got)
		if lost == "" {
			c.Assert(got == sure || running != nil && got == *running, "process crash undoes a commit", "%v stopped %s: %v, want %v", p, where, got, sure)
		}
		// Trying again works.
		ws := []*writer{{}}
		for _, s := range []step{{0, create}, {0, write}, {0, setattr}, {0, commit}, {0, abort}} {
			err := apply(ws, s, path)
			c.Assert(err == nil, "no new attempt after a crash", "%v stopped %s, lost%s: %v: %v", p, where, lost, s, err)
		}
		c.Assert(look(path) == ws[0].v, "no new attempt after a crash", "%v stopped %s, lost%s: %v", p, where, lost, look(path))
		c.State(t.Canon(isTmp))
		c.Outcome(got.String())
	}
}

// faults fails each call that matters.
func faults(writers, limit int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		p := choose(c, writers, limit)
		r := recorded(c, p)
		if len(r.points) == 0 {
			return
		}
		f := r.points[c.Choose(len(r.points), "failing call")]
		dir := fresh()
		defer os.RemoveAll(dir)
		res := record(c, p, dir, &f).results
		c.Step()
		vs := contents(p)
		var want view
		if p.exists {
			want = view{true, "old content", "old"}
		}
		failed := false
		for i, s := range p.steps {
			if i < len(res) && strings.HasPrefix(res[i], "failed") {
				failed = true
			}
			if s.op == commit && i < len(res) && res[i] == "ok" {
				want = vs[s.w]
			}
		}
		switch f.Call {
		case "write", "pwrite64", "fsync", "fdatasync", "rename", "renameat", "renameat2", "fsetxattr", "setxattr":
			c.Assert(failed, "error swallowed", "%v with failing %s: %v", p, f.Call, res)
		}
		got := look(filepath.Join(dir, dest))
		c.Assert(got == want, "destination wrong after an error", "%v with failing %s: %v, want %v", p, f.Call, got, want)
		if !strings.HasPrefix(f.Call, "unlink") && f.Call != "rmdir" {
			c.Assert(len(others(dir)) == 0, "something left behind", "%v with failing %s: %v", p, f.Call, others(dir))
		}
		c.State(p.String(), f.Call, f.N)
		c.Outcome(f.Call + " " + got.String())
	}
}

func main() {
	if d := os.Getenv("VP_CHILD"); d != "" {
		runtime.LockOSThread()
		child(d)
		return
	}
	mc.Main(mc.Def{
		Setup: func(s string) { scratch = s },
		Scenarios: func(tier string) []mc.Scenario {
			x := 0
			if tier == "thorough" {
				x = 1
			}
			return []mc.Scenario{
				{Name: "sequences", Run: sequences(2, 6+x), NoPrune: true},
				{Name: "crashes", Run: crashes(1, 2+x), NoPrune: true},
				{Name: "crashes of two", Run: crashes(2, x), NoPrune: true},
				{Name: "faults", Run: faults(1, 2), NoPrune: true},
				{Name: "faults of two", Run: faults(2, 0), NoPrune: true},
			}
		}})
}
