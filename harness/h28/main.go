//go:build go1.22

// h28: which driver a storage operation reaches with what, which files the
// file driver touches, and registry histories.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// call is what a stand-in driver was asked.
type call struct {
	driver, op, url string
	size            int64
	ctx             interface{}
}

var calls []call
var fail error

type ctxKey struct{}

type base struct{ name string }

func (b *base) note(ctx context.Context, op, url string, size int64) {
	calls = append(calls, call{b.name, op, url, size, ctx.Value(ctxKey{})})
}

func (b *base) Name() string { return b.name }
func (b *base) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	b.note(ctx, "open", url, size)
	return &object{b.name + " " + url}, fail
}
func (b *base) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	b.note(ctx, "stat", url, 0)
	return &info{name: b.name + " " + url}, fail
}

type creator struct{ b *base }

func (c creator) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	c.b.note(ctx, "create", url, 0)
	return &writer{c.b.name + " " + url}, fail
}

type remover struct{ b *base }

func (c remover) Remove(ctx context.Context, url string) error {
	c.b.note(ctx, "remove", url, 0)
	return fail
}

type readdirer struct{ b *base }

func (c readdirer) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	c.b.note(ctx, "readdir", url, 0)
	return []os.FileInfo{&info{name: c.b.name + " " + url}}, fail
}

type locker struct{ b *base }

func (c locker) Lock(ctx context.Context, url string) (io.Closer, error) {
	c.b.note(ctx, "lock", url, 0)
	return closer(c.b.name + " " + url), fail
}
func (c locker) RLock(ctx context.Context, url string) (io.Closer, error) {
	c.b.note(ctx, "rlock", url, 0)
	return closer(c.b.name + " " + url), fail
}

type object struct{ id string }

func (o *object) Close() error                         { return nil }
func (o *object) Read(p []byte) (int, error)           { return 0, io.EOF }
func (o *object) ReadAt([]byte, int64) (int, error)    { return 0, io.EOF }
func (o *object) Seek(off int64, w int) (int64, error) { return off, nil }
func (o *object) Size() int64                          { return 0 }
func (o *object) URL() string                          { return o.id }

type info struct {
	os.FileInfo
	name string
}

func (i *info) Name() string { return i.name }
func (i *info) IsDir() bool  { return false }

type writer struct{ id string }

func (w *writer) Write(p []byte) (int, error)        { return len(p), nil }
func (w *writer) Abort()                             {}
func (w *writer) Commit() (driver.CommitInfo, error) { return driver.NewCommitInfo(w.id), nil }

type closer string

func (closer) Close() error { return nil }

type visitor struct{ dirs, names []string }

func (v *visitor) VisitDir(dir string, files []os.FileInfo) error {
	v.dirs = append(v.dirs, dir)
	for _, f := range files {
		v.names = append(v.names, f.Name())
	}
	return nil
}

const (
	canCreate = 1 << iota
	canRemove
	canReaddir
	canLock
)

// standin makes a driver that offers just the operations asked for.
func standin(name string, can int) driver.Driver {
	b := &base{name}
	c, r, d, l := creator{b}, remover{b}, readdirer{b}, locker{b}
	type (
		C = creator
		R = remover
		D = readdirer
		L = locker
	)
	switch can {
	case canCreate:
		return struct {
			*base
			C
		}{b, c}
	case canRemove:
		return struct {
			*base
			R
		}{b, r}
	case canReaddir:
		return struct {
			*base
			D
		}{b, d}
	case canLock:
		return struct {
			*base
			L
		}{b, l}
	case canCreate | canRemove:
		return struct {
			*base
			C
			R
		}{b, c, r}
	case canCreate | canReaddir:
		return struct {
			*base
			C
			D
		}{b, c, d}
	case canCreate | canLock:
		return struct {
			*base
			C
			L
		}{b, c, l}
	case canRemove | canReaddir:
		return struct {
			*base
			R
			D
		}{b, r, d}
	case canRemove | canLock:
		return struct {
			*base
			R
			L
		}{b, r, l}
	case canReaddir | canLock:
		return struct {
			*base
			D
			L
		}{b, d, l}
	case canCreate | canRemove | canReaddir:
		return struct {
			*base
			C
			R
			D
		}{b, c, r, d}
	case canCreate | canRemove | canLock:
		return struct {
			*base
			C
			R
			L
		}{b, c, r, l}
	case canCreate | canReaddir | canLock:
		return struct {
			*base
			C
			D
			L
		}{b, c, d, l}
	case canRemove | canReaddir | canLock:
		return struct {
			*base
			R
			D
			L
		}{b, r, d, l}
	case canCreate | canRemove | canReaddir | canLock:
		return struct {
			*base
			C
			R
			D
			L
		}{b, c, r, d, l}
	}
	return b
}

// operation is one call of the storage package; it returns something that
// identifies its result.
type operation struct {
	name string
	op   string // expected driver call
	need int
	ctx  bool
	size int64
	run  func(ctx context.Context, url string) (string, error)
}

func oid(o storage.Object, err error) (string, error) {
	if o == nil {
		return "", err
	}
	return o.URL(), err
}

func fid(fi os.FileInfo, err error) (string, error) {
	if fi == nil {
		return "", err
	}
	return fi.Name(), err
}

func wid(w storage.ObjectWriter, err error) (string, error) {
	if w == nil {
		return "", err
	}
	i, _ := w.Commit()
	return i.ObjectURL(), err
}

func lid(l []os.FileInfo, err error) (string, error) {
	if len(l) != 1 {
		return "", err
	}
	return l[0].Name(), err
}

func cid(c io.Closer, err error) (string, error) {
	s, _ := c.(closer)
	return string(s), err
}

func vid(url string, f func(v *visitor) error) (string, error) {
	v := &visitor{}
	err := f(v)
	if len(v.dirs) > 1 || len(v.dirs) == 1 && v.dirs[0] != url {
		return "visited " + fmt.Sprint(v.dirs), err
	}
	return strings.Join(v.names, ","), err
}

var operations = []operation{
	{"Open", "open", 0, false, -1, func(ctx context.Context, u string) (string, error) { return oid(storage.Open(u)) }},
	{"OpenSize", "open", 0, false, 7, func(ctx context.Context, u string) (string, error) { return oid(storage.OpenSize(u, 7)) }},
	{"OpenContextSize", "open", 0, true, 9, func(ctx context.Context, u string) (string, error) {
		return oid(storage.OpenContextSize(ctx, u, 9))
	}},
	{"Create", "create", canCreate, false, 0, func(ctx context.Context, u string) (string, error) { return wid(storage.Create(u)) }},
	{"CreateContext", "create", canCreate, true, 0, func(ctx context.Context, u string) (string, error) { return wid(storage.CreateContext(ctx, u)) }},
	{"Remove", "remove", canRemove, false, 0, func(ctx context.Context, u string) (string, error) { return "", storage.Remove(u) }},
	{"RemoveContext", "remove", canRemove, true, 0, func(ctx context.Context, u string) (string, error) { return "", storage.RemoveContext(ctx, u) }},
	{"Stat", "stat", 0, false, 0, func(ctx context.Context, u string) (string, error) { return fid(storage.Stat(u)) }},
	{"StatContext", "stat", 0, true, 0, func(ctx context.Context, u string) (string, error) { return fid(storage.StatContext(ctx, u)) }},
	{"Readdir", "readdir", canReaddir, false, 0, func(ctx context.Context, u string) (string, error) { return lid(storage.Readdir(u)) }},
	{"ReaddirContext", "readdir", canReaddir, true, 0, func(ctx context.Context, u string) (string, error) { return lid(storage.ReaddirContext(ctx, u)) }},
	{"Lock", "lock", canLock, false, 0, func(ctx context.Context, u string) (string, error) { return cid(storage.Lock(u)) }},
	{"LockContext", "lock", canLock, true, 0, func(ctx context.Context, u string) (string, error) { return cid(storage.LockContext(ctx, u)) }},
	{"RLock", "rlock", canLock, false, 0, func(ctx context.Context, u string) (string, error) { return cid(storage.RLock(u)) }},
	{"RLockContext", "rlock", canLock, true, 0, func(ctx context.Context, u string) (string, error) { return cid(storage.RLockContext(ctx, u)) }},
	{"Visit", "readdir", canReaddir, false, 0, func(ctx context.Context, u string) (string, error) {
		return vid(u, func(v *visitor) error { return storage.Visit(u, v) })
	}},
	{"VisitContext", "readdir", canReaddir, true, 0, func(ctx context.Context, u string) (string, error) {
		return vid(u, func(v *visitor) error { return storage.VisitContext(ctx, u, v) })
	}},
}

// schemed are URLs by the scheme they have; the empty scheme is refused.
var schemed = []struct{ url, scheme string }{
	{"file:///a/b", "file"}, {"file:a/b", "file"}, {"FILE:///a", "file"}, {"/a/b", "file"}, {"a/b", "file"}, {"", "file"}, {".", "file"}, {"./a:b", "file"}, {"/a:b", "file"}, {"/a%20b", "file"}, {"../x y", "file"}, {"//host/a", "file"}, {"/a?q", "file"},
	{"one://b/k", "one"}, {"one:opaque", "one"}, {"ONE://b/k?q=1#f", "one"}, {"one://user:pw@h:99/%2F", "one"},
	{"t-w+o.2:x", "t-w+o.2"}, {"T-W+O.2://x/", "t-w+o.2"},
	{"three:x", ""}, {"on:x", ""}, {"ones://b", ""}, {"a:b", ""},
	{":x", ""}, {"1a:b", ""}, {"one://b/%zz", ""}, {"one://b\x7f", ""}, {"/a%", ""},
}

func dispatch(c *mc.Ctx) {
	defer driver.ClearRegistry()()
	can := c.Choose(16, "capabilities")
	driver.Register("one", standin("d1", can))
	driver.Register("t-w+o.2", standin("d2", can))
	driver.Register("file", standin("d3", can))
	names := map[string]string{"one": "d1", "t-w+o.2": "d2", "file": "d3"}
	op := operations[c.Choose(len(operations), "operation")]
	s := schemed[c.Choose(len(schemed), "url")]
	fail = nil
	if c.Bool("fails") {
		fail = errors.New("injected")
	}
	calls = nil
	ctx := context.WithValue(context.Background(), ctxKey{}, op.name)
	id, err := op.run(ctx, s.url)
	c.Step()
	if s.scheme == "" || op.need&can != op.need {
		c.Assert(err != nil, "not refused", "%s %q", op.name, s.url)
		c.Assert(len(calls) == 0, "refused but passed on", "%s %q: %v", op.name, s.url, calls)
	} else {
		want := call{names[s.scheme], op.op, s.url, op.size, nil}
		if op.ctx {
			want.ctx = op.name
		}
		c.Assert(len(calls) == 1 && calls[0] == want, "driver call", "%s %q: %+v, want %+v", op.name, s.url, calls, want)
		c.Assert(errors.Is(err, fail) && (err == nil) == (fail == nil), "error not passed on", "%s %q: %v", op.name, s.url, err)
		if fail == nil && op.op != "remove" {
			c.Assert(id == want.driver+" "+s.url, "result not passed on", "%s %q: %q", op.name, s.url, id)
		}
	}
	c.State("dispatch", can, op.name, s.url, fail != nil)
	c.Outcome(fmt.Sprint(op.name, err != nil))
}

// Histories of the registry.
func registry(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		defer driver.ClearRegistry()()
		schemes := []string{"one", "two"}
		ds := []driver.Driver{standin("d1", 0), standin("d2", 0)}
		m := map[string]driver.Driver{}
		var undo []driver.Undo
		var saved []map[string]driver.Driver
		for i := 0; i < depth; i++ {
			op := c.Choose(8, "operation")
			switch {
			case op < 6:
				s := schemes[op%2]
				var d driver.Driver
				if op/2 < 2 {
					d = ds[op/2]
				}
				panicked := func() (p bool) {
					defer func() { p = recover() != nil }()
					driver.Register(s, d)
					return false
				}()
				_, dup := m[s]
				c.Assert(panicked == (dup || d == nil), "registration", "%s %v: rejected %v", s, d, panicked)
				if !panicked {
					m[s] = d
				}
			case op == 6:
				undo = append(undo, driver.ClearRegistry())
				saved = append(saved, m)
				m = map[string]driver.Driver{}
			default:
				if len(undo) == 0 {
					return
				}
				undo[len(undo)-1]()
				m = saved[len(saved)-1]
				undo, saved = undo[:len(undo)-1], saved[:len(saved)-1]
			}
			c.Step()
			var want []string
			for s := range m {
				want = append(want, s)
			}
			sort.Strings(want)
			c.Assert(fmt.Sprint(driver.Drivers()) == fmt.Sprint(want), "schemes", "%v, want %v", driver.Drivers(), want)
			for _, s := range schemes {
				d, err := driver.Find(s + ":x")
				c.Assert((err == nil) == (m[s] != nil) && (err != nil || d == m[s]), "driver found", "%s: %v %v", s, d, err)
			}
			c.State("registry", len(undo), fmt.Sprint(want), fmt.Sprintf("%p %p", m["one"], m["two"]))
		}
		c.Outcome(fmt.Sprint(len(m), len(undo)))
	}
}

// local are spellings by the path they name below the directory the process
// is in; @ stands for that directory's absolute path.
var local = []struct{ url, path string }{
	{"a", "a"}, {"./a", "a"}, {"d/../a", "a"}, {"file:a", "a"}, {"@/a", "a"}, {"file://@/a", "a"}, {"file:@/a", "a"}, {"@/d/../a", "a"}, {"@//a", "a"}, {"%61", "a"}, {"file://@/%61", "a"}, {"FILE://@/a", "a"}, {"a/", "a"},
	{"d/b", "d/b"}, {"d//b", "d/b"}, {"file:d/b", "d/b"}, {"file://@/d/./b", "d/b"},
	{"x%20y", "x y"}, {"x y", "x y"}, {"file://@/x%20y", "x y"}, {"@/x y", "x y"},
	{"p%25", "p%"}, {"file://@/p%25", "p%"}, {"q%3Fr%23", "q?r#"}, {"file://@/q%3Fr%23", "q?r#"}, {"./c:o", "c:o"}, {"@/c:o", "c:o"}, {"é", "é"}, {"@/%C3%A9", "é"}, {"n+m", "n+m"}, {"@/n+m", "n+m"},
	{"new/deep/f", "new/deep/f"}, {"file://@/new/deep/f", "new/deep/f"},
}

var scratch string

// tree is every file below a directory with its content.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			out[rel] = "/"
		} else {
			b, _ := os.ReadFile(p)
			out[rel] = "=" + string(b)
		}
		return nil
	})
	return out
}

func same(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return fmt.Sprintf("%q is %q instead of %q", k, w, v)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q is new", k)
		}
	}
	return ""
}

func mkdirs(m map[string]string, p string) {
	for q := filepath.Dir(p); q != "."; q = filepath.Dir(q) {
		m[q] = "/"
	}
}

func files(c *mc.Ctx) {
	defer driver.ClearRegistry()()
	filedriver.RegisterDefaultDriver()
	dir := filepath.Join(scratch, fmt.Sprintf("files-%d", os.Getpid()))
	os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "d"), 0755); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	m := map[string]string{"d": "/"}
	sp := local[c.Choose(len(local), "spelling")]
	url := strings.ReplaceAll(sp.url, "@", dir)
	exists := c.Bool("exists")
	// Neighbours that are not to be touched.
	for _, l := range local {
		if l.path == sp.path && !exists || strings.HasPrefix(l.path, "new/") && l.path != sp.path {
			continue
		}
		os.MkdirAll(filepath.Dir(filepath.Join(dir, l.path)), 0755)
		os.WriteFile(filepath.Join(dir, l.path), []byte("old "+l.path), 0644)
		mkdirs(m, l.path)
		m[l.path] = "=old " + l.path
	}
	op := c.Choose(6, "operation")
	var err error
	switch op {
	case 0:
		w, err1 := storage.Create(url)
		c.Assert(err1 == nil, "create", "%q: %v", url, err1)
		io.WriteString(w, "new")
		ci, err := w.Commit()
		c.Assert(err == nil, "commit", "%q: %v", url, err)
		m[sp.path] = "=new"
		mkdirs(m, sp.path)
		o, err := storage.Open(ci.ObjectURL())
		c.Assert(err == nil, "reported URL", "%q for %q: %v", ci.ObjectURL(), url, err)
		b, _ := io.ReadAll(o)
		c.Assert(string(b) == "new", "reported URL", "%q for %q: %q", ci.ObjectURL(), url, b)
		o.Close()
		w.Abort()
	case 1:
		var o storage.Object
		if o, err = storage.Open(url); err == nil {
			b, _ := io.ReadAll(o)
			c.Assert(string(b) == "old "+sp.path && o.Size() == int64(len(b)), "another object", "%q: %q", url, b)
			p, perr := storage.Open(o.URL())
			c.Assert(perr == nil, "reported URL", "%q for %q: %v", o.URL(), url, perr)
			p.Close()
			o.Close()
		}
		c.Assert((err == nil) == exists && (exists || os.IsNotExist(err)), "open", "%q: %v", url, err)
	case 2:
		var fi os.FileInfo
		if fi, err = storage.Stat(url); err == nil {
			c.Assert(fi.Name() == filepath.Base(sp.path) && fi.Size() == int64(len("old "+sp.path)), "another object", "%q: %q", url, fi.Name())
		}
		c.Assert((err == nil) == exists && (exists || os.IsNotExist(err)), "stat", "%q: %v", url, err)
	case 3:
		err = storage.Remove(url)
		c.Assert((err == nil) == exists && (exists || os.IsNotExist(err)), "remove", "%q: %v", url, err)
		delete(m, sp.path)
	case 4:
		var fis []os.FileInfo
		fis, err = storage.Readdir(url + "/..")
		if strings.HasSuffix(sp.path, "/f") && !exists {
			break
		}
		c.Assert(err == nil, "readdir", "%q: %v", url, err)
		var got, want []string
		for _, fi := range fis {
			got = append(got, fi.Name())
		}
		for p := range m {
			if filepath.Dir(p) == filepath.Dir(sp.path) {
				want = append(want, filepath.Base(p))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		c.Assert(fmt.Sprint(got) == fmt.Sprint(want), "readdir", "%q: %q, want %q", url, got, want)
	case 5:
		l, err1 := storage.Lock(url)
		c.Assert(err1 == nil, "lock", "%q: %v", url, err1)
		l.Close()
		if !exists {
			m[sp.path] = "="
			mkdirs(m, sp.path)
		}
	}
	c.Step()
	diff := same(m, tree(dir))
	c.Assert(diff == "", "files touched", "operation %d on %q: %s", op, url, diff)
	c.State("files", op, sp.url, exists)
	c.Outcome(fmt.Sprint("files ", op, exists))
}

func main() {
	mc.Main(mc.Def{
		Setup: func(s string) { scratch = s },
		Scenarios: func(tier string) []mc.Scenario {
			d := 6
			if tier == "thorough" {
				d = 7
			}
			return []mc.Scenario{
				{Name: "dispatch", Run: dispatch},
				{Name: "registry", Run: registry(d)},
				{Name: "files", Run: files},
			}
		}})
}
