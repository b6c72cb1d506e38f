//go:build go1.22

// h22: operation sequences on the memory store against a map of paths, and
// the inline-data writer.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	datadriver "github.com/NVIDIA/vdisc/pkg/storage/data"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

var bg = context.Background()

// model maps paths to contents; directories map to nil. The root is "".
type model map[string]*string

func (m model) dir(p string) bool {
	if p == "" {
		return true
	}
	v, ok := m[p]
	return ok && v == nil
}

func parent(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[:i]
	}
	return ""
}

// commit makes the parents and the object, or changes nothing.
func (m model) commit(p, data string) bool {
	if m.dir(p) {
		return false
	}
	for q := parent(p); q != ""; q = parent(q) {
		if v, ok := m[q]; ok && v != nil {
			return false
		}
	}
	for q := parent(p); q != ""; q = parent(q) {
		m[q] = nil
	}
	m[p] = &data
	return true
}

func (m model) remove(p string) {
	for q := range m {
		if p == "" || q == p || strings.HasPrefix(q, p+"/") {
			delete(m, q)
		}
	}
}

func (m model) list(p string) []string {
	out := []string{}
	for q, v := range m {
		if q != p && parent(q) == p {
			name := q[strings.LastIndexByte(q, '/')+1:]
			if v == nil {
				out = append(out, fmt.Sprintf("%q/", name))
			} else {
				out = append(out, fmt.Sprintf("%q %d", name, len(*v)))
			}
		}
	}
	sort.Strings(out)
	return out
}

func (m model) String() string {
	var out []string
	for q, v := range m {
		if v == nil {
			out = append(out, q+"/")
		} else {
			out = append(out, q+"="+*v)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func content(d *ramdriver.Driver, url string) (string, error) {
	o, err := d.Open(bg, url, -1)
	if err != nil {
		return "", err
	}
	defer o.Close()
	b, err := io.ReadAll(o)
	if err == nil && o.Size() != int64(len(b)) {
		err = fmt.Errorf("size %d of %d bytes", o.Size(), len(b))
	}
	return string(b), err
}

func list(d *ramdriver.Driver, url string) ([]string, error) {
	fis, err := d.Readdir(bg, url)
	out := []string{}
	for _, fi := range fis {
		switch {
		case fi.Name() == "." || fi.Name() == "..":
		case fi.IsDir():
			out = append(out, fmt.Sprintf("%q/", fi.Name()))
		default:
			out = append(out, fmt.Sprintf("%q %d", fi.Name(), fi.Size()))
		}
	}
	sort.Strings(out)
	return out, err
}

// compare looks at every path of the universe.
func compare(c *mc.Ctx, d *ramdriver.Driver, m model, universe []string, after string) {
	for _, p := range universe {
		url := "ram:///" + p
		v, ok := m[p]
		isDir := m.dir(p)
		exists := ok || isDir
		leaf := !exists && m.dir(parent(p)) // missing in a directory that is there
		fi, err := d.Stat(bg, url)
		switch {
		case !exists:
			c.Assert(err != nil && (!leaf || os.IsNotExist(err)), "stat of a missing path", "after %s: %s: %v", after, url, err)
		default:
			c.Assert(err == nil, "stat fails", "after %s: %s: %v", after, url, err)
			c.Assert(fi.IsDir() == isDir && (isDir || fi.Size() == int64(len(*v))), "stat", "after %s: %s: %v %d", after, url, fi.IsDir(), fi.Size())
			if p != "" {
				c.Assert(fi.Name() == p[strings.LastIndexByte(p, '/')+1:], "stat name", "after %s: %s: %q", after, url, fi.Name())
			}
		}
		got, err := content(d, url)
		if exists && !isDir {
			c.Assert(err == nil && got == *v, "content", "after %s: %s: %q %v, want %q", after, url, got, err, *v)
		} else {
			c.Assert(err != nil && (!leaf || os.IsNotExist(err)), "open of what is not an object", "after %s: %s: %v", after, url, err)
		}
		l, err := list(d, url)
		if isDir {
			c.Assert(err == nil && fmt.Sprint(l) == fmt.Sprint(m.list(p)), "listing", "after %s: %s: %v %v, want %v", after, url, l, err, m.list(p))
		} else {
			c.Assert(err != nil && (!leaf || os.IsNotExist(err)), "listing of what is not a directory", "after %s: %s: %v", after, url, err)
		}
	}
}

type wslot struct {
	w         driver.ObjectWriter
	path      string
	data      string
	finished  bool
	committed bool
	refused   bool
}

type rslot struct {
	o    driver.Object
	data string
}

var universe = []string{"", "a", "a/b", "a/b/c", "d"}

func sequences(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		d := ramdriver.NewDriver()
		m := model{}
		var ws []*wslot
		var rs []*rslot
		written := 0
		var trace []string
		for step := 0; step < depth; step++ {
			// Handles are used in the order they were made, so that
			// sequences differing only in their numbering are explored once.
			n := len(universe)
			op := c.Choose(3*n+6, "operation")
			name := ""
			switch {
			case op < n: // create
				if len(ws) == 2 || step == depth-1 {
					return
				}
				p := universe[op]
				name = "create " + p
				w, err := d.Create(bg, "ram:///"+p)
				if err != nil {
					c.Assert(p == "", "create fails", "%s: %v", p, err)
					return
				}
				ws = append(ws, &wslot{w: w, path: p})
			case op < 2*n: // remove
				p := universe[op-n]
				name = "remove " + p
				err := d.Remove(bg, "ram:///"+p)
				_, exists := m[p]
				exists = exists || p == ""
				if err == nil {
					c.Assert(exists, "removed what is not there", "%s after %v", p, trace)
					m.remove(p)
				} else {
					c.Assert(exists || !m.dir(parent(p)) || os.IsNotExist(err), "remove of a missing path", "%s: %v", p, err)
					c.Assert(!exists || m.dir(p) && (p == "" || len(m.list(p)) > 0), "remove fails", "%s after %v: %v", p, trace, err)
				}
			case op < 3*n: // open and keep
				if len(rs) == 2 || step == depth-1 {
					return
				}
				p := universe[op-2*n]
				name = "open " + p
				o, err := d.Open(bg, "ram:///"+p, -1)
				v := m[p]
				if v == nil {
					c.Assert(err != nil, "open of what is not an object", "%s after %v", p, trace)
					return
				}
				c.Assert(err == nil, "open fails", "%s after %v: %v", p, trace, err)
				rs = append(rs, &rslot{o, *v})
			default:
				k := (op - 3*n) / 3
				if k >= len(ws) {
					return
				}
				w := ws[k]
				switch (op - 3*n) % 3 {
				case 0:
					name = fmt.Sprint("write ", k)
					if w.finished {
						return
					}
					written++
					s := strings.Repeat(fmt.Sprint(written), 1+written%2)
					n, err := io.WriteString(w.w, s)
					c.Assert(err == nil && n == len(s), "write", "%d %v", n, err)
					w.data += s
				case 1:
					name = fmt.Sprint("commit ", k)
					info, err := w.w.Commit()
					switch {
					case w.committed:
						// Once more has no effect.
					case w.finished && !w.refused:
						c.Assert(err != nil, "commit after abort", "after %v", trace)
					default:
						ok := m.commit(w.path, w.data)
						if w.refused && err != nil {
							// A writer may stay unusable.
							if ok {
								return
							}
							break
						}
						c.Assert(ok == (err == nil), "commit", "%s after %v: %v", w.path, trace, err)
						if ok {
							w.committed = true
							got, err := content(d, info.ObjectURL())
							c.Assert(err == nil && got == w.data, "reported URL", "%s: %q %v", info.ObjectURL(), got, err)
						} else {
							w.refused = true
						}
					}
					w.finished = true
				case 2:
					name = fmt.Sprint("abort ", k)
					w.w.Abort()
					w.finished = true
					if w.refused {
						w.refused = false
					}
				}
			}
			trace = append(trace, name)
			c.Step()
			compare(c, d, m, universe, strings.Join(trace, "; "))
			for _, r := range rs {
				b := make([]byte, len(r.data)+1)
				n, err := r.o.ReadAt(b, 0)
				c.Assert(n == len(r.data) && string(b[:n]) == r.data && err == io.EOF, "opened object changes", "after %v: %q %v", trace, b[:n], err)
			}
			c.State(step, m.String(), fmt.Sprint(len(ws), len(rs)))
		}
		c.Outcome(m.String())
	}
}

// spellings are URLs by the path they name.
var spellings = []struct{ url, path string }{
	{"ram:a", "a"}, {"ram:/a", "a"}, {"ram:///a", "a"}, {"ram:./a", "a"}, {"ram:x/../a", "a"}, {"ram:///./x/../a", "a"}, {"ram:////a", "a"}, {"ram:../a", "a"}, {"ram:///../a", "a"}, {"ram:a/", "a"}, {"ram:///%61", "a"},
	{"ram:///a%20b", "a b"}, {"ram:/a%20b", "a b"}, {"ram:///a b", "a b"},
	{"ram:///a%3Fb%23", "a?b#"}, {"ram:///100%25", "100%"}, {"ram:/100%25", "100%"},
	{"ram:x/y", "x/y"}, {"ram:///x//y", "x/y"}, {"ram:///x/y/z/..", "x/y"},
}

func spelled(c *mc.Ctx) {
	s := spellings[c.Choose(len(spellings), "created as")]
	t := spellings[c.Choose(len(spellings), "used as")]
	d := ramdriver.NewDriver()
	w, err := d.Create(bg, s.url)
	c.Assert(err == nil, "create", "%s: %v", s.url, err)
	io.WriteString(w, "data")
	info, err := w.Commit()
	c.Assert(err == nil, "commit", "%s: %v", s.url, err)
	m := model{}
	m.commit(s.path, "data")
	fi, err := d.Stat(bg, t.url)
	got, err2 := content(d, t.url)
	if s.path == t.path {
		c.Assert(err == nil && fi.Size() == 4, "stat", "%s as %s: %v", s.url, t.url, err)
		c.Assert(err2 == nil && got == "data", "content", "%s as %s: %q %v", s.url, t.url, got, err2)
		o, err := d.Open(bg, t.url, -1)
		c.Assert(err == nil, "open", "%s: %v", t.url, err)
		for _, u := range []string{o.URL(), info.ObjectURL()} {
			got, err := content(d, u)
			c.Assert(err == nil && got == "data", "reported URL", "%s reported as %s: %q %v", t.url, u, got, err)
		}
		l, err := list(d, "ram:///"+strings.ReplaceAll(parent(s.path), " ", "%20"))
		c.Assert(err == nil && fmt.Sprint(l) == fmt.Sprint(m.list(parent(s.path))), "listing", "%s: %v %v", s.url, l, err)
		c.Assert(d.Remove(bg, t.url) == nil, "remove", "%s as %s", s.url, t.url)
		_, err = d.Stat(bg, s.url)
		c.Assert(os.IsNotExist(err), "removed", "%s as %s: %v", s.url, t.url, err)
	} else {
		c.Assert(os.IsNotExist(err) && os.IsNotExist(err2) && d.Remove(bg, t.url) != nil, "another object", "%s as %s: %v %v", s.url, t.url, err, err2)
	}
	c.Step()
	c.State("spelled", s.url, t.url)
	c.Outcome(fmt.Sprint("spelled ", s.path == t.path))
}

var alphabet = []byte{0, 'a', '%', '+', ',', ' ', '/', '=', 0xff, '\n', ';', '#', '?'}

func inline(length int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		d := &datadriver.Driver{}
		w, err := d.Create(bg, mc.Pick(c, "base", "data:,", "data:;base64,"))
		c.Assert(err == nil, "create", "%v", err)
		var data []byte
		aborted, committed := false, false
		for i := 0; i < length; i++ {
			switch c.Choose(4, "operation") {
			case 0:
				if committed {
					return
				}
				p := []byte{alphabet[c.Choose(len(alphabet), "byte")]}
				n, err := w.Write(p)
				if aborted {
					continue
				}
				c.Assert(n == 1 && err == nil, "write", "%d %v", n, err)
				data = append(data, p[0])
				p[0] = 'X' // the writer does not keep the caller's buffer
			case 1:
				n, err := w.Write(bytes.Repeat([]byte{'z'}, 600))
				if committed || aborted {
					return
				}
				c.Assert(n == 600 && err == nil, "write", "%d %v", n, err)
				data = append(data, bytes.Repeat([]byte{'z'}, 600)...)
			case 2:
				info, err := w.Commit()
				if aborted {
					c.Assert(err != nil, "commit after abort", "")
					continue
				}
				c.Assert(err == nil, "commit", "%v", err)
				committed = true
				o, err := d.Open(bg, info.ObjectURL(), -1)
				c.Assert(err == nil, "open", "%v", err)
				b, err := io.ReadAll(o)
				c.Assert(err == nil && bytes.Equal(b, data) && o.Size() == int64(len(data)), "content", "%q %v, want %q", b, err, data)
				fi, err := d.Stat(bg, info.ObjectURL())
				c.Assert(err == nil && fi.Size() == int64(len(data)), "stat", "%v", err)
			case 3:
				w.Abort()
				if !committed {
					aborted = true
				} else {
					return
				}
			}
			c.Step()
			c.State("inline", string(data), aborted, committed)
		}
		c.Outcome(fmt.Sprint("inline ", len(data), aborted, committed))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		d, n := 5, 4
		if tier == "thorough" {
			d, n = 6, 5
		}
		return []mc.Scenario{
			{Name: "sequences", Run: sequences(d)},
			{Name: "spelled", Run: spelled},
			{Name: "inline", Run: inline(n)},
		}
	}})
}
