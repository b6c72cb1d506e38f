//go:build go1.22

// h06: every readable object behaves like the byte string it denotes.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/ram"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

const letters = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// src is a source object with optional faults.
type src struct {
	d      string
	url    string
	pos    int64
	closed bool
	fault  func(off, n int) (int, error) // asked before each read
}

func (s *src) Close() error { s.closed = true; return nil }
func (s *src) URL() string  { return s.url }
func (s *src) Size() int64  { return int64(len(s.d)) }
func (s *src) Read(p []byte) (int, error) {
	n, err := s.ReadAt(p, s.pos)
	s.pos += int64(n)
	return n, err
}
func (s *src) ReadAt(p []byte, off int64) (int, error) {
	if len(p) > 0 && s.fault != nil {
		if n, err := s.fault(int(off), len(p)); n < len(p) {
			m := 0
			if off < s.Size() {
				m = copy(p[:n], s.d[off:])
			}
			return m, err
		}
	}
	if off >= s.Size() {
		return 0, io.EOF
	}
	n := copy(p, s.d[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (s *src) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += s.Size()
	}
	if o < 0 {
		return 0, errors.New("negative")
	}
	s.pos = o
	return o, nil
}

type target struct {
	o    storage.AnonymousObject
	want string
	name string
}

var next int

func take(n int) string {
	s := letters[next%20 : next%20+n]
	next += n
	return s
}

func parts(c *mc.Ctx, max, sizes int, fault func(src, off, n int) (int, error)) ([]storage.AnonymousObject, string, string) {
	var ps []storage.AnonymousObject
	want := ""
	n := c.Choose(max, "parts") + 1
	name := ""
	next = 0
	for i := 0; i < n; i++ {
		d := take(c.Choose(sizes, "part size"))
		p := &src{d: d, url: fmt.Sprint("mem:", i)}
		if fault != nil {
			p.fault = func(off, n int) (int, error) { return fault(i, off, n) }
		}
		ps = append(ps, p)
		want += d
		name += fmt.Sprintf(" %d", len(d))
	}
	return ps, want, name
}

func cached(c *mc.Ctx, o storage.Object, bsize int64) storage.Object {
	s, err := caching.NewMemorySlicer(bsize, 3)
	c.Assert(err == nil, "cache refused", "%v", err)
	return caching.NewCache(s, 0, 1).WithCaching(o)
}

const kinds = 13

func object(c *mc.Ctx, k int) target {
	open := func(url string) storage.AnonymousObject {
		o, err := storage.Open(url)
		c.Assert(err == nil, "open failed", "%s: %v", url, err)
		return o
	}
	next = 0
	switch k {
	case 0:
		d := take(c.Choose(6, "size"))
		return target{open("data:," + d), d, "data"}
	case 1:
		n := c.Choose(6, "size")
		return target{open(fmt.Sprintf("zero:%d", n)), strings.Repeat("\x00", n), "zero"}
	case 2:
		d := take(c.Choose(6, "size"))
		drv := ramdriver.NewDriver()
		w, err := drv.Create(context.Background(), "ram:/d/f")
		c.Assert(err == nil, "create failed", "%v", err)
		io.WriteString(w, d)
		_, err = w.Commit()
		c.Assert(err == nil, "commit failed", "%v", err)
		o, err := drv.Open(context.Background(), "ram:/d/f", -1)
		c.Assert(err == nil, "open failed", "%v", err)
		return target{o, d, "ram"}
	case 3:
		d := take(c.Choose(6, "size"))
		p := filepath.Join(mc.Scratch, fmt.Sprint("f", len(d)))
		if _, err := os.Stat(p); err != nil {
			c.Assert(os.WriteFile(p, []byte(d), 0644) == nil, "setup", "write")
		}
		return target{open(p), d, "file"}
	case 4:
		ps, want, name := parts(c, 4, 4, nil)
		return target{storage.Concat(ps...), want, "concat" + name}
	case 5:
		ps, want, name := parts(c, 3, 3, nil)
		return target{storage.ConcurrentConcat(ps...), want, "concurrent concat" + name}
	case 6:
		d := take(6)
		off := c.Choose(7, "offset")
		n := c.Choose(7-off, "length")
		return target{storage.Slice(&src{d: d}, int64(off), int64(n)), d[off : off+n], fmt.Sprintf("slice %d+%d", off, n)}
	case 7:
		d := take(c.Choose(4, "size"))
		return target{storage.WithURL(&src{d: d}, "x:y"), d, "with url"}
	case 8:
		d := take(c.Choose(8, "size"))
		b := c.Choose(4, "block") + 1
		return target{cached(c, &src{d: d, url: "mem:x"}, int64(b)), d, fmt.Sprintf("cached %d by %d", len(d), b)}
	case 9:
		// concatenation of concatenations
		a, wa, na := parts(c, 2, 3, nil)
		b, wb, nb := parts(c, 2, 3, nil)
		return target{storage.Concat(storage.Concat(a...), storage.Concat(b...)), wa + wb, "nested concat" + na + " /" + nb}
	case 10:
		// slice of a concatenation
		a, wa, na := parts(c, 3, 3, nil)
		off := c.Choose(len(wa)+1, "offset")
		n := c.Choose(len(wa)-off+1, "length")
		return target{storage.Slice(storage.Concat(a...), int64(off), int64(n)), wa[off : off+n], fmt.Sprintf("slice %d+%d of concat%s", off, n, na)}
	case 11:
		// concatenation of slices
		d := take(5)
		i := c.Choose(6, "cut")
		j := c.Choose(6, "cut")
		return target{storage.Concat(storage.Slice(&src{d: d}, 0, int64(i)), storage.Slice(&src{d: d}, int64(j), int64(5-j))), d[:i] + d[j:], fmt.Sprintf("concat of slices %d %d", i, j)}
	default:
		// a cached concatenation with padding, like a vdisc image
		d, e := take(c.Choose(5, "size")), take(c.Choose(4, "size"))
		b := int64(c.Choose(3, "block") + 1)
		z := c.Choose(3, "padding")
		pad, err := storage.Open(fmt.Sprintf("zero:%d", z))
		c.Assert(err == nil, "open failed", "%v", err)
		return target{storage.Concat(cached(c, &src{d: d, url: "mem:a"}, b), pad, cached(c, &src{d: e, url: "mem:b"}, b)), d + strings.Repeat("\x00", z) + e, fmt.Sprintf("image %d+%d+%d by %d", len(d), z, len(e), b)}
	}
}

// readAt performs one positional read and checks it.
func readAt(c *mc.Ctx, t target, off, n int) {
	p := []byte(strings.Repeat("?", n))
	got, err := t.o.ReadAt(p, int64(off))
	want := ""
	if off < len(t.want) {
		want = t.want[off:]
		if len(want) > n {
			want = want[:n]
		}
	}
	c.Step()
	c.Assert(got == len(want) && string(p[:got]) == want, "positional read wrong", "%s: %d bytes at %d of %d: got %d %q err %v, want %q", t.name, n, off, len(t.want), got, p[:max(0, min(got, n))], err, want)
	c.Assert(err == nil || err == io.EOF, "positional read fails", "%s: %d bytes at %d of %d: %v", t.name, n, off, len(t.want), err)
	if err == io.EOF {
		c.Assert(n == 0 || off+got >= len(t.want), "end of data reported early", "%s: %d bytes at %d of %d", t.name, n, off, len(t.want))
	}
	c.Assert(n == 0 || got > 0 || err != nil, "empty read without end of data", "%s: %d bytes at %d of %d", t.name, n, off, len(t.want))
	c.Assert(strings.Trim(string(p[got:]), "?") == "" || got == n, "bytes written beyond those reported", "%s: %d bytes at %d of %d: %q", t.name, n, off, len(t.want), p)
}

type op struct {
	name string
	a, b int
}

func ops(size int) []op {
	l := []op{{"read", 1, 0}, {"read", 2, 0}, {"read", size + 1, 0}, {"read", 0, 0},
		{"seek", 0, 0}, {"seek", 1, 0}, {"seek", size, 0}, {"seek", size + 2, 0}, {"seek", -1, 0},
		{"seek", 1, 1}, {"seek", -1, 1}, {"seek", 0, 1}, {"seek", size + 1, 1},
		{"seek", 0, 2}, {"seek", -1, 2}, {"seek", 1, 2}, {"seek", -size - 1, 2},
		{"readat", 0, 2}, {"readat", size - 1, 3}}
	return l
}

func sequence(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		t := object(c, c.Choose(kinds, "object"))
		c.Assert(t.o.Size() == int64(len(t.want)), "wrong size", "%s: %d, want %d", t.name, t.o.Size(), len(t.want))
		alpha := ops(len(t.want))
		pos := 0
		for i := 0; i < depth; i++ {
			x := alpha[c.Choose(len(alpha), "operation")]
			pos = apply(c, t, x, pos)
		}
		c.State(t.name, pos)
		c.Outcome(strings.Fields(t.name)[0])
		c.Assert(t.o.Close() == nil, "close failed", "%s", t.name)
	}
}

func apply(c *mc.Ctx, t target, x op, pos int) int {
	size := len(t.want)
	switch x.name {
	case "readat":
		if x.a < 0 {
			return pos
		}
		readAt(c, t, x.a, x.b)
	case "read":
		p := make([]byte, x.a)
		n, err := t.o.Read(p)
		c.Step()
		c.Logf("read %d at %d: %d %q %v", x.a, pos, n, p[:n], err)
		want := ""
		if pos < size {
			want = t.want[pos:]
		}
		c.Assert(n >= 0 && n <= x.a && n <= len(want) && string(p[:n]) == want[:n], "sequential read wrong", "%s: %d bytes at position %d of %d: got %d %q", t.name, x.a, pos, size, n, p[:max(0, min(n, x.a))])
		c.Assert(err == nil || err == io.EOF, "sequential read fails", "%s: %v", t.name, err)
		if err == io.EOF {
			c.Assert(x.a == 0 || pos+n >= size, "end of data reported early", "%s: read at %d of %d", t.name, pos, size)
		}
		c.Assert(x.a == 0 || n > 0 || err != nil, "empty read without end of data", "%s: read at %d of %d", t.name, pos, size)
		c.Assert(pos < size || x.a == 0 || err == io.EOF, "no end of data at the end", "%s: read at %d of %d: %d %v", t.name, pos, size, n, err)
		pos += n
	case "seek":
		want := x.a
		switch x.b {
		case 1:
			want += pos
		case 2:
			want += size
		}
		got, err := t.o.Seek(int64(x.a), x.b)
		c.Step()
		c.Logf("seek %d from %d: %d %v", x.a, x.b, got, err)
		if want < 0 {
			// Refused without moving, or the start.
			if err == nil {
				c.Assert(got == 0, "seek wrong", "%s: before the start: %d", t.name, got)
				return 0
			}
			return pos
		}
		c.Assert(err == nil, "seek fails", "%s: to %d of %d: %v", t.name, want, size, err)
		if want > size {
			// Past the end, or the end.
			c.Assert(got == int64(want) || got == int64(size), "seek wrong", "%s: to %d of %d: %d", t.name, want, size, got)
			return int(got)
		}
		c.Assert(got == int64(want), "seek wrong", "%s: to %d of %d: %d", t.name, want, size, got)
		pos = want
	}
	return pos
}

// positional performs every positional read on a fresh object, from each of
// three cursor positions, which must not move.
func positional(c *mc.Ctx) {
	t := object(c, c.Choose(kinds, "object"))
	size := len(t.want)
	pos := 0
	for i := 0; i < 3; i++ {
		if i == 1 {
			pos = apply(c, t, op{"read", 1, 0}, pos)
		}
		if i == 2 {
			pos = apply(c, t, op{"seek", 0, 2}, pos)
		}
		for off := 0; off <= size+2; off++ {
			for n := 0; n <= size+2; n++ {
				readAt(c, t, off, n)
			}
		}
		pos = apply(c, t, op{"seek", 0, 1}, pos)
	}
	pos = apply(c, t, op{"seek", 0, 0}, pos)
	for pos < size {
		pos = apply(c, t, op{"read", 2, 0}, pos)
	}
	apply(c, t, op{"read", 2, 0}, pos)
	c.State(t.name)
	c.Outcome(strings.Fields(t.name)[0])
}

// faulty has sources that fail, or end early, at any one read.
func faulty(c *mc.Ctx) {
	// The fault is tied to a byte of a source rather than to the order of
	// reads, which may be concurrent.
	injected := errors.New("injected")
	var mu sync.Mutex
	var hit string
	fs, fb := c.Choose(3, "failing source"), c.Choose(6, "failing byte")
	early, seen, first, once := c.Bool("ends"), 0, c.Choose(2, "reads spared"), c.Bool("once")
	fault := func(src, off, n int) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		if src != fs || fb < off || fb >= off+n {
			return n, nil
		}
		seen++
		if seen <= first || once && seen > first+1 {
			return n, nil
		}
		hit = fmt.Sprintf("source error after %d of %d", fb-off, n)
		if early {
			hit = fmt.Sprintf("source ends after %d of %d", fb-off, n)
			return fb - off, io.EOF
		}
		return fb - off, injected
	}
	from := func(i int) func(off, n int) (int, error) {
		return func(off, n int) (int, error) { return fault(i, off, n) }
	}
	var t target
	switch c.Choose(5, "object") {
	case 0:
		ps, want, name := parts(c, 3, 3, fault)
		if len(ps) == 1 {
			return // passed through
		}
		t = target{storage.Concat(ps...), want, "concat" + name}
	case 1:
		next = 0
		d := take(c.Choose(6, "size") + 1)
		b := int64(c.Choose(3, "block") + 1)
		t = target{cached(c, &src{d: d, url: "mem:x", fault: from(0)}, b), d, fmt.Sprintf("cached %d by %d", len(d), b)}
	case 2:
		ps, want, name := parts(c, 2, 3, fault)
		if len(ps) == 1 {
			return
		}
		t = target{storage.WithURL(storage.Concat(ps...), "x:y"), want, "concat with url" + name}
	case 3:
		ps, want, name := parts(c, 2, 3, fault)
		if len(ps) == 1 {
			return
		}
		off := c.Choose(len(want)+1, "offset")
		n := c.Choose(len(want)-off+1, "length")
		t = target{storage.Slice(storage.Concat(ps...), int64(off), int64(n)), want[off : off+n], fmt.Sprintf("slice %d+%d of concat%s", off, n, name)}
	case 4:
		next = 0
		d, e := take(c.Choose(3, "size")+1), take(c.Choose(3, "size")+1)
		t = target{storage.Concat(cached(c, &src{d: d, url: "mem:a", fault: from(0)}, 2), cached(c, &src{d: e, url: "mem:b", fault: from(1)}, 2)), d + e, fmt.Sprintf("image %d+%d", len(d), len(e))}
	}
	size := len(t.want)
	for i := 0; i < 2; i++ {
		off := c.Choose(size+1, "offset")
		n := c.Choose(size-off+2, "length")
		hit = ""
		p := make([]byte, n)
		got, err := t.o.ReadAt(p, int64(off))
		c.Step()
		c.Logf("read %d at %d: %d %q %v (%s)", n, off, got, p[:got], err, hit)
		if hit == "" {
			// Unaffected, also after an earlier failure.
			want := t.want[min(off, size):min(off+n, size)]
			c.Assert(got == len(want) && string(p[:got]) == want && (err == nil || err == io.EOF), "read wrong after a source error", "%s: %d bytes at %d of %d: %d %q %v", t.name, n, off, size, got, p[:got], err)
			continue
		}
		want := t.want[min(off, size):min(off+n, size)]
		c.Assert(got <= len(want), "more bytes than there are", "%s, %s: %d bytes at %d of %d: %d", t.name, hit, n, off, size, got)
		if err == io.EOF && strings.HasPrefix(t.name, "cached") && strings.HasPrefix(hit, "source ends") {
			continue // the source's own end of data, passed on
		}
		if err == nil || err == io.EOF {
			c.Assert(got == len(want) && string(p[:got]) == want, "source error hidden", "%s, %s: %d bytes at %d of %d: %d %q %v", t.name, hit, n, off, size, got, p[:got], err)
		}
		c.Assert(string(p[:got]) == want[:got], "bytes counted that were not read", "%s, %s: %d bytes at %d of %d: %d %q %v", t.name, hit, n, off, size, got, p[:got], err)
		c.Outcome(strings.Fields(hit)[1])
	}
	c.State(t.name, hit)
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		d := 3
		if tier == "thorough" {
			d = 4
		}
		return []mc.Scenario{
			{Name: "positional", Run: positional},
			{Name: "sequences", Run: sequence(d)},
			{Name: "faulty-sources", Run: faulty},
		}
	}})
}
