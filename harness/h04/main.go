//go:build go1.22

// h04: directory iteration is complete, resumable and never hides an error.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

var errInjected = errors.New("injected read error")

// faulty fails one read, or every read past a truncation point.
type faulty struct {
	r     io.ReaderAt
	n     int
	failN int // 1-based index of the failing read, 0 for none
	trunc int64
	eof   bool
	hit   bool
}

func (f *faulty) ReadAt(p []byte, off int64) (int, error) {
	f.n++
	if f.n == f.failN {
		f.hit = true
		return 0, errInjected
	}
	if f.trunc >= 0 && off+int64(len(p)) > f.trunc {
		n := 0
		if off < f.trunc {
			n, _ = f.r.ReadAt(p[:f.trunc-off], off)
		}
		if len(p) > 0 {
			f.hit = true
		}
		return n, io.EOF
	}
	return f.r.ReadAt(p, off)
}

type shape struct {
	name  string
	im    *isox.Image
	start iso9660.LogicalBlockAddress
	size  int64
	dirs  []string
	names []string
}

func build(dir string, add func(v *iso9660.Volume, dir string)) shape {
	v := iso9660.NewPosixPortableVolume()
	add(v, dir)
	im, err := isox.NewImage(v)
	if err != nil {
		panic(err)
	}
	fi, err := iso9660.NewWalker(im).Lstat(dir)
	if err != nil {
		panic(err)
	}
	return shape{im: im, start: fi.Extent(), size: fi.Size()}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type ent struct {
	fi  string
	len int64
}

func text(fi *iso9660.FileInfo) string {
	return fmt.Sprintf("%s|%d|%v|%d|%d|%s", fi.Name(), fi.Size(), fi.Mode(), fi.Ino(), fi.Extent(), fi.Target())
}

// iterate drains an iterator, bounded.
func iterate(c *mc.Ctx, iso io.ReaderAt, start iso9660.LogicalBlockAddress, size, off int64) ([]ent, error) {
	it := iso9660.NewReadDirIterator(iso, start, size, off)
	var out []ent
	for it.Next() {
		fi, n := it.FileInfoAndLen()
		out = append(out, ent{text(fi), n})
		if len(out) > 5000 {
			c.Fail("iteration does not terminate", "more than 5000 entries")
		}
	}
	c.Step()
	err := it.Err()
	if it.Next() {
		c.Fail("iteration continues after its end", "Next returned true after false")
	}
	return out, err
}

func nameOf(s string) string { return s[:strings.Index(s, "|")] }

func mkShape(c *mc.Ctx, counts, lens []int) (shape, []string) {
	n := counts[c.Choose(len(counts), "entries")]
	l := lens[c.Choose(len(lens), "name length")]
	kind := c.Choose(5, "kind")
	dir := []string{"/", "/sub"}[c.Choose(2, "directory")]
	var names []string
	s := build(dir, func(v *iso9660.Volume, dir string) {
		if dir != "/" {
			must(v.AddFile("zz", &isox.Obj{U: "mem:z", N: 1}))
			if n == 0 {
				must(v.AddFile(dir+"/only", &isox.Obj{U: "mem:z", N: 1}))
				names = append(names, "only")
			}
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprint(i)
			if l > len(name) {
				name += strings.Repeat("n", l-len(name))
			}
			names = append(names, name)
			p := dir + "/" + name
			k := kind
			if k == 4 {
				k = i % 4
			}
			switch k {
			case 0:
				must(v.AddFile(p, &isox.Obj{U: "mem:f", N: int64(i) * 1000}))
			case 1:
				must(v.AddFile(p+"/x", &isox.Obj{U: "mem:f", N: 1}))
			case 2:
				must(v.AddSymlink(p, "../t/"+name))
			case 3:
				must(v.AddFile(p, &isox.Obj{U: "mem:f", N: int64(i%4)*4294965248 + int64(i)}))
			}
		}
	})
	c.Logf("directory %s with %d entries, name length %d, kind %d", dir, n, l, kind)
	c.State(n, l, kind, dir)
	return s, names
}

// resume checks completeness and every resume offset.
func resume(counts, lens []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s, names := mkShape(c, counts, lens)
		high := []int64{0, 1<<32 - 64*2048, 1 << 32, 1<<33 + 6*2048}[c.Choose(4, "base address")]
		iso := io.ReaderAt(s.im)
		start := s.start
		if high > 0 {
			iso = relocate(s.im, high)
			start += iso9660.LogicalBlockAddress(high / 2048)
		}
		full, err := iterate(c, iso, start, s.size, 0)
		c.Assert(err == nil, "iteration of a healthy directory failed", "%v", err)
		want := append([]string{".", ".."}, names...)
		c.Assert(len(full) == len(want), "wrong number of entries", "%d entries, want %d", len(full), len(want))
		seen := map[string]bool{}
		var off int64
		for i, e := range full {
			seen[nameOf(e.fi)] = true
			c.Assert(e.len > 0, "entry without length", "entry %d", i)
			off += e.len
			c.Assert(off <= s.size, "offset beyond the directory", "offset %d of %d", off, s.size)
			rest, err := iterate(c, iso, start, s.size, off)
			c.Assert(err == nil && len(rest) == len(full)-i-1, "resuming lost or repeated entries", "resume at %d: %d entries, want %d (err %v)", off, len(rest), len(full)-i-1, err)
			for k := range rest {
				c.Assert(rest[k].fi == full[i+1+k].fi && rest[k].len == full[i+1+k].len, "resuming changes entries", "resume at %d: entry %d is %s+%d, want %s+%d", off, k, rest[k].fi, rest[k].len, full[i+1+k].fi, full[i+1+k].len)
			}
		}
		for _, w := range want {
			c.Assert(seen[w], "entry missing", "%s", w)
		}
		c.Outcome("resumed")
	}
}

// high serves an image that starts at a high address; below it there are zeros.
type highImage struct {
	r    *bytes.Reader
	high int64
}

func (b *highImage) ReadAt(p []byte, off int64) (int, error) {
	if off < b.high {
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	}
	return b.r.ReadAt(p, off-b.high)
}

// relocate moves the metadata to a high address, patching the absolute
// addresses in continuation entries.
func relocate(im *isox.Image, high int64) io.ReaderAt {
	m := append([]byte{}, im.Meta...)
	for i := 0; i+28 <= len(m); i++ {
		if string(m[i:i+4]) == "CE\x1c\x01" {
			v := binary.LittleEndian.Uint32(m[i+4:]) + uint32(high/2048)
			binary.LittleEndian.PutUint32(m[i+4:], v)
			binary.BigEndian.PutUint32(m[i+8:], v)
		}
	}
	return &highImage{bytes.NewReader(m), high}
}

// faults fails each read in turn.
func faults(counts, lens []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s, _ := mkShape(c, counts, lens)
		full, err := iterate(c, s.im, s.start, s.size, 0)
		c.Assert(err == nil, "iteration of a healthy directory failed", "%v", err)
		probe := &faulty{r: s.im, trunc: -1}
		iterate(c, probe, s.start, s.size, 0)
		for k := 1; k <= probe.n; k++ {
			f := &faulty{r: s.im, failN: k, trunc: -1}
			got, err := iterate(c, f, s.start, s.size, 0)
			if !f.hit {
				continue
			}
			check(c, fmt.Sprintf("read %d of %d failed", k, probe.n), full, got, err)
		}
		c.Outcome("faults")
	}
}

func check(c *mc.Ctx, how string, full, got []ent, err error) {
	if err == nil {
		c.Fail("read error hidden", "%s: iteration returned %d of %d entries and no error", how, len(got), len(full))
	}
	if len(got) > len(full) {
		c.Fail("entries invented after a read error", "%s: %d entries of %d", how, len(got), len(full))
	}
	for i := range got {
		if i < len(got)-1 && got[i].fi != full[i].fi || nameOf(got[i].fi) != nameOf(full[i].fi) {
			c.Fail("wrong entry after a read error", "%s: entry %d is %s, want %s", how, i, got[i].fi, full[i].fi)
		}
	}
}

// truncation cuts the image at every byte of the directory and its continuation area.
func truncation(counts, lens []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s, _ := mkShape(c, counts, lens)
		full, err := iterate(c, s.im, s.start, s.size, 0)
		c.Assert(err == nil, "iteration of a healthy directory failed", "%v", err)
		for t := int64(s.start) * 2048; t < int64(len(s.im.Meta)); t++ {
			f := &faulty{r: s.im, trunc: t}
			got, err := iterate(c, f, s.start, s.size, 0)
			if f.hit {
				check(c, fmt.Sprintf("image cut at %d", t), full, got, err)
			} else {
				c.Assert(err == nil && len(got) == len(full), "healthy read failed", "cut at %d not reached: %v", t, err)
			}
		}
		c.Outcome("truncated")
	}
}

// lookups fails each read of each path operation; an answer must be right or an error,
// and the walker must recover.
func lookups(c *mc.Ctx) {
	v := iso9660.NewPosixPortableVolume()
	long := strings.Repeat("y", 200)
	must(v.AddFile("a/"+long+"/f", &isox.Obj{U: "mem:f", N: 10, Seed: 1}))
	must(v.AddFile("a/g", &isox.Obj{U: "mem:g", N: 5 << 30, Seed: 2}))
	must(v.AddSymlink("l", "a/"+long+"/f"))
	im, err := isox.NewImage(v)
	must(err)
	paths := []string{"/", "/a", "/a/" + long + "/f", "/a/g", "/l", "/zz"}
	p := paths[c.Choose(len(paths), "path")]
	kind := c.Choose(5, "operation")
	do := func(w *iso9660.Walker) string {
		switch kind {
		case 0:
			fi, err := w.Lstat(p)
			if err != nil {
				return "error " + err.Error()
			}
			return text(fi)
		case 1:
			fi, err := w.Stat(p)
			if err != nil {
				return "error " + err.Error()
			}
			return text(fi)
		case 2:
			es, err := w.ReadDir(p)
			if err != nil {
				return "error " + err.Error()
			}
			s := ""
			for _, e := range es {
				s += text(e) + ";"
			}
			return s
		case 3:
			f, err := w.Open(p)
			if err != nil {
				return "error " + err.Error()
			}
			es, err := f.ReadDir()
			s := fmt.Sprint(f.Size(), len(es))
			if err != nil {
				s += "error"
			}
			return s
		default:
			s := ""
			err := w.Walk(p, func(d string, info os.FileInfo, err error) error {
				if err != nil {
					return err
				}
				s += d + ":" + text(info.Sys().(*iso9660.FileInfo)) + ";"
				return nil
			})
			if err != nil {
				return "error " + err.Error()
			}
			return s
		}
	}
	good := do(iso9660.NewWalker(im))
	probe := &faulty{r: im, trunc: -1}
	do(iso9660.NewWalker(probe))
	n := probe.n
	for k := 1; k <= n; k++ {
		f := &faulty{r: im, failN: k, trunc: -1}
		w := iso9660.NewWalker(f)
		got := do(w)
		c.Step()
		if got != good && !strings.Contains(got, "error") {
			c.Fail("wrong answer after a read error", "operation %d on %s with read %d failing: %s, want %s or an error", kind, p, k, got, good)
		}
		again := do(w)
		if again != good {
			c.Fail("a failed lookup poisons later ones", "operation %d on %s after read %d failed: %s, want %s", kind, p, k, again, good)
		}
	}
	c.State(kind, p)
	c.Outcome(fmt.Sprint("operation ", kind))
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		counts, lens := []int{0, 1, 2, 3, 5, 7, 9, 14, 19, 24, 40}, []int{1, 2, 9, 60, 61, 62, 63, 64, 65, 120, 130, 150, 200, 250, 255}
		tc, tl := []int{0, 2, 7, 20}, []int{1, 60, 200, 255}
		if tier == "thorough" {
			counts, lens = nil, nil
			for i := 0; i < 45; i++ {
				counts = append(counts, i)
			}
			for i := 1; i < 260; i += 4 {
				lens = append(lens, i)
			}
			tc, tl = []int{0, 1, 2, 3, 7, 13, 20, 30}, []int{1, 2, 60, 61, 120, 200, 255}
		}
		return []mc.Scenario{
			{Name: "resume", Run: resume(counts, lens)},
			{Name: "failing-read", Run: faults(tc, tl)},
			{Name: "truncated", Run: truncation([]int{0, 2, 7, 20}, tl)},
			{Name: "lookups", Run: lookups},
		}
	}})
}
