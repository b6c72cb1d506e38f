//go:build go1.22

// h01: burn a vdisc, load it back, compare every byte and URL.
package main

import (
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/memst"
)

// readAll reads n bytes of r at off, one request at a time; a request past
// the end may be answered with or without io.EOF.
func readAt(r io.ReaderAt, off, n int64) ([]byte, error) {
	b := make([]byte, n)
	got, err := r.ReadAt(b, off)
	if err == io.EOF {
		err = nil
	}
	return b[:got], err
}

func samples(n int64) []int64 {
	if n <= 30000 {
		return []int64{0}
	}
	var out []int64
	for _, o := range []int64{0, 2000, 4294965248 - 700, 1<<32 - 50, n/2 - 7, n - 3000} {
		if o >= 0 && o < n {
			out = append(out, o)
		}
	}
	return out
}

func compare(c *mc.Ctx, key, what string, r io.ReaderAt, at int64, want *isox.Obj) {
	for _, off := range samples(want.N) {
		n := want.N - off
		if want.N > 30000 && n > 3000 {
			n = 3000
		}
		g, err := readAt(r, at+off, n)
		w := make([]byte, n)
		want.ReadAt(w, off)
		c.Step()
		c.Assert(err == nil && string(g) == string(w), key, "%s: %d bytes at %d: got %d, equal=%v, err %v", what, n, off, len(g), string(g) == string(w), err)
	}
}

func cacheOf(c *mc.Ctx, k int) caching.Cache {
	if k == 0 {
		return caching.NopCache
	}
	x := [][4]int{{}, {1024, 16, 0, 1}, {4096, 8, 0, 1}}[k]
	s, err := caching.NewMemorySlicer(int64(x[0]), int64(x[1]))
	c.Assert(err == nil, "cache refused", "%v", err)
	return caching.NewCache(s, x[2], int64(x[3]))
}

// verify loads url and checks it against the tree; bytes of each file come
// from its entry.
func verify(c *mc.Ctx, url string, t isox.Tree, cache int, what string) {
	d, err := vdisc.Load(url, cacheOf(c, cache))
	c.Assert(err == nil, "load failed", "%s: %v", what, err)
	defer d.Close()
	c.Assert(d.FsType() == "iso9660" && d.BlockSize() == 2048, "wrong type or block size", "%s: %s %d", what, d.FsType(), d.BlockSize())
	img := d.Image()
	size := img.Size()
	c.Assert(size%2048 == 0, "image not a whole number of blocks", "%s: %d", what, size)
	meta, err := d.OpenExtent(0)
	c.Assert(err == nil, "metadata extent missing", "%s: %v", what, err)
	lay := t.Structure(c, imgReader{c, img, what}, meta.Size())
	c.Assert(lay.Space == size, "image length differs from the volume", "%s: image %d, volume %d", what, size, lay.Space)
	compareMeta(c, what, img, meta)
	end := meta.Size()
	for _, p := range t.Paths() {
		e := t[p]
		if e.Kind != 'f' {
			continue
		}
		st := lay.Start[p]
		o := &isox.Obj{N: e.Size, Seed: e.Seed}
		compare(c, "image does not hold the file", what+" "+p, img, st, o)
		x, err := d.OpenExtent(iso9660.LogicalBlockAddress(st / 2048))
		c.Assert(err == nil, "extent missing", "%s %s: %v", what, p, err)
		c.Assert(x.Size() == e.Size, "wrong extent size", "%s %s: %d, want %d", what, p, x.Size(), e.Size)
		compare(c, "extent does not hold the file", what+" extent "+p, x, 0, o)
		n, err := x.ReadAt(make([]byte, 10), e.Size)
		c.Assert(n == 0 && (err == io.EOF), "extent readable past its end", "%s %s: %d, %v", what, p, n, err)
		x.Close()
		u, err := d.ExtentURL(iso9660.LogicalBlockAddress(st / 2048))
		c.Assert(err == nil, "extent missing", "%s %s: %v", what, p, err)
		so, err := storage.Open(u)
		c.Assert(err == nil, "extent URL does not open", "%s %s: %s: %v", what, p, u, err)
		compare(c, "extent URL names another object", fmt.Sprintf("%s %s: %s", what, p, u), so, 0, o)
		c.Assert(so.Size() == e.Size, "extent URL names another object", "%s %s: %s has %d bytes, want %d", what, p, u, so.Size(), e.Size)
		so.Close()
		// Padding.
		pad := (2048 - e.Size%2048) % 2048
		if e.Size == 0 {
			pad = 2048
		}
		g, err := readAt(img, st+e.Size, pad)
		c.Assert(err == nil && strings.Trim(string(g), "\x00") == "" && int64(len(g)) == pad, "padding not zero", "%s %s: %v, %d of %d bytes", what, p, err, len(g), pad)
		if st+e.Size+pad > end {
			end = st + e.Size + pad
		}
		// A read over the boundary.
		if st+e.Size+pad < size && e.Size > 0 {
			lo := e.Size - 3
			if lo < 0 {
				lo = 0
			}
			g, err := readAt(img, st+lo, e.Size-lo+pad)
			w := make([]byte, e.Size-lo+pad)
			o.ReadAt(w, lo)
			c.Assert(err == nil && string(g) == string(w), "padding not zero", "%s %s: read across the end: %d bytes, %v", what, p, len(g), err)
		}
	}
	c.Assert(end == size || (end+2047)/2048*2048 == size, "image longer than its files", "%s: ends at %d of %d", what, end, size)
	// The image ends there.
	n, err := img.ReadAt(make([]byte, 5), size)
	c.Assert(n == 0 && err == io.EOF, "image readable past its end", "%s: %d, %v", what, n, err)
	_, err = d.OpenExtent(iso9660.LogicalBlockAddress(size/2048 + 7))
	c.Assert(err != nil, "extent outside the volume opened", "%s", what)
}

func compareMeta(c *mc.Ctx, what string, img io.ReaderAt, meta storage.Object) {
	a, err := readAt(img, 0, meta.Size())
	b, err2 := readAt(meta, 0, meta.Size())
	c.Assert(err == nil && err2 == nil && string(a) == string(b), "image does not start with the metadata", "%s: %v %v", what, err, err2)
	so, err := storage.Open(meta.URL())
	c.Assert(err == nil, "metadata URL does not open", "%s: %s: %v", what, meta.URL(), err)
	m, err := readAt(so, 0, so.Size())
	c.Assert(err == nil && string(m) == string(a), "metadata URL names another object", "%s: %s: %v", what, meta.URL(), err)
	so.Close()
}

type imgReader struct {
	c    *mc.Ctx
	r    io.ReaderAt
	what string
}

func (r imgReader) ReadAt(p []byte, off int64) (int, error) {
	n, err := r.r.ReadAt(p, off)
	r.c.Assert(n == len(p) && (err == nil || err == io.EOF), "image not readable", "%s: %d bytes at %d: %d, %v", r.what, len(p), off, n, err)
	return n, err
}

var undo driver.Undo

func store(c *mc.Ctx) *memst.Store {
	s := memst.New()
	if undo != nil {
		undo()
	}
	undo = driver.ClearRegistry()
	driver.Register("mem", s)
	driver.Register("zero", zero)
	driver.Register("data", data)
	driver.Register("file", file)
	return s
}

var zero, data, file driver.Driver

func newBuilder(ext bool, url string) vdisc.Builder {
	if ext {
		return vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: url})
	}
	return vdisc.NewPosixPortableISO9660Builder(vdisc.BuilderConfig{URL: url})
}

// manifests enumerates files over an in-memory store.
func manifests(max int, ss []int64, caches int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		s := store(c)
		url := "mem://h/dir/v.vdsc"
		b := newBuilder(c.Bool("extended"), url)
		t := isox.Tree{}
		paths := []string{"a", "d/b", "d/e/c"}
		n := c.Choose(max+1, "files")
		var used []string
		for i := 0; i < n; i++ {
			var u string
			k := c.Choose(len(used)+1, "url") // an earlier object or a new one
			if k < len(used) {
				u = used[k]
			} else {
				u = "mem://h/dir/obj" + strings.Repeat("x", i)
				s.Gen[u] = isox.Obj{N: ss[c.Choose(len(ss), "size")], Seed: byte(i + 1)}
			}
			used = append(used, u)
			g := s.Gen[u]
			sz := []int64{-1, g.N}[c.Choose(2, "declared size")]
			err := b.AddFile(paths[i], u, sz)
			c.Assert(err == nil, "addition refused", "%s: %v", paths[i], err)
			t.Add(paths[i], isox.Entry{Kind: 'f', Size: g.N, Seed: g.Seed})
		}
		if c.Bool("symlink") {
			c.Assert(b.AddSymlink("d/l", "../a") == nil, "addition refused", "symlink")
			t.Add("d/l", isox.Entry{Kind: 'l', Target: "../a"})
		}
		got, err := b.Build()
		c.Assert(err == nil, "build failed", "%s: %v", t.Canon(), err)
		c.State(t.Canon(), used)
		c.Outcome(fmt.Sprintf("%d files", n))
		k := c.Choose(caches, "cache")
		verify(c, got, t, k, fmt.Sprintf("%s urls %v cache %d", t.Canon(), used, k))
	}
}

// urls enumerates spellings of the vdisc's and the file's URLs over real
// directories.
func urls(c *mc.Ctx) {
	s := store(c)
	root := filepath.Join(mc.Scratch, fmt.Sprint(os.Getpid()), "h01")
	os.RemoveAll(root)
	cwd := filepath.Join(root, "out")
	for _, d := range []string{cwd, root + "/data", cwd + "/sub", cwd + "/sp ace"} {
		c.Assert(os.MkdirAll(d, 0755) == nil, "setup", "mkdir")
	}
	defer os.RemoveAll(root)
	c.Assert(os.Chdir(cwd) == nil, "setup", "chdir")
	defer os.Chdir("/")
	bases := []string{
		cwd + "/v.vdsc", "file://" + cwd + "/v.vdsc", "v.vdsc", "./v.vdsc", "sub/v.vdsc", "../out/v.vdsc", "file:v.vdsc", "file:sub/v.vdsc",
		"mem://h/dir/v.vdsc", "mem://h/v.vdsc",
		cwd + "/sp%20ace/v.vdsc", "sp ace/v.vdsc", cwd + "/q%3Fm.vdsc", "a:b.vdsc", "./a:b.vdsc", cwd + "/hash%23.vdsc", cwd + "/100%25.vdsc",
	}
	base := bases[c.Choose(len(bases), "vdisc url")]
	if strings.HasPrefix(base, "a:") {
		return // a scheme
	}
	files := []string{
		root + "/data/f", "file://" + root + "/data/f", "file:" + root + "/data/f", "f", "./f", "../data/f", "sub/f", "file:f",
		"mem://h/f", "mem://h/f?version=2", "mem://h/dir/f", "mem:opaque", "data:,hello", "zero:3000",
		root + "/data/a b", root + "/data/a%20b", root + "/data/a%3Fb", root + "/data/a%2Fb", root + "/data/f?x=1", "é", "a%20b", "x:y", "./x:y", "../../h01/data/f", "sub/../f",
	}
	k1 := c.Choose(len(files), "file url")
	k2 := c.Choose(len(files)+1, "second file url")
	t := isox.Tree{}
	b := newBuilder(false, base)
	add := func(p string, k int, seed byte) bool {
		u := files[k]
		if strings.HasPrefix(u, "x:") {
			return false
		}
		e := isox.Entry{Kind: 'f', Size: 2500 + int64(k), Seed: byte(k)}
		content := func() []byte {
			w := make([]byte, e.Size)
			(&isox.Obj{N: e.Size, Seed: e.Seed}).ReadAt(w, 0)
			return w
		}
		switch {
		case strings.HasPrefix(u, "mem:"):
			s.Gen[u] = isox.Obj{N: e.Size, Seed: e.Seed}
		case strings.HasPrefix(u, "data:"), strings.HasPrefix(u, "zero:"):
			return false
		default:
			if !strings.HasPrefix(u, "file:") && strings.HasPrefix(base, "mem:") {
				// A reference without a scheme is taken from the vdisc's
				// location, which cannot name a local file here.
				return false
			}
			lp := strings.TrimPrefix(strings.TrimPrefix(u, "file:"), "//")
			if i := strings.Index(lp, "?"); i >= 0 {
				lp = lp[:i]
			}
			if !strings.HasPrefix(u, "file:") || strings.HasPrefix(u, "file:/") {
				lp = unescape(lp)
			}
			// Relative names of files are taken from the working directory
			// when burning and from the vdisc's directory when reading, so
			// the object is put in both places.
			places := []string{lp}
			if !strings.HasPrefix(u, "file:") && !path.IsAbs(lp) {
				bp := strings.TrimPrefix(strings.TrimPrefix(base, "file:"), "//")
				if !strings.HasPrefix(base, "file:") || strings.HasPrefix(base, "file:/") {
					bp = unescape(bp)
				}
				places = append(places, filepath.Join(filepath.Dir(bp), lp))
			}
			for _, q := range places {
				os.MkdirAll(filepath.Dir(q), 0755)
				c.Assert(os.WriteFile(q, content(), 0644) == nil, "setup", "write %s", q)
			}
		}
		err := b.AddFile(p, u, -1)
		c.Assert(err == nil, "addition refused", "%s: %v", u, err)
		t.Add(p, e)
		return true
	}
	if !add("one", k1, 1) {
		return
	}
	what := fmt.Sprintf("vdisc %s file %s", base, files[k1])
	if k2 < len(files) {
		// Two names of one file would overwrite each other's contents.
		if fileKey(files[k1]) == fileKey(files[k2]) && k1 != k2 || !add("two", k2, 2) {
			return
		}
		what += " and " + files[k2]
	}
	got, err := b.Build()
	c.Assert(err == nil, "build failed", "%s: %v", what, err)
	c.State(what)
	verify(c, got, t, 0, what)
	c.Logf("built %s", got)
	verify(c, base, t, 0, what+" loaded by the name given")
	c.Outcome("ok")
}

func unescape(s string) string {
	for _, r := range [][2]string{{"%20", " "}, {"%3F", "?"}, {"%2F", "/"}, {"%23", "#"}, {"%25", "%"}} {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	return s
}

func fileKey(u string) string {
	if strings.HasPrefix(u, "mem:") {
		return u
	}
	u = strings.TrimPrefix(strings.TrimPrefix(u, "file:"), "//")
	if i := strings.Index(u, "?"); i >= 0 {
		u = u[:i]
	}
	return path.Base(unescape(u))
}

// inline burns inline and generated objects.
func inline(c *mc.Ctx) {
	s := store(c)
	_ = s
	us := []string{"data:,hello", "data:;base64,aGVsbG8gd29ybGQ=", "zero:0", "zero:1", "zero:2048", "zero:5000", "data:,"}
	want := []string{"hello", "hello world", "", "\x00", strings.Repeat("\x00", 2048), strings.Repeat("\x00", 5000), ""}
	b := newBuilder(false, "mem://h/v.vdsc")
	n := c.Choose(3, "files") + 1
	var ks []int
	for i := 0; i < n; i++ {
		k := c.Choose(len(us), "url")
		ks = append(ks, k)
		err := b.AddFile(fmt.Sprint("f", i), us[k], -1)
		c.Assert(err == nil, "addition refused", "%s: %v", us[k], err)
	}
	got, err := b.Build()
	c.Assert(err == nil, "build failed", "%v: %v", ks, err)
	d, err := vdisc.Load(got, cacheOf(c, c.Choose(3, "cache")))
	c.Assert(err == nil, "load failed", "%v: %v", ks, err)
	defer d.Close()
	w := iso9660.NewWalker(d.Image())
	for i, k := range ks {
		f, err := w.Open(fmt.Sprintf("/f%d", i))
		c.Assert(err == nil, "open failed", "%v: %v", ks, err)
		g, err := readAt(f, 0, f.Size())
		c.Assert(err == nil && string(g) == want[k], "image does not hold the file", "%v file %d: %q", ks, i, g)
	}
	c.State(ks)
}

func main() {
	var err error
	for _, x := range []struct {
		d *driver.Driver
		u string
	}{{&zero, "zero:1"}, {&data, "data:,x"}, {&file, "/x"}} {
		if *x.d, err = driver.Find(x.u); err != nil {
			panic(err)
		}
	}
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		ss, max := []int64{0, 1, 2048, 2049}, 3
		if tier == "thorough" {
			ss = []int64{0, 1, 2047, 2048, 2049, 4097, 10000}
		}
		return []mc.Scenario{
			{Name: "manifests", Run: manifests(max, ss, 3)},
			{Name: "sizes", Run: manifests(2, []int64{0, 2047, 4096, 10001, 4294965247, 4294965249, 1<<32 + 1, 9 << 30}, 3)},
			{Name: "urls", Run: urls},
			{Name: "inline", Run: inline},
		}
	}})
}
