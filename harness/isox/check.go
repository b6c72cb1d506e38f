//go:build go1.22

package isox

import (
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s..(%d)", s[:30], len(s))
	}
	return s
}

// CheckInfo compares a FileInfo with the expected entry at p.
func (t Tree) CheckInfo(c *mc.Ctx, how, p, name string, fi *iso9660.FileInfo) {
	e := t[p]
	if p == "/" {
		e.Kind = 'd'
	}
	c.Step()
	bad := func(what string, got, want interface{}) {
		c.Fail("wrong "+what, "%s %s: %s is %v, want %v (tree %s)", how, short(p), what, got, want, t.Canon())
	}
	if fi.Name() != name {
		bad("name", short(fi.Name()), short(name))
	}
	if fi.IsDir() != (e.Kind == 'd') {
		bad("directory flag", fi.IsDir(), e.Kind == 'd')
	}
	if fi.Mode() != Mode(e.Kind) {
		bad("mode", fi.Mode(), Mode(e.Kind))
	}
	if fi.Nlink() != t.Nlink(p) {
		bad("link count", fi.Nlink(), t.Nlink(p))
	}
	switch e.Kind {
	case 'f':
		if fi.Size() != e.Size {
			bad("size", fi.Size(), e.Size)
		}
	case 'l':
		if fi.Target() != e.Target {
			bad("target", short(fi.Target()), short(e.Target))
		}
		if fi.Size() != int64(len(e.Target)) {
			bad("link size", fi.Size(), len(e.Target))
		}
	}
	if e.Kind != 'l' && fi.Target() != "" {
		bad("target", fi.Target(), "")
	}
	if fi.Uid() != 0 || fi.Gid() != 0 {
		bad("owner", fi.Uid(), 0)
	}
}

// sampleOffsets are the offsets at which contents of a file are compared.
func sampleOffsets(n int64) []int64 {
	if n <= 20000 {
		return []int64{0}
	}
	var out []int64
	for _, o := range []int64{0, 2048, 4294965248 - 100, 4294965248, 1<<32 - 50, 1 << 32, n/2 - 7, n - 200} {
		if o >= 0 && o < n {
			out = append(out, o)
		}
	}
	return out
}

// CheckFile compares a file opened by path with its expected contents.
func (t Tree) CheckFile(c *mc.Ctx, how string, f *iso9660.File, e Entry) {
	if f.Size() != e.Size {
		c.Fail("wrong size", "%s: opened size %d, want %d", how, f.Size(), e.Size)
	}
	o := &Obj{N: e.Size, Seed: e.Seed}
	for _, off := range sampleOffsets(e.Size) {
		n := e.Size - off
		if e.Size > 20000 && n > 300 {
			n = 300
		}
		got := make([]byte, n+1)
		want := make([]byte, n+1)
		wn, _ := o.ReadAt(want, off)
		gn, err := f.ReadAt(got, off)
		c.Step()
		if gn != wn || string(got[:gn]) != string(want[:wn]) {
			c.Fail("wrong file contents", "%s: reading %d at %d: got %d bytes (err %v), want %d (equal=%v) tree %s", how, n+1, off, gn, err, wn, gn == wn, t.Canon())
		}
		if gn < len(got) && err != io.EOF {
			c.Fail("missing end of file", "%s: short read without EOF: %v", how, err)
		}
	}
}

// CheckWalker compares everything a walker reports with the tree.
func (t Tree) CheckWalker(c *mc.Ctx, iso io.ReaderAt) {
	// Walk
	w := iso9660.NewWalker(iso)
	seen := map[string]int{}
	inos := map[uint32]string{}
	order := map[string]int{}
	var first = true
	n := 0
	err := w.Walk("/", func(dir string, info os.FileInfo, err error) error {
		n++
		if n > 100000 {
			c.SetFail("walk does not terminate", "walk visited more than 100000 entries")
			return io.ErrUnexpectedEOF
		}
		if err != nil {
			return err
		}
		fi := info.Sys().(*iso9660.FileInfo)
		if first {
			first = false
			if dir != "/" || !fi.IsDir() {
				c.SetFail("walk root", "first visit is %s %v", dir, fi.IsDir())
			}
			return nil
		}
		dir = filepath.Clean(dir)
		switch fi.Name() {
		case ".":
			t.CheckInfo(c, "walk .", dir, ".", fi)
			return nil
		case "..":
			t.CheckInfo(c, "walk ..", path.Dir(dir), "..", fi)
			return nil
		}
		p := path.Join(dir, fi.Name())
		seen[p]++
		order[p] = n
		if _, ok := t[p]; !ok {
			c.Fail("walk reports a path that was not added", "walk reported %s; tree %s", short(p), t.Canon())
		}
		if d := path.Dir(p); d != "/" && order[d] == 0 {
			c.Fail("walk reports a child before its directory", "walk reported %s first; tree %s", short(p), t.Canon())
		}
		t.CheckInfo(c, "walk", p, path.Base(p), fi)
		if prev, ok := inos[fi.Ino()]; ok && prev != p {
			c.Fail("inode number shared", "%s and %s both have inode %d", short(prev), short(p), fi.Ino())
		}
		inos[fi.Ino()] = p
		return nil
	})
	if c.Failed() {
		c.Skip()
	}
	if err != nil {
		c.Fail("walk failed", "walk: %v; tree %s", err, t.Canon())
	}
	for p := range t {
		if seen[p] != 1 {
			c.Fail("walk missed or repeated a path", "walk reported %s %d times; tree %s", short(p), seen[p], t.Canon())
		}
	}
	// Lookups, each on a fresh walker.
	for _, p := range append([]string{"/"}, t.Paths()...) {
		name := path.Base(p)
		if p == "/" {
			name = "."
		}
		fi, err := iso9660.NewWalker(iso).Lstat(p)
		if err != nil {
			c.Fail("lstat failed", "lstat %s: %v; tree %s", short(p), err, t.Canon())
		}
		t.CheckInfo(c, "lstat", p, name, fi)
		e := t[p]
		if p == "/" || e.Kind == 'd' {
			es, err := iso9660.NewWalker(iso).ReadDir(p)
			if err != nil {
				c.Fail("readdir failed", "readdir %s: %v", short(p), err)
			}
			t.checkEntries(c, "readdir", p, es)
			f, err := iso9660.NewWalker(iso).Open(p)
			if err != nil {
				c.Fail("open failed", "open directory %s: %v", short(p), err)
			}
			es, err = f.ReadDir()
			if err != nil {
				c.Fail("readdir failed", "open+readdir %s: %v; tree %s", short(p), err, t.Canon())
			}
			t.checkEntries(c, "open+readdir", p, es)
		} else {
			if _, err := iso9660.NewWalker(iso).ReadDir(p); err == nil {
				c.Fail("readdir of a non-directory succeeded", "readdir %s", short(p))
			}
		}
		// Following links.
		q, fail := t.Resolve(p)
		if fail == "unspecified" {
			continue
		}
		sfi, err := iso9660.NewWalker(iso).Stat(p)
		f, oerr := iso9660.NewWalker(iso).Open(p)
		if fail != "" {
			want := map[string]error{"ENOENT": syscall.ENOENT, "ENOTDIR": syscall.ENOTDIR, "ELOOP": syscall.ELOOP}[fail]
			if err != want {
				c.Fail("wrong stat error", "stat %s: %v, want %v; tree %s", short(p), err, want, t.Canon())
			}
			if oerr == nil {
				c.Fail("open of a dangling path succeeded", "open %s", short(p))
			}
			continue
		}
		if err != nil || oerr != nil {
			c.Fail("stat failed", "stat %s: %v, open: %v; tree %s", short(p), err, oerr, t.Canon())
		}
		name = path.Base(q)
		if q == "/" {
			name = "."
		}
		t.CheckInfo(c, "stat", q, name, sfi)
		if q != "/" && t[q].Kind == 'f' {
			t.CheckFile(c, "open "+short(p), f, t[q])
		} else {
			if _, err := f.ReadAt(make([]byte, 1), 0); err == nil || err == io.EOF {
				c.Fail("reading a directory succeeded", "read %s: %v", short(p), err)
			}
		}
	}
	// Absent names.
	for _, p := range t.Absent() {
		fi, err := iso9660.NewWalker(iso).Lstat(p)
		if err == nil {
			c.Fail("lookup of an absent path succeeded", "lstat %s found %s; tree %s", short(p), fi.Name(), t.Canon())
		}
	}
}

// Absent are some paths that do not exist.
func (t Tree) Absent() []string {
	out := []string{"/nosuch"}
	for _, p := range t.Paths() {
		for _, q := range []string{p + "/nosuch", p + "x", p[:len(p)-1]} {
			if q == "/" || q == "" || path.Clean(q) != q {
				continue
			}
			if _, ok := t[q]; !ok {
				out = append(out, q)
			}
		}
	}
	return out
}

func (t Tree) checkEntries(c *mc.Ctx, how, dir string, es []*iso9660.FileInfo) {
	var names []string
	for _, fi := range es {
		names = append(names, fi.Name())
		switch fi.Name() {
		case ".":
			t.CheckInfo(c, how, dir, ".", fi)
		case "..":
			t.CheckInfo(c, how, path.Dir(dir), "..", fi)
		default:
			p := path.Join(dir, fi.Name())
			if _, ok := t[p]; !ok {
				c.Fail("listing shows a name that was not added", "%s %s lists %s; tree %s", how, short(dir), short(fi.Name()), t.Canon())
			}
			t.CheckInfo(c, how, p, fi.Name(), fi)
		}
	}
	sort.Strings(names)
	want := append([]string{".", ".."}, t.Children(dir)...)
	sort.Strings(want)
	if strings.Join(names, "\x00") != strings.Join(want, "\x00") {
		c.Fail("listing incomplete", "%s %s: %d names, want %d; tree %s", how, short(dir), len(names), len(want), t.Canon())
	}
}
