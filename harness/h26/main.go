//go:build go1.22

// h26: garbage collection and integrity checking of cache directories with
// every content over the alphabet, every answer of the threshold, and storage
// calls that fail or find the directory changed by someone else.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/OneOfOne/xxhash"
	"golang.org/x/sys/unix"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

const maxOpen = 64

// fs is the real file driver with a monitor in front of it.
type fs struct {
	filedriver.Driver
	root string

	failed  []string // operations that failed
	where   []string
	changed bool   // another user changed the directory
	meddle  string // the block they remove
	fresh   string // the block they publish
	open    int
	removed []string
}

// before gives another user, then the disk, a chance; true means failure.
func (f *fs) before(op, url string) bool {
	k := vs.Fault(3, op)
	switch k {
	case 1:
		f.failed, f.where = append(f.failed, op), append(f.where, url)
		return true
	case 2:
		f.changed = true
		os.Remove(f.meddle)
	case 3:
		f.changed = true
		write(f.fresh, good)
	}
	return false
}

func (f *fs) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	if f.before("open", url) {
		return nil, &os.PathError{Op: "open", Path: url, Err: syscall.EIO}
	}
	if f.open >= maxOpen {
		return nil, &os.PathError{Op: "open", Path: url, Err: syscall.EMFILE}
	}
	o, err := f.Driver.Open(ctx, url, size)
	if err != nil {
		return nil, err
	}
	f.open++
	return &object{o.(driver.XattrObject), f}, nil
}

func (f *fs) Remove(ctx context.Context, url string) error {
	if f.before("remove", url) {
		return &os.PathError{Op: "remove", Path: url, Err: syscall.EIO}
	}
	err := f.Driver.Remove(ctx, url)
	if err == nil {
		f.removed = append(f.removed, url)
	}
	return err
}

func (f *fs) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	if f.before("readdir", url) {
		return nil, &os.PathError{Op: "readdir", Path: url, Err: syscall.EIO}
	}
	l, err := f.Driver.Readdir(ctx, url)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

type object struct {
	driver.XattrObject
	f *fs
}

func (o *object) Close() error {
	o.f.open--
	return o.XattrObject.Close()
}

func (o *object) Read(p []byte) (int, error) {
	if o.f.before("read", o.URL()) {
		return 0, &os.PathError{Op: "read", Path: o.URL(), Err: syscall.EIO}
	}
	return o.XattrObject.Read(p)
}

func (o *object) ReadAt(p []byte, off int64) (int, error) {
	if o.f.before("read", o.URL()) {
		return 0, &os.PathError{Op: "read", Path: o.URL(), Err: syscall.EIO}
	}
	return o.XattrObject.ReadAt(p, off)
}

func (o *object) GetXattr(name string) ([]byte, error) {
	if o.f.before("getxattr", o.URL()) {
		return nil, syscall.EIO
	}
	return o.XattrObject.GetXattr(name)
}

// Kinds of published blocks.
const (
	absent = iota
	good
	empty     // no content, with its checksum
	bad       // other content than the checksum says
	cut       // less content than the checksum says
	unlabeled // no checksum
	short     // too short a checksum
	nKinds
)

func damaged(kind int) bool { return kind >= bad }

func write(path string, kind int) {
	if kind == absent {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	data := []byte("content of " + filepath.Base(path))
	if kind == empty {
		data = nil
	}
	h := xxhash.New64()
	h.Write(data)
	sum := make([]byte, 8)
	binary.LittleEndian.PutUint64(sum, h.Sum64())
	switch kind {
	case bad:
		data[3] ^= 1
	case cut:
		data = data[:len(data)-1]
	case short:
		sum = sum[:4]
	}
	if err := os.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
	if kind != unlabeled {
		if err := unix.Setxattr(path, caching.XattrChecksum, sum, 0); err != nil {
			panic(err)
		}
	}
	if err := unix.Setxattr(path, caching.XattrKey, []byte("key"), 0); err != nil {
		panic(err)
	}
}

var blocks = []string{"v0/00/1111111111111111111111111111aa", "v0/00/2222222222222222222222222222bb", "v0/a7/3333333333333333333333333333cc"}

// junk is what else may be around.
var junk = []string{"v0/00/.lock.1111111111111111111111111111aa", "v0/a7/.tmp.filedriver123", "v0/00/sub/4444", "v0/abc/5555", "v0/6", "7", "../outside", "v1/00/1111111111111111111111111111aa"}

type threshold struct {
	answers []bool
	f       *fs
	at      []int // blocks removed when asked
	choose  func() bool
}

func (t *threshold) GcNeeded(st *syscall.Statfs_t) bool {
	a := t.choose()
	t.answers = append(t.answers, a)
	t.at = append(t.at, len(t.f.removed))
	if st == nil || st.Blocks == 0 {
		vs.Fail("no file system statistics", "")
	}
	return a
}

func tree(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			out = append(out, p[len(dir)+1:])
		}
		return nil
	})
	return out
}

var scratch string

func setup(c *mc.Ctx) (f *fs, dir string, kinds []int, with []string) {
	dir = filepath.Join(scratch, fmt.Sprintf("cache-%d", os.Getpid()))
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	f = &fs{root: filepath.Join(dir, "root")}
	if err := os.MkdirAll(f.root, 0755); err != nil {
		panic(err)
	}
	return
}

func run(c *mc.Ctx, f *fs, body func(s *caching.DiskSlicer)) {
	defer driver.ClearRegistry()()
	driver.Register("file", f)
	vs.Run(c, vs.Options{Delays: true, NoStates: true}, func() { body(caching.NewDiskSlicer(f.root, 4096)) })
}

func scenario(check bool, faults int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		f, dir, kinds, with := setup(c)
		n := nKinds
		if !check {
			n = 2
		}
		for _, b := range blocks {
			k := c.Choose(n, "block")
			if faults > 1 && k != absent && k != good && k != bad {
				return
			}
			write(filepath.Join(f.root, b), k)
			kinds = append(kinds, k)
		}
		switch k := c.Choose(len(junk)+2, "others"); {
		case k == len(junk):
			with = junk
		case k < len(junk):
			if faults > 0 {
				return
			}
			with = junk[k : k+1]
		}
		for _, j := range with {
			p := filepath.Join(f.root, j)
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, []byte("x"), 0644)
		}
		if faults > 0 {
			f.meddle = filepath.Join(f.root, blocks[c.Choose(len(blocks), "meddle")])
			f.fresh = filepath.Join(f.root, "v0", []string{"00", "a7", "ff"}[c.Choose(3, "fresh")], "dddddddddddddddddddddddddddddd")
		}
		before := tree(dir)
		if check {
			var err error
			run(c, f, func(s *caching.DiskSlicer) { err = s.CheckIntegrity() })
			c.Step()
			if len(f.failed) == 0 {
				// A damaged block that was removed meanwhile may have been
				// seen or not.
				must, may := false, false
				for i, k := range kinds {
					if damaged(k) {
						may = true
						if !f.changed || filepath.Join(f.root, blocks[i]) != f.meddle {
							must = true
						}
					}
				}
				c.Assert(err != nil || !must, "damage not found", "blocks %v", kinds)
				c.Assert(err == nil || may, "healthy cache rejected", "blocks %v with %v (others change it: %v): %v", kinds, with, f.changed, err)
			} else {
				sound := true
				for _, k := range kinds {
					sound = sound && !damaged(k)
				}
				c.Assert(err != nil || sound, "damage not found", "blocks %v, %v of %v fails", kinds, f.failed, f.where)
			}
			c.Assert(f.open == 0, "handles left open", "%d", f.open)
			c.Assert(len(f.removed) == 0, "check removes files", "%v", f.removed)
			if !f.changed {
				c.Assert(strings.Join(tree(dir), " ") == strings.Join(before, " "), "check changes the cache", "%v", tree(dir))
			}
			c.State("check", fmt.Sprint(kinds, with, f.failed, f.where), f.changed, f.meddle, f.fresh)
			c.Outcome(fmt.Sprint("check ", err != nil, f.failed, f.changed))
			return
		}
		t := &threshold{f: f}
		t.choose = func() bool { return vs.Choose(2, "enough space") == 0 }
		run(c, f, func(s *caching.DiskSlicer) { s.Gc(t) })
		c.Step()
		trues := 0
		stopped := false
		for i, a := range t.answers {
			if a {
				trues++
			} else {
				stopped = true
				c.Assert(t.at[i] == len(f.removed), "removes after enough space was free", "%v: %v", t.answers, f.removed)
				break
			}
			c.Assert(t.at[i] <= i, "removes without asking", "%v: %v", t.answers, f.removed)
		}
		c.Assert(len(f.removed) <= trues, "removes without need", "%v: %v", t.answers, f.removed)
		isBlock := map[string]bool{f.fresh: f.fresh != ""}
		for _, b := range blocks {
			isBlock[filepath.Join(f.root, b)] = true
		}
		gone := map[string]bool{}
		for _, r := range f.removed {
			c.Assert(isBlock[r], "removes something else", "%s", r)
			gone[r] = true
		}
		after := tree(dir)
		for _, p := range before {
			full := filepath.Join(dir, p)
			i := sort.SearchStrings(after, p)
			there := i < len(after) && after[i] == p
			c.Assert(there || gone[full] || f.changed && full == f.meddle, "removes something else", "%s", p)
			// With space still needed, only what could not be removed or
			// found stays.
			if !stopped && there && isBlock[full] {
				excused := false
				for i, op := range f.failed {
					excused = excused || op == "remove" && f.where[i] == full || op == "readdir" && strings.HasPrefix(full, f.where[i])
				}
				c.Assert(excused, "gives up too early", "%s stays; %v of %v failed; changed %v", p, f.failed, f.where, f.changed)
			}
		}
		c.State("gc", fmt.Sprint(kinds, with, t.answers, f.failed, f.where), f.changed, f.meddle, f.fresh)
		c.Outcome(fmt.Sprint("gc ", len(f.removed), stopped, f.failed, f.changed))
	}
}

// many has more blocks than files can be open at once.
func many(c *mc.Ctx) {
	f, _, _, _ := setup(c)
	last := c.Choose(nKinds, "last")
	for i := 0; i < 2*maxOpen; i++ {
		k := good
		if i == 2*maxOpen-1 {
			k = last
		}
		write(filepath.Join(f.root, "v0", fmt.Sprintf("%02x", i%16), fmt.Sprintf("%030x", i)), k)
	}
	var err error
	run(c, f, func(s *caching.DiskSlicer) { err = s.CheckIntegrity() })
	c.Assert(err == nil || damaged(last), "healthy cache rejected", "%d blocks: %v", 2*maxOpen, err)
	c.Assert(err != nil || !damaged(last), "damage not found", "%d blocks", 2*maxOpen)
	t := &threshold{f: f, choose: func() bool { return true }}
	run(c, f, func(s *caching.DiskSlicer) { s.Gc(t) })
	left := len(tree(f.root))
	c.Assert(left == 0, "gives up too early", "%d of %d blocks stay", left, 2*maxOpen)
	c.State("many", last)
	c.Outcome(fmt.Sprint("many ", err != nil))
}

// none has no cache at the place at all.
func none(c *mc.Ctx) {
	f, dir, _, _ := setup(c)
	switch c.Choose(3, "missing") {
	case 0:
		os.Remove(f.root)
	case 1: // empty
	case 2:
		os.MkdirAll(filepath.Join(f.root, "v0"), 0755)
	}
	var err error
	run(c, f, func(s *caching.DiskSlicer) { err = s.CheckIntegrity() })
	c.Assert(err == nil, "healthy cache rejected", "no blocks: %v", err)
	t := &threshold{f: f, choose: func() bool { return true }}
	run(c, f, func(s *caching.DiskSlicer) { s.Gc(t) })
	c.Assert(len(tree(dir)) == 0 && len(t.answers) < 3, "collecting nothing", "%v", t.answers)
	c.State("none", len(t.answers))
	c.Outcome(fmt.Sprint("none ", len(t.answers)))
}

func main() {
	mc.Main(mc.Def{
		Setup: func(s string) { scratch = s },
		Scenarios: func(tier string) []mc.Scenario {
			n := 1
			if tier == "thorough" {
				n = 2
			}
			sc := []mc.Scenario{
				{Name: "gc", Run: scenario(false, 0), NoPrune: true},
				{Name: "gc faults", Run: scenario(false, n), Budget: [3]int{0, n, 0}, NoPrune: true},
				{Name: "check", Run: scenario(true, 0), NoPrune: true},
				{Name: "check fault", Run: scenario(true, 1), Budget: [3]int{0, 1, 0}, NoPrune: true},
				{Name: "check faults", Run: scenario(true, n), Budget: [3]int{0, n, 0}, NoPrune: true},
				{Name: "many", Run: many, NoPrune: true},
				{Name: "none", Run: none, NoPrune: true},
			}
			if n == 1 {
				sc = append(sc[:4], sc[5:]...)
			}
			return sc
		}})
}
