//go:build go1.22

// h09: crashes while blocks are cached, and what readers find afterwards.
package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/OneOfOne/xxhash"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/zzverif/crash"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

const bsize = 8

// source is an object of one full and one short block.
type source struct {
	id  int
	pos int64
}

const size = bsize + 5

func at(id int, i int64) byte { return byte(id*60) + byte(i) + 1 }

func (s *source) Close() error { return nil }
func (s *source) URL() string  { return fmt.Sprintf("mem:%d", s.id) }
func (s *source) Size() int64  { return size }
func (s *source) Seek(off int64, whence int) (int64, error) {
	panic("seek")
}
func (s *source) Read(p []byte) (int, error) {
	n, err := s.ReadAt(p, s.pos)
	s.pos += int64(n)
	return n, err
}
func (s *source) ReadAt(p []byte, off int64) (int, error) {
	n := 0
	for n < len(p) && off+int64(n) < size {
		p[n] = at(s.id, off+int64(n))
		n++
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type all struct{}

func (all) GcNeeded(*syscall.Statfs_t) bool { return true }

// one removes a single block.
type one struct{ n *int }

func (o one) GcNeeded(*syscall.Statfs_t) bool { *o.n++; return *o.n == 1 }

// do performs an operation: read or ahead of object and block, or gc.
func do(root, op string) error {
	s := caching.NewDiskSlicer(root, bsize)
	defer s.Wait()
	switch {
	case op == "gc":
		s.Gc(all{})
	case op == "gc1":
		s.Gc(one{new(int)})
	default:
		id, blk := int(op[len(op)-2]-'0'), int64(op[len(op)-1]-'0')
		sl := s.Slice(&source{id: id}, blk*bsize)
		if strings.HasPrefix(op, "ahead") {
			sl.(interface{ ReadAhead() }).ReadAhead()
			return nil
		}
		n := size - blk*bsize
		if n > bsize {
			n = bsize
		}
		b := make([]byte, n)
		if m, err := sl.ReadAt(b, 0); int64(m) != n || err != nil && err != io.EOF {
			return fmt.Errorf("%d bytes, %v", m, err)
		}
		for i := range b {
			if b[i] != at(id, blk*bsize+int64(i)) {
				return fmt.Errorf("wrong bytes %v", b)
			}
		}
	}
	return nil
}

var blocks = []string{"read00", "read01", "read10", "read11"}

// begin prepares the cache a program starts with.
func begin(root, how string) {
	if how == "empty" {
		return
	}
	for _, b := range blocks[:2] {
		if err := do(root, b); err != nil {
			panic(err)
		}
	}
	if how == "foreign" {
		// The names are taken by other blocks.
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && fi.Name()[0] != '.' {
				data := []byte("foreign")
				f, err := os.OpenFile(p, os.O_RDWR|os.O_TRUNC, 0)
				if err != nil {
					panic(err)
				}
				f.Write(data)
				f.Close()
				syscall.Setxattr(p, caching.XattrKey, []byte("foreign"), 0)
				var sum [8]byte
				binary.LittleEndian.PutUint64(sum[:], xxhash.Checksum64(data))
				syscall.Setxattr(p, caching.XattrChecksum, sum[:], 0)
			}
			return nil
		})
	}
}

func child(root string) {
	words := strings.Fields(os.Getenv("VP_PROGRAM"))
	begin(root, words[0])
	crash.Mark("start")
	for _, w := range words[1:] {
		if err := do(root, w); err != nil {
			fmt.Println("failed", w, err)
		}
	}
}

var scratch string
var dirs int

func fresh() string {
	dirs++
	d := filepath.Join(scratch, fmt.Sprintf("d%d", dirs))
	if err := os.Mkdir(d, 0755); err != nil {
		panic(err)
	}
	return d
}

type recording struct {
	ops []crash.Op
	out string
}

var memo = map[string]*recording{}

func recorded(p string) *recording {
	r := memo[p]
	if r == nil {
		dir := fresh()
		ops, out, _, err := crash.Record(dir, nil, "VP_PROGRAM="+p)
		if err != nil {
			panic(fmt.Sprintf("recording %s: %v", p, err))
		}
		os.RemoveAll(dir)
		r = &recording{ops, string(out)}
		memo[p] = r
	}
	return r
}

func run(depth int, alphabet []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		p := []string{"empty", "cached", "foreign"}[c.Choose(3, "cache")]
		n := 1 + c.Choose(depth, "operations")
		for i := 0; i < n; i++ {
			p += " " + alphabet[c.Choose(len(alphabet), "operation")]
		}
		r := recorded(p)
		c.Assert(r.out == "", "read wrong", "%s: %s", p, r.out)
		start := crash.Start(r.ops)
		stop := start + c.Choose(len(r.ops)-start+1, "crash")
		lost := ""
		t := crash.Lose(r.ops[:stop], func(n int, what string) int {
			k := c.Choose(n, what)
			if k > 0 {
				lost += fmt.Sprintf(" %s/%d", what, k)
			}
			return k
		})
		c.Step()
		where := "at the end"
		if stop < len(r.ops) {
			where = "before " + r.ops[stop].Kind
		}
		// Blocks are what was given its name at once.
		published := map[string]bool{}
		for _, o := range r.ops {
			if o.Kind == "rename" || o.Kind == "link" {
				published[o.To] = true
			}
		}
		damaged, count := false, 0
		for name, ino := range t.Names {
			if !published[name] {
				continue
			}
			count++
			f := t.Files[ino]
			var sum [8]byte
			if f != nil {
				binary.LittleEndian.PutUint64(sum[:], xxhash.Checksum64(f.Data))
			}
			if f == nil || f.Attrs[caching.XattrChecksum] != string(sum[:]) {
				damaged = true
			}
		}
		dir := fresh()
		defer os.RemoveAll(dir)
		if err := t.Write(dir); err != nil {
			panic(err)
		}
		err := caching.NewDiskSlicer(dir, bsize).CheckIntegrity()
		c.Assert((err != nil) == damaged, "integrity check wrong after a crash", "%s stopped %s, lost%s: damaged %v, error %v", p, where, lost, damaged, err)
		for round := 0; round < 2; round++ {
			for _, b := range blocks {
				err := do(dir, b)
				c.Assert(err == nil, "read wrong after a crash", "%s stopped %s, lost%s: %s: %v", p, where, lost, b, err)
				c.Step()
			}
		}
		err = caching.NewDiskSlicer(dir, bsize).CheckIntegrity()
		c.Assert(err == nil, "integrity check wrong after a restart", "%s stopped %s, lost%s: %v", p, where, lost, err)
		c.State(t.Canon(func(n string) bool { return strings.Contains(n, "tmp") }))
		c.Outcome(fmt.Sprint(count, damaged, lost != ""))
	}
}

func main() {
	if d := os.Getenv("VP_CHILD"); d != "" {
		runtime.LockOSThread()
		child(d)
		return
	}
	mc.Main(mc.Def{
		Setup: func(s string) { scratch = s },
		Scenarios: func(tier string) []mc.Scenario {
			x := 0
			if tier == "thorough" {
				x = 1
			}
			return []mc.Scenario{
				{Name: "reads", Run: run(2+x, []string{"read00", "read01", "ahead00", "read10", "gc", "gc1"}), NoPrune: true},
			}
		}})
}
