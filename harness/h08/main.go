//go:build go1.22

// h08: readers sharing a disk cache under every interleaving up to the bounds
// of reads, write-backs, read-ahead and garbage collection, with failing cache
// and source calls.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"syscall"

	"github.com/OneOfOne/xxhash"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/zzverif/cfs"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

var errInjected = errors.New("injected")

var root string

// world is the monitor.
type world struct {
	fs     *cfs.FS
	hits   int // failing source reads
	faulty bool
}

type source struct {
	w    *world
	id   int
	size int
	pos  int64
}

func at(obj, i int) byte { return byte(obj*50 + i + 1) }

func (s *source) Close() error { return nil }
func (s *source) URL() string  { return [2]string{"mem:0", "mem:1"}[s.id] }
func (s *source) Size() int64  { return int64(s.size) }

func (s *source) Read(p []byte) (int, error) {
	n, err := s.ReadAt(p, s.pos)
	s.pos += int64(n)
	return n, err
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(s.size)
	}
	s.pos = off
	return off, nil
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	vs.Yield()
	n := 0
	for n < len(p) && int(off)+n < s.size {
		p[n] = at(s.id, int(off)+n)
		n++
	}
	vs.Write(p[:n])
	if s.w.faulty && n > 0 {
		k := vs.Fault(3, "source read")
		if k > 0 {
			vs.Do("hits", func() { s.w.hits++ })
		}
		switch k {
		case 1:
			return 0, errInjected
		case 2:
			return n / 2, errInjected
		case 3: // truncated
			return n / 2, io.EOF
		}
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type read struct{ obj, off, n int }

func (w *world) read(o storage.Object, r read, size int) {
	var before int
	vs.Do("hits", func() { before = w.hits + w.fs.Hits })
	p := make([]byte, r.n)
	n, err := o.ReadAt(p, int64(r.off))
	vs.Read(p)
	vs.Do("hits", func() {
		want := min(r.n, max(0, size-r.off))
		for i := 0; i < n; i++ {
			if n > want || p[i] != at(r.obj, r.off+i) {
				vs.Fail("wrong bytes", "read %v of a %d byte object: %d %v (%v)", r, size, n, p, err)
				return
			}
		}
		failed := w.hits+w.fs.Hits > before
		if err != nil && err != io.EOF {
			if !failed {
				vs.Fail("read fails with a healthy source and cache", "read %v of a %d byte object: %d %v", r, size, n, err)
			}
			return
		}
		if err == io.EOF && n < want && failed {
			// The source itself reported its end.
			return
		}
		if n != want || err == io.EOF && r.off+n < size {
			vs.Fail("bytes missing", "read %v of a %d byte object: %d of %d bytes (%v)", r, size, n, want, err)
		}
	})
}

type cfg struct {
	readers, length int
	window, tokens  int
	oneSlicer, gc   bool
	contents        string
	faults, preempt int
	delays          bool
}

const size, bsize = 5, 3

func alphabet(k cfg) []read {
	if k.readers*k.length > 2 || k.window > 0 || k.gc {
		return []read{{0, 0, 2}, {0, 1, 1}, {0, 3, 2}, {1, 0, 2}}
	}
	return []read{{0, 0, 2}, {0, 1, 1}, {0, 3, 2}, {0, 0, size + 1}, {0, 2, 2}, {1, 0, 2}}
}

type always struct{}

func (always) GcNeeded(*syscall.Statfs_t) bool { return true }

// label checks a block's labels and returns what they say.
func (w *world) label(path string, f *cfs.File) bool {
	var l struct {
		Url      string
		Off, Len int
	}
	key, _ := f.Get(caching.XattrKey)
	if err := json.Unmarshal(key, &l); err != nil {
		vs.Fail("published block without a label", "%s: %v", path, err)
		return false
	}
	obj := strings.Index("01", strings.TrimPrefix(l.Url, "mem:"))
	var want []byte
	for i := 0; i < l.Len; i++ {
		want = append(want, at(obj, l.Off+i))
	}
	if obj < 0 || !bytes.Equal(want, f.Data) {
		vs.Fail("published block with wrong bytes", "%s: %+v %v", path, l, f.Data)
		return false
	}
	h := xxhash.New64()
	h.Write(f.Data)
	if c, _ := f.Get(caching.XattrChecksum); len(c) != 8 || binary.LittleEndian.Uint64(c) != h.Sum64() {
		vs.Fail("published block with a wrong checksum", "%s: %v", path, c)
		return false
	}
	return true
}

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{fs: cfs.New()}
		defer w.fs.Register()()
		alpha := alphabet(k)
		var prog [][]read
		last := 0
		for i := 0; i < k.readers; i++ {
			var l []read
			code := 0
			for j := 0; j < k.length; j++ {
				x := c.Choose(len(alpha), "read")
				l = append(l, alpha[x])
				code = code*len(alpha) + x
			}
			if code < last {
				return
			}
			last = code
			prog = append(prog, l)
		}
		res := vs.Run(c, vs.Options{Delays: k.delays, QuietReaders: true}, func() {
			slicers := []*caching.DiskSlicer{caching.NewDiskSlicer(root, bsize)}
			all := func(ds *caching.DiskSlicer) {
				plain := caching.NewCache(ds, 0, 1)
				for i := 0; i < 2; i++ {
					o := plain.WithCaching(&source{w: w, id: i, size: size})
					for off := 0; off < size; off += bsize {
						w.read(o, read{i, off, 1}, size)
						vs.Idle()
					}
				}
			}
			if k.contents != "empty" {
				all(slicers[0])
				vs.Do("setup", func() { spoil(w.fs, k.contents) })
			}
			w.faulty, w.fs.Faulty = k.faults > 0, k.faults > 0
			vs.Do("setup", func() {
				w.fs.Published = func(p string, f *cfs.File) { w.label(p, f) }
			})
			done := make(chan struct{}, k.readers+1)
			for i := 0; i < k.readers; i++ {
				i := i
				if i > 0 && !k.oneSlicer {
					slicers = append(slicers, caching.NewDiskSlicer(root, bsize))
				}
				cache := caching.NewCache(slicers[len(slicers)-1], k.window, int64(k.tokens))
				v := []storage.Object{cache.WithCaching(&source{w: w, id: 0, size: size}), cache.WithCaching(&source{w: w, id: 1, size: size})}
				vs.Go(func() {
					for _, r := range prog[i] {
						w.read(v[r.obj], r, size)
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			n := k.readers
			if k.gc {
				n++
				vs.Go(func() {
					caching.NewDiskSlicer(root, bsize).Gc(always{})
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for i := 0; i < n; i++ {
				vs.Recv((<-chan struct{})(done))
			}
			vs.Idle()
			for _, ds := range slicers {
				ds.Wait()
			}
			w.faulty, w.fs.Faulty = false, false
			vs.Do("end", func() {
				fs := w.fs
				if fs.Held != 0 {
					vs.Fail("lock not released", "%d", fs.Held)
				}
				if fs.Handles != 0 {
					vs.Fail("cache file not closed", "%d", fs.Handles)
				}
				if fs.Writers != 0 || fs.Temps != 0 {
					vs.Fail("unfinished block left", "%d, %d files", fs.Writers, fs.Temps)
				}
			})
			// Whatever happened, everything can be read.
			all(caching.NewDiskSlicer(root, bsize))
		})
		c.Assert(len(res.Leaked) == 0, "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
		c.State(fmt.Sprint(k, prog))
		c.Outcome(fmt.Sprint(w.hits, " source, ", w.fs.Hits, " cache errors, ", len(w.fs.Removed), " removed"))
	}
}

// spoil turns a complete cache into another kind.
func spoil(fs *cfs.FS, kind string) {
	var paths []string
	for p := range fs.Files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	switch kind {
	case "foreign": // each block in another's place
		first := fs.Files[paths[0]]
		for i, p := range paths {
			if i+1 < len(paths) {
				fs.Files[p] = fs.Files[paths[i+1]]
			} else {
				fs.Files[p] = first
			}
		}
	case "unlabelled":
		for _, p := range paths {
			fs.Files[p] = &cfs.File{Data: []byte{255, 255, 255}}
		}
	}
}

func main() {
	mc.Main(mc.Def{
		Setup: func(scratch string) { root = scratch },
		Scenarios: func(tier string) []mc.Scenario {
			var out []mc.Scenario
			add := func(k cfg) {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, k.faults, 0}, Run: run(k)})
			}
			d := 2
			if tier == "thorough" {
				d = 3
			}
			if mc.Race {
				d--
			}
			for _, contents := range []string{"empty", "foreign", "unlabelled", "cached"} {
				for _, one := range []bool{true, false} {
					add(cfg{2, 1, 0, 1, one, false, contents, 1, d, true})
					add(cfg{2, 1, 1, 1, one, false, contents, 1, d - 1, true})
					add(cfg{2, 1, 0, 1, one, true, contents, 1, d - 1, true})
					if !mc.Race {
						if one && (contents == "empty" || contents == "foreign") || tier == "thorough" {
							add(cfg{2, 2, 0, 1, one, false, contents, 1, d - 1, true})
						}
						add(cfg{2, 1, 1, 1, one, true, contents, 0, d, true})
					}
				}
				add(cfg{1, 2, 1, 1, true, false, contents, 1, d, true})
			}
			return out
		}})
}
