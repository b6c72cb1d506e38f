//go:build go1.22

// h07: concurrent reads through the memory cache under every interleaving up
// to the bounds, with failing sources.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

var errInjected = errors.New("injected")

type hit struct{ obj, off, n int }

// world is the monitor; its state is only touched on the explorer.
type world struct {
	hits   []hit
	faulty bool
}

type source struct {
	w    *world
	id   int
	size int
	pos  int64
}

func at(obj, i int) byte { return byte(obj*50 + i + 1) }

func (s *source) Close() error { return nil }
func (s *source) URL() string  { return fmt.Sprintf("mem:%d", s.id) }
func (s *source) Size() int64  { return int64(s.size) }

func (s *source) Read(p []byte) (int, error) {
	n, err := s.ReadAt(p, s.pos)
	s.pos += int64(n)
	return n, err
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(s.size)
	}
	s.pos = off
	return off, nil
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	vs.Step(s.URL(), func() {})
	n := 0
	for n < len(p) && int(off)+n < s.size {
		p[n] = at(s.id, int(off)+n)
		n++
	}
	vs.Write(p[:n])
	if s.w.faulty && n > 0 {
		switch vs.Fault(2, "source read") {
		case 1:
			vs.Do("hits", func() { s.w.hits = append(s.w.hits, hit{s.id, int(off), n}) })
			return 0, errInjected
		case 2:
			vs.Do("hits", func() { s.w.hits = append(s.w.hits, hit{s.id, int(off), n}) })
			return n / 2, errInjected
		}
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type read struct{ obj, off, n int }

func (w *world) read(o storage.Object, r read, size int) {
	var before int
	vs.Do("hits", func() { before = len(w.hits) })
	p := make([]byte, r.n)
	n, err := o.ReadAt(p, int64(r.off))
	vs.Read(p)
	vs.Do("hits", func() {
		want := min(r.n, max(0, size-r.off))
		for i := 0; i < n; i++ {
			if n > want || p[i] != at(r.obj, r.off+i) {
				vs.Fail("wrong bytes", "read %v of a %d byte object: %d %v (%v)", r, size, n, p, err)
				return
			}
		}
		if err != nil && err != io.EOF {
			for _, h := range w.hits[before:] {
				if h.obj == r.obj {
					return
				}
			}
			vs.Fail("read fails with a healthy source", "read %v of a %d byte object: %d %v", r, size, n, err)
			return
		}
		if n != want || err == io.EOF && r.off+n < size {
			vs.Fail("bytes missing", "read %v of a %d byte object: %d of %d bytes (%v)", r, size, n, want, err)
		}
	})
}

type cfg struct {
	readers, length, bsize, bcount, window, tokens, size int
	shared                                               bool // one view shared by the readers
	faults, preempt                                      int
	delays                                               bool
}

func alphabet(size, n, window int) []read {
	if window > 0 {
		return []read{{0, 0, 2}, {1, 0, 2}, {0, 2, 2}, {0, 1, 2}}
	}
	if n > 2 {
		return []read{{0, 0, 2}, {0, 1, 2}, {0, 0, size + 1}, {1, 0, 2}}
	}
	return []read{{0, 0, 2}, {0, 1, 2}, {0, 2, 2}, {0, 0, size + 1}, {0, size - 1, 1}, {1, 0, 2}, {1, 0, size}}
}

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{faulty: k.faults > 0}
		alpha := alphabet(k.size, k.readers*k.length, k.window)
		var prog [][]read
		last := 0
		for i := 0; i < k.readers; i++ {
			// The readers are interchangeable: non-decreasing programs do.
			var l []read
			code := 0
			for j := 0; j < k.length; j++ {
				x := c.Choose(len(alpha), "read")
				l = append(l, alpha[x])
				code = code*len(alpha) + x
			}
			if code < last {
				return
			}
			last = code
			prog = append(prog, l)
		}
		res := vs.Run(c, vs.Options{Delays: k.delays}, func() {
			sl, err := caching.NewMemorySlicer(int64(k.bsize), int64(k.bcount))
			if err != nil {
				vs.Fail("setup", "%v", err)
			}
			cache := caching.NewCache(sl, k.window, int64(k.tokens))
			view := func() []storage.Object {
				return []storage.Object{cache.WithCaching(&source{w: w, id: 0, size: k.size}), cache.WithCaching(&source{w: w, id: 1, size: k.size})}
			}
			sv := view()
			done := make(chan struct{}, k.readers)
			for i := 0; i < k.readers; i++ {
				i := i
				vs.Go(func() {
					v := sv
					if !k.shared {
						v = view()
					}
					for _, r := range prog[i] {
						w.read(v[r.obj], r, k.size)
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for i := 0; i < k.readers; i++ {
				vs.Recv((<-chan struct{})(done))
			}
			// Whatever happened, everything can be read.
			vs.Idle()
			w.faulty = false
			plain := caching.NewCache(sl, 0, 1)
			for i := 0; i < 2; i++ {
				o := plain.WithCaching(&source{w: w, id: i, size: k.size})
				for off := 0; off < k.size; off++ {
					w.read(o, read{i, off, 1}, k.size)
				}
			}
		})
		c.Assert(len(res.Leaked) == 0, "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
		c.State(fmt.Sprint(k, prog))
		c.Outcome(fmt.Sprint(len(w.hits), " source errors"))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		var out []mc.Scenario
		add := func(k cfg) {
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, k.faults, 0}, Run: run(k)})
		}
		th := tier == "thorough"
		for _, bc := range []int{1, 2, 3} {
			for _, wt := range [][2]int{{0, 1}, {2, 1}, {2, 2}} {
				for _, f := range []int{0, 1} {
					for _, shared := range []bool{false, true} {
						d := 2
						if th {
							d = 3
						}
						if mc.Race {
							d--
						}
						add(cfg{2, 1, 2, bc, wt[0], wt[1], 5, shared, f, d, true})
						add(cfg{1, 3, 2, bc, wt[0], wt[1], 5, shared, f, d - 1, true})
						if mc.Race {
							continue
						}
						add(cfg{2, 2, 2, bc, wt[0], wt[1], 5, shared, f, d - 1, true})
						if wt[0] == 0 || th {
							add(cfg{3, 1, 3, bc, wt[0], wt[1], 5, shared, f, d - 1, true})
						}
						if wt[0] == 0 && f == 0 {
							add(cfg{2, 1, 2, bc, wt[0], wt[1], 5, shared, f, 0, false})
						}
					}
				}
			}
		}
		return out
	}})
}
