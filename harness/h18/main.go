//go:build go1.22

// h18: every read history and completion order of read-aheads over small
// objects, and concurrent readers, against the window and the token budget.
package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

const bsize = 3

type ra struct {
	obj, block int
	done       chan struct{}
}

// world is the monitor and the cache's block store.
type world struct {
	sizes   []int
	tokens  int
	window  int
	hold    bool // read-aheads last until they are told to end
	out     []*ra
	fresh   []*ra // begun since last asked
	started int
}

func (w *world) Bsize() int64 { return bsize }

type slice struct {
	w   *world
	obj *source
	off int64
}

func (w *world) Slice(o storage.Object, off int64) caching.Slice {
	return &slice{w, o.(*source), off}
}

func (s *slice) Close() error                   { return nil }
func (s *slice) Read([]byte) (int, error)       { return 0, errors.New("unused") }
func (s *slice) Seek(int64, int) (int64, error) { return 0, errors.New("unused") }
func (s *slice) Size() int64                    { return min(bsize, max(0, s.obj.Size()-s.off)) }

func (s *slice) ReadAt(p []byte, off int64) (int, error) {
	n := int(min(int64(len(p)), s.Size()-off))
	if n > 0 && vs.Fault(1, "source") == 1 {
		return 0, errors.New("injected")
	}
	if n < len(p) {
		return max(n, 0), io.EOF
	}
	return n, nil
}

func (s *slice) ReadAhead() {
	r := &ra{s.obj.id, int(s.off / bsize), make(chan struct{})}
	hold := false
	// While read-aheads last until told to end, their order is immaterial.
	name := "ra"
	if s.w.hold {
		name = string([]byte{byte(r.obj), byte(r.block)})
	}
	vs.Do(name, func() {
		w := s.w
		w.started++
		w.out = append(w.out, r)
		w.fresh = append(w.fresh, r)
		for _, l := range [][]*ra{w.out, w.fresh} {
			sort.Slice(l, func(i, j int) bool { return l[i].obj < l[j].obj || l[i].obj == l[j].obj && l[i].block < l[j].block })
		}
		hold = w.hold
		if len(w.out) > w.tokens {
			vs.Fail("more read-aheads than tokens", "%d with %d tokens", len(w.out), w.tokens)
		}
		if w.window == 0 {
			vs.Fail("read-ahead without a window", "block %d", r.block)
		}
		if s.off%bsize != 0 || s.off < 0 || s.off >= int64(w.sizes[r.obj]) {
			vs.Fail("read-ahead outside of the object", "offset %d of %d", s.off, w.sizes[r.obj])
		}
	})
	if hold {
		vs.Recv((<-chan struct{})(r.done))
	} else {
		vs.Step("end", func() {})
	}
	vs.Do(name, func() {
		for i, o := range s.w.out {
			if o == r {
				s.w.out = append(append([]*ra{}, s.w.out[:i]...), s.w.out[i+1:]...)
			}
		}
	})
}

type source struct {
	w  *world
	id int
}

func (s *source) Close() error                          { return nil }
func (s *source) URL() string                           { return "mem:" }
func (s *source) Size() int64                           { return int64(s.w.sizes[s.id]) }
func (s *source) Read(p []byte) (int, error)            { return 0, errors.New("unused") }
func (s *source) Seek(int64, int) (int64, error)        { return 0, errors.New("unused") }
func (s *source) ReadAt(p []byte, _ int64) (int, error) { return 0, errors.New("unused") }

type cfg struct {
	sizes          [2]int
	files          int
	window, tokens int
	depth, faults  int
}

// run model: what the statement needs to know about the reads so far.
type runModel struct {
	pos       int
	reads     int
	requested map[int]bool
}

func history(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{sizes: k.sizes[:], tokens: k.tokens, window: k.window, hold: true}
		var ops []string
		res := vs.Run(c, vs.Options{}, func() {
			cache := caching.NewCache(w, k.window, int64(k.tokens))
			var views []storage.Object
			var runs []*runModel
			for i := 0; i < k.files; i++ {
				views = append(views, cache.WithCaching(&source{w, i}))
				runs = append(runs, &runModel{requested: map[int]bool{}})
			}
			for d := 0; d < k.depth; d++ {
				op := vs.Choose(6*k.files+len(w.out), "op")
				if op >= 6*k.files {
					r := w.out[op-6*k.files]
					if vs.Logf != nil {
						vs.Logf("read-ahead of block %d of %d ends", r.block, r.obj)
					}
					vs.Close((chan<- struct{})(r.done))
					vs.Idle()
					continue
				}
				f := op / 6
				m := runs[f]
				off, n := m.pos, [6]int{1, 2, 5, 2, 2, 1}[op%6]
				switch op % 6 {
				case 3:
					off = 0
				case 4:
					off = k.sizes[f] / 2 / bsize * bsize
				case 5:
					off = m.pos + 1
				}
				free := k.tokens - len(w.out)
				w.fresh = nil
				p := make([]byte, n)
				got, err := views[f].ReadAt(p, int64(off))
				vs.Idle()
				vs.Do("check", func() {
					ops = append(ops, fmt.Sprintf("%d@%d+%d", f, off, n))
					vs.Logf("read %d of %d at %d: %d %v", n, f, off, got, err)
					if off != m.pos || m.reads == 0 {
						m.reads = 0
						m.requested = map[int]bool{}
					}
					m.reads++
					cur, last := off/bsize, max(off, off+got-1)/bsize
					for _, r := range w.fresh {
						vs.Logf("read-ahead of block %d", r.block)
						if r.obj != f {
							vs.Fail("read-ahead of another object", "%v", ops)
						}
						if r.block <= cur {
							vs.Fail("read-ahead behind the read", "block %d after %v", r.block, ops)
						}
						if r.block > last+k.window {
							vs.Fail("read-ahead beyond the window", "block %d after %v", r.block, ops)
						}
						if m.requested[r.block] {
							vs.Fail("block requested twice in a run", "block %d after %v", r.block, ops)
						}
						m.requested[r.block] = true
					}
					if k.tokens == 0 && len(w.fresh) > 0 {
						vs.Fail("read-ahead without tokens", "%v", ops)
					}
					if m.reads > 1 && got > 0 && cur == last && free > 0 && k.window > 0 && (cur+1)*bsize < k.sizes[f] && !m.requested[cur+1] {
						vs.Fail("next block not requested", "block %d after %v with %d tokens free", cur+1, ops, free)
					}
					if off < k.sizes[f] {
						m.pos = off + got
					}
				})
			}
			w.hold = false
			for _, r := range append([]*ra{}, w.out...) {
				vs.Close((chan<- struct{})(r.done))
			}
		})
		c.Assert(len(res.Leaked) == 0, "read-aheads left behind", "%s", strings.Join(res.Leaked, "; "))
		c.State(fmt.Sprint(k, ops))
		c.Outcome(fmt.Sprint(w.started, " read-aheads"))
	}
}

// concurrent: readers share a view; afterwards every token is back.
func concurrent(k cfg, readers int, shared bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := &world{sizes: k.sizes[:], tokens: k.tokens, window: k.window}
		var prog [][]int
		last := 0
		for i := 0; i < readers; i++ {
			var l []int
			code := 0
			for j := 0; j < k.depth; j++ {
				x := c.Choose(3, "read")
				l = append(l, []int{0, 1, k.sizes[0] - bsize}[x])
				code = code*3 + x
			}
			if code < last {
				return
			}
			last = code
			prog = append(prog, l)
		}
		res := vs.Run(c, vs.Options{}, func() {
			cache := caching.NewCache(w, k.window, int64(k.tokens))
			view := cache.WithCaching(&source{w, 0})
			done := make(chan struct{}, readers)
			for i := 0; i < readers; i++ {
				v := view
				if !shared && i > 0 {
					v = cache.WithCaching(&source{w, i % k.files})
				}
				l := prog[i]
				vs.Go(func() {
					for _, off := range l {
						v.ReadAt(make([]byte, 1), int64(off))
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for i := 0; i < readers; i++ {
				vs.Recv((<-chan struct{})(done))
			}
			vs.Idle()
			var n int
			vs.Do("ra", func() { n = len(w.out); w.hold = true })
			if n != 0 {
				vs.Fail("read-aheads outstanding", "%d", n)
			}
			// A sequential reader gets all the tokens.
			last := cache.WithCaching(&source{w, k.files})
			for off := 0; off < w.sizes[k.files]; off++ {
				last.ReadAt(make([]byte, 1), int64(off))
				vs.Idle()
			}
			var held []*ra
			vs.Do("ra", func() { held = append(held, w.out...) })
			if k.window > 0 && len(held) != k.tokens {
				vs.Fail("tokens lost", "%d of %d can be used again", len(held), k.tokens)
			}
			for _, r := range held {
				vs.Close((chan<- struct{})(r.done))
			}
		})
		c.Assert(len(res.Leaked) == 0, "read-aheads left behind", "%s", strings.Join(res.Leaked, "; "))
		c.State(fmt.Sprint(k, prog))
		c.Outcome(fmt.Sprint(w.started, " read-aheads"))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		var out []mc.Scenario
		th := tier == "thorough"
		d := 0
		if th {
			d = 1
		}
		for window := 0; window <= 3; window++ {
			for tokens := 0; tokens <= 3; tokens++ {
				if !mc.Race {
					for _, size := range []int{2, 6, 13} {
						for f := 0; f < 2; f++ {
							k := cfg{[2]int{size, size}, 1, window, tokens, 5 + d - f, f}
							out = append(out, mc.Scenario{Name: fmt.Sprintf("history %+v", k), Budget: [3]int{0, f, 0}, Run: history(k)})
						}
					}
					k := cfg{[2]int{10, 9}, 2, window, tokens, 4 + d, 0}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("history %+v", k), Run: history(k)})
				}
				for _, shared := range []bool{true, false} {
					p := 2
					if mc.Race || window+tokens > 3 {
						p = 1
					}
					if th {
						p++
					}
					k := cfg{[2]int{12, 18}, 1, window, tokens, 2, 0}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent %+v shared=%v", k, shared), Budget: [3]int{p, 0, 0}, Run: concurrent(k, 2, shared)})
				}
			}
		}
		return out
	}})
}
