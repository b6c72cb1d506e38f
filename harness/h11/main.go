//go:build go1.22

// h11: visiting trees under every interleaving up to the bounds, with failing
// callbacks and cancellation.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
	vctx "github.com/NVIDIA/vdisc/zzverif/vs/context"
)

type finfo struct {
	name string
	dir  bool
}

func (f *finfo) Name() string       { return f.name }
func (f *finfo) Size() int64        { return 0 }
func (f *finfo) ModTime() time.Time { return time.Time{} }
func (f *finfo) IsDir() bool        { return f.dir }
func (f *finfo) Sys() interface{}   { return nil }
func (f *finfo) Mode() os.FileMode {
	if f.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

var errInjected = errors.New("injected")

type dir struct {
	path    string
	parent  *dir
	files   []os.FileInfo
	reject  bool
	asked   int
	read    int
	visited int
	done    bool // VisitDir returned
}

// world is the tree and the monitor. Monitor state is only touched on the
// explorer.
type world struct {
	dirs     map[string]*dir
	order    []*dir
	pred     bool
	conc     int
	active   int
	failed   bool
	faulty   bool
	cancel   func()
	canceled bool
}

func build(root string, parents []int, files, dots bool) *world {
	w := &world{dirs: map[string]*dir{}}
	ds := make([]*dir, len(parents)+1)
	ds[0] = &dir{path: root}
	for i, p := range parents {
		name := fmt.Sprintf("d%d", i+1)
		path := name
		if ds[p].path != "" {
			path = ds[p].path + "/" + name
		}
		ds[i+1] = &dir{path: path, parent: ds[p]}
		ds[p].files = append(ds[p].files, &finfo{name, true})
	}
	for _, d := range ds {
		if files {
			d.files = append(d.files, &finfo{"f", false})
		}
		if dots {
			d.files = append([]os.FileInfo{&finfo{".", true}, &finfo{"..", true}}, d.files...)
		}
		w.dirs[d.path] = d
		w.order = append(w.order, d)
	}
	return w
}

// begin and end bracket a callback.
func (w *world) begin(what, path string, f func(d *dir)) *dir {
	var d *dir
	vs.Step("fs", func() {
		w.active++
		if w.active > w.conc {
			vs.Fail("too much concurrency", "%d callbacks at once, %d allowed", w.active, w.conc)
		}
		d = w.dirs[path]
		if d == nil {
			vs.Fail("visited what does not exist", "%s %q", what, path)
			return
		}
		if d.parent != nil && !d.parent.done {
			vs.Fail("child before parent", "%s %q", what, path)
		}
		f(d)
	})
	return d
}

func (w *world) end(what string, f func()) error {
	var err error
	vs.Step("fs", func() {
		w.active--
		f()
	})
	if w.faulty {
		switch vs.Fault(2, what) {
		case 1:
			err = errInjected
			vs.Do("fs", func() { w.failed = true })
		case 2:
			vs.Do("fs", func() { w.canceled = true })
			w.cancel()
		}
	}
	return err
}

func (w *world) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	d := w.begin("read", url, func(d *dir) {
		d.read++
		if d.read > 1 {
			vs.Fail("directory read twice", "%q", url)
		}
		if d.reject {
			vs.Fail("visited a rejected directory", "%q", url)
		}
	})
	if err := w.end("read", func() {}); err != nil {
		return nil, err
	}
	return append([]os.FileInfo{}, d.files...), nil
}

type visitor struct{ w *world }

func names(fs []os.FileInfo) string {
	var l []string
	for _, f := range fs {
		l = append(l, fmt.Sprint(f.Name(), f.IsDir()))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (v *visitor) VisitDir(base string, files []os.FileInfo) error {
	d := v.w.begin("visit", base, func(d *dir) {
		d.visited++
		if d.visited > 1 {
			vs.Fail("directory reported twice", "%q", base)
		}
		if names(files) != names(d.files) {
			vs.Fail("wrong directory contents", "%q: %s, want %s", base, names(files), names(d.files))
		}
	})
	return v.w.end("visit", func() { d.done = true })
}

type withPred struct{ *visitor }

func (v withPred) ShouldVisitDir(url string) (bool, error) {
	d := v.w.begin("predicate", url, func(d *dir) { d.asked++ })
	err := v.w.end("predicate", func() {})
	return !d.reject, err
}

type conc int

func (c conc) Concurrency() int { return int(c) }

type order bool

func (o order) DepthFirst() bool { return bool(o) }

func run(parents []int, root string, n int, depth, pred, faulty, canceller bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		w := build(root, parents, !pred, pred)
		w.conc, w.faulty = n, faulty
		if pred {
			for _, d := range w.order {
				d.reject = c.Bool("reject")
			}
		}
		var err error
		res := vs.Run(c, vs.Options{}, func() {
			ctx, cancel := vctx.WithCancel(vctx.Background())
			w.cancel = cancel
			var v driver.Visitor = &visitor{w}
			if pred {
				v = struct {
					withPred
					conc
					order
				}{withPred{&visitor{w}}, conc(n), order(depth)}
			} else if depth {
				v = struct {
					*visitor
					conc
					order
				}{&visitor{w}, conc(n), order(depth)}
			} else if n < 32 {
				v = struct {
					*visitor
					conc
				}{&visitor{w}, conc(n)}
			}
			if canceller {
				vs.Go(func() {
					vs.Step("fs", func() { w.canceled = true })
					cancel()
				})
			}
			err = driver.Visit(ctx, w, root, v)
			vs.Do("fs", func() { w.check(err) })
		})
		c.Assert(len(res.Leaked) == 0, "goroutines left behind", "%s", strings.Join(res.Leaked, "; "))
		c.Outcome(fmt.Sprint(err, w.canceled))
	}
}

func (w *world) admitted(d *dir) bool {
	return d == nil || !d.reject && w.admitted(d.parent)
}

func (w *world) check(err error) {
	if w.failed && err == nil {
		vs.Fail("failure not reported", "visit succeeded although a callback failed")
	}
	if err != nil && !(err == errInjected && w.failed) && !(w.canceled && errors.Is(err, context.Canceled)) {
		vs.Fail("unexplained error", "%v", err)
	}
	if err != nil {
		return
	}
	for _, d := range w.order {
		n := 0
		if w.admitted(d) {
			n = 1
		}
		if d.read != n || d.visited != n || n == 1 && !d.done {
			vs.Fail("directory missed", "%q read %d and reported %d times, want %d (canceled: %v)", d.path, d.read, d.visited, n, w.canceled)
		}
	}
}

func shapes(n int) [][]int {
	out := [][]int{{}}
	var all [][]int
	for k := 1; k <= n; k++ {
		all = append(all, out...)
		var next [][]int
		for _, s := range out {
			for p := 0; p < k; p++ {
				// Canonical: parents in non-decreasing order.
				if len(s) > 0 && p < s[len(s)-1] {
					continue
				}
				next = append(next, append(append([]int{}, s...), p))
			}
		}
		out = next
	}
	return all
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		nodes, p := 4, 1
		if tier == "thorough" {
			nodes, p = 5, 2
		}
		if mc.Race {
			nodes, p = nodes-1, p-1
		}
		var out []mc.Scenario
		for _, s := range shapes(nodes) {
			for _, n := range []int{1, 2, 3, 32} {
				for _, depth := range []bool{false, true} {
					if n == 32 && depth || n > 2 && len(s) < n-1 && n != 32 {
						continue
					}
					for _, pred := range []bool{false, true} {
						if pred && n == 32 {
							continue
						}
						for _, mode := range []string{"plain", "fault", "cancel"} {
							root := ""
							if len(s)%2 == 1 {
								root = "mem:r"
							}
							b := [3]int{p, 0, 0}
							if mode == "fault" {
								b = [3]int{p, 1, 0}
								if len(s) < nodes-1 || tier == "thorough" && !mc.Race {
									b[1] = 2
								}
							}
							out = append(out, mc.Scenario{Name: fmt.Sprint(s, " conc=", n, " depth=", depth, " pred=", pred, " ", mode), Budget: b, Run: run(s, root, n, depth, pred, mode == "fault", mode == "cancel")})
						}
					}
				}
			}
		}
		// Several directories failing at once.
		for _, s := range [][]int{{0, 0, 0}} {
			for _, depth := range []bool{false, true} {
				out = append(out, mc.Scenario{Name: fmt.Sprint(s, " conc=", 4, " depth=", depth, " failing"), Budget: [3]int{0, 3, 0}, Run: run(s, "mem:r", 4, depth, false, true, false)})
			}
		}
		// Larger trees, without preemptions or faults.
		big := 6
		if tier == "thorough" {
			big = 7
		}
		for _, s := range shapes(big) {
			if len(s) < nodes {
				continue
			}
			for _, n := range []int{1, 2} {
				for _, depth := range []bool{false, true} {
					out = append(out, mc.Scenario{Name: fmt.Sprint(s, " conc=", n, " depth=", depth, " big"), Run: run(s, "mem:r", n, depth, false, false, false)})
				}
			}
		}
		return out
	}})
}
