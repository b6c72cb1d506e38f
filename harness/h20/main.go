//go:build go1.22

// h20: advisory locks taken by holders in several processes.
package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// grace is how long a lock that must not be granted is watched. A longer wait
// cannot turn a pass into a failure, nor a shorter one a failure into a pass.
const grace = 12 * time.Millisecond

// patience is how long something that must happen may take.
const patience = 20 * time.Second

// child serves the holders of one process.
func child() {
	d := &filedriver.Driver{}
	in := bufio.NewScanner(os.Stdin)
	out := make(chan string)
	go func() {
		for s := range out {
			fmt.Println(s)
		}
	}()
	held := map[string]io.Closer{}
	got := make(chan struct{}, 1)
	got <- struct{}{}
	for in.Scan() {
		w := strings.Fields(in.Text())
		switch w[0] {
		case "ex", "sh":
			go func() {
				var c io.Closer
				var err error
				if w[0] == "ex" {
					c, err = d.Lock(context.Background(), w[2])
				} else {
					c, err = d.RLock(context.Background(), w[2])
				}
				if err != nil {
					out <- "err " + w[1] + " " + strings.ReplaceAll(err.Error(), "\n", " ")
					return
				}
				<-got
				held[w[1]] = c
				got <- struct{}{}
				out <- "got " + w[1]
			}()
		case "rel":
			<-got
			c := held[w[1]]
			delete(held, w[1])
			got <- struct{}{}
			if err := c.Close(); err != nil {
				out <- "err " + w[1] + " " + err.Error()
			} else {
				out <- "rel " + w[1]
			}
		}
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	ev  chan string
}

func spawn() *proc {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p := &proc{cmd: exec.Command(self), ev: make(chan string, 100)}
	p.cmd.Env = append(os.Environ(), "VP_CHILD=1")
	p.in, err = p.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	ev := p.ev
	go func() {
		s := bufio.NewScanner(out)
		for s.Scan() {
			ev <- s.Text()
		}
		close(ev)
	}()
	return p
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

var procs [2]*proc // kept from one execution to the next

const (
	idle = iota
	waiting
	holding
	releasing
)

type holder struct {
	proc  int
	state int
	ex    bool
	path  int
}

var paths = []string{"have", "new/dir/lock"}

var scratch string
var execs int

type world struct {
	c   *mc.Ctx
	dir string
	hs  []*holder
	log []string
}

func (w *world) fail(key, format string, args ...interface{}) {
	w.c.Fail(key, "%s: %s", strings.Join(w.log, ", "), fmt.Sprintf(format, args...))
}

// fits is true if the holder's lock is compatible with those held.
func (w *world) fits(h *holder) bool {
	for _, o := range w.hs {
		if o != h && o.state == holding && o.path == h.path && (o.ex || h.ex) {
			return false
		}
	}
	return true
}

// event takes one event, if there is one in time.
func (w *world) event(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	var s string
	var ok bool
	from := 0
	select {
	case s, ok = <-procs[0].ev:
	case s, ok = <-procs[1].ev:
		from = 1
	case <-t.C:
		return false
	}
	if !ok {
		panic("a process of the harness ended")
	}
	f := strings.Fields(s)
	i := int(f[1][0] - '0')
	h := w.hs[i]
	if h.proc != from {
		panic("event of another process")
	}
	switch f[0] {
	case "err":
		w.fail("lock operation failed", "%s", s)
	case "got":
		if h.state != waiting {
			w.fail("lock granted unasked", "%s", s)
		}
		if !w.fits(h) {
			w.fail("conflicting locks held", "holder %d has got its lock", i)
		}
		if _, err := os.Stat(filepath.Join(w.dir, paths[h.path])); err != nil {
			w.fail("lock object missing", "%v", err)
		}
		h.state = holding
	case "rel":
		h.state = idle
	}
	return true
}

// settle waits until everything that can be granted is, then watches that
// nothing else is.
func (w *world) settle() {
	for {
		can, blocked := false, false
		for _, h := range w.hs {
			if h.state == waiting {
				blocked = true
				can = can || w.fits(h)
			}
		}
		if can {
			if !w.event(patience) {
				w.fail("lock never becomes available", "%v", w)
			}
			continue
		}
		if !blocked || !w.event(grace) {
			return
		}
	}
}

func (w *world) String() string {
	var out []string
	for i, h := range w.hs {
		out = append(out, fmt.Sprintf("%d:%s/%v/%d", i, []string{"idle", "waiting", "holding", "releasing"}[h.state], h.ex, h.path))
	}
	return strings.Join(out, " ")
}

func (w *world) send(h int, what string) {
	if _, err := fmt.Fprintf(procs[w.hs[h].proc].in, "%s\n", what); err != nil {
		panic(err)
	}
}

// release gives a lock back. Another holder may get it before the release has
// returned.
func (w *world) release(h int) {
	w.hs[h].state = releasing
	w.send(h, fmt.Sprintf("rel %d", h))
	for w.hs[h].state == releasing {
		if !w.event(patience) {
			w.fail("release hangs", "%v", w)
		}
	}
}

func (w *world) die(p int) {
	procs[p].kill()
	procs[p] = spawn()
	for _, h := range w.hs {
		if h.proc == p {
			h.state = idle
		}
	}
}

func run(where, on []int, depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		execs++
		w := &world{c: c, dir: filepath.Join(scratch, fmt.Sprintf("locks%d", execs))}
		for _, p := range where {
			w.hs = append(w.hs, &holder{proc: p})
		}
		for i := range procs {
			if procs[i] == nil {
				procs[i] = spawn()
			}
		}
		if err := os.Mkdir(w.dir, 0755); err != nil {
			panic(err)
		}
		defer os.RemoveAll(w.dir)
		const content = "contents"
		have := filepath.Join(w.dir, paths[0])
		if err := os.WriteFile(have, []byte(content), 0644); err != nil {
			panic(err)
		}
		defer func() {
			busy := false
			for _, h := range w.hs {
				busy = busy || h.state != idle
			}
			if busy || c.Failed() {
				for i := range procs {
					procs[i].kill()
					procs[i] = nil
				}
			}
		}()
		for n := 0; n < depth; n++ {
			type op struct {
				name string
				f    func()
			}
			ops := []op{{"end", nil}}
			for i, h := range w.hs {
				i, h := i, h
				switch h.state {
				case idle:
					for _, p := range on {
						for _, ex := range []bool{true, false} {
							p, ex := p, ex
							kind := "sh"
							if ex {
								kind = "ex"
							}
							ops = append(ops, op{fmt.Sprintf("%s%d %s", kind, i, paths[p]), func() {
								h.state, h.ex, h.path = waiting, ex, p
								w.send(i, fmt.Sprintf("%s %d %s", kind, i, filepath.Join(w.dir, paths[p])))
							}})
						}
					}
				case holding:
					ops = append(ops, op{fmt.Sprintf("release%d", i), func() {
						w.release(i)
					}})
				}
			}
			for p := range procs {
				for _, h := range w.hs {
					if h.proc == p && h.state != idle {
						p := p
						ops = append(ops, op{fmt.Sprintf("die%d", p), func() { w.die(p) }})
						break
					}
				}
			}
			k := c.Choose(len(ops), "operation")
			if k == 0 {
				break
			}
			w.log = append(w.log, ops[k].name)
			ops[k].f()
			w.settle()
			c.Step()
			c.State(w.String())
		}
		// Everything can be given back.
		for {
			i := 0
			for i < len(w.hs) && w.hs[i].state != holding {
				i++
			}
			if i == len(w.hs) {
				break
			}
			w.log = append(w.log, fmt.Sprintf("release%d", i))
			w.release(i)
			w.settle()
		}
		for i, h := range w.hs {
			if h.state != idle {
				w.fail("lock never becomes available", "holder %d", i)
			}
		}
		b, err := os.ReadFile(have)
		c.Assert(err == nil && string(b) == content, "locked object changed", "%v: %q %v", w.log, b, err)
		c.Outcome(w.String())
	}
}

func main() {
	if os.Getenv("VP_CHILD") != "" {
		child()
		return
	}
	mc.Main(mc.Def{
		HangS: 300,
		Setup: func(s string) { scratch = s },
		Scenarios: func(tier string) []mc.Scenario {
			x := 0
			if tier == "thorough" {
				x = 1
			}
			return []mc.Scenario{
				{Name: "two processes", Run: run([]int{0, 0, 1}, []int{0}, 5+x), NoPrune: true},
				{Name: "missing object", Run: run([]int{0, 0, 1}, []int{1}, 4+x), NoPrune: true},
				{Name: "two objects", Run: run([]int{0, 1}, []int{0, 1}, 5+x), NoPrune: true},
			}
		}})
}
