//go:build go1.22

// h22c: clients of the memory store interleaved; what they see must be what
// some order of their operations explains.
package main

import (
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

var bg = context.Background()

const (
	commitX  = iota // commit an object of one byte at x
	commitXX        // commit an object of two bytes at x
	commitY         // commit an object of one byte at d/y
	openX
	statX
	removeX
	listRoot
	nOps
)

var opNames = [nOps]string{"commit x", "commit xx", "commit d/y", "open x", "stat x", "remove x", "list"}

type event struct {
	op, start, end int
	// What it saw: a size or contents, -1 for an error.
	n    int
	text string
}

// state is x's content and whether d exists; empty means there is no x.
type state struct {
	x string
	d bool
}

func (s state) apply(e event) (state, bool) {
	switch e.op {
	case commitX:
		s.x = "1"
		return s, e.n == 0
	case commitXX:
		s.x = "22"
		return s, e.n == 0
	case commitY:
		s.d = true
		return s, e.n == 0
	case openX:
		if s.x == "" {
			return s, e.n == -1
		}
		return s, e.n == 0 && e.text == s.x
	case statX:
		if s.x == "" {
			return s, e.n == -1
		}
		return s, e.n == len(s.x)
	case removeX:
		if s.x == "" {
			return s, e.n == -1
		}
		s.x = ""
		return s, e.n == 0
	default:
		n := 0
		if s.x != "" {
			n += 1 + 2*len(s.x)
		}
		if s.d {
			n += 100
		}
		return s, e.n == n
	}
}

func explained(s state, left []event) bool {
	if len(left) == 0 {
		return true
	}
next:
	for i, e := range left {
		for _, f := range left {
			if f.end < e.start {
				continue next
			}
		}
		if t, ok := s.apply(e); ok {
			rest := append(append([]event{}, left[:i]...), left[i+1:]...)
			if explained(t, rest) {
				return true
			}
		}
	}
	return false
}

func do(d *ramdriver.Driver, op int, e *event) driver.Object {
	var o driver.Object
	var err error
	switch op {
	case commitX, commitXX, commitY:
		url := "ram:x"
		data := []byte("1")
		if op == commitXX {
			data = []byte("22")
		}
		if op == commitY {
			url = "ram:d/y"
		}
		w, err1 := d.Create(bg, url)
		err = err1
		if err == nil {
			for i := range data {
				w.Write(data[i : i+1])
			}
			_, err = w.Commit()
			for i := range data {
				data[i] = '?'
			}
		}
	case openX:
		if o, err = d.Open(bg, "ram:x", -1); err == nil {
			var b []byte
			if b, err = io.ReadAll(o); err == nil {
				e.text = string(b)
			}
		}
	case statX:
		fi, err1 := d.Stat(bg, "ram:x")
		if err = err1; err == nil {
			e.n = int(fi.Size())
		}
	case removeX:
		err = d.Remove(bg, "ram:x")
	case listRoot:
		fis, err1 := d.Readdir(bg, "ram:///")
		err = err1
		for _, fi := range fis {
			switch {
			case fi.Name() == "x":
				e.n += 1 + 2*int(fi.Size())
			case fi.Name() == "d" && fi.IsDir():
				e.n += 100
			case fi.Name() == "." || fi.Name() == "..":
			default:
				e.n += 1000
			}
		}
	}
	if err != nil {
		e.n = -1
	}
	return o
}

type cfg struct{ clients, length, preempt int }

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		var prog [][]int
		for i := 0; i < k.clients; i++ {
			var l []int
			for j := 0; j < k.length; j++ {
				l = append(l, c.Choose(nOps, "operation"))
			}
			if i > 0 && fmt.Sprint(l) < fmt.Sprint(prog[i-1]) {
				return
			}
			prog = append(prog, l)
		}
		present := c.Bool("present")
		var events []event
		var seen []string
		vs.Run(c, vs.Options{}, func() {
			d := ramdriver.NewDriver()
			if present {
				do(d, commitX, &event{})
			}
			clock := 0
			done := make(chan struct{}, len(prog))
			for _, l := range prog {
				l := l
				vs.Go(func() {
					for _, op := range l {
						e := event{op: op}
						vs.Do("start", func() { e.start = clock; clock++ })
						o := do(d, op, &e)
						vs.Do("end", func() { e.end = clock; clock++; events = append(events, e) })
						if o != nil && e.n == 0 {
							// What was opened stays what it was.
							vs.Yield()
							b := make([]byte, 4)
							n, _ := o.ReadAt(b, 0)
							same := string(b[:n]) == e.text
							vs.Do("again", func() {
								if !same {
									vs.Fail("opened object changes", "%q", e.text)
								}
							})
						}
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for range prog {
				vs.Recv((<-chan struct{})(done))
			}
		})
		for _, e := range events {
			seen = append(seen, fmt.Sprintf("%s=%d%q[%d,%d]", opNames[e.op], e.n, e.text, e.start, e.end))
		}
		if c.Pruned() {
			return
		}
		s := state{}
		if present {
			s.x = "1"
		}
		c.Assert(explained(s, events), "no order explains the results", "%s", strings.Join(seen, " "))
		c.Outcome(fmt.Sprint(k, strings.Join(seen, " ")))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		var out []mc.Scenario
		add := func(k cfg) {
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, 0, 0}, Run: run(k)})
		}
		d := 2
		if tier == "thorough" {
			d = 3
		}
		if mc.Race {
			d--
		}
		add(cfg{2, 2, d})
		add(cfg{3, 1, d})
		return out
	}})
}
