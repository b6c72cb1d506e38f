//go:build go1.22

// h28c: the registry under concurrent use.
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/zzverif/mc"
	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type standin struct{ name string }

func (s *standin) Name() string { return s.name }
func (s *standin) Open(context.Context, string, int64) (driver.Object, error) {
	return nil, os.ErrInvalid
}
func (s *standin) Stat(context.Context, string) (os.FileInfo, error) { return nil, os.ErrInvalid }

const (
	register = iota
	find
	list
	clear
	nOps
)

type event struct {
	op, start, end, by int
	ok                 bool
	n                  int // scheme list length, or whose driver was found
}

// state is who registered at each level of replacement; 0 is nobody.
type state struct{ cur int }

func explained(s state, left []event) bool {
	if len(left) == 0 {
		return true
	}
next:
	for i, e := range left {
		for _, f := range left {
			if f.end < e.start {
				continue next
			}
		}
		t, ok := s, false
		switch e.op {
		case register:
			ok = e.ok == (s.cur == 0)
			if e.ok {
				t.cur = e.by
			}
		case find:
			ok = e.ok == (s.cur != 0) && (!e.ok || e.n == s.cur)
		case list:
			n := 0
			if s.cur != 0 {
				n = 1
			}
			ok = e.n == n
		case clear:
			t.cur = 0
			ok = true
		}
		if ok && explained(t, append(append([]event{}, left[:i]...), left[i+1:]...)) {
			return true
		}
	}
	return false
}

func do(op, by int, d driver.Driver, e *event) {
	e.by = by
	switch op {
	case register:
		func() {
			defer func() { e.ok = recover() == nil }()
			driver.Register("one", d)
		}()
	case find:
		f, err := driver.Find("one:x")
		e.ok = err == nil
		if err == nil {
			e.n = int(f.Name()[0] - '0')
		}
	case list:
		e.n = len(driver.Drivers())
	case clear:
		driver.ClearRegistry()
	}
}

type cfg struct{ clients, length, preempt int }

func run(k cfg) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		var prog [][]int
		for i := 0; i < k.clients; i++ {
			var l []int
			for j := 0; j < k.length; j++ {
				l = append(l, c.Choose(nOps, "operation"))
			}
			if i > 0 && fmt.Sprint(l) < fmt.Sprint(prog[i-1]) {
				return
			}
			prog = append(prog, l)
		}
		var events []event
		var left []string
		var undone bool
		vs.Run(c, vs.Options{}, func() {
			undo := driver.ClearRegistry()
			driver.Register("kept", &standin{"9"})
			inner := driver.ClearRegistry()
			clock := 0
			done := make(chan struct{}, len(prog))
			for i, l := range prog {
				i, l := i+1, l
				d := &standin{string(rune('0' + i))}
				vs.Go(func() {
					for _, op := range l {
						e := event{op: op}
						vs.Do("start", func() { e.start = clock; clock++ })
						do(op, i, d, &e)
						vs.Do("end", func() { e.end = clock; clock++; events = append(events, e) })
					}
					vs.SendTo((chan<- struct{})(done))(struct{}{})
				})
			}
			for range prog {
				vs.Recv((<-chan struct{})(done))
			}
			inner()
			l := driver.Drivers()
			f, err := driver.Find("kept:x")
			ok := err == nil && f.Name() == "9"
			vs.Do("undone", func() { left, undone = l, ok })
			undo()
		})
		if c.Pruned() {
			return
		}
		c.Assert(explained(state{}, events), "no order explains the results", "%+v", events)
		c.Assert(undone && len(left) == 1 && left[0] == "kept", "not undone", "%v", left)
		c.Outcome(fmt.Sprint(k, len(events)))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		var out []mc.Scenario
		add := func(k cfg) {
			out = append(out, mc.Scenario{Name: fmt.Sprintf("%+v", k), Budget: [3]int{k.preempt, 0, 0}, Run: run(k)})
		}
		d := 3
		if tier == "thorough" {
			d = 4
		}
		if mc.Race {
			d--
		}
		add(cfg{2, 2, d})
		add(cfg{3, 1, d})
		return out
	}})
}
