//go:build go1.22

// Package mc is a stateless explicit exploration engine: a scenario is a
// function whose nondeterminism is all drawn from a Ctx, and the engine runs
// it once for every sequence of choices within the budgets.
package mc

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// Budget kinds.
const (
	Preempt = iota
	Fault
	Other
	nKinds
)

// Scenario is one bounded space to explore exhaustively.
type Scenario struct {
	Name   string
	Budget [nKinds]int // deviations allowed per execution, by kind
	Run    func(c *Ctx)
	// NoPrune disables state caching for the scenario.
	NoPrune bool
}

type frame struct {
	choice int // current alternative
	limit  int // alternatives this job explores
	n      int // alternatives that exist (0: unknown)
}

// Ctx is one execution.
type Ctx struct {
	w      *worker
	sc     *Scenario
	pos    int
	used   [nKinds]int
	key    string
	msg    string
	failed bool
	pruned bool
	tracen int
	trace  []string
	replay bool
	// Aux is for the scheduler.
	Aux interface{}
	// Past identifies the choices made so far.
	Past uint64
	// OnChoose is told of every choice.
	OnChoose func(r int)
}

type stopExec struct{}

// IsStop reports whether a recovered value ends the execution.
func IsStop(r interface{}) bool { _, ok := r.(stopExec); return ok }

type worker struct {
	sc      *Scenario
	frames  []frame
	base    int
	visited map[uint64]uint32
	states  map[uint64]struct{}
	newst   []uint64
	outs    map[string]int64
	execs   int64
	steps   int64
	pruned  int64
	diverg  int64
	nontriv int64
	known   map[string]bool
	khits   map[string]string
	log     bool
	status  []byte // mmapped choice record, for post-mortem
	started atomic.Int64
	viol    *Violation
	sample  []string
}

// Violation is one failing execution.
type Violation struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace,omitempty"`
}

const maxStates = 3000000

// Choose makes a free choice among n alternatives; all are explored.
func (c *Ctx) Choose(n int, label string) int {
	if n <= 0 {
		panic("mc: Choose(0) " + label)
	}
	if n == 1 {
		return 0
	}
	w := c.w
	var ch int
	if c.pos < len(w.frames) {
		f := &w.frames[c.pos]
		if f.n == 0 {
			f.n = n
			if f.limit <= 0 || f.limit > n {
				f.limit = n
			}
			if f.choice >= n {
				w.diverg++
				f.choice = n - 1
			}
		} else if f.n != n {
			w.diverg++
			if f.choice >= n {
				// The code under test is not deterministic here; fold the
				// choice back into range and carry on.
				f.choice = n - 1
			}
			f.n = n
			if f.limit > n {
				f.limit = n
			}
		}
		ch = f.choice
	} else {
		w.frames = append(w.frames, frame{choice: 0, limit: n, n: n})
	}
	if len(w.status) > 0 && c.pos*2+10 < len(w.status) {
		binary.LittleEndian.PutUint16(w.status[8+c.pos*2:], uint16(ch))
		binary.LittleEndian.PutUint32(w.status[0:], uint32(c.pos+1))
	}
	c.pos++
	c.Past = (c.Past ^ uint64(ch+1)) * 1099511628211
	if c.OnChoose != nil {
		c.OnChoose(ch)
	}
	if c.replay || w.log {
		c.Logf("choose %s: %d of %d", label, ch, n)
	}
	return ch
}

// Deviate chooses among n alternatives of which alternative 0 is the default
// and any other costs one unit of the given budget.
func (c *Ctx) Deviate(kind, n int, label string) int {
	if n <= 1 || c.used[kind] >= c.sc.Budget[kind] {
		return 0
	}
	ch := c.Choose(n, label)
	if ch != 0 {
		c.used[kind]++
	}
	return ch
}

// Left is the remaining budget of a kind.
func (c *Ctx) Left(kind int) int { return c.sc.Budget[kind] - c.used[kind] }

// Used is the consumed budget of a kind.
func (c *Ctx) Used(kind int) int { return c.used[kind] }

// Pick returns one of the items.
func Pick[T any](c *Ctx, label string, items ...T) T {
	return items[c.Choose(len(items), label)]
}

// Bool chooses false first, then true.
func (c *Ctx) Bool(label string) bool { return c.Choose(2, label) == 1 }

// Logging reports whether trace lines are kept.
func (c *Ctx) Logging() bool { return c.replay || c.w.log }

// Logf adds a line to the trace of this execution.
func (c *Ctx) Logf(format string, args ...interface{}) {
	if !c.replay && !c.w.log {
		return
	}
	c.tracen++
	if c.tracen > 4000 {
		return
	}
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

// Hash hashes its arguments' text.
func Hash(args ...interface{}) uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h *= 1099511628211
	}
	for _, a := range args {
		switch v := a.(type) {
		case string:
			add(v)
		case []byte:
			add(string(v))
		default:
			add(fmt.Sprint(v))
		}
	}
	return h
}

// State records a reached canonical state.
func (c *Ctx) State(args ...interface{}) { c.StateHash(Hash(args...)) }

// StateHash records a reached canonical state by fingerprint.
func (c *Ctx) StateHash(h uint64) {
	w := c.w
	if len(w.states) < maxStates {
		h ^= Hash(c.sc.Name)
		if _, ok := w.states[h]; !ok {
			w.states[h] = struct{}{}
			w.newst = append(w.newst, h)
		}
	}
}

// Step counts transitions.
func (c *Ctx) Step() { c.w.steps++ }

// Steps counts n transitions.
func (c *Ctx) Steps(n int) { c.w.steps += int64(n) }

// Outcome records the class of an execution's result.
func (c *Ctx) Outcome(s string) {
	if len(c.w.outs) < 2000 {
		c.w.outs[s]++
	} else if _, ok := c.w.outs[s]; ok {
		c.w.outs[s]++
	}
}

// Prune reports whether the state was already explored with at least the
// remaining budget. It never prunes inside the replayed prefix.
func (c *Ctx) Prune(h uint64) bool {
	if c.sc.NoPrune || c.replay || c.pos < len(c.w.frames) {
		return false
	}
	left := uint32(0)
	for k := 0; k < nKinds; k++ {
		l := c.Left(k)
		if l > 255 {
			l = 255
		}
		left = left<<8 | uint32(l)
	}
	h ^= Hash(c.sc.Name)
	if old, ok := c.w.visited[h]; ok {
		cover := true
		for k := 0; k < nKinds; k++ {
			if (old>>(8*k))&255 < (left>>(8*k))&255 {
				cover = false
			}
		}
		if cover {
			c.pruned = true
			return true
		}
	}
	if len(c.w.visited) < 3*maxStates {
		c.w.visited[h] = left
	}
	return false
}

// Pruned reports whether this execution was cut short by Prune.
func (c *Ctx) Pruned() bool { return c.pruned }

// SetFail records a violation without stopping the caller.
func (c *Ctx) SetFail(key, format string, args ...interface{}) {
	if c.failed {
		return
	}
	c.failed = true
	c.key = key
	c.msg = fmt.Sprintf(format, args...)
}

// Failed reports whether a violation was recorded.
func (c *Ctx) Failed() bool { return c.failed }

// Fail records a violation and ends the execution. It must be called on the
// goroutine running the scenario.
func (c *Ctx) Fail(key, format string, args ...interface{}) {
	c.SetFail(key, format, args...)
	panic(stopExec{})
}

// Assert fails unless cond holds.
func (c *Ctx) Assert(cond bool, key, format string, args ...interface{}) {
	if !cond {
		c.Fail(key, format, args...)
	}
}

// Skip ends the execution as uninteresting.
func (c *Ctx) Skip() { panic(stopExec{}) }

// RepoFrames extracts the frames of a stack that belong to the code under test.
func RepoFrames(stack string) []string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "NVIDIA/vdisc/pkg/") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l[strings.LastIndex(l, "/")+1:])
		}
	}
	return out
}

// PanicKey makes a stable finding key from a recovered panic.
func PanicKey(stack string) string {
	fr := RepoFrames(stack)
	if len(fr) > 0 {
		return "panic in " + fr[0]
	}
	return "panic"
}

func (w *worker) exec() {
	c := &Ctx{w: w, sc: w.sc, replay: w.log}
	w.execs++
	if len(w.status) > 0 {
		binary.LittleEndian.PutUint32(w.status[0:], 0)
	}
	w.started.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopExec); ok {
					return
				}
				buf := make([]byte, 1<<16)
				st := string(buf[:runtime.Stack(buf, false)])
				// Only a panic raised by the code under test is a finding;
				// anything else is a fault of the harness.
				if len(RepoFrames(st)) == 0 {
					fmt.Fprintf(os.Stderr, "harness panic in %s: %v\n%s\n", w.sc.Name, r, st)
					os.Exit(70)
				}
				c.SetFail(PanicKey(st), "panic: %v\n%s", r, trimStack(st))
			}
		}()
		w.sc.Run(c)
	}()
	w.started.Store(0)
	if c.pos < len(w.frames) {
		// The execution consumed fewer choices than the prefix.
		w.frames = w.frames[:c.pos]
	}
	if c.pruned {
		w.pruned++
	}
	if c.failed {
		if w.known[c.key] {
			if _, ok := w.khits[c.key]; !ok {
				w.khits[c.key] = c.msg
			}
		} else if w.viol == nil {
			v := &Violation{Scenario: w.sc.Name, Key: c.key, Msg: c.msg, Trace: c.trace}
			for i := 0; i < c.pos; i++ {
				v.Choices = append(v.Choices, w.frames[i].choice)
			}
			w.viol = v
		}
	}
	if w.log {
		w.sample = c.trace
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// next advances to the next unexplored choice sequence; false when done.
func (w *worker) next() bool {
	for i := len(w.frames) - 1; i >= w.base; i-- {
		f := &w.frames[i]
		if f.choice+1 < f.limit {
			f.choice++
			w.frames = w.frames[:i+1]
			return true
		}
		w.frames = w.frames[:i]
	}
	return false
}

// donate gives away the unexplored alternatives of the shallowest open frame.
func (w *worker) donate() *Job {
	for i := w.base; i < len(w.frames); i++ {
		f := &w.frames[i]
		if f.choice+1 < f.limit {
			j := &Job{Lo: f.choice + 1, Hi: f.limit}
			for k := 0; k < i; k++ {
				j.Prefix = append(j.Prefix, w.frames[k].choice)
			}
			f.limit = f.choice + 1
			return j
		}
	}
	return nil
}

func (w *worker) start(j *Job) {
	w.frames = w.frames[:0]
	for _, p := range j.Prefix {
		w.frames = append(w.frames, frame{choice: p, limit: p + 1})
	}
	w.base = len(j.Prefix)
	if j.Hi > 0 {
		w.frames = append(w.frames, frame{choice: j.Lo, limit: j.Hi})
	}
}

// Default runs an execution with default choices that is not part of the
// exploration, to bring what a process does only once behind it.
func Default(run func(*Ctx)) {
	w := newWorker(nil)
	w.sc = &Scenario{Name: "default", Run: run}
	w.exec()
}
