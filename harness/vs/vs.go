//go:build go1.22

// Package vs is a controlled scheduler: code whose synchronisation goes
// through it runs one goroutine at a time, and which one runs next is decided
// by the explorer. Instrumented copies of packages use the shims below this
// directory in place of sync, sync/atomic, time, context, io and math/rand.
package vs

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"

	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// Operation kinds.
const (
	kStart = iota
	kReady
	kEvent
	kLock   // lock-like: enabled by a predicate on the object
	kChan   // channel operation or select
	kClose  // channel close
	kSleep  // until a virtual time
	kCall   // run a function on the explorer
	kBlock  // never enabled
	kFail   // a violation found by a goroutine
	kIdle   // until nothing else can run
	kFinish // goroutine ended
)

// Obj is the scheduler's view of a synchronisation object.
type Obj struct {
	exec uint64
	id   uint64
	h    uint64
}

// Waiter is implemented by lock-like objects.
type Waiter interface {
	// Ready reports whether the pending operation may proceed.
	Ready(mode int) bool
}

// Case is one communication of a select.
type Case interface {
	hdr() *caseHdr
	do()
	state() (n, capacity int)
}

type caseHdr struct {
	ptr  unsafe.Pointer
	send bool
}

// G is a controlled goroutine.
type G struct {
	idx   int
	path  uint64
	name  string
	h     uint64
	nobj  uint64
	nkids int
	wake  chan struct{}

	kind    int
	obj     *Obj
	ptr     unsafe.Pointer
	waiter  Waiter
	mode    int
	cases   []Case
	dflt    bool
	chosen  int
	rv      bool // perform the chosen case, then park
	until   int64
	fn      func()
	label   string
	pcs     [24]uintptr
	npc     int
	done    bool
	started bool
	abort   bool
	fkey    string
	fmsg    string
	daemon  bool
}

// Options configure a run.
type Options struct {
	// MaxSteps bounds one execution; more is reported as no progress.
	MaxSteps int
	// EarlyTimers lets timers fire before quiescence, at the cost of one
	// unit of the Other budget each.
	EarlyTimers bool
	// DrainTimers is how many timers may fire after the body returned.
	DrainTimers int
	// Delays makes every departure from round-robin order at a blocking
	// point cost a preemption as well.
	Delays bool
	// QuietReaders ignores read locks while there was no write lock.
	QuietReaders bool
	// NoStates neither counts scheduler states nor prunes on them, for
	// runs that explore something else than schedules.
	NoStates bool
	Start    int64
}

// Result is what a run left.
type Result struct {
	Leaked []string
	Steps  int
	Now    int64
}

type timer struct {
	when  int64
	seq   int
	fire  func()
	dead  bool
	setBy uint64
}

type sched struct {
	c        *mc.Ctx
	o        Options
	exec     uint64
	gs       []*G
	cur      *G
	back     chan *G
	live     int
	aborting bool
	inCall   bool
	objs     map[unsafe.Pointer]*Obj
	named    map[string]*Obj
	closed   map[unsafe.Pointer]bool
	timers   []*timer
	tseq     int
	now      int64
	steps    int
	fkey     string
	fmsg     string
	failed   bool
	mainDone bool
	rnd      uint64
	th       uint64 // hash of the early timer history
	end      int
	edge     int
	drained  int
	stopped  bool
	picking  bool
	adhoc    []func()
}

var s *sched
var execs uint64

const epoch = int64(1600000000) * 1e9

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	return a
}

func hstr(t string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(t); i++ {
		h = (h ^ uint64(t[i])) * 1099511628211
	}
	return h
}

// Active reports whether the caller is a controlled goroutine.
//
//go:norace
//go:noinline
func Active() bool { return s != nil && !s.inCall }

// active reports whether operations are to be scheduled.
func active() bool { return s != nil && !s.inCall && !s.aborting }

// Aborting reports whether the execution is being unwound.
//
//go:norace
//go:noinline
func Aborting() bool { return s != nil && s.aborting && !s.inCall }

func (s *sched) fresh(parent *G) *G {
	g := &G{idx: len(s.gs), wake: make(chan struct{}, 1), kind: kStart}
	if parent == nil {
		g.path, g.name = 1, "0"
	} else {
		g.path = mix(parent.path, uint64(parent.nkids)+77)
		g.name = parent.name + "." + itoa(parent.nkids)
		parent.nkids++
		g.h = mix(parent.h, 3)
		parent.h = mix(parent.h, 4)
	}
	s.gs = append(s.gs, g)
	s.live++
	return g
}

// park hands control to the explorer and waits to be granted.
func (g *G) park() {
	sc := s
	raceReleaseMerge(unsafe.Pointer(&sc.edge))
	raceDisable()
	if sc.c.Logging() {
		g.npc = runtime.Callers(2, g.pcs[:])
	}
	sc.back <- g
	<-g.wake
	raceEnable()
	if g.abort {
		// Unwinding is sequential.
		raceAcquire(unsafe.Pointer(&sc.edge))
		runtime.Goexit()
	}
}

func itoa(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return itoa(n/10) + itoa(n%10)
}

// site is where a goroutine waits. Only the explorer may format.
func (g *G) site() string {
	if g.npc == 0 {
		return ""
	}
	fr := runtime.CallersFrames(g.pcs[:g.npc])
	out := ""
	k := 0
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "zzverif/vs") && !strings.HasPrefix(f.Function, "runtime.") {
			fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
			file := f.File[strings.LastIndex(f.File, "/")+1:]
			if out != "" {
				out += " < "
			}
			out += fmt.Sprintf("%s %s:%d", fn, file, f.Line)
			k++
			if k == 2 {
				break
			}
		}
		if !more {
			break
		}
	}
	return out
}

// Go starts a controlled goroutine.
//
//go:norace
//go:noinline
func Go(f func()) {
	if Aborting() {
		return
	}
	if !active() {
		panic("vs: go statement outside a controlled run")
	}
	raceDisable() // formatting shares a pool of buffers
	g := s.fresh(s.cur)
	raceEnable()
	sc := s
	go sc.main(g, f)
}

func (s *sched) main(g *G, f func()) {
	raceDisable()
	<-g.wake
	raceEnable()
	normal := false
	defer func() {
		if !normal && !g.abort {
			if r := recover(); mc.IsStop(r) {
				s.stopped = true
			} else if r != nil {
				buf := make([]byte, 1<<16)
				st := string(buf[:runtime.Stack(buf, false)])
				g.fkey, g.fmsg = mc.PanicKey(st), fmt.Sprintf("panic: %v\n%s", r, st)
				if len(mc.RepoFrames(st)) == 0 {
					fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, st)
					os.Exit(70)
				}
			}
			// else: the goroutine called Goexit itself
		}
		if g.abort {
			recover()
		}
		g.kind = kFinish
		g.done = true
		raceReleaseMerge(unsafe.Pointer(&s.edge))
		raceDisable()
		s.back <- g
		raceEnable()
	}()
	if g.abort {
		return
	}
	f()
	normal = true
}

func (s *sched) obj(g *G, o *Obj, p unsafe.Pointer) *Obj {
	if o == nil {
		if p == nil {
			return nil
		}
		o = s.objs[p]
		if o == nil {
			o = &Obj{}
			s.objs[p] = o
		}
	}
	if o.exec != s.exec {
		o.exec = s.exec
		g.nobj++
		o.id = mix(g.path, g.nobj)
		o.h = 0
	}
	return o
}

func (s *sched) event(g *G, o *Obj, what uint64) {
	if o != nil {
		g.h = mix(mix(g.h, o.h), mix(o.id, what))
		o.h = g.h
	} else {
		g.h = mix(g.h, what)
	}
}

func (s *sched) partner(g *G, h *caseHdr) (*G, int) {
	for _, q := range s.gs {
		if q == g || q.done || q.kind != kChan || q.dflt {
			continue
		}
		for i, c := range q.cases {
			if k := c.hdr(); k.ptr == h.ptr && k.send != h.send {
				return q, i
			}
		}
	}
	return nil, 0
}

func (s *sched) caseReady(g *G, c Case) bool {
	h := c.hdr()
	if h.ptr == nil {
		return false
	}
	if s.closed[h.ptr] {
		return true
	}
	n, k := c.state()
	if h.send {
		if n < k {
			return true
		}
	} else if n > 0 {
		return true
	}
	if k == 0 {
		q, _ := s.partner(g, h)
		return q != nil
	}
	return false
}

func (s *sched) enabled(g *G) bool {
	switch g.kind {
	case kStart, kReady, kEvent, kClose:
		return true
	case kLock:
		return g.waiter.Ready(g.mode)
	case kChan:
		if g.dflt {
			return true
		}
		for _, c := range g.cases {
			if s.caseReady(g, c) {
				return true
			}
		}
		return false
	}
	return false
}

// grant lets g perform its pending operation. It returns how many goroutines
// will hand control back.
func (s *sched) grant(g *G) int {
	n := 1
	s.steps++
	s.c.Step()
	switch g.kind {
	case kChan:
		var ready []int
		for i, c := range g.cases {
			if s.caseReady(g, c) {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			g.chosen = -1
			for _, c := range g.cases {
				if p := c.hdr().ptr; p != nil {
					s.event(g, s.obj(g, nil, p), 11)
				}
			}
			s.log(g, "select default")
			break
		}
		i := ready[0]
		if len(ready) > 1 {
			i = ready[s.pick(len(ready), "select case")]
		}
		g.chosen = i
		h := g.cases[i].hdr()
		o := s.obj(g, nil, h.ptr)
		what := uint64(12 + i*2)
		if h.send {
			what++
		}
		s.event(g, o, what)
		_, k := g.cases[i].state()
		if k == 0 && !s.closed[h.ptr] {
			q, j := s.partner(g, h)
			q.chosen = j
			q.rv = true
			q.h = mix(mix(q.h, g.h), uint64(j))
			g.h = mix(g.h, q.h)
			o.h = g.h
			s.log(g, "rendezvous with "+q.name)
			n = 2
			raceDisable()
			q.wake <- struct{}{}
			raceEnable()
		} else if h.send {
			s.log(g, "send")
		} else {
			s.log(g, "receive")
		}
	case kClose:
		s.event(g, s.obj(g, nil, g.ptr), 7)
		s.closed[g.ptr] = true
		s.log(g, "close")
	case kLock:
		s.event(g, s.obj(g, g.obj, g.ptr), uint64(20+g.mode))
		s.log(g, g.label)
	case kEvent:
		s.event(g, s.obj(g, g.obj, g.ptr), uint64(40+g.mode))
		s.log(g, g.label)
	case kStart:
		s.log(g, "start")
	}
	s.cur = g
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
	return n
}

func (s *sched) log(g *G, what string) {
	if s.c.Logging() {
		s.c.Logf("[%s] %s  @ %s", g.name, what, g.site())
	}
}

func (s *sched) fingerprint() uint64 {
	var h uint64
	for _, g := range s.gs {
		x := mix(g.path, g.h)
		if g.done {
			x = mix(x, 5)
		}
		h += x
	}
	h = mix(mix(mix(h, uint64(s.now)), s.th), s.rnd)
	for _, t := range s.timers {
		if !t.dead {
			h = mix(h, mix(uint64(t.when), t.setBy))
		}
	}
	return h
}

// collect takes control back from n goroutines.
func (s *sched) collect(n int) {
	for i := 0; i < n; i++ {
		raceDisable()
		g := <-s.back
		raceEnable()
		raceAcquire(unsafe.Pointer(&s.edge))
		for g.kind == kCall && !s.aborting {
			s.inCall = true
			s.guard(g.fn)
			s.inCall = false
			g.fn = nil
			g.kind = kEvent
			raceDisable()
			g.wake <- struct{}{}
			g = <-s.back
			raceEnable()
			raceAcquire(unsafe.Pointer(&s.edge))
		}
		if g.done {
			s.live--
			if g.fkey != "" && !s.failed {
				s.failed, s.fkey, s.fmsg = true, g.fkey, g.fmsg
			}
			if g.idx == 0 {
				s.mainDone = true
			}
		}
		if g.kind == kFail && !s.failed {
			s.failed, s.fkey, s.fmsg = true, g.fkey, g.fmsg
		}
	}
}

func (s *sched) idle() *G {
	for _, g := range s.gs {
		if !g.done && g.kind == kIdle {
			return g
		}
	}
	return nil
}

func (s *sched) nextTimer() *timer {
	var t *timer
	for _, x := range s.timers {
		if !x.dead && (t == nil || x.when < t.when || x.when == t.when && x.seq < t.seq) {
			t = x
		}
	}
	return t
}

func (s *sched) fireTimer(t *timer) {
	if s.o.EarlyTimers {
		s.th = mix(s.th, s.fingerprint())
	}
	t.dead = true
	k := s.timers[:0]
	for _, x := range s.timers {
		if !x.dead {
			k = append(k, x)
		}
	}
	s.timers = k
	if t.when > s.now {
		s.now = t.when
	}
	if s.c.Logging() {
		s.c.Logf("[timer] fires at %dms", s.now/1e6)
	}
	s.inCall = true
	s.guard(t.fire)
	s.inCall = false
}

// guard runs f, which may end the execution.
func (s *sched) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if !mc.IsStop(r) {
				panic(r)
			}
			s.stopped = true
		}
	}()
	f()
}

func (s *sched) pick(n int, label string) int {
	s.picking = true
	i := s.c.Choose(n, label)
	s.picking = false
	return i
}

func (s *sched) pickDev(kind, n int, label string) int {
	s.picking = true
	i := s.c.Deviate(kind, n, label)
	s.picking = false
	return i
}

// Run runs body under the scheduler until it returned and nothing else can
// run. It ends the execution if a violation was found.
func Run(c *mc.Ctx, o Options, body func()) Result {
	if s != nil {
		panic("vs: nested run")
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	execs++
	s = &sched{c: c, o: o, exec: execs, back: make(chan *G), objs: map[unsafe.Pointer]*Obj{}, named: map[string]*Obj{}, closed: map[unsafe.Pointer]bool{}, now: o.Start, rnd: 88172645463325252}
	sc := s
	c.OnChoose = func(r int) {
		if !sc.picking && sc.cur != nil {
			sc.cur.h = mix(sc.cur.h, uint64(r)+100)
		}
	}
	g0 := sc.fresh(nil)
	g0.h = mix(g0.h, c.Past)
	go sc.main(g0, body)
	pruned := false
	verdict := ""
	sc.collect(sc.grant(g0))
	en := make([]*G, 0, 16)
	for {
		if sc.failed || sc.stopped {
			break
		}
		if sc.steps > o.MaxSteps {
			sc.failed, sc.fkey, sc.fmsg = true, "no progress", fmt.Sprintf("more than %d steps", o.MaxSteps)
			break
		}
		if o.EarlyTimers && c.Left(mc.Other) > 0 {
			if t := sc.nextTimer(); t != nil && sc.pickDev(mc.Other, 2, "timer fires") == 1 {
				sc.fireTimer(t)
				continue
			}
		}
		en = en[:0]
		curOK := false
		for _, g := range sc.gs {
			if !g.done && sc.enabled(g) {
				if g == sc.cur {
					curOK = true
				} else {
					en = append(en, g)
				}
			}
		}
		if len(en) == 0 && !curOK {
			if sc.live == 0 {
				break
			}
			if g := sc.idle(); g != nil {
				g.kind = kReady
				continue
			}
			t := sc.nextTimer()
			if t != nil && sc.mainDone {
				if sc.drained >= o.DrainTimers {
					break
				}
				sc.drained++
			}
			if t != nil {
				sc.fireTimer(t)
				continue
			}
			if !sc.mainDone {
				verdict = "deadlock"
			}
			break
		}
		if curOK && len(en) == 0 {
			sc.collect(sc.grant(sc.cur))
			continue
		}
		if !o.NoStates {
			fp := sc.fingerprint()
			c.StateHash(fp)
			if c.Prune(mix(fp, sc.cur.path)) {
				pruned = true
				break
			}
		}
		var g *G
		if curOK {
			if i := sc.pickDev(mc.Preempt, 1+len(en), "preempt"); i == 0 {
				g = sc.cur
			} else {
				g = en[i-1]
			}
		} else {
			if o.Delays {
				k := 0
				for k < len(en)-1 && en[k].idx < sc.cur.idx {
					k++
				}
				if en[k].idx < sc.cur.idx {
					k = 0
				}
				k += sc.pickDev(mc.Preempt, len(en), "delay")
				g = en[k%len(en)]
			} else {
				g = en[sc.pick(len(en), "next")]
			}
		}
		sc.collect(sc.grant(g))
	}
	var res Result
	res.Steps, res.Now = sc.steps, sc.now
	stuck := ""
	for _, g := range sc.gs {
		if !g.done {
			d := fmt.Sprintf("%s %s", g.name, g.describe())
			res.Leaked = append(res.Leaked, d)
			stuck += "\n  " + d
		}
	}
	// Unwind what is left.
	sc.aborting = true
	for i := 0; i < len(sc.gs); i++ {
		g := sc.gs[i]
		if g.done {
			continue
		}
		g.abort = true
		raceDisable()
		g.wake <- struct{}{}
		raceEnable()
		for !g.done {
			raceDisable()
			<-sc.back
			raceEnable()
			raceAcquire(unsafe.Pointer(&sc.edge))
		}
	}
	s = nil
	c.OnChoose = nil
	if pruned || sc.stopped {
		c.Skip()
	}
	if sc.failed {
		c.Fail(sc.fkey, "%s", sc.fmsg)
	}
	if verdict != "" {
		c.Fail(verdict, "goroutines wait forever:%s", stuck)
	}
	return res
}

func (g *G) describe() string {
	w := ""
	switch g.kind {
	case kStart:
		w = "not started"
	case kChan:
		w = "waits for a channel"
	case kLock:
		w = "waits: " + g.label
	case kSleep:
		w = "sleeps"
	case kBlock:
		w = "blocked for ever"
	default:
		w = "runnable"
	}
	if p := g.site(); p != "" {
		w += " at " + p
	}
	return w
}

// call runs f on the explorer, with no scheduling point.
func call(f func()) {
	g := s.cur
	g.kind, g.fn = kCall, f
	sc := s
	raceReleaseMerge(unsafe.Pointer(&sc.edge))
	raceDisable()
	sc.back <- g
	<-g.wake
	raceEnable()
	if g.abort {
		// Unwinding is sequential.
		raceAcquire(unsafe.Pointer(&sc.edge))
		runtime.Goexit()
	}
}

// wait parks until the waiter is ready for mode.
func wait(o *Obj, w Waiter, mode int, label string) {
	g := s.cur
	g.kind, g.obj, g.ptr, g.waiter, g.mode, g.label = kLock, o, nil, w, mode, label
	g.park()
}

// Point is a scheduling point at which o is used.
func point(o *Obj, p unsafe.Pointer, mode int, label string) {
	g := s.cur
	g.kind, g.obj, g.ptr, g.mode, g.label = kEvent, o, p, mode, label
	g.park()
}

// touch records a use of o without a scheduling point.
func touch(o *Obj, mode int) {
	sc := s
	g := sc.cur
	sc.event(g, sc.obj(g, o, nil), uint64(60+mode))
}
