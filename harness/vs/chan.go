//go:build go1.22

package vs

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// SendCase is a pending send.
type SendCase[T any] struct {
	caseHdr
	ch chan<- T
	v  T
}

//go:norace
func (c *SendCase[T]) hdr() *caseHdr { return &c.caseHdr }

//go:norace
func (c *SendCase[T]) do() { c.ch <- c.v }

//go:norace
func (c *SendCase[T]) state() (int, int) { return len(c.ch), cap(c.ch) }

// RecvCase is a pending receive.
type RecvCase[T any] struct {
	caseHdr
	ch <-chan T
	V  T
	OK bool
}

//go:norace
func (c *RecvCase[T]) hdr() *caseHdr { return &c.caseHdr }

//go:norace
func (c *RecvCase[T]) do() { c.V, c.OK = <-c.ch }

//go:norace
func (c *RecvCase[T]) state() (int, int) { return len(c.ch), cap(c.ch) }

//go:norace
func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// CSend makes the case `ch <- v`.
//
//go:norace
func CSend[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		return &SendCase[T]{caseHdr: caseHdr{ptrOf(ch), true}, ch: ch, v: v}
	}
}

// CRecv makes the case `<-ch`.
//
//go:norace
func CRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{caseHdr: caseHdr{ptrOf(ch), false}, ch: ch}
}

// SendTo is `ch <- v`.
//
//go:norace
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		Select(false, CSend(ch)(v))
	}
}

// Recv is `<-ch`.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	if !Active() {
		return <-ch
	}
	c := CRecv(ch)
	Select(false, c)
	return c.V
}

// Recv2 is `v, ok := <-ch`.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	c := CRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

// RecvOK is the condition of `for range ch`.
//
//go:norace
func RecvOK[T any](ch <-chan T) bool {
	_, ok := Recv2(ch)
	return ok
}

// RangeInit starts `for v := range ch`.
//
//go:norace
func RangeInit[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	if ch != nil && !closing(ptrOf(ch)) {
		return
	}
	close(ch)
}

//go:noinline
func closing(p unsafe.Pointer) bool {
	if Aborting() {
		return false
	}
	if active() {
		g := s.cur
		g.kind, g.ptr, g.obj = kClose, p, nil
		g.park()
	}
	return true
}

// Select performs one of the cases and returns its index, or -1 for the
// default.
//
//go:noinline
func Select(dflt bool, cases ...Case) int {
	if Aborting() {
		if dflt {
			return -1
		}
		return 0
	}
	if !active() {
		return selectReal(dflt, cases)
	}
	g := s.cur
	sc := s
	g.kind, g.cases, g.dflt, g.chosen, g.rv = kChan, cases, dflt, -1, false
	g.park()
	i := g.chosen
	g.cases = nil
	if i >= 0 {
		g.kind = kReady
		cases[i].do()
		if g.rv {
			g.rv = false
			_ = sc
			g.park()
		}
	}
	return i
}

// selectReal serves code running outside a controlled run.
func selectReal(dflt bool, cases []Case) int {
	for {
		for i, c := range cases {
			n, k := c.state()
			if c.hdr().ptr == nil {
				continue
			}
			if c.hdr().send && n < k || !c.hdr().send && n > 0 {
				c.do()
				return i
			}
		}
		if dflt {
			return -1
		}
		panic("vs: blocking select outside a controlled run")
	}
}

// Block is `select {}`.
//
//go:noinline
func Block() {
	if active() {
		g := s.cur
		g.kind = kBlock
		g.park()
	}
}

// Entry is one iteration of a map range.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live reports whether the entry still exists.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the entry's present value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Entries lists a map in a fixed order.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{m, k})
	}
	sort.Slice(out, func(i, j int) bool { return less(out[i].K, out[j].K) })
	return out
}

func less(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == y.Kind() {
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return x.Int() < y.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return x.Uint() < y.Uint()
		case reflect.String:
			return x.String() < y.String()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// Choose makes a free choice on behalf of a controlled goroutine.
//
//go:noinline
func Choose(n int, label string) int {
	r := 0
	if active() {
		call(func() { r = s.c.Choose(n, label) })
	}
	return r
}

// Deviate chooses a deviation on behalf of a controlled goroutine.
//
//go:noinline
func Deviate(kind, n int, label string) int {
	r := 0
	if active() {
		call(func() { r = s.c.Deviate(kind, n, label) })
	}
	return r
}

// Left is the budget left.
func Left(kind int) int {
	r := 0
	if active() {
		call(func() { r = s.c.Left(kind) })
	}
	return r
}

// Logf adds to the trace.
//
//go:noinline
func Logf(format string, args ...any) {
	if active() && s.c.Logging() {
		call(func() { s.c.Logf("["+s.cur.name+"] "+format, args...) })
	}
}

// Do runs f on the explorer as one indivisible use of the named object. There
// is no scheduling point.
//
//go:noinline
func Do(name string, f func()) {
	if Aborting() {
		return
	}
	if !active() {
		f()
		return
	}
	call(func() {
		g := s.cur
		s.event(g, s.obj(g, s.nameObj(name), nil), 9)
		f()
	})
}

// Step is Do preceded by a scheduling point: one external operation.
//
//go:noinline
func Step(name string, f func()) {
	if Aborting() {
		return
	}
	if active() {
		sc := s
		g := sc.cur
		var o *Obj
		call(func() { o = sc.nameObj(name) })
		g.kind, g.obj, g.ptr, g.mode, g.label = kEvent, o, nil, 1, name
		g.park()
	}
	Do(name, f)
}

func (s *sched) nameObj(name string) *Obj {
	o := s.named[name]
	if o == nil {
		o = &Obj{exec: s.exec, id: hstr(name)}
		s.named[name] = o
	}
	return o
}

// Fail reports a violation from a controlled goroutine and ends the execution.
//
//go:noinline
func Fail(key, format string, args ...any) {
	if Aborting() {
		return
	}
	if s != nil && s.inCall {
		if !s.failed {
			s.failed, s.fkey, s.fmsg = true, key, fmt.Sprintf(format, args...)
		}
		return
	}
	if s == nil {
		panic("vs: Fail outside a controlled run: " + key + ": " + fmt.Sprintf(format, args...))
	}
	call(func() { Fail(key, format, args...) })
	Block()
}

// Assert fails unless cond holds.
func Assert(cond bool, key, format string, args ...any) {
	if !cond {
		Fail(key, format, args...)
	}
}

// Outcome records the class of the result.
func Outcome(o string) {
	if active() {
		call(func() { s.c.Outcome(o) })
	}
}

// Fault decides whether an external operation fails (one unit of the fault
// budget); n counts the ways to fail.
func Fault(n int, label string) int { return Deviate(mc.Fault, n+1, label) }

// Write tells the race monitor that p is written.
//
//go:noinline
func Write(p []byte) {
	if len(p) > 0 {
		raceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// Read tells the race monitor that p is read.
//
//go:noinline
func Read(p []byte) {
	if len(p) > 0 {
		raceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// Yield is a scheduling point.
//
//go:noinline
func Yield() {
	if active() {
		point(nil, nil, 0, "yield")
	}
}

// Idle waits until no other goroutine can run, timers aside.
//
//go:noinline
func Idle() {
	if active() {
		g := s.cur
		g.kind = kIdle
		g.park()
	}
}

// Name is the canonical name of the running goroutine.
func Name() string {
	if s == nil || s.inCall && s.cur == nil {
		return ""
	}
	return s.cur.name
}

// Alive is the number of goroutines that have not ended, including the caller.
func Alive() int {
	n := 0
	if active() {
		call(func() { n = s.live })
	}
	return n
}
