//go:build go1.22

package vs

import "unsafe"

// Mutex is a mutual exclusion lock.
type Mutex struct {
	o      Obj
	exec   uint64
	locked bool
}

func (m *Mutex) reset() {
	if s != nil && m.exec != s.exec {
		m.exec = s.exec
		m.locked = false
	}
}

// Ready implements Waiter.
func (m *Mutex) Ready(int) bool { return !m.locked }

// Lock locks m.
func (m *Mutex) Lock() {
	if Aborting() {
		return
	}
	if active() {
		m.reset()
		wait(&m.o, m, 0, "lock")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock locks m if it is free.
func (m *Mutex) TryLock() bool {
	if Aborting() {
		return true
	}
	if active() {
		m.reset()
		point(&m.o, nil, 2, "trylock")
	}
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if Aborting() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if active() {
		touch(&m.o, 1)
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
}

// RWMutex is a reader/writer lock; a waiting writer keeps new readers out.
type RWMutex struct {
	o       Obj
	exec    uint64
	readers int
	writer  bool // a writer holds or waits for the lock
	written bool // there was a writer in this run
	rel     int
}

func (m *RWMutex) reset() {
	if s != nil && m.exec != s.exec {
		m.exec = s.exec
		m.readers, m.writer, m.written = 0, false, false
	}
}

// Ready implements Waiter.
func (m *RWMutex) Ready(mode int) bool {
	switch mode {
	case 0, 2:
		return !m.writer
	default:
		return m.readers == 0
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if Aborting() {
		return
	}
	if active() {
		m.reset()
		if m.written || !s.o.QuietReaders {
			wait(&m.o, m, 0, "rlock")
		}
	}
	m.readers++
	raceAcquire(unsafe.Pointer(m))
}

// TryRLock locks for reading if possible.
func (m *RWMutex) TryRLock() bool {
	if Aborting() {
		return true
	}
	if active() {
		m.reset()
		point(&m.o, nil, 3, "tryrlock")
	}
	if m.writer {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(m))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if Aborting() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if active() && (m.written || !s.o.QuietReaders) {
		touch(&m.o, 1)
	}
	raceReleaseMerge(unsafe.Pointer(&m.rel))
	m.readers--
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if Aborting() {
		return
	}
	if active() {
		m.reset()
		m.written = true
		wait(&m.o, m, 2, "lock")
		m.writer = true
		if m.readers > 0 {
			wait(&m.o, m, 1, "lock, readers leaving")
		}
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
}

// TryLock locks for writing if possible.
func (m *RWMutex) TryLock() bool {
	if Aborting() {
		return true
	}
	if active() {
		m.reset()
		point(&m.o, nil, 4, "trylock")
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if Aborting() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	if active() {
		touch(&m.o, 1)
	}
	raceRelease(unsafe.Pointer(m))
	m.writer = false
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	o    Obj
	exec uint64
	n    int
}

func (w *WaitGroup) reset() {
	if s != nil && w.exec != s.exec {
		w.exec = s.exec
		w.n = 0
	}
}

// Ready implements Waiter.
func (w *WaitGroup) Ready(int) bool { return w.n == 0 }

// Add adds to the counter.
func (w *WaitGroup) Add(n int) {
	if Aborting() {
		return
	}
	if active() {
		w.reset()
		if n > 0 {
			point(&w.o, nil, 5, "wg.Add")
		} else {
			touch(&w.o, 1)
		}
	}
	if n < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	if active() {
		w.reset()
		wait(&w.o, w, 0, "wg.Wait")
	}
	raceAcquire(unsafe.Pointer(w))
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	exec uint64
	done bool
}

// Do calls f if it is the first call.
func (o *Once) Do(f func()) {
	if Aborting() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if !Aborting() {
				o.done = true
			}
		}()
		f()
	}
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	o  Obj
	q  []*condWaiter
	ex uint64
}

type condWaiter struct{ ok bool }

// Ready implements Waiter.
func (w *condWaiter) Ready(int) bool { return w.ok }

// NewCond returns a Cond with lock l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait releases the lock, waits for a signal and takes the lock again.
func (c *Cond) Wait() {
	if Aborting() {
		return
	}
	if !active() {
		panic("vs: cond wait outside a controlled run")
	}
	w := &condWaiter{}
	c.q = append(c.q, w)
	touch(&c.o, 2)
	c.L.Unlock()
	wait(&c.o, w, 3, "cond.Wait")
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if Aborting() {
		return
	}
	if active() {
		point(&c.o, nil, 6, "cond.Signal")
	}
	raceReleaseMerge(unsafe.Pointer(c))
	if len(c.q) > 0 {
		c.q[0].ok = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if Aborting() {
		return
	}
	if active() {
		point(&c.o, nil, 7, "cond.Broadcast")
	}
	raceReleaseMerge(unsafe.Pointer(c))
	for _, w := range c.q {
		w.ok = true
	}
	c.q = nil
}

// Pool is a free list.
type Pool struct {
	New func() any
	o   Obj
	l   []any
	ex  uint64
}

// Get takes an item.
func (p *Pool) Get() any {
	if active() {
		if p.ex != s.exec {
			p.ex, p.l = s.exec, nil
		}
		point(&p.o, nil, 8, "pool.Get")
	}
	raceAcquire(unsafe.Pointer(p))
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if active() {
		if p.ex != s.exec {
			p.ex, p.l = s.exec, nil
		}
		touch(&p.o, 3)
	}
	raceReleaseMerge(unsafe.Pointer(p))
	p.l = append(p.l, x)
}

type mapEntry struct {
	k, v any
	live bool
}

// Map is a concurrent map.
type Map struct {
	o Obj
	l []*mapEntry
}

func (m *Map) use(label string) {
	if active() {
		point(&m.o, nil, 9, label)
	}
	raceAcquire(unsafe.Pointer(m))
}

func (m *Map) find(k any) *mapEntry {
	for _, e := range m.l {
		if e.live && e.k == k {
			return e
		}
	}
	return nil
}

func (m *Map) set(k, v any) {
	raceReleaseMerge(unsafe.Pointer(m))
	if e := m.find(k); e != nil {
		e.v = v
		return
	}
	m.l = append(m.l, &mapEntry{k, v, true})
}

// Load is sync.Map.Load.
func (m *Map) Load(k any) (any, bool) {
	m.use("map.Load")
	if e := m.find(k); e != nil {
		return e.v, true
	}
	return nil, false
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { m.use("map.Store"); m.set(k, v) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.use("map.LoadOrStore")
	if e := m.find(k); e != nil {
		return e.v, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.use("map.LoadAndDelete")
	raceReleaseMerge(unsafe.Pointer(m))
	if e := m.find(k); e != nil {
		e.live = false
		return e.v, true
	}
	return nil, false
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	m.use("map.Swap")
	if e := m.find(k); e != nil {
		old := e.v
		m.set(k, v)
		return old, true
	}
	m.set(k, v)
	return nil, false
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.use("map.CompareAndSwap")
	if e := m.find(k); e != nil && e.v == old {
		m.set(k, v)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, old any) bool {
	m.use("map.CompareAndDelete")
	if e := m.find(k); e != nil && e.v == old {
		e.live = false
		return true
	}
	return false
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.use("map.Clear"); m.l = nil }

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.use("map.Range")
	for _, e := range append([]*mapEntry(nil), m.l...) {
		if e.live && !f(e.k, e.v) {
			return
		}
	}
}

// Atomic is a scheduling point before an atomic operation on p.
//
//go:noinline
func Atomic(p unsafe.Pointer, label string) {
	if active() {
		point(nil, p, 10, label)
	}
}

// Acquire and Release order accesses for the race monitor.
func Acquire(p unsafe.Pointer) { raceAcquire(p) }
func Release(p unsafe.Pointer) { raceReleaseMerge(p) }

// MarkClosed records that a channel is about to be closed.
func MarkClosed(ch chan struct{}) {
	if s != nil {
		if s.inCall {
			s.closed[ptrOf(ch)] = true
			return
		}
		if !s.aborting {
			call(func() { s.closed[ptrOf(ch)] = true })
		}
	}
}
