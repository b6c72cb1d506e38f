//go:build go1.22

package vs

import "unsafe"

// Clock is the virtual time in nanoseconds since the Unix epoch.
//
//go:noinline
func Clock() int64 {
	if s == nil {
		return epoch
	}
	return epoch + s.now
}

// Controlled reports whether virtual time applies.
func Controlled() bool { return s != nil }

// Timer is a virtual timer. Fire runs on the explorer.
type Timer struct {
	t *timer
	o Obj
}

// Sleep waits for virtual time to pass.
//
//go:noinline
func Sleep(d int64) {
	if !active() {
		return
	}
	g := s.cur
	if d <= 0 {
		point(nil, nil, 0, "sleep")
		return
	}
	w := &condWaiter{}
	t := &Timer{}
	t.Start(d, func() { w.ok = true })
	g.kind, g.obj, g.ptr, g.waiter, g.mode, g.label = kLock, &t.o, nil, w, 4, "sleep"
	g.park()
}

// Start arms the timer.
func (t *Timer) Start(d int64, fire func()) {
	sc := s
	if sc == nil || sc.aborting {
		return
	}
	sc.tseq++
	if d < 0 {
		d = 0
	}
	t.t = &timer{when: sc.now + d, seq: sc.tseq, fire: fire}
	if !sc.inCall && sc.cur != nil {
		t.t.setBy = mix(sc.cur.path, sc.cur.h)
	}
	sc.timers = append(sc.timers, t.t)
	raceReleaseMerge(unsafe.Pointer(t))
}

// Stop disarms the timer; it reports whether it was armed.
func (t *Timer) Stop() bool {
	if t.t == nil || t.t.dead {
		return false
	}
	t.t.dead = true
	return true
}

// Touch marks a use of the timer.
func (t *Timer) Touch(label string) {
	if active() {
		point(&t.o, nil, 12, label)
	}
}

// Spawner prepares a goroutine to be started by a timer.
func (t *Timer) Spawner(f func()) func() {
	sc := s
	if sc == nil {
		return func() {}
	}
	p := sc.cur
	k := p.nkids
	p.nkids++
	raceDisable()
	defer raceEnable()
	path, name, h := mix(p.path, uint64(k)+77), p.name+"."+itoa(k)+"t", mix(p.h, 6)
	n := 0
	return func() {
		n++
		g := &G{idx: len(sc.gs), wake: make(chan struct{}, 1), kind: kStart, path: mix(path, uint64(n)), name: name + itoa(n), h: h}
		sc.gs = append(sc.gs, g)
		sc.live++
		raceDisable()
		go sc.main(g, func() {
			raceAcquire(unsafe.Pointer(t))
			f()
		})
		raceEnable()
	}
}

// Rand is a fixed pseudo-random sequence.
//
//go:noinline
func Rand() uint64 {
	if s == nil {
		return 0
	}
	x := s.rnd
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	s.rnd = x
	return x
}
