//go:build go1.22

// Package context is the controlled scheduler's context.
package context

import (
	"context"
	"time"
	"unsafe"

	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func WithoutCancel(p Context) Context       { return context.WithoutCancel(p) }

type key struct{}

type ctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*ctx
	deadline time.Time
	has      bool
	timer    vs.Timer
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	vs.Atomic(unsafe.Pointer(c), "ctx.Err")
	vs.Acquire(unsafe.Pointer(c))
	return c.err
}

func (c *ctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

// shut closes the context and what derives from it.
func (c *ctx) shut(err, cause error) {
	if c.err != nil {
		return
	}
	c.timer.Stop()
	c.err, c.cause = err, cause
	vs.Release(unsafe.Pointer(c))
	vs.MarkClosed(c.done)
	close(c.done)
	for _, k := range c.kids {
		k.shut(err, cause)
	}
	c.kids = nil
}

func (c *ctx) cancel(err, cause error) {
	if vs.Aborting() {
		return
	}
	vs.Atomic(unsafe.Pointer(c), "ctx cancel")
	if cause == nil {
		cause = err
	}
	c.shut(err, cause)
}

func derive(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: p, done: make(chan struct{})}
	if q, ok := p.Value(key{}).(*ctx); ok && (p.Done() == nil || p.Done() == (<-chan struct{})(q.done)) {
		if q.err != nil {
			c.shut(q.err, q.cause)
		} else if p.Done() != nil {
			q.kids = append(q.kids, c)
		}
	} else if d := p.Done(); d != nil {
		if err := p.Err(); err != nil {
			c.shut(err, context.Cause(p))
		} else {
			vs.Go(func() {
				a, b := vs.CRecv(d), vs.CRecv((<-chan struct{})(c.done))
				if vs.Select(false, a, b) == 0 {
					c.cancel(p.Err(), context.Cause(p))
				}
			})
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := derive(p)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := derive(p)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, d, nil)
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := derive(p)
	if cur, ok := p.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.has = d, true
		if c.err == nil {
			c.timer.Start(d.UnixNano()-vs.Clock(), func() {
				if cause == nil {
					c.shut(DeadlineExceeded, DeadlineExceeded)
				} else {
					c.shut(DeadlineExceeded, cause)
				}
			})
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, time.Unix(0, vs.Clock()).Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, time.Unix(0, vs.Clock()).Add(d), cause)
}

func Cause(p Context) error {
	if c, ok := p.Value(key{}).(*ctx); ok {
		if c.cause != nil {
			return c.cause
		}
		return p.Err()
	}
	return context.Cause(p)
}

func AfterFunc(p Context, f func()) func() bool {
	stop := make(chan struct{})
	state := new(int)
	d := p.Done()
	vs.Go(func() {
		if d == nil {
			return
		}
		a, b := vs.CRecv(d), vs.CRecv((<-chan struct{})(stop))
		if vs.Select(false, a, b) == 0 && *state == 0 {
			*state = 1
			f()
		}
	})
	return func() bool {
		if *state != 0 {
			return false
		}
		*state = 2
		vs.Close(stop)
		return true
	}
}
