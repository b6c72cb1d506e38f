//go:build go1.22

// Package sync is the controlled scheduler's sync.
package sync

import "github.com/NVIDIA/vdisc/zzverif/vs"

type (
	Mutex     = vs.Mutex
	RWMutex   = vs.RWMutex
	WaitGroup = vs.WaitGroup
	Once      = vs.Once
	Cond      = vs.Cond
	Pool      = vs.Pool
	Map       = vs.Map
	Locker    = vs.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return vs.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
