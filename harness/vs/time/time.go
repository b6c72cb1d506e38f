//go:build go1.22

// Package time is the controlled scheduler's time: virtual during a run.
package time

import (
	"time"

	"github.com/NVIDIA/vdisc/zzverif/vs"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Unix(sec, nsec int64) Time                { return time.Unix(sec, nsec) }
func UnixMilli(m int64) Time                   { return time.UnixMilli(m) }
func UnixMicro(m int64) Time                   { return time.UnixMicro(m) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(v string) (Duration, error) { return time.ParseDuration(v) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func Date(y int, m Month, d, h, mi, s, ns int, loc *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, loc)
}

// Now is the virtual time during a run.
func Now() Time {
	if !vs.Controlled() {
		return time.Now()
	}
	return time.Unix(0, vs.Clock())
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if !vs.Controlled() {
		time.Sleep(d)
		return
	}
	vs.Sleep(int64(d))
}

// Timer is a virtual timer.
type Timer struct {
	C     <-chan Time
	c     chan Time
	t     vs.Timer
	spawn func()
}

func (t *Timer) fire() {
	if t.spawn != nil {
		t.spawn()
		return
	}
	select {
	case t.c <- time.Unix(0, vs.Clock()):
	default:
	}
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.t.Start(int64(d), t.fire)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	t.spawn = t.t.Spawner(f)
	t.t.Start(int64(d), t.fire)
	return t
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	t.t.Touch("timer.Stop")
	ok := t.t.Stop()
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	t.t.Touch("timer.Reset")
	ok := t.t.Stop()
	t.t.Start(int64(d), t.fire)
	return ok
}

// Ticker is a virtual ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t vs.Timer
}

func (t *Ticker) fire() {
	select {
	case t.c <- time.Unix(0, vs.Clock()):
	default:
	}
	t.t.Start(int64(t.d), t.fire)
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.t.Start(int64(d), t.fire)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	t.t.Touch("ticker.Stop")
	t.t.Stop()
}

func (t *Ticker) Reset(d Duration) {
	t.t.Touch("ticker.Reset")
	t.t.Stop()
	t.d = d
	t.t.Start(int64(d), t.fire)
}
