// Package simtime replaces time in the code under test: the clock is the world's.
package simtime

import (
	"time"

	"vsim/rt"
)

type (
	Duration = time.Duration
	Time     = time.Time
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
)

var (
	UTC           = time.UTC
	Unix          = time.Unix
	Date          = time.Date
	ParseDuration = time.ParseDuration
)

func Now() Time {
	if rt.W == nil {
		return time.Unix(0, 0)
	}
	rt.W.Now++
	return Peek()
}

// Peek is the time without the clock being read.
func Peek() Time {
	return time.Unix(1_700_000_000+int64(rt.Host(10)%400_000_000), rt.W.Now+int64(rt.Host(13)%1_000_000_000))
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if rt.W != nil {
		rt.W.Sleep(int64(d))
	}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Timer goes off in simulated time.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *rt.Timer
}

func (t *Timer) start(d Duration) {
	if rt.W == nil {
		return
	}
	f := t.f
	if f == nil {
		f = func() {
			select {
			case t.c <- Now():
			default:
			}
		}
	} else {
		f = func() { rt.Go(t.f) }
	}
	t.t = rt.W.After(int64(d), f)
}
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}
func (t *Timer) Stop() bool { r := t.t.Stop(); t.drain(); return r }
func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.start(d)
	return r
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	t    *rt.Timer
	over bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.next()
	return t
}
func (t *Ticker) next() {
	if rt.W == nil || t.over {
		return
	}
	t.t = rt.W.After(int64(t.d), func() {
		select {
		case t.c <- Now():
		default:
		}
		t.next()
	})
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
func (t *Ticker) Stop()           { t.over = true; t.t.Stop() }
func (t *Ticker) Reset(d Duration) {
	t.t.Stop()
	t.d, t.over = d, false
	t.next()
}

// VrtShim marks the simulated package.
const VrtShim = 0
