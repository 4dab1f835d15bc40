// Package simcontext replaces context in the code under test: deadlines are on the
// simulated clock.
package simcontext

import (
	"context"
	"sync"
	"time"

	"vsim/rt"
	"vsim/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
	Background       = context.Background
	TODO             = context.TODO
	WithCancel       = context.WithCancel
	WithCancelCause  = context.WithCancelCause
	WithValue        = context.WithValue
	WithoutCancel    = context.WithoutCancel
	Cause            = context.Cause
)

type deadline struct {
	context.Context
	at    time.Time
	mu    sync.Mutex
	fired bool
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }
func (d *deadline) Err() error {
	err := d.Context.Err()
	d.mu.Lock()
	defer d.mu.Unlock()
	if err != nil && d.fired {
		return context.DeadlineExceeded
	}
	return err
}

// Left is the simulated time until ctx ends, or -1.
func Left(ctx context.Context) int64 {
	at, ok := ctx.Deadline()
	if !ok || rt.W == nil {
		return -1
	}
	return max(int64(at.Sub(simtime.Peek())), 0)
}

func WithDeadlineCause(parent Context, at time.Time, cause error) (Context, CancelFunc) {
	if p, ok := parent.Deadline(); ok && p.Before(at) {
		return WithCancel(parent)
	}
	in, cancel := context.WithCancelCause(parent)
	d := &deadline{Context: in, at: at}
	if rt.W == nil {
		return d, func() { cancel(nil) }
	}
	if cause == nil {
		cause = DeadlineExceeded
	}
	t := rt.W.After(int64(simtime.Until(at)), func() {
		d.mu.Lock()
		d.fired = d.Context.Err() == nil
		d.mu.Unlock()
		cancel(cause)
	})
	return d, func() { t.Stop(); cancel(nil) }
}
func WithDeadline(parent Context, at time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), nil)
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

// AfterFunc runs f as a goroutine of the code under test.
func AfterFunc(ctx Context, f func()) func() bool {
	over := false
	rt.Go(func() {
		rt.Recv(ctx.Done())
		if !over {
			over = true
			f()
		}
	})
	return func() bool { r := !over; over = true; return r }
}

// VrtShim marks the simulated package.
const VrtShim = 0
