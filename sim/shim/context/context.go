// Package context is the simulated stand-in for the standard package.
package context

import (
	scontext "context"
	"time"
	"verifsim/sim"
)

type timerCtx struct {
	scontext.Context
	deadline time.Time
}

func (c *timerCtx) Deadline() (time.Time, bool) { return c.deadline, true }
func (c *timerCtx) Err() error {
	err := c.Context.Err()
	if err != nil && scontext.Cause(c.Context) == scontext.DeadlineExceeded {
		return scontext.DeadlineExceeded
	}
	return err
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return scontext.WithCancel(parent)
	}
	inner, cancel := scontext.WithCancelCause(parent)
	c := &timerCtx{inner, d}
	dur := d.Sub(sim.NowWall())
	if dur <= 0 {
		cancel(scontext.DeadlineExceeded)
		return c, func() {}
	}
	var stop func() bool
	if sim.Active() {
		ev := sim.R.At(dur, func() { cancel(scontext.DeadlineExceeded) })
		stop = func() bool { return sim.R != nil && sim.R.CancelTimer(ev) }
	}
	return c, func() {
		sim.Op(-70)
		if stop != nil {
			stop()
		}
		cancel(scontext.Canceled)
	}
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, sim.NowWall().Add(d), nil)
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, sim.NowWall().Add(d), cause)
}

// WithCancel's cancel is a scheduling point.
func WithCancel(parent Context) (Context, CancelFunc) {
	c, cancel := scontext.WithCancel(parent)
	return c, func() { sim.Op(-71); cancel() }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c, cancel := scontext.WithCancelCause(parent)
	return c, func(err error) { sim.Op(-71); cancel(err) }
}
func AfterFunc(ctx Context, f func()) (stop func() bool) {
	sim.Unsupported("context.AfterFunc")
	return nil
}
