package sim

import (
	"time"
)

// NowWall is time.Now of the simulation.
func NowWall() time.Time {
	r := R
	if r == nil {
		return time.Unix(1700000000, 0)
	}
	Op(-30)
	return r.Wall()
}

// SleepFor is time.Sleep.
func SleepFor(d time.Duration) {
	if !active {
		Op(-31)
		return
	}
	R.yield(-31, true)
	R.Sleep(d)
}

// SimTimer backs timers and tickers.
type SimTimer struct {
	C      chan time.Time
	f      func()
	ev     *timerEv
	period time.Duration
	proc   int
}

// NewSimTimer makes a timer delivering on a channel (or running f in a new task).
func NewSimTimer(d time.Duration, f func(), period time.Duration) *SimTimer {
	Op(-32)
	t := &SimTimer{f: f, period: period}
	if f == nil {
		t.C = make(chan time.Time, 1)
	}
	if active {
		t.arm(d)
	}
	return t
}

func (t *SimTimer) arm(d time.Duration) {
	r := R
	if d < 0 {
		d = 0
	}
	t.proc = r.cur.Proc
	var fire func()
	fire = func() {
		if t.f != nil {
			f := t.f
			nt := r.newTask("timerfunc", t.proc, f)
			r.note('g', int64(nt.ID))
			r.resched = true
		} else {
			trySendNow(t.C, r.Wall())
		}
		if t.period > 0 {
			t.ev = r.At(t.period, fire)
			t.ev.proc = t.proc
		}
	}
	t.ev = r.At(d, fire)
}

// Stop stops the timer.
func (t *SimTimer) Stop() bool {
	Op(-33)
	if !active {
		return false
	}
	return R.CancelTimer(t.ev)
}

// Reset re-arms the timer.
func (t *SimTimer) Reset(d time.Duration) bool {
	Op(-34)
	if !active {
		return false
	}
	was := R.CancelTimer(t.ev)
	if t.period > 0 {
		t.period = d
	}
	t.arm(d)
	return was
}

// WaitList is a list of blocked tasks.
type WaitList struct{ ts []*Task }

// Wait blocks the current task on the list.
func (w *WaitList) Wait(why string) {
	w.ts = append(w.ts, R.cur)
	R.Block(why, nil)
}

// WakeAll makes every waiting task ready.
func (w *WaitList) WakeAll() {
	ts := w.ts
	w.ts = nil
	for _, t := range ts {
		R.markReady(t)
	}
}

// WakeOne makes the first waiting task ready.
func (w *WaitList) WakeOne() {
	for len(w.ts) > 0 {
		t := w.ts[0]
		w.ts = w.ts[1:]
		if !t.dead && !t.ended {
			R.markReady(t)
			return
		}
	}
}

// Waiter is a task waiting for a lock.
type Waiter struct {
	Granted bool
	t       *Task
	since   int64
}

// NewWaiter is a waiter for the current task, waiting from now.
func NewWaiter() *Waiter { return &Waiter{t: R.cur, since: R.now} }

// Wait blocks the task until it is woken.
func (w *Waiter) Wait(why string) { R.Block(why, nil) }

// Wake makes the task ready.
func (w *Waiter) Wake() {
	if w.t.state == stBlocked {
		R.markReady(w.t)
	}
}

// Starving reports whether the task has waited for more than a millisecond.
func (w *Waiter) Starving() bool { return R.now-w.since > int64(time.Millisecond) }

// Dead reports whether the task will never run again.
func (w *Waiter) Dead() bool { return w.t.dead || w.t.ended }

// CurID identifies the running task (0 outside a run).
func CurID() int {
	if R == nil || R.cur == nil {
		return -1
	}
	return R.cur.ID
}

// PDraw draws from the program-nondeterminism stream.
func PDraw(n int) int {
	if !active {
		return 0
	}
	return R.P.Draw(n)
}

// PoolMiss decides whether a sync.Pool forgets its content now.
func PoolMiss() bool {
	if !active {
		return false
	}
	return R.P.Chance(1, 16)
}

// ProgRand is the program's source of randomness.
func ProgRand() uint64 {
	if R == nil {
		return 4
	}
	Op(-35)
	R.progRand++
	return Mix(R.in.Swarm, uint64(R.progRand)+777)
}
