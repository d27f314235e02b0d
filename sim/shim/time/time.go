// Package time is the simulated stand-in for the standard package.
package time

import (
	stime "time"
	"verifsim/sim"
)

func Now() Time                 { return sim.NowWall() }
func Since(t Time) Duration     { return sim.NowWall().Sub(t) }
func Until(t Time) Duration     { return t.Sub(sim.NowWall()) }
func Sleep(d Duration)          { sim.SleepFor(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }

type Timer struct {
	C <-chan Time
	t *sim.SimTimer
}

func NewTimer(d Duration) *Timer {
	t := sim.NewSimTimer(d, nil, 0)
	return &Timer{C: t.C, t: t}
}
func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{t: sim.NewSimTimer(d, f, 0)}
}
func (t *Timer) Stop() bool            { return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool { return t.t.Reset(d) }

type Ticker struct {
	C <-chan Time
	t *sim.SimTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := sim.NewSimTimer(d, nil, d)
	return &Ticker{C: t.C, t: t}
}
func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Reset(d) }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

var _ = stime.Now

func init() { sim.OnZone(func(l *Location) { Local = l }) }
