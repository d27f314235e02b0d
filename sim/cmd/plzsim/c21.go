package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"verifsim/sim"
)

func init() {
	register(&Prop{ID: "C21", Run: runC21, MaxPoints: 2000000, MaxSim: 10 * time.Minute,
		Real: []string{"closer.go, countlog (dispatch)"},
		Stub: []string{"the resources (delays, errors)", "the event sink (records events)", "goroutines and locks are simulated"}})
}

type closeEvent struct {
	level int
	props []interface{}
	name  string
}

type resource struct {
	r      *sim.Run
	c      *closeCall
	n      int
	err    error
	slow   bool
	closed int
}

func (x *resource) Close() error {
	x.closed++
	x.c.order = append(x.c.order, x.n)
	x.c.evAt = append(x.c.evAt, 0)
	if x.slow {
		x.r.Fault("slow close")
		x.r.Sleep(ms)
	} else {
		x.r.Yield()
	}
	if x.err != nil {
		x.r.Fault("close error")
	}
	return x.err
}

type closeCall struct {
	id    int
	res   []*resource
	order []int
	evAt  []int
	props []interface{}
	one   bool
	got   error
	viaF  bool
	at    string // where Close or CloseAll was called
}

func sameValues(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC21(r *sim.Run) {
	var events []closeEvent
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		return spi.FuncEventHandler(func(e *spi.Event) {
			r.Yield()
			events = append(events, closeEvent{e.Level, append([]interface{}(nil), e.Properties...), site.Event})
			r.Yield()
		})
	})
	countlog.SetMinLevel([]int{spi.LevelTrace, spi.LevelDebug, spi.LevelInfo}[r.W.Draw(3)])
	nc := 1 + r.W.Draw(4)
	uniq := 0
	// a property list with spare capacity, shared by some callers
	shared := make([]interface{}, 0, 12)
	for i := 0; i <= r.W.Draw(2); i++ {
		shared = append(shared, "shared"+itoa(i), i)
	}
	spare := shared[:cap(shared)]
	for i := len(shared); i < len(spare); i++ {
		spare[i] = "spare"
	}
	spareWas := append([]interface{}(nil), spare...)
	var calls []*closeCall
	plans := make([][]*closeCall, nc)
	for i := range plans {
		for k := 0; k <= r.W.Draw(3); k++ {
			uniq++
			c := &closeCall{id: uniq, one: r.W.Chance(1, 4), viaF: r.W.Chance(1, 4)}
			n := r.W.Draw(6)
			if r.W.Draw(25) == 1 {
				n = 10 + r.W.Draw(40)
			}
			if c.one {
				n = 1
			}
			for j := 0; j < n; j++ {
				uniq++
				x := &resource{r: r, c: c, n: j, slow: r.W.Chance(1, 6)}
				if r.F.Chance(2, 5) {
					x.err = someError(r.F, fmt.Sprintf("close error %d", uniq))
				}
				if r.F.Chance(1, 30) {
					x.err = plz.MultiError{errors.New("inner"), fmt.Errorf("inner %d", uniq)}
				}
				c.res = append(c.res, x)
			}
			switch r.W.Draw(4) {
			case 0:
				c.props = shared
			case 1:
				c.props = []interface{}{"id", c.id}
			case 2:
				c.props = append(make([]interface{}, 0, 9), "id", c.id, "err", "mine")
			}
			plans[i] = append(plans[i], c)
			calls = append(calls, c)
		}
	}
	var ts []*sim.Task
	for i := range plans {
		p := plans[i]
		ts = append(ts, r.Spawn("closer"+itoa(i), func() {
			for _, c := range p {
				if pv, panicked := try(func() { c.do() }); panicked {
					r.Fail("panic", "closing panicked: %s", sim.PanicText(pv))
				}
				c.check(r)
				r.Nontriv = true
				if r.W.Chance(1, 4) {
					c.merge(r)
				}
			}
		}))
	}
	r.Join(ts...)
	for _, c := range calls {
		c.check(r) // an error kept is still the same
	}
	if !sameValues(spare, spareWas) {
		r.Fail("caller-slice-changed", "the caller's property slice was %v and is now %v", spareWas, spare)
	}
	// every failure exactly one error event with the caller's properties and its own error
	used := make([]bool, len(events))
	for _, c := range calls {
		for _, x := range c.res {
			if x.err == nil {
				continue
			}
			found, wrongPlace := -1, ""
			for i, e := range events {
				if used[i] || e.level != spi.LevelError {
					continue
				}
				if eventMatches(e, c.props, x.err) {
					if !strings.Contains(e.name, c.at) {
						wrongPlace = e.name
						continue
					}
					found = i
					break
				}
			}
			if found < 0 && wrongPlace != "" {
				r.Fail("wrong-place", "the failure of resource %d is logged as %q, the caller is at %s", x.n, wrongPlace, c.at)
			}
			if found < 0 {
				r.Fail("not-logged", "no error event with properties %v and the error %q of resource %d; events: %s", c.props, x.err, x.n, eventsText(events))
			}
			used[found] = true
		}
	}
	for i, e := range events {
		if !used[i] && e.level >= spi.LevelWarn {
			r.Fail("extra-event", "an event belongs to no failure or repeats one: %v", e.props)
		}
	}
}

func eventsText(es []closeEvent) string {
	s := ""
	for _, e := range es {
		s += fmt.Sprint(e.props) + " "
	}
	return abbr(s)
}

// eventMatches: the event's properties are exactly the caller's pairs plus this one error.
func eventMatches(e closeEvent, props []interface{}, err error) bool {
	if len(e.props) != len(props)+2 {
		return false
	}
	left := append([]interface{}(nil), e.props...)
	take := func(k string, eq func(v interface{}) bool) bool {
		for i := 0; i+1 < len(left); i += 2 {
			if left[i] == k && eq(left[i+1]) {
				left = append(left[:i], left[i+2:]...)
				return true
			}
		}
		return false
	}
	for i := 0; i+1 < len(props); i += 2 {
		v := props[i+1]
		if !take(props[i].(string), func(g interface{}) bool { return g == v }) {
			return false
		}
	}
	g, ok := left[1].(error)
	return ok && sameErr(g, err)
}

func sameErr(a, b error) bool {
	if x, ok := a.(plz.MultiError); ok {
		y, ok := b.(plz.MultiError)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameErr(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(plz.MultiError); ok {
		return false
	}
	return a == b
}

func (c *closeCall) do() {
	var cs []io.Closer
	for _, x := range c.res {
		if c.viaF {
			cs = append(cs, plz.WrapCloser(x.Close))
		} else {
			cs = append(cs, x)
		}
	}
	_, file, line, _ := runtime.Caller(0)
	if c.one {
		c.at = file + ":" + itoa(line+3)
		c.got = plz.Close(cs[0], c.props...)
	} else {
		c.at = file + ":" + itoa(line+6)
		c.got = plz.CloseAll(cs, c.props...)
	}
}

// merge puts failures together by MergeErrors.
func (c *closeCall) merge(r *sim.Run) {
	var list, want []error
	for _, x := range c.res {
		list = append(list, x.err)
		if x.err != nil {
			want = append(want, x.err)
		}
		if r.W.Chance(1, 4) {
			list = append(list, nil)
		}
	}
	was := append([]error(nil), list...)
	got := plz.MergeErrors(list...)
	for i := range list {
		if (list[i] == nil) != (was[i] == nil) || list[i] != nil && !sameErr(list[i], was[i]) {
			r.Fail("caller-slice-changed", "MergeErrors changed its arguments from %v to %v", was, list)
		}
		list[i] = errors.New("the caller's slice is used again")
	}
	for i := 0; i < 2; i++ {
		r.Yield()
		if len(want) == 0 {
			if got != nil {
				r.Fail("wrong-result", "merging no error gave %v", got)
			}
			continue
		}
		all, ok := got.(plz.MultiError)
		if !ok || !sameErr(all, plz.MultiError(want)) {
			r.Fail("wrong-result", "merging %v gave %v", was, got)
		}
	}
}

func (c *closeCall) check(r *sim.Run) {
	var want []error
	for _, x := range c.res {
		if x.closed != 1 {
			r.Fail("close-count", "resource %d of %d was closed %d times", x.n, len(c.res), x.closed)
		}
		if x.err != nil {
			want = append(want, x.err)
		}
	}
	for i, n := range c.order {
		if i != n {
			r.Fail("close-order", "resources closed in order %v", c.order)
		}
	}
	if len(want) == 0 {
		if c.got != nil {
			r.Fail("wrong-result", "all closes succeeded but the result is %v", c.got)
		}
		return
	}
	if c.one {
		if c.got == nil || !sameErr(c.got, want[0]) {
			r.Fail("wrong-result", "Close returned %v, the resource %v", c.got, want[0])
		}
		return
	}
	got, ok := c.got.(plz.MultiError)
	if !ok {
		r.Fail("wrong-result", "%d closes failed but the result is %v", len(want), c.got)
	}
	if len(got) != len(want) {
		r.Fail("wrong-result", "%d closes failed but the result holds %d errors", len(want), len(got))
	}
	for i := range got {
		if !sameErr(got[i], want[i]) {
			r.Fail("wrong-result", "error %d of the result is %v, expected %v", i, got[i], want[i])
		}
	}
}
