package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	context "verifsim/shim/context"
	"verifsim/sim"
)

func init() {
	register(&Prop{ID: "C01", Run: runC01, MaxSim: 40 * time.Minute,
		Real: []string{"concurrent.UnboundedExecutor (all of it)"},
		Stub: []string{"handlers and waiters are generated workload", "goroutines, mutex, context timers and clock are simulated"}})
	register(&Prop{ID: "C02", Run: runC02, MaxSim: 40 * time.Minute,
		Real: []string{"concurrent.UnboundedExecutor", "countlog as panic hook in part of the runs"},
		Stub: []string{"handlers are generated workload", "goroutines, mutex, clock and standard streams are simulated"}})
}

type exHandler struct {
	id        int
	ex        int
	kind      int
	dur       time.Duration
	starts    int
	submitted int64 // seq when Go returned; 0 = not yet
	parent    *exHandler
	ended     int64
	endedAt   time.Duration
	kids      int
	panicVal  interface{}
	why       string
}

type exWorld struct {
	r        *sim.Run
	ex       []*concurrent.UnboundedExecutor
	hs       []*exHandler
	stopped  []bool // a stop was requested
	stopSeq  []int64
	release  []bool
	budget   int
	many     int
	strict   bool
	panics   bool
	reports  map[string]int // panic texts reported so far; nil if not known while running
	maxDepth int
	hooks    int           // hook calls in progress
	hookEnd  time.Duration // when the last one ended
}

// started tells whether h or its parents' submission preceded seq.
func (h *exHandler) before(seq int64) bool {
	for x := h; x != nil; x = x.parent {
		if x.submitted != 0 && x.submitted < seq {
			return true
		}
	}
	return false
}

func (w *exWorld) submit(ex int, parent *exHandler, depth int) {
	r := w.r
	if w.budget <= 0 {
		return
	}
	w.budget--
	h := &exHandler{id: len(w.hs), ex: ex, parent: parent}
	w.hs = append(w.hs, h)
	h.kind = r.W.Pick(4, 4, 4, 2, 2, 2)
	h.dur = pickDur(r, 0, 50*time.Microsecond, 99*ms, 100*ms, 101*ms, 350*ms, 2*sec)
	if r.W.Draw(30) == 1 {
		h.dur = pickDur(r, 6*sec, 11*sec, 31*sec, 65*sec)
	}
	if depth < w.maxDepth {
		h.kids = r.W.Pick(6, 3, 2)
	}
	if w.panics {
		switch r.W.Pick(5, 4, 2, 2, 2, 1, 1, 1, 1) {
		case 1:
			h.panicVal = fmt.Sprintf("boom-%d", h.id)
		case 2:
			h.panicVal = concurrent.StopSignal
		case 3:
			h.panicVal = errors.New(fmt.Sprintf("err-%d", h.id))
		case 4:
			h.panicVal = h.id + 100
		case 5:
			h.panicVal = []string{fmt.Sprintf("slice-%d", h.id)}
		case 6:
			h.panicVal = "runtime"
		case 7:
			h.panicVal = "STOP"
		case 8:
			h.panicVal = errors.New(concurrent.StopSignal)
		}
	}
	fn := w.handler(h, depth)
	e := w.ex[ex]
	// several call sites: the executor counts per site
	t := r.Now()
	switch r.W.Draw(3) {
	case 0:
		e.Go(fn)
	case 1:
		e.Go(fn)
	default:
		e.Go(fn)
	}
	h.submitted = r.Seq()
	if w.strict && r.Now()-t > 10*ms {
		r.Fail("submit-blocked", "submitting handler %d took %v", h.id, r.Now()-t)
	}
}

// hook is what a logging hook of the executor does: it may take its time and use the executor.
func (w *exWorld) hook(kind int) {
	r := w.r
	w.hooks++
	switch kind {
	case 1:
		r.Sleep(pickDur(r, 0, 20*ms, 150*ms, 2*sec))
	case 2:
		w.submit(r.W.Draw(len(w.ex)), nil, w.maxDepth)
	case 3:
		r.Sleep(pickDur(r, 0, 20*ms, 400*ms))
		w.submit(r.W.Draw(len(w.ex)), nil, w.maxDepth)
	}
	w.hooks--
	w.hookEnd = r.Now()
}

func (w *exWorld) handler(h *exHandler, depth int) func(ctx context.Context) {
	r := w.r
	return func(ctx context.Context) {
		h.starts++
		if h.starts > 1 {
			r.Fail("ran-twice", "handler %d was run %d times", h.id, h.starts)
		}
		if ctx == nil {
			r.Fail("no-context", "handler %d got a nil context", h.id)
		}
		if ctx.Err() != nil && !w.stopped[h.ex] {
			r.Fail("cancelled-early", "handler %d sees a cancelled context although nothing stopped its executor", h.id)
		}
		defer func() {
			h.ended = r.Seq()
			h.endedAt = r.Now()
		}()
		for i := 0; i < h.kids && i < 1; i++ {
			w.submit(h.ex, h, depth+1)
		}
		switch h.kind {
		case 1:
			r.Sleep(h.dur)
		case 2:
			<-simDone(r, ctx)
			if !w.stopped[h.ex] {
				r.Fail("cancelled-early", "the context of handler %d was cancelled although nothing stopped its executor", h.id)
			}
			r.Sleep(h.dur)
		case 3:
			r.WaitUntil("release", func() bool { return w.release[h.ex] })
		case 4:
			for i := 0; i < 5; i++ {
				r.Yield()
			}
		case 5:
			if h.panicVal == nil {
				if h.kids > 1 {
					w.submit(h.ex, h, depth+1)
				}
				runtime.Goexit()
			}
		}
		for i := 1; i < h.kids; i++ {
			w.submit(h.ex, h, depth+1)
		}
		if h.panicVal == "runtime" {
			var m map[string]int
			m["x"] = 1
		}
		if h.panicVal != nil {
			panic(h.panicVal)
		}
	}
}

var closedChan = func() chan struct{} { c := make(chan struct{}); close(c); return c }()

// simDone waits for the context inside the simulation and returns a closed channel.
func simDone(r *sim.Run, ctx context.Context) <-chan struct{} {
	r.WaitUntil("context done", func() bool { return ctx.Err() != nil })
	return closedChan
}

func newExWorld(r *sim.Run, panics bool) *exWorld {
	w := &exWorld{r: r, panics: panics, strict: true, maxDepth: 2}
	n := 1 + r.W.Pick(3, 1)
	for i := 0; i < n; i++ {
		if i == 0 && r.W.Chance(1, 4) {
			w.ex = append(w.ex, concurrent.GlobalUnboundedExecutor)
		} else {
			w.ex = append(w.ex, concurrent.NewUnboundedExecutor())
		}
		w.stopped = append(w.stopped, false)
		w.stopSeq = append(w.stopSeq, 0)
		w.release = append(w.release, false)
	}
	w.budget = 3 + r.W.Draw(8)
	if r.W.Draw(60) == 1 {
		w.many = 20 + r.W.Draw(30)
		w.budget = 3 * w.many
	}
	if swarm(r, 1, 4) {
		r.Stalls(6)
		w.strict = false
	}
	return w
}

func (w *exWorld) drive() {
	r := w.r
	var ts []*sim.Task
	// submitters
	ns := 1 + r.W.Draw(3)
	for i := 0; i < ns; i++ {
		i := i
		ts = append(ts, r.Spawn(fmt.Sprintf("submitter%d", i), func() {
			n := r.W.Draw(4) + w.many
			for k := 0; k <= n; k++ {
				if w.many == 0 || r.W.Draw(8) == 1 {
					r.Sleep(pickDur(r, 0, 0, 10*time.Microsecond, 95*ms, 120*ms, sec))
				}
				w.submit(r.W.Draw(len(w.ex)), nil, 0)
			}
		}))
	}
	// waiters
	nw := 1 + r.W.Draw(3)
	for i := 0; i < nw; i++ {
		i := i
		ts = append(ts, r.Spawn(fmt.Sprintf("waiter%d", i), func() { w.waiter(i) }))
	}
	// release the handlers that wait for the harness
	for i := range w.ex {
		i := i
		d := pickDur(r, 0, 250*ms, 1300*ms, 5*sec)
		r.At(d, func() { w.release[i] = true })
	}
	r.Join(ts...)
	// every executor must come to rest
	for i := range w.ex {
		if !w.stopped[i] {
			w.stopped[i] = true
			w.ex[i].Stop()
		}
	}
	r.Calm()
	quiet := func() bool {
		for _, h := range w.hs {
			if h.starts > 0 && h.ended == 0 || h.starts == 0 {
				return false
			}
		}
		return w.hooks == 0
	}
	// a panicking handler may still submit another one through its hook, so look again
	for end := r.Now() + 600*sec; r.Now() < end; r.Sleep(sec) {
		r.WaitFor("all handlers", 30*sec, quiet)
		if quiet() {
			r.Sleep(10 * ms)
			if quiet() {
				break
			}
		}
	}
	if !quiet() {
		for _, h := range w.hs {
			if h.starts != 1 {
				r.Fail("not-run", "handler %d was submitted but ran %d times", h.id, h.starts)
			}
			if h.ended == 0 {
				r.Fail("stuck-handler", "handler %d (kind %d) never returned: its context was not cancelled", h.id, h.kind)
			}
		}
	}
	for i := range w.ex {
		t := r.Now()
		seq := r.Seq()
		w.ex[i].StopAndWaitForever()
		if r.Now()-t > sec {
			r.Fail("slow-wait", "StopAndWaitForever took %v although every handler had returned", r.Now()-t)
		}
		w.checkAll(i, seq, "final")
	}
	for _, h := range w.hs {
		if h.starts != 1 {
			r.Fail("not-run", "handler %d was submitted but ran %d times", h.id, h.starts)
		}
	}
}

func (w *exWorld) checkAll(ex int, seq int64, who string) {
	for _, h := range w.hs {
		if h.ex == ex && h.before(seq) && h.ended == 0 {
			w.r.Fail("early-return", "%s returned from waiting although handler %d (kind %d, started %d times) submitted before has not returned", who, h.id, h.kind, h.starts)
		}
		if w.reports != nil && h.ex == ex && h.before(seq) && h.panicVal != nil && h.panicVal != concurrent.StopSignal && h.panicVal != "runtime" && w.reports[sim.PanicText(h.panicVal)] == 0 {
			w.r.Fail("late-report", "%s returned from waiting although the panic %q of handler %d has not been reported", who, sim.PanicText(h.panicVal), h.id)
		}
	}
}

func (w *exWorld) waiter(i int) {
	r := w.r
	r.Sleep(pickDur(r, 0, 0, 20*time.Microsecond, 90*ms, 110*ms, 900*ms))
	ex := r.W.Draw(len(w.ex))
	e := w.ex[ex]
	kind := r.W.Pick(4, 3, 2, 2, 1)
	w.stopped[ex] = true
	start := r.Now()
	seq := r.Seq()
	var ctx context.Context = context.Background()
	doneAt := time.Duration(-1)
	switch kind {
	case 0:
		e.StopAndWaitForever()
	case 1:
		d := pickDur(r, 50*ms, 100*ms, 205*ms, 990*ms)
		var cancel func()
		ctx, cancel = context.WithTimeout(context.Background(), d)
		e.StopAndWait(ctx)
		doneAt = start + d
		defer cancel()
	case 2:
		c, cancel := context.WithCancel(context.Background())
		ctx = c
		d := pickDur(r, 0, 30*ms, 150*ms, 1500*ms)
		r.Spawn("canceller", func() { r.Sleep(d); cancel() })
		e.StopAndWait(ctx)
		doneAt = start + d
	case 3:
		e.Stop()
		return
	case 4:
		c, cancel := context.WithCancel(context.Background())
		cancel()
		ctx = c
		doneAt = start
		e.StopAndWait(ctx)
	}
	now := r.Now()
	r.Nontriv = true
	who := fmt.Sprintf("waiter%d (kind %d)", i, kind)
	if ctx.Err() == nil {
		r.Probe("wait-complete")
		w.checkAll(ex, seq, who)
		for _, h := range w.hs {
			if h.ex == ex && h.starts > 0 {
				break
			}
		}
	} else {
		r.Probe("wait-context-done")
	}
	if w.strict {
		// latest moment at which everything was finished
		idle := start
		for _, h := range w.hs {
			if h.ex != ex {
				continue
			}
			if h.ended == 0 {
				idle = -1
				break
			}
			if h.endedAt > idle {
				idle = h.endedAt
			}
		}
		limit := time.Duration(-1)
		if idle >= 0 {
			limit = idle + sec
		}
		if doneAt >= 0 && (limit < 0 || doneAt+sec < limit) {
			limit = doneAt + sec
		}
		if limit >= 0 && w.hookEnd+sec > limit {
			limit = w.hookEnd + sec
		}
		if limit >= 0 && w.hooks == 0 && now > limit {
			r.Fail("slow-wait", "%s returned %v after it could have", who, now-limit+sec)
		}
	}
}

func runC01(r *sim.Run) {
	w := newExWorld(r, false)
	if r.W.Chance(1, 3) {
		kind := r.W.Draw(4)
		concurrent.LogInfo = func(event string, properties ...interface{}) {
			w.checkProgress(properties)
			r.Yield()
			w.hook(kind)
		}
	} else {
		countlog.SetMinLevel(spi.LevelWarn)
	}
	w.drive()
}

// checkProgress: a report of unfinished handlers names a place and how many were started there.
func (w *exWorld) checkProgress(kv []interface{}) {
	r := w.r
	for i := 0; i+1 < len(kv); i += 2 {
		switch kv[i] {
		case "startFrom":
			if s, ok := kv[i+1].(string); ok && !strings.Contains(s, "c01.go:") {
				r.Fail("wrong-progress", "the handlers waited for were started at %v", kv[i+1])
			}
		case "count":
			r.Probe("progress-reported")
			if n, ok := kv[i+1].(int); ok && (n < 1 || n > len(w.hs)) {
				r.Fail("wrong-progress", "%v handlers are waited for, %d were submitted", kv[i+1], len(w.hs))
			}
		}
	}
}

func runC02(r *sim.Run) {
	w := newExWorld(r, true)
	hook := r.W.Draw(3)
	count := map[string]int{}
	switch hook {
	case 0: // user hook, sometimes slow
		kind := r.W.Draw(4)
		concurrent.LogPanic = func(rec interface{}, props ...interface{}) interface{} {
			w.hook(kind)
			count[sim.PanicText(rec)]++
			return rec
		}
		concurrent.LogInfo = func(event string, properties ...interface{}) {}
	case 1: // the library's default hook prints
		sim.ResetPackage("github.com/v2pro/plz/concurrent")
		w.ex[0] = concurrent.GlobalUnboundedExecutor
	default: // countlog's hook
		countlog.SetMinLevel(spi.LevelWarn)
		countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
			return spi.FuncEventHandler(func(ev *spi.Event) {
				for i := 0; i+1 < len(ev.Properties); i += 2 {
					if ev.Properties[i] == "err" {
						count[sim.PanicText(ev.Properties[i+1])]++
					}
				}
			})
		})
	}
	if hook != 1 {
		w.reports = count
	}
	w.drive()
	if hook == 1 {
		for _, l := range strings.Split(r.Stdout.String(), "\n") {
			if strings.HasPrefix(l, "paniced: ") {
				count[strings.TrimPrefix(l, "paniced: ")]++
			}
		}
	}
	want := map[string]int{}
	for _, h := range w.hs {
		if h.panicVal == nil || h.panicVal == concurrent.StopSignal || h.starts == 0 {
			continue
		}
		if h.panicVal == "runtime" {
			want["assignment to entry in nil map"]++
			continue
		}
		want[sim.PanicText(h.panicVal)]++
	}
	for _, k := range sim.SortedKeys(want) {
		if n := want[k]; count[k] != n {
			r.Fail("report-count", "panic value %q was raised %d times and reported %d times", k, n, count[k])
		}
	}
	for _, k := range sim.SortedKeys(count) {
		if n := count[k]; want[k] != n {
			r.Fail("report-count", "panic value %q was reported %d times and raised %d times", k, n, want[k])
		}
	}
	if len(want) > 0 {
		r.Probe("panics-reported")
	}
}
