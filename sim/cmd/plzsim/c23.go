package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/async"
	"verifsim/sim"
)

func init() {
	register(&Prop{ID: "C23", Run: runC23, MaxPoints: 6000000, MaxSim: 2 * time.Hour,
		Real: []string{"countlog (API, event writer, formats)", "countlog/output/async", "countlog/output/lumberjack", "concurrent.UnboundedExecutor", "msgfmt", "gls", "compress/gzip"},
		Stub: []string{"the file system (in memory)", "application goroutines are generated workload", "goroutines, channels, timers, locks and clock are simulated"}})
}

type e2eRec struct {
	ljRec
	g, k    int
	enabled bool
	handed  int
	drops   int
}

type e2e struct {
	r     *sim.Run
	lw    *logWorld
	w     *ljWorld
	out   async.ClosableWriter
	cur   map[*sim.Task]*e2eRec
	all   []*e2eRec
	nonb  bool
	errs  []string
	n     int
	limit int
}

// Write stands between the event writer and the async writer and notes what passes.
func (e *e2e) Write(p []byte) (int, error) {
	r := e.r
	c := e.cur[r.Cur()]
	if c == nil {
		r.Fail("stray-write", "a write outside any logging call: %s", abbr(string(p)))
	}
	c.handed++
	if c.handed > 1 {
		r.Fail("written-twice", "event %d was handed to the writer %d times", c.id, c.handed)
	}
	c.text = string(p)
	if !strings.Contains(c.text, fmt.Sprintf("uid%dx", c.id)) {
		r.Fail("wrong-record", "event %d produced %s", c.id, abbr(c.text))
	}
	r.Yield()
	n, err := e.out.Write(p)
	if err != nil || n != len(p) {
		r.Fail("async-write", "Write of %d bytes returned %d, %v", len(p), n, err)
	}
	return n, err
}

func (e *e2e) log(g, k int) {
	r := e.r
	e.n++
	c := &e2eRec{g: g, k: k}
	c.id = e.n
	e.all = append(e.all, c)
	uid := fmt.Sprintf("uid%dx", c.id)
	pad := strings.Repeat(string(rune('a'+c.id%26)), r.W.Draw(e.limit))
	var err error
	if r.W.Draw(4) == 1 {
		err = errors.New("failed with " + uid)
	}
	min := e.lw.minLevel
	ctx := countlog.Ctx(context.Background())
	e.cur[r.Cur()] = c
	c.begin = r.Seq()
	m := r.W.Draw(9)
	lv := allLevels[r.W.Draw(len(allLevels))]
	pan, panicked := try(func() {
		switch m {
		case 0:
			c.enabled = 10 >= min
			countlog.Trace("trace {uid} {pad}", "uid", uid, "pad", pad)
		case 1:
			c.enabled = 20 >= min
			countlog.Debug("debug {uid} {pad}", "uid", uid, "pad", pad)
		case 2:
			c.enabled = 30 >= min
			countlog.Info("info {uid} {pad}", "uid", uid, "pad", pad)
		case 3:
			c.enabled = true
			countlog.Warn("warn {uid} {pad}", "pad", pad, "uid", uid)
		case 4:
			c.enabled = true
			countlog.Error("error {uid} {pad}", "uid", uid, "pad", pad)
		case 5:
			c.enabled = lv >= min
			countlog.Log(lv, "log {uid} {pad}", "uid", uid, "pad", pad)
		case 6:
			c.enabled = true
			ctx.Error("ctx {uid} {pad}", "uid", uid, "pad", pad)
		case 7:
			c.enabled = err != nil || 30 >= min+5
			countlog.InfoCall("call {uid} {pad}", err, "uid", uid, "pad", pad)
		case 8:
			c.enabled = 30 >= min
			ctx.Info("ctx info {uid} {pad}", "uid", uid, "pad", pad)
		}
	})
	c.ret = r.Seq()
	c.done = true
	delete(e.cur, r.Cur())
	if panicked {
		r.Fail("panic", "logging panicked: %v", pan)
	}
	if c.enabled != (c.handed == 1) {
		r.Fail("handed", "event %d (method %d, enabled %v at level %d) was handed to the writer %d times", c.id, m, c.enabled, min, c.handed)
	}
}

func runC23(r *sim.Run) {
	e := &e2e{r: r, cur: map[*sim.Task]*e2eRec{}}
	e.lw = newLogWorld(r)
	k := ljKnobs{compress: 2, coarse: 4, pre: 1000}
	w := newLJ(r, k)
	e.w = w
	if w.mb != 1<<20 {
		w.maxSize = 1
		w.mb = []int{700, 1000, 3000}[r.W.Draw(3)]
		w.max = w.mb
	}
	e.limit = 120
	if r.W.Draw(8) == 1 && w.mb >= 3000 {
		e.limit = 600
	}
	e.nonb = r.W.Draw(3) == 1
	w.match = func(rest string) *ljRec {
		for _, c := range e.all {
			if c.handed > 0 && c.seen == 0 && strings.HasPrefix(rest, c.text) {
				return &c.ljRec
			}
		}
		for _, c := range e.all { // a duplicate
			if c.handed > 0 && strings.HasPrefix(rest, c.text) {
				return &c.ljRec
			}
		}
		return nil
	}
	if r.Swarm.Intn(3) == 0 {
		r.Stalls(4 + r.Swarm.Intn(20))
	}
	for inc := 1 + r.W.Draw(2); inc > 0; inc-- {
		w.boot()
		over := false
		gs, per := 1+r.W.Draw(4), 1+r.W.Draw(12)
		q := []int{0, 1, 2, 5, 100}[r.W.Draw(5)]
		t := r.SpawnProc("app", func() {
			concurrent.LogInfo = func(event string, properties ...interface{}) {}
			loglog.Error = func(err error) { e.errs = append(e.errs, err.Error()) }
			cfg := async.AsyncWriterConfig{QueueLength: q, Writer: w.newLogger(), IsQueueBlocking: !e.nonb}
			if e.nonb {
				cfg.OnMessageDropped = func(p []byte) {
					c := e.cur[r.Cur()]
					if c == nil || c.text != string(p) {
						r.Fail("wrong-drop", "a drop of %s was reported during another call", abbr(string(p)))
					}
					c.drops++
					r.Probe("dropped")
				}
			}
			e.out = async.NewAsyncWriter(cfg)
			countlog.SetMinLevel(e.lw.minLevel)
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: e.lw.theFormat(), Writer: e})
			var ts []*sim.Task
			for g := 0; g < gs; g++ {
				g := g
				ts = append(ts, r.Spawn("app-goroutine", func() {
					for i := 0; i < per; i++ {
						e.log(g, i)
						switch r.W.Draw(6) {
						case 0:
							r.Sleep(pickDur(r, ms, 20*ms, sec))
						case 1:
							r.Yield()
						}
					}
				}))
			}
			r.Join(ts...)
			if err := e.out.Close(); err != nil {
				r.Fail("close", "Close returned %v", err)
			}
			over = true
		})
		r.WaitUntil("application", func() bool { return over || !r.ProcAlive(t.Proc) })
		w.refresh()
		r.Logf("closed: %s", w.listing())
		if len(e.errs) > 0 {
			r.Fail("reported", "with no fault at all an error was reported: %s", e.errs[0])
		}
		e.check()
		if inc == 1 && r.W.Draw(2) == 1 {
			r.Calm()
			r.Sleep(10 * sec)
			w.refresh()
			e.check()
		}
		r.EndProcess(t.Proc)
		w.refresh()
		e.check()
	}
}

func (e *e2e) check() {
	r, w := e.r, e.w
	w.recs = nil
	for _, c := range e.all {
		if c.handed > 0 {
			w.recs = append(w.recs, &c.ljRec)
			if c.drops > 0 {
				c.err = errors.New("dropped")
			}
		}
	}
	if len(w.recs) > 0 {
		w.check("after Close", false)
	}
	kept := 0
	for _, c := range e.all {
		if c.handed > 0 && c.seen+c.drops != 1 {
			r.Fail("conservation", "event %d is on disk %d times and was reported dropped %d times", c.id, c.seen, c.drops)
		}
		kept += c.seen
	}
	if kept > 1 {
		r.Nontriv = true
	}
}
