package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"verifsim/shim/context"
	"verifsim/sim"
)

func init() {
	real := []string{"countlog (dispatch), countlog/stats, gls goroutine ids, concurrent executor (in some runs)"}
	stub := []string{"the collector (delays, stalls)", "the application's logging calls are generated", "the log writer", "goroutines, locks, timers and goroutine ids are simulated"}
	register(&Prop{ID: "C09", Run: runC09, MaxPoints: 3000000, MaxSim: 30 * time.Minute, Real: real, Stub: stub})
	register(&Prop{ID: "C10", Run: runC10, MaxPoints: 3000000, MaxSim: 30 * time.Minute, Real: real, Stub: stub})
}

type gotPoint struct {
	p     *stats.Point
	dim   string
	at    time.Duration
	wall  time.Time
	value float64
}

type statWorld struct {
	r       *sim.Run
	logged  map[string]int // event and dimension -> events
	points  []gotPoint
	windows []*stats.Window
	winName []string
	onPoint func(g gotPoint)
	delay   func(ev string)
	writes  int
	uniq    int
	dead    bool
}

func dimText(ev string, kv []string) string {
	var p []string
	for i := 0; i+1 < len(kv); i += 2 {
		p = append(p, fmt.Sprintf("%s=%q", kv[i], kv[i+1]))
	}
	sort.Strings(p)
	return ev + "{" + strings.Join(p, ",") + "}"
}

// Collect is the collector.
func (w *statWorld) Collect(p *stats.Point) {
	g := gotPoint{p: p, dim: dimText(p.Event, p.Dimension), at: w.r.Now(), wall: w.r.Wall(), value: p.Value}
	w.points = append(w.points, g)
	w.r.Logf("collect %s %v", g.dim, g.value)
	if w.onPoint != nil {
		w.onPoint(g)
	}
	if w.delay != nil {
		w.delay(p.Event)
	} else {
		w.r.Yield()
	}
}

// Write is the log writer.
func (w *statWorld) Write(p []byte) (int, error) {
	w.writes++
	w.r.Yield()
	return len(p), nil
}

// install wires the real aggregator and writer; exec is its executor.
func (w *statWorld) install(exec stats.Executor) {
	agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: exec, Collector: w})
	countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		h := agg.HandlerOf(site)
		if s, ok := h.(stats.State); ok {
			w.windows = append(w.windows, s.GetWindow())
			w.winName = append(w.winName, site.Event)
		}
		return h
	})
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: w})
}

// aggSite is a generated aggregated logging site.
type aggSite struct {
	event  string
	method int
	dims   []string // dimension names
	keys   []string // property keys in order
	pool   int
	text   string
	agg    string
}

var aggEvents = []string{"event!login", "callee!db", "event!pay", "visit {k0}"}

func newAggSite(r *sim.Run, i int) *aggSite {
	s := &aggSite{event: aggEvents[i%len(aggEvents)], method: r.W.Draw(3), pool: 1 + r.W.Draw(4), agg: "counter"}
	nd := r.W.Pick(2, 4, 3, 2, 1, 1, 1)
	s.keys = append(s.keys, "agg")
	first := r.W.Draw(len(dimNames))
	for k := 0; k < nd; k++ {
		s.dims = append(s.dims, dimNames[(first+k)%len(dimNames)])
	}
	s.text = strings.Join(s.dims, ",")
	if r.W.Chance(1, 4) {
		s.text += ",absent"
	}
	if nd > 0 || r.W.Chance(1, 2) {
		s.keys = append(s.keys, "dim")
	}
	s.keys = append(s.keys, s.dims...)
	for k := 0; k < r.W.Draw(3); k++ {
		s.keys = append(s.keys, fmt.Sprintf("other%d", k))
	}
	if r.W.Chance(1, 3) { // a text that looks like a dimension
		s.keys = append(s.keys, nearDims[r.W.Draw(len(nearDims))])
	}
	for k := len(s.keys) - 1; k > 0; k-- { // any order
		j := r.W.Draw(k + 1)
		s.keys[k], s.keys[j] = s.keys[j], s.keys[k]
	}
	return s
}

// like is another site of the event with the same keys, which differs in the values of agg and dim.
func (s *aggSite) like(r *sim.Run) *aggSite {
	o := *s
	o.method = r.W.Draw(3)
	if r.W.Chance(1, 4) {
		o.agg = []string{"gauge", "", "counters"}[r.W.Draw(3)]
		return &o
	}
	o.dims = nil
	for _, d := range s.dims {
		if r.W.Chance(1, 2) {
			o.dims = append(o.dims, d)
		}
	}
	for k := len(o.dims) - 1; k > 0; k-- {
		j := r.W.Draw(k + 1)
		o.dims[k], o.dims[j] = o.dims[j], o.dims[k]
	}
	o.text = strings.Join(o.dims, ",")
	return &o
}

func (s *aggSite) isDim(k string) bool {
	for _, d := range s.dims {
		if d == k {
			return true
		}
	}
	return false
}

// Names that contain one another.
var (
	dimNames = []string{"k0", "k1", "k10", "k_id", "k1_k0", "Kk1", "k"}
	nearDims = []string{"k1_", "K1", "k ", "_k0", "0", "absent0", "bsent", "dims", "aggr", "ki"}
)

func isDim(k string) bool {
	for _, d := range dimNames {
		if d == k {
			return true
		}
	}
	return false
}

// props draws the properties of one event and returns its dimension.
func (s *aggSite) props(w *statWorld) (kv []interface{}, dim string) {
	var d []string
	hasDim := false
	for _, k := range s.keys {
		switch {
		case k == "agg":
			kv = append(kv, k, s.agg)
		case k == "dim":
			kv = append(kv, k, s.text)
			hasDim = true
		case isDim(k):
			v := fmt.Sprintf("v%d", w.r.W.Draw(s.pool))
			switch w.r.W.Draw(20) {
			case 1, 2:
				v = ""
			case 3:
				v += ",k1"
			case 4:
				v = "\u00e9\x00" + v
			case 5:
				v += strings.Repeat("z", 300)
			}
			kv = append(kv, k, v)
			if s.isDim(k) {
				d = append(d, k, v)
			}
		case !strings.HasPrefix(k, "other"):
			kv = append(kv, k, fmt.Sprintf("n%d", w.r.W.Draw(s.pool)))
		default:
			w.uniq++
			kv = append(kv, k, w.uniq)
		}
	}
	if !hasDim {
		d = nil
	}
	return kv, dimText(s.event, d)
}

func (s *aggSite) log(kv []interface{}) {
	switch s.method {
	case 0:
		countlog.Trace(s.event, kv...)
	case 1:
		countlog.Info(s.event, kv...)
	default:
		countlog.Warn(s.event, kv...)
	}
}

func (w *statWorld) checkPoints() {
	for _, g := range w.points {
		if dimText(g.p.Event, g.p.Dimension) != g.dim || g.p.Value != g.value {
			w.r.Fail("point-changed", "a collected point %s changed to %s after it was collected", g.dim, dimText(g.p.Event, g.p.Dimension))
		}
	}
}

func (w *statWorld) sums() map[string]float64 {
	m := map[string]float64{}
	for _, g := range w.points {
		m[g.dim] += g.value
	}
	return m
}

func runC09(r *sim.Run) {
	w := &statWorld{r: r, logged: map[string]int{}}
	if swarm(r, 1, 3) {
		w.delay = func(ev string) {
			if r.F.Chance(1, 6) {
				r.Fault("slow collector")
				r.Sleep(pickDur(r, ms, 300*ms, 2*sec))
			} else {
				r.Yield()
			}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	mode := r.W.Draw(3)
	var ex *concurrent.UnboundedExecutor
	switch mode {
	case 0:
		n := 0
		w.install(func(h func(ctx context.Context)) {
			n++
			r.Spawn("exporter"+itoa(n), func() { h(ctx) })
		})
	case 1:
		ex = concurrent.NewUnboundedExecutor()
		w.install(ex.Go)
	case 2:
		w.install(nil)
	}
	countlog.SetMinLevel(allLevels[r.W.Draw(3)])
	var sites []*aggSite
	ns := 1 + r.W.Draw(4)
	ne := 1 + r.W.Draw(3)
	for i := 0; i < ns; i++ {
		if i > 0 && r.W.Chance(1, 3) {
			sites = append(sites, sites[r.W.Draw(i)].like(r))
			continue
		}
		sites = append(sites, newAggSite(r, r.W.Draw(ne)))
	}
	// direct use of a handler without the logging front end
	direct := r.W.Chance(1, 4)
	handlers := map[*aggSite]spi.EventHandler{}
	if direct {
		for _, s := range sites {
			kv, _ := s.props(w)
			handlers[s] = countlog.EventAggregator.HandlerOf(&spi.LogSite{Event: s.event, Sample: kv})
		}
	}
	nt := 1 + r.W.Draw(5)
	if r.W.Draw(25) == 1 {
		nt = 17 + r.W.Draw(20)
	}
	paced := r.W.Chance(1, 3)
	var ts []*sim.Task
	for i := 0; i < nt; i++ {
		n := 1 + r.W.Draw(10)
		ts = append(ts, r.Spawn("logger"+itoa(i), func() {
			for k := 0; k < n; k++ {
				s := sites[r.W.Draw(len(sites))]
				kv, dim := s.props(w)
				if s.agg != "counter" {
					if !direct {
						s.log(kv)
					}
				} else if direct {
					handlers[s].Handle(&spi.Event{Level: spi.LevelInfo, Timestamp: r.Wall(), Properties: kv})
					w.logged[dim]++
				} else {
					s.log(kv)
					if s.method != 0 || countlog.ShouldLog(spi.LevelTrace) {
						if s.method != 1 || countlog.ShouldLog(spi.LevelInfo) {
							w.logged[dim]++
						}
					}
				}
				// the caller may reuse its property slice
				for j := range kv {
					kv[j] = "reused"
				}
				if paced {
					r.Sleep(pickDur(r, ms, 400*ms, 1200*ms))
				} else {
					r.Yield()
				}
			}
		}))
	}
	// exports at any time
	for i := 0; i < r.W.Draw(3); i++ {
		n := 1 + r.W.Draw(4)
		ts = append(ts, r.Spawn("export"+itoa(i), func() {
			for k := 0; k < n; k++ {
				if len(w.windows) > 0 {
					w.windows[r.W.Draw(len(w.windows))].Export(r.Wall())
				}
				if paced {
					r.Sleep(pickDur(r, ms, 400*ms))
				} else {
					r.Yield()
				}
			}
		}))
	}
	r.Join(ts...)
	if r.W.Chance(1, 2) {
		r.Sleep(pickDur(r, 0, 900*ms, 1500*ms))
	}
	if r.W.Chance(1, 2) {
		cancel()
		if ex != nil {
			ex.Stop()
		}
	}
	for _, x := range w.windows {
		x.Export(r.Wall())
	}
	// an export that began earlier may still be handing over its points
	w.delay = nil
	r.Sleep(2500 * ms)
	w.checkPoints()
	sums := w.sums()
	for _, d := range sim.SortedKeys(w.logged) {
		if sums[d] != float64(w.logged[d]) {
			r.Fail("count", "%s was logged %d times, the collected points add up to %v", d, w.logged[d], sums[d])
		}
	}
	for _, d := range sim.SortedKeys(sums) {
		if w.logged[d] == 0 && sums[d] != 0 {
			r.Fail("count", "%s was never logged but %v was collected", d, sums[d])
		}
	}
	cancel()
	if ex != nil {
		ex.Stop()
	}
	r.Nontriv = len(w.logged) > 0 || r.Nontriv
}

func runC10(r *sim.Run) {
	w := &statWorld{r: r, logged: map[string]int{}}
	const step = 300 * ms // tolerance for scheduling and export work
	ctx, cancel := context.WithCancel(context.Background())
	var ex *concurrent.UnboundedExecutor
	var exporters []*sim.Task
	endless := false // the default executor has no stop
	switch r.W.Draw(5) {
	case 0, 1:
		ex = concurrent.NewUnboundedExecutor()
		w.install(ex.Go)
	case 2:
		endless = true
		w.install(nil)
	default:
		n := 0
		w.install(func(h func(ctx context.Context)) {
			n++
			exporters = append(exporters, r.Spawn("exporter"+itoa(n), func() { h(ctx) }))
		})
	}
	countlog.SetMinLevel(spi.LevelTrace)
	var sites []*aggSite
	ns := 1 + r.W.Draw(3)
	for i := 0; i < ns; i++ {
		s := newAggSite(r, i) // one event per site
		s.method = 1
		sites = append(sites, s)
	}
	// the exporter of one event may stall
	stalled := ""
	var stallFor time.Duration
	stalls := 0
	if ns > 1 && swarm(r, 1, 3) {
		stalled = sites[0].event
		stallFor = pickDur(r, 3*sec, 30*sec)
		w.delay = func(ev string) {
			if ev == stalled && stalls == 0 {
				stalls++
				r.Fault("collector stalls")
				r.Sleep(stallFor)
				return
			}
			r.Yield()
		}
	}
	type pend struct {
		at time.Duration
	}
	pending := map[string][]pend{} // logged, not yet collected
	stopped := time.Duration(-1)
	firstPt := map[string]time.Duration{}
	rounds := map[string]map[int64]bool{}
	known := map[string]bool{}
	w.onPoint = func(g gotPoint) {
		known[g.p.Event] = true
		if g.p.Event == stalled {
			return
		}
		if stopped >= 0 && g.at > stopped+step {
			r.Fail("export-after-stop", "%s was collected %v after the context was cancelled", g.dim, g.at-stopped)
		}
		if d := g.wall.Sub(g.p.Timestamp); d < 0 || d > step {
			r.Fail("wrong-timestamp", "%s is stamped %v, the time is %v", g.dim, g.p.Timestamp, g.wall)
		}
		ps := pending[g.dim]
		if int(g.value) > len(ps) {
			r.Fail("count", "%s: collected %v, only %d are outstanding", g.dim, g.value, len(ps))
		}
		pending[g.dim] = ps[int(g.value):]
		if rounds[g.p.Event] == nil {
			rounds[g.p.Event] = map[int64]bool{}
			firstPt[g.p.Event] = g.at
		}
		rounds[g.p.Event][g.p.Timestamp.UnixNano()] = true
	}
	overdue := func() {
		for _, k := range sim.SortedKeys(pending) {
			d := k
			if stalled != "" && strings.HasPrefix(d, stalled+"{") {
				continue
			}
			if ps := pending[d]; len(ps) > 0 && stopped < 0 && r.Now()-ps[0].at > 2*sec {
				r.Fail("not-exported", "%s logged at %v is not collected at %v", d, ps[0].at, r.Now())
			}
		}
	}
	nt := 1 + r.W.Draw(4)
	var ts []*sim.Task
	calls := 0
	for i := 0; i < nt; i++ {
		n := 1 + r.W.Draw(8)
		ts = append(ts, r.Spawn("logger"+itoa(i), func() {
			for k := 0; k < n; k++ {
				s := sites[r.W.Draw(len(sites))]
				kv, dim := s.props(w)
				if s.event != stalled {
					// noted before the call: an export may see it before the call returns
					pending[dim] = append(pending[dim], pend{r.Now() + 100*ms})
				}
				t0 := r.Now()
				wr := w.writes
				s.log(kv)
				calls++
				if d := r.Now() - t0; s.event != stalled && d > step {
					r.Fail("log-blocked", "logging %s took %v", s.event, d)
				}
				if w.writes == wr {
					r.Fail("not-written", "the event %s was not written", s.event)
				}
				r.Sleep(pickDur(r, ms, 130*ms, 700*ms, 1500*ms, 4*sec))
				overdue()
			}
		}))
	}
	stopAt := pickDur(r, 500*ms, 2500*ms, 6*sec, 20*sec)
	if r.W.Chance(1, 2) { // watch a quiet stretch first
		r.Join(ts...)
		for i := 0; i < 5; i++ {
			r.Sleep(500 * ms)
			overdue()
		}
	} else {
		r.Sleep(stopAt)
	}
	overdue()
	end := r.Now()
	cancel()
	if ex != nil {
		ex.Stop()
	}
	if !endless {
		stopped = end
	}
	// about once a second
	perEvent := map[string]int{}
	for _, n := range w.winName {
		perEvent[n]++
	}
	for _, k := range sim.SortedKeys(rounds) {
		e := k
		max := perEvent[e] * (int((end-firstPt[e])/(800*ms)) + 2)
		if len(rounds[e]) > max {
			r.Fail("too-often", "%s was exported %d times in %v", e, len(rounds[e]), end-firstPt[e])
		}
	}
	r.Sleep(step)
	if stalled == "" && !endless {
		if ex != nil {
			ex.StopAndWait(timeoutCtx(5 * sec))
			t0 := r.Now()
			ex.StopAndWait(timeoutCtx(5 * sec))
			if r.Now()-t0 > sec/2 {
				r.Fail("exporter-alive", "exporters still run %v after the stop", r.Now()-end)
			}
		} else if !r.JoinFor(sec/2, exporters...) {
			r.Fail("exporter-alive", "an exporter still runs %v after the context was cancelled", r.Now()-end)
		}
	}
	r.Sleep(3 * sec)
	r.Join(ts...)
	if endless {
		r.Sleep(3 * sec)
		overdue()
	}
	// logging still works
	s := sites[len(sites)-1]
	if s.event != stalled {
		kv, dim := s.props(w)
		pending[dim] = append(pending[dim], pend{r.Now() + 100*ms})
		wr := w.writes
		t0 := r.Now()
		s.log(kv)
		if w.writes == wr || r.Now()-t0 > step {
			r.Fail("log-after-stop", "logging after the stop wrote %d records and took %v", w.writes-wr, r.Now()-t0)
		}
	}
	w.checkPoints()
	if len(w.windows) > len(sites)*(nt+1) {
		r.Fail("exporters-grow", "%d events at %d sites by %d tasks started %d exporters", calls, len(sites), nt+1, len(w.windows))
	}
	r.Nontriv = calls > 0
}

func timeoutCtx(d time.Duration) context.Context {
	ctx, _ := context.WithTimeout(context.Background(), d)
	return ctx
}
