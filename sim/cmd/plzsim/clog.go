package main

import (
	"context"
	stdjson "encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"verifsim/sim"
)

// The logging workload shared by C06, C07, C08, C22 (and, for its calls, C23).

const (
	mTrace = iota
	mDebug
	mInfo
	mWarn
	mError
	mFatal
	mLog
	mTraceCall
	mDebugCall
	mInfoCall
	mLogAccess
	mLogPanic
	nMethods
)

type lcall struct {
	w      *logWorld
	id     int
	method int
	site   int
	level  int
	name   string
	props  []interface{}
	err    error
	errTxt string
	ctx    *countlog.Context
	ctxKV  []interface{}
	memo   bool // below the level its context suppresses
	agg    bool // an aggregated event
	pan    interface{}

	broken  bool // rendering it may fail: only containment is checked
	noWrap  bool // its error text cannot be computed
	loc     string
	t0, t1  time.Time
	writes  []string
	reports int // loglog reports made during the call
	expRep  int // failed writes of this call
	mayRep  int // writes that were short without an error
	ret     error
	retTxt  string
	nested  *lcall
	ran     bool
}

func (c *lcall) String() string {
	s := fmt.Sprintf("call %d method %d level %d %q props %s", c.id, c.method, c.elevel(), c.name, kvText(c.props))
	if c.ctx != nil {
		s += " ctx " + kvText(c.ctxKV)
	}
	if c.errTxt != "" {
		s += " err " + c.errTxt
	}
	return s
}

// here records the location of the calling site.
func (c *lcall) here() {
	_, file, line, _ := runtime.Caller(1)
	c.loc = fmt.Sprintf("%s:%d", file, line)
	s := c.w.sites[c.name]
	for _, l := range s {
		if l == c.loc {
			return
		}
	}
	c.w.sites[c.name] = append(s, c.loc)
}

// elevel is the level of the event.
func (c *lcall) elevel() int {
	switch c.method {
	case mTrace:
		return spi.LevelTrace
	case mDebug:
		return spi.LevelDebug
	case mInfo:
		return spi.LevelInfo
	case mWarn:
		return spi.LevelWarn
	case mError:
		return spi.LevelError
	case mFatal, mLogPanic:
		return spi.LevelFatal
	case mLog:
		return c.level
	}
	if c.err != nil {
		if c.method == mLogAccess {
			return spi.LevelError
		}
		return spi.LevelWarn
	}
	switch c.method {
	case mTraceCall:
		return spi.LevelTrace
	case mDebugCall:
		return spi.LevelDebug
	}
	return spi.LevelInfo
}

func (c *lcall) isCall() bool { return c.method >= mTraceCall && c.method <= mLogAccess }

// enabled tells whether the call must write a record.
func (c *lcall) enabled() bool {
	min := c.w.minLevel
	if c.isCall() {
		return c.err != nil || c.elevel() >= min+5
	}
	if c.agg {
		// written individually half a level higher
		return c.elevel() >= min+5
	}
	switch c.method {
	case mWarn, mError, mFatal:
		return true
	case mLogPanic:
		return c.pan != nil
	}
	if c.memo && c.method == mTrace {
		return false
	}
	return c.elevel() >= min
}

type logWorld struct {
	r        *sim.Run
	format   int
	layout   string
	showTS   bool
	minLevel int
	names    []string
	shapes   map[string][]shapeGen
	sites    map[string][]string
	stack    map[*sim.Task][]*lcall
	nextID   int

	mixShapes  bool // several shapes per name
	errs       bool // mostly call-style with errors
	writeFails bool
	badValues  bool
	nesting    bool
	slow       bool
	collect    bool // there is a collector: counters are aggregated
	growing    bool // contexts are used for several events and grow
	ctxs       map[*sim.Task]*lcall
	rets       []*lcall                    // calls that returned a wrapped error, some of the latest
	write      func(p []byte) (int, error) // the sink behind the checks, nil = none
	reports    []string
	expReports []string
	curWrites  int
	allWrites  int
	tsk        int
}

type shapeGen struct {
	keys  []string
	kinds []int
}

var allLevels = []int{spi.LevelTrace, spi.LevelDebug, spi.LevelInfo, spi.LevelWarn, spi.LevelError, spi.LevelFatal}

var layouts = []string{"[{level}] {message}", "{message} {level} {line}", "{timestamp, goTime, 15:04:05} {func} {file}:{line} {event} || {message}"}

func newLogWorld(r *sim.Run) *logWorld {
	w := &logWorld{r: r, sites: map[string][]string{}, stack: map[*sim.Task][]*lcall{}, shapes: map[string][]shapeGen{}, ctxs: map[*sim.Task]*lcall{}}
	w.format = r.W.Draw(4)
	w.showTS = r.W.Chance(1, 2)
	w.layout = layouts[r.W.Draw(len(layouts))]
	w.minLevel = allLevels[r.W.Pick(4, 2, 2, 1, 1, 1)]
	return w
}

func (w *logWorld) theFormat() output.Format {
	switch w.format {
	case 0:
		return &compact.Format{}
	case 1:
		return &json.JsonFormat{}
	case 2:
		return &hrf.Format{ShowTimestamp: w.showTS}
	default:
		return &printf.Format{Layout: w.layout}
	}
}

func (w *logWorld) install() {
	countlog.SetMinLevel(w.minLevel)
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: w.theFormat(), Writer: w})
	if w.collect {
		countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
			Executor:  func(func(context.Context)) {},
			Collector: w,
		})
	}
	loglog.Error = func(err error) {
		w.reports = append(w.reports, err.Error())
		if c := w.cur(); c != nil {
			c.reports++
		}
		w.r.Yield()
	}
}

func (w *logWorld) cur() *lcall {
	s := w.stack[w.r.Cur()]
	if len(s) == 0 {
		return nil
	}
	return s[len(s)-1]
}

// Collect is the collector.
func (w *logWorld) Collect(*stats.Point) {}

// Write is the configured writer.
func (w *logWorld) Write(p []byte) (n int, err error) {
	r := w.r
	s := string(p)
	c := w.cur()
	if c == nil {
		r.Fail("stray-write", "a write of %s outside any logging call", abbr(s))
	}
	c.writes = append(c.writes, s)
	w.allWrites++
	r.Logf("write for call %d: %s", c.id, abbr(s))
	if w.slow && r.F.Chance(1, 4) {
		r.Fault("slow writer")
		r.Sleep(pickDur(r, 10*time.Microsecond, ms, 20*ms))
	} else {
		r.Yield()
	}
	if w.nesting && c.nested == nil && len(w.stack[r.Cur()]) == 1 && r.W.Chance(1, 20) {
		r.Probe("writer logs")
		w.perform(w.newCall())
	}
	if string(p) != s {
		r.Fail("buffer-changed", "the buffer of call %d, %s, changed to %s during the write", c.id, abbr(s), abbr(string(p)))
	}
	if w.write != nil {
		return w.write(p)
	}
	if w.writeFails {
		switch r.F.Pick(6, 2, 1, 1, 1) {
		case 1:
			r.Fault("writer error")
			c.expRep++
			e := someError(r.F, fmt.Sprintf("writer error %d", c.id))
			w.expReports = append(w.expReports, e.Error())
			return 0, e
		case 2:
			r.Fault("short write")
			c.expRep++
			e := someError(r.F, fmt.Sprintf("short write %d", c.id))
			w.expReports = append(w.expReports, e.Error())
			return []int{len(p) / 2, len(p), 1, len(p) - 1}[r.F.Draw(4)], e
		case 3:
			r.Fault("writer panic")
			c.expRep++
			e := fmt.Sprintf("writer panic %d", c.id)
			w.expReports = append(w.expReports, e)
			panic(e)
		case 4:
			r.Fault("short write without an error")
			c.mayRep++
			return []int{len(p) / 2, 0, len(p) - 1}[r.F.Draw(3)], nil
		}
	}
	return len(p), nil
}

var logNames = []string{"event!one", "callee!two", "three {a} and {b}", "four", "five {b}", "event!six", "{a}", "seven {c}!"}
var logKeys = [][]string{{"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c", "a", "b"}, {"x", "a", "y", "b", "c"}, {"a"}, {"b"}, {}, {"a", "b", "a"}, {"a", "timer", "b"}}

// makeNames draws the event names of the run and the shapes of their properties.
func (w *logWorld) makeNames() {
	r := w.r
	n := 1 + r.W.Draw(4)
	off := r.W.Draw(len(logNames))
	for i := 0; i < n; i++ {
		name := logNames[(off+i)%len(logNames)]
		w.names = append(w.names, name)
		ns := 1
		if w.mixShapes {
			ns = 2 + r.W.Draw(3)
		}
		for k := 0; k < ns; k++ {
			w.shapes[name] = append(w.shapes[name], w.newShape(name))
		}
	}
}

func (w *logWorld) newShape(name string) shapeGen {
	r := w.r
	for {
		keys := logKeys[r.W.Draw(len(logKeys))]
		ok := true
		for _, k := range []string{"a", "b", "c"} {
			if strings.Contains(name, "{"+k+"}") && !hasKey(keys, k) {
				ok = false
			}
		}
		if !ok && !(w.mixShapes && r.W.Chance(1, 4)) {
			continue
		}
		s := shapeGen{keys: keys}
		for range keys {
			kind := r.W.Draw(valueKinds)
			if !ok && kind >= 6 { // the text for a malformed message prints the arguments
				kind = kind % 2
			}
			s.kinds = append(s.kinds, kind)
		}
		return s
	}
}

func hasKey(ks []string, k string) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

func (w *logWorld) newCall() *lcall {
	r := w.r
	w.nextID++
	c := &lcall{w: w, id: w.nextID, site: r.W.Draw(3)}
	c.name = w.names[r.W.Draw(len(w.names))]
	if w.errs {
		c.method = mTraceCall + r.W.Draw(4)
	} else {
		c.method = r.W.Pick(2, 2, 4, 3, 2, 2, 2, 2, 2, 2, 2, 1)
	}
	if c.method == mLogPanic {
		c.name = "event!panic"
		c.pan = []interface{}{fmt.Sprintf("panic%d", c.id), fmt.Errorf("panic%d", c.id), c.id, nil}[r.W.Pick(4, 3, 3, 1)]
	}
	if c.method == mLog {
		c.level = allLevels[r.W.Draw(len(allLevels))]
	}
	if c.isCall() && r.W.Chance(1, 2) {
		c.err = someError(r.W, fmt.Sprintf("err%d", c.id))
		c.errTxt = c.err.Error()
		if r.W.Chance(1, 6) {
			c.err = &errer{c.errTxt, r.Yield}
		}
		if len(w.rets) > 0 && r.W.Chance(1, 4) {
			// reported again by a caller further up
			o := w.rets[r.W.Draw(len(w.rets))]
			c.err, c.errTxt = o.ret, o.retTxt
			r.Probe("error logged again")
		}
	}
	ss := w.shapes[c.name]
	if c.method == mLogPanic {
		ss = []shapeGen{{keys: []string{"x"}[:r.W.Draw(2)], kinds: []int{r.W.Draw(6)}}}
	}
	s := ss[r.W.Draw(len(ss))]
	for i, k := range s.keys {
		v := someValue(r, c.id*10+i, s.kinds[i])
		if k == "timer" {
			v = w.timer()
		}
		c.props = append(c.props, k, v)
	}
	if w.collect && !c.isCall() && c.method != mLogPanic && r.W.Chance(1, 3) {
		c.agg = true
		c.props = append(c.props, "agg", "counter")
		if r.W.Chance(1, 2) {
			c.props = append(c.props, "dim", "city", "city", someText(r, c.id))
		}
	}
	if c.method == mLogAccess || (c.method != mLog && c.method != mLogPanic && r.W.Chance(1, 3)) {
		last := w.ctxs[r.Cur()]
		if w.growing && last != nil && len(w.stack[r.Cur()]) == 0 && r.W.Chance(1, 2) {
			c.ctx = countlog.Ctx(last.ctx)
			c.ctxKV = append([]interface{}(nil), last.ctxKV...)
		} else {
			c.ctx = countlog.Ctx(context.Background())
		}
		if len(w.stack[r.Cur()]) == 0 {
			w.ctxs[r.Cur()] = c
		}
		nk := 0
		if w.mixShapes || r.W.Chance(1, 2) {
			nk = r.W.Draw(3)
		}
		for i := 0; i < nk; i++ {
			k := []string{"ctxa", "ctxb", "a"}[r.W.Draw(3)]
			v := someValue(r, c.id*10+5+i, r.W.Draw(3))
			if r.W.Chance(1, 3) {
				spi.AddLogContext(c.ctx, k, v)
			} else {
				c.ctx.Add(k, v)
			}
			c.ctxKV = append(c.ctxKV, k, v)
		}
		if r.W.Chance(1, 6) && !w.growing {
			lv := allLevels[r.W.Draw(len(allLevels))]
			c.ctx.SuppressLevelsBelow(lv)
			c.memo = spi.LevelTrace < lv
		}
	}
	if w.nesting && len(w.stack[r.Cur()]) == 0 && r.W.Chance(1, 16) && len(c.props) > 0 && hasKey(s.keys, "a") {
		for i := 0; i < len(c.props); i += 2 {
			if c.props[i] == "a" {
				in := w.newCallNoNest()
				c.nested = in
				c.props[i+1] = &strer{fmt.Sprintf("nest%d", c.id), func() {
					r.Probe("String logs")
					if !in.ran {
						w.perform(in)
					}
				}}
				break
			}
		}
	}
	if w.badValues && r.F.Chance(1, 3) {
		w.breakCall(c)
	}
	return c
}

// timer starts a timer the way an application does, or remembers an earlier start.
func (w *logWorld) timer() int64 {
	r := w.r
	var v int64
	lv := spi.LevelTrace
	t0 := r.Wall().UnixNano()
	switch r.W.Draw(4) {
	case 0:
		return r.Wall().Add(-pickDur(r, 5*ms, 3*sec)).UnixNano()
	case 1:
		v = countlog.TraceTimer()
	case 2:
		v, lv = countlog.DebugTimer(), spi.LevelDebug
	case 3:
		v, lv = countlog.InfoTimer(), spi.LevelInfo
	}
	if t1 := r.Wall().UnixNano(); lv >= w.minLevel && (v < t0 || v > t1) || lv < w.minLevel && v != 0 {
		r.Fail("wrong-timer", "a timer of level %d at minimum level %d is %d, the time is %d", lv, w.minLevel, v, t1)
	}
	return v
}

func (w *logWorld) newCallNoNest() *lcall {
	n, b, g := w.nesting, w.badValues, w.growing
	w.nesting, w.badValues, w.growing = false, false, false
	last := w.ctxs[w.r.Cur()]
	c := w.newCall()
	w.ctxs[w.r.Cur()] = last
	w.nesting, w.badValues, w.growing = n, b, g
	return c
}

type badJSON struct{ r *sim.Run }

func (b badJSON) MarshalJSON() ([]byte, error) { b.r.Yield(); panic("json panic") }

type structOdd struct {
	F func()
	C chan int
	A interface{}
	M map[string]interface{}
	E error
}

// breakCall makes the event one whose rendering may fail.
func (w *logWorld) breakCall(c *lcall) {
	r := w.r
	c.broken = true
	kind := r.F.Draw(14)
	set := func(v interface{}) {
		if len(c.props) < 2 {
			c.props = []interface{}{"a", nil}
		}
		c.props[1+2*r.F.Draw(len(c.props)/2)] = v
	}
	bad := func() { r.Yield(); panic("value panic") }
	switch kind {
	case 0:
		r.Fault("String panics")
		c.noWrap = true
		set(&strer{"x", bad})
	case 1:
		r.Fault("Error of a property panics")
		c.noWrap = true
		set(&errer{"x", bad})
	case 2:
		r.Fault("odd property count")
		c.noWrap = true
		c.props = append(c.props, "lonely")
	case 3:
		r.Fault("key is not a string")
		c.noWrap = true
		c.props = append([]interface{}{c.id, "v"}, c.props...)
	case 4:
		r.Fault("nil Stringer")
		c.noWrap = true
		set((*strer)(nil))
	case 5:
		r.Fault("malformed message")
		c.noWrap = true
		c.name = badFormats[r.F.Draw(len(badFormats))]
	case 6:
		r.Fault("MarshalJSON panics")
		c.noWrap = true
		set(badJSON{r})
	case 7:
		r.Fault("odd value types")
		c.noWrap = true
		set(structOdd{F: func() {}, A: []interface{}{nil, 1, "x"}, M: map[string]interface{}{"q": nil}})
	case 8:
		r.Fault("func value")
		c.noWrap = true
		set(func() {})
	case 9:
		r.Fault("nil error pointer")
		c.noWrap = true
		set((*errer)(nil))
	case 10:
		if c.isCall() {
			r.Fault("Error of the error panics")
			c.noWrap = true
			c.err = &errer{"x", bad}
			c.errTxt = "x"
		}
	case 11:
		r.Fault("timer is not a number")
		c.noWrap = true
		c.props = append(c.props, "timer", "soon")
	case 12:
		r.Fault("key that is no identifier")
		c.noWrap = true
		c.props = append(c.props, []string{"", "a-b", "{", "}", "a}b", "k,goTime"}[r.F.Draw(6)], 1)
	case 13:
		r.Fault("agg or dim is not a string")
		c.noWrap = true
		c.props = append(c.props, []string{"agg", "dim"}[r.F.Draw(2)], 5)
	}
}

// perform makes the call and checks what it did.
func (w *logWorld) perform(c *lcall) {
	r := w.r
	t := r.Cur()
	c.ran = true
	w.stack[t] = append(w.stack[t], c)
	c.t0 = r.Wall()
	r.Logf("begin %s", c)
	var f func(*lcall) error
	if c.ctx != nil {
		f = ctxSites[c.method][c.site]
	} else {
		f = plainSites[c.method][c.site]
	}
	orig := c.props
	spare := append(append(make([]interface{}, 0, len(orig)+4), orig...), "s1", "s2", "s3", "s4")
	c.props = spare[:len(orig)]
	p, panicked := try(func() { c.ret = f(c) })
	c.t1 = r.Wall()
	c.props = orig
	for i, v := range []string{"s1", "s2", "s3", "s4"} {
		if spare[len(orig)+i] != v {
			r.Fail("properties-changed", "%s wrote %v behind the caller's properties", c, spare[len(orig)+i])
		}
	}
	w.stack[t] = w.stack[t][:len(w.stack[t])-1]
	if panicked {
		r.Fail("panic", "%s panicked in the application: %s", c, sim.PanicText(p))
	}
	w.checkCall(c)
	r.Nontriv = true
}

func (w *logWorld) checkCall(c *lcall) {
	r := w.r
	// result
	if c.isCall() {
		switch {
		case c.err == nil && c.ret != nil:
			r.Fail("spurious-error", "%s returned the error %q though none was given", c, c.ret)
		case c.err != nil && c.ret == nil:
			r.Fail("error-lost", "%s returned nil though an error was given", c)
		case c.err != nil && !c.noWrap:
			want := messageText(c.name, c.props) + ": " + c.errTxt
			if got := c.ret.Error(); got != want {
				r.Fail("wrong-error-text", "%s returned the error %s, expected %s", c, abbr(got), abbr(want))
			}
			if len(want) < 400 {
				c.retTxt = want
				if len(w.rets) < 4 {
					w.rets = append(w.rets, c)
				} else {
					w.rets[c.id%4] = c
				}
			}
		}
	}
	if c.method == mLogPanic && c.broken {
		// the error and the stack follow
	} else if c.method == mLogPanic {
		w.checkPanic(c)
		return
	}
	if c.broken {
		if len(c.writes) > 1 {
			r.Fail("write-count", "%s made %d writes", c, len(c.writes))
		}
		if c.enabled() && len(c.writes) == 0 && c.reports == 0 {
			r.Fail("silent-loss", "%s left neither a record nor a report", c)
		}
		if len(c.writes) == 1 && c.reports < c.expRep {
			r.Fail("write-not-reported", "the failed write of %s was not reported", c)
		}
		return
	}
	want := 0
	if c.enabled() {
		want = 1
	}
	if w.collect && c.isCall() && c.err == nil && want == 0 && c.elevel() >= w.minLevel && len(c.writes) == 1 {
		want = 1 // call-style events are not aggregated by this collector; they may be written at their own level
	}
	if len(c.writes) != want {
		r.Fail("write-count", "%s at minimum level %d made %d writes before it returned, expected %d: %s", c, w.minLevel, len(c.writes), want, abbr(strings.Join(c.writes, "|")))
	}
	if c.reports < c.expRep || c.reports > c.expRep+c.mayRep {
		r.Fail("report-count", "%s: %d writes failed, %d reports were made: %s", c, c.expRep, c.reports, abbr(strings.Join(w.reports, "|")))
	}
	if want == 1 {
		if msg := w.matchRecord(c, c.writes[0]); msg != "" {
			r.Fail("wrong-record", "%s: %s in record %s", c, msg, strconv.Quote(abbr(c.writes[0])))
		}
	}
}

// checkPanic checks the record of LogPanic.
func (w *logWorld) checkPanic(c *lcall) {
	r := w.r
	want := 1
	if c.pan == nil {
		want = 0
	}
	if len(c.writes) != want {
		r.Fail("write-count", "%s (panic %v) made %d writes, expected %d", c, c.pan, len(c.writes), want)
	}
	if c.reports < c.expRep || c.reports > c.expRep+c.mayRep {
		r.Fail("report-count", "%s: %d writes failed, %d reports were made", c, c.expRep, c.reports)
	}
	if want == 1 && w.format == 0 {
		s := "] panic"
		for i := 0; i < len(c.props); i += 2 {
			s += "||" + c.props[i].(string) + "=" + renderText(c.props[i+1])
		}
		s += "||err=" + renderText(c.pan) + "||stacktrace="
		if !strings.Contains(c.writes[0], s) || !strings.HasPrefix(c.writes[0], "[FATAL] [") || !strings.HasSuffix(c.writes[0], "\n") {
			r.Fail("wrong-record", "%s: the record %s lacks %q", c, strconv.Quote(abbr(c.writes[0])), s)
		}
	}
}

func (w *logWorld) finish() {
	// every report belongs to a failure
	r := w.r
	left := append([]string(nil), w.reports...)
	for _, e := range w.expReports {
		n, want := 0, 0
		for _, g := range left {
			if strings.Contains(g, e+"\n") || strings.HasSuffix(g, e) {
				n++
			}
		}
		for _, x := range w.expReports {
			if strings.HasSuffix(x, e) {
				want++
			}
		}
		if n != want {
			r.Fail("report-count", "the failure %q was reported %d times, expected %d", e, n, want)
		}
	}
}

// messageText is the message of an event name with its properties.
func messageText(name string, kv []interface{}) string {
	if s, ok := expandFormat(name, kv); ok {
		return s
	}
	missing := ""
	for _, k := range []string{"a", "b", "c"} {
		if i := strings.Index(name, "{"+k+"}"); i >= 0 {
			if _, ok := expandFormat("{"+k+"}", kv); !ok && (missing == "" || i < strings.Index(name, "{"+missing+"}")) {
				missing = k
			}
		}
	}
	args := ""
	if _, err := stdjson.Marshal(kv); err == nil {
		args = fmt.Sprintf("%v", kv)
	}
	return "%! (INVALID FORMAT) " + missing + " not found in args%! (FORMAT ARGS) " + args
}

// tokens of an expected record
type tok struct {
	kind byte // 'l' literal, 'f' function name, 'o' file:line, 'r' RFC3339, 'n' nanoseconds, 't' 15:04:05.000, 's' 15:04:05, 'd' duration since n
	s    string
	n    int64
}

func lit(s string) tok { return tok{kind: 'l', s: s} }

func firstValue(kv []interface{}, k string) interface{} {
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i] == k {
			return kv[i+1]
		}
	}
	return nil
}

func (w *logWorld) template(c *lcall) (ts []tok) {
	level := spi.LevelName(c.elevel())
	loc := []tok{{kind: 'f'}, lit(" @ "), {kind: 'o'}}
	switch w.format {
	case 0:
		ts = append(ts, lit("["+level+"] ["), tok{kind: 'r'}, lit("]["))
		ts = append(ts, loc...)
		msg := ""
		if strings.HasPrefix(c.name, "event!") {
			msg = c.name[6:]
		} else if strings.HasPrefix(c.name, "callee!") {
			msg = "call " + c.name[7:]
		} else {
			msg = messageText(c.name, c.props)
		}
		s := "] " + msg
		if c.err != nil && c.errTxt != "" {
			s += " error:" + c.errTxt
		}
		for i := 0; i < len(c.props); i += 2 {
			k := c.props[i].(string)
			s += "||" + k + "=" + renderText(firstValue(c.props, k))
		}
		return append(ts, lit(s+"\n"))
	case 1:
		s := `{"event":"` + c.name + `"`
		for i := 0; i < len(c.props); i += 2 {
			s += `,"` + c.props[i].(string) + `":` + renderJSONTop(c.props[i+1])
		}
		ts = append(ts, lit(s+",timestamp:"), tok{kind: 'n'}, lit(`,location:"`))
		ts = append(ts, loc...)
		return append(ts, lit("\"}\n"))
	case 2:
		s := "\x1b[" + levelColor[level] + ";1m[" + level + "]\x1b[0m "
		if strings.HasPrefix(c.name, "event!") {
			s += c.name[6:]
		} else if strings.HasPrefix(c.name, "callee!") {
			s += c.name[7:]
		} else {
			s += messageText(c.name, c.props)
		}
		ts = append(ts, lit(s))
		if w.showTS {
			ts = append(ts, lit("\n\x1b[90;1mtimestamp: "), tok{kind: 't'}, lit("\x1b[0m"))
		}
		s = ""
		if c.err != nil && c.errTxt != "" {
			s += "\n\x1b[90;1merror: " + c.errTxt + "\x1b[0m"
		}
		for i := 0; i < len(c.ctxKV); i += 2 {
			k := c.ctxKV[i].(string)
			s += "\x1b[90;1m\n" + k + ": " + renderText(firstValue(c.ctxKV, k)) + "\x1b[0m"
		}
		ts = append(ts, lit(s))
		for i := 0; i < len(c.props); i += 2 {
			k := c.props[i].(string)
			if k == "timer" {
				ts = append(ts, lit("\x1b[90;1m\ntimer: "), tok{kind: 'd', n: c.props[i+1].(int64)}, lit("\x1b[0m"))
				continue
			}
			ts = append(ts, lit("\x1b[90;1m\n"+k+": "+renderText(firstValue(c.props, k))+"\x1b[0m"))
		}
		ts = append(ts, lit("\x1b[90;1m"))
		if c.elevel() >= spi.LevelWarn {
			ts = append(ts, lit("\nlocation: "))
			ts = append(ts, loc...)
		}
		return append(ts, lit("\x1b[0m\n"))
	}
	rest := w.layout
	for rest != "" {
		i := strings.IndexByte(rest, '{')
		if i < 0 {
			ts = append(ts, lit(rest))
			break
		}
		ts = append(ts, lit(rest[:i]))
		j := strings.IndexByte(rest, '}')
		switch name := strings.TrimSpace(strings.Split(rest[i+1:j], ",")[0]); name {
		case "level":
			ts = append(ts, lit(level))
		case "message":
			ts = append(ts, lit(escapeBytes(messageText(c.name, c.props))))
		case "timestamp":
			ts = append(ts, tok{kind: 's'})
		case "func":
			ts = append(ts, tok{kind: 'f'})
		case "file":
			ts = append(ts, tok{kind: 'p'})
		case "line":
			ts = append(ts, tok{kind: 'i'})
		case "event":
			ts = append(ts, lit(c.name))
		}
		rest = rest[j+1:]
	}
	return append(ts, lit("\n"))
}

var levelColor = map[string]string{"TRACE": "36", "DEBUG": "34", "INFO": "32", "WARN": "33", "ERROR": "31", "FATAL": "35"}

func renderJSONTop(v interface{}) string {
	switch x := v.(type) {
	case *strer:
		_ = x
		return "{}"
	}
	return renderJSON(v)
}

// matchRecord returns what is wrong with the record, if anything.
func (w *logWorld) matchRecord(c *lcall, got string) string {
	for _, loc := range w.sites[c.name] {
		if w.matchAt(c, got, loc) == "" {
			return ""
		}
	}
	return w.matchAt(c, got, c.loc)
}

func (w *logWorld) matchAt(c *lcall, got, loc string) string {
	rest := got
	colon := strings.LastIndexByte(loc, ':')
	file, line := loc[:colon], loc[colon+1:]
	take := func(s string) bool {
		if !strings.HasPrefix(rest, s) {
			return false
		}
		rest = rest[len(s):]
		return true
	}
	during := func(layout string, n int) string {
		if len(rest) < n {
			return "timestamp cut off"
		}
		s := rest[:n]
		rest = rest[n:]
		lo, hi := c.t0.UTC(), c.t1.UTC()
		for t := lo; ; t = t.Add(ms) {
			if t.After(hi) {
				t = hi
			}
			if t.Format(layout) == s {
				return ""
			}
			if t.Equal(hi) || t.After(lo.Add(20*sec)) {
				break
			}
		}
		return fmt.Sprintf("timestamp %q is not between %s and %s", s, lo.Format(layout), hi.Format(layout))
	}
	for _, t := range w.template(c) {
		switch t.kind {
		case 'l':
			if !take(t.s) {
				return fmt.Sprintf("expected %s at offset %d", strconv.Quote(abbr(t.s)), len(got)-len(rest))
			}
		case 'f':
			i := strings.IndexAny(rest, " |")
			if i <= 0 {
				return "function name missing"
			}
			rest = rest[i:]
		case 'o':
			if !take(file + ":" + line) {
				return fmt.Sprintf("location is not %s", loc)
			}
		case 'p':
			if !take(file) {
				return fmt.Sprintf("file is not %s", file)
			}
		case 'i':
			if !take(line) {
				return fmt.Sprintf("line is not %s", line)
			}
		case 'r':
			if m := during("2006-01-02T15:04:05Z07:00", 20); m != "" {
				return m
			}
		case 't':
			if m := during("15:04:05.000", 12); m != "" {
				return m
			}
		case 's':
			if m := during("15:04:05", 8); m != "" {
				return m
			}
		case 'n', 'd':
			i := 0
			for i < len(rest) && rest[i] != ',' && rest[i] != '\x1b' {
				i++
			}
			s := rest[:i]
			rest = rest[i:]
			var at int64
			if t.kind == 'n' {
				at, _ = strconv.ParseInt(s, 10, 64)
			} else {
				d, err := time.ParseDuration(s)
				if err != nil {
					return "timer is " + s
				}
				at = t.n + int64(d)
			}
			if at < c.t0.UnixNano() || at > c.t1.UnixNano() {
				return fmt.Sprintf("time %s is not during the call", s)
			}
		}
	}
	if rest != "" {
		return "extra bytes " + strconv.Quote(abbr(rest))
	}
	return ""
}

// run lets tasks log.
func (w *logWorld) run() {
	r := w.r
	w.makeNames()
	w.install()
	for phase := 1 + r.W.Draw(2); phase > 0; phase-- {
		nt := 1 + r.W.Draw(4)
		var ts []*sim.Task
		for i := 0; i < nt; i++ {
			n := 1 + r.W.Draw(8)
			ts = append(ts, r.Spawn("logger"+itoa(i), func() {
				for k := 0; k < n; k++ {
					w.perform(w.newCall())
				}
			}))
		}
		r.Join(ts...)
		// the level is changed while nobody logs
		w.minLevel = allLevels[r.W.Draw(len(allLevels))]
		countlog.SetMinLevel(w.minLevel)
	}
	w.finish()
}

func init() {
	real := []string{"countlog, countlog/output and its compact, hrf, json and printf formats, countlog/spi, countlog/loglog, msgfmt, parse"}
	stub := []string{"the log writer (delays, errors, panics)", "the application's logging calls, values and String/Error methods are generated", "goroutines, locks, pools and the clock are simulated"}
	for _, id := range []string{"C06", "C07", "C08", "C22"} {
		id := id
		register(&Prop{ID: id, MaxPoints: 4000000, MaxSim: 10 * time.Minute, Real: real, Stub: stub, Run: func(r *sim.Run) {
			w := newLogWorld(r)
			w.slow = swarm(r, 1, 2)
			w.growing = swarm(r, 1, 3)
			w.collect = swarm(r, 1, 4) && (id == "C06" || id == "C08")
			switch id {
			case "C06":
				w.nesting = swarm(r, 1, 3)
			case "C07":
				w.writeFails = swarm(r, 2, 3)
				w.badValues = swarm(r, 2, 3)
				w.nesting = swarm(r, 1, 4)
				w.mixShapes = swarm(r, 1, 4)
			case "C08":
				w.mixShapes = true
				w.nesting = swarm(r, 1, 6)
			case "C22":
				w.errs = true
				w.mixShapes = swarm(r, 1, 2)
				w.writeFails = swarm(r, 1, 4)
			}
			w.run()
		}})
	}
}
