package main

import (
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"
	"verifsim/sim"
)

func init() {
	stub := []string{"the underlying writer (records, delays, fails, stalls)", "producers are generated workload", "goroutines, channels, timers and clock are simulated"}
	real := []string{"countlog/output/async (all of it)", "concurrent.UnboundedExecutor"}
	register(&Prop{ID: "C03", Run: runC03, MaxSim: 5 * time.Minute, Real: real, Stub: stub})
	register(&Prop{ID: "C04", Run: runC04, MaxSim: 5 * time.Minute, Real: real, Stub: stub})
	register(&Prop{ID: "C05", Run: runC05, MaxSim: 30 * time.Minute, Real: real, Stub: stub})
}

type sinkRec struct {
	start, end int64
	data       string
	failed     bool
}

// asink is the writer under an async writer.
type asink struct {
	r        *sim.Run
	recs     []*sinkRec
	busy     bool
	delay    func() time.Duration
	failN    int // one in failN writes fails; 0 = never
	stalled  bool
	panics   bool // some failing writes panic
	errs     []error
	closes   []int64
	closeErr error
	closedAt time.Duration
	slowEnd  time.Duration
}

func (s *asink) Write(p []byte) (int, error) {
	r := s.r
	rec := &sinkRec{start: r.Seq(), data: string(p)}
	if s.busy {
		r.Fail("concurrent-write", "two underlying writes at the same time")
	}
	if len(s.closes) > 0 {
		r.Fail("write-after-close", "%s was written to the sink after it was closed", abbr(rec.data))
	}
	s.busy = true
	s.recs = append(s.recs, rec)
	if s.stalled {
		r.Fault("sink stalled")
		r.WaitUntil("sink release", func() bool { return !s.stalled })
	}
	if s.delay != nil {
		if d := s.delay(); d > 0 {
			r.Fault("slow sink write")
			r.Sleep(d)
		} else {
			r.Yield()
		}
	}
	if string(p) != rec.data {
		r.Fail("buffer-changed", "the buffer of %s changed to %s while the sink was writing it", abbr(rec.data), abbr(string(p)))
	}
	s.busy = false
	rec.end = r.Seq()
	if s.failN > 0 && r.F.Chance(1, s.failN) {
		rec.failed = true
		err := someError(r.F, fmt.Sprintf("sink error %d.", len(s.errs)))
		s.errs = append(s.errs, err)
		if s.panics && r.F.Chance(1, 2) {
			r.Fault("sink panic")
			if r.F.Chance(1, 2) {
				panic(err.Error())
			}
			panic(err)
		}
		if r.F.Chance(1, 2) {
			r.Fault("sink short write")
			return []int{len(p) / 2, len(p), 1}[r.F.Draw(3)], err
		}
		r.Fault("sink write error")
		return 0, err
	}
	return len(p), nil
}

type asinkCloser struct{ *asink }

func (s asinkCloser) Close() error {
	if s.busy {
		s.r.Fail("close-during-write", "the sink was closed while a write to it was in progress")
	}
	s.closes = append(s.closes, s.r.Seq())
	if len(s.closes) > 1 {
		s.r.Fail("closed-twice", "the sink was closed %d times", len(s.closes))
	}
	return s.closeErr
}

func abbr(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

type amsg struct {
	p, k       int
	data       string
	begin, ret int64
	n          int
	err        error
	dropped    int64
	pos        int
}

type aworld struct {
	r      *sim.Run
	s      *asink
	w      async.ClosableWriter
	q      int
	msgs   []*amsg
	byData map[string]*amsg
	logs   []error
}

func newAWorld(r *sim.Run, blocking bool, q int, closable bool, onDrop func(w *aworld) func([]byte)) *aworld {
	w := &aworld{r: r, s: &asink{r: r}, q: q, byData: map[string]*amsg{}}
	if q == 0 {
		w.q = 1024
	}
	concurrent.LogInfo = func(event string, properties ...interface{}) {}
	loglog.Error = func(err error) { w.logs = append(w.logs, err) }
	var sink io.Writer = w.s
	if closable {
		sink = asinkCloser{w.s}
	}
	cfg := async.AsyncWriterConfig{QueueLength: q, Writer: sink, IsQueueBlocking: blocking}
	if onDrop != nil {
		cfg.OnMessageDropped = onDrop(w)
	}
	w.s.panics = r.W.Chance(1, 2)
	w.w = async.NewAsyncWriter(cfg)
	return w
}

// send writes one message through a reused buffer.
func (w *aworld) send(p, k int, buf *[]byte) *amsg {
	r := w.r
	m := &amsg{p: p, k: k, pos: -1}
	size := []int{0, 1, 7, 60, 300}[r.W.Draw(5)]
	if r.W.Draw(40) == 1 {
		size = []int{1025, 4090, 5000, 66000, 140000}[r.W.Draw(5)]
	}
	b := (*buf)[:0]
	b = append(b, fmt.Sprintf("<%d.%d|", p, k)...)
	for i := 0; i < size; i++ {
		b = append(b, byte('a'+(p*7+k*3+i)%26))
	}
	b = append(b, '>')
	*buf = b
	m.data = string(b)
	w.msgs = append(w.msgs, m)
	w.byData[m.data] = m
	m.begin = r.Seq()
	n, err := w.w.Write(b)
	m.ret = r.Seq()
	m.n, m.err = n, err
	if n != len(m.data) || err != nil {
		r.Fail("write-result", "Write of %d bytes returned (%d, %v)", len(m.data), n, err)
	}
	if string(b) != m.data {
		r.Fail("caller-buffer", "Write changed the caller's buffer")
	}
	// reuse the buffer at once
	for i := range b {
		b[i] = '#'
	}
	return m
}

// checkSink: every sink record is one message, each at most once, in real-time order, and those
// that must be there are.
func (w *aworld) checkSink(must func(m *amsg) bool) {
	r := w.r
	for i, rec := range w.s.recs {
		m := w.byData[rec.data]
		if m == nil {
			r.Fail("damaged", "the sink received %s, which nobody wrote", abbr(rec.data))
		}
		if m.pos >= 0 {
			r.Fail("duplicated", "message %s was written to the sink twice", abbr(rec.data))
		}
		m.pos = i
	}
	for _, m := range w.msgs {
		if m.pos < 0 && m.ret != 0 && must(m) {
			r.Fail("lost", "message %s was accepted but never written to the sink", abbr(m.data))
		}
	}
	var first *amsg // of the messages written later, the one whose Write returned first
	for i := len(w.s.recs) - 1; i >= 0; i-- {
		a := w.byData[w.s.recs[i].data]
		if first != nil && first.ret < a.begin {
			r.Fail("reordered", "message %s was written to the sink before %s although its Write began after the other returned", abbr(a.data), abbr(first.data))
		}
		if a.ret != 0 && (first == nil || a.ret < first.ret) {
			first = a
		}
	}
}

func (w *aworld) checkLogs() {
	r := w.r
	if len(w.logs) != len(w.s.errs) {
		r.Fail("error-reports", "%d underlying writes failed but %d errors were reported: %v", len(w.s.errs), len(w.logs), w.logs)
	}
	for _, e := range w.s.errs {
		seen, want := 0, 0
		for _, l := range w.logs {
			if l != nil && strings.Contains(l.Error(), e.Error()) {
				seen++
			}
		}
		for _, x := range w.s.errs {
			if strings.Contains(x.Error(), e.Error()) {
				want++
			}
		}
		if seen != want {
			r.Fail("error-reports", "underlying error %q was reported %d times (%v)", e, seen, w.logs)
		}
	}
}

func runC03(r *sim.Run) {
	q := []int{1, 2, 3, 16, 0}[r.W.Draw(5)]
	w := newAWorld(r, true, q, r.W.Chance(1, 2), nil)
	slow := []int{0, 0, 2, 10}[r.W.Draw(4)]
	w.s.delay = func() time.Duration {
		if slow == 0 || !r.F.Chance(1, 2) {
			return 0
		}
		return time.Duration(slow) * ms
	}
	if swarm(r, 1, 2) {
		w.s.failN = []int{2, 4}[r.Swarm.Intn(2)]
	}
	if swarm(r, 1, 4) {
		r.Stalls(8)
	}
	np := 1 + r.W.Draw(4)
	tight := 0
	long := 0
	if r.W.Draw(80) == 1 {
		long = 200 + r.W.Draw(400)
		slow = 0
	}
	var ts []*sim.Task
	for p := 0; p < np; p++ {
		p := p
		n := 1 + r.W.Draw(8) + long
		pause := pickDur(r, 0, 0, 0, 100*time.Microsecond, 30*ms)
		if long > 0 {
			pause = 0
		}
		ts = append(ts, r.Spawn("producer"+itoa(p), func() {
			var buf []byte
			for k := 0; k < n; k++ {
				if pause > 0 {
					r.Sleep(pause)
				}
				w.send(p, k, &buf)
			}
		}))
	}
	mode := r.W.Pick(3, 3, 2)
	switch mode {
	case 0: // close after all producers finished
		r.Join(ts...)
	case 1: // close in the middle
		r.Sleep(pickDur(r, 0, 20*time.Microsecond, 5*ms, 60*ms))
		tight = 1
	case 2: // delivery needs no Close
		r.Join(ts...)
		r.Calm()
		if !r.WaitFor("delivery", 5*sec, func() bool {
			return len(w.s.recs) >= len(w.msgs) && !w.s.busy
		}) {
			w.checkSink(func(*amsg) bool { return true })
		}
	}
	r.Calm()
	began := r.Seq()
	err := w.w.Close()
	if err != nil {
		r.Fail("close-result", "Close returned %v although the sink closed without error", err)
	}
	r.Nontriv = true
	if tight == 1 {
		r.Probe("close-while-producing")
	}
	w.checkSink(func(m *amsg) bool { return m.ret < began })
	w.checkLogs()
}

var digits = regexp.MustCompile("[0-9]+")

func runC04(r *sim.Run) {
	q := []int{1, 2, 3, 8, 0}[r.W.Pick(4, 3, 3, 3, 1)]
	custom := r.W.Chance(2, 3)
	many := !custom && r.W.Chance(1, 6)
	var onDrop func(w *aworld) func([]byte)
	if custom {
		onDrop = func(w *aworld) func([]byte) {
			return func(b []byte) {
				m := w.byData[string(b)]
				if m == nil {
					r.Fail("drop-content", "the drop callback got %s, which nobody wrote", abbr(string(b)))
				}
				if m.dropped != 0 {
					r.Fail("dropped-twice", "message %s was reported as dropped twice", abbr(m.data))
				}
				m.dropped = r.Seq()
				r.Yield()
				if string(b) != m.data {
					r.Fail("drop-content", "the bytes of a dropped message changed during the callback")
				}
				r.Probe("drop-callback")
			}
		}
	}
	w := newAWorld(r, false, q, r.W.Chance(1, 2), onDrop)
	if swarm(r, 1, 3) {
		w.s.failN = 3
	}
	stall := r.W.Chance(1, 2)
	slow := []int{0, 1, 10}[r.W.Draw(3)]
	w.s.stalled = stall
	w.s.delay = func() time.Duration {
		if slow == 0 || !r.F.Chance(1, 2) {
			return 0
		}
		return time.Duration(slow) * ms
	}
	np := 1 + r.W.Draw(4)
	var ts []*sim.Task
	for p := 0; p < np; p++ {
		p := p
		n := 1 + r.W.Draw(8)
		if q == 0 {
			n = 1020/np + r.W.Draw(12)
		}
		if many {
			n = 1010/np + 2 + r.W.Draw(8)
		}
		pause := pickDur(r, 0, 0, 0, 100*time.Microsecond, 10*ms)
		if q == 0 || many {
			pause = 0
		}
		ts = append(ts, r.Spawn("producer"+itoa(p), func() {
			var buf []byte
			for k := 0; k < n; k++ {
				if pause > 0 {
					r.Sleep(pause)
				}
				start := r.Now()
				m := w.send(p, k, &buf)
				if stall && !w.s.stalled {
					r.Fail("blocked", "Write of %s had not returned when the stalled sink was released", abbr(m.data))
				}
				if !stall && slow >= 10 && q != 0 && !many && r.Now()-start > 5*ms {
					r.Fail("blocked", "Write of %s took %v: it waited for the sink", abbr(m.data), r.Now()-start)
				}
			}
		}))
	}
	if stall {
		if !r.JoinFor(20*sec, ts...) {
			r.Fail("blocked", "a Write did not return within 20 s while the sink was stalled: %s", r.Where())
		}
		// at most q queued plus the one the writer holds
		acc, st := 0, len(w.s.recs)
		if custom {
			for _, m := range w.msgs {
				if m.dropped == 0 {
					acc++
				}
			}
			if acc-st > w.q+1 {
				r.Fail("queue-bound", "%d messages were accepted and %d taken by the sink with a queue of %d", acc, st, w.q)
			}
		}
		w.s.stalled = false
	} else {
		r.Join(ts...)
	}
	r.Calm()
	w.s.delay = nil
	// everything accepted is delivered without Close
	last, lastAt := -1, r.Now()
	r.WaitFor("delivery", 5*sec, func() bool {
		if len(w.s.recs) != last {
			last, lastAt = len(w.s.recs), r.Now()
		}
		return len(w.s.recs) >= len(w.msgs) || r.Now()-lastAt > sec
	})
	w.w.Close()
	r.Nontriv = true
	dropped := 0
	if custom {
		for _, m := range w.msgs {
			if m.dropped != 0 {
				dropped++
			}
		}
		w.checkSink(func(m *amsg) bool { return m.dropped == 0 })
		for _, m := range w.msgs {
			if m.dropped == 0 {
				continue
			}
			if m.pos >= 0 {
				r.Fail("dropped-and-written", "message %s was reported as dropped and also written", abbr(m.data))
			}
			if m.dropped > m.ret {
				r.Fail("late-drop", "message %s was reported as dropped after its Write returned", abbr(m.data))
			}
			acc, taken := 0, 0
			for _, o := range w.msgs {
				if o.dropped == 0 && o.begin < m.dropped {
					acc++
				}
			}
			for _, rec := range w.s.recs {
				if rec.start < m.begin {
					taken++
				}
			}
			if acc-taken < w.q {
				r.Fail("needless-drop", "message %s was dropped although at most %d of %d queue places were taken", abbr(m.data), acc-taken, w.q)
			}
		}
		w.checkLogs()
	} else {
		w.checkSink(func(m *amsg) bool { return false })
		dropped = len(w.msgs) - len(w.s.recs)
		if stall && len(w.msgs) <= w.q && dropped > 0 {
			r.Fail("needless-drop", "%d messages were dropped although all %d fit the queue of %d", dropped, len(w.msgs), w.q)
		}
		want := map[int]int{}
		for t := 1; t <= dropped; t += 1000 {
			want[t]++
		}
		bad := func() {
			r.Fail("drop-reports", "%d messages were dropped; reports: %v (plus %d sink errors)", dropped, w.logs, len(w.s.errs))
		}
		isSink := func(e error) bool {
			for _, x := range w.s.errs {
				if e != nil && strings.Contains(e.Error(), x.Error()) {
					return true
				}
			}
			return false
		}
		got := 0
		for _, e := range w.logs {
			if isSink(e) {
				continue
			}
			got++
			hit := false
			for _, d := range digits.FindAllString(fmt.Sprint(e), -1) {
				v, _ := strconv.Atoi(d)
				if want[v] > 0 {
					want[v]--
					hit = true
					break
				}
			}
			if !hit {
				bad()
			}
		}
		if got != (dropped+999)/1000 {
			bad()
		}
		if dropped > 1000 {
			r.Probe("over-1000-drops")
		}
	}
	if dropped > 0 {
		r.Probe("run-with-drops")
	}
}

func runC05(r *sim.Run) {
	blocking := r.W.Chance(1, 2)
	closable := !r.W.Chance(1, 4)
	var cerr error
	q := []int{4, 16, 256, 1, 0}[r.W.Draw(5)]
	w := newAWorld(r, blocking, q, closable, func(w *aworld) func([]byte) {
		return func(b []byte) {
			if m := w.byData[string(b)]; m != nil {
				m.dropped = r.Seq()
			}
		}
	})
	if closable && r.W.Chance(1, 2) {
		cerr = someError(r.W, "close failed")
		w.s.closeErr = cerr
	}
	d := pickDur(r, 0, ms, 20*ms, 150*ms, 400*ms, 3*sec)
	w.s.delay = func() time.Duration { return d }
	if swarm(r, 1, 3) {
		w.s.failN = 2
	}
	n := 0
	maxN := []int{0, 1, 3, 12, 200}[r.W.Draw(5)]
	if maxN > w.q {
		maxN = w.q
	}
	var buf []byte
	for ; n < maxN; n++ {
		w.send(0, n, &buf)
	}
	// producers that go on while Close runs
	var ts []*sim.Task
	np := r.W.Draw(3)
	stop := false
	for p := 0; p < np; p++ {
		p := p
		k := 1 + r.W.Draw(6)
		pause := pickDur(r, 0, 3*ms, 90*ms, 200*ms)
		ts = append(ts, r.Spawn("producer"+itoa(p), func() {
			var buf []byte
			for i := 0; i < k && !stop; i++ {
				r.Sleep(pause)
				w.send(p+1, i, &buf)
			}
		}))
	}
	r.Sleep(pickDur(r, 0, 0, ms, 130*ms, 700*ms))
	began, beganAt := r.Seq(), r.Now()
	pend := 0
	accepted := map[*amsg]bool{}
	for _, m := range w.msgs {
		if m.ret != 0 && m.dropped == 0 {
			accepted[m] = true
		}
		pend++
	}
	pend -= len(w.s.recs)
	if w.s.busy {
		pend++
	}
	err := w.w.Close()
	ended, took := r.Seq(), r.Now()-beganAt
	r.Nontriv = true
	_ = ended
	if err != cerr {
		r.Fail("close-result", "Close returned %v, the sink's Close %v", err, cerr)
	}
	if closable && len(w.s.closes) != 1 {
		r.Fail("not-closed", "the sink was closed %d times when Close returned", len(w.s.closes))
	}
	if w.s.busy {
		r.Fail("write-after-close", "a write to the sink was still in progress when Close returned")
	}
	written := len(w.s.recs)
	// messages waiting or arriving while Close ran
	all := pend
	for _, m := range w.msgs {
		if m.begin > began {
			all++
		}
	}
	if k := all; true {
		if k > 45 {
			k = 45
		}
		k += 2
		if limit := time.Duration(k)*d + 1500*ms; took > limit && time.Duration(all)*d > 0 || took > 1500*ms+time.Duration(all+1)*d {
			r.Fail("slow-close", "Close took %v with %d messages to write at %v each", took, all, d)
		}
	}
	if time.Duration(all+1)*d <= 800*ms {
		r.Probe("drain-in-grace")
		w.checkSink(func(m *amsg) bool { return m.ret < began && accepted[m] })
	} else {
		r.Probe("drain-beyond-grace")
		w.checkSink(func(m *amsg) bool { return false })
	}
	// nothing afterwards
	r.Calm()
	stop = true
	if !blocking {
		w.send(9, 1, &buf)
	}
	r.Sleep(5 * sec)
	if len(w.s.recs) != written {
		r.Fail("write-after-close", "%d writes to the sink after Close returned", len(w.s.recs)-written)
	}
	if len(w.s.closes) > 1 {
		r.Fail("closed-twice", "sink closed %d times", len(w.s.closes))
	}
	w.checkLogs()
}
