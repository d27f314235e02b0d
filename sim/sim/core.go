// Package sim is a deterministic simulator for instrumented Go code: goroutines, channels,
// locks, timers, clock, file system and goroutine ids are decided by recorded choice streams.
package sim

import (
	"container/heap"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type taskState uint8

const (
	stReady taskState = iota
	stBlocked
	stDone
)

// Task is a simulated goroutine.
type Task struct {
	ID     int
	Name   string
	goid   int64
	g      [96]int64
	wake   chan struct{}
	state  taskState
	poll   func() bool
	why    string
	stall  int64
	prio   int64
	dead   bool // killed: every simulator call exits the goroutine
	Proc   int  // simulated process; 0 is the harness
	exited chan struct{}
	ended  bool
	mwin   unsafe.Pointer // map write window
	loops  int
}

// GoID is the simulated goroutine id.
func (t *Task) GoID() int64 { return t.goid }

// Done tells whether the task has finished.
func (t *Task) Done() bool { return t.ended || t.dead }

// Blocked tells whether the task is waiting for something other than the scheduler.
func (t *Task) Blocked() bool { return t.state == stBlocked }

type timerEv struct {
	when int64
	seq  int64
	f    func()
	idx  int
	proc int
}
type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) {
	e := x.(*timerEv)
	e.idx = len(*h)
	*h = append(*h, e)
}
func (h *timerHeap) Pop() interface{} {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

// Input is everything that decides a run.
type Input struct {
	Seed    uint64   `json:"seed"`
	Replay  bool     `json:"replay"`
	W       []Choice `json:"w"`
	F       []Choice `json:"f"`
	P       []Choice `json:"p"`
	S       []Choice `json:"s"`
	Swarm   uint64   `json:"swarm"` // parameters of the run that are not minimised
	Trace   bool     `json:"-"`
	Lenient bool     `json:"-"`
}

// Result of a run.
type Result struct {
	Class   string // "" = property held; otherwise the violation class
	Detail  string
	Err     string // harness trouble (never a violation)
	Rec     Input
	Hash    uint64
	Points  int64
	Switch  int64
	SimNS   int64
	Tasks   int
	Faults  map[string]int64
	Probes  map[string]int64
	Trace   []string
	Nontriv bool
}

// Cfg are the limits of a run.
type Cfg struct {
	MaxPoints int64
	MaxSim    time.Duration
}

// Run is the running simulation.
type Run struct {
	W, F, P *Stream
	Swarm   *Rng // swarm parameters; the same in a replay
	S       *Stream
	cfg     Cfg
	in      Input

	tasks    []*Task
	cur      *Task
	nextID   int
	goidCur  int64
	goidMod  int
	now      int64
	base     int64
	wallOff  int64
	timers   timerHeap
	tseq     int64
	seq      int64
	points   int64
	switches int64
	gap      int64
	mode     int
	gapMean  int64
	focusK   uint64
	focusS   uint64
	hotGap   int
	opNum    int
	pctAt    []int64
	pctLow   int64
	resched  bool
	stepNS   int64
	stallOn  int
	over     bool
	class    string
	detail   string
	errText  string
	done     chan struct{}
	hash     uint64
	faults   map[string]int64
	probes   map[string]int64
	trace    []string
	chans    map[unsafe.Pointer]interface{}
	FS       *FS
	Stdout   *Capture
	Stderr   *Capture
	calm     bool
	crashAt  int64
	crashF   func() bool
	Nontriv  bool
	procSeq  int
	quiet    int
	finisher *Task
	progRand int64
	fsOps    int64
	fsCrash  int64
	fsPhase  int
}

// R is the current run; nil outside a simulation.
var R *Run
var active bool

// Active tells whether simulated code is running.
func Active() bool { return active }

type resetEntry struct {
	pkg string
	f   func()
}

var resets []resetEntry
var pendingGo []func()

func (r *Run) startPending(proc int) {
	for i, fn := range pendingGo {
		r.newTask(fmt.Sprintf("init-go%d", i), proc, fn)
	}
	pendingGo = nil
}

// RegisterReset is called by the generated code of each instrumented package.
func RegisterReset(pkg string, f func()) { resets = append(resets, resetEntry{pkg, f}) }

var intVars = map[string]interface{}{}

// RegisterVar is called by the generated code for integer package variables.
func RegisterVar(name string, p interface{}) { intVars[name] = p }

// SetVar sets an integer package variable ("import/path.name") of the code under test; it
// reports whether there is one. Package re-initialisation restores its value.
func SetVar(name string, v int) bool {
	switch p := intVars[name].(type) {
	case *int:
		*p = v
	case *int64:
		*p = int64(v)
	default:
		return false
	}
	return true
}

var zoneHooks []func(*time.Location)

var startHooks []func()

// OnStart has f called before each run.
func OnStart(f func()) { startHooks = append(startHooks, f) }

// OnZone registers a holder of the local time zone.
func OnZone(f func(*time.Location)) { zoneHooks = append(zoneHooks, f) }

// SetZone sets the local time zone of the simulated machine.
func SetZone(l *time.Location) {
	time.Local = l
	for _, f := range zoneHooks {
		f(l)
	}
}

// ResetPackages puts every instrumented package back into its initial state, as a fresh
// process would see it.
func ResetPackages() {
	was := active
	active = false
	pendingGo = nil
	for _, r := range resets {
		r.f()
	}
	active = was
}

// ResetPackage re-initialises one package, as if nothing had configured it.
func ResetPackage(pkg string) {
	was := active
	active = false
	for _, r := range resets {
		if r.pkg == pkg {
			r.f()
		}
	}
	active = was
}

// ResetPkgs lists instrumented packages.
func ResetPkgs() []string {
	var s []string
	for _, r := range resets {
		s = append(s, r.pkg)
	}
	return s
}

// Execute runs root as the first task and returns when the run is over.
func Execute(cfg Cfg, in Input, root func(r *Run)) Result {
	r := &Run{cfg: cfg, in: in}
	r.W = newStream(Mix(in.Seed, 1), in.Replay, in.W)
	r.F = newStream(Mix(in.Seed, 2), in.Replay, in.F)
	r.P = newStream(Mix(in.Seed, 3), in.Replay, in.P)
	r.S = newStream(Mix(in.Seed, 4), in.Replay, in.S)
	if in.Swarm == 0 {
		in.Swarm = Mix(in.Seed, 5)
		r.in.Swarm = in.Swarm
	}
	r.Swarm = NewRng(in.Swarm)
	SetZone(time.UTC)
	r.done = make(chan struct{}, 1)
	r.faults = map[string]int64{}
	r.probes = map[string]int64{}
	r.chans = map[unsafe.Pointer]interface{}{}
	r.hash = 14695981039346656037
	r.base = time.Date(2026, 3, 1, 11, 59, 58, 0, time.UTC).UnixNano() + int64(r.Swarm.Intn(86400*400))*1e9 + int64(r.Swarm.Intn(1000))*1e6
	r.goidCur = int64(1 + r.Swarm.Intn(4096))
	if r.Swarm.Intn(8) == 0 {
		r.goidCur += 1<<31 - 20
	}
	r.goidMod = r.Swarm.Intn(4)
	r.stepNS = []int64{20, 100, 500, 2000}[r.Swarm.Intn(4)]
	r.setupSched()
	r.FS = newFS(r)
	r.Stdout = &Capture{}
	r.Stderr = &Capture{}
	Fine = false
	for _, f := range startHooks {
		f()
	}
	ResetPackages()
	R = r
	active = true
	t := r.newTask("root", 0, func() {
		root(r)
		r.finish("", "")
	})
	r.cur = t
	r.startPending(0)
	t.wake <- struct{}{}
	<-r.done
	// the task that ended the run unwinds first, then kill what is left
	if f := r.finisher; f != nil {
		<-f.exited
		f.ended = true
	}
	active = true
	for _, t := range r.tasks {
		t.dead = true
	}
	for _, t := range r.tasks {
		r.reap(t)
	}
	active = false
	R = nil
	res := Result{Class: r.class, Detail: r.detail, Err: r.errText, Hash: r.hash, Points: r.points, Switch: r.switches,
		SimNS: r.now, Tasks: r.nextID, Faults: r.faults, Probes: r.probes, Trace: r.trace, Nontriv: r.Nontriv}
	res.Rec = Input{Seed: in.Seed, Replay: true, W: r.W.rec, F: r.F.rec, P: r.P.rec, S: r.S.rec, Swarm: in.Swarm}
	return res
}

func (r *Run) reap(t *Task) {
	if t.ended {
		return
	}
	save := r.cur
	r.cur = t
	t.dead = true
	t.wake <- struct{}{}
	<-t.exited
	t.ended = true
	t.state = stDone
	r.cur = save
}

func (r *Run) newTask(name string, proc int, fn func()) *Task {
	t := &Task{ID: r.nextID, Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1), Proc: proc}
	r.nextID++
	switch r.goidMod {
	case 0:
		r.goidCur++
	case 1:
		r.goidCur += 16
	case 2:
		r.goidCur += int64(1 + r.Swarm.Intn(40))
	case 3:
		r.goidCur += int64(16 * (r.Swarm.Intn(5) / 4 * 0)) // same shard unless bumped below
		if r.Swarm.Intn(3) == 0 {
			r.goidCur += int64(1 + r.Swarm.Intn(15))
		}
		r.goidCur += 16
	}
	t.goid = r.goidCur
	for i := range t.g {
		t.g[i] = 1 // not an id
		if goidWord < 0 || i == goidWord {
			t.g[i] = t.goid
		}
	}
	t.prio = int64(r.Swarm.U64() >> 2)
	r.tasks = append(r.tasks, t)
	go func() {
		<-t.wake
		normal := false
		defer func() {
			if !normal {
				if p := recover(); p != nil && !t.dead && !r.over {
					r.crash(fmt.Sprintf("panic: %v", PanicText(p)), t)
				}
			}
			r.exit(t)
		}()
		if t.dead {
			return
		}
		fn()
		normal = true
	}()
	return t
}

// PanicText renders a panic value without addresses.
func PanicText(p interface{}) string {
	switch v := p.(type) {
	case error:
		return v.Error()
	case string:
		return v
	case fmt.Stringer:
		return v.String()
	}
	return fmt.Sprintf("%v", p)
}

func (r *Run) exit(t *Task) {
	if t.dead || r.over {
		t.exited <- struct{}{}
		return
	}
	t.ended = true
	t.state = stDone
	t.exited <- struct{}{}
	r.note('x', int64(t.ID))
	r.removeTask(t)
	r.pass(t)
}

func (r *Run) removeTask(t *Task) {
	for i, x := range r.tasks {
		if x == t {
			r.tasks = append(r.tasks[:i:i], r.tasks[i+1:]...)
			return
		}
	}
}

// finish ends the run; called by the current task.
func (r *Run) finish(class, detail string) {
	if r.over {
		return
	}
	r.over = true
	r.class, r.detail = class, detail
	active = false
	t := r.cur
	t.dead = true
	r.finisher = t
	r.done <- struct{}{}
	runtime.Goexit()
}

// Fail reports a violation of the property and ends the run.
func (r *Run) Fail(class, format string, args ...interface{}) {
	r.finish(class, fmt.Sprintf(format, args...))
}

// Abort reports trouble of the harness (not a violation) and ends the run.
func (r *Run) Abort(format string, args ...interface{}) {
	if r.errText == "" {
		r.errText = fmt.Sprintf(format, args...)
	}
	r.finish("", "")
}

// Unsupported is called by shims for operations the simulator does not model.
func Unsupported(what string) {
	if R != nil {
		R.Abort("unsupported operation in simulation: %s", what)
	}
	panic("verifsim: unsupported " + what)
}

// crash is an unrecovered panic or runtime fatal error in a task.
func (r *Run) crash(msg string, t *Task) {
	if r.over {
		return
	}
	r.over = true
	active = false
	r.class = "process-crash"
	r.detail = fmt.Sprintf("task %q: %s", t.Name, msg)
	t.dead = true
	r.finisher = t
	r.done <- struct{}{}
}

// Fatal is an unrecoverable runtime error (like concurrent map writes).
func Fatal(msg string) {
	r := R
	if r == nil {
		panic(msg)
	}
	r.crash("fatal error: "+msg, r.cur)
	runtime.Goexit()
}

func (r *Run) note(kind byte, v int64) {
	h := r.hash
	h = (h ^ uint64(kind)) * 1099511628211
	h = (h ^ uint64(v)) * 1099511628211
	h = (h ^ uint64(r.points)) * 1099511628211
	r.hash = h
	if r.in.Trace {
		if len(r.trace) < 200000 {
			r.trace = append(r.trace, fmt.Sprintf("p%d t=%s %c %d (task %d %s)", r.points, time.Duration(r.now), kind, v, r.cur.ID, r.cur.Name))
		}
	}
}

// Logf adds a line to the trace (only kept when tracing); folded into the run's hash.
func (r *Run) Logf(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := r.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r.hash = h
	if r.in.Trace && len(r.trace) < 200000 {
		r.trace = append(r.trace, fmt.Sprintf("p%d t=%s %s [%s]", r.points, time.Duration(r.now), s, r.cur.Name))
	}
}

// Tracef adds a line to the trace only.
func (r *Run) Tracef(format string, args ...interface{}) {
	if r.in.Trace && len(r.trace) < 200000 {
		r.trace = append(r.trace, fmt.Sprintf("p%d t=%s %s [%s]", r.points, time.Duration(r.now), fmt.Sprintf(format, args...), r.cur.Name))
	}
}

// Tracing tells whether the run keeps a trace.
func (r *Run) Tracing() bool { return r.in.Trace }

// Seq returns the next global event number.
func (r *Run) Seq() int64 { r.seq++; return r.seq }

// Now is simulated time since the start of the run.
func (r *Run) Now() time.Duration { return time.Duration(r.now) }

// Wall is the simulated wall clock.
func (r *Run) Wall() time.Time { return time.Unix(0, r.base+r.now+r.wallOff) }

// JumpClock moves the wall clock (not timers).
func (r *Run) JumpClock(d time.Duration) { r.wallOff += int64(d) }

// Advance lets simulated time pass for everyone (used by expensive simulated calls).
func (r *Run) Advance(d time.Duration) { r.now += int64(d) }

// Points is the number of scheduling points so far.
func (r *Run) Points() int64 { return r.points }

// Fault counts an injected fault.
func (r *Run) Fault(kind string) { r.faults[kind]++; r.Logf("fault %s", kind) }

// Probe counts a rare condition that was reached.
func (r *Run) Probe(name string) { r.probes[name]++ }

// Cur returns the running task.
func (r *Run) Cur() *Task { return r.cur }

// TraceMode modes of the scheduler.
const (
	modeGap = iota
	modeFocus
	modePCT
	modeOps
	modeCalm
)

func (r *Run) setupSched() {
	g := r.Swarm
	switch g.Intn(8) {
	case 0, 1:
		r.mode = modeGap
	case 2, 3, 4:
		r.mode = modeFocus
	case 5, 6:
		r.mode = modePCT
	case 7:
		r.mode = modeOps
	}
	r.gapMean = []int64{2, 4, 10, 30, 100, 400}[g.Intn(6)]
	r.focusK = uint64([]int{3, 8, 20, 40}[g.Intn(4)])
	r.focusS = g.U64()
	r.hotGap = 1 + g.Intn(3)
	r.opNum = []int{1, 2, 4, 8}[g.Intn(4)]
	n := 1 + g.Intn(4)
	span := int64(1) << uint(5+g.Intn(11))
	for i := 0; i < n; i++ {
		r.pctAt = append(r.pctAt, int64(g.U64()%uint64(span)))
	}
	sort.Slice(r.pctAt, func(i, j int) bool { return r.pctAt[i] < r.pctAt[j] })
	r.pctLow = 1 << 40
	r.gap = 1
	if r.mode == modeFocus {
		r.gapMean = 2000
	}
}

// SetStep sets the cost of a scheduling point in simulated time.
func (r *Run) SetStep(d time.Duration) { r.stepNS = int64(d) }

// Calm stops faults and switches to a fair random scheduler, for liveness checks.
func (r *Run) Calm() {
	r.calm = true
	r.mode = modeCalm
	r.gapMean = 50
	r.stallOn = 0
	r.gap = 1
	for _, t := range r.tasks {
		t.stall = 0
	}
}

// IsCalm tells whether faults are off.
func (r *Run) IsCalm() bool { return r.calm }

// Stalls lets the scheduler stall preempted tasks for a while, with probability 1/den.
func (r *Run) Stalls(den int) { r.stallOn = den }

// Y is a statement-level scheduling point.
func Y(site int) {
	if !active {
		if r := R; r != nil && r.over {
			runtime.Goexit()
		}
		return
	}
	R.yield(site, false)
}

// Fine turns on the scheduling points of reflect2; it is off at the start of each run.
var Fine bool

// Z is a scheduling point that only counts if Fine is set.
func Z(site int) {
	if Fine {
		Y(site)
	}
}

// Op is a scheduling point at a synchronisation or I/O operation.
func Op(site int) {
	if !active {
		if r := R; r != nil && r.over {
			runtime.Goexit()
		}
		return
	}
	R.yield(site, true)
}

func (r *Run) yield(site int, op bool) {
	t := r.cur
	if t.dead {
		runtime.Goexit()
	}
	t.mwin = nil
	r.yieldKeep(site, op)
}

func (r *Run) yieldKeep(site int, op bool) {
	t := r.cur
	if t.dead {
		runtime.Goexit()
	}
	r.points++
	r.now += r.stepNS
	if r.points > r.cfg.MaxPoints || (r.cfg.MaxSim > 0 && r.now > int64(r.cfg.MaxSim)) {
		r.limit()
	}
	if r.crashAt > 0 && r.points >= r.crashAt && t.Proc != 0 {
		r.crashNow()
	}
	if r.in.Replay {
		v := r.S.lookup(r.points)
		if v != 0 {
			r.preempt(v)
		} else if len(r.timers) > 0 && r.timers[0].when <= r.now {
			r.fireDue()
		}
		return
	}
	switch r.mode {
	case modeFocus:
		if Mix(uint64(site), r.focusS)%r.focusK == 0 {
			if r.S.rng.Intn(r.hotGap+1) == 0 {
				r.preempt(-1)
				return
			}
		}
		r.gap--
		if r.gap <= 0 {
			r.newGap()
			r.preempt(-1)
			return
		}
	case modePCT:
		if len(r.pctAt) > 0 && r.points >= r.pctAt[0] {
			r.pctAt = r.pctAt[1:]
			r.pctLow--
			t.prio = r.pctLow
			r.preempt(-1)
			return
		}
		if r.resched {
			r.resched = false
			r.preempt(-1)
			return
		}
		r.gap--
		if r.gap <= 0 {
			r.gap = 64
			if len(r.timers) > 0 && r.timers[0].when <= r.now {
				r.preempt(-1)
				return
			}
		}
	case modeOps:
		if op && r.S.rng.Intn(r.opNum+1) == 0 {
			r.preempt(-1)
			return
		}
		r.gap--
		if r.gap <= 0 {
			r.newGap()
			r.gap += 500
			r.preempt(-1)
			return
		}
	default:
		r.gap--
		if r.gap <= 0 {
			r.newGap()
			r.preempt(-1)
			return
		}
	}
	if len(r.timers) > 0 && r.timers[0].when <= r.now {
		r.fireDue()
	}
}

func (r *Run) newGap() {
	if r.gapMean <= 2 {
		r.gap = int64(1 + r.S.rng.Intn(3))
		return
	}
	r.gap = 1 + int64(r.S.rng.U64()%uint64(2*r.gapMean))
}

func (r *Run) limit() {
	if r.points > r.cfg.MaxPoints {
		r.finish("no-progress", fmt.Sprintf("run exceeded %d steps: %s", r.cfg.MaxPoints, r.Where()))
	}
	r.finish("no-progress", fmt.Sprintf("run exceeded %v of simulated time: %s", r.cfg.MaxSim, r.Where()))
}

// Where describes what every task is doing.
func (r *Run) Where() string {
	var b strings.Builder
	for _, t := range r.tasks {
		if t.ended {
			continue
		}
		s := "ready"
		if t.state == stBlocked {
			s = "blocked on " + t.why
		}
		if t == r.cur {
			s = "running"
		}
		fmt.Fprintf(&b, "[%d %s: %s] ", t.ID, t.Name, s)
	}
	return b.String()
}

func (r *Run) fireDue() {
	for len(r.timers) > 0 && r.timers[0].when <= r.now {
		e := heap.Pop(&r.timers).(*timerEv)
		e.f()
	}
}

func (r *Run) markReady(t *Task) {
	if t.state == stBlocked {
		t.state = stReady
		t.poll = nil
		r.resched = true
	}
}

func (r *Run) readyList(skip *Task) []*Task {
	var list []*Task
	for _, t := range r.tasks {
		if t == skip || t.ended || t.dead {
			continue
		}
		if t.state == stBlocked && t.poll != nil {
			if t.poll() {
				r.markReady(t)
			}
		}
		if t.state == stReady && t.stall <= r.now {
			list = append(list, t)
		}
	}
	return list
}

// preempt considers running another ready task; v<0 means choose, otherwise replay value v
// (1-based index among the other ready tasks).
func (r *Run) preempt(v int64) {
	r.fireDue()
	t := r.cur
	others := r.readyList(t)
	r.resched = false
	if len(others) == 0 {
		return
	}
	if v < 0 {
		switch r.mode {
		case modePCT:
			best := 0
			bp := t.prio
			for i, o := range others {
				if o.prio > bp {
					bp = o.prio
					best = i + 1
				}
			}
			v = int64(best)
		default:
			v = int64(r.S.rng.Intn(len(others) + 1))
			if v == 0 && r.mode == modeFocus {
				v = int64(r.S.rng.Intn(len(others) + 1))
			}
		}
	}
	if v > int64(len(others)) {
		v = (v-1)%int64(len(others)) + 1
	}
	if v == 0 {
		return
	}
	if !r.in.Replay {
		r.S.note(r.points, v)
	} else {
		r.S.note(r.points, v)
	}
	if r.stallOn > 0 && r.F.Chance(1, r.stallOn) {
		d := []int64{1e3, 1e5, 1e6, 2e7, 3e8}[r.F.Draw(5)]
		t.stall = r.now + d
		r.Fault("task-stall")
	}
	r.switchTo(others[v-1])
}

func (r *Run) switchTo(n *Task) {
	t := r.cur
	if n == t {
		return
	}
	r.switches++
	r.note('s', int64(n.ID))
	r.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if t.dead {
		runtime.Goexit()
	}
}

// pass gives the token away from a task that cannot continue (blocked or finished).
func (r *Run) pass(t *Task) {
	n := r.next(t)
	if n == nil {
		return
	}
	if n == t {
		return
	}
	r.switches++
	r.note('b', int64(n.ID))
	r.cur = n
	n.wake <- struct{}{}
}

// next picks a task to run when t cannot; returns nil when the run is over.
func (r *Run) next(t *Task) *Task {
	r.points++
	r.now += r.stepNS
	for {
		r.fireDue()
		list := r.readyList(nil)
		if len(list) > 0 {
			var v int64
			if len(list) > 1 {
				if r.in.Replay {
					v = r.S.lookup(r.points)
					if v >= int64(len(list)) {
						v = v % int64(len(list))
					}
				} else if r.mode == modePCT {
					for i, o := range list {
						if o.prio > list[v].prio {
							v = int64(i)
						}
					}
				} else {
					v = int64(r.S.rng.Intn(len(list)))
				}
				r.S.note(r.points, v)
			}
			r.resched = false
			return list[v]
		}
		// advance the clock to the next event
		var at int64 = -1
		if len(r.timers) > 0 {
			at = r.timers[0].when
		}
		for _, x := range r.tasks {
			if !x.ended && !x.dead && x.state == stReady && x.stall > r.now && (at < 0 || x.stall < at) {
				at = x.stall
			}
		}
		if at < 0 {
			r.over = true
			active = false
			r.class = "deadlock"
			r.detail = "no task can make progress: " + r.Where()
			r.done <- struct{}{}
			return nil
		}
		if r.cfg.MaxSim > 0 && at > int64(r.cfg.MaxSim) {
			r.over = true
			active = false
			r.class = "no-progress"
			r.detail = fmt.Sprintf("nothing left to do within %v of simulated time: %s", r.cfg.MaxSim, r.Where())
			r.done <- struct{}{}
			return nil
		}
		if at > r.now {
			r.now = at
		}
	}
}

// Block parks the current task until markReady (or until poll, if given, returns true).
func (r *Run) Block(why string, poll func() bool) {
	t := r.cur
	if t.dead {
		runtime.Goexit()
	}
	t.mwin = nil
	t.state = stBlocked
	t.why = why
	t.poll = poll
	n := r.next(t)
	if n == t {
		return
	}
	if n != nil {
		r.switches++
		r.note('b', int64(n.ID))
		r.cur = n
		n.wake <- struct{}{}
	}
	<-t.wake
	if t.dead {
		runtime.Goexit()
	}
}

// WaitUntil blocks the current task until cond holds (cond must be cheap and side-effect free).
func (r *Run) WaitUntil(why string, cond func() bool) {
	if cond() {
		return
	}
	r.Block(why, cond)
}

// WaitFor is WaitUntil with a timeout; it reports whether cond held.
func (r *Run) WaitFor(why string, d time.Duration, cond func() bool) bool {
	if cond() {
		return true
	}
	end := r.now + int64(d)
	ev := r.At(d, func() {})
	r.Block(why, func() bool { return cond() || r.now >= end })
	r.CancelTimer(ev)
	return cond()
}

// Go starts a task in the current process.
func Go(fn func()) {
	r := R
	if !active || r == nil {
		if r != nil && r.over {
			runtime.Goexit()
		}
		// started while a package initialises: becomes a task when the process starts
		pendingGo = append(pendingGo, fn)
		return
	}
	if r.cur.dead {
		runtime.Goexit()
	}
	t := r.newTask(fmt.Sprintf("go%d", r.nextID), r.cur.Proc, fn)
	r.note('g', int64(t.ID))
	r.resched = true
	r.yield(-1, true)
}

// Spawn starts a named harness task in the current process.
func (r *Run) Spawn(name string, fn func()) *Task {
	t := r.newTask(name, r.cur.Proc, fn)
	r.note('g', int64(t.ID))
	r.resched = true
	return t
}

// SpawnProc starts a named task as the main task of a new simulated process.
func (r *Run) SpawnProc(name string, fn func()) *Task {
	r.procSeq++
	t := r.newTask(name, r.procSeq, fn)
	r.note('g', int64(t.ID))
	r.startPending(r.procSeq)
	return t
}

// Join waits for tasks to end.
func (r *Run) Join(ts ...*Task) {
	r.WaitUntil("join", func() bool {
		for _, t := range ts {
			if !t.ended {
				return false
			}
		}
		return true
	})
}

// JoinFor waits for tasks to end, at most d.
func (r *Run) JoinFor(d time.Duration, ts ...*Task) bool {
	return r.WaitFor("join", d, func() bool {
		for _, t := range ts {
			if !t.ended {
				return false
			}
		}
		return true
	})
}

// Sleep is a simulated sleep of the current task.
func (r *Run) Sleep(d time.Duration) {
	if d <= 0 {
		r.yield(-2, true)
		return
	}
	t := r.cur
	r.At(d, func() { r.markReady(t) })
	r.Block("sleep", nil)
}

// Yield is a scheduling point of the harness.
func (r *Run) Yield() { r.yield(-3, true) }

// At schedules f to run (in scheduler context) after d.
func (r *Run) At(d time.Duration, f func()) *timerEv {
	r.tseq++
	e := &timerEv{when: r.now + int64(d), seq: r.tseq, f: f}
	if r.cur != nil {
		e.proc = r.cur.Proc
	}
	if int64(d) > 0 && e.when < 0 { // overflow: practically never
		e.when = 1<<63 - 1
	}
	heap.Push(&r.timers, e)
	return e
}

// CancelTimer removes a pending timer; reports whether it was pending.
func (r *Run) CancelTimer(e *timerEv) bool {
	if e == nil || e.idx < 0 {
		return false
	}
	heap.Remove(&r.timers, e.idx)
	e.idx = -1
	return true
}

// ---- simulated process crash ----

// CrashAfter makes the process of the running workload die after n more scheduling points.
func (r *Run) CrashAfter(n int64) { r.crashAt = r.points + n }

// CrashPending tells whether a crash is still armed.
func (r *Run) CrashPending() bool { return r.crashAt > 0 }

// DisarmCrash cancels an armed crash.
func (r *Run) DisarmCrash() { r.crashAt = 0 }

// crashNow kills the current task's process: all its tasks and timers vanish.
func (r *Run) crashNow() {
	t := r.cur
	r.crashAt = 0
	r.Fault("process-crash")
	r.killProc(t.Proc)
	// the current task unwinds without effects and hands over
	n := r.next(t)
	if n == nil {
		runtime.Goexit()
	}
	r.note('k', int64(n.ID))
	r.cur = n
	n.wake <- struct{}{}
	// stay parked until reaped
	<-t.wake
	runtime.Goexit()
}

func (r *Run) killProc(p int) {
	for _, t := range r.tasks {
		if t.Proc == p && !t.ended {
			t.dead = true
		}
	}
	var keep timerHeap
	for _, e := range r.timers {
		if e.proc != p {
			keep = append(keep, e)
		}
	}
	r.timers = keep
	for i, e := range r.timers {
		e.idx = i
	}
	heap.Init(&r.timers)
	r.FS.closeProc(p)
}

// Kill kills the process of the given task from the harness.
func (r *Run) Kill(t *Task) {
	r.Fault("process-kill")
	r.killProc(t.Proc)
}

// ProcAlive tells whether any task of t's process is alive.
func (r *Run) ProcAlive(p int) bool {
	for _, t := range r.tasks {
		if t.Proc == p && !t.ended && !t.dead {
			return true
		}
	}
	return false
}

// ReapDead lets the goroutines of killed processes exit. Called by the harness.
func (r *Run) ReapDead() {
	for _, t := range append([]*Task(nil), r.tasks...) {
		if t.dead && !t.ended {
			r.reap(t)
		}
	}
	var live []*Task
	for _, t := range r.tasks {
		if !t.ended {
			live = append(live, t)
		}
	}
	r.tasks = live
}

// EndProcess kills everything of process p (as os.Exit would), reaps it and resets packages.
func (r *Run) EndProcess(p int) {
	r.killProc(p)
	r.ReapDead()
	ResetPackages()
}

// FakeG returns the address of the running task's goroutine descriptor stand-in.
func FakeG() uintptr {
	r := R
	if r == nil || r.cur == nil {
		return uintptr(unsafe.Pointer(&noG))
	}
	return uintptr(unsafe.Pointer(&r.cur.g))
}

var noG = func() (g [96]int64) {
	for i := range g {
		g[i] = 1
	}
	return
}()

// FakeGPtr is FakeG as a pointer.
func FakeGPtr() unsafe.Pointer {
	r := R
	if r == nil || r.cur == nil {
		return unsafe.Pointer(&noG)
	}
	return unsafe.Pointer(&r.cur.g)
}

// Discard swallows the arguments of print and println.
func Discard(...interface{}) {}
