package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"
	sos "verifsim/shim/os"

	"github.com/v2pro/plz/countlog/output/lumberjack"
	"verifsim/sim"
)

const ljPkg = "github.com/v2pro/plz/countlog/output/lumberjack"

func init() {
	real := []string{"countlog/output/lumberjack (all of it)", "compress/gzip"}
	stub := []string{"the file system (in memory; completed calls survive a process crash)", "clock, time zone, goroutines, channels and locks are simulated", "writers, rotators and closers are generated workload"}
	reg := func(id string, run func(r *sim.Run)) {
		register(&Prop{ID: id, Run: run, MaxPoints: 6000000, MaxSim: 365 * 24 * time.Hour, Real: real, Stub: stub})
	}
	reg("C13", func(r *sim.Run) {
		k := ljKnobs{compress: 3, jumps: true, coarse: 3, pre: 2, replace: 3}
		runLJ(r, k)
	})
	reg("C14", func(r *sim.Run) {
		runLJ(r, ljKnobs{compress: 2, coarse: 6, pre: 3, replace: 6, faults: true, jumps: swarm(r, 1, 4)})
	})
	reg("C15", func(r *sim.Run) {
		runLJ(r, ljKnobs{compress: 1, coarse: 6, pre: 3, replace: 6, crash: true, faults: swarm(r, 1, 6), retain: swarm(r, 1, 4), incarnations: 1 + r.W.Draw(4)})
	})
	reg("C16", func(r *sim.Run) {
		runLJ(r, ljKnobs{compress: 8, coarse: 8, pre: 1, replace: 2, sizes: true, bigs: true, faults: swarm(r, 1, 4), crash: swarm(r, 1, 8), incarnations: 1 + r.W.Draw(3)})
	})
	reg("C17", func(r *sim.Run) {
		runLJ(r, ljKnobs{sticky: swarm(r, 1, 3), slow: swarm(r, 1, 5), compress: 3, coarse: 4, pre: 1, retain: true, many: true, jumps: true, faults: swarm(r, 1, 3), crash: swarm(r, 1, 6), incarnations: 1 + r.W.Draw(2), replace: 8})
	})
	reg("C18", func(r *sim.Run) {
		runLJ(r, ljKnobs{sticky: swarm(r, 1, 4), slow: swarm(r, 1, 3), compress: 0, coarse: 5, pre: 2, many: true, retain: swarm(r, 1, 5), faults: swarm(r, 1, 2), crash: swarm(r, 1, 3), incarnations: 1 + r.W.Draw(3), replace: 4})
	})
}

type ljKnobs struct {
	compress     int // 0 always, 1 half, n: one in n
	coarse       int // one in n runs uses a coarse timestamp
	pre          int // one in n+1 runs starts from an empty directory
	replace      int // one in n: the logger is replaced by a new one after Close
	jumps        bool
	faults       bool
	crash        bool
	retain       bool
	sizes        bool
	bigs         bool
	many         bool
	sticky       bool // one backup can never be removed or read
	slow         bool // file-system calls of the background work take very long
	incarnations int
}

type ljRec struct {
	id         int
	text       string
	begin, ret int64
	n          int
	err        error
	done       bool // the call returned
	pre        bool
	crashed    bool
	gone       bool // removed by retention
	seen       int
	where      string
}

func (c *ljRec) acked() bool { return c.pre || c.done && c.err == nil }

type ljOp struct {
	kind    string
	n       int
	fresh   bool
	renamed bool
	ops     int
	wrote   int // bytes by which this call's writes grew a file
	ino     *sim.Inode
	start   time.Duration
	wall    time.Time
	jumps   int
}

// ljAttr is what a log file hands down to its successor and its compressed copy.
type ljAttr struct {
	mode     sos.FileMode
	uid, gid int
}

func attrOf(n *sim.Inode) ljAttr { return ljAttr{n.Mode, n.Uid, n.Gid} }

type ljShadow struct {
	ino  *sim.Inode
	size int
}

type ljWorld struct {
	r          *sim.Run
	k          ljKnobs
	dir, base  string
	file       string // as configured
	prefix     string
	ext        string
	format     string
	local      bool
	compress   bool
	maxBackups int
	maxAge     int
	maxSize    int
	mb         int
	max        int
	recs       []*ljRec
	byID       map[string]*ljRec
	shadow     map[string]ljShadow
	spare      map[string]ljShadow
	names      map[ljNameKey]ljParsed
	foreign    map[string]string
	contents   map[string]string // backup key -> bytes when it was set aside
	big        map[*sim.Inode]int
	ops        map[*sim.Task]*ljOp
	fresh      bool
	closes     int
	inClose    int
	clockBack  bool
	jumps      int
	attr       map[string]ljAttr // backup key -> attributes when it was set aside
	own        map[string]bool   // backups set aside in this run
	first      *ljAttr           // of the first log file
	maxWall    time.Time
	l          *lumberjack.Logger
	old        *lumberjack.Logger // closed and replaced in this incarnation
	faultsOff  int64
	sticky     string
	slow       time.Duration
	match      func(rest string) *ljRec
}

func ljText(id, n int) string {
	h := "{" + strconv.Itoa(id) + "|"
	if n < len(h)+2 {
		n = len(h) + 2
	}
	b := make([]byte, 0, n)
	b = append(b, h...)
	for i := len(h); i < n-2; i++ {
		b = append(b, byte('a'+(id*7+i)%26))
	}
	return string(append(b, '}', '\n'))
}

func (w *ljWorld) newRec(n int) *ljRec {
	c := &ljRec{id: len(w.recs) + 1}
	c.text = ljText(c.id, n)
	w.recs = append(w.recs, c)
	w.byID[strconv.Itoa(c.id)] = c
	return c
}

var ljFormats = []string{"2006-01-02T15-04-05", "2006-01-02", "20060102150405", "2006-01-02T15-04-05.000000"}

func newLJ(r *sim.Run, k ljKnobs) *ljWorld {
	w := &ljWorld{r: r, k: k, attr: map[string]ljAttr{}, own: map[string]bool{}, byID: map[string]*ljRec{}, shadow: map[string]ljShadow{}, foreign: map[string]string{},
		contents: map[string]string{}, big: map[*sim.Inode]int{}, ops: map[*sim.Task]*ljOp{}, fresh: true}
	switch r.W.Draw(8) {
	case 0:
		w.file = "/work/logs/app"
	case 1:
		w.file = "/work/logs/deep/er/my.app.log"
	case 2:
		w.file = "app.log"
	case 3:
		w.file = "/work/logs/x-2026.log"
	case 4:
		if swarm(r, 1, 3) {
			w.file = "" // <process>-lumberjack.log in the temporary directory
		} else {
			w.file = "/work/logs/app.log"
		}
	default:
		w.file = "/work/logs/app.log"
	}
	p := w.file
	if p == "" {
		p = path.Join(sos.TempDir(), path.Base(sos.Args[0])+"-lumberjack.log")
	} else if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	w.dir, w.base = path.Dir(p), path.Base(p)
	w.ext = path.Ext(w.base)
	w.prefix = strings.TrimSuffix(w.base, w.ext) + "-"
	w.format = "2006-01-02T15-04-05.000"
	if k.coarse > 0 && swarm(r, 1, k.coarse) {
		w.format = ljFormats[r.W.Draw(len(ljFormats))]
	}
	w.local = r.W.Draw(3) == 1
	switch r.Swarm.Intn(4) {
	case 0:
		sim.SetZone(time.FixedZone("EST", -5*3600))
	case 1:
		sim.SetZone(time.FixedZone("IST", 5*3600+1800))
	case 2:
		sim.SetZone(time.FixedZone("LINT", 14*3600))
	}
	switch k.compress {
	case 0:
		w.compress = true
	case 1:
		w.compress = swarm(r, 1, 2)
	default:
		w.compress = swarm(r, 1, k.compress)
	}
	if k.retain {
		switch r.W.Draw(4) {
		case 0:
			w.maxBackups = 1 + r.W.Draw(4)
		case 1:
			w.maxAge = []int{1, 2, 30, 150000}[r.W.Draw(4)]
		case 2:
			w.maxBackups = 1 + r.W.Draw(5)
			w.maxAge = []int{1, 2, 30, 150000}[r.W.Draw(4)]
		}
	}
	w.maxSize = []int{1, 1, 2, 3, 0}[r.W.Draw(5)]
	w.mb = []int{40, 64, 100, 256}[r.W.Draw(4)]
	if w.maxSize == 0 {
		w.mb = 3
	}
	if k.sizes && r.Swarm.Intn(64) == 0 || !sim.SetVar(ljPkg+".megabyte", w.mb) {
		w.mb = 1 << 20
		if w.maxSize == 0 && r.Swarm.Intn(4) != 0 {
			w.maxSize = 1
		}
	}
	w.max = w.maxSize * w.mb
	if w.maxSize == 0 {
		w.max = 100 * w.mb
	}
	r.FS.Latency = []time.Duration{0, 0, 20 * time.Microsecond, 300 * time.Microsecond}[r.Swarm.Intn(4)]
	r.FS.OnOp = w.onOp
	if w.compress {
		r.FS.CloseLoses = func(name string) bool {
			_, gz := w.gzOf(path.Base(name))
			return gz && r.F.Draw(2) == 0
		}
	}
	if k.slow {
		w.slow = pickDur(r, 5*time.Minute, time.Hour)
		r.FS.Delay = func(op, name string) time.Duration {
			if w.slow == 0 || w.ops[r.Cur()] != nil {
				return 0
			}
			return w.slow
		}
	}
	return w
}

func (w *ljWorld) boot() {
	if w.mb != 1<<20 {
		sim.SetVar(ljPkg+".megabyte", w.mb)
	}
	w.fresh = true
	w.ops = map[*sim.Task]*ljOp{}
	w.inClose = 0
	w.old = nil
}

func (w *ljWorld) newLogger() *lumberjack.Logger {
	f := w.format
	if f == "2006-01-02T15-04-05.000" && w.r.W.Draw(2) == 0 {
		f = ""
	}
	return &lumberjack.Logger{Filename: w.file, MaxSize: w.maxSize, MaxBackups: w.maxBackups, MaxAge: w.maxAge,
		LocalTime: w.local, Compress: w.compress, BackupTimeFormat: f}
}

func (w *ljWorld) loc() *time.Location {
	if w.local {
		return time.Local
	}
	return time.UTC
}

// ljKey orders backups: the timestamp in the name, then the number that tells apart backups
// of one timestamp.
type ljKey struct {
	t   time.Time
	n   int
	key string // name without .gz
	gz  bool
}

func (a ljKey) newer(b ljKey) bool {
	if !a.t.Equal(b.t) {
		return a.t.After(b.t)
	}
	return a.n > b.n
}

type ljNameKey struct {
	name string
	loc  *time.Location
}

type ljParsed struct {
	k  ljKey
	ok bool
}

func (w *ljWorld) parseName(name string) (ljKey, bool) {
	id := ljNameKey{name, w.loc()}
	p, ok := w.names[id]
	if !ok {
		p.k, p.ok = w.parseName1(name)
		if w.names == nil {
			w.names = map[ljNameKey]ljParsed{}
		}
		w.names[id] = p
	}
	return p.k, p.ok
}

func (w *ljWorld) parseName1(name string) (ljKey, bool) {
	k := ljKey{key: name}
	try1 := func(s string) bool {
		if !strings.HasPrefix(s, w.prefix) || !strings.HasSuffix(s, w.ext) || len(s) < len(w.prefix)+len(w.ext) {
			return false
		}
		ts := s[len(w.prefix) : len(s)-len(w.ext)]
		if t, err := time.ParseInLocation(w.format, ts, w.loc()); err == nil {
			k.t = t
			return true
		}
		i := strings.LastIndexByte(ts, '-')
		if i < 0 {
			return false
		}
		n, err := strconv.ParseUint(ts[i+1:], 10, 31)
		if err != nil || n == 0 || strconv.FormatUint(n, 10) != ts[i+1:] {
			return false
		}
		t, err := time.ParseInLocation(w.format, ts[:i], w.loc())
		if err != nil {
			return false
		}
		k.t, k.n = t, int(n)
		return true
	}
	if try1(name) {
		return k, true
	}
	if strings.HasSuffix(name, ".gz") {
		k.key, k.gz = strings.TrimSuffix(name, ".gz"), true
		if try1(k.key) {
			return k, true
		}
	}
	return ljKey{}, false
}

func (w *ljWorld) wall() time.Time {
	t := w.r.Wall()
	if t.After(w.maxWall) {
		w.maxWall = t
	}
	return t
}

func ljAbs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/work/" + name
	}
	return path.Clean(name)
}

// refresh takes a picture of the directory and returns the one before, which is valid until the next.
func (w *ljWorld) refresh() map[string]ljShadow {
	d := w.r.FS.Get(w.dir)
	prev := w.shadow
	w.shadow, w.spare = w.spare, prev
	if w.shadow == nil {
		w.shadow = map[string]ljShadow{}
	}
	for n := range w.shadow {
		delete(w.shadow, n)
	}
	if d == nil {
		return prev
	}
	for n, c := range d.Child {
		if !c.Dir {
			w.shadow[n] = ljShadow{c, len(c.Data)}
		}
	}
	return prev
}

func (w *ljWorld) onOp(op, name, name2 string, err error) {
	r := w.r
	if r.Cur() == nil || r.Cur().Proc == 0 {
		return
	}
	o := w.ops[r.Cur()]
	mutating := op != "stat" && op != "open" && op != "read" && op != "readdir" && op != "lstat"
	if o != nil && mutating {
		o.ops++
	}
	w.wall()
	dir := path.Dir(ljAbs(name))
	b := path.Base(ljAbs(name))
	if err == nil && dir == w.dir {
		switch op {
		case "rename":
			b2 := path.Base(ljAbs(name2))
			if old, ok := w.shadow[b2]; ok && path.Dir(ljAbs(name2)) == w.dir && old.size > 0 {
				if _, gz := w.gzOf(b2); !gz {
					r.Fail("backup-overwritten", "renaming %s to %s destroyed the existing file of that name (%d bytes)", b, b2, old.size)
				}
			}
			if b == w.base {
				s := w.shadow[b]
				if k, ok := w.parseName(b2); ok && !k.gz {
					w.contents[b2] = string(s.ino.Data)
					w.attr[b2] = attrOf(s.ino)
					w.own[b2] = true
					if w.first == nil {
						a := attrOf(s.ino)
						w.first = &a
					}
					w.stamped(o, b2, k)
				} else {
					r.Fail("backup-name", "the log file was renamed to %s, which is not a backup name of %s", b2, w.base)
				}
				w.renamed(o, s)
			} else if _, f := w.foreign[b]; f {
				r.Fail("foreign-renamed", "%s is not a file of this logger, but was renamed to %s", b, b2)
			}
		case "remove", "removeall":
			w.removed(b)
		}
	}
	// the directory after the call
	if mutating {
		prev := w.refresh()
		var changed []string
		for n, s := range w.shadow {
			if p, ok := prev[n]; !ok || p != s {
				changed = append(changed, n)
			}
		}
		sort.Strings(changed)
		for _, n := range changed {
			s := w.shadow[n]
			p, ok := prev[n]
			ok = ok && p.ino == s.ino
			if ok && o != nil && op == "write" {
				o.wrote += s.size - p.size
			}
			k, isb := w.parseName(n)
			if n != w.base && (!isb || k.gz) {
				continue
			}
			if ok && s.size < p.size {
				r.Fail("truncated", "%s of %s cut %s from %d to %d bytes", op, b, n, p.size, s.size)
			}
			if ok && n != w.base && s.size > p.size {
				r.Fail("backup-grew", "%s of %s added %d bytes to the backup %s", op, b, s.size-p.size, n)
			}
			if s.size > w.max && s.size > w.big[s.ino] {
				r.Fail("too-big", "%s has %d bytes, the maximum is %d", n, s.size, w.max)
			}
		}
	}
}

func (w *ljWorld) gzOf(name string) (string, bool) {
	k, ok := w.parseName(name)
	return k.key, ok && k.gz
}

// stamped checks the time in the name of a backup: it is when the log file was set aside.
func (w *ljWorld) stamped(o *ljOp, name string, k ljKey) {
	if o == nil || o.jumps != w.jumps {
		return
	}
	at := func(t time.Time) time.Time {
		p, err := time.ParseInLocation(w.format, t.In(w.loc()).Format(w.format), w.loc())
		if err != nil {
			w.r.Fail("harness", "%v", err)
		}
		return p
	}
	from, to := at(o.wall), at(w.r.Wall())
	if k.t.Before(from) || k.t.After(to) {
		w.r.Fail("wrong-time", "the log file was renamed to %s, but set aside between %s and %s", name, from.Format(w.format), to.Format(w.format))
	}
}

// handedDown checks the attributes of files made by a logger no call of which failed.
func (w *ljWorld) handedDown(when string) {
	if w.k.faults || w.k.crash || w.k.sticky {
		return
	}
	r := w.r
	keys := map[ljKey]ljAttr{}
	var order []ljKey
	for _, n := range names(w.shadow) {
		s := w.shadow[n]
		k, ok := w.parseName(n)
		if !ok {
			continue
		}
		a, ok := w.attr[k.key]
		if !ok {
			continue
		}
		if _, plain := w.shadow[k.key]; k.gz && plain {
			continue // a copy in the making
		}
		if got := attrOf(s.ino); got != a {
			r.Fail("attributes", "%s: %s has mode %v and owner %d.%d, the file set aside had mode %v and owner %d.%d", when, n, got.mode, got.uid, got.gid, a.mode, a.uid, a.gid)
		}
		keys[k] = a
		order = append(order, k)
	}
	if w.first != nil {
		for _, k := range order {
			a := keys[k]
			if w.own[k.key] && a != *w.first {
				r.Fail("attributes", "%s: %s was set aside with mode %v and owner %d.%d, the first log file had mode %v and owner %d.%d", when, k.key, a.mode, a.uid, a.gid, w.first.mode, w.first.uid, w.first.gid)
			}
		}
		if s, ok := w.shadow[w.base]; ok && attrOf(s.ino) != *w.first {
			a := attrOf(s.ino)
			r.Fail("attributes", "%s: the log file has mode %v and owner %d.%d, the first one had mode %v and owner %d.%d", when, a.mode, a.uid, a.gid, w.first.mode, w.first.uid, w.first.gid)
		}
	}
}

// renamed checks the reason for setting the log file aside.
func (w *ljWorld) renamed(o *ljOp, s ljShadow) {
	if o == nil {
		return
	}
	o.renamed = true
	if o.kind == "write" && !w.k.faults {
		need := s.size + o.n
		if need > w.max || need == w.max && (o.fresh || w.fresh || w.inClose > 0) {
			return
		}
		w.r.Fail("early-rotation", "a write of %d bytes rotated the log file although it had only %d of %d bytes", o.n, s.size, w.max)
	}
	if o.kind == "close" {
		w.r.Fail("rotation-on-close", "Close rotated the log file")
	}
}

func gunzip(b []byte) (string, error) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return "", err
	}
	out, err := io.ReadAll(z)
	return string(out), err
}

// removed judges a removal.
func (w *ljWorld) removed(b string) {
	r := w.r
	s, ok := w.shadow[b]
	if !ok {
		return
	}
	if b == w.base {
		r.Fail("removed-current", "the log file itself was removed")
	}
	k, isb := w.parseName(b)
	if _, f := w.foreign[b]; f || !isb {
		r.Fail("removed-foreign", "%s was removed; it is not a backup of %s", b, w.base)
	}
	other := b + ".gz"
	if k.gz {
		other = k.key
	}
	// a plain file with a complete compressed copy
	if o, ok := w.shadow[other]; ok && w.compress {
		if !k.gz {
			if text, err := gunzip(o.ino.Data); err == nil && text == string(s.ino.Data) {
				r.Probe("compressed")
				r.Nontriv = true
				return
			}
		} else {
			r.Probe("partial-copy-removed")
			return
		}
	} else if ok && k.gz {
		r.Probe("partial-copy-removed")
		return
	}
	// retention
	reason := ""
	if w.maxAge > 0 && k.t.Before(w.maxWall.Add(-time.Duration(w.maxAge%100000)*24*time.Hour)) && w.maxAge < 100000 {
		reason = "age"
	}
	if w.maxBackups > 0 {
		keys := map[string]bool{}
		for n := range w.shadow {
			if kk, ok := w.parseName(n); ok && kk.newer(k) {
				keys[kk.key] = true
			}
		}
		if len(keys) >= w.maxBackups {
			reason = "count"
		}
	}
	if reason != "" {
		r.Probe("retention-" + reason)
		r.Nontriv = true
		w.gone(b, k, s)
		return
	}
	if !k.gz && w.compress {
		if o, ok := w.shadow[other]; ok {
			_, err := gunzip(o.ino.Data)
			r.Fail("source-removed-early", "%s was removed while its compressed copy was not complete (%d bytes, %v)", b, len(o.ino.Data), err)
		}
	}
	r.Fail("removed-live", "%s was removed although no limit (MaxBackups %d, MaxAge %d) allows it; directory: %s", b, w.maxBackups, w.maxAge, w.listing())
}

func (w *ljWorld) gone(b string, k ljKey, s ljShadow) {
	text := string(s.ino.Data)
	if k.gz {
		text, _ = gunzip(s.ino.Data)
	}
	if c, ok := w.contents[k.key]; ok {
		text = c
	}
	for _, c := range w.recs {
		if strings.Contains(text, c.text) {
			c.gone = true
		}
	}
}

func (w *ljWorld) listing() string {
	var out []string
	d := w.r.FS.Get(w.dir)
	if d == nil {
		return "(none)"
	}
	for n, c := range d.Child {
		out = append(out, fmt.Sprintf("%s(%d)", n, len(c.Data)))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// ---- workload ----

// inTime checks that a call did not wait for the background work.
func (w *ljWorld) inTime(o *ljOp) {
	r := w.r
	if d := r.Now() - o.start; w.slow > 0 && d > w.slow/2 {
		r.Fail("waited", "%s took %v while file-system calls of the background work take %v each", o.kind, d, w.slow)
	}
}

func (w *ljWorld) begin(kind string, n int) *ljOp {
	o := &ljOp{kind: kind, n: n, start: w.r.Now(), fresh: w.fresh || w.inClose > 0, wall: w.r.Wall(), jumps: w.jumps, ino: w.shadow[w.base].ino}
	w.ops[w.r.Cur()] = o
	return o
}

func (w *ljWorld) size() int {
	r := w.r
	room := w.max
	if s, ok := w.shadow[w.base]; ok {
		room = w.max - s.size
	}
	lo := 8
	if w.mb == 1<<20 {
		lo = w.max / 8
	}
	switch r.W.Draw(10) {
	case 0:
		return room
	case 1:
		return room + 1
	case 2:
		return room - 1
	case 3:
		return w.max
	case 4:
		if w.k.sizes || r.W.Draw(4) == 1 {
			return w.max + 1 + r.W.Draw(3)
		}
	case 5:
		return w.max/2 + r.W.Draw(w.max/2)
	}
	return lo + r.W.Draw(1+w.max/4)
}

func (w *ljWorld) write(n int) *ljRec {
	r := w.r
	c := w.newRec(n)
	o := w.begin("write", len(c.text))
	l := w.l
	closes := w.closes
	buf := []byte(c.text)
	c.begin = r.Seq()
	var pan interface{}
	var panicked bool
	pan, panicked = try(func() { c.n, c.err = l.Write(buf) })
	w.inTime(o)
	c.ret = r.Seq()
	c.done = true
	delete(w.ops, r.Cur())
	if panicked {
		r.Fail("panic", "Write panicked: %v", pan)
	}
	if string(buf) != c.text {
		r.Fail("buffer-changed", "Write changed the caller's buffer")
	}
	for i := range buf {
		buf[i] = '#'
	}
	r.Logf("write %d (%d bytes): %d %v", c.id, len(c.text), c.n, c.err)
	if len(c.text) > w.max {
		r.Probe("oversize")
		r.Nontriv = true
		if c.err == nil {
			r.Fail("oversize-accepted", "a write of %d bytes was accepted; the maximum is %d", len(c.text), w.max)
		}
		if c.n != 0 || o.ops > 0 {
			r.Fail("oversize-trace", "a refused write of %d bytes returned %d and made %d changes to the file system", len(c.text), c.n, o.ops)
		}
		return c
	}
	if c.err == nil && c.n != len(c.text) {
		r.Fail("short-ack", "Write of %d bytes returned %d and no error", len(c.text), c.n)
	}
	if c.n < 0 || c.n > len(c.text) {
		r.Fail("bad-count", "Write of %d bytes returned %d", len(c.text), c.n)
	}
	if c.err != nil {
		if c.n != o.wrote {
			r.Fail("wrong-count", "Write of %d bytes returned %d and %v, but %d bytes were written", len(c.text), c.n, c.err, o.wrote)
		}
		if !w.k.faults || w.faultsOff > 0 && c.begin > w.faultsOff {
			r.Fail("write-failed", "Write of %d bytes failed although every file-system call succeeds: %v", len(c.text), c.err)
		}
		w.fresh = true
	} else if w.closes == closes && w.inClose == 0 {
		w.fresh = false
	}
	return c
}

func (w *ljWorld) rotate() {
	r := w.r
	_, had := w.shadow[w.base]
	o := w.begin("rotate", 0)
	l := w.l
	var err error
	start := r.Seq()
	pan, panicked := try(func() { err = l.Rotate() })
	w.inTime(o)
	delete(w.ops, r.Cur())
	if panicked {
		r.Fail("panic", "Rotate panicked: %v", pan)
	}
	r.Logf("rotate: %v", err)
	if err != nil {
		if !w.k.faults || w.faultsOff > 0 && start > w.faultsOff {
			r.Fail("rotate-failed", "Rotate failed although every file-system call succeeds: %v", err)
		}
		w.fresh = true
	} else if had && !o.renamed && !w.k.faults {
		r.Fail("rotate-did-nothing", "Rotate returned no error but the log file was not set aside")
	} else if o.ino != nil && w.shadow[w.base].ino == o.ino {
		r.Fail("rotate-did-nothing", "Rotate returned no error but the log file is still the one from before")
	}
}

func (w *ljWorld) close() {
	r := w.r
	w.closes++
	w.inClose++
	w.fresh = true
	o := w.begin("close", 0)
	l := w.l
	var err error
	start := r.Seq()
	pan, panicked := try(func() { err = l.Close() })
	w.inTime(o)
	delete(w.ops, r.Cur())
	w.inClose--
	w.fresh = true
	if panicked {
		r.Fail("panic", "Close panicked: %v", pan)
	}
	if err != nil && (!w.k.faults || w.faultsOff > 0 && start > w.faultsOff) {
		r.Fail("close-failed", "Close failed although every file-system call succeeds: %v", err)
	}
}

func (w *ljWorld) pause() {
	r := w.r
	switch r.W.Draw(8) {
	case 0:
		r.Sleep(ms)
	case 1:
		r.Sleep(pickDur(r, 3*ms, 50*ms, sec, time.Hour))
	case 2:
		if w.k.jumps && w.r.W.Draw(3) == 1 {
			d := pickDur(r, 2*ms, sec, 25*time.Hour, 49*time.Hour)
			if r.F.Chance(1, 3) {
				d = -d
				w.clockBack = true
			}
			r.Fault("clock-jump")
			w.jumps++
			r.JumpClock(d)
			w.wall()
		}
	case 3, 4:
		r.Yield()
	}
}

// populate puts what an earlier use left behind.
func (w *ljWorld) populate() {
	r := w.r
	if w.k.pre > 0 && r.W.Draw(w.k.pre+1) == 0 {
		if r.W.Draw(2) == 1 {
			r.FS.MustMkdirAll(w.dir)
		}
		return
	}
	r.FS.MustMkdirAll(w.dir)
	put := func(name, text string) *sim.Inode { return r.FS.Put(path.Join(w.dir, name), []byte(text)) }
	stamp := func(t time.Time) string { return t.In(w.loc()).Format(w.format) }
	fill := func(n int) string {
		s := ""
		for {
			c := w.newRec(n / 2)
			c.pre = true
			s += c.text
			if len(s) >= n {
				return s
			}
		}
	}
	if r.W.Draw(3) > 0 {
		n := 8 + r.W.Draw(w.max)
		if w.k.bigs {
			switch r.W.Draw(5) {
			case 0:
				n = w.max + r.W.Draw(w.max)
			case 1:
				n = 0
			}
		}
		var ino *sim.Inode
		if n == 0 {
			ino = put(w.base, "")
		} else if w.mb == 1<<20 {
			c := w.newRec(n)
			c.pre = true
			ino = put(w.base, c.text)
		} else {
			ino = put(w.base, fill(n))
		}
		w.big[ino] = len(ino.Data)
		if r.W.Draw(2) == 1 {
			ino.Mode, ino.Uid, ino.Gid = []sos.FileMode{0600, 0640, 0664}[r.W.Draw(3)], r.W.Draw(3), 7*r.W.Draw(3)
		}
	}
	now := w.wall()
	nb := r.W.Draw(4)
	if w.k.retain {
		nb = r.W.Draw(8)
	}
	for i := 0; i < nb; i++ {
		ages := []time.Duration{time.Hour, 23 * time.Hour, 24*time.Hour - sec, 24*time.Hour + sec, 25 * time.Hour, 3 * 24 * time.Hour, 29 * 24 * time.Hour, 31 * 24 * time.Hour, 400 * 24 * time.Hour, 40 * time.Hour, -2 * ms}
		a := ages[r.W.Draw(len(ages))]
		if a < 0 && w.k.jumps {
			a = time.Minute
		}
		name := w.prefix + stamp(now.Add(-a)) + w.ext
		if r.W.Draw(6) == 1 {
			name = w.prefix + stamp(now.Add(-a)) + "-" + itoa(1+r.W.Draw(12)) + w.ext
		}
		if r.FS.Get(path.Join(w.dir, name)) != nil || r.FS.Get(path.Join(w.dir, name+".gz")) != nil {
			continue
		}
		text := fill(10 + r.W.Draw(40))
		w.contents[name] = text
		kind := r.W.Draw(4)
		if kind != 1 {
			ino := put(name, text)
			w.big[ino] = len(text)
			if r.W.Draw(2) == 1 {
				ino.Mode, ino.Uid = 0600, 1+r.W.Draw(3)
			}
			w.attr[name] = attrOf(ino)
		}
		switch kind {
		case 1:
			var b bytes.Buffer
			z := gzip.NewWriter(&b)
			z.Write([]byte(text))
			z.Close()
			put(name+".gz", b.String())
		case 2:
			if w.compress {
				ino := put(name+".gz", "\x1f\x8b\x08 torn by an earlier crash"+strings.Repeat("~", r.W.Draw(2)*r.W.Draw(200)))
				ino.Mode, ino.Uid = w.attr[name].mode, w.attr[name].uid*r.W.Draw(2)
			}
		}
	}
	if r.W.Draw(2) == 1 {
		ts := stamp(now.Add(-1000 * time.Hour))
		for _, f := range []string{
			w.base + ".bak", w.base + ".gz", w.prefix + "notes" + w.ext, w.prefix + ts + w.ext + ".bak", w.prefix + ts + w.ext + ".gz.gz",
			"other-" + ts + w.ext, w.prefix + "audit-" + ts + w.ext, "x" + w.prefix + ts + w.ext, w.prefix + ts + ".txt", w.prefix + "a" + ts + w.ext, w.prefix + ts + "-" + w.ext,
			w.prefix + "9999-99-99T99-99-99.999" + w.ext, strings.ToUpper(w.prefix) + ts + w.ext, ts + w.ext, w.prefix + ts + "Z" + w.ext,
			w.prefix + ts + "-x" + w.ext, w.prefix, w.prefix + w.ext, "x"} {
			if _, isb := w.parseName(f); isb || f == w.base || r.W.Draw(3) == 0 {
				continue
			}
			put(f, "not a log of this logger: "+f)
			w.foreign[f] = "not a log of this logger: " + f
		}
		if r.W.Draw(2) == 1 {
			r.FS.MustMkdirAll(path.Join(w.dir, w.prefix+stamp(now.Add(-900*time.Hour))+w.ext))
		}
	}
	w.refresh()
}

// client runs a share of the workload.
func (w *ljWorld) client(i, n int, rot, cls int) {
	r := w.r
	for j := 0; j < n; j++ {
		x := r.W.Draw(24)
		switch {
		case x < rot:
			w.rotate()
		case x < rot+cls:
			w.close()
			if w.k.replace > 0 && r.W.Draw(w.k.replace) == 1 && w.solo() {
				old := w.l
				if w.old != nil && r.W.Draw(3) > 0 {
					w.l = w.old // closed earlier; the file has changed since
					r.Probe("logger-brought-back")
				} else {
					w.l = w.newLogger()
					r.Probe("logger-replaced")
				}
				w.old = old
			}
		default:
			w.write(w.size())
		}
		w.pause()
	}
}

// solo tells whether no call on the logger is in progress.
func (w *ljWorld) solo() bool { return len(w.ops) == 0 }

func runLJ(r *sim.Run, k ljKnobs) {
	w := newLJ(r, k)
	w.populate()
	if k.incarnations == 0 {
		k.incarnations = 1 + r.W.Draw(2)
	}
	if r.Swarm.Intn(3) == 0 {
		r.Stalls(4 + r.Swarm.Intn(20))
	}
	clients := 1 + r.W.Draw(3)
	per := 2 + r.W.Draw(8)
	if k.many {
		per = 3 + r.W.Draw(12)
	}
	if w.mb == 1<<20 {
		clients, per = 1+r.W.Draw(2), 2+r.W.Draw(4)
	}
	rot := r.W.Draw(4)
	if k.many {
		rot = 3 + r.W.Draw(10)
	}
	cls := r.W.Draw(3)
	var rates map[string]int
	if k.faults {
		ops := []string{"open", "create", "stat", "rename", "write", "read", "close", "chown", "mkdir", "readdir", "remove"}
		rates = map[string]int{}
		for _, o := range ops {
			if r.Swarm.Intn(3) > 0 {
				rates[o] = []int{2, 4, 8, 16, 40}[r.Swarm.Intn(5)]
			}
		}
	}
	for inc := 0; inc < k.incarnations; inc++ {
		w.boot()
		over, closed := false, false
		stopFaults := r.Swarm.Intn(3) == 0
		if k.faults {
			r.FS.Faults = &sim.FSFaults{Rate: rates, Burst: r.Swarm.Intn(4)}
			w.faultsOff = 0
		}
		if k.crash && inc < k.incarnations-1+r.W.Draw(2) {
			if r.F.Draw(3) > 0 {
				r.CrashAtFS(int64(1+r.F.Draw(20*clients*per)), r.F.Draw(3))
			} else {
				r.CrashAfter(int64(1 + r.F.Draw(600*clients*per)))
			}
		}
		t := r.SpawnProc("app", func() {
			w.l = w.newLogger()
			var ts []*sim.Task
			for i := 0; i < clients; i++ {
				i := i
				ts = append(ts, r.Spawn("client", func() { w.client(i, per, rot, cls) }))
			}
			if k.faults && stopFaults {
				r.Sleep(pickDur(r, 0, ms, 10*ms))
				r.FS.Faults = nil
				w.faultsOff = r.Seq()
			}
			r.Join(ts...)
			switch r.W.Draw(4) {
			case 0:
				w.close()
				closed = true
			case 1:
				r.Sleep(pickDur(r, ms, sec))
			}
			over = true
		})
		r.WaitUntil("application", func() bool { return over || !r.ProcAlive(t.Proc) })
		if !over {
			r.Probe("crashed")
		}
		if closed && !k.slow && r.ProcAlive(t.Proc) {
			none := false
			r.WaitFor("files closed", time.Hour, func() bool {
				none = none || !r.ProcAlive(t.Proc) || len(r.FS.OpenFiles(t.Proc)) == 0
				return none
			})
			if !none {
				r.Fail("leak", "an hour after Close the logger still has files open: %s", strings.Join(r.FS.OpenFiles(t.Proc), " "))
			}
		}
		r.DisarmFSCrash()
		r.DisarmCrash()
		r.EndProcess(t.Proc)
		w.refresh()
		r.Logf("process %d ended, over=%v: %s", inc, over, w.listing())
		if r.W.Draw(3) == 0 {
			w.check("after process end", false)
		}
	}
	// final incarnation: no faults
	r.FS.Faults = nil
	w.faultsOff = r.Seq()
	w.slow = 0
	w.boot()
	if w.k.sticky && r.W.Draw(3) > 0 {
		// one backup cannot be removed, or not be read
		var names []string
		for n := range w.shadow {
			if _, ok := w.parseName(n); ok {
				names = append(names, n)
			}
		}
		if len(names) > 0 {
			sort.Strings(names)
			w.sticky = names[r.W.Draw(len(names))]
			op := []string{"remove", "open"}[r.W.Draw(2)]
			r.FS.Faults = &sim.FSFaults{Always: true, Rate: map[string]int{op: 1}, Match: func(op, name string) bool { return path.Base(name) == w.sticky }}
		}
		r.Calm()
	} else if k.faults && r.W.Draw(3) == 1 {
		// only opening the existing log file fails: it is set aside
		r.FS.Faults = &sim.FSFaults{Rate: map[string]int{"open": 1}, Max: 1, Match: func(op, name string) bool { return path.Base(name) == w.base }}
	} else {
		r.Calm()
	}
	over := false
	r.SpawnProc("app", func() {
		w.l = w.newLogger()
		w.write(8)
		if r.W.Draw(2) == 1 {
			w.rotate()
			w.write(8)
		}
		over = true
	})
	if !r.WaitFor("final writes", time.Minute, func() bool { return over }) {
		r.Fail("blocked", "a logger without faults did not complete a write within a minute: %s", r.Where())
	}
	r.Calm()
	at := w.wall()
	r.Sleep(10 * sec)
	w.check("at the end", true)
	w.handedDown("at the end")
	w.settled(at)
}

// settled checks what the background work must have done by now.
func (w *ljWorld) settled(at time.Time) {
	r := w.r
	keys := map[string]ljKey{}
	for _, n := range names(w.shadow) {
		k, ok := w.parseName(n)
		if !ok {
			continue
		}
		if sk, _ := w.parseName(w.sticky); w.sticky != "" && sk.key == k.key {
			continue
		}
		keys[k.key] = k
		if w.compress && !k.gz {
			if w.ext == ".gz" {
				continue
			}
			r.Fail("not-compressed", "10 s after the last rotation %s has not been replaced by a compressed copy; directory: %s", n, w.listing())
		}
		if w.maxAge > 0 && w.maxAge < 100000 && k.t.Before(at.Add(-time.Duration(w.maxAge)*24*time.Hour)) {
			r.Fail("too-old", "%s is older than %d days at %s, yet still there 10 s after the last rotation", n, w.maxAge, at.In(w.loc()).Format(w.format))
		}
		if w.compress && k.gz {
			r.Nontriv = true
		}
	}
	if w.maxBackups > 0 && len(keys) > w.maxBackups {
		r.Fail("too-many", "%d backups are left 10 s after the last rotation, MaxBackups is %d; directory: %s", len(keys), w.maxBackups, w.listing())
	}
	if w.maxBackups > 0 || w.maxAge > 0 {
		r.Nontriv = true
	}
}

// check compares the files with what was acknowledged.
func (w *ljWorld) check(when string, final bool) {
	r := w.r
	type part struct {
		k    ljKey
		name string
		text string
	}
	var parts []part
	cur := ""
	haveCur := false
	for _, n := range names(w.shadow) {
		s := w.shadow[n]
		if want, f := w.foreign[n]; f {
			if string(s.ino.Data) != want {
				r.Fail("foreign-changed", "%s is not a file of this logger, but its content changed", n)
			}
			continue
		}
		if n == w.base {
			cur, haveCur = string(s.ino.Data), true
			continue
		}
		k, ok := w.parseName(n)
		if !ok {
			r.Fail("stray-file", "%s: %s is neither the log file nor a backup", when, n)
		}
		text := string(s.ino.Data)
		if k.gz {
			if _, plain := w.shadow[k.key]; plain {
				continue // a copy in the making
			}
			var err error
			text, err = gunzip(s.ino.Data)
			if err != nil {
				if w.limited() {
					continue // its surplus source was removed first
				}
				r.Fail("damaged-copy", "%s: %s cannot be decompressed (%v) and %s is gone", when, n, err, k.key)
			}
		}
		if want, ok := w.contents[k.key]; ok && want != text {
			r.Fail("backup-changed", "%s: %s holds %s, but the file set aside held %s", when, n, abbr(text), abbr(want))
		}
		parts = append(parts, part{k, n, text})
	}
	for _, n := range names(w.foreign) {
		if _, ok := w.shadow[n]; !ok {
			r.Fail("foreign-gone", "%s is not a file of this logger, but it is gone", n)
		}
	}
	sort.Slice(parts, func(i, j int) bool { return parts[j].k.newer(parts[i].k) })
	if haveCur {
		parts = append(parts, part{name: w.base, text: cur})
	} else if final {
		r.Fail("no-log-file", "%s: there is no file under the configured name", when)
	}
	var order []*ljRec
	for _, c := range w.recs {
		c.seen = 0
	}
	for _, p := range parts {
		order = append(order, w.parse(when, p.name, p.text)...)
	}
	n := 0
	for _, c := range w.recs {
		if c.acked() && c.seen == 0 && !c.gone {
			r.Fail("lost", "%s: record %d (%d bytes) was acknowledged but is in no file; directory: %s", when, c.id, len(c.text), w.listing())
		}
		if c.seen > 1 {
			r.Fail("duplicate", "%s: record %d is in the files %d times", when, c.id, c.seen)
		}
		if c.seen > 0 && c.acked() && !c.pre {
			n++
		}
	}
	if n > 1 && len(parts) > 1 {
		r.Nontriv = true
	}
	if w.clockBack {
		return
	}
	// order: a record must not stand before one that was acknowledged before it was written
	var minRet int64 = 1 << 62
	var minRec *ljRec
	for i := len(order) - 1; i >= 0; i-- {
		c := order[i]
		if c.pre || !c.done {
			continue
		}
		if minRec != nil && minRet < c.begin {
			r.Fail("order", "%s: record %d (in %s) stands before record %d (in %s), whose write had returned before that of %d began", when, c.id, c.where, minRec.id, minRec.where, c.id)
		}
		if c.ret < minRet {
			minRet, minRec = c.ret, c
		}
	}
}

func (w *ljWorld) limited() bool { return w.maxBackups > 0 || w.maxAge > 0 }

// parse reads a file as whole records and, of failed or interrupted writes only, prefixes.
func (w *ljWorld) parse(when, name, text string) []*ljRec {
	r := w.r
	var out []*ljRec
	for pos := 0; pos < len(text); {
		rest := text[pos:]
		if w.match != nil {
			c := w.match(rest)
			if c == nil {
				r.Fail("garbage", "%s: %s at offset %d holds %s, which is no record handed to the writer", when, name, pos, abbr(rest))
			}
			c.seen++
			c.where = name
			out = append(out, c)
			pos += len(c.text)
			continue
		}
		if rest[0] == '{' {
			if i := strings.IndexByte(rest, '|'); i > 0 {
				if c := w.byID[rest[1:i]]; c != nil && strings.HasPrefix(rest, c.text) {
					c.seen++
					c.where = name
					if c.done && c.err != nil {
						r.Fail("failed-but-kept", "%s: record %d is whole in %s although its write reported: %v", when, c.id, name, c.err)
					}
					out = append(out, c)
					pos += len(c.text)
					continue
				}
			}
		}
		best := 0
		for _, c := range w.recs {
			if c.acked() || c.done && len(c.text) > w.max {
				continue
			}
			n := 0
			for n < len(rest) && n < len(c.text) && rest[n] == c.text[n] {
				n++
			}
			if n > best {
				best = n
			}
		}
		if best == 0 {
			r.Fail("garbage", "%s: %s at offset %d holds %s, which no write put there", when, name, pos, abbr(rest))
		}
		r.Probe("torn-record")
		pos += best
	}
	return out
}
