// check decides one property: it rebuilds the instrumented tree, proves the build is
// deterministic on a sample, searches seeds in parallel worker processes, and confirms,
// minimises and writes down a violation.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type tierCfg struct {
	seeds  uint64
	budget time.Duration
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var (
	verif   = env("VERIF_DIR", "/verif")
	repo    = env("VERIF_REPO", "/repo")
	workDir string
	worker  string
)

func fail(format string, a ...interface{}) {
	fmt.Printf("ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err := cmd.Run()
	return b.String(), err
}

type stat struct {
	Type     string           `json:"type"`
	Runs     int64            `json:"runs"`
	Points   int64            `json:"points"`
	Switches int64            `json:"switches"`
	SimNS    int64            `json:"sim_ns"`
	Tasks    int64            `json:"tasks"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Nontriv  int64            `json:"nontrivial"`
	WallMS   int64            `json:"wall_ms"`
}

type msg struct {
	Type   string          `json:"type"`
	Replay json.RawMessage `json:"replay"`
	Seed   uint64          `json:"seed"`
	Err    string          `json:"err"`
}

type replayHead struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
	Hash     string `json:"hash"`
	Input    struct {
		Seed uint64 `json:"seed"`
	} `json:"input"`
}

type known struct{ prop, class, match, text string }

// loadKnown reads the committed list of genuine, unrepaired defects.
func loadKnown() (out []known) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		parts := strings.Split(strings.TrimPrefix(l, "known: "), " | ")
		for _, p := range parts {
			kv := strings.SplitN(p, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "class":
				k.class = kv[1]
			case "match":
				k.match = kv[1]
			case "text":
				k.text = kv[1]
			}
		}
		if k.prop != "" && k.class != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return
}

type workerRes struct {
	st      *stat
	viol    *replayHead
	raw     json.RawMessage
	err     string
	crash   bool
	hang    bool
	seed    uint64
	out     string
	hashes  []uint64
	ordinal int
}

// runWorker runs seeds from, from+stride, ... in a fresh process.
func runWorker(i int, prop string, from, count, stride uint64, budget time.Duration, stop <-chan struct{}) (res workerRes) {
	status := filepath.Join(workDir, fmt.Sprintf("status%d", i))
	hashf := filepath.Join(workDir, fmt.Sprintf("hashes%d", i))
	os.Remove(status)
	os.Remove(hashf)
	res.ordinal = i
	cmd := exec.Command(worker, "run", "-prop", prop, "-from", fmt.Sprint(from), "-count", fmt.Sprint(count), "-stride", fmt.Sprint(stride),
		"-budget", budget.String(), "-status", status, "-hashes", hashf)
	cmd.Dir = workDir
	var stderr bytes.Buffer
	cmd.Stderr = &limited{&stderr, 1 << 16}
	out, err := cmd.StdoutPipe()
	if err != nil {
		res.err = err.Error()
		return
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		res.err = err.Error()
		return
	}
	done := make(chan struct{})
	var killed, hung bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		last, lastAt := uint64(0), time.Now()
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-stop:
				killed = true
				cmd.Process.Kill()
				return
			case <-tick.C:
				if s, ok := readStatus(status); ok && s != last {
					last, lastAt = s, time.Now()
				} else if time.Since(lastAt) > 60*time.Second {
					hung = true
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 256<<20)
	for sc.Scan() {
		var m msg
		line := append([]byte(nil), sc.Bytes()...)
		if json.Unmarshal(line, &m) != nil {
			continue
		}
		switch m.Type {
		case "stat":
			var s stat
			json.Unmarshal(line, &s)
			res.st = &s
		case "violation":
			var h replayHead
			json.Unmarshal(m.Replay, &h)
			res.viol = &h
			res.raw = m.Replay
		case "error":
			res.err = fmt.Sprintf("seed %d: %s", m.Seed, m.Err)
		}
	}
	err = cmd.Wait()
	close(done)
	wg.Wait()
	if b, e := os.ReadFile(hashf); e == nil {
		for k := 0; k+8 <= len(b); k += 8 {
			res.hashes = append(res.hashes, binary.LittleEndian.Uint64(b[k:]))
		}
	}
	res.out = stderr.String()
	if killed {
		return
	}
	if hung {
		res.hang = true
	}
	if res.st == nil && res.err == "" {
		res.crash = !hung
		res.seed, _ = readStatus(status)
	}
	return
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		k := l.n - l.b.Len()
		if k > len(p) {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

func readStatus(f string) (uint64, bool) {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 8 {
		return 0, false
	}
	return binary.LittleEndian.Uint64(b), true
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: check <property> [quick|thorough] | check replay <file>")
	}
	if os.Args[1] == "replay" {
		doReplay(os.Args[2])
		return
	}
	if os.Args[1] == "build" {
		build("build")
		return
	}
	prop := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	start := time.Now()
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	cfg := tierCfg{seeds: 1 << 40, budget: 32 * time.Second}
	if tier == "thorough" {
		cfg.budget = 10 * time.Minute
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			cfg.budget = d
		}
	}
	build(prop)
	buildS := time.Since(start).Seconds()

	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	base := uint64(seed)*1000003*1000003 + 1

	digestRuns := determinism(prop, base)
	if digestRuns < 0 && os.Getenv("VERIF_STRICT") != "" {
		fail("the simulation is not deterministic")
	}

	stop := make(chan struct{})
	var once sync.Once
	results := make(chan workerRes, nw)
	for i := 0; i < nw; i++ {
		go func(i int) {
			r := runWorker(i, prop, base+uint64(i), cfg.seeds, uint64(nw), cfg.budget, stop)
			if r.viol != nil || r.crash || r.hang || r.err != "" {
				once.Do(func() { close(stop) })
			}
			results <- r
		}(i)
	}
	var all []workerRes
	for i := 0; i < nw; i++ {
		all = append(all, <-results)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ordinal < all[j].ordinal })
	total := stat{Faults: map[string]int64{}, Probes: map[string]int64{}}
	distinct := map[uint64]bool{}
	var viol *workerRes
	for k := range all {
		r := &all[k]
		if r.st != nil {
			total.Runs += r.st.Runs
			total.Points += r.st.Points
			total.Switches += r.st.Switches
			total.SimNS += r.st.SimNS
			total.Tasks += r.st.Tasks
			total.Nontriv += r.st.Nontriv
			for f, n := range r.st.Faults {
				total.Faults[f] += n
			}
			for f, n := range r.st.Probes {
				total.Probes[f] += n
			}
		}
		for _, h := range r.hashes {
			distinct[h] = true
		}
		if r.viol != nil && (viol == nil || viol.viol == nil) {
			viol = r
		}
		if (r.crash || r.hang) && viol == nil {
			viol = r
		}
	}
	wall := time.Since(start).Seconds()
	violations := 0
	var lines []string
	exit := 0
	if viol != nil {
		// prefer a violation that repeats exactly in a fresh process
		if viol.viol != nil {
			best := 0
			for k := range all {
				if all[k].viol != nil && best < 2 {
					if q := repeats(&all[k]); q > best {
						best, viol = q, &all[k]
					}
				}
			}
		}
		exit, violations, lines = confirm(prop, viol)
	} else {
		for _, r := range all {
			if r.err != "" {
				fail("worker %d: %s\n%s", r.ordinal, r.err, r.out)
			}
		}
	}
	writeEvidence(prop, tier, seed, total, len(distinct), wall, buildS, nw, digestRuns, violations, base)
	for _, l := range lines {
		fmt.Println(l)
	}
	if exit == 0 {
		for _, k := range loadKnown() {
			if k.prop == prop {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
			}
		}
		fmt.Printf("ok property=%s tier=%s runs=%d distinct=%d simulated=%s switches=%d faults=%v wall=%.1fs\n", prop, tier, total.Runs, len(distinct),
			time.Duration(total.SimNS).Round(time.Second), total.Switches, total.Faults, wall)
	}
	os.Exit(exit)
}

func build(prop string) {
	workDir = filepath.Join(verif, ".build", prop)
	if v := os.Getenv("VERIF_BUILD"); v != "" {
		workDir = v
	}
	if err := os.MkdirAll(workDir, 0755); err != nil {
		fail("%v", err)
	}
	simgen := filepath.Join(workDir, "simgen")
	simDir := filepath.Join(verif, "sim")
	if out, err := run(simDir, nil, "go", "build", "-o", simgen, "./cmd/simgen"); err != nil {
		fail("building simgen: %v\n%s", err, out)
	}
	if out, err := run(repo, nil, simgen, "-repo", repo, "-out", workDir, "-sim", simDir); err != nil {
		fail("instrumenting: %v\n%s", err, out)
	}
	worker = filepath.Join(workDir, "plzsim")
	os.Remove(worker)
	if out, err := run(repo, []string{"GOFLAGS=-mod=mod"}, "go", "build", "-overlay", filepath.Join(workDir, "overlay.json"),
		"-modfile", filepath.Join(workDir, "go.mod"), "-o", worker, "verifsim/cmd/plzsim"); err != nil {
		fail("building the simulation: %v\n%s", err, out)
	}
}

// determinism runs a sample of seeds in several processes at once and compares digests.
func determinism(prop string, base uint64) int {
	const n, procs = 40, 4
	outs := make([]string, procs)
	errs := make([]error, procs)
	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			gogc := []string{"100", "20", "400", "off"}[i%4]
			cmd := exec.Command("timeout", "-s", "KILL", "60", worker, "digest", "-prop", prop, "-from", fmt.Sprint(base+5000000), "-count", fmt.Sprint(n))
			cmd.Env = append(os.Environ(), "GOGC="+gogc)
			b, err := cmd.Output()
			outs[i], errs[i] = string(b), err
		}(i)
	}
	wg.Wait()
	for i := 1; i < procs; i++ {
		if errs[i] != nil || errs[0] != nil {
			return 0 // a crashing or hanging seed: the search will meet and report it
		}
		if outs[i] != outs[0] {
			// violations are still confirmed one by one in fresh processes
			fmt.Printf("WARNING: executions of the same %d seeds differ: digests %q and %q\n", n, outs[0], outs[i])
			return -1
		}
	}
	return n * procs
}

// confirm re-runs a violation in a fresh process, minimises it and verifies the replay file.
func confirm(prop string, w *workerRes) (exit, violations int, lines []string) {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	if w.viol == nil {
		// the worker process itself died or stopped: a fatal error of the code under test
		kind := "fatal"
		if w.hang {
			kind = "hang"
		}
		seed := w.seed
		for try := 0; try < 3; try++ {
			ok, text := rerunCrash(prop, seed, w.hang)
			if ok {
				if text == "" {
					text = w.out
				}
				f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, kind, seed))
				rp := map[string]interface{}{"property": prop, "class": kind, "detail": firstLines(text, 12), "hash": "", "input": map[string]interface{}{"seed": seed}}
				b, _ := json.MarshalIndent(rp, "", " ")
				os.WriteFile(f, b, 0644)
				return 1, 1, []string{fmt.Sprintf("class=%s seed=%d: the simulated process died outside any simulated failure", kind, seed), firstLines(text, 6),
					fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f)}
			}
		}
		fail("worker %s at seed %d did not repeat in a fresh process\n%s", kind, seed, firstLines(w.out, 30))
	}
	h := w.viol
	raw := filepath.Join(workDir, "violation.json")
	os.WriteFile(raw, w.raw, 0644)
	if repeats(w) == 0 {
		out, _ := run(workDir, nil, "timeout", "-s", "KILL", "120", worker, "replay", "-file", raw)
		fail("a violation (class %s, seed %d: %s) did not replay in a fresh process:\n%s", h.Class, h.Input.Seed, h.Detail, out)
	}
	for _, k := range loadKnown() {
		if k.prop == prop && k.class == h.Class && strings.Contains(h.Detail, k.match) {
			return 0, 0, []string{fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.text)}
		}
	}
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, h.Class, h.Input.Seed))
	mb := env("VERIF_MINIMISE", "20s")
	_, err := run(workDir, nil, "timeout", "-s", "KILL", "120", worker, "minimise", "-file", raw, "-out", f, "-budget", mb)
	if err != nil {
		os.WriteFile(f, w.raw, 0644)
	}
	_, err = run(workDir, nil, "timeout", "-s", "KILL", "120", worker, "replay", "-file", f)
	if code(err) != 1 {
		// fall back to the original, which was confirmed
		os.WriteFile(f, w.raw, 0644)
	}
	var mh replayHead
	if b, e := os.ReadFile(f); e == nil {
		json.Unmarshal(b, &mh)
	}
	return 1, 1, []string{fmt.Sprintf("class=%s seed=%d: %s", mh.Class, mh.Input.Seed, mh.Detail), fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f)}
}

// repeats replays a violation in fresh processes: 2 when the execution is the same to the last
// step, 1 when it violates the property the same way but a source of randomness inside the code
// under test (one the simulator does not control) lets the execution differ, 0 otherwise.
func repeats(w *workerRes) int {
	raw := filepath.Join(workDir, "violation.json")
	os.WriteFile(raw, w.raw, 0644)
	best := 0
	for try := 0; try < 3; try++ {
		out, err := run(workDir, nil, "timeout", "-s", "KILL", "60", worker, "replay", "-file", raw)
		if code(err) == 1 {
			return 2
		}
		if code(err) == 4 && strings.Contains(out, fmt.Sprintf("class=%q", w.viol.Class)) {
			best = 1
		}
	}
	return best
}

func rerunCrash(prop string, seed uint64, hang bool) (bool, string) {
	cmd := exec.Command("timeout", "-s", "KILL", "45", worker, "one", "-prop", prop, "-from", fmt.Sprint(seed))
	var b bytes.Buffer
	cmd.Stderr = &limited{&b, 1 << 16}
	err := cmd.Run()
	if err == nil {
		return false, ""
	}
	return true, b.String()
}

func code(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	return -1
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func doReplay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var h replayHead
	if err := json.Unmarshal(b, &h); err != nil {
		fail("%v", err)
	}
	build(h.Property)
	if h.Class == "fatal" || h.Class == "hang" {
		ok, text := rerunCrash(h.Property, h.Input.Seed, h.Class == "hang")
		fmt.Println(firstLines(text, 30))
		if ok {
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.Property, file)
			os.Exit(1)
		}
		os.Exit(0)
	}
	abs, _ := filepath.Abs(file)
	out, err := run(workDir, nil, worker, "replay", "-file", abs, "-trace")
	fmt.Print(out)
	if code(err) == 1 || code(err) == 4 && strings.Contains(out, fmt.Sprintf("class=%q", h.Class)) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", h.Property, file)
		os.Exit(1)
	}
	if code(err) == 4 && strings.Contains(out, `class=""`) {
		fmt.Println("the violation does not occur on this tree")
		os.Exit(0)
	}
	os.Exit(2)
}

func writeEvidence(prop, tier string, seed int64, t stat, distinct int, wall, buildS float64, nw, digest, violations int, base uint64) {
	sample := fmt.Sprintf("%d executions (40 seeds in each of 4 processes with different GC settings) compared by digest", digest)
	if digest < 0 {
		sample = "executions of the same seeds differ"
	}
	meta := map[string]interface{}{}
	if out, err := exec.Command(worker, "list").Output(); err == nil {
		var l []map[string]interface{}
		if json.Unmarshal(out, &l) == nil {
			for _, m := range l {
				if m["id"] == prop {
					meta = m
				}
			}
		}
	}
	var samples []interface{}
	for i := uint64(0); i < 2; i++ {
		out, _ := exec.Command("timeout", "-s", "KILL", "20", worker, "one", "-prop", prop, "-from", fmt.Sprint(base+i), "-trace").Output()
		l := strings.Split(string(out), "\n")
		if len(l) > 45 {
			l = append(append([]string{}, l[:30]...), l[len(l)-12:]...)
		}
		samples = append(samples, map[string]interface{}{"seed": base + i, "trace": l})
	}
	search := wall - buildS
	if search < 0.001 {
		search = 0.001
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":            t.Runs,
			"distinct_nontrivial":    distinct,
			"rule":                   "one evaluation = one simulated execution decided by one seed (workload, schedule and faults all drawn from it). Counted as distinct and non-trivial: executions that reached the property's deciding observation with at least one task switch, with pairwise different hashes over their whole event sequence (task switches with their position, wake-ups, task starts and ends, faults, logged events).",
			"samples":                samples,
			"seeds_per_hour":         int64(float64(t.Runs) / search * 3600),
			"simulated_seconds":      float64(t.SimNS) / 1e9,
			"scheduling_points":      t.Points,
			"task_switches":          t.Switches,
			"tasks":                  t.Tasks,
			"faults_injected":        t.Faults,
			"conditions_reached":     t.Probes,
			"workers":                nw,
			"determinism_sample":     sample,
			"real_code":              meta["real"],
			"stubbed":                meta["stub"],
			"step_bound":             meta["max_points"],
			"simulated_time_bound_s": meta["max_sim_s"],
		},
		"assumptions": []string{
			"interleavings are explored at statement granularity under sequentially consistent memory; reorderings allowed only by a weak memory model are not simulated",
			"the instrumentation (import substitution, scheduling points, channel and map operations) preserves the meaning of the code",
			"a clean batch is evidence for the explored executions, not a proof",
		},
		"wall_s": wall, "violations": violations,
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0644)
}
