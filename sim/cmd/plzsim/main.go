//go:debug panicnil=1

// plzsim runs instrumented v2pro/plz code under the simulator: one seed, one execution.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/sim"
)

// Prop is the simulation of one property.
type Prop struct {
	ID        string
	MaxPoints int64
	MaxSim    time.Duration
	Run       func(r *sim.Run)
	Real      []string
	Stub      []string
	Measure   string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.MaxPoints == 0 {
		p.MaxPoints = 3000000
	}
	if p.MaxSim == 0 {
		p.MaxSim = 30 * time.Minute
	}
	props[p.ID] = p
}

// Replay is the content of a replay file.
type Replay struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Detail   string    `json:"detail"`
	Hash     string    `json:"hash"`
	Input    sim.Input `json:"input"`
	Note     string    `json:"note,omitempty"`
	Orig     *struct {
		Choices int `json:"choices"`
	} `json:"before_minimisation,omitempty"`
	Trace []string `json:"trace,omitempty"`
}

// Stat is what a worker reports at its end.
type Stat struct {
	Type     string           `json:"type"`
	Runs     int64            `json:"runs"`
	Points   int64            `json:"points"`
	Switches int64            `json:"switches"`
	SimNS    int64            `json:"sim_ns"`
	Tasks    int64            `json:"tasks"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Nontriv  int64            `json:"nontrivial"`
	WallMS   int64            `json:"wall_ms"`
	Known    map[string]int64 `json:"known"`
}

func execute(p *Prop, in sim.Input) sim.Result {
	return sim.Execute(sim.Cfg{MaxPoints: p.MaxPoints, MaxSim: p.MaxSim}, in, p.Run)
}

func emit(v interface{}) {
	b, _ := json.Marshal(v)
	os.Stdout.Write(append(b, '\n'))
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "plzsim: "+format+"\n", a...)
	os.Exit(3)
}

var plainMemory = regexp.MustCompile(`-prop C1[3-8]\b`)

func main() {
	time.Local = time.UTC
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) < 2 {
		die("usage")
	}
	// freed memory is overwritten, so that a use after free shows every time (the rolling file uses no raw memory)
	if e := os.Getenv("GODEBUG"); !strings.Contains(e, "clobberfree=1") && !plainMemory.MatchString(strings.Join(os.Args, " ")) {
		os.Setenv("GODEBUG", strings.Trim(e+",clobberfree=1", ","))
		if self, err := os.Executable(); err == nil {
			syscall.Exec(self, os.Args, os.Environ())
		}
	}
	fs := flag.NewFlagSet("plzsim", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	from := fs.Uint64("from", 0, "")
	count := fs.Uint64("count", 1, "")
	stride := fs.Uint64("stride", 1, "")
	budget := fs.Duration("budget", time.Minute, "")
	status := fs.String("status", "", "")
	hashes := fs.String("hashes", "", "")
	file := fs.String("file", "", "")
	outf := fs.String("out", "", "")
	trace := fs.Bool("trace", false, "")
	fs.Parse(os.Args[2:])
	var p *Prop
	if *prop != "" {
		if p = props[*prop]; p == nil {
			die("unknown property %s", *prop)
		}
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		var l []map[string]interface{}
		for _, id := range ids {
			q := props[id]
			l = append(l, map[string]interface{}{"id": id, "real": q.Real, "stub": q.Stub, "measure": q.Measure, "max_points": q.MaxPoints, "max_sim_s": q.MaxSim.Seconds()})
		}
		emit(l)
	case "run":
		cmdRun(p, *from, *count, *stride, *budget, *status, *hashes)
	case "digest":
		// hash of the hashes of the given seeds, for the determinism self-check
		h := uint64(7)
		for i := uint64(0); i < *count; i++ {
			res := execute(p, sim.Input{Seed: *from + i**stride})
			h = sim.Mix(h, res.Hash^uint64(len(res.Class))^uint64(res.Points))
		}
		fmt.Printf("%016x\n", h)
	case "one":
		res := execute(p, sim.Input{Seed: *from, Trace: *trace})
		report(p, res)
	case "replay":
		rp := load(*file)
		p = props[rp.Property]
		if p == nil {
			die("unknown property %q", rp.Property)
		}
		rp.Input.Trace = *trace
		res := execute(p, rp.Input)
		report(p, res)
		if res.Class != rp.Class || fmt.Sprintf("%016x", res.Hash) != rp.Hash {
			fmt.Printf("replay: MISMATCH want class=%s hash=%s\n", rp.Class, rp.Hash)
			os.Exit(4)
		}
		os.Exit(1)
	case "minimise":
		rp := load(*file)
		p = props[rp.Property]
		minimise(p, rp, *budget)
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(*outf, b, 0644); err != nil {
			die("%v", err)
		}
	default:
		die("unknown command %s", os.Args[1])
	}
}

func load(f string) *Replay {
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die("%v", err)
	}
	return &rp
}

func report(p *Prop, res sim.Result) {
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	fmt.Printf("property=%s class=%q hash=%016x points=%d switches=%d sim=%v tasks=%d faults=%v probes=%v err=%q\n", p.ID, res.Class, res.Hash, res.Points, res.Switch,
		time.Duration(res.SimNS), res.Tasks, res.Faults, res.Probes, res.Err)
	if res.Detail != "" {
		fmt.Println(res.Detail)
	}
}

func cmdRun(p *Prop, from, count, stride uint64, budget time.Duration, status, hashes string) {
	start := time.Now()
	st := Stat{Type: "stat", Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	var sf *os.File
	if status != "" {
		var err error
		if sf, err = os.OpenFile(status, os.O_RDWR|os.O_CREATE, 0644); err != nil {
			die("%v", err)
		}
	}
	var buf [8]byte
	var hs []uint64
	for i := uint64(0); i < count; i++ {
		if time.Since(start) > budget {
			break
		}
		seed := from + i*stride
		if sf != nil {
			binary.LittleEndian.PutUint64(buf[:], seed)
			sf.WriteAt(buf[:], 0)
		}
		res := execute(p, sim.Input{Seed: seed})
		st.Runs++
		st.Points += res.Points
		st.Switches += res.Switch
		st.SimNS += res.SimNS
		st.Tasks += int64(res.Tasks)
		if res.Nontriv {
			st.Nontriv++
		}
		for k, v := range res.Faults {
			st.Faults[k] += v
		}
		for k, v := range res.Probes {
			st.Probes[k] += v
		}
		if hashes != "" && res.Nontriv && res.Switch > 0 {
			hs = append(hs, res.Hash)
		}
		if res.Err != "" {
			emit(map[string]interface{}{"type": "error", "seed": seed, "err": res.Err})
			os.Exit(5)
		}
		if res.Class != "" {
			emit(map[string]interface{}{"type": "violation", "replay": Replay{Property: p.ID, Class: res.Class, Detail: res.Detail,
				Hash: fmt.Sprintf("%016x", res.Hash), Input: res.Rec}})
			break
		}
	}
	st.WallMS = time.Since(start).Milliseconds()
	if hashes != "" {
		b := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(b[8*i:], h)
		}
		os.WriteFile(hashes, b, 0644)
	}
	emit(st)
}

// sig is what a minimised run must keep: the class and the shape of the explanation.
func sig(class, detail string) string {
	if i := strings.IndexAny(detail, ":["); i > 0 && i < 60 {
		detail = detail[:i]
	} else if len(detail) > 24 {
		detail = detail[:24]
	}
	if class == "no-progress" || class == "deadlock" {
		detail = ""
	}
	return class + "|" + detail
}

func minimise(p *Prop, rp *Replay, budget time.Duration) {
	deadline := time.Now().Add(budget)
	want := rp.Class
	best := rp.Input
	best.Replay = true
	total := func(in sim.Input) int { return len(in.W) + len(in.F) + len(in.P) + len(in.S) }
	orig := total(best)
	var last sim.Result
	try := func(in sim.Input) bool {
		if time.Now().After(deadline) {
			return false
		}
		res := execute(p, in)
		if res.Class == want && res.Err == "" {
			last = res
			return true
		}
		return false
	}
	if !try(best) {
		return
	}
	bestRes := last
	accept := func() { best = last.Rec; bestRes = last }
	get := func(k int) *[]sim.Choice {
		switch k {
		case 0:
			return &best.W
		case 1:
			return &best.F
		case 2:
			return &best.P
		}
		return &best.S
	}
	with := func(k int, list []sim.Choice) sim.Input {
		in := best
		switch k {
		case 0:
			in.W = list
		case 1:
			in.F = list
		case 2:
			in.P = list
		default:
			in.S = list
		}
		return in
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := total(best)
		for k := 0; k < 4; k++ {
			if len(*get(k)) > 0 && try(with(k, nil)) {
				accept()
				continue
			}
			n := 2
			for len(*get(k)) > 0 && time.Now().Before(deadline) {
				list := *get(k)
				if n > len(list) {
					n = len(list)
				}
				size := (len(list) + n - 1) / n
				removed := false
				for i := 0; i < len(list); i += size {
					j := i + size
					if j > len(list) {
						j = len(list)
					}
					c := append(append([]sim.Choice{}, list[:i]...), list[j:]...)
					if try(with(k, c)) {
						accept()
						removed = true
						break
					}
					if time.Now().After(deadline) {
						break
					}
				}
				if !removed {
					if size == 1 {
						break
					}
					n *= 2
				} else if n > 2 {
					n--
				}
			}
			// smaller values
			if k != 3 {
				for i := 0; i < len(*get(k)) && time.Now().Before(deadline); i++ {
					list := append([]sim.Choice{}, (*get(k))...)
					if list[i].V > 1 {
						for _, v := range []int64{1, list[i].V / 2, list[i].V - 1} {
							if v <= 0 || v >= list[i].V {
								continue
							}
							l2 := append([]sim.Choice{}, list...)
							l2[i].V = v
							if try(with(k, l2)) {
								accept()
								break
							}
						}
					}
				}
			}
		}
		if total(best) >= before {
			break
		}
	}
	in := best
	in.Trace = true
	res := execute(p, in)
	rp.Input = best
	rp.Class, rp.Detail = bestRes.Class, bestRes.Detail
	rp.Hash = fmt.Sprintf("%016x", bestRes.Hash)
	rp.Orig = &struct {
		Choices int `json:"choices"`
	}{orig}
	if len(res.Trace) > 400 {
		res.Trace = append(append([]string{}, res.Trace[:100]...), res.Trace[len(res.Trace)-300:]...)
	}
	rp.Trace = res.Trace
}
