package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/v2pro/plz/gls"
	"verifsim/sim"
)

func init() {
	real := []string{"gls (all of it; the goroutine descriptor it reads is a stand-in laid out as the runtime's)"}
	stub := []string{"goroutines, locks and goroutine ids are simulated", "the program using the storage is generated"}
	register(&Prop{ID: "C11", Run: runC11, MaxSim: 10 * time.Minute, Real: real, Stub: stub})
	register(&Prop{ID: "C12", Run: runC12, MaxSim: 10 * time.Minute, Real: real, Stub: stub})
}

type glsKey struct{ n int }

var glsKeys = []interface{}{"a", "b", 1, glsKey{1}}

// checkAll compares everything readable with the model (nil = storage disabled).
func glsCheck(r *sim.Run, who string, m map[interface{}]interface{}) {
	id := gls.GoID()
	if gls.IsGlsEnabled(id) != (m != nil) {
		r.Fail("enabled", "%s: storage enabled is %v, expected %v", who, gls.IsGlsEnabled(id), m != nil)
	}
	for _, k := range glsKeys {
		got := gls.Get(k)
		if !glsEq(got, m[k]) {
			r.Fail("wrong-value", "%s: Get(%v) returned %v, expected %v", who, k, glsText(got), glsText(m[k]))
		}
	}
}

func glsText(v interface{}) string {
	if c, ok := v.(*copyVal); ok {
		return fmt.Sprintf("copyable(%s)", c.s)
	}
	return fmt.Sprint(v)
}

func glsEq(got, want interface{}) bool {
	if w, ok := want.(copyWant); ok {
		g, ok := got.(*copyVal)
		return ok && g.s == w.s
	}
	return got == want
}

// copyVal is a value with a Copy method; copyWant is what the model expects in its place.
type copyVal struct {
	r *sim.Run
	s string
}
type copyWant struct{ s string }

func (c *copyVal) Copy() interface{} {
	s := c.s
	c.r.Yield()
	return &copyVal{c.r, s}
}

func runC11(r *sim.Run) {
	live := map[int64]string{}
	n := 2 + r.W.Draw(6)
	if r.W.Draw(25) == 1 {
		n = 17 + r.W.Draw(24)
	}
	uniq := 0
	var ts []*sim.Task
	var ids []int64
	for i := 0; i < n; i++ {
		who := "goroutine" + itoa(i)
		rounds := 1 + r.W.Draw(3)
		ts = append(ts, r.Spawn(who, func() {
			id := gls.GoID()
			if o, ok := live[id]; ok {
				r.Fail("goid-shared", "%s and %s are alive and have the same id %d", who, o, id)
			}
			live[id] = who
			ids = append(ids, id)
			glsCheck(r, who+" before", nil)
			var m map[interface{}]interface{}
			body := func() {
				m = map[interface{}]interface{}{}
				ops := 1 + r.W.Draw(10)
				for k := 0; k < ops; k++ {
					if gls.GoID() != id {
						r.Fail("goid-unstable", "%s: id changed from %d to %d", who, id, gls.GoID())
					}
					key := glsKeys[r.W.Draw(len(glsKeys))]
					switch r.W.Pick(4, 5, 1, 1, 1, 1) {
					case 0:
						if m == nil {
							break
						}
						uniq++
						v := fmt.Sprintf("%s-%d", who, uniq)
						gls.Set(key, v)
						m[key] = v
					case 1:
						if got := gls.Get(key); !glsEq(got, m[key]) {
							r.Fail("wrong-value", "%s: Get(%v) returned %v, expected %v", who, key, got, m[key])
						}
					case 2:
						uniq++
						v := fmt.Sprintf("%s-%d", who, uniq)
						gls.ResetGls(id, map[interface{}]interface{}{key: v})
						m = map[interface{}]interface{}{key: v}
					case 3:
						gls.DeleteGls(id)
						m = nil
					case 4: // look at somebody else
						if len(ids) > 0 {
							gls.IsGlsEnabled(ids[r.W.Draw(len(ids))])
						}
					case 5:
						if m == nil {
							// not enabled: nothing may be stored
							try(func() { gls.Set(key, "x") })
						} else {
							gls.Set(key, nil)
							delete(m, key)
						}
					}
					r.Yield()
				}
				glsCheck(r, who, m)
			}
			for k := 0; k < rounds; k++ {
				switch r.W.Draw(3) {
				case 0:
					gls.WithEmptyGls(body)()
					m = nil
				case 1:
					gls.WithGls(body)()
					m = nil
				case 2:
					gls.ResetGls(id, map[interface{}]interface{}{})
					body()
					gls.DeleteGls(id)
					m = nil
				}
				glsCheck(r, who+" between scopes", nil)
			}
			r.Nontriv = true
			delete(live, id)
		}))
	}
	r.Join(ts...)
}

type glsWrap struct {
	name string
	f    func()
	// model
	snap  map[interface{}]interface{}
	depth int
	kind  int
}

type glsWorld struct {
	r      *sim.Run
	budget int
	wraps  []*glsWrap
	uniq   int
	ids    []int64
	ts     []*sim.Task
	tasks  int
}

func copyModel(m map[interface{}]interface{}) map[interface{}]interface{} {
	n := map[interface{}]interface{}{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// actor is one goroutine's view: the model of its current storage.
type actor struct {
	w    *glsWorld
	who  string
	m    map[interface{}]interface{}
	next map[interface{}]interface{} // the storage the wrapped function about to be entered must see
}

var glsActors = map[int64]*actor{}

func (w *glsWorld) body(wr *glsWrap) func() {
	return func() {
		a := glsActors[gls.GoID()]
		if a == nil {
			w.r.Fail("goid-unstable", "%s runs on an unknown goroutine id", wr.name)
		}
		a.m = a.next
		a.next = nil
		who := a.who + " in " + wr.name
		glsCheck(w.r, who+" at entry", a.m)
		a.ops(who, wr.depth+1)
		glsCheck(w.r, who+" at exit", a.m)
		switch wr.kind {
		case 1:
			panic("wrapped function panics")
		case 2:
			w.r.Probe("goexit-in-scope")
			runtime.Goexit()
		}
	}
}

// enter invokes a wrapper on the current goroutine and checks that the storage is restored.
func (a *actor) enter(wr *glsWrap) {
	w, r := a.w, a.w.r
	saved := a.m
	a.next = copyModel(wr.snap)
	p, panicked := try(wr.f)
	if a.next != nil {
		r.Fail("not-run", "%s did not run the wrapped function", wr.name)
	}
	if panicked != (wr.kind == 1) {
		r.Fail("panic", "invocation of %s: panicked is %v (%v)", wr.name, panicked, p)
	}
	a.m = saved
	glsCheck(r, a.who+" after "+wr.name, a.m)
	r.Probe("invocation")
	if saved != nil {
		r.Probe("nested-invocation")
	}
	w.r.Nontriv = true
}

func (a *actor) ops(who string, depth int) {
	w, r := a.w, a.w.r
	n := 1 + r.W.Draw(6)
	for i := 0; i < n && w.budget > 0; i++ {
		w.budget--
		key := glsKeys[r.W.Draw(len(glsKeys))]
		switch r.W.Pick(5, 4, 4, 5, 4, 3, 3, 2) {
		case 0: // set
			if a.m == nil {
				continue
			}
			w.uniq++
			v := fmt.Sprintf("v%d", w.uniq)
			gls.Set(key, v)
			a.m[key] = v
		case 1: // check
			glsCheck(r, who, a.m)
		case 2: // wrap
			wr := &glsWrap{name: fmt.Sprintf("wrap%d", len(w.wraps)), depth: depth, kind: r.W.Pick(8, 2, 1)}
			if r.W.Chance(1, 3) {
				wr.snap = map[interface{}]interface{}{}
				wr.f = gls.WithEmptyGls(w.body(wr))
			} else {
				wr.snap = copyModel(a.m)
				wr.f = gls.WithGls(w.body(wr))
			}
			w.wraps = append(w.wraps, wr)
		case 3: // invoke synchronously
			if depth < 3 && len(w.wraps) > 0 {
				wr := w.wraps[r.W.Draw(len(w.wraps))]
				if wr.depth < 3 {
					a.enter(wr)
				}
			}
		case 4: // invoke in a new goroutine
			if w.tasks < 6 && len(w.wraps) > 0 {
				w.tasks++
				wr := w.wraps[r.W.Draw(len(w.wraps))]
				w.spawn(wr)
			}
		case 5: // copy-able value
			if a.m == nil {
				continue
			}
			w.uniq++
			s := fmt.Sprintf("c%d", w.uniq)
			gls.Set(key, &copyVal{r, s})
			a.m[key] = copyWant{s}
		case 6: // change a copy-able value in place: only this scope may see it
			if a.m == nil {
				continue
			}
			if _, ok := a.m[key].(copyWant); ok {
				w.uniq++
				s := fmt.Sprintf("m%d", w.uniq)
				gls.Get(key).(*copyVal).s = s
				a.m[key] = copyWant{s}
				r.Probe("copyable-mutated")
			}
		case 7:
			if a.m == nil {
				continue
			}
			gls.Set(key, nil)
			delete(a.m, key)
		}
	}
}

func (w *glsWorld) spawn(wr *glsWrap) {
	r := w.r
	who := "goroutine" + itoa(w.tasks)
	w.ts = append(w.ts, r.Spawn(who, func() {
		id := gls.GoID()
		w.ids = append(w.ids, id)
		a := &actor{w: w, who: who}
		glsActors[id] = a
		if wr == nil {
			glsCheck(r, who, nil)
			if !r.W.Chance(1, 3) {
				gls.ResetGls(id, map[interface{}]interface{}{})
				a.m = map[interface{}]interface{}{}
			}
			defer gls.DeleteGls(id)
			for k := 0; k < 3; k++ {
				a.ops(who, 0)
			}
			glsCheck(r, who, a.m)
			gls.DeleteGls(id)
			glsCheck(r, who, nil)
			return
		}
		times := 1 + r.W.Pick(3, 1, 1)
		for i := 0; i < times; i++ {
			a.enter(wr)
		}
	}))
}

func runC12(r *sim.Run) {
	glsActors = map[int64]*actor{}
	w := &glsWorld{r: r, budget: 10 + r.W.Draw(50)}
	n := 1 + r.W.Draw(3)
	for i := 0; i < n; i++ {
		w.tasks++
		w.spawn(nil)
	}
	for i := 0; i < len(w.ts); i++ {
		r.Join(w.ts[i])
	}
	for _, id := range w.ids {
		if gls.IsGlsEnabled(id) || gls.GetGls(id) != nil {
			r.Fail("not-cleaned", "the storage of an ended goroutine is still there")
		}
	}
}
