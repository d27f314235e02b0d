package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/v2pro/plz/msgfmt"
	"verifsim/sim"
)

func init() {
	register(&Prop{ID: "C19", Run: runC19, MaxPoints: 2000000, MaxSim: 10 * time.Minute,
		Real: []string{"msgfmt, msgfmt/jsonfmt, parse (all of it)"},
		Stub: []string{"the io.Writer (delays, errors, short counts)", "formatting calls are generated", "goroutines, sync.Pool, sync.Map and locks are simulated"}})
}

// fwriter records what one formatting call writes.
type fwriter struct {
	r    *sim.Run
	got  []string
	n    int
	err  error
	slow bool
}

func (w *fwriter) Write(p []byte) (int, error) {
	r := w.r
	s := string(p)
	w.got = append(w.got, s)
	if w.slow {
		r.Fault("slow writer")
		r.Sleep(ms)
	} else {
		r.Yield()
	}
	if string(p) != s {
		r.Fail("buffer-changed", "the buffer %s changed to %s during the write", abbr(s), abbr(string(p)))
	}
	w.n = len(p)
	switch r.F.Pick(8, 1, 1, 1, 1) {
	case 1:
		r.Fault("writer error")
		w.n, w.err = 0, someError(r.F, "writer error")
	case 2:
		r.Fault("short write")
		w.n, w.err = len(p)/2, io.ErrShortWrite
	case 3:
		r.Fault("error with all bytes taken")
		w.err = someError(r.F, "late writer error")
	case 4:
		r.Fault("short write without an error")
		w.n = len(p) / 2
	}
	return w.n, w.err
}

type fcall struct {
	kind   int
	format string
	kv     []interface{}
	want   string
	valid  bool
	panics bool
	ref    string // result as first call ever, for malformed formats
}

var goodFormats = []string{"{a}", "{b}", "{a} and {b}", "{b}-{a}", "x{ a }y", "plain text", "{c}{a}{b}", "||a={a}"}
var badFormats = []string{"{a", "{zz}", "x {a} {", "{a, nofunc}", "{a b}", "{a,", "{", "{}", "", "}", "{zz, goTime}", "{a} }", "{a,goTime", "x{a{b}}", "{a, select, x}", "{a,plural", "{ ", "{a,goTime,"}

func (c *fcall) run(r *sim.Run) {
	p, panicked := try(func() { c.exec(r) })
	if panicked {
		r.Fail("panic", "%s panicked: %s", c, sim.PanicText(p))
	}
}

func (c *fcall) String() string {
	return fmt.Sprintf("kind %d format %q args %s", c.kind, c.format, kvText(c.kv))
}

func kvText(kv []interface{}) string {
	var p []string
	for _, v := range kv {
		p = append(p, abbr(fmt.Sprintf("%T:%s", v, renderText(v))))
	}
	return strings.Join(p, " ")
}

func (c *fcall) check(r *sim.Run, got string) {
	if got != c.want {
		r.Fail("wrong-text", "%s gave %s, expected %s", c, abbr(got), abbr(c.want))
	}
}

func (c *fcall) exec(r *sim.Run) {
	switch c.kind {
	case 0:
		c.check(r, msgfmt.Sprintf(c.format, c.kv...))
	case 1, 2:
		w := &fwriter{r: r, slow: r.W.Chance(1, 3)}
		var n int
		var err error
		if c.kind == 1 {
			n, err = msgfmt.Fprintf(w, c.format, c.kv...)
		} else {
			n, err = msgfmt.Fprintln(w, c.kv...)
		}
		if len(w.got) != 1 {
			r.Fail("write-count", "%s made %d writes to the given writer", c, len(w.got))
		}
		c.check(r, w.got[0])
		if n != w.n || err != w.err {
			r.Fail("write-result", "%s returned (%d, %v), the writer (%d, %v)", c, n, err, w.n, w.err)
		}
	case 3:
		f := msgfmt.FormatterOf(c.format, c.kv)
		for i := 0; i < 2; i++ {
			r.Yield()
			space := append(make([]byte, 0, 10), "pre"...)
			c2 := *c
			c2.want = "pre" + c.want
			c2.check(r, string(f.Format(space, c.kv)))
		}
	}
}

// reference is what the call gives as the first one ever.
func (c *fcall) reference(r *sim.Run) {
	resetFormatting()
	p, panicked := try(func() { c.want = msgfmt.Sprintf(c.format, c.kv...) })
	if panicked {
		r.Fail("panic", "%s panicked as first call: %s", c, sim.PanicText(p))
	}
	resetFormatting()
}

// resetFormatting makes formatting as new, with formats of one's own.
func resetFormatting() {
	sim.ResetPackage("github.com/v2pro/plz/msgfmt")
	sim.ResetPackage("github.com/v2pro/plz/msgfmt/jsonfmt")
	msgfmt.Formats["tag"] = &tagFormat{"T"}
	msgfmt.Formats["tagger"] = &tagFormat{"U"}
	msgfmt.Formats["bad"] = &tagFormat{"panic"}
}

func runC19(r *sim.Run) {
	if r.W.Chance(1, 6) {
		runJSONConfigs(r)
		return
	}
	resetFormatting()
	n := 0
	nf := 1 + r.W.Draw(len(goodFormats))
	kinds := 1 + r.W.Draw(valueKinds)
	mk := func() *fcall {
		c := &fcall{kind: r.W.Pick(4, 3, 2, 1)}
		n++
		if c.kind == 2 {
			l := r.W.Draw(4)
			for i := 0; i < l; i++ {
				c.kv = append(c.kv, someValue(r, n*10+i, r.W.Draw(kinds)))
			}
			switch l {
			case 0:
				c.want = "\n"
			case 1:
				c.want = renderText(c.kv[0]) + "\n"
			default:
				var p []string
				for _, v := range c.kv {
					if s, ok := v.(*strer); ok {
						_ = s
						v = "x" // nested Stringers are not part of the model
					}
					p = append(p, renderJSON(v))
				}
				for i := range c.kv {
					if _, ok := c.kv[i].(*strer); ok {
						c.kv[i] = "x"
					}
				}
				c.want = "[" + strings.Join(p, ",") + "]\n"
			}
			return c
		}
		if r.W.Chance(1, 6) {
			c.format = badFormats[r.W.Draw(len(badFormats))]
			c.kv = []interface{}{"a", n}
			if r.W.Chance(1, 2) {
				c.kv = []interface{}{"b", n, "a", "s"}
			}
			switch r.W.Draw(12) {
			case 1:
				c.kv = []interface{}{n, "a", "a", n}
			case 2:
				c.kv = []interface{}{"b", n, "a"}
			case 3:
				c.kv = nil
			}
			if r.W.Chance(1, 3) {
				c.format = goodFormats[r.W.Draw(nf)]
			}
			var ok bool
			if c.want, ok = expandFormat(c.format, c.kv); !ok {
				c.reference(r)
			}
			return c
		}
		if r.W.Chance(1, 10) {
			key, v := "a", someValue(r, n*10, r.W.Draw(kinds))
			c.kv = []interface{}{"x", n, key, v}
			if r.W.Chance(1, 2) {
				c.kv = []interface{}{key, v}
			}
			switch r.W.Draw(4) {
			case 0:
				c.format, c.want = "{a, tag, one}.", "T one<"+renderText(v)+">."
			case 1:
				c.format, c.want = "-{a,tagger,one, two three ,}{a}", "-Uone/ two three /<"+renderText(v)+">"+renderText(v)
			case 2:
				c.format, c.want = "{a,tag}", "T<"+renderText(v)+">"
			case 3:
				c.format = []string{"{a,bad}", "x{a, bad, one}", "{zz, tag}"}[r.W.Draw(3)]
				c.reference(r)
			}
			return c
		}
		if r.W.Chance(1, 8) {
			t := r.Wall().Add(time.Duration(n) * time.Minute).UTC()
			c.format = []string{"{t, goTime, 15:04} {a}", "{t,goTime}", "{t} {a}"}[r.W.Draw(3)]
			c.kv = []interface{}{"t", t, "a", n}
			if r.W.Chance(1, 2) {
				c.kv = []interface{}{"a", "s", "t", t}
			}
			c.want, _ = expandFormat(c.format, c.kv)
			return c
		}
		c.format = goodFormats[r.W.Draw(nf)]
		keys := [][]string{{"a", "b", "c"}, {"c", "b", "a"}, {"b", "x", "a", "c"}}[r.W.Draw(3)]
		for i, k := range keys {
			c.kv = append(c.kv, k, someValue(r, n*10+i, r.W.Draw(kinds)))
		}
		var ok bool
		if c.want, ok = expandFormat(c.format, c.kv); !ok {
			r.Abort("harness: bad model for %s", c)
		}
		return c
	}
	var plans [][]*fcall
	nt := 1 + r.W.Draw(4)
	for i := 0; i < nt; i++ {
		var p []*fcall
		for k := 0; k <= r.W.Draw(6); k++ {
			p = append(p, mk())
		}
		plans = append(plans, p)
	}
	var ts []*sim.Task
	for i, p := range plans {
		p := p
		ts = append(ts, r.Spawn("formatter"+itoa(i), func() {
			for _, c := range p {
				c.run(r)
				r.Nontriv = true
			}
		}))
	}
	r.Join(ts...)
	if s := r.Stdout.String(); s != "" {
		r.Fail("stray-output", "formatting wrote %s to standard output", abbr(s))
	}
}
