package main

import (
	"context"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"verifsim/sim"
)

// Encoders of one's own configuration, and formats of one's own, for C19.

type cfgIn struct {
	d time.Duration
	E bool
	t int `json:"tt"`
	F func()
}

type cfgVal struct {
	A int
	b string
	D time.Duration
	L []time.Duration
	P *time.Duration
	c *cfgIn
	M map[string]time.Duration
	H cfgIn `json:"h,omitempty"`
	X int   `json:"-"`
	Z [2]time.Duration
}

type ctxKey struct{}

// durExt shows durations as text, with a mark of the configuration and of the call.
type durExt struct{ mark string }

type durEncoder struct{ mark string }

func (e *durExt) EncoderOf(prefix string, valType reflect.Type) jsonfmt.Encoder {
	if valType == reflect.TypeOf(time.Duration(0)) {
		return &durEncoder{e.mark}
	}
	return nil
}

func (e *durEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
	call := "-"
	if ctx != nil {
		call = ctx.Value(ctxKey{}).(string)
	}
	return append(space, `"`+e.mark+call+(*time.Duration)(ptr).String()+`"`...)
}

type jsonCfg struct {
	api        jsonfmt.API
	unexported bool
	mark       string // "" if durations are shown as numbers
	exts       int
}

func (c *jsonCfg) dur(d time.Duration, call string) string {
	if c.mark == "" {
		return itoa(int(d))
	}
	return `"` + c.mark + call + d.String() + `"`
}

func (c *jsonCfg) fields(p ...string) string { // name, exported or not, text
	var out []string
	for i := 0; i < len(p); i += 3 {
		if p[i+1] == "u" && !c.unexported {
			continue
		}
		out = append(out, `"`+p[i]+`":`+p[i+2])
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (c *jsonCfg) in(v *cfgIn, call string) string {
	if v == nil {
		return "null"
	}
	return c.fields("d", "u", c.dur(v.d, call), "E", "", renderJSON(v.E), "tt", "u", itoa(v.t))
}

func (c *jsonCfg) val(v *cfgVal, call string) string {
	if v == nil {
		return "null"
	}
	var l []string
	for _, d := range v.L {
		l = append(l, c.dur(d, call))
	}
	p, m := "null", "null"
	if v.P != nil {
		p = c.dur(*v.P, call)
	}
	if v.M != nil {
		m = "{}"
		for k, d := range v.M {
			m = `{"` + k + `":` + c.dur(d, call) + "}"
		}
	}
	return c.fields("A", "", itoa(v.A), "b", "u", quoteJSON(v.b, false), "D", "", c.dur(v.D, call), "L", "", "["+strings.Join(l, ",")+"]",
		"P", "", p, "c", "u", c.in(v.c, call), "M", "", m, "h", "", c.in(&v.H, call), "Z", "", "["+c.dur(v.Z[0], call)+","+c.dur(v.Z[1], call)+"]")
}

// tagFormat is a format of one's own: {key, tag, X} shows the text of the value between X's.
type tagFormat struct{ mark string }

type tagFormatter struct {
	idx  int
	args string
}

func (f *tagFormat) FormatterOf(key string, args []string, sample []interface{}) (msgfmt.Formatter, error) {
	if f.mark == "panic" {
		panic("no such thing")
	}
	for i := 0; i+1 < len(sample); i += 2 {
		if sample[i] == key {
			return &tagFormatter{i + 1, f.mark + strings.Join(args, "/")}, nil
		}
	}
	return nil, simError("no " + key)
}

func (f *tagFormatter) Format(space []byte, kv []interface{}) []byte {
	space = append(space, f.args...)
	space = append(space, '<')
	space = append(space, renderText(kv[f.idx])...)
	return append(space, '>')
}

type simError string

func (e simError) Error() string { return string(e) }

// runJSONConfigs runs encoders of several configurations side by side.
func runJSONConfigs(r *sim.Run) {
	var cfgs []*jsonCfg
	nc := 2 + r.W.Draw(3)
	for i := 0; i < nc; i++ {
		c := &jsonCfg{unexported: r.W.Chance(1, 2)}
		if r.W.Chance(2, 3) {
			c.mark = string(rune('p' + i))
		}
		cfg := jsonfmt.Config{IncludesUnexported: c.unexported}
		if c.mark != "" {
			cfg.Extensions = append(cfg.Extensions, &durExt{c.mark})
			if r.W.Chance(1, 3) {
				cfg.Extensions = append(cfg.Extensions, &durExt{"second"})
			}
		}
		c.api = cfg.Froze()
		cfgs = append(cfgs, c)
	}
	cfgs = append(cfgs, &jsonCfg{api: jsonfmt.ConfigDefault})
	someIn := func() *cfgIn {
		return &cfgIn{d: time.Duration(r.W.Draw(5000)), E: r.W.Chance(1, 2), t: r.W.Draw(100)}
	}
	some := func(n int) *cfgVal {
		v := &cfgVal{A: n, b: someText(r, n), D: time.Duration(r.W.Draw(100000)), X: n, Z: [2]time.Duration{1, time.Duration(n)}, H: *someIn()}
		for i := r.W.Draw(4); i > 0; i-- {
			v.L = append(v.L, time.Duration(i))
		}
		if r.W.Chance(1, 2) {
			d := time.Duration(r.W.Draw(9999))
			v.P = &d
		}
		if r.W.Chance(1, 2) {
			v.c = someIn()
		}
		if r.W.Chance(1, 2) {
			v.M = map[string]time.Duration{"k": time.Duration(n)}
		}
		return v
	}
	check := func(what string, got []byte, want string) {
		if string(got) != want {
			r.Fail("wrong-json", "%s gave %s, expected %s", what, abbr(string(got)), abbr(want))
		}
		r.Nontriv = true
	}
	var ts []*sim.Task
	nt := 1 + r.W.Draw(4)
	for i := 0; i < nt; i++ {
		i := i
		type step struct {
			c    *jsonCfg
			v    *cfgVal
			in   *cfgIn
			kind int
			call string
		}
		var steps []step
		for k := 0; k <= r.W.Draw(6); k++ {
			s := step{c: cfgs[r.W.Draw(len(cfgs))], kind: r.W.Draw(6), call: "-", v: some(i*100 + k), in: someIn()}
			if r.W.Chance(1, 2) {
				s.call = "call" + itoa(i*100+k) + " "
			}
			steps = append(steps, s)
		}
		ts = append(ts, r.Spawn("encoder"+itoa(i), func() {
			for _, s := range steps {
				var ctx context.Context
				if s.call != "-" {
					ctx = context.WithValue(context.Background(), ctxKey{}, s.call)
				}
				p, panicked := try(func() {
					c := s.c
					switch s.kind {
					case 0:
						e := c.api.EncoderOfObject(*s.v)
						check("the encoder of a struct", e.Encode(ctx, nil, reflect2.PtrOf(*s.v)), c.val(s.v, s.call))
					case 1:
						e := c.api.EncoderOfObject(s.v)
						space := append(make([]byte, 0, 5), "pre"...)
						check("the encoder of a pointer", e.Encode(ctx, space, reflect2.PtrOf(s.v)), "pre"+c.val(s.v, s.call))
					case 2:
						e := c.api.EncoderOf(reflect2.TypeOf(*s.in))
						check("the encoder of a nested struct", e.Encode(ctx, nil, unsafe.Pointer(s.in)), c.in(s.in, s.call))
						check("the encoder of a nested struct", e.Encode(ctx, nil, unsafe.Pointer(&s.v.H)), c.in(&s.v.H, s.call))
					case 3:
						l := []*cfgIn{s.in, nil, s.v.c}
						e := c.api.EncoderOfObject(l)
						check("the encoder of a slice", e.Encode(ctx, nil, reflect2.PtrOf(l)), "["+c.in(l[0], s.call)+",null,"+c.in(l[2], s.call)+"]")
					case 4:
						d := s.v.D
						check("the encoder of an extension", c.api.EncoderOfObject(d).Encode(ctx, nil, reflect2.PtrOf(d)), c.dur(d, s.call))
						check("the encoder of nil", c.api.EncoderOfObject(nil).Encode(ctx, nil, nil), "null")
					case 5:
						def := &jsonCfg{}
						check("MarshalToString", []byte(jsonfmt.MarshalToString(s.v)), def.val(s.v, "-"))
						check("EncoderOfObject", jsonfmt.EncoderOfObject(*s.in).Encode(ctx, nil, reflect2.PtrOf(*s.in)), def.in(s.in, "-"))
					}
				})
				if panicked {
					r.Fail("panic", "encoding of kind %d panicked: %s", s.kind, sim.PanicText(p))
				}
			}
		}))
	}
	r.Join(ts...)
}
