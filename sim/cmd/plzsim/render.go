package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifsim/sim"
)

// Values used as arguments and properties, and an independent model of how they are rendered.

type strer struct {
	s string
	f func() // runs inside String
}

func (s *strer) String() string {
	if s.f != nil {
		s.f()
	}
	return s.s
}

type errer struct {
	s string
	f func()
}

func (e *errer) Error() string {
	if e.f != nil {
		e.f()
	}
	return e.s
}

type pair struct {
	A int
	B string
}

// odd has fields of all sorts.
type odd struct {
	E error
	P *int `json:"p"`
	I interface{}
	u int
	L []interface{}
	X int `json:"-"`
	F func()
}

// Two types of the same name and different fields.
func sameNameA(n int, s string) interface{} {
	type item struct {
		A int
		B string
	}
	return item{n, s}
}

func sameNameB(n int, s string) interface{} {
	type item struct {
		S string
		C []int
		D int
	}
	return item{s, []int{n}, n}
}

func sameNameC(n int, s string) interface{} {
	type item struct {
		P *int
	}
	return item{&n}
}

func sameNameD(n int, s string) interface{} {
	type item int
	return item(n)
}

// marsh marshals itself.
type marsh struct {
	s string
	e error
	f func()
}

func (m *marsh) MarshalJSON() ([]byte, error) {
	if m.f != nil {
		m.f()
	}
	if m.e != nil {
		return nil, m.e
	}
	return []byte(`{"m":"` + m.s + `"}`), nil
}

type inner struct {
	N int
	T []pair
}

type outer struct {
	inner
	In   inner `json:"in"`
	M    map[string]int
	Ptr  *pair `json:",omitempty"`
	Many []*pair
	Next *inner `json:"next,omitempty"`
}

type namedStr string
type namedInt int32
type namedBytes []byte
type codeErr int

func (c codeErr) Error() string { return "code" + itoa(int(c)) }

type onFlag struct {
	On *bool
}
type holder struct {
	M map[string]int
}
type anyHolder struct {
	V interface{}
}
type dur struct {
	D time.Duration
	W time.Time
}

// moreValue draws a value of one of the less usual kinds.
func moreValue(r *sim.Run, n int) interface{} {
	short := "s" + itoa(n)
	flip := func() bool { return r.W.Draw(2) == 1 }
	switch r.W.Draw(19) {
	case 0:
		switch r.W.Draw(4) {
		case 0:
			return sameNameA(n, someText(r, n))
		case 1:
			return sameNameB(n, short)
		case 2:
			return sameNameC(n, short)
		default:
			return sameNameD(n, short)
		}
	case 1:
		m := &marsh{s: short, f: r.Yield}
		if r.W.Draw(3) == 1 {
			m.e = errors.New("cannot \"" + itoa(n) + "\"\n")
		}
		return m
	case 2:
		v := outer{In: inner{n, []pair{{n, short}, {n + 1, "b"}}}}
		v.inner.N = 5
		if flip() {
			v.M = map[string]int{short: n}
		}
		if flip() {
			v.Ptr = &pair{n, "q"}
		}
		if flip() {
			v.Many = []*pair{nil, {n, "z"}}
		}
		if flip() {
			v.Next = &inner{N: n}
		}
		if flip() {
			return &v
		}
		return v
	case 3:
		return namedStr(someText(r, n))
	case 4:
		return namedInt(n)
	case 5:
		return namedBytes{byte(n), 7}
	case 6:
		return codeErr(n)
	case 7:
		b := n%2 == 0
		return onFlag{&b}
	case 8:
		if flip() {
			return holder{}
		}
		return holder{map[string]int{short: n}}
	case 9:
		in := moreValue(r, n)
		switch r.W.Draw(4) {
		case 0:
			return anyHolder{in}
		case 1:
			return []interface{}{in, n, nil}
		case 2:
			return &in
		default:
			return map[string]interface{}{short: in}
		}
	case 10:
		d := time.Duration(n) * time.Millisecond
		w := time.Unix(int64(n), 0).UTC()
		switch r.W.Draw(3) {
		case 0:
			return d
		case 1:
			return w
		default:
			return dur{d, w}
		}
	case 11:
		p := &n
		switch r.W.Draw(3) {
		case 0:
			p = nil
			return &p
		case 1:
			return (**int)(nil)
		}
		return &p
	case 12:
		return []interface{}{map[string]int(nil), []string(nil), []pair{}, map[int]string{}, (*pair)(nil), [0]int{}, struct{}{}}[r.W.Draw(7)]
	case 13:
		switch r.W.Draw(7) {
		case 0:
			return map[interface{}]int{short: n}
		case 1:
			return map[interface{}]int{n: n}
		case 2:
			return map[namedStr]*pair{namedStr(short): {n, "k"}}
		case 3:
			return map[uint8][]byte{uint8(n): []byte(short)}
		case 4:
			switch r.W.Draw(4) {
			case 0: // several entries that look the same, in whatever order they come
				return map[interface{}]string{int16(n): short, int64(n): short, int32(n): short}
			case 1:
				return map[interface{}]pair{uint(n): {n, short}, strconv.Itoa(n): {n, short}}
			case 2:
				return map[interface{}]interface{}{int64(n): nil, namedInt(n): nil}
			}
			return map[int64]bool{int64(n) << 33: true}
		case 5:
			if flip() {
				return map[fmt.Stringer]int{time.Duration(n): n}
			}
			return map[interface{}]int{&n: n}
		default:
			return map[interface{}]int{nil: n}
		}
	case 14:
		return uintptr(n) << 20
	case 15:
		return [2]pair{{n, short}, {}}
	case 17:
		return recursiveValue(r, n)
	case 16:
		return json.RawMessage(`{"raw":` + itoa(n) + `}`)
	default:
		return struct {
			A, B bool
			C    int8
			D    uint16
			E    float32
			F    string
			G    func()
			H    chan int
		}{true, false, int8(n), uint16(n), 0.5, short, nil, nil}
	}
}

type node struct {
	N    int
	Next *node
	M    map[node2]nodes
	I    interface{}
}
type node2 struct {
	S string
	P *node
}
type nodes []nodes
type tree map[string]tree

// recursiveValue is a value of a recursive type.
func recursiveValue(r *sim.Run, n int) interface{} {
	v := node{N: n}
	switch r.W.Draw(6) {
	case 0:
		v.Next = &node{N: n + 1, Next: &node{}}
	case 1:
		v.M = map[node2]nodes{{S: ""}: {nil, {}, {{}}}}
	case 2:
		v.I = &node{I: n}
	case 3:
		return nodes{nil, {nil}}
	case 4:
		return tree{"k" + itoa(n): {"l": nil}}
	default:
		return &v
	}
	return v
}

// renderReflect shows any value as JSON; the entries of a map look the same.
func renderReflect(v reflect.Value) string {
	if !v.IsValid() {
		return "null"
	}
	t := v.Type()
	list := func() string {
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, renderReflect(v.Index(i)))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	nilable := t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr || t.Kind() == reflect.Map
	switch {
	case nilable && v.IsNil():
		return "null"
	case t.Kind() == reflect.Interface:
		return renderReflect(v.Elem())
	case t == reflect.TypeOf([]byte(nil)):
		return quoteJSON(string(v.Bytes()), true)
	}
	switch x := v.Interface().(type) {
	case *errer:
		return quoteJSON(x.s, false)
	case error:
		return quoteJSON(x.Error(), false)
	case *marsh:
		if x.e != nil {
			return quoteJSON(x.e.Error(), false)
		}
		return `{"m":"` + x.s + `"}`
	case json.Marshaler:
		b, err := x.MarshalJSON()
		if err != nil {
			return quoteJSON(err.Error(), false)
		}
		return string(b)
	}
	switch t.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32:
		return floatJSON(v.Float(), 32)
	case reflect.Float64:
		return floatJSON(v.Float(), 64)
	case reflect.String:
		return quoteJSON(v.String(), false)
	case reflect.Ptr:
		return renderReflect(v.Elem())
	case reflect.Slice, reflect.Array:
		return list()
	case reflect.Map:
		var p []string
		for _, k := range v.MapKeys() {
			key := renderReflect(k)
			if !strings.HasPrefix(key, `"`) {
				key = `"` + key + `"`
			}
			p = append(p, key+":"+renderReflect(v.MapIndex(k)))
		}
		return "{" + strings.Join(p, ",") + "}"
	case reflect.Struct:
		var p []string
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if f.PkgPath != "" || f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Chan || name == "-" {
				continue
			}
			if name == "" {
				name = f.Name
			}
			p = append(p, `"`+name+`":`+renderReflect(v.Field(i)))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return fmt.Sprintf("<%s>", t)
}

// renderText is the text of {v} in a message.
func renderText(v interface{}) string {
	switch x := v.(type) {
	case time.Time:
		return x.String()
	case time.Duration:
		return x.String()
	case *strer:
		if x == nil {
			return "<nil Stringer>"
		}
		return x.s
	case string:
		return x
	case []byte:
		return escapeBytes(string(x))
	}
	return renderJSON(v)
}

// escapeBytes is how bytes are shown in a message.
func escapeBytes(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\':
			b.WriteString("\\\\")
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c == '\t':
			b.WriteString("\\t")
		case c >= 0x80 || c < 0x20 || c == '|':
			fmt.Fprintf(&b, "\\x%02x", c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// quoteJSON is how a string (or, with bytes set, a byte slice) is shown as JSON.
func quoteJSON(s string, bytes bool) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\' || c == '"':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c == '\t':
			b.WriteString("\\t")
		case bytes && (c >= 0x80 || c < 0x20):
			fmt.Fprintf(&b, "\\\\x%02x", c)
		case c < 0x20:
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// floatJSON is what six digits after the point leave of x.
func floatJSON(x float64, bits int) string {
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 0x4ffffff {
		f := byte('f')
		if a := math.Abs(x); a >= 1e21 {
			f = 'e'
		}
		return strconv.FormatFloat(x, f, -1, bits)
	}
	s := strings.TrimRight(strconv.FormatFloat(x, 'f', 6, 64), "0")
	return strings.TrimSuffix(s, ".")
}

func renderJSON(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return quoteJSON(x, false)
	case []byte:
		return quoteJSON(string(x), true)
	case int8, int16, int32, uint, uint16, uint32, uint64:
		return fmt.Sprint(x)
	case float32:
		return floatJSON(float64(x), 32)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint8:
		return strconv.Itoa(int(x))
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return floatJSON(x, 64)
	case *errer:
		if x == nil {
			return "<nil error>"
		}
		return quoteJSON(x.s, false)
	case error:
		return quoteJSON(x.Error(), false)
	case []int:
		var p []string
		for _, e := range x {
			p = append(p, strconv.Itoa(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case []string:
		var p []string
		for _, e := range x {
			p = append(p, renderJSON(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case []interface{}:
		var p []string
		for _, e := range x {
			p = append(p, renderJSON(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case pair:
		return `{"A":` + itoa(x.A) + `,"B":` + quoteJSON(x.B, false) + `}`
	case odd:
		return `{"E":` + renderJSON(x.E) + `,"p":` + renderJSON(x.P) + `,"I":` + renderJSON(x.I) + `,"L":` + renderJSON(x.L) + `}`
	case [1]*int:
		return "[" + renderJSON(x[0]) + "]"
	case *int:
		if x == nil {
			return "null"
		}
		return itoa(*x)
	case [][]byte:
		var p []string
		for _, e := range x {
			p = append(p, renderJSON(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[int]string:
		for k, e := range x {
			return fmt.Sprintf(`{"%d":%s}`, k, quoteJSON(e, false))
		}
		return "{}"
	case *pair:
		if x == nil {
			return "null"
		}
		return renderJSON(*x)
	}
	return renderReflect(reflect.ValueOf(v))
}

var someChars = []string{"\n", "|", "\\", "\"", "\u4e2d", "\u00e9", "\t", "\r", "\x01", "\x7f", "\x80", "{", "}", "<", "\u2028", "\x00", "e"}

// someText is a text unique by n, sometimes long, sometimes with characters that are escaped.
func someText(r *sim.Run, n int) string {
	l := []int{0, 3, 20, 200}[r.W.Pick(6, 4, 2, 1)]
	if r.W.Draw(60) == 1 {
		l = []int{500, 1030, 4100, 9000, 17000}[r.W.Draw(5)]
	}
	s := fmt.Sprintf("v%d", n) + strings.Repeat(string(rune('a'+n%26)), l)
	if r.W.Draw(4) == 1 {
		for k := 1 + r.W.Draw(3); k > 0; k-- {
			c := someChars[r.W.Draw(len(someChars))]
			switch r.W.Draw(4) {
			case 0:
				s = c + s
			case 1:
				s = s[:2] + c + s[2:]
			case 2:
				s = s + c + "yz"
			default:
				s += c
			}
		}
	}
	return s
}

// someInt is an integer of any magnitude, often next to where the number of digits or of bits changes.
func someInt(r *sim.Run, n int) uint64 {
	switch r.W.Draw(4) {
	case 0:
		return uint64([]int64{int64(n), -int64(n), 999, 1000, 1000000, -1000000000, 4000000000, math.MaxInt64, math.MinInt64, 1 << 62}[r.W.Draw(10)])
	case 1: // groups of digits
		var m uint64
		for k := 1 + r.W.Draw(7); k > 0; k-- {
			m = m*1000 + []uint64{0, 1, 9, 10, 99, 100, 999, uint64(r.W.Draw(1000))}[r.W.Draw(8)]
		}
		return m
	case 2: // around a power of ten
		m := uint64(1)
		for k := r.W.Draw(20); k > 0; k-- {
			m *= 10
		}
		return m - 2 + uint64(r.W.Draw(5))
	default: // around a power of two
		return uint64(1)<<r.W.Draw(64) - 2 + uint64(r.W.Draw(5))
	}
}

// someFloat is a float that six digits after the point show exactly, or a huge or special one; with
// small set it is exact as float32 as well.
func someFloat(r *sim.Run, small bool) float64 {
	switch r.W.Draw(4) {
	case 0:
		return []float64{0.25, -1.5, 1e10, 1024.75, 1e22, -3e9, math.NaN(), math.Inf(1), math.Inf(-1), 0}[r.W.Draw(10)]
	case 1:
		return float64(int64(0x4fffff8)+8*int64(r.W.Draw(5))-16) * float64(1-2*int(r.W.Draw(2)))
	default:
		sign := float64(1 - 2*int(r.W.Draw(2)))
		if small {
			return sign * float64(1+r.W.Draw(1<<13)) / float64(int(1)<<r.W.Draw(7))
		}
		p := 1
		for k := r.W.Draw(7); k > 0; k-- {
			p *= 10
		}
		return sign * float64(1+r.W.Draw([]int{10, 10000, 1 << 30}[r.W.Draw(3)])) / float64(p)
	}
}

// someNumber is a number of any type and magnitude.
func someNumber(r *sim.Run, n int) interface{} {
	kind := r.W.Draw(16)
	if kind >= 13 {
		return someFloat(r, false)
	}
	if kind >= 10 {
		return float32(someFloat(r, true))
	}
	m := int64(someInt(r, n))
	switch kind {
	case 0:
		return int8(m)
	case 1:
		return int16(m)
	case 2:
		return int32(m)
	case 3:
		return m
	case 4:
		return uint8(m)
	case 5:
		return uint16(m)
	case 6:
		return uint32(m)
	case 7:
		return uint64(m)
	case 8:
		return uint(m)
	default:
		return int(m)
	}
}

const valueKinds = 22

// someValue draws a value of a kind below valueKinds. String-like values can yield.
func someValue(r *sim.Run, n int, kind int) interface{} {
	switch kind {
	case 0:
		return someText(r, n)
	case 1:
		return n
	case 2:
		return []byte(someText(r, n))
	case 3:
		return n%2 == 0
	case 4:
		return int64(n) * 1000000007
	case 5:
		return float64(n) + 0.5
	case 6:
		return nil
	case 7:
		return errors.New(someText(r, n))
	case 8:
		return &strer{someText(r, n), r.Yield}
	case 9:
		return []int{n, n + 1}
	case 10:
		return pair{n, someText(r, n)}
	case 11:
		return &pair{n, someText(r, n)}
	case 12:
		return map[string]int{"k" + strconv.Itoa(n): n}
	case 13:
		return someNumber(r, n)
	case 14:
		v := odd{u: 1, X: 2}
		if r.W.Draw(2) == 1 {
			v.E = errors.New("e \"" + itoa(n))
		}
		if r.W.Draw(2) == 1 {
			v.P = &n
		}
		v.I = []interface{}{nil, n, "x" + itoa(n), []byte("y")}[r.W.Draw(4)]
		v.L = []interface{}{n, v.I}
		return v
	case 15:
		if r.W.Draw(2) == 1 {
			return [1]*int{&n}
		}
		return [1]*int{}
	case 16:
		if r.W.Draw(2) == 1 {
			return map[int]string{n: someText(r, n)}
		}
		return [][]byte{[]byte(someText(r, n)), nil, []byte("b" + itoa(n))}
	case 17:
		return &errer{someText(r, n), r.Yield}
	default:
		return moreValue(r, n)
	}
}

// expandFormat renders a message format of literals and {name}; ok is false if it is malformed
// or names something missing.
func expandFormat(format string, kv []interface{}) (string, bool) {
	var b strings.Builder
	for {
		i := strings.IndexByte(format, '{')
		if i < 0 {
			b.WriteString(format)
			return b.String(), true
		}
		b.WriteString(format[:i])
		format = format[i+1:]
		j := strings.IndexByte(format, '}')
		if j < 0 {
			return "", false
		}
		parts := strings.Split(format[:j], ",")
		name := strings.TrimSpace(parts[0])
		format = format[j+1:]
		found := false
		for k := 0; k+1 < len(kv); k += 2 {
			if kv[k] == name {
				found = true
				v := kv[k+1]
				if len(parts) > 1 {
					t, ok := v.(time.Time)
					if strings.TrimSpace(parts[1]) != "goTime" || !ok {
						return "", false
					}
					layout := time.RFC3339
					if len(parts) > 2 {
						layout = strings.TrimSpace(parts[2])
					}
					b.WriteString(t.Format(layout))
				} else {
					b.WriteString(renderText(v))
				}
				break
			}
		}
		if !found {
			return "", false
		}
	}
}
