package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
	"verifsim/sim"
)

func init() {
	register(&Prop{ID: "C20", Run: runC20, MaxPoints: 600000, MaxSim: 10 * time.Minute,
		Real: []string{"parse.Source, parse/read, parse/skip (all of it)"},
		Stub: []string{"the io.Reader (chunking, empty reads, errors with and without data)", "the caller is a generated sequence of operations"}})
}

var errReader = errors.New("reader failed")

// chunkReader delivers data in pieces decided by the fault stream, then fin.
type chunkReader struct {
	r     *sim.Run
	data  []byte
	fin   error
	empty int
	max   int
	ended bool
	stuck bool // at the end no error, only empty reads
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.r.Yield()
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		if c.stuck {
			return 0, nil
		}
		if c.ended {
			return 0, c.fin
		}
		if c.empty < 3 && c.r.F.Chance(1, 6) {
			c.empty++
			c.r.Fault("empty read")
			return 0, nil
		}
		c.ended = true
		return 0, c.fin
	}
	if c.empty < 3 && c.r.F.Chance(1, 6) {
		c.empty++
		c.r.Fault("empty read")
		return 0, nil
	}
	c.empty = 0
	n := len(p)
	if c.max < n {
		n = c.max
	}
	if len(c.data) < n {
		n = len(c.data)
	}
	if n > 1 && c.r.F.Chance(1, 2) {
		n = 1 + c.r.F.Draw(n)
		if n > len(c.data) {
			n = len(c.data)
		}
		c.r.Fault("short read")
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && !c.stuck && c.r.F.Chance(1, 3) {
		c.ended = true
		c.r.Fault("data with " + c.fin.Error())
		return n, c.fin
	}
	return n, nil
}

var srcAlphabet = []string{"1", "7", "0", "-", " ", "\t", "\n", "a", "Z", ",", "{", "}", "中", "é", "😀", "\u00a0", "\u2003", "\xff", "\x80", "\xe4\xb8", "\xf0\x9f", "\x00", "/", ":", "\v", "\f", "\r", "\x08", "\x0e", "\u0085", "+", ".", "9"}

var tables = [][]*unicode.RangeTable{
	nil,
	{unicode.Letter},
	{unicode.Letter, unicode.Digit},
	{unicode.Pattern_Syntax, unicode.Pattern_White_Space},
	{unicode.Han},
	{unicode.L, unicode.Han},
}

func runC20(r *sim.Run) {
	if r.W.Chance(1, 5) {
		runExpr(r)
		return
	}
	var data []byte
	n := 1 + r.W.Draw(40)
	long := r.W.Draw(30) == 1
	if long {
		n = 200 + r.W.Draw(2500)
	}
	words := 1 + r.W.Draw(len(srcAlphabet))
	for i := 0; i < n; i++ {
		data = append(data, srcAlphabet[r.W.Draw(words)]...)
	}
	if r.W.Chance(1, 4) {
		// around the limits of the number types, and well beyond
		num := []string{"9223372036854775807", "9223372036854775808", "2147483647", "2147483648", "18446744073709551615", "18446744073709551616", "20000000000000000000", "30000000000000000000", "99999999999999999999", "184467440737095516150", "1844674407370955161", "000000000000000000000000001"}[r.W.Draw(12)]
		if r.W.Chance(1, 2) {
			v := new(big.Int).Lsh(big.NewInt(1), []uint{31, 63, 64, 32, 16, 65}[r.W.Draw(6)])
			if r.W.Chance(1, 4) {
				v.Exp(big.NewInt(10), big.NewInt(int64(1+r.W.Draw(21))), nil)
			}
			num = v.Add(v, big.NewInt(int64(r.W.Draw(5)-2))).String()
			if r.W.Chance(1, 4) {
				num += strconv.Itoa(r.W.Draw(10))
			}
		}
		if r.W.Chance(1, 3) {
			num = "-" + num
		}
		if r.W.Chance(1, 2) {
			num += []string{",", ",", "\x00", "/", ":", "-"}[r.W.Draw(6)]
		}
		data = append([]byte(num), data...)
	}
	fin := io.EOF
	if r.W.Chance(1, 3) {
		fin = []error{errReader, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled}[r.W.Draw(4)]
		r.Fault("reader error")
		data = data[:r.F.Draw(len(data)+1)]
	}
	buf := make([]byte, []int{1, 2, 3, 5, 8, 64}[r.W.Draw(6)])
	if long {
		buf = make([]byte, []int{1, 7, 64, 512, 1000, 4096}[r.W.Draw(6)])
	}
	cr := &chunkReader{r: r, data: append([]byte(nil), data...), fin: fin, max: []int{1000, 1, 2, 3}[r.W.Draw(4)]}
	if cr.stuck = r.W.Chance(1, 12); cr.stuck {
		r.Fault("reader stuck")
	}
	st, err := parse.NewSource(cr, buf)
	if st != nil && cr.stuck {
		// whatever error the source gives up with
		fin = nil
	}
	if len(data) == 0 {
		if st != nil && st.Error() == nil {
			r.Fail("new-source", "NewSource over an empty input gives a source without error")
		}
		if err == nil && st == nil || err != nil && err != fin && !cr.stuck {
			r.Fail("new-source", "NewSource over an input that ends at once with %v returned (%v, %v)", fin, st != nil, err)
		}
		r.Nontriv = true
		return
	}
	if st == nil || err != nil {
		r.Fail("new-source", "NewSource returned (%v, %v) although the reader has data", st != nil, err)
	}
	str := parse.NewSourceString(string(data))
	mapErr := func(e error) error {
		if e == io.EOF && cr.stuck {
			if fin == nil {
				fin = st.Error()
			}
			if fin == nil {
				_, fin = st.PeekN(len(data) + 1)
			}
			if fin == nil {
				r.Fail("wrong-error", "no error although the reader is stuck and all input was consumed")
			}
			return fin
		}
		if e == io.EOF {
			return fin
		}
		return e
	}
	same := func(op string) bool {
		a, b := st.Error(), mapErr(str.Error())
		if a != b && (a == nil || b == nil || a.Error() != b.Error()) {
			r.Fail("wrong-error", "after %s the error is %v, expected %v (input %q)", op, a, b, data)
		}
		return a == nil || a == fin || str.Error() == io.EOF
	}
	pos := func() int { return len(data) - len(str.Peek()) }
	check := func(op string, a, b interface{}) {
		if fmt.Sprint(a) != fmt.Sprint(b) {
			r.Fail("wrong-result", "%s at offset %d returned %v on the reader and %v on the string %q", op, pos(), a, b, data)
		}
	}
	// tooBig: a number that does not fit is an error, not another number
	tooBig := func(op string, a interface{}) {
		e1, e2 := st.Error(), str.Error()
		// (signed numbers at the very end of the input: the end was reported first)
		last := op != "Uint64" && len(str.Peek()) == 0
		if e1 == nil || e2 == nil || !last && (e1 == fin || e2 == io.EOF) {
			r.Fail("wrong-error", "%s of a number that is out of range in %q: errors %v and %v, expected an overflow", op, data, e1, e2)
		}
		check(op, a, 0)
		r.Probe("overflow")
		r.Nontriv = true
	}
	// prefix: what Peek shows is the beginning of what is left
	prefix := func(op string) {
		rest := str.Peek()
		got := st.Peek()
		if len(got) > len(rest) || string(got) != string(rest[:len(got)]) {
			r.Fail("wrong-bytes", "after %s the source shows %q, the remaining input is %q", op, got, rest)
		}
		if len(got) == 0 && st.Error() == nil {
			r.Fail("wrong-bytes", "after %s the source shows nothing and has no error, the remaining input is %q", op, rest)
		}
	}
	prefix("NewSource")
	ops := 1 + r.W.Draw(25)
	if long {
		ops += 300
	}
	for i := 0; i < ops; i++ {
		r.Yield()
		op := ""
		ended := str.Error() != nil
		k := r.W.Draw(19)
		before := pos()
		want := -1 // bytes the operation consumes, by the model
		rest := append([]byte(nil), str.Peek()...)
		switch k {
		case 0, 1:
			n := 1 + r.W.Draw(12)
			if r.W.Chance(1, 8) {
				n = len(data) + 3
			}
			op = fmt.Sprintf("PeekN(%d)", n)
			a, ea := st.PeekN(n)
			b, eb := str.PeekN(n)
			if string(a) != string(b) {
				r.Fail("wrong-bytes", "%s at offset %d returned %q, expected %q", op, pos(), a, b)
			}
			if eb = mapErr(eb); ea != eb {
				r.Fail("wrong-error", "%s at offset %d returned error %v, expected %v", op, pos(), ea, eb)
			}
			if before != pos() {
				r.Fail("wrong-bytes", "PeekN consumed input")
			}
			m := n
			if m > len(rest) {
				m = len(rest)
			}
			if string(b) != string(rest[:m]) {
				r.Fail("wrong-bytes", "%s on a string returned %q, the input goes on %q", op, b, rest)
			}
			want = 0
		case 2:
			if ended {
				continue
			}
			op = "Peek1"
			check(op, st.Peek1(), rest[0])
			want = 0
		case 3:
			op = "PeekRune"
			if ended {
				continue
			}
			a, n := st.PeekRune()
			b, m := str.PeekRune()
			check(op, []int{int(a), n}, []int{int(b), m})
			c, l := utf8.DecodeRune(rest)
			check(op, []int{int(a), n}, []int{int(c), l})
			want = 0
		case 4:
			if ended {
				continue
			}
			c := rest[0]
			want = 1
			if r.W.Chance(1, 8) {
				c ^= 1
			}
			op = fmt.Sprintf("Consume1(%q)", c)
			clean := str.Error() == nil
			st.Consume1(c)
			str.Consume1(c)
			if clean && c != rest[0] && (str.Error() == nil || len(rest) > 1 && str.Error() == io.EOF) {
				r.Fail("wrong-error", "%s at %q is accepted: error %v", op, rest, str.Error())
			}
		case 5, 6:
			n := r.W.Draw(6)
			op = fmt.Sprintf("ConsumeN(%d)", n)
			st.ConsumeN(n)
			str.ConsumeN(n)
			if want = n; want > len(rest) {
				want = len(rest)
			}
		case 7:
			n := len(st.Peek())
			op = "Consume"
			st.Consume()
			str.ConsumeN(n)
			if ended {
				str.Consume()
			}
		case 8:
			op = "AnyExcept1"
			a := read.AnyExcept1(st, nil, ',')
			check(op, a, read.AnyExcept1(str, nil, ','))
			want = until(rest, func(c byte) bool { return c == ',' })
			check(op, string(a), string(rest[:want]))
		case 9:
			op = "AnyExcept2"
			a := read.AnyExcept2(st, []byte("x"), ' ', '{')
			check(op, a, read.AnyExcept2(str, []byte("x"), ' ', '{'))
			want = until(rest, func(c byte) bool { return c == ' ' || c == '{' })
			check(op, string(a), "x"+string(rest[:want]))
		case 10:
			op = "Uint64"
			a := read.Uint64(st)
			check(op, a, read.Uint64(str))
			want = until(rest, func(c byte) bool { return c < '0' || c > '9' })
			if v, err := strconv.ParseUint("0"+string(rest[:want]), 10, 64); err == nil {
				check(op, a, v)
			} else {
				tooBig(op, a)
				return
			}
		case 11:
			if ended {
				continue
			}
			op = "Int64"
			var a int64
			if r.W.Chance(1, 3) {
				op = "Int"
				a = int64(read.Int(st))
				check(op, a, read.Int(str))
			} else {
				a = read.Int64(st)
				check(op, a, read.Int64(str))
			}
			v, n, ok := signed(rest, 64)
			if !ok {
				tooBig(op, a)
				return
			}
			want = n
			check(op, a, v)
		case 12:
			if ended {
				continue
			}
			op = "Int32"
			a := read.Int32(st)
			check(op, a, read.Int32(str))
			v, n, ok := signed(rest, 32)
			if !ok {
				tooBig(op, a)
				return
			}
			want = n
			check(op, a, v)
		case 13:
			op = "Space"
			a := skip.Space(st)
			check(op, a, skip.Space(str))
			want = until(rest, func(c byte) bool { return c != ' ' && (c < 9 || c > 13) })
			check(op, a, want)
		case 14:
			op = "UnicodeSpace"
			a := skip.UnicodeSpace(st)
			check(op, a, skip.UnicodeSpace(str))
			want, _ = runes(rest, unicode.IsSpace)
			check(op, a, want)
		case 15:
			t := unicode.Letter
			if r.W.Chance(1, 2) {
				t = unicode.Han
			}
			m, rs := runes(rest, func(c rune) bool { return unicode.Is(t, c) })
			want = m
			if r.W.Chance(1, 2) {
				op = "read.UnicodeRange"
				a := read.UnicodeRange(st, nil, t)
				check(op, a, read.UnicodeRange(str, nil, t))
				check(op, string(a), string(rs))
			} else {
				op = "skip.UnicodeRange"
				a := skip.UnicodeRange(st, t)
				check(op, a, skip.UnicodeRange(str, t))
				check(op, a, m)
			}
		case 16:
			in, ex := tables[r.W.Draw(len(tables))], tables[r.W.Draw(len(tables))]
			m, rs := runes(rest, func(c rune) bool {
				return !unicode.In(c, ex...) && (len(in) == 0 || unicode.In(c, in...))
			})
			if r.W.Chance(1, 2) {
				op = "read.UnicodeRanges"
				a := read.UnicodeRanges(st, nil, in, ex)
				check(op, a, read.UnicodeRanges(str, nil, in, ex))
				check(op, string(a), string(rs))
				want = m
			} else if len(in) > 0 {
				op = "skip.UnicodeRanges"
				a := skip.UnicodeRanges(st, in, ex)
				check(op, a, skip.UnicodeRanges(str, in, ex))
				check(op, a, m)
				want = m
			}
		case 17:
			// from now on another buffer; what was read into the old one stays as it is
			op = "SetBuffer"
			keep := st.Peek()
			was := string(keep)
			st.SetBuffer(make([]byte, 1+r.W.Draw(9)))
			for i := r.W.Draw(3); i > 0; i-- {
				n := len(st.Peek())
				st.Consume()
				str.ConsumeN(n)
				if string(keep) != was {
					r.Fail("wrong-bytes", "the buffer replaced by SetBuffer was written to: %q became %q", was, keep)
				}
				if st.Error() != nil {
					break
				}
			}
		case 18:
			// an error reported by a token stays, whatever happens later
			if !r.W.Chance(1, 6) {
				continue
			}
			op = "ReportError"
			e := errors.New("bad token")
			e2 := st.Error()
			st.ReportError(e)
			str.ReportError(e)
			if e2 == nil {
				e2 = e
			}
			st.ReportError(errors.New("another"))
			st.ConsumeN(r.W.Draw(60))
			if st.Error() != e2 {
				r.Fail("wrong-error", "the first error %v was replaced by %v", e2, st.Error())
			}
			return
		}
		if want >= 0 && pos() != before+want {
			r.Fail("wrong-bytes", "%s on a string at offset %d consumed %d bytes, expected %d (input %q)", op, before, pos()-before, want, data)
		}
		if !same(op) {
			r.Probe("parse-error")
			r.Nontriv = true
			return
		}
		prefix(op)
	}
	// drain: exactly the rest, then the end
	rest := append([]byte(nil), str.Peek()...)
	if len(data) < len(rest) || string(data[len(data)-len(rest):]) != string(rest) {
		r.Fail("wrong-bytes", "the string source lost track: rest %q of %q", rest, data)
	}
	var got []byte
	for st.Error() == nil {
		got = append(got, st.Peek()...)
		st.Consume()
		r.Yield()
	}
	if string(got) != string(rest) {
		r.Fail("wrong-bytes", "the rest of the source is %q, expected %q (input %q)", got, rest, data)
	}
	if st.Error() != fin && !cr.stuck {
		r.Fail("wrong-error", "the source ended with %v, the reader with %v", st.Error(), fin)
	}
	r.Nontriv = true
}

// until returns the offset of the first byte that satisfies stop.
func until(b []byte, stop func(c byte) bool) int {
	for i, c := range b {
		if stop(c) {
			return i
		}
	}
	return len(b)
}

// runes returns the length of the longest prefix of runes that satisfy ok, and the runes.
func runes(b []byte, ok func(c rune) bool) (n int, rs []rune) {
	for n < len(b) {
		c, l := utf8.DecodeRune(b[n:])
		if !ok(c) {
			break
		}
		rs = append(rs, c)
		n += l
	}
	return
}

func signed(b []byte, bits int) (int64, int, bool) {
	i := 0
	if b[0] == '-' {
		i = 1
	}
	n := i + until(b[i:], func(c byte) bool { return c < '0' || c > '9' })
	if n == i {
		return 0, n, true
	}
	v, err := strconv.ParseInt(string(b[:n]), 10, bits)
	return v, n, err == nil
}

// ---- expressions parsed with parse.Parse, from a reader and from a string ----

// exprLexer builds a text of the structure it found; operators have generated precedences.
type exprLexer struct {
	prec map[byte]int
	r    *sim.Run
}

func (l *exprLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
	skip.Space(src)
	if src.Error() != nil {
		return nil
	}
	switch c := src.Peek1(); {
	case c >= '0' && c <= '9':
		return exprNum{}
	case c == '(':
		return exprParen{l}
	case c == '~':
		return exprNeg{l}
	case c == '"':
		return exprStr{}
	}
	return nil
}

func (l *exprLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
	skip.Space(src)
	if src.Error() != nil {
		return nil, 0
	}
	c := src.Peek1()
	p := l.prec[c]
	if p == 0 {
		return nil, 0
	}
	return exprOp{l, c, p}, p
}

type exprNum struct{}

func (exprNum) PrefixParse(src *parse.Source) interface{} { return fmt.Sprint(read.Uint64(src)) }

type exprStr struct{}

func (exprStr) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('"')
	b := read.AnyExcept1(src, nil, '"')
	if src.Error() != nil {
		return "?"
	}
	src.Consume1('"')
	return fmt.Sprintf("%q", b)
}

type exprParen struct{ l *exprLexer }

func (t exprParen) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('(')
	v := parse.Parse(src, t.l, 0)
	skip.Space(src)
	if src.Error() != nil {
		return fmt.Sprintf("[%v?", v)
	}
	src.Consume1(')')
	return fmt.Sprintf("[%v]", v)
}

type exprNeg struct{ l *exprLexer }

func (t exprNeg) PrefixParse(src *parse.Source) interface{} {
	src.ConsumeN(1)
	return fmt.Sprintf("(~ %v)", parse.Parse(src, t.l, 9))
}

type exprOp struct {
	l *exprLexer
	c byte
	p int
}

func (t exprOp) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.Consume1(t.c)
	p := t.p
	if t.c == '^' {
		p--
	}
	return fmt.Sprintf("(%v %c %v)", left, t.c, parse.Parse(src, t.l, p))
}

// exprModel is what the text means: operators of higher precedence bind tighter, ^ to the right.
type exprModel struct {
	toks []string
	i    int
	prec map[byte]int
}

func (m *exprModel) expr(min int) string {
	t := m.toks[m.i]
	m.i++
	left := t
	switch {
	case t == "(":
		left = "[" + m.expr(0) + "]"
		m.i++
	case t == "~":
		left = "(~ " + m.expr(9) + ")"
	case t[0] == '"':
		left = strconv.Quote(t[1 : len(t)-1])
	}
	for m.i < len(m.toks) {
		op := m.toks[m.i][0]
		p := m.prec[op]
		if p == 0 || p <= min {
			break
		}
		m.i++
		q := p
		if op == '^' {
			q--
		}
		left = "(" + left + " " + string([]byte{op}) + " " + m.expr(q) + ")"
	}
	return left
}

func runExpr(r *sim.Run) {
	ops := []byte("+-*/^=")
	prec := map[byte]int{}
	for _, c := range ops {
		prec[c] = 1 + r.W.Draw(8)
	}
	if prec['^'] == 1 {
		prec['^'] = 2
	}
	// no other operator shares a level with the right associative one
	for _, c := range ops[:4] {
		if prec[c] == prec['^'] {
			prec[c]--
		}
	}
	if prec['='] == prec['^'] {
		prec['='] = 0
	}
	var toks []string
	var gen func(depth int)
	gen = func(depth int) {
		switch k := r.W.Pick(6, 2, 1, 1); {
		case k == 1 && depth < 3:
			toks = append(toks, "(")
			gen(depth + 1)
			toks = append(toks, ")")
		case k == 2 && depth < 3:
			toks = append(toks, "~")
			gen(depth + 1)
			return
		case k == 3:
			toks = append(toks, []string{`""`, `"a b"`, `"(1+"`, `"x\ny"`}[r.W.Draw(4)])
		default:
			toks = append(toks, fmt.Sprint(r.W.Draw(3)*337+r.W.Draw(10)))
		}
		for n := r.W.Draw(3); n > 0 && len(toks) < 20; n-- {
			c := ops[r.W.Draw(len(ops))]
			if prec[c] == 0 {
				continue
			}
			toks = append(toks, string([]byte{c}))
			gen(depth + 1)
		}
	}
	gen(0)
	text := ""
	for _, t := range toks {
		for n := r.W.Pick(4, 1, 1); n > 0; n-- {
			text += " "
		}
		text += t
	}
	want := (&exprModel{toks: toks, prec: prec}).expr(0)
	broken := false
	fin := io.EOF
	switch r.W.Pick(6, 2, 1) {
	case 1: // the reader fails or ends early
		text = text[:r.F.Draw(len(text)+1)]
		broken = true
		if r.F.Chance(1, 2) {
			fin = []error{errReader, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled}[r.W.Draw(4)]
		}
		r.Fault("input cut short")
	case 2:
		text += ")"
		broken = true
	}
	if text == "" {
		return
	}
	r.Nontriv = true
	lex := &exprLexer{prec: prec, r: r}
	a, ea := parse.String(text, lex)
	if ea != nil && ea != io.EOF {
		a = nil
	}
	cr := &chunkReader{r: r, data: []byte(text), fin: fin, max: []int{1000, 1, 2, 3}[r.W.Draw(4)]}
	src, err := parse.NewSource(cr, make([]byte, []int{1, 2, 3, 7, 64}[r.W.Draw(5)]))
	if err != nil {
		r.Fail("new-source", "NewSource: %v", err)
	}
	b := parse.Parse(src, lex, 0)
	eb := src.Error()
	if eb == io.EOF {
		eb = nil
	} else if eb == fin && ea == nil {
		eb = nil
	} else if eb != nil {
		b = nil
	}
	if fmt.Sprint(a) != fmt.Sprint(b) || (ea == nil) != (eb == nil) || ea != nil && eb != fin && ea.Error() != eb.Error() {
		r.Fail("wrong-parse", "%q parses as %v (%v) from a string and as %v (%v) from a reader", text, a, ea, b, eb)
	}
	if !broken && (ea != nil || a != want) {
		r.Fail("wrong-parse", "%q with precedences %v parses as %v (%v), expected %v", text, prec, a, ea, want)
	}
	r.Probe("expression")
}
