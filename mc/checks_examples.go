package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
)

func init() {
	register(&Check{
		ID:     "C23",
		Rule:   "every sequence of JSON tokens up to a length bound, every single-token edit of larger documents, and character-level strings: Format succeeds exactly if encoding/json accepts the text; its output has the same token stream (order, keys, duplicates, values) and formatting it again changes nothing; non-trivial: the text is a document",
		Bounds: []string{"token sequences to length 6 over 9 tokens (spaced) and to length 5 (unspaced)", "edits: 6 documents, delete/insert/replace/swap over 10 tokens", "string literals: every body up to length 4 over 6 characters"},
		Assume: []string{"numbers are written without sign, exponent, leading zeros or a leading or trailing point (what the example's lexer supports of JSON)", "strings contain no raw control characters and only escapes that JSON allows"},
		Run:    runC23,
	})
	register(&Check{
		ID:     "C24",
		Rule:   "every token sequence up to a length bound, spaced and unspaced: Eval fails exactly if the reference grammar (terms of units, optional sign before a number, parentheses) does not match, and otherwise returns what a reference evaluator with the usual precedence and left associativity returns; non-trivial: the expression is valid and has at least two operators",
		Bounds: []string{"operator chains and bracketings of sizes 1..20 and around powers of two to 130 (brackets to 40)", "every sequence of up to 6 of 9 tokens; up to 7 of 5 tokens; chains of up to 7 operators over + - * / (all 4^n)"},
		Run:    runC24,
	})
	register(&Check{
		ID:     "C25",
		Rule:   "every token sequence of numbers, unary and binary operators up to a length bound, optionally ended by a stack operator: Eval returns the stack of a reference RPN machine with precision tracking, or nil if an operator lacks operands",
		Bounds: []string{"programs of sizes 1..20 and around powers of two to 130", "sequences of up to 5 of 15 tokens, to 7 of 4 tokens; stack operators: each of 7 after each sequence up to length 4"},
		Assume: []string{"no parentheses, no ternary operator, no stack manipulation (documented as broken in the example's readme), a stack operator only at the end"},
		Run:    runC25,
	})
}

func jsonStream(s string) (string, bool) {
	if !json.Valid([]byte(s)) {
		return "", false
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var b strings.Builder
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return "", false
		}
		fmt.Fprintf(&b, "%T:%v\x00", t, t)
	}
	return b.String(), true
}

func runC23(c *Ctx) {
	one := func(text string) {
		c.Case(func() string { return strconv.Quote(text) }, func() string {
			want, ok := jsonStream(text)
			c.Trans(1)
			out, err := parlexjson.Format(text)
			if !ok {
				if err == nil {
					return "accepted, giving " + out
				}
				if out != "" {
					return "an error and output"
				}
				return ""
			}
			c.NonTrivial()
			if err != nil {
				return "refused: " + err.Error()
			}
			c.OutcomeS(out)
			got, ok := jsonStream(out)
			if !ok {
				return "the output is no document: " + out
			}
			if got != want {
				return "the output is another document: " + out
			}
			c.Trans(1)
			again, err := parlexjson.Format(out)
			if err != nil || again != out {
				return fmt.Sprintf("not stable: %q -> %q, %v", out, again, err)
			}
			return ""
		})
	}
	toks := []string{"{", "}", "[", "]", ",", ":", `"k"`, "12", "null"}
	seqs := func(max int, sep string) {
		eachSeq(len(toks), 2, func(head []int) {
			if !c.Unit() {
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				p := make([]string, len(seq))
				for i, k := range seq {
					p[i] = toks[k]
				}
				one(strings.Join(p, sep))
				if len(head) == 2 && len(seq) < max {
					for i := range toks {
						rec(append(seq, i))
					}
				}
			}
			rec(append([]int{}, head...))
		})
	}
	a, b := 6, 5
	if c.Thorough {
		a, b = 7, 6
	}
	c.Space("spaced tokens")
	seqs(a, " ")
	c.Space("unspaced tokens")
	toks = []string{"{", "}", "[", "]", ",", ":", `"k"`, "true", "null"}
	seqs(b, "")
	c.Space("edits")
	toks = []string{"{", "}", "[", "]", ",", ":", `"k"`, "3.5", "false", "null"}
	for _, d := range []string{
		`{ "a" : [ 1 , 2.5 , { "b" : null } ] , "c" : { } , "a" : true }`,
		`[ [ [ ] , [ ] ] , { "x" : [ 1 , 2 , 3 , 4 , 5 , 6 ] } , "s" ]`,
		`{ "a" : { "b" : { "c" : { "d" : [ { } ] } } } }`,
		`[ 1 , [ 2 , [ 3 , [ 4 ] ] ] , true , false , null , "" ]`,
		`{ "k1" : 1 , "k2" : "v" , "k3" : [ "x" , "y" ] , "k4" : false }`,
		`[ { "a" : 1 } , { "a" : 2 , "b" : 3 } , { } , [ ] ]`,
	} {
		t := strings.Fields(d)
		for i := 0; i <= len(t); i++ {
			if !c.Unit() {
				continue
			}
			if i == 0 {
				one(d)
				one(strings.ReplaceAll(d, " ", ""))
				one(strings.ReplaceAll(d, " ", "\n\t"))
			}
			if i < len(t) {
				one(strings.Join(append(append([]string{}, t[:i]...), t[i+1:]...), " "))
			}
			for _, k := range toks {
				one(strings.Join(append(append(append([]string{}, t[:i]...), k), t[i:]...), " "))
				if i < len(t) {
					one(strings.Join(append(append(append([]string{}, t[:i]...), k), t[i+1:]...), " "))
				}
			}
			for j := i + 1; j < len(t); j++ {
				x := append([]string{}, t...)
				x[i], x[j] = x[j], x[i]
				one(strings.Join(x, " "))
			}
		}
	}
	c.Space("string literals")
	for _, w := range strWords([]string{"a", `\"`, `\\`, " ", "{", ","}, 4) {
		w := w
		if c.Unit() {
			one(`"` + w + `"`)
			one(`["` + w + `","` + w + `"]`)
			one(`{"` + w + `":"` + w + `"}`)
		}
	}
	c.Space("unterminated strings")
	for _, w := range strWords([]string{"a", `"`, `\"`, `\\`, " "}, 5) {
		if !strings.Contains(w, " \"") && c.Unit() {
			one(w)
		}
	}
	c.Space("depth and width")
	for n := 1; n <= 40; n++ {
		if c.Unit() {
			one(strings.Repeat("[", n) + strings.Repeat("]", n))
			one(strings.Repeat("[", n) + strings.Repeat("]", n-1))
			one(strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n))
			one("[" + strings.Repeat("1,", n) + "2]")
			one("[" + strings.Repeat("1,", n) + "]")
			one("{" + strings.Repeat(`"k":null,`, n) + `"z":0}`)
			one("[" + strings.Repeat("[],", n) + "{}]")
		}
	}
	c.Space("wide documents")
	for _, n := range []int{60, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300} {
		if !c.Unit() {
			continue
		}
		for _, d := range [][2]string{{"[", "]"}, {"{", "}"}} {
			for _, last := range []string{`"z"`, "[1,{}]", `{"z":[null]}`} {
				var el []string
				for i := 0; i < n; i++ {
					v := []string{strconv.Itoa(i), `"s` + strconv.Itoa(i) + `"`, "true", "[]", `{"x":null}`}[i%5]
					if i == n-1 {
						v = last
					}
					if d[0] == "{" {
						v = `"k` + strconv.Itoa(i) + `":` + v
					}
					el = append(el, v)
				}
				w := d[0] + strings.Join(el, ",") + d[1]
				one(w)
				one(w[:len(w)-1])
				one(d[0] + strings.Join(el, ",") + "," + d[1])
				one(d[0] + strings.Join(el[:n-1], ",") + " " + el[n-1] + d[1])
			}
		}
	}
	c.Space("long texts")
	for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4095, 4096, 4097, 5000, 20000, 32769, 65535, 65536, 65537} {
		if !c.Unit() {
			continue
		}
		for _, ch := range []string{"a", "é", `\"`, "日 "} {
			l := strings.Repeat(ch, n)
			one(`"` + l + `"`)
			one(`["x","` + l + `",null]`)
			one(`{"` + l + `":1,"y":"` + l + `"}`)
			if n <= 1000 {
				one(`"` + l)
			}
		}
		one("[1," + strings.Repeat(" ", n) + "2]")
		one("[1," + strings.Repeat("\n", n) + "2 3]")
		one("[" + strings.Repeat("1234567890", n/10) + "]")
	}
	c.Space("other characters")
	for _, w := range strWords([]string{"é", "日", "😀", "/", "\\/", "\\u00e9", "'", "\u00a0"}, 3) {
		if c.Unit() {
			one(`"` + w + `"`)
			one(` [ "` + w + "\"\t,\r\n\"" + w + `x" ] `)
			one(`{"` + w + `":"` + w + `"}`)
		}
	}
}

// mathRef evaluates the expression language of parlexmath.
type mathRef struct {
	t []string
	i int
}

func (m *mathRef) peek() string {
	if m.i < len(m.t) {
		return m.t[m.i]
	}
	return ""
}

func isDigit(s string) bool { return s != "" && (s[0] >= '0' && s[0] <= '9' || s[0] == '.') }

func (m *mathRef) unit() (float64, bool) {
	switch p := m.peek(); {
	case isDigit(p):
		m.i++
		f, _ := strconv.ParseFloat(p, 64)
		return f, true
	case p == "+" || p == "-":
		m.i++
		n := m.peek()
		if !isDigit(n) {
			return 0, false
		}
		m.i++
		f, _ := strconv.ParseFloat(n, 64)
		if p == "-" {
			f = -f
		}
		return f, true
	case p == "(":
		m.i++
		f, ok := m.sum()
		if !ok || m.peek() != ")" {
			return 0, false
		}
		m.i++
		return f, true
	}
	return 0, false
}

func (m *mathRef) prod() (float64, bool) {
	f, ok := m.unit()
	for ok && (m.peek() == "*" || m.peek() == "/") {
		o := m.peek()
		m.i++
		var g float64
		g, ok = m.unit()
		if o == "*" {
			f *= g
		} else {
			f /= g
		}
	}
	return f, ok
}

func (m *mathRef) sum() (float64, bool) {
	f, ok := m.prod()
	for ok && (m.peek() == "+" || m.peek() == "-") {
		o := m.peek()
		m.i++
		var g float64
		g, ok = m.prod()
		if o == "+" {
			f += g
		} else {
			f -= g
		}
	}
	return f, ok
}

func runC24(c *Ctx) {
	one := func(t []string) {
		tt := append([]string{}, t...)
		for style := 0; style < 2; style++ {
			sep := " "
			if style == 1 {
				adj := false
				for i := 1; i < len(tt); i++ {
					adj = adj || isDigit(tt[i]) && isDigit(tt[i-1])
				}
				if adj || len(tt) > 6 {
					continue
				}
				sep = ""
			}
			text := strings.Join(tt, sep)
			c.Case(func() string { return text }, func() string {
				m := &mathRef{t: tt}
				want, ok := m.sum()
				ok = ok && m.i == len(tt)
				c.Trans(1)
				got, err := parlexmath.Eval(text)
				if !ok {
					if err == nil {
						return fmt.Sprintf("accepted, giving %v", got)
					}
					return ""
				}
				if len(tt) > 4 {
					c.NonTrivial()
				}
				if err != nil {
					return "refused: " + err.Error()
				}
				c.OutcomeS(fmt.Sprint(got))
				if got != want && !(math.IsNaN(got) && math.IsNaN(want)) {
					return fmt.Sprintf("= %v, expected %v", got, want)
				}
				return ""
			})
		}
	}
	seqs := func(toks []string, max int) {
		eachSeq(len(toks), 2, func(head []int) {
			if !c.Unit() {
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				p := make([]string, len(seq))
				for i, k := range seq {
					p[i] = toks[k]
				}
				one(p)
				if len(head) == 2 && len(seq) < max {
					for i := range toks {
						rec(append(seq, i))
					}
				}
			}
			rec(append([]int{}, head...))
		})
	}
	hugeC24(c, one)
	a, b, n := 6, 7, 7
	if c.Thorough {
		a, b, n = 7, 9, 9
	}
	c.Space("token sequences")
	seqs([]string{"7", ".5", "0", "+", "-", "*", "/", "(", ")"}, a)
	c.Space("token sequences, 5 tokens")
	seqs([]string{"3", "-", "*", "(", ")"}, b)
	c.Space("operator chains")
	ops := []string{"+", "-", "*", "/"}
	nums := []string{"2", "3", "5", "7", "11", "13", "17", "19", "23", "29"}
	for k := 1; k <= n; k++ {
		for m := 0; m < pow(4, k); m++ {
			if !c.Unit() {
				continue
			}
			t := []string{nums[0]}
			x := m
			for i := 0; i < k; i++ {
				t = append(t, ops[x%4], nums[i+1])
				x /= 4
			}
			one(t)
			if k <= 4 {
				// every way to put one pair of parentheses
				for i := 0; i <= k; i++ {
					for j := i; j <= k; j++ {
						p := append([]string{}, t[:2*i]...)
						p = append(p, "(")
						p = append(p, t[2*i:2*j+1]...)
						p = append(p, ")")
						p = append(p, t[2*j+1:]...)
						one(p)
					}
				}
			}
		}
	}
	c.Space("not lexable")
	for _, t := range []string{"1$2", "a", "1 + b", "1.", "2 ^ 3", "\x00", "1 + 2 =", "", " "} {
		t := t
		if c.Unit() {
			c.Case(func() string { return strconv.Quote(t) }, func() string {
				c.Trans(1)
				if v, err := parlexmath.Eval(t); err == nil {
					return fmt.Sprint("accepted, giving ", v)
				}
				return ""
			})
		}
	}
}

type pf struct {
	v float64
	p int
}

func maxP(s ...pf) int {
	m := 0
	for _, x := range s {
		if x.p > m {
			m = x.p
		}
	}
	return m
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// rpn is the reference stack machine.
func rpn(t []string) ([]pf, bool) {
	st := []pf{}
	for _, x := range t {
		n := len(st)
		switch x {
		case "--", "abs":
			if n < 1 {
				return nil, false
			}
			if x == "--" || st[n-1].v < 0 {
				st[n-1].v = -st[n-1].v
			}
		case "+", "-", "*", "/", "^", "%", ">", "<", "=", "cmpr":
			if n < 2 {
				return nil, false
			}
			a, b := st[n-2], st[n-1]
			r := pf{p: maxP(a, b)}
			switch x {
			case "+":
				r.v = a.v + b.v
			case "-":
				r.v = a.v - b.v
			case "*":
				r.v = a.v * b.v
			case "/":
				r.v = a.v / b.v
			case "^":
				r.v = math.Pow(a.v, b.v)
			case "%":
				r.v = math.Mod(a.v, b.v)
			case ">":
				r.v = b2f(a.v > b.v)
			case "<":
				r.v = b2f(a.v < b.v)
			case "=":
				r.v = b2f(a.v == b.v)
			case "cmpr":
				r.v = b2f(a.v > b.v) - b2f(a.v < b.v)
			}
			st = append(st[:n-2], r)
		default:
			f, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return nil, false
			}
			p := 0
			if i := strings.IndexByte(x, '.'); i >= 0 {
				p = len(x) - i - 1
			}
			st = append(st, pf{f, p})
		}
	}
	return st, true
}

func runC25(c *Ctx) {
	cmp := func(got []scalc.Pfloat, want []pf) string {
		if len(got) != len(want) {
			return fmt.Sprintf("stack is %v, expected %v", got, want)
		}
		for i, w := range want {
			if (got[i].V != w.v && !(math.IsNaN(got[i].V) && math.IsNaN(w.v))) || got[i].P != w.p {
				return fmt.Sprintf("stack is %v, expected %v", got, want)
			}
		}
		return ""
	}
	one := func(t []string) {
		tt := append([]string{}, t...)
		text := strings.Join(tt, " ")
		c.Case(func() string { return text }, func() string {
			want, ok := rpn(tt)
			c.Trans(1)
			got := scalc.Eval(text)
			if !ok {
				if got != nil {
					return fmt.Sprint("evaluates to ", got)
				}
				return ""
			}
			if len(tt) > 3 {
				c.NonTrivial()
			}
			if got == nil {
				return "refused"
			}
			c.OutcomeS(fmt.Sprint(got))
			return cmp(got, want)
		})
		if len(tt) > 4 {
			return
		}
		for _, op := range []string{"len", "sum", "avg", "min", "max", "first", "last"} {
			op := op
			text := text + " " + op
			c.Case(func() string { return text }, func() string {
				st, ok := rpn(tt)
				c.Trans(1)
				got := scalc.Eval(text)
				if !ok {
					if got != nil {
						return fmt.Sprint("evaluates to ", got)
					}
					return ""
				}
				var r pf
				switch op {
				case "len":
					r.v = float64(len(st))
				case "sum", "avg":
					r.p = maxP(st...)
					for _, x := range st {
						r.v += x.v
					}
					if op == "avg" && len(st) > 0 {
						r.v /= float64(len(st))
					}
				case "min", "max":
					for i, x := range st {
						if i == 0 || op == "min" && x.v < r.v || op == "max" && x.v > r.v {
							r = x
						}
					}
				case "last":
					if len(st) > 0 {
						r = st[0]
					}
				case "first":
					if len(st) > 0 {
						r = st[len(st)-1]
					}
				}
				return cmp(got, []pf{r})
			})
		}
	}
	seqs := func(toks []string, max int) {
		eachSeq(len(toks), 2, func(head []int) {
			if !c.Unit() {
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				p := make([]string, len(seq))
				for i, k := range seq {
					p[i] = toks[k]
				}
				one(p)
				if len(head) == 2 && len(seq) < max {
					for i := range toks {
						rec(append(seq, i))
					}
				}
			}
			rec(append([]int{}, head...))
		})
	}
	a, b := 5, 7
	if c.Thorough {
		a, b = 6, 10
	}
	hugeC25(c, one)
	c.Space("15 tokens")
	seqs([]string{"2", "-3.25", "+7.5", "--", "abs", "+", "-", "*", "/", "^", "%", ">", "<", "=", "cmpr"}, a)
	c.Space("4 tokens")
	seqs([]string{"2", "3.5", "-", "--"}, b)
}
