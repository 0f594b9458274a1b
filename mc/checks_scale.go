package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// sizes is the range of the parameter of the scaled families: every small
// value, and the neighbourhoods of the powers of two.
func sizes(thorough bool, max int) (out []int) {
	for n := 1; n <= max; n++ {
		near := false
		for _, p := range []int{32, 64, 128, 256, 512, 1024} {
			near = near || n >= p-1 && n <= p+2
		}
		if n <= 20 || near || n%100 == 0 || thorough && n <= 300 {
			out = append(out, n)
		}
	}
	return
}

// scaled is a grammar of a parametric family with words whose membership is
// known by construction.
type scaled struct {
	name string
	g    *CFG
	in   []int
	want bool
}

// scaledParse builds the members of size n. They are unambiguous unless told
// otherwise and not left recursive unless lr.
func scaledParse(n int, lr bool) (out []scaled) {
	names := func(nts, ts []string) *CFG { return &CFG{N: len(nts), T: len(ts), names: append(nts, ts...)} }
	rep := func(k int, w ...int) (o []int) {
		for i := 0; i < k; i++ {
			o = append(o, w...)
		}
		return
	}
	two := func(name string, g *CFG, yes, no []int) {
		out = append(out, scaled{name, g, yes, true}, scaled{name, g, no, false})
	}
	// lists of n items
	if lr {
		g := names([]string{"L"}, []string{"i", ","})
		g.P = [][][]int{{{0, 2, 1}, {1}}}
		w := append([]int{1}, rep(n-1, 2, 1)...)
		two("left list", g, w, append(w[:len(w):len(w)], 2))
	}
	g := names([]string{"L"}, []string{"i", ","})
	g.P = [][][]int{{{1, 2, 0}, {1}}}
	w := append([]int{1}, rep(n-1, 2, 1)...)
	two("right list", g, w, append(w[:len(w):len(w)], 2))
	// n open brackets
	g = names([]string{"S"}, []string{"(", ")", "x"})
	g.P = [][][]int{{{1, 0, 2}, {3}}}
	w = append(append(rep(n, 1), 3), rep(n, 2)...)
	two("nesting", g, w, w[:len(w)-1])
	// a chain of n unit productions
	var nts []string
	for i := 0; i < n; i++ {
		nts = append(nts, "N"+strconv.Itoa(i))
	}
	g = names(nts, []string{"x", "y"})
	for i := 0; i < n; i++ {
		if i < n-1 {
			g.P = append(g.P, [][]int{{i + 1}})
		} else {
			g.P = append(g.P, [][]int{{n}})
		}
	}
	two("unit chain", g, []int{n}, []int{n + 1})
	// n alternatives, n terminals
	var ts []string
	for i := 0; i <= n; i++ {
		ts = append(ts, "t"+strconv.Itoa(i))
	}
	g = names([]string{"S"}, ts)
	g.P = [][][]int{nil}
	for i := 0; i < n; i++ {
		g.P[0] = append(g.P[0], []int{1 + i})
	}
	for _, k := range []int{0, n / 2, n - 1} {
		out = append(out, scaled{"alternatives", g, []int{1 + k}, true})
	}
	out = append(out, scaled{"alternatives", g, []int{1 + n}, false})
	// one production of n symbols
	g = names([]string{"S"}, ts)
	g.P = [][][]int{{nil}}
	for i := 0; i < n; i++ {
		g.P[0][0] = append(g.P[0][0], 1+i)
	}
	w = g.P[0][0]
	two("long production", g, w, append(append([]int{}, w[:n-1]...), 1+n))
	// n symbols that derive nothing before the only terminal
	g = names([]string{"S", "N"}, []string{"x", "n"})
	g.P = [][][]int{{append(rep(n, 1), 2)}, {{3}, {}}}
	two("empty symbols", g, []int{2}, []int{3})
	// n levels that each find out late that they took the wrong production
	nts = nil
	for i := 0; i <= n; i++ {
		nts = append(nts, "N"+strconv.Itoa(i))
	}
	g = names(nts, []string{"x", "y", "z"})
	for i := 0; i < n; i++ {
		g.P = append(g.P, [][]int{{i + 1, n + 1}, {i + 1, n + 2}})
	}
	g.P = append(g.P, [][]int{{n + 3}})
	w = append([]int{n + 3}, rep(n, n+2)...)
	two("late choices", g, w, append(w[:len(w):len(w)], n+3))
	if lr && n <= 66 {
		// every bracketing of n symbols
		g = names([]string{"S"}, []string{"x", "y"})
		g.P = [][][]int{{{0, 0}, {1}}}
		two("bracketings", g, rep(n, 1), append(rep(n, 1), 2))
		g = names([]string{"S"}, []string{"x", "y"})
		g.P = [][][]int{{{0, 0, 0}, {0, 0}, {1}, {}}}
		if n <= 34 {
			two("bracketings with empty symbols", g, rep(n, 1), append(rep(n, 1), 2))
		}
	}
	// n unknown kinds in the input
	g = names([]string{"S"}, ts)
	g.P = [][][]int{{{1, 0}, {1}}}
	out = append(out, scaled{"unknown kinds", g, rng(1, n+2), false})
	return
}

func scaleParsers(c *Ctx, lr bool, run func(s scaled) string) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled grammars and inputs")
		if !c.Unit() {
			continue
		}
		for _, s := range scaledParse(n, lr) {
			s := s
			c.Case(func() string { return fmt.Sprintf("%s of size %d, in the language: %v", s.name, n, s.want) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				return run(s)
			})
		}
	}
}

func scaleC01(c *Ctx) {
	scaleParsers(c, true, func(s scaled) string {
		n := packrat.New(s.g.Build()).Parse(s.g.lexemes(s.in))
		if (n != nil) != s.want {
			return fmt.Sprintf("Parse returned a tree: %v", n != nil)
		}
		return ""
	})
}

func scaleC02(c *Ctx) {
	scaleParsers(c, true, func(s scaled) string {
		lx := s.g.lexemes(s.in)
		n := packrat.New(s.g.Build()).Parse(lx)
		if n == nil {
			return ""
		}
		return faithful(s.g, n, lx, true)
	})
}

func scaleC03(c *Ctx) {
	c.Space("scaled ambiguity")
	max := 24
	if c.Thorough {
		max = 40
	}
	for n := 2; n <= max; n++ {
		if !c.Unit() {
			continue
		}
		n := n
		// n operands of one operator associate to the left
		c.Case(func() string { return fmt.Sprintf("%d operands", n) }, func() string {
			g := parseCFG("E -> E + E\n -> n")
			var in []int
			for i := 0; i < n; i++ {
				if i > 0 {
					in = append(in, g.sym("+"))
				}
				in = append(in, g.sym("n"))
			}
			c.Trans(1)
			c.NonTrivial()
			t := packrat.New(g.Build()).Parse(g.lexemes(in))
			for i := n; i > 1; i-- {
				if isNil(t) || t.Children() != 3 || t.Child(2).Children() != 1 {
					return "not associated to the left: " + renderPN(g, t)
				}
				t = t.Child(0)
			}
			return ""
		})
		// the earliest of n alternatives that all match
		c.Case(func() string { return fmt.Sprintf("%d alternatives", n) }, func() string {
			for k := 0; k < n; k++ {
				text := "S"
				for i := 0; i < n; i++ {
					if i < k {
						text += fmt.Sprintf(" -> A%d y\n", i)
					} else {
						text += fmt.Sprintf(" -> A%d\n", i)
					}
				}
				for i := 0; i < n; i++ {
					text += fmt.Sprintf("A%d -> x\n", i)
				}
				g := parseCFG(text)
				c.Trans(1)
				t := packrat.New(g.Build()).Parse(g.lexemes([]int{g.sym("x")}))
				if isNil(t) || t.Children() != 1 || t.Child(0).Kind().String() != fmt.Sprintf("A%d", k) {
					return fmt.Sprintf("production %d of %d is the first that matches; got %s", k, n, renderPN(g, t))
				}
			}
			return ""
		})
	}
}

func scaleC05(c *Ctx) {
	scaleParsers(c, false, func(s scaled) string {
		p, err := topdown.New(s.g.Build())
		if err != nil {
			return err.Error()
		}
		lx := s.g.lexemes(s.in)
		n := p.Parse(lx)
		if isNil(n) == s.want {
			return fmt.Sprintf("Parse returned a tree: %v", !s.want)
		}
		if s.want {
			return faithful(s.g, n, lx, false)
		}
		return ""
	})
}

// scaleChains are chains of n symbols closed (left recursive) or not, plain or
// behind n nullable symbols.
func scaleChains(n int) (out []*CFG) {
	for shape := 0; shape < 3; shape++ {
		for closed := 0; closed < 2; closed++ {
			g := &CFG{T: 1}
			for i := 0; i <= n; i++ {
				g.names = append(g.names, "N"+strconv.Itoa(i))
			}
			g.N = n + 1
			t := g.N
			g.names = append(g.names, "t")
			last := n - 1
			for i := 0; i < n; i++ {
				next := i + 1
				if i == last {
					next = t
					if closed == 1 {
						next = 0
					}
				}
				var p []int
				switch shape {
				case 1: // each behind one nullable symbol
					p = append(p, n)
				case 2: // the last one behind n nullable symbols
					if i == last {
						for k := 0; k < n; k++ {
							p = append(p, n)
						}
					}
				}
				g.P = append(g.P, [][]int{append(p, next, t), {t}})
			}
			g.P = append(g.P, [][]int{{t, t}, {}})
			out = append(out, g)
		}
	}
	return
}

func scaleC04(c *Ctx) {
	for _, n := range sizes(c.Thorough, 130) {
		c.Space("scaled chains")
		if !c.Unit() {
			continue
		}
		for _, g := range scaleChains(n) {
			g := g
			c.Case(func() string {
				return fmt.Sprintf("chain of %d symbols, %s ...", n, strings.SplitN(g.Text(), "\n", 2)[0])
			}, func() string {
				want := g.leftRecursive()
				c.Trans(2)
				c.NonTrivial()
				for i, rg := range []parlex.Grammar{g.Build(), g.BuildIface()} {
					if parlex.IsLeftRecursive(rg) != want {
						return fmt.Sprintf("implementation %d: IsLeftRecursive = %v", i, !want)
					}
					if _, err := topdown.New(rg); (err != nil) != want {
						return fmt.Sprintf("implementation %d: topdown.New: %v", i, err)
					}
				}
				return ""
			})
		}
	}
}

// scaleC06: n recursive alternatives, and recursion through n symbols.
func scaleC06(c *Ctx) {
	for _, n := range sizes(c.Thorough, 130) {
		c.Space("scaled recursion")
		if !c.Unit() {
			continue
		}
		for _, lp := range []bool{false, true} {
			lp := lp
			c.Case(func() string { return fmt.Sprintf("size %d, through %v symbols", n, lp) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				var b strings.Builder
				var yes, no []string
				if lp {
					yes = []string{"x"}
					for i := 0; i < n-1; i++ {
						fmt.Fprintf(&b, "N%d -> N%d t%d\n", i, i+1, i)
					}
					fmt.Fprintf(&b, "N%d -> N0 b\n -> x\n", n-1)
					var loop []string
					for i := n - 2; i >= 0; i-- {
						loop = append(loop, fmt.Sprint("t", i))
					}
					no = []string{"b", "x"}
					yes = append(append(append(yes, loop...), "b"), loop...)
				} else {
					yes = []string{"x"}
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "N0 -> N0 t%d\n", i)
						yes = append(yes, fmt.Sprint("t", i))
					}
					b.WriteString(" -> x\n")
					no = append(append([]string{}, yes...), "x")
				}
				g, err := grammar.New(b.String())
				if err != nil {
					return err.Error()
				}
				text := g.String()
				out := grammar.RemoveLeftRecursion(g)
				if g.String() != text {
					return "the argument was changed"
				}
				if parlex.IsLeftRecursive(out) {
					return "the result is left recursive"
				}
				td, err := topdown.New(out)
				if err != nil {
					return err.Error()
				}
				for _, p := range []parlex.Parser{td, packrat.New(out)} {
					if isNil(p.Parse(kindLexemes(yes))) {
						return fmt.Sprintf("%T refuses a word of the language", p)
					}
					if !isNil(p.Parse(kindLexemes(no))) {
						return fmt.Sprintf("%T accepts a word not in the language", p)
					}
				}
				return ""
			})
		}
	}
}

func scaleC18(c *Ctx) {
	for _, n := range sizes(c.Thorough, 66) {
		c.Space("scaled chains")
		if !c.Unit() {
			continue
		}
		for _, g := range scaleChains(n) {
			g := g
			c.Case(func() string { return fmt.Sprintf("chain of %d symbols", n) }, func() string {
				c.NonTrivial()
				return checkAnalyze(c, g, g.Build(), "grammar.Grammar")
			})
		}
	}
	// one symbol with n firsts, directly and through others, and n symbols
	// with one first
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled stars")
		if !c.Unit() {
			continue
		}
		for shape := 0; shape < 4; shape++ {
			g := &CFG{N: n + 2, T: n + 1}
			for i := 0; i < g.N; i++ {
				g.names = append(g.names, "N"+strconv.Itoa(i))
			}
			for i := 0; i < g.T; i++ {
				g.names = append(g.names, "t"+strconv.Itoa(i))
			}
			t := func(i int) int { return g.N + i }
			g.P = make([][][]int, g.N)
			for i := 0; i < n; i++ {
				x := i + 2
				switch shape {
				case 0: // 0 -> every symbol, each with a first of its own
					g.P[0] = append(g.P[0], []int{x, t(n)})
					g.P[x] = [][]int{{t(i)}}
				case 1: // the same with nullable symbols in one production
					if i == 0 {
						g.P[0] = append(g.P[0], nil)
					}
					g.P[0][0] = append(g.P[0][0], x)
					g.P[x] = [][]int{{t(i)}, {}}
				case 2: // all have the firsts of 1, which has all
					g.P[0] = append(g.P[0], []int{t(n), x})
					g.P[1] = append(g.P[1], []int{t(i)})
					g.P[x] = [][]int{{1}, {x, t(n)}}
				case 3: // the last of many productions
					g.P[0] = append(g.P[0], []int{t(n), x})
					g.P[x] = [][]int{{t(n)}}
					if i == n-1 {
						g.P[0] = append(g.P[0], []int{x, t(0)}, []int{1})
					}
				}
			}
			if shape != 2 {
				g.P[1] = [][]int{{t(n), 0}, {0, 0, t(0)}, {}}
			}
			c.Case(func() string { return fmt.Sprintf("star %d of %d symbols", shape, n) }, func() string {
				c.NonTrivial()
				return checkAnalyze(c, g, g.Build(), "grammar.Grammar")
			})
		}
	}
}

func scaleC07(c *Ctx) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled grammars")
		if !c.Unit() {
			continue
		}
		for shape := 0; shape < 4; shape++ {
			n, shape := n, shape
			c.Case(func() string {
				return fmt.Sprintf("shape %d (productions, non-terminals, symbols, name length) of size %d", shape, n)
			}, func() string {
				m := newGmodel()
				byAdd := grammar.Empty()
				var lines []string
				add := func(nt string, w ...string) {
					lines = append(lines, nt+" -> "+strings.Join(w, " "))
					m.add(nt, w)
					p := stringsymbol.Production{}
					for _, s := range w {
						p = append(p, stringsymbol.Symbol(s))
					}
					byAdd.Add(stringsymbol.Symbol(nt), p)
				}
				switch shape {
				case 0:
					for i := 0; i < n; i++ {
						add("A", "x", fmt.Sprint("t", i))
					}
					add("B", "A")
				case 1:
					for i := 0; i < n; i++ {
						add(fmt.Sprint("N", i), fmt.Sprint("N", (i+1)%n), "x")
						add(fmt.Sprint("N", i))
					}
				case 2:
					var w []string
					for i := 0; i < n; i++ {
						w = append(w, fmt.Sprint("t", i%7))
					}
					add("A", w...)
					add("B", "A")
				case 3:
					add("A", strings.Repeat("B", n))
					add(strings.Repeat("B", n), "é", strings.Repeat("c", n))
				}
				c.Trans(2)
				c.NonTrivial()
				g, err := grammar.New(strings.Join(lines, "\n"))
				if err != nil {
					return err.Error()
				}
				if bad := checkGrammarObject(g, m); bad != "" {
					return bad
				}
				if bad := checkGrammarObject(byAdd, m); bad != "" {
					return "built with Add: " + bad
				}
				return ""
			})
		}
	}
}

// scaledRx is a regex notation of size n with words in and not in its language.
type scaledRx struct {
	name    string
	rs      []rxRule
	yes, no []string
}

func scaledRules(n int) (out []scaledRx) {
	var seq, alts, reps []*rx
	var sw, aw []string
	d := sy("x")
	for i := 0; i < n; i++ {
		w := []string{"x", "y", "z"}[i%3]
		s := sy(w)
		seq = append(seq, s)
		sw = append(sw, w)
		alts = append(alts, sy(fmt.Sprint("t", i)))
		aw = append(aw, fmt.Sprint("t", i))
		d = grp(d)
		reps = append(reps, star(s))
	}
	cat := func(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }
	out = append(out,
		scaledRx{"sequence", []rxRule{rule("S", seq...)}, sw, cat(sw, "x")},
		scaledRx{"nested groups", []rxRule{rule("S", d, sy("y"))}, []string{"x", "y"}, []string{"x"}},
		scaledRx{"repeated sequence", []rxRule{rule("S", star(grp(seq...)), sy("e"))}, cat(cat(sw, sw...), "e"), sw},
		scaledRx{"repetitions", []rxRule{rule("S", reps...)}, []string{sw[n-1], sw[n-1]}, []string{sw[0], "e"}},
		scaledRx{"long repetition", []rxRule{rule("S", star(sy("x")), sy("e"))}, cat(strings.Fields(strings.Repeat("x ", n)), "e"), strings.Fields(strings.Repeat("x ", n))},
	)
	out[3].no = []string{"e"}
	out[3].rs = append(out[3].rs, rule("T", sy("e")))
	if n > 1 {
		out = append(out,
			scaledRx{"alternatives", []rxRule{rule("S", alt(alts...))}, aw[n-1:], aw[:2]},
			scaledRx{"repeated alternatives", []rxRule{rule("S", star(grp(alt(alts...))), sy("e"))}, cat(aw, "e"), aw})
	}
	var lines rxRule
	lines.nt = "S"
	for i := 0; i < n; i++ {
		lines.alts = append(lines.alts, []*rx{opt(sy("x")), alts[i]})
	}
	out = append(out, scaledRx{"rule lines", []rxRule{lines}, []string{"x", aw[n-1]}, []string{"x"}})
	var rs []rxRule
	nm := func(i int) string {
		if i == 0 {
			return "S"
		}
		return fmt.Sprint("N", i)
	}
	for i := 0; i < n; i++ {
		rs = append(rs, rule(nm(i), star(sy("x")), sy(nm(i+1))))
	}
	rs = append(rs, rule(nm(n), sy("y")))
	out = append(out, scaledRx{"rules", rs, []string{"x", "x", "y"}, []string{"y", "x"}})
	return
}

func scaleRx(c *Ctx, f func(n int, s scaledRx) string) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled notations")
		if !c.Unit() {
			continue
		}
		for _, s := range scaledRules(n) {
			s := s
			if s.name == "repetitions" && n > 130 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s of size %d", s.name, n) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				return f(n, s)
			})
		}
	}
}

func kindLexemes(w []string) (out []parlex.Lexeme) {
	for i, k := range w {
		out = append(out, lexeme.String(k).Set(fmt.Sprint("v", i)).At(1, i+1))
	}
	return
}

func scaleC08(c *Ctx) {
	scaleRx(c, func(n int, s scaledRx) string {
		g, r, err := regexgram.New(rulesText(s.rs))
		if err != nil || g == nil || r == nil {
			return fmt.Sprint("New: ", err)
		}
		rg := readGrammar(g)
		if rg.N == 0 || rg.name(0) != "S" {
			return "start symbol is not S"
		}
		if bad := rxOrder(s.rs, rg); bad != "" {
			return bad
		}
		p := packrat.New(g)
		if p.Parse(kindLexemes(s.yes)) == nil {
			return "a word of the language is not generated"
		}
		if p.Parse(kindLexemes(s.no)) != nil {
			return "a word not in the language is generated"
		}
		return ""
	})
}

func scaleC09(c *Ctx) {
	scaleRx(c, func(n int, s scaledRx) string {
		g, r, err := regexgram.New(rulesText(s.rs))
		if err != nil || g == nil || r == nil {
			return fmt.Sprint("New: ", err)
		}
		lx := kindLexemes(s.yes)
		pn := packrat.New(g).Parse(lx)
		if isNil(pn) {
			return "no parse"
		}
		out := r.Reduce(pn)
		if isNil(out) {
			return "reduced to nil"
		}
		return flatTree(s.rs, out, lx)
	})
}

// indexC17: every operation with large indices on trees that are wide enough,
// and rules that are given more than once.
func indexC17(c *Ctx) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("large indices")
		if !c.Unit() {
			continue
		}
		t := &rt{kind: "A"}
		for i := 0; i <= n+1; i++ {
			x := &rt{kind: []string{"B", "C", "D"}[i%3], val: fmt.Sprint(i), l: i, c: 2}
			for j := 0; j <= i%3; j++ {
				x.ch = append(x.ch, &rt{kind: "E", val: fmt.Sprint(i, j)})
			}
			t.ch = append(t.ch, x)
		}
		t.ch[n].kind, t.ch[1].kind = "Y", "Z"
		run := func(prog string, f func(t *rt)) {
			c.Case(func() string { return fmt.Sprintf("%s on %d children", prog, n+2) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				r, err := reducer.Parse(prog)
				if err != nil {
					return err.Error()
				}
				return refReduce(t, map[string]func(*rt){"A": f}).diff(r.Reduce(t.pn()), true)
			})
		}
		for _, i := range []int{n, -n - 1, n + 2, -n - 3} {
			for _, o := range opsFor([]int{i}, [][]int{{0, i}, {i, i}, {i, 1, -1}}, nil) {
				o := o
				run("A "+o.dsl, func(t *rt) { o.ref(t) })
			}
			for _, k := range []string{"Y", "Z", "B", "C"} {
				i, k := i, k
				run(fmt.Sprintf("A If(ChildIs(%d, %q), RemoveChild(0), RemoveChild(-1))", i, k), func(t *rt) {
					if j, ok := refIdx(t, i); ok && t.ch[j].kind == k {
						t.ch = t.ch[1:]
					} else {
						t.ch = t.ch[:len(t.ch)-1]
					}
				})
			}
		}
	}
	c.Space("repeated rules")
	ops := opsFor([]int{0, -1}, nil, nil)
	for _, a := range ops {
		for _, b := range ops {
			if !c.Unit() {
				continue
			}
			for _, form := range []string{"A %s\nA %s", "A %s\nB Nil\nA %s", "B RemoveChild(0)\nA Nil\nA %s\nA %s\nB Nil"} {
				a, b := a, b
				prog := fmt.Sprintf(form, a.dsl, b.dsl)
				c.Case(func() string { return prog }, func() string {
					c.Trans(1)
					r, err := reducer.Parse(prog)
					if err != nil {
						return err.Error()
					}
					t := &rt{kind: "A", val: "r", ch: []*rt{{kind: "B", val: "1", ch: []*rt{{kind: "C", val: "2"}, {kind: "C", val: "3"}}}, {kind: "D", val: "4"}, {kind: "A", val: "5", ch: []*rt{{kind: "E", val: "6"}}}}}
					return refReduce(t, map[string]func(*rt){"A": func(t *rt) { b.ref(t) }}).diff(r.Reduce(t.pn()), true)
				})
			}
		}
	}
}

// scaleC17: long chains, many rules, many arguments, deep conditionals.
func scaleC17(c *Ctx) {
	for _, n := range sizes(c.Thorough, 130) {
		c.Space("scaled programs")
		if !c.Unit() {
			continue
		}
		wide := &rt{kind: "A"}
		for i := 0; i < n+2; i++ {
			wide.ch = append(wide.ch, &rt{kind: []string{"B", "C", "D"}[i%3], val: fmt.Sprint(i)})
		}
		deep := &rt{kind: "A", val: "0"}
		for i := 1; i <= n+1; i++ {
			deep = &rt{kind: "A", val: fmt.Sprint(i), ch: []*rt{deep}}
		}
		kinds := &rt{kind: "A"}
		var rules, nums, strs []string
		m := map[string]func(*rt){}
		for i := 0; i < n; i++ {
			k := fmt.Sprint("K", i)
			kinds.ch = append(kinds.ch, &rt{kind: k, ch: []*rt{{kind: "x", val: k}, {kind: "y"}}})
			rules = append(rules, fmt.Sprintf("%s RemoveChild(%d)", k, i%3))
			i := i
			m[k] = func(t *rt) {
				if j := i % 3; j < len(t.ch) {
					t.ch = append(append([]*rt{}, t.ch[:j]...), t.ch[j+1:]...)
				}
			}
			if i%2 == 0 {
				nums = append(nums, fmt.Sprint(i))
				strs = append(strs, fmt.Sprintf("%q", k))
			}
		}
		run := func(name, prog string, t *rt, m map[string]func(*rt)) {
			c.Case(func() string { return fmt.Sprintf("%s of size %d", name, n) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				r, err := reducer.Parse(prog)
				if err != nil {
					return err.Error()
				}
				if len(r) != len(m) {
					return fmt.Sprintf("%d rules, expected %d", len(r), len(m))
				}
				return refReduce(t, m).diff(r.Reduce(t.pn()), true)
			})
		}
		run("chain", "A "+strings.Repeat("RemoveChild(0).", n-1)+"RemoveChild(0)", wide, map[string]func(*rt){"A": func(t *rt) { t.ch = t.ch[n:] }})
		run("rules", strings.Join(rules, "\n"), kinds, m)
		run("number arguments", "A RemoveChildren("+strings.Join(nums, ", ")+")", kinds, map[string]func(*rt){"A": func(t *rt) {
			var o []*rt
			for i, x := range t.ch {
				if i%2 == 1 {
					o = append(o, x)
				}
			}
			t.ch = o
		}})
		run("string arguments", "A RemoveAll("+strings.Join(strs, ",")+")", kinds, map[string]func(*rt){"A": func(t *rt) {
			var o []*rt
			for i, x := range t.ch {
				if i%2 == 1 {
					o = append(o, x)
				}
			}
			t.ch = o
		}})
		cond := "A " + strings.Repeat("If(ChildIs(0,\"B\"),", n) + "RemoveChild(-1)" + strings.Repeat(",Nil)", n)
		run("nested conditionals", cond, wide, map[string]func(*rt){"A": func(t *rt) { t.ch = t.ch[:len(t.ch)-1] }})
		other := "A " + strings.Repeat("If(ChildIs(0,\"C\"),Nil,", n) + "RemoveChild(1)" + strings.Repeat(")", n)
		run("nested else", other, wide, map[string]func(*rt){"A": func(t *rt) { t.ch = append(t.ch[:1:1], t.ch[2:]...) }})
		run("deep tree", "A PromoteSingleChild()", deep, map[string]func(*rt){"A": func(t *rt) {
			if len(t.ch) == 1 {
				*t = *t.ch[0]
			}
		}})
	}
}

// blowWords are the words of up to four letters with every letter n times.
func blowWords(n int) (out []string) {
	for _, w := range strWords([]string{"a", " ", "?", "\n", "(", ")"}, 4) {
		var b strings.Builder
		for _, r := range w {
			b.WriteString(strings.Repeat(string(r), n))
		}
		out = append(out, b.String())
	}
	return
}

func blowDefs() (out []*simpleDef) {
	for pri := 0; pri < 2; pri++ {
		out = append(out,
			&simpleDef{priority: pri == 1, rules: []lrule{{kind: "w", src: `\w+`}, {kind: "s", src: `\s+`, discard: true}, {kind: "p", src: `\(+`}}},
			&simpleDef{priority: pri == 1, ins: [4]string{"a", "", "a", ""}, rules: []lrule{{kind: "a", src: `a`}, {kind: "s", src: ` `, discard: true}, {kind: "n", src: `\n`}, {kind: "o", src: `\(`, discard: true}}},
			&simpleDef{priority: pri == 1, rules: []lrule{{kind: "aa", src: `aa`}, {kind: "x", src: `[a \n]+\(`}, {kind: "n", src: ` *\n`, discard: true}}})
	}
	return
}

func scaleC10(c *Ctx, f func(d *simpleDef, in string)) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled inputs and rule lists")
		if !c.Unit() {
			continue
		}
		std := &simpleDef{rules: []lrule{{kind: "w", src: `\w+`}, {kind: "s", src: `\s+`, discard: true}, {kind: "q", src: `"[^"]*"`}}}
		for _, in := range []string{
			strings.Repeat("ab ", n), strings.Repeat("a", n) + " b", strings.Repeat("\n", n) + "b", strings.Repeat(" ", n) + "b\nc", strings.Repeat("?", n) + "b?",
			strings.Repeat("a?", n), `"` + strings.Repeat("\n", n) + `" b ?`, strings.Repeat("a\n?", n),
		} {
			f(std, in)
			f(&simpleDef{priority: true, rules: append([]lrule{{kind: "k", src: "ab?"}}, std.rules...)}, in)
			f(&simpleDef{priority: true, rules: append([]lrule{{kind: "n", src: `\n`, discard: true}, {kind: "e", src: `[? ]`}}, std.rules...)}, in)
		}
		if n == 2 || n == 5 || n == 11 || n == 18 || n == 33 || c.Thorough && n < 70 {
			for _, d := range blowDefs() {
				for _, w := range blowWords(n) {
					f(d, w)
				}
			}
		}
		for pri := 0; pri < 2; pri++ {
			many := &simpleDef{priority: pri == 1}
			for i := 0; i < n; i++ {
				many.rules = append(many.rules, lrule{kind: fmt.Sprint("k", i), src: fmt.Sprintf("a{%d}b", 1+(i*7)%n), discard: i%5 == 4})
			}
			many.rules = append(many.rules, lrule{kind: "a", src: "a+"}, lrule{kind: "ab", src: "a+b"})
			f(many, strings.Repeat("a", n)+"b"+strings.Repeat("a", n/2)+"baab")
		}
	}
}

func scaleC11(c *Ctx, mode func(d *stackDef, ins []string)) {
	f := func(d *stackDef, ins []string) {
		mode(d, ins)
		p := *d
		p.priority = true
		mode(&p, ins)
	}
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled inputs, stacks and definitions")
		if !c.Unit() {
			continue
		}
		d := &stackDef{subs: []subDef{
			{"Main", []lrule{{kind: "o", src: `\(`, push: "In"}, {kind: "w", src: `\w+`}, {kind: "s", src: `\s+`, discard: true}}},
			{"In", []lrule{{kind: "o", src: `\(`, push: "In"}, {kind: "c", src: `\)`, pop: 1}, {kind: "v", src: `[a-z]`}, {kind: "n", src: `\n`}}},
		}}
		f(d, []string{
			strings.Repeat("(", n) + "ab" + strings.Repeat(")", n) + "ab", strings.Repeat("(", n) + "?ab", strings.Repeat("(a", n) + strings.Repeat(")", n+2) + "bc",
			strings.Repeat("ab ", n), strings.Repeat("\n", n) + "b?", strings.Repeat("a", n) + "(b)", strings.Repeat("?", n) + "(a)", strings.Repeat("(a)\n", n), "(" + strings.Repeat("\n", n) + "a)?",
		})
		if n == 2 || n == 5 || n == 11 || n == 18 || n == 33 || c.Thorough && n < 70 {
			f(d, blowWords(n))
			one := &stackDef{ins: [4]string{"s", "", "w", ""}, subs: []subDef{
				{"Main", []lrule{{kind: "o", src: `\(`, push: "In"}, {kind: "w", src: `a`}, {kind: "n", src: `\n`}, {kind: "s", src: ` `, discard: true}}},
				{"In", []lrule{{kind: "c", src: `\)`, pop: 1}, {kind: "a", src: `a+`, push: "Main"}, {kind: "n", src: `[ \n]+`}}},
			}}
			f(one, blowWords(n))
		}
		// an earlier rule with a short match, a later one with a long match
		both := []lrule{{kind: "k", src: "ab?"}, {kind: "q", src: `[ab]+\n?`}, {kind: "e", src: `!`, pop: 1}}
		pref := &stackDef{subs: []subDef{
			{"Main", []lrule{{kind: "o", src: `\(`, push: "In"}, both[0], both[1], {kind: "n", src: `\n`}}},
			{"In", append([]lrule{{kind: "x", src: "b+", discard: true}}, both...)},
		}}
		as := strings.Repeat("a", n)
		f(pref, []string{as, as + "b(" + as + "b!" + as, "(" + strings.Repeat("b", n) + as + "\nb!" + as + "\na", "b" + as + "(b" + as})
		// n rules in a sub-lexer, n groups in a rule
		many := &stackDef{subs: []subDef{{"Main", []lrule{{kind: "o", src: `\(`, push: "In"}}}, {"In", nil}}}
		for i := 0; i < n; i++ {
			many.subs[1].rules = append(many.subs[1].rules, lrule{kind: fmt.Sprint("k", i), src: fmt.Sprintf("a{%d}b", 1+(i*7)%n), discard: i%5 == 4})
		}
		many.subs[1].rules = append(many.subs[1].rules, lrule{kind: "a", src: "a+"}, lrule{kind: "ab", src: "a+b", pop: 1})
		f(many, []string{"(" + as + "b" + as[:n/2] + "baab", "(" + as + "aab" + as})
		if n <= 130 {
			src, val := "", ""
			var fwd, back []string
			for i := 1; i <= n; i++ {
				src += "(" + string(rune('a'+i%20)) + ")"
				val += string(rune('a' + i%20))
				fwd = append(fwd, fmt.Sprint(i))
				back = append(back, fmt.Sprint(n+1-i))
			}
			for _, g := range [][]string{fwd, back, {fmt.Sprint(n)}, {fmt.Sprint(n + 1)}, append(append([]string{}, back...), fwd...), {`"` + as + `"`, fmt.Sprint(n)}} {
				f(&stackDef{subs: []subDef{{"Main", []lrule{{kind: "g", src: src, groups: g}, {kind: "z", src: "z"}}}}}, []string{val, "z" + val + val + "z"})
			}
		}
		if n > 66 && !c.Thorough {
			continue
		}
		// a pop of n levels out of n+1, n sub-lexers deep
		deep := &stackDef{}
		for i := 0; i <= n+1; i++ {
			rs := []lrule{{kind: fmt.Sprint("x", i), src: "x"}, {kind: "end", src: "!", pop: n}}
			if i <= n {
				rs = append(rs, lrule{kind: fmt.Sprint("o", i), src: `\(`, push: fmt.Sprint("L", i+1)})
			}
			deep.subs = append(deep.subs, subDef{fmt.Sprint("L", i), rs})
		}
		f(deep, []string{strings.Repeat("(", n+1) + "x!x(x", strings.Repeat("(x", n) + "!x", "x!x(!x"})
		// inheritance n deep, and n rules inherited
		inh := &stackDef{}
		for i := 0; i < n; i++ {
			rs := []lrule{{kind: fmt.Sprint("k", i), src: strings.Repeat("a", 1+(i*7)%n)}}
			if i < n-1 {
				rs = append(rs, lrule{inherit: fmt.Sprint("L", i+1)})
			}
			inh.subs = append(inh.subs, subDef{fmt.Sprint("L", i), rs})
		}
		f(inh, []string{strings.Repeat("a", 2*n+1), "a?a"})
		// the same with a cycle, back to every other sub-lexer: refused
		for back := 0; back < n; back += 1 + n/5 {
			cyc := &stackDef{subs: append([]subDef{}, inh.subs...)}
			last := cyc.subs[n-1]
			last.rules = append(append([]lrule{}, last.rules...), lrule{inherit: fmt.Sprint("L", back)})
			cyc.subs[n-1] = last
			f(cyc, []string{"a"})
		}
	}
}

func scaleC14(c *Ctx) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("scaled trees")
		if !c.Unit() {
			continue
		}
		for _, t := range scaledTrees(n) {
			t := t
			c.Case(func() string { return fmt.Sprintf("%s... of size %d", trunc(t.String()), n) }, func() string {
				c.Trans(2)
				c.NonTrivial()
				s := t.pn().String()
				p, err := tree.New(s)
				if err != nil {
					return err.Error()
				}
				if p.Size() != t.size() {
					return "Size"
				}
				return t.diff(p, false)
			})
		}
	}
}

func trunc(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

// scaledTrees: wide, deep, and with a long value.
func scaledTrees(n int) []*rt {
	wide := &rt{kind: "A", l: 1, c: 2}
	for i := 0; i < n; i++ {
		k := &rt{kind: []string{"B", "B", "C", "B", "D"}[i%5], val: strconv.Itoa(i), l: i, c: i + 1}
		if i%3 == 0 {
			k.ch = []*rt{{kind: "C", val: "x" + strconv.Itoa(i), l: i}, {kind: "D"}}
		}
		wide.ch = append(wide.ch, k)
	}
	deep := &rt{kind: "A", val: "leaf"}
	for i := 1; i < n; i++ {
		deep = &rt{kind: []string{"A", "B"}[i%2], ch: []*rt{{kind: "C", val: strconv.Itoa(i)}, deep, {kind: "D"}}}
	}
	long := &rt{kind: "A", ch: []*rt{{kind: strings.Repeat("k", n), val: strings.Repeat("v\n\"", n)}, {kind: "B"}}}
	return []*rt{wide, deep, long}
}

// farIdx are indexes far outside every node.
var farIdx = []int{100, -100, 255, 256, -256, 65536, -65536, 1 << 31, -1 << 31, 1 << 32, -1 << 32, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

// rtBlow makes large trees out of t: every child n times, every edge a chain
// of n nodes (of the child's kind, of the parent's kind, of another kind, with
// and without values), every node with n more leaves in front or behind.
func rtBlow(t *rt, n int) (out []*rt) {
	if t.size() <= 3 {
		var rep func(t *rt) *rt
		rep = func(t *rt) *rt {
			o := &rt{kind: t.kind, val: t.val, l: t.l, c: t.c}
			for _, c := range t.ch {
				for i := 0; i < n; i++ {
					o.ch = append(o.ch, rep(c))
				}
			}
			return o
		}
		out = append(out, rep(t))
	}
	for mode := 0; mode < 4; mode++ {
		mode := mode
		var chain func(t *rt) *rt
		chain = func(t *rt) *rt {
			o := &rt{kind: t.kind, val: t.val, l: t.l, c: t.c}
			for _, c := range t.ch {
				x := chain(c)
				for i := 0; i < n; i++ {
					y := &rt{kind: []string{c.kind, t.kind, "X", "Y"}[mode], l: i, c: n, ch: []*rt{x}}
					if mode == 3 {
						y.val = strconv.Itoa(i)
					}
					x = y
				}
				o.ch = append(o.ch, x)
			}
			return o
		}
		out = append(out, chain(t))
		var pad func(t *rt) *rt
		pad = func(t *rt) *rt {
			o := &rt{kind: t.kind, val: t.val, l: t.l, c: t.c}
			leaves := func() {
				for i := 0; i < n; i++ {
					o.ch = append(o.ch, &rt{kind: []string{"A", "B"}[mode/2], val: strconv.Itoa(i), l: n, c: i})
				}
			}
			if mode%2 == 0 {
				leaves()
			}
			for _, c := range t.ch {
				o.ch = append(o.ch, pad(c))
			}
			if mode%2 == 1 {
				leaves()
			}
			return o
		}
		out = append(out, pad(t))
	}
	return
}

// scaleC15 applies every operation at and around the ends and the middle of a
// wide node.
func scaleC15(c *Ctx, one func(t *rt, s step) string) {
	for _, n := range sizes(c.Thorough, 300) {
		c.Space("wide nodes")
		if !c.Unit() {
			continue
		}
		idxs := append([]int{-2 * n, -2*n - 1, 2 * n, 0, 1, n / 2, n - 2, n - 1, n, n + 1, -1, -2, -n, -n - 1, -n / 2}, farIdx...)
		var sets [][]int
		every := rng(0, n)
		var odd, back []int
		for i := 0; i < n; i++ {
			if i%2 == 1 {
				odd = append(odd, i)
			}
			back = append(back, -1-i)
		}
		sets = append(sets, every, odd, back, []int{n - 1, 0, -1, n / 2}, []int{n / 2, n/2 - n})
		t := scaledTrees(n)[0]
		for _, o := range opsFor(idxs, sets, [][]string{{"B"}, {"C", "B"}, {"D"}, {}}) {
			s := step{nil, o}
			c.Case(func() string { return fmt.Sprintf("%d children, %s", n, trunc(o.name)) }, func() string {
				c.NonTrivial()
				return one(t, s)
			})
		}
	}
}

func scaleC16(c *Ctx, try func(t *rt, r tree.Reducer, m map[string]func(*rt)) string) {
	cat := catalogue()
	for _, n := range sizes(c.Thorough, 130) {
		c.Space("scaled trees")
		if !c.Unit() {
			continue
		}
		for _, t := range scaledTrees(n) {
			for a := range cat {
				t, a := t, a
				c.Case(func() string { return fmt.Sprintf("%s of size %d, all kinds: %s", trunc(t.String()), n, cat[a].name) }, func() string {
					r := tree.Reducer{}
					m := map[string]func(*rt){}
					for _, k := range []string{"A", "B", "C"} {
						r[k], m[k] = cat[a].real, cat[a].ref
					}
					c.NonTrivial()
					return try(t, r, m)
				})
			}
		}
	}
}

func scaleC20(c *Ctx) {
	for _, n := range sizes(c.Thorough, 1030) {
		c.Space("scaled sets and productions")
		if !c.Unit() {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("%d symbols", n) }, func() string {
			c.NonTrivial()
			c.Trans(n)
			m := &setModel{set: setsymbol.New()}
			other := setsymbol.New()
			var all []string
			var syms []parlex.Symbol
			for i := 0; i < n; i++ {
				s := fmt.Sprint("s", i)
				all = append(all, s)
				if bad := m.gave(m.set.Str(s), s); bad != "" {
					return bad
				}
				o := other.Str(fmt.Sprint("s", n-1-i))
				syms = append(syms, o)
			}
			if n <= 130 || n%100 == 0 {
				if bad := m.check(append(all, "zz")); bad != "" {
					return bad
				}
			}
			p := m.set.Production(syms...)
			q := m.set.CastProduction(other.Production(syms...))
			r := m.set.Production()
			for _, s := range syms {
				r.AddSymbols(s)
			}
			st := stringsymbol.CastProduction(p)
			for k, x := range []parlex.Production{p, q, r, st} {
				if x.Symbols() != n {
					return fmt.Sprintf("production %d has %d symbols, expected %d", k, x.Symbols(), n)
				}
				i := 0
				for it := x.Iter(); it.Next(); i++ {
					if it.Symbol.String() != syms[i].String() || x.Symbol(i).String() != syms[i].String() || it.Idx != i {
						return fmt.Sprintf("production %d differs at %d", k, i)
					}
				}
				if i != n {
					return fmt.Sprintf("the iterator over production %d of %d symbols ends after %d", k, n, i)
				}
			}
			ps := m.set.Productions()
			for i := 0; i < n; i++ {
				ps.AddProductions(m.set.Production(syms[i]))
			}
			for k, x := range []parlex.Productions{ps, setsymbol.New().CastProductions(ps), stringsymbol.CastProductions(ps)} {
				if x.Productions() != n {
					return fmt.Sprintf("list %d has %d productions, expected %d", k, x.Productions(), n)
				}
				i := 0
				for it := x.Iter(); it.Next(); i++ {
					if it.Idx != i || it.Production.Symbols() != 1 || it.Production.Symbol(0).String() != syms[i].String() {
						return fmt.Sprintf("list %d differs at %d", k, i)
					}
				}
				if i != n {
					return fmt.Sprintf("the iterator over list %d of %d productions ends after %d", k, n, i)
				}
			}
			return ""
		})
	}
}

// scaleC19: n lexemes with one error at every position, and n reducers with a
// failure at every position.
func scaleC19(c *Ctx) {
	for _, n := range sizes(c.Thorough, 130) {
		c.Space("scaled pipelines")
		if !c.Unit() {
			continue
		}
		for at := -1; at < n; at++ {
			at := at
			c.Case(func() string { return fmt.Sprintf("%d lexemes, error at %d", n, at) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				log := &stubLog{}
				lx := &stubLexer{log: log}
				for i := 0; i < n; i++ {
					l := lexeme.String("k").Set(fmt.Sprint(i))
					if at >= 0 && (i == at || i > at && (i-at)%3 == 0) {
						lx.out = append(lx.out, &stubErrLexeme{l, i})
					} else {
						lx.out = append(lx.out, l)
					}
				}
				root := &tree.PN{Lexeme: lexeme.String("root")}
				t, err := parlex.Run("in", lx, &stubParser{log: log, out: root})
				if at < 0 {
					if err != nil || t != parlex.ParseNode(root) {
						return fmt.Sprintf("got %v, %v", t, err)
					}
					return ""
				}
				if e, ok := err.(*stubErrLexeme); !ok || e.id != at || t != nil {
					return fmt.Sprintf("got %v, %v", t, err)
				}
				if len(log.ev) != 1 {
					return "a later stage was called: " + strings.Join(log.ev, "; ")
				}
				return ""
			})
			c.Case(func() string { return fmt.Sprintf("%d reducers, failure at %d", n, at) }, func() string {
				c.Trans(1)
				c.NonTrivial()
				log := &stubLog{}
				lx := &stubLexer{log: log, out: []parlex.Lexeme{lexeme.String("k")}}
				var rs []parlex.Reducer
				var last *tree.PN
				for i := 0; i < n; i++ {
					s := &stubReducer{log: log, id: i}
					if i != at {
						last = &tree.PN{Lexeme: lexeme.String(fmt.Sprint("r", i))}
						s.out = last
					}
					rs = append(rs, s)
				}
				t, err := parlex.Run("in", lx, &stubParser{log: log, out: &tree.PN{Lexeme: lexeme.String("root")}}, rs...)
				calls := n
				if at >= 0 {
					calls = at + 1
					if err == nil || t != nil {
						return fmt.Sprintf("got %v, %v", t, err)
					}
				} else if err != nil || t != parlex.ParseNode(last) {
					return fmt.Sprintf("got %v, %v", t, err)
				}
				if len(log.ev) != 2+calls {
					return fmt.Sprintf("%d reducers were called, expected %d", len(log.ev)-2, calls)
				}
				return ""
			})
		}
	}
}
