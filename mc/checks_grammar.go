package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// ---- C07: grammar text -----------------------------------------------------

// gmodel is the reference model of a grammar under construction.
type gmodel struct {
	order []string
	prods map[string][][]string
}

func newGmodel() *gmodel { return &gmodel{prods: map[string][][]string{}} }

func (m *gmodel) add(nt string, p []string) {
	if _, ok := m.prods[nt]; !ok {
		m.order = append(m.order, nt)
	}
	m.prods[nt] = append(m.prods[nt], append([]string{}, p...))
}

// symbols gives all symbols of the grammar.
func (m *gmodel) symbols() map[string]bool {
	out := map[string]bool{}
	for nt, ps := range m.prods {
		out[nt] = true
		for _, p := range ps {
			for _, s := range p {
				out[s] = true
			}
		}
	}
	return out
}

// read interprets grammar text; ok is false for malformed text.
func (m *gmodel) read(text string) bool {
	cur := ""
	for _, line := range strings.Split(text, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		parts := strings.Split(line, "->")
		rhs := parts[0]
		if len(parts) > 2 {
			return false
		}
		if len(parts) == 2 {
			if nt := strings.TrimSpace(parts[0]); nt != "" {
				cur = nt
			}
			rhs = parts[1]
		}
		if cur == "" {
			cur = "START"
		}
		m.add(cur, strings.Fields(rhs))
	}
	return true
}

func (m *gmodel) text() string {
	var b strings.Builder
	for _, nt := range m.order {
		for _, p := range m.prods[nt] {
			fmt.Fprintf(&b, "%s -> %s\n", nt, strings.Join(p, " "))
		}
	}
	return b.String()
}

// gtext reads a real grammar through its interface.
func gtext(g parlex.Grammar) string {
	var b strings.Builder
	for _, nt := range g.NonTerminals() {
		ps := g.Productions(nt)
		if ps == nil {
			fmt.Fprintf(&b, "%s has no productions\n", nt)
			continue
		}
		for i := 0; i < ps.Productions(); i++ {
			p := ps.Production(i)
			var w []string
			for k := 0; k < p.Symbols(); k++ {
				w = append(w, p.Symbol(k).String())
			}
			fmt.Fprintf(&b, "%s -> %s\n", nt, strings.Join(w, " "))
		}
	}
	return b.String()
}

// gtextIter reads a real grammar with the iterators and symbols of a foreign
// set.
func gtextIter(g parlex.Grammar) string {
	var b strings.Builder
	for _, nt := range g.NonTerminals() {
		ps := g.Productions(stringsymbol.Symbol(nt.String()))
		if ps == nil {
			fmt.Fprintf(&b, "%s has no productions\n", nt)
			continue
		}
		for i := ps.Iter(); i.Next(); {
			var w []string
			for j := i.Production.Iter(); j.Next(); {
				w = append(w, j.Symbol.String())
			}
			fmt.Fprintf(&b, "%s -> %s\n", nt, strings.Join(w, " "))
		}
	}
	return b.String()
}

func checkGrammarObject(g *grammar.Grammar, m *gmodel) string {
	want := m.text()
	if got := gtext(g); got != want {
		return "grammar reads as\n" + got + "want\n" + want
	}
	if got := gtextIter(g); got != want {
		return "grammar iterates as\n" + got + "want\n" + want
	}
	nts := g.NonTerminals()
	if len(nts) > 0 {
		nts[0] = stringsymbol.Symbol("zzz")
		if got := gtext(g); got != want {
			return "changing the slice returned by NonTerminals changed the grammar:\n" + got
		}
	}
	for _, nt := range m.order {
		for _, p := range m.prods[nt] {
			for _, s := range p {
				_, isNT := m.prods[s]
				if got := g.Productions(stringsymbol.Symbol(s)) != nil; got != isNT {
					return fmt.Sprintf("Productions(%s) != nil is %v, want %v", s, got, isNT)
				}
			}
		}
	}
	if g.Productions(stringsymbol.Symbol("nobody")) != nil {
		return "Productions of an unknown symbol is not nil"
	}
	if got := gtext(g); got != want {
		return "looking up an unknown symbol changed the grammar:\n" + got
	}
	s := g.String()
	g2, err := grammar.New(s)
	if err != nil {
		return "String() does not parse: " + s
	}
	if got := gtext(g2); got != want {
		return "String() =\n" + s + "\ndefines\n" + got + "want\n" + want
	}
	if s2 := g2.String(); s2 != s {
		return "String() is not stable:\n" + s + "\n->\n" + s2
	}
	return ""
}

var gLines = []string{
	"A -> a B", "-> b", "B -> A", "", "A ->", "->", "B -> b b b", "  A  ->  a   ", "a b", "Long_name -> x A", "\t-> B \t c", "B->a->b", "q", "é -> a é", "[1] -> ( 1 )",
}

func eachSeq(n, max int, f func(seq []int)) {
	var rec func(cur []int)
	rec = func(cur []int) {
		f(cur)
		if len(cur) == max {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(cur[:len(cur):len(cur)], i))
		}
	}
	rec(nil)
}

func init() {
	register(&Check{
		ID:     "C07",
		Rule:   "every sequence of the listed grammar lines up to the bound, every scaled grammar shape, and every sequence of Add calls (own, foreign, nil and later mutated productions) from each of several starting grammars; after each construction the grammar is read through the interface, the iterators, foreign symbols and its text form and compared with a reference model; non-trivial: at least two productions",
		Bounds: []string{"five kinds of white space in each of 4 gaps, 5 separators, 4 line ends", "1001 and 4099 alternatives, non-terminals, symbols in one production", "special names: every ordered pair of about 95 names in 2 grammars and 3 pairs of places, as text and by Add", "15 line forms, sequences to length 5 (quick) / 6 (thorough)", "shapes: 1..6 non-terminals x 1..4 productions x 0..5 symbols x 3 definition orders", "Add: 12 operations, sequences to length 5 / 6"},
		Run:    runC07,
	})
	register(&Check{
		ID:     "C08",
		Rule:   "every right hand side of the regex notation up to the size bound (symbols, groups, ?, *, |, nesting), alone and in pairs of rules: the produced grammar generates exactly the words the regex meaning defines, up to the length bound, and lists its productions in the order of preference of the notation; every token string up to the bound: New returns an error exactly for malformed text and never panics; non-trivial: the expression has an operator",
		Bounds: []string{"every sequence of size <=3 over {x,y} inside rule sets of size 4 and 9 (alternatives, repetitions, nested groups, rules, rule lines)", "expression size 5 over {x,y}, 4 over {x,y,B}; pairs of size 3; words to length 4", "token strings to length 5 (thorough: 6) over 9 tokens after 3 prefixes", "scaled notations (sequences, groups, repetitions, alternatives, rule lines, rules): sizes 1..20 and around powers of two to 130"},
		Run:    runC08,
	})
	register(&Check{
		ID:     "C09",
		Rule:   "for every grammar of C08 and every accepted word: parsing with packrat and applying the returned reducer gives a tree whose inner nodes are only user-defined symbols, each node's children match that symbol's rule as a flat sequence, the leaves are the input lexemes in order, and links are consistent; non-trivial: the expression repeats something",
		Bounds: []string{"as C08, words to length 5, scaled notations included"},
		Run:    runC09,
	})
}

func runC07(c *Ctx) {
	depth := 5
	if c.Thorough {
		depth = 6
	}
	c.Space("line sequences")
	eachSeq(len(gLines), depth, func(seq []int) {
		if len(seq) == 0 || !c.Unit() {
			return
		}
		ls := make([]string, len(seq))
		for i, x := range seq {
			ls[i] = gLines[x]
		}
		text := strings.Join(ls, "\n")
		c.Case(func() string { return text }, func() string {
			m := newGmodel()
			ok := m.read(text)
			c.Trans(1)
			g, err := grammar.New(text)
			if !ok {
				c.OutcomeS("error")
				if err != grammar.ErrBadGrammar || g != nil {
					return fmt.Sprintf("malformed text: got %v, %v", g, err)
				}
				return ""
			}
			if err != nil {
				return "error for well formed text: " + err.Error()
			}
			c.OutcomeS(m.text())
			c.NonTrivial()
			return checkGrammarObject(g, m)
		})
	})
	c.Space("shapes")
	for k := 1; k <= 6; k++ {
		for pr := 1; pr <= 4; pr++ {
			for l := 0; l <= 5; l++ {
				for ord := 0; ord < 3; ord++ {
					if !c.Unit() {
						continue
					}
					var lines []string
					nt := func(i int) string { return strings.Repeat("N", 1+i%3) + fmt.Sprint(i) }
					line := func(i, p int) string {
						var w []string
						for x := 0; x < l; x++ {
							if (x+p)%2 == 0 {
								w = append(w, nt((i+x+p+1)%k))
							} else {
								w = append(w, fmt.Sprintf("t%d_%d", p, x))
							}
						}
						return strings.Join(w, " ")
					}
					switch ord {
					case 0: // grouped
						for i := 0; i < k; i++ {
							for p := 0; p < pr; p++ {
								if p == 0 {
									lines = append(lines, nt(i)+" -> "+line(i, p))
								} else {
									lines = append(lines, "-> "+line(i, p))
								}
							}
						}
					case 1: // interleaved
						for p := 0; p < pr; p++ {
							for i := 0; i < k; i++ {
								lines = append(lines, nt(i)+" -> "+line(i, p))
							}
						}
					case 2: // backwards
						for i := k - 1; i >= 0; i-- {
							for p := 0; p < pr; p++ {
								lines = append(lines, nt(i)+" -> "+line(i, p))
							}
						}
					}
					text := strings.Join(lines, "\n")
					c.Case(func() string { return text }, func() string {
						m := newGmodel()
						m.read(text)
						c.Trans(1)
						g, err := grammar.New(text)
						if err != nil {
							return err.Error()
						}
						c.NonTrivial()
						c.OutcomeS(m.text())
						return checkGrammarObject(g, m)
					})
				}
			}
		}
	}
	scaleC07(c)
	hugeC07(c)
	layoutGrammar(c)
	namesC07(c)
	c.Space("Add sequences")
	adds := []string{"A:a B", "A:", "B:A", "B:b b", "a:A", "C:c C C c", "A:z z z z z", "nil A", "nil D", "foreign B:B b", "same size", "own", "touch"}
	for _, start := range []string{"", "A -> a", "B -> q\nA -> a b c d", "S -> A B C D a b c"} {
		start := start
		eachSeq(len(adds), depth, func(seq []int) {
			if !c.Unit() {
				return
			}
			sq := append([]int{}, seq...)
			c.Case(func() string {
				s := "New(" + fmt.Sprintf("%q", start) + ")"
				for _, x := range sq {
					s += "; Add " + adds[x]
				}
				return s
			}, func() string {
				m := newGmodel()
				m.read(start)
				g, err := grammar.New(start)
				if start == "" {
					g, err = grammar.Empty(), nil
				}
				if err != nil {
					return err.Error()
				}
				for _, x := range sq {
					op := adds[x]
					c.Trans(1)
					switch {
					case strings.HasPrefix(op, "nil "):
						g.Add(stringsymbol.Symbol(op[4:]), nil)
						m.add(op[4:], nil)
					case op == "own": // the first production of A, also for B, then changed
						if ps := g.Productions(stringsymbol.Symbol("A")); ps != nil && ps.Productions() > 0 {
							p := ps.Production(0)
							g.Add(stringsymbol.Symbol("B"), p)
							m.add("B", m.prods["A"][0])
							if sp, ok := p.(interface{ AddSymbols(...parlex.Symbol) }); ok {
								sp.AddSymbols(stringsymbol.Symbol("later"))
							}
						}
					case op == "touch": // read, and productions handed out are changed by the caller
						if bad := checkGrammarObject(g, m); bad != "" {
							return bad
						}
						for _, nt := range g.NonTerminals() {
							for i := g.Productions(nt).Iter(); i.Next(); {
								if sp, ok := i.Production.(interface{ AddSymbols(...parlex.Symbol) }); ok {
									sp.AddSymbols(stringsymbol.Symbol("x1"), stringsymbol.Symbol("x2"))
								}
							}
						}
					case op == "same size": // a set with as many symbols, but others
						size := m.symbols()
						if !size["B"] {
							size["B"] = true
						}
						set := setsymbol.New()
						names := []string{"b", "d", "B", "e"}
						for i := 0; i < len(size); i++ {
							if i < len(names) {
								set.Str(names[i])
							} else {
								set.Str(fmt.Sprint("filler", i))
							}
						}
						var p []parlex.Symbol
						var want []string
						for i := 0; i < 4 && i < len(size); i++ {
							p = append(p, set.Str(names[i]))
							want = append(want, names[i])
						}
						g.Add(foreignSym("B"), set.Production(p...))
						m.add("B", want)
					case strings.HasPrefix(op, "foreign "):
						set := setsymbol.New()
						set.Str("unused")
						p := set.Production(set.Str("B"), set.Str("b"))
						g.Add(set.Str("B"), p)
						m.add("B", []string{"B", "b"})
						p.AddSymbols(set.Str("later"))
					default:
						i := strings.Index(op, ":")
						f := strings.Fields(op[i+1:])
						p := stringsymbol.Production{}
						for _, s := range f {
							p = append(p, stringsymbol.Symbol(s))
						}
						g.Add(stringsymbol.Symbol(op[:i]), p)
						m.add(op[:i], f)
						for k := range p {
							p[k] = "overwritten"
						}
					}
				}
				c.NonTrivial()
				c.OutcomeS(m.text())
				return checkGrammarObject(g, m)
			})
		})
	}
}

// ---- regex notation ---------------------------------------------------------

type rx struct {
	op  byte // 's' symbol, '?', '*', '|', '(' group
	sym string
	c   []*rx
}

func (r *rx) str() string {
	switch r.op {
	case 's':
		return r.sym
	case '?', '*':
		return r.c[0].str() + string(r.op)
	case '|':
		var s []string
		for _, x := range r.c {
			s = append(s, x.str())
		}
		return strings.Join(s, "|")
	}
	return "(" + rxSeqStr(r.c) + ")"
}

func rxSeqStr(s []*rx) string {
	var o []string
	for _, x := range s {
		o = append(o, x.str())
	}
	return strings.Join(o, " ")
}

// rxGen enumerates the notation by size.
type rxGen struct {
	syms []string
	at   map[int][]*rx   // atoms with optional postfix (alternatives of |), by size
	it   map[int][]*rx   // items, by size
	sq   map[int][][]*rx // sequences, by size
}

func newRxGen(syms ...string) *rxGen {
	return &rxGen{syms, map[int][]*rx{}, map[int][]*rx{}, map[int][][]*rx{}}
}

// bases: symbols (size 1) and groups (size 1+inner).
func (g *rxGen) bases(n int) []*rx {
	var out []*rx
	if n == 1 {
		for _, s := range g.syms {
			out = append(out, &rx{op: 's', sym: s})
		}
	}
	if n >= 1 {
		for _, s := range g.seqs(n - 1) {
			out = append(out, &rx{op: '(', c: s})
		}
	}
	return out
}

func (g *rxGen) atoms(n int) []*rx {
	if n <= 0 {
		return nil
	}
	if r, ok := g.at[n]; ok {
		return r
	}
	out := append([]*rx{}, g.bases(n)...)
	for _, b := range g.bases(n - 1) {
		out = append(out, &rx{op: '?', c: []*rx{b}}, &rx{op: '*', c: []*rx{b}})
	}
	g.at[n] = out
	return out
}

func (g *rxGen) items(n int) []*rx {
	if n <= 0 {
		return nil
	}
	if r, ok := g.it[n]; ok {
		return r
	}
	out := append([]*rx{}, g.atoms(n)...)
	// alternations: sizes add up, one more per bar beyond the first
	var rec func(left, k int, cur []*rx)
	rec = func(left, k int, cur []*rx) {
		if left == 0 {
			if k >= 2 {
				out = append(out, &rx{op: '|', c: append([]*rx{}, cur...)})
			}
			return
		}
		for m := 1; m <= left; m++ {
			for _, a := range g.atoms(m) {
				rec(left-m, k+1, append(cur, a))
			}
		}
	}
	rec(n, 0, nil)
	g.it[n] = out
	return out
}

func (g *rxGen) seqs(n int) [][]*rx {
	if n == 0 {
		return [][]*rx{nil}
	}
	if r, ok := g.sq[n]; ok {
		return r
	}
	var out [][]*rx
	for m := 1; m <= n; m++ {
		for _, i := range g.items(m) {
			for _, rest := range g.seqs(n - m) {
				out = append(out, append([]*rx{i}, rest...))
			}
		}
	}
	g.sq[n] = out
	return out
}

type rxRule struct {
	nt   string
	alts [][]*rx
}

func rulesText(rs []rxRule) string {
	var b strings.Builder
	for _, r := range rs {
		for i, a := range r.alts {
			if i == 0 {
				b.WriteString(r.nt)
			}
			b.WriteString(" -> " + rxSeqStr(a) + "\n")
		}
	}
	return b.String()
}

// toCFG gives the rules their meaning, with a fresh symbol per operator.
func rulesCFG(rs []rxRule) *CFG {
	var b strings.Builder
	var extra strings.Builder
	n := 0
	var item func(r *rx) string
	seq := func(s []*rx) string {
		var o []string
		for _, x := range s {
			o = append(o, item(x))
		}
		return strings.Join(o, " ")
	}
	item = func(r *rx) string {
		if r.op == 's' {
			return r.sym
		}
		n++
		nm := fmt.Sprintf("%%%d", n)
		switch r.op {
		case '?':
			fmt.Fprintf(&extra, "%s -> %s\n ->\n", nm, item(r.c[0]))
		case '*':
			x := item(r.c[0])
			fmt.Fprintf(&extra, "%s -> %s %s\n ->\n", nm, x, nm)
		case '|':
			t := nm
			for _, x := range r.c {
				t += " -> " + item(x) + "\n"
			}
			extra.WriteString(t)
		case '(':
			fmt.Fprintf(&extra, "%s -> %s\n", nm, seq(r.c))
		}
		return nm
	}
	for _, r := range rs {
		for i, a := range r.alts {
			if i == 0 {
				b.WriteString(r.nt)
			}
			b.WriteString(" -> " + seq(a) + "\n")
		}
	}
	return parseCFG(b.String() + extra.String())
}

func eachRules(c *Ctx, f func(rs []rxRule)) {
	s1, s2, pr := 5, 4, 3
	if c.Thorough {
		s1, s2, pr = 6, 5, 3
	}
	c.Space(fmt.Sprintf("one rule over {x,y}, size<=%d", s1))
	g := newRxGen("x", "y")
	for n := 0; n <= s1; n++ {
		for _, s := range g.seqs(n) {
			if c.Unit() {
				f([]rxRule{{"S", [][]*rx{s}}})
			}
		}
	}
	c.Space(fmt.Sprintf("two rules over {x,y,B}, size<=%d", s2))
	g = newRxGen("x", "y", "B")
	fixed := []rxRule{{"B", [][]*rx{{{op: 's', sym: "y"}, {op: '*', c: []*rx{{op: 's', sym: "x"}}}, {op: 's', sym: "y"}}}}}
	for n := 1; n <= s2; n++ {
		for _, s := range g.seqs(n) {
			if c.Unit() {
				f(append([]rxRule{{"S", [][]*rx{s}}}, fixed...))
			}
		}
	}
	c.Space(fmt.Sprintf("pairs of expressions, size<=%d", pr))
	g = newRxGen("x")
	g2 := newRxGen("x", "S")
	for n := 1; n <= pr; n++ {
		for _, s := range g2.seqs(n) {
			for m := 1; m <= pr; m++ {
				for _, s2 := range g.seqs(m) {
					if c.Unit() {
						f([]rxRule{{"S", [][]*rx{append(append([]*rx{}, s2...), &rx{op: 's', sym: "B"})}}, {"B", [][]*rx{{{op: 's', sym: "y"}}, s}}})
					}
				}
			}
		}
	}
	ns := []int{4, 9}
	if c.Thorough {
		ns = []int{2, 3, 4, 5, 7, 9, 13, 18, 34}
	}
	c.Space("small expressions inside large rule sets")
	g = newRxGen("x", "y")
	for n := 1; n <= 3; n++ {
		for _, s := range g.seqs(n) {
			for _, k := range ns {
				if !c.Unit() {
					continue
				}
				for _, rs := range rxBlow(s, k) {
					f(rs)
				}
			}
		}
	}
	c.Space("names and shapes")
	for _, t := range rxNamed() {
		if c.Unit() {
			f(t)
		}
	}
}

// rxBlow puts the sequence into rule sets of size n.
func rxBlow(s []*rx, n int) (out [][]rxRule) {
	var ps, reps, grps []*rx
	one := &rx{op: '(', c: s}
	deep := one
	for i := 0; i < n; i++ {
		p := sy(fmt.Sprint("p", i))
		ps = append(ps, p)
		reps = append(reps, star(p))
		grps = append(grps, grp(p, star(ps[i/2])))
		deep = grp(deep)
	}
	cat := func(a []*rx, b ...*rx) []*rx { return append(append([]*rx{}, a...), b...) }
	out = append(out,
		[]rxRule{rule("S", alt(cat(ps, one)...))},
		[]rxRule{rule("S", alt(cat([]*rx{one}, ps...)...))},
		[]rxRule{rule("S", alt(cat(reps, opt(one))...))},
		[]rxRule{rule("S", alt(cat(grps, star(one))...))},
		[]rxRule{rule("S", cat(reps, s...)...)},
		[]rxRule{rule("S", append([]*rx{star(grp(cat(reps, one)...))}, s...)...)},
		[]rxRule{rule("S", append([]*rx{deep, star(deep)}, s...)...)},
	)
	// the same sequence and the same repetitions in several rules
	rs := []rxRule{rule("S", cat(s, sy("N0"))...)}
	for i := 0; i < n; i++ {
		to := sy(fmt.Sprint("N", i+1))
		if i == n-1 {
			to = star(one)
		}
		rs = append(rs, rule(fmt.Sprint("N", i), reps[i], to, reps[i/2]))
	}
	out = append(out, rs)
	// one rule with n lines
	r := rxRule{nt: "S"}
	for i := 0; i < n; i++ {
		r.alts = append(r.alts, cat(ps[i:i+1], reps[n-1-i]))
	}
	r.alts = append(r.alts, s)
	return append(out, []rxRule{r})
}

func sy(s string) *rx                 { return &rx{op: 's', sym: s} }
func grp(c ...*rx) *rx                { return &rx{op: '(', c: c} }
func star(x *rx) *rx                  { return &rx{op: '*', c: []*rx{x}} }
func opt(x *rx) *rx                   { return &rx{op: '?', c: []*rx{x}} }
func alt(c ...*rx) *rx                { return &rx{op: '|', c: c} }
func rule(nt string, s ...*rx) rxRule { return rxRule{nt, [][]*rx{s}} }

// rxNamed are rule sets whose generated names or sizes are special.
func rxNamed() [][]rxRule {
	x, y, z, xy := sy("x"), sy("y"), sy("z"), sy("x_y")
	var out [][]rxRule
	reps := []*rx{
		star(grp(x, y)), star(grp(xy)), star(xy), star(grp(grp(x, y))), star(grp(alt(x, y))), star(grp(alt(x, y), z)), star(grp(alt(x, sy("y_z")))),
		star(grp(opt(x), y)), star(grp(star(x), y)), star(grp(alt(x, star(y)))), star(grp(alt(x, y, z))), star(grp(x, y, z)), star(x), star(grp(x)),
		star(grp(grp(x), y)), star(grp(star(grp(x, y)), z)), star(grp(star(grp(xy)), z)),
	}
	for _, a := range reps {
		for _, b := range reps {
			out = append(out,
				[]rxRule{rule("S", a, z, b)},
				[]rxRule{rule("S", a, sy("B")), rule("B", z, b)},
				[]rxRule{rule("S", star(grp(a, z)), opt(grp(b)))})
		}
	}
	// many different repetitions that would like to have the same name
	same := func(syms ...*rx) *rx { return star(grp(syms...)) }
	for _, fam := range [][]*rx{
		{same(x, y, z), same(xy, z), same(x, sy("y_z")), same(sy("x_y_z"))},
		{same(sy("x_y_z"), z), same(x, y, z, z), same(xy, z, z), same(x, sy("y_z"), z), same(x, y, sy("z_z")), same(xy, sy("z_z")), same(x, sy("y_z_z"))},
	} {
		for s := range fam {
			for step := 1; step < len(fam); step++ {
				for k := 2; k <= len(fam); k++ {
					var seq []*rx
					var rs []rxRule
					for i := 0; i < k; i++ {
						r := fam[(s+i*step)%len(fam)]
						seq = append(seq, r, sy("t"))
						nx := sy(fmt.Sprint("N", i+1))
						if i == k-1 {
							nx = r
						}
						nm := fmt.Sprint("N", i)
						if i == 0 {
							nm = "S"
						}
						rs = append(rs, rule(nm, r, sy("t"), nx))
					}
					out = append(out, []rxRule{rule("S", seq...)}, rs, []rxRule{rule("S", star(grp(seq...)))})
				}
			}
		}
	}
	out = append(out, rxOddNames()...)
	// wide and deep
	for n := 1; n <= 6; n++ {
		var w, o []*rx
		d := x
		for i := 0; i < n; i++ {
			w = append(w, []*rx{x, y, z}[i%3])
			o = append(o, opt([]*rx{x, y, z}[i%3]))
			d = grp(d)
		}
		out = append(out, []rxRule{rule("S", w...)}, []rxRule{rule("S", o...)}, []rxRule{rule("S", star(d), y)}, []rxRule{rule("S", star(grp(w...)), opt(grp(o...)))})
		if n > 1 {
			out = append(out, []rxRule{rule("S", alt(w...), alt(o...))}, []rxRule{rule("S", star(grp(alt(w...))))})
		}
	}
	return out
}

func (r *rx) has(op byte) bool {
	if r.op == op {
		return true
	}
	for _, x := range r.c {
		if x.has(op) {
			return true
		}
	}
	return false
}

func rulesHave(rs []rxRule, op byte) bool {
	for _, r := range rs {
		for _, a := range r.alts {
			for _, x := range a {
				if x.has(op) {
					return true
				}
			}
		}
	}
	return false
}

// rxItem is a symbol or a repetition in an expanded alternative.
type rxItem struct {
	sym string
	rep *rx
}

// expand lists the alternatives a sequence stands for, in order: leftmost
// choice first, an optional item before its absence.
func rxExpand(seq []*rx) [][]rxItem {
	out := [][]rxItem{{}}
	for _, x := range seq {
		var alts [][]rxItem
		switch x.op {
		case 's':
			alts = [][]rxItem{{{sym: x.sym}}}
		case '?':
			alts = append(rxExpand(x.c), []rxItem{})
		case '|':
			for _, y := range x.c {
				alts = append(alts, rxExpand([]*rx{y})...)
			}
		case '(':
			alts = rxExpand(x.c)
		case '*':
			alts = [][]rxItem{{{rep: x}}}
		}
		var next [][]rxItem
		for _, a := range out {
			for _, b := range alts {
				next = append(next, append(append([]rxItem{}, a...), b...))
			}
		}
		out = next
	}
	return out
}

// rxOrder checks that the productions of every symbol are listed in the order
// of the alternatives of the notation. Which name a repetition got is not
// looked at; equal alternatives count once.
func rxOrder(rs []rxRule, rg *CFG) string {
	user := map[string]bool{}
	for _, r := range rs {
		user[r.nt] = true
	}
	uniq := func(in []string) string {
		seen := map[string]bool{}
		var out []string
		for _, s := range in {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
		return strings.Join(out, " | ")
	}
	gen := func(s int) bool { return s < rg.N && !user[rg.name(s)] }
	type pair struct {
		s   int
		rep string
	}
	done := map[pair]bool{}
	var match func(s int, name string, alts [][]rxItem) string
	match = func(s int, name string, alts [][]rxItem) string {
		var want, got []string
		byShape := map[string][]rxItem{}
		for _, a := range alts {
			t := ""
			for _, i := range a {
				if i.rep != nil || i.sym == "%self" {
					t += " %"
				} else {
					t += " " + i.sym
				}
			}
			if _, ok := byShape[t]; !ok {
				byShape[t] = a
			}
			want = append(want, t)
		}
		for _, p := range rg.P[s] {
			t := ""
			for _, x := range p {
				if gen(x) {
					t += " %"
				} else {
					t += " " + rg.name(x)
				}
			}
			got = append(got, t)
		}
		w, g := uniq(want), uniq(got)
		if w != g {
			return fmt.Sprintf("alternatives of %s in order:%s\nexpected:%s (%% stands for a repetition)", name, g, w)
		}
		return ""
	}
	var follow func(s int, alts [][]rxItem) string
	follow = func(s int, alts [][]rxItem) string {
		if len(alts) != len(rg.P[s]) {
			return "" // equal alternatives were merged
		}
		for k, a := range alts {
			if len(a) != len(rg.P[s][k]) {
				return ""
			}
			for i, it := range a {
				if it.rep == nil {
					continue
				}
				x := rg.P[s][k][i]
				pr := pair{x, it.rep.str()}
				if done[pr] {
					continue
				}
				done[pr] = true
				var body [][]rxItem
				for _, b := range rxExpand(it.rep.c) {
					body = append(body, append(b, rxItem{sym: "%self"}))
				}
				body = append(body, []rxItem{})
				if bad := match(x, "the repetition "+pr.rep, body); bad != "" {
					return bad
				}
				if bad := follow(x, body); bad != "" {
					return bad
				}
			}
		}
		return ""
	}
	byNT := map[string][][]rxItem{}
	for _, r := range rs {
		for _, a := range r.alts {
			byNT[r.nt] = append(byNT[r.nt], rxExpand(a)...)
		}
	}
	for _, r := range rs {
		nt, alts := r.nt, byNT[r.nt]
		s := rg.sym(nt)
		if bad := match(s, nt, alts); bad != "" {
			return bad
		}
		if bad := follow(s, alts); bad != "" {
			return bad
		}
	}
	return ""
}

func runC08(c *Ctx) {
	eachRules(c, func(rs []rxRule) {
		text := rulesText(rs)
		c.Case(func() string { return text }, func() string {
			if strings.ContainsAny(text, "*?|") {
				c.NonTrivial()
			}
			c.Trans(1)
			g, r, err := regexgram.New(text)
			if err != nil {
				return "error: " + err.Error()
			}
			if g == nil || r == nil {
				return "nil grammar or reducer"
			}
			rg := readGrammar(g)
			og := rulesCFG(rs)
			if rg.N == 0 || rg.name(0) != rs[0].nt {
				return "start symbol is not " + rs[0].nt + ":\n" + g.String()
			}
			c.OutcomeS(g.String())
			for _, nt := range rs {
				if k := rg.sym(nt.nt); k < 0 || k >= rg.N {
					return "no productions for " + nt.nt + ":\n" + g.String()
				}
			}
			var ts []int
			for s := og.N; s < og.N+og.T; s++ {
				ts = append(ts, s)
			}
			max := 4
			if len(ts) > 2 {
				max = 3
			}
			if len(ts) > 7 {
				max = 2
			}
			if bad := rxOrder(rs, rg); bad != "" {
				return bad + "; grammar:\n" + g.String()
			}
			for _, in := range words(ts, max) {
				a := newChart(og, in).accepts()
				b := newChart(rg, mapWord(og, rg, in)).accepts()
				if a != b {
					return fmt.Sprintf("word %s: defined %v, generated %v; grammar:\n%s", og.word(in), a, b, g.String())
				}
			}
			return ""
		})
	})
	scaleC08(c)
	charsC08(c)
	c.Space("token strings")
	toks := []string{"S", "->", "x", "*", "?", "|", "(", ")", "\n"}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	for _, prefix := range []string{"", "S -> ", "S -> x\n"} {
		eachSeq(len(toks), depth, func(seq []int) {
			if !c.Unit() {
				return
			}
			w := make([]string, len(seq))
			for i, x := range seq {
				w[i] = toks[x]
			}
			text := prefix + strings.Join(w, " ")
			c.Case(func() string { return fmt.Sprintf("%q", text) }, func() string {
				want := rxWellFormed(text)
				c.Trans(1)
				g, r, err := regexgram.New(text)
				c.OutcomeS(fmt.Sprint(want))
				if want != (err == nil) {
					return fmt.Sprintf("well formed: %v, error: %v", want, err)
				}
				if err != nil && (g != nil || r != nil) {
					return "a grammar together with an error"
				}
				if err == nil && g == nil {
					return "neither grammar nor error"
				}
				return ""
			})
		})
	}
	c.Space("layout")
	for _, t := range []struct{ text, want string }{
		{"\n  // c\n  S -> x // no\n", ""},
		{"S -> x\n// c\n  -> y\n", "S -> x\nS -> y\n"},
		{"S -> x\n\n\n  -> y\n\nB -> z\n\n", "S -> x\nS -> y\nB -> z\n"},
		{"S -> x | y", "S -> x\nS -> y\n"},
		{"S->x y?z", "S -> x y z\nS -> x z\n"},
		{"S ->\n-> x\nS -> y", "S -> \nS -> x\nS -> y\n"},
		{"S\t->\tx\ty", "S -> x y\n"},
		{"S -> x\r\nB -> y\r\n", "S -> x\nB -> y\n"},
		{"S -> x\n// only comment follows", "S -> x\n"},
		{"S -> $", ""},
	} {
		t := t
		if !c.Unit() {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("%q", t.text) }, func() string {
			c.Trans(1)
			g, _, err := regexgram.New(t.text)
			if (t.want == "") != (err != nil) {
				return fmt.Sprintf("error = %v", err)
			}
			if err == nil {
				a, b := strings.Split(gtext(g), "\n"), strings.Split(t.want, "\n")
				sort.Strings(a)
				sort.Strings(b)
				if strings.Join(a, "\n") != strings.Join(b, "\n") {
					return "got\n" + gtext(g) + "want\n" + t.want
				}
			}
			return ""
		})
	}
}

// charsC08: lines, comments and characters of the notation.  want is the text
// of the grammar, "" if it is malformed.
func charsC08(c *Ctx) {
	expect := func(text, want string) string {
		c.Trans(1)
		g, r, err := regexgram.New(text)
		if (want == "") != (err != nil) {
			return fmt.Sprintf("error = %v", err)
		}
		if err != nil {
			if g != nil || r != nil {
				return "a grammar together with an error"
			}
			return ""
		}
		if gtext(g) != want {
			return "got\n" + gtext(g) + "want\n" + want
		}
		return ""
	}
	c.Space("lines")
	lines := []string{"S -> x", "  -> y ", "B->z w", "", " \t", "// c", " // -> ( $ é", "\t//", "T -> "}
	max := 4
	if c.Thorough {
		max = 5
	}
	eachSeq(len(lines), max, func(seq []int) {
		if !c.Unit() {
			return
		}
		seq = append([]int{0}, seq...)
		var order []string
		prods := map[string][]string{}
		cur := ""
		for _, k := range seq {
			p := ""
			switch k {
			case 0:
				cur, p = "S", "x"
			case 1:
				p = "y"
			case 2:
				cur, p = "B", "z w"
			case 8:
				cur = "T"
			default:
				continue
			}
			if prods[cur] == nil {
				order = append(order, cur)
			}
			prods[cur] = append(prods[cur], p)
		}
		want := ""
		for _, nt := range order {
			for _, p := range prods[nt] {
				want += nt + " -> " + p + "\n"
			}
		}
		for _, nl := range []string{"\n", "\r\n", "\r"} {
			for _, start := range []string{"", nl} {
				var w []string
				for _, k := range seq {
					w = append(w, lines[k])
				}
				text := start + strings.Join(w, nl)
				c.Case(func() string { return fmt.Sprintf("%q", text) }, func() string {
					c.NonTrivial()
					return expect(text, want)
				})
			}
		}
	})
	c.Space("every character")
	word := regexp.MustCompile(`^\w+$`)
	for _, x := range oddChars() {
		if !c.Unit() {
			continue
		}
		x := x
		c.Case(func() string { return fmt.Sprintf("character %q", x) }, func() string {
			c.NonTrivial()
			if !strings.ContainsAny(x, "\n\r") {
				for i, text := range []string{
					"S -> a\n//" + x + " -> b\n  -> c",
					"S -> a\n // b" + x + "\n  // " + x + x + "\n\n  -> c\n//" + x,
					"\n// (" + x + "//\nS -> a\n-> c\n",
				} {
					if bad := expect(text, "S -> a\nS -> c\n"); bad != "" {
						return fmt.Sprintf("comment %d: %s", i, bad)
					}
				}
			}
			want := ""
			switch {
			case strings.Trim(x, " \t") == "":
				want = "S -> a b\n"
			case word.MatchString(x):
				want = "S -> a" + x + "b\n"
				for _, n := range []string{x, "_" + x, x + "_", x + x} {
					if bad := expect("S -> "+n+" b\n"+n+"->b "+n+"?", "S -> "+n+" b\n"+n+" -> b "+n+"\n"+n+" -> b\n"); bad != "" {
						return fmt.Sprintf("name %q: %s", n, bad)
					}
				}
			case x == "?":
				want = "S -> a b\nS -> b\n"
			case x == "|":
				want = "S -> a\nS -> b\n"
			case x == "*":
				return "" // what the symbol is called is up to the implementation
			}
			return expect("S -> a"+x+"b", want)
		})
	}
}

// rxWellFormed decides the syntax of the notation for token strings joined
// with blanks.
func rxWellFormed(text string) bool {
	lines := strings.Split(text, "\n")
	first := true
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if f[0] == "->" {
			if first {
				return false
			}
			f = f[1:]
		} else if len(f) > 1 && f[1] == "->" && (f[0] == "S" || f[0] == "x") {
			f = f[2:]
		} else {
			return false
		}
		first = false
		i := 0
		if !rxSeqOK(f, &i, 0) || i != len(f) {
			return false
		}
	}
	return !first
}

func rxSeqOK(f []string, i *int, depth int) bool {
	for *i < len(f) && f[*i] != ")" {
		if !rxAtomOK(f, i, depth) {
			return false
		}
		for *i < len(f) && f[*i] == "|" {
			*i++
			if !rxAtomOK(f, i, depth) {
				return false
			}
		}
	}
	return true
}

func rxAtomOK(f []string, i *int, depth int) bool {
	if *i >= len(f) {
		return false
	}
	switch f[*i] {
	case "S", "x":
		*i++
	case "(":
		*i++
		if !rxSeqOK(f, i, depth+1) || *i >= len(f) || f[*i] != ")" {
			return false
		}
		*i++
	default:
		return false
	}
	if *i < len(f) && (f[*i] == "*" || f[*i] == "?") {
		*i++
	}
	return true
}

// rxMatch: the positions a sequence can end at when it starts at i.
func rxMatchSeq(s []*rx, k []string, i int) map[int]bool {
	cur := map[int]bool{i: true}
	for _, x := range s {
		nx := map[int]bool{}
		for p := range cur {
			for e := range rxMatch(x, k, p) {
				nx[e] = true
			}
		}
		cur = nx
	}
	return cur
}

func rxMatch(r *rx, k []string, i int) map[int]bool {
	switch r.op {
	case 's':
		if i < len(k) && k[i] == r.sym {
			return map[int]bool{i + 1: true}
		}
		return nil
	case '?':
		out := map[int]bool{i: true}
		for e := range rxMatch(r.c[0], k, i) {
			out[e] = true
		}
		return out
	case '|':
		out := map[int]bool{}
		for _, x := range r.c {
			for e := range rxMatch(x, k, i) {
				out[e] = true
			}
		}
		return out
	case '(':
		return rxMatchSeq(r.c, k, i)
	}
	out := map[int]bool{i: true}
	todo := []int{i}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		for e := range rxMatch(r.c[0], k, p) {
			if !out[e] {
				out[e] = true
				todo = append(todo, e)
			}
		}
	}
	return out
}

func runC09(c *Ctx) {
	scaleC09(c)
	eachRules(c, func(rs []rxRule) {
		text := rulesText(rs)
		var g *grammar.Grammar
		var r parlex.Reducer
		var err error
		if p := guard(func() { g, r, err = regexgram.New(text) }); p != "" || err != nil {
			c.Case(func() string { return text }, func() string { return "regexgram.New: " + p + fmt.Sprint(err) })
			return
		}
		og := rulesCFG(rs)
		ts := rng(og.N, og.N+og.T)
		max := 5
		if len(ts) > 2 {
			max = 4
		}
		if len(ts) > 3 {
			max = 3
		}
		if len(ts) > 7 {
			max = 2
		}
		for _, in := range words(ts, max) {
			if !newChart(og, in).accepts() {
				continue
			}
			in := in
			c.Case(func() string { return text + "input " + og.word(in) }, func() string {
				if rulesHave(rs, '*') {
					c.NonTrivial()
				}
				lx := og.lexemes(in)
				c.Trans(2)
				n := packrat.New(g).Parse(lx)
				if isNil(n) {
					return "no parse"
				}
				out := r.Reduce(n)
				if isNil(out) {
					return "reduced to nil"
				}
				c.OutcomeS(renderPN(og, out))
				return flatTree(rs, out, lx)
			})
		}
	})
}

func flatTree(rs []rxRule, root parlex.ParseNode, lx []parlex.Lexeme) string {
	def := map[string][][]*rx{}
	for _, r := range rs {
		def[r.nt] = r.alts
	}
	pos := 0
	var rec func(n, parent parlex.ParseNode) string
	rec = func(n, parent parlex.ParseNode) string {
		if isNil(n) {
			return "nil node"
		}
		if parent == nil {
			if !isNil(n.Parent()) {
				return "root has a parent"
			}
		} else if isNil(n.Parent()) || n.Parent() != parent {
			return "wrong parent link at " + n.Kind().String()
		}
		k := n.Kind().String()
		alts, isNT := def[k]
		if !isNT {
			if n.Children() != 0 {
				return "unexpected inner node " + k
			}
			if pos >= len(lx) {
				return "extra leaf " + k
			}
			l := lx[pos]
			pos++
			if l.Kind().String() != k || l.Value() != n.Value() {
				return fmt.Sprintf("leaf %d is %s %q, lexeme is %s %q", pos-1, k, n.Value(), l.Kind(), l.Value())
			}
			return ""
		}
		var kinds []string
		for i := 0; i < n.Children(); i++ {
			kinds = append(kinds, n.Child(i).Kind().String())
		}
		ok := false
		for _, a := range alts {
			ok = ok || rxMatchSeq(a, kinds, 0)[len(kinds)]
		}
		if !ok {
			return fmt.Sprintf("children of %s are %v, which its rule does not allow as a flat sequence", k, kinds)
		}
		for i := 0; i < n.Children(); i++ {
			if bad := rec(n.Child(i), n); bad != "" {
				return bad
			}
		}
		return ""
	}
	if root.Kind().String() != rs[0].nt {
		return "root is " + root.Kind().String()
	}
	if bad := rec(root, nil); bad != "" {
		return bad
	}
	if pos != len(lx) {
		return "leaves missing"
	}
	return ""
}
