package main

import (
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// firstSets: which terminals can begin a word derived from each symbol.
func (g *CFG) firstSets() [][]bool {
	n := g.N + g.T
	null := g.nullable()
	f := square(n)
	for t := g.N; t < n; t++ {
		f[t][t] = true
	}
	for ch := true; ch; {
		ch = false
		for nt, ps := range g.P {
			for _, p := range ps {
				for _, s := range p {
					for t := g.N; t < n; t++ {
						if f[s][t] && !f[nt][t] {
							f[nt][t] = true
							ch = true
						}
					}
					if !null[s] {
						break
					}
				}
			}
		}
	}
	return f
}

// nilFirst: from which symbols an empty production is reached through leftmost
// children only.
func (g *CFG) nilFirst() []bool {
	out := make([]bool, g.N+g.T)
	for ch := true; ch; {
		ch = false
		for nt, ps := range g.P {
			for _, p := range ps {
				if (len(p) == 0 || out[p[0]]) && !out[nt] {
					out[nt] = true
					ch = true
				}
			}
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:     "C18",
		Rule:   "every grammar of the listed spaces in which all non-terminals are productive, the parse families and the chains, as grammar.Grammar and through a foreign parlex.Grammar; every query of Analyze for every pair of symbols (given as foreign, string and set symbols) is compared with the least fixpoints on the reference grammar; the argument is unchanged and the result still is that grammar; non-trivial: the grammar has a nullable symbol or a cycle of left corners",
		Bounds: []string{"special names: 4 small grammars with two symbols renamed to every ordered pair of about 95 names (case variants, primes, operators, comment and escape characters, white space, format verbs, invalid UTF-8, names used by the implementation; quick: a fifth of the pairs not involving one of 13 names)", "blown-up grammars: families and small grammars with something of size n in place of something small (alternatives padded, terminals repeated, unit chains, empty symbols before or after, copies of non-terminals, letter classes), n in 4, 14", "1 NT/2 T/RHS<=3/3 productions; 2 NT/2 T/RHS<=3/2,1 and 1,2; 2 NT/2 T/RHS<=2/2,2; 3 NT/1 T/RHS<=2/2,1,1 and 1,2,1 and 1,1,2; chains to 5"},
		Assume: []string{"every non-terminal derives some terminal word", "what HasFirst answers for a non-terminal as the first symbol is outside the claim"},
		Run:    runC18,
	})
}

func checkAnalyze(c *Ctx, g *CFG, rg parlex.Grammar, how string) string {
	before := gtext(rg)
	c.Trans(1)
	a := analyze.Analyze(rg)
	if a == nil {
		return "nil"
	}
	first, nf := g.firstSets(), g.nilFirst()
	other := setsymbol.New()
	other.Str("~1")
	other.Str("~2")
	n := g.N + g.T
	used := make([]bool, n)
	for nt, ps := range g.P {
		used[nt] = len(ps) > 0
		for _, p := range ps {
			for _, s := range p {
				used[s] = true
			}
		}
	}
	forms := func(s int) []parlex.Symbol {
		nm := g.name(s)
		return []parlex.Symbol{stringsymbol.Symbol(nm), foreignSym(nm), other.Str(nm)}
	}
	for pass := 0; pass < 2; pass++ {
		for s := n - 1; s >= 0; s-- {
			for _, x := range forms(s) {
				c.Trans(3)
				if got := a.Contains(x); got != used[s] {
					return fmt.Sprintf("%s: Contains(%s) = %v", how, g.name(s), got)
				}
				if got := a.NonTerminal(x); got != (s < g.N && used[s]) {
					return fmt.Sprintf("%s: NonTerminal(%s) = %v", how, g.name(s), got)
				}
				if got := a.HasNilInFirst(x); got != nf[s] {
					return fmt.Sprintf("%s: HasNilInFirst(%s) = %v", how, g.name(s), got)
				}
			}
			fs := forms(s)
			for t := g.N; t < n; t++ {
				if !used[t] || !used[s] {
					continue
				}
				for i, y := range forms(t) {
					c.Trans(1)
					if got := a.HasFirst(fs[i], y); got != first[s][t] {
						return fmt.Sprintf("%s: HasFirst(%s, %s) = %v", how, g.name(s), g.name(t), got)
					}
				}
			}
			no := foreignSym("nobody")
			if a.HasFirst(fs[0], no) || a.HasFirst(no, fs[0]) {
				return how + ": HasFirst with an unknown symbol"
			}
		}
		no := foreignSym("nobody")
		if a.Contains(no) || a.NonTerminal(no) || a.HasNilInFirst(no) || a.HasFirst(no, no) {
			return how + ": an unknown symbol is known"
		}
	}
	if x := gtext(a); x != before {
		return how + ": the analysis is another grammar:\n" + x
	}
	if x := gtext(rg); x != before {
		return how + ": the argument changed:\n" + x
	}
	b := analyze.Analyze(a)
	for s := 0; s < n; s++ {
		x := stringsymbol.Symbol(g.name(s))
		if b.Contains(x) != used[s] || b.HasNilInFirst(x) != nf[s] {
			return how + ": Analyze of an analysis differs"
		}
	}
	return ""
}

func runC18(c *Ctx) {
	one := func(g *CFG, iface bool) {
		c.Case(func() string { return g.Text() }, func() string {
			nt := g.leftRecursive()
			for _, b := range g.nullable() {
				nt = nt || b
			}
			if nt {
				c.NonTrivial()
			}
			c.OutcomeS(fmt.Sprint(g.firstSets(), g.nilFirst()))
			if bad := checkAnalyze(c, g, g.Build(), "grammar.Grammar"); bad != "" {
				return bad
			}
			if iface {
				return checkAnalyze(c, g, g.BuildIface(), "foreign grammar")
			}
			return ""
		})
	}
	emptySpace(c, func(rg parlex.Grammar) string {
		return checkAnalyze(c, &CFG{}, rg, "empty")
	})
	scaleC18(c)
	eachNamed(c, false, nil, func(g *CFG, ins [][]int) { one(g, true) })
	ns := []int{4, 14}
	if c.Thorough {
		ns = []int{2, 3, 5, 9, 14, 18, 35}
	}
	eachBlownGrammar(c, ns, func(g *CFG) bool { return g.productive() }, func(g *CFG, ins [][]int) { one(g, false) })
	c.Space("families")
	for _, f := range families {
		g := parseCFG(f.text)
		if g.productive() && c.Unit() {
			one(g, true)
		}
	}
	c.Space("chains")
	for _, g := range lrFamilies(c.Thorough) {
		if g.productive() && c.Unit() {
			one(g, true)
		}
	}
	sps := []CFGSpace{
		{Name: "1nt/2t/rhs3/prods3", N: 1, T: 2, RHS: 3, MaxProds: []int{3}, AllNT: true},
		{Name: "2nt/2t/rhs3/prods2,1", N: 2, T: 2, RHS: 3, MaxProds: []int{2, 1}, AllNT: true},
		{Name: "2nt/2t/rhs3/prods1,2", N: 2, T: 2, RHS: 3, MaxProds: []int{1, 2}, AllNT: true},
		{Name: "2nt/2t/rhs2/prods2,2", N: 2, T: 2, RHS: 2, MaxProds: []int{2, 2}, AllNT: true},
		{Name: "3nt/1t/rhs2/prods2,1,1", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 1, 1}, AllNT: true},
		{Name: "3nt/1t/rhs2/prods1,2,1", N: 3, T: 1, RHS: 2, MaxProds: []int{1, 2, 1}, AllNT: true},
		{Name: "3nt/1t/rhs2/prods1,1,2", N: 3, T: 1, RHS: 2, MaxProds: []int{1, 1, 2}, AllNT: true},
	}
	if c.Thorough {
		sps = append(sps,
			CFGSpace{Name: "2nt/2t/rhs2/prods3,3", N: 2, T: 2, RHS: 2, MaxProds: []int{3, 3}, AllNT: true},
			CFGSpace{Name: "3nt/2t/rhs2/prods2,1,1", N: 3, T: 2, RHS: 2, MaxProds: []int{2, 1, 1}, AllNT: true},
			CFGSpace{Name: "3nt/1t/rhs2/prods2,2,1", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 2, 1}, AllNT: true},
			CFGSpace{Name: "4nt/1t/rhs2/prods1", N: 4, T: 1, RHS: 2, MaxProds: []int{1, 1, 1, 1}, AllNT: true})
	}
	for _, sp := range sps {
		c.Space(sp.Name)
		n := 0
		eachCFG(sp, func(g *CFG) {
			n++
			if c.Unit() && g.productive() {
				one(g, n%5 == 0)
			}
		})
	}
}
