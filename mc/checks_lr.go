package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
)

// lrFamilies scale the distance between a non-terminal and its recursion:
// chains of k symbols, with the recursive occurrence hidden behind m nullable
// symbols whose nullability needs d steps.
func lrFamilies(thorough bool) []*CFG {
	var out []*CFG
	kmax, mmax, dmax := 5, 3, 3
	if thorough {
		kmax, mmax, dmax = 8, 5, 5
	}
	for k := 1; k <= kmax; k++ {
		for m := 0; m <= mmax; m++ {
			for d := 1; d <= dmax; d++ {
				for at := 0; at < k; at++ {
					for variant := 0; variant < 6; variant++ {
						// X0 -> X1 t | t ; ... X(k-1) -> [nulls] X0 t | t
						var b strings.Builder
						if variant == 3 {
							b.WriteString("Q -> t X0\n -> q\n")
						}
						if variant == 4 {
							b.WriteString("Q -> q\n")
						}
						for i := 0; i < k; i++ {
							next := fmt.Sprintf("X%d", (i+1)%k)
							fmt.Fprintf(&b, "X%d -> t\n", i)
							b.WriteString(" ->")
							if i == at {
								for j := 0; j < m; j++ {
									b.WriteString(" N0")
								}
								if variant == 1 { // a non-nullable symbol blocks the recursion
									b.WriteString(" M")
								}
								if variant == 2 { // a terminal blocks it
									b.WriteString(" u")
								}
								if variant == 5 {
									b.WriteString(" W")
								}
							}
							b.WriteString(" " + next + " t\n")
						}
						for j := 0; j < d-1; j++ {
							fmt.Fprintf(&b, "N%d -> n N%d\n -> N%d N%d\n", j, j, j+1, j+1)
						}
						fmt.Fprintf(&b, "N%d -> n\n ->\n", d-1)
						b.WriteString("M -> m\n -> N0 m\n")
						b.WriteString("W -> N0 N0\n -> w\n")
						out = append(out, parseCFG(b.String()))
					}
				}
			}
		}
	}
	return out
}

func lrSpaces(thorough bool) []CFGSpace {
	sp := []CFGSpace{
		{Name: "1nt/1t/rhs4/prods2", N: 1, T: 1, RHS: 4, MaxProds: []int{2}, AllNT: true},
		{Name: "2nt/1t/rhs3/prods2,2", N: 2, T: 1, RHS: 3, MaxProds: []int{2, 2}, AllNT: true},
		{Name: "3nt/1t/rhs2/prods2,2,1", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 2, 1}, AllNT: true},
		{Name: "4nt/1t/rhs2/prods1,1,1,1", N: 4, T: 1, RHS: 2, MaxProds: []int{1, 1, 1, 1}, AllNT: true},
	}
	if thorough {
		sp = append(sp,
			CFGSpace{Name: "3nt/1t/rhs3/prods1,1,2", N: 3, T: 1, RHS: 3, MaxProds: []int{1, 1, 2}, AllNT: true},
			CFGSpace{Name: "3nt/1t/rhs2/prods1,2,2", N: 3, T: 1, RHS: 2, MaxProds: []int{1, 2, 2}, AllNT: true},
			CFGSpace{Name: "4nt/1t/rhs2/prods2,1,1,1", N: 4, T: 1, RHS: 2, MaxProds: []int{2, 1, 1, 1}, AllNT: true},
			CFGSpace{Name: "4nt/1t/rhs2/prods1,1,1,2", N: 4, T: 1, RHS: 2, MaxProds: []int{1, 1, 1, 2}, AllNT: true},
		)
	}
	return sp
}

// peg is the reference ordered-choice interpreter.
type peg struct {
	g    *CFG
	in   []int
	memo map[[2]int]*pegRes
}

type pegRes struct {
	n   *Node
	end int
}

func (p *peg) seq(prod []int, pos int) ([]*Node, int, bool) {
	var ch []*Node
	for _, s := range prod {
		r := p.first(s, pos)
		if r == nil {
			return nil, 0, false
		}
		ch = append(ch, r.n)
		pos = r.end
	}
	return ch, pos, true
}

func (p *peg) first(s, pos int) *pegRes {
	if s >= p.g.N {
		if pos < len(p.in) && p.in[pos] == s {
			return &pegRes{&Node{Sym: s, I: pos, J: pos + 1}, pos + 1}
		}
		return nil
	}
	k := [2]int{s, pos}
	if r, ok := p.memo[k]; ok {
		return r
	}
	var out *pegRes
	for i, prod := range p.g.P[s] {
		if ch, end, ok := p.seq(prod, pos); ok {
			out = &pegRes{&Node{Sym: s, Prod: i, I: pos, J: end, C: ch}, end}
			break
		}
	}
	p.memo[k] = out
	return out
}

func (p *peg) parse() *Node {
	for i, prod := range p.g.P[0] {
		if ch, end, ok := p.seq(prod, 0); ok && end == len(p.in) {
			return &Node{Prod: i, J: end, C: ch}
		}
	}
	return nil
}

func (g *CFG) productive() bool {
	pr := make([]bool, g.N+g.T)
	for i := g.N; i < g.N+g.T; i++ {
		pr[i] = true
	}
	for ch := true; ch; {
		ch = false
		for nt, ps := range g.P {
			for _, p := range ps {
				all := true
				for _, s := range p {
					all = all && pr[s]
				}
				if all && !pr[nt] {
					pr[nt] = true
					ch = true
				}
			}
		}
	}
	for _, b := range pr {
		if !b {
			return false
		}
	}
	return true
}

func (g *CFG) hasEps() bool {
	for _, ps := range g.P {
		for _, p := range ps {
			if len(p) == 0 {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		ID:     "C04",
		Rule:   "every grammar of the listed spaces (including unreachable and useless symbols), the parse families and scaled chains with the recursion hidden behind nullable symbols; as grammar.Grammar and as a foreign parlex.Grammar; oracle: transitive closure of 'may begin with' computed with the least fixpoint of nullability; topdown.New must report ErrLeftRecursion exactly for those; non-trivial: the grammar has a nullable symbol",
		Bounds: []string{"cycles and chains of 300, 601 and 1100 symbols", "special names: 4 small grammars with two symbols renamed to every ordered pair of about 95 names (case variants, primes, operators, comment and escape characters, white space, format verbs, invalid UTF-8, names used by the implementation; quick: a fifth of the pairs not involving one of 13 names)", "blown-up grammars: families and small grammars with something of size n in place of something small (alternatives padded, terminals repeated, unit chains, empty symbols before or after, copies of non-terminals, letter classes), n in 4, 9", "1 NT/RHS<=4/2 productions; 2 NT/RHS<=3/2,2; 3 NT/RHS<=2/2,2,1; 4 NT/RHS<=2/1 each; chains to 5 with 3 nullable symbols of depth 3", "scaled chains to 130 symbols, plain and behind nullable symbols"},
		Run: func(c *Ctx) {
			emptySpace(c, func(rg parlex.Grammar) string {
				if parlex.IsLeftRecursive(rg) {
					return "IsLeftRecursive"
				}
				if p, err := topdown.New(rg); err != nil || p == nil {
					return fmt.Sprint("topdown.New: ", err)
				}
				return ""
			})
			one := func(g *CFG, iface bool) {
				c.Case(func() string { return g.Text() }, func() string {
					want := g.leftRecursive()
					for _, b := range g.nullable() {
						if b {
							c.NonTrivial()
							break
						}
					}
					c.OutcomeS(fmt.Sprint(want))
					check := func(rg parlex.Grammar, how string) string {
						c.Trans(2)
						if got := parlex.IsLeftRecursive(rg); got != want {
							return fmt.Sprintf("%s: IsLeftRecursive = %v, want %v", how, got, want)
						}
						p, err := topdown.New(rg)
						if want && (err != topdown.ErrLeftRecursion || p != nil) {
							return fmt.Sprintf("%s: topdown.New of a left recursive grammar returned %v, %v", how, p, err)
						}
						if !want && (err != nil || p == nil) {
							return fmt.Sprintf("%s: topdown.New of a grammar without left recursion returned %v, %v", how, p, err)
						}
						return ""
					}
					if bad := check(g.Build(), "grammar.Grammar"); bad != "" {
						return bad
					}
					if iface {
						return check(g.BuildIface(), "foreign grammar")
					}
					return ""
				})
			}
			scaleC04(c)
			hugeC04(c)
			eachNamed(c, false, nil, func(g *CFG, ins [][]int) { one(g, true) })
			ns := []int{4, 9}
			if c.Thorough {
				ns = []int{2, 3, 5, 9, 18}
			}
			eachBlownGrammar(c, ns, nil, func(g *CFG, ins [][]int) { one(g, true) })
			c.Space("families")
			for _, f := range families {
				if c.Unit() {
					one(parseCFG(f.text), true)
				}
			}
			c.Space("chains")
			for _, g := range lrFamilies(c.Thorough) {
				if c.Unit() {
					one(g, true)
				}
			}
			for _, sp := range lrSpaces(c.Thorough) {
				c.Space(sp.Name)
				n := 0
				eachCFG(sp, func(g *CFG) {
					n++
					if c.Unit() {
						one(g, n%7 == 0)
					}
				})
			}
		},
	})
	register(&Check{
		ID:     "C05",
		Rule:   "every grammar without left recursion of the C01 spaces and families, every word up to the bound: the returned tree (or nil) equals that of a reference ordered-choice interpreter, is a derivation of the whole input with the lexemes as leaves and consistent parent links; non-trivial: a tree was returned",
		Bounds: []string{"very long inputs: right recursive lists of 1001 to 65540 items", "as C01 (scaled families included), grammars without left recursion"},
		Run: func(c *Ctx) {
			emptySpace(c, func(rg parlex.Grammar) string {
				p, err := topdown.New(rg)
				if err != nil {
					return err.Error()
				}
				for _, w := range emptyWords() {
					if n := p.Parse(w); !isNil(n) {
						return fmt.Sprintf("a tree for %d lexemes", len(w))
					}
				}
				return ""
			})
			run := func(g *CFG, ins [][]int) {
				real := g.Build()
				p, err := topdown.New(real)
				for _, in := range ins {
					in := in
					c.Case(caseDesc(g, in), func() string {
						if err != nil {
							return "topdown.New: " + err.Error()
						}
						lx := g.lexemes(in)
						snap := lexSnapshot(lx)
						c.Trans(1)
						n := p.Parse(lx)
						if lexSnapshot(lx) != snap {
							return "the input lexemes were modified"
						}
						want := (&peg{g, in, map[[2]int]*pegRes{}}).parse()
						if n == nil {
							c.OutcomeS("reject")
							if want != nil {
								return "rejected; ordered choice finds " + want.Render(g)
							}
							return ""
						}
						got := renderPN(g, n)
						if want == nil {
							return "accepted with " + got + "; ordered choice rejects"
						}
						c.NonTrivial()
						c.OutcomeS(got)
						if w := want.Render(g); w != got {
							return "got  " + got + "\nwant " + w
						}
						return faithful(g, n, lx, false)
					})
				}
			}
			eachParse(c, func(g *CFG) bool { return !g.leftRecursive() }, run)
			eachAlien(c, func(g *CFG) bool { return !g.leftRecursive() }, run)
			eachNamed(c, false, func(g *CFG) bool { return !g.leftRecursive() }, run)
			scaleC05(c)
			hugeC05(c)
			sp := CFGSpace{Name: "2nt/2t/rhs3/prods2,1/len4", N: 2, T: 2, RHS: 3, MaxProds: []int{2, 1}, InLen: 4}
			c.Space(sp.Name)
			ins := words(rng(sp.N, sp.N+sp.T), sp.InLen)
			eachCFG(sp, func(g *CFG) {
				if c.Unit() && !g.leftRecursive() {
					run(g, ins)
				}
			})
		},
	})
	register(&Check{
		ID:     "C06",
		Rule:   "every grammar of the listed spaces in which all non-terminals are productive, families and chains: the result generates the same words up to the bound with the same start symbol, is read back from its own text form, leaves its argument unchanged, and, if the grammar has no empty production and no cyclic derivation, is not left recursive and is accepted by topdown.New; for every list grammar with distinct leading terminals the topdown parser over the result accepts exactly the language; non-trivial: the grammar is left recursive",
		Bounds: []string{"300 and 1001 recursive alternatives", "special names: 4 small grammars with two symbols renamed to every ordered pair of about 95 names (case variants, primes, operators, comment and escape characters, white space, format verbs, invalid UTF-8, names used by the implementation; quick: a fifth of the pairs not involving one of 13 names)", "blown-up grammars: families and small grammars with something of size n in place of something small (alternatives padded, terminals repeated, unit chains, empty symbols before or after, copies of non-terminals, letter classes), n = 4", "1 NT/2 T/RHS<=3/<=3 productions; 2 NT/2 T/RHS<=2/<=2,2; 2 NT/1 T/RHS<=3/<=2,2; 3 NT/1 T/RHS<=2/<=2,1,1; words to length 5 (1 T) or 4 (2 T)", "list grammars: up to 2 recursive and 2 other productions over 3 terminals, both orders, words to length 5", "scaled: 1..130 recursive alternatives, recursion through 1..130 symbols"},
		Assume: []string{"every non-terminal derives some terminal word"},
		Run: func(c *Ctx) {
			emptySpace(c, func(rg parlex.Grammar) string {
				gg, ok := rg.(*grammar.Grammar)
				if !ok {
					return ""
				}
				out := grammar.RemoveLeftRecursion(gg)
				if out == nil || len(out.NonTerminals()) != 0 || out.String() != gg.String() {
					return fmt.Sprintf("RemoveLeftRecursion gave %v", out)
				}
				return ""
			})
			one := func(g *CFG, ins [][]int) {
				c.Case(func() string { return g.Text() }, func() string {
					return checkRemoveLR(c, g, ins)
				})
			}
			c.Space("families")
			for _, f := range families {
				g := parseCFG(f.text)
				if !g.productive() || !c.Unit() {
					continue
				}
				ts := rng(g.N, g.N+g.T)
				max := f.max
				for pow(len(ts), max) > 2500 {
					max--
				}
				ins := words(ts, max)
				for _, l := range f.long {
					ins = append(ins, edits(parseSyms(g, l), ts)...)
				}
				one(g, ins)
			}
			c.Space("primed names")
			for _, t := range []string{
				"E -> E + E\n -> E'\nE' -> n\n -> ( E )",
				"E' -> E' + n\n -> n\n -> E\nE -> E * x\n -> y",
				"E -> E + E'\n -> E'\nE' -> E' * E''\n -> E''\nE'' -> n",
				"A -> A' x\n -> A y\n -> z\nA' -> A' w\n -> A v\n -> u",
				"A -> A b'\n -> A'\n -> c",
			} {
				g := parseCFG(t)
				if c.Unit() {
					one(g, words(rng(g.N, g.N+g.T), 5))
				}
			}
			// the names the result would like to use are all taken: n primes,
			// by non-terminals that are left recursive themselves or not, by
			// terminals, in both orders
			pm := 7
			if c.Thorough {
				pm = 14
			}
			for n := 1; n <= pm; n++ {
				for v := 0; v < 8; v++ {
					if !c.Unit() {
						continue
					}
					var rules []string
					for i := 0; i <= n; i++ {
						nm, nx := "E"+strings.Repeat("'", i), "E"+strings.Repeat("'", i+1)
						if i == n {
							nx = "n"
						}
						if v&4 != 0 && i > 0 {
							// terminals hold the names
							rules[0] += "\n -> " + nm + " n"
							continue
						}
						r := nm + " -> " + nm + " +\n -> " + nx
						if v&1 != 0 && i > 0 {
							r = nm + " -> * " + nx + "\n -> " + nx
						}
						rules = append(rules, r)
					}
					if v&4 != 0 {
						rules[0] += "\n -> n"
					}
					if v&2 != 0 {
						for i := 1; i < len(rules)/2+1; i++ {
							j := len(rules) - i
							if i < j {
								rules[i], rules[j] = rules[j], rules[i]
							}
						}
						if len(rules) > 2 {
							// another start symbol
							rules[0], rules[1] = rules[1], rules[0]
						}
					}
					g := parseCFG(strings.Join(rules, "\n"))
					w := words(rng(g.N, g.N+g.T), 2)
					if g.T < 4 {
						w = words(rng(g.N, g.N+g.T), 5)
					}
					one(g, w)
				}
			}
			c.Space("ordered choice over the result")
			// A -> A s_i | b_j, the s_i starting with different terminals and
			// the b_j as well: first match is then the right match, provided
			// the order of the productions is kept and the list may end only
			// where nothing else matches
			for _, al := range arrangements(3, 2) {
				for _, be := range arrangements(3, 2) {
					for tails := 0; tails < 81; tails++ {
						for first := 0; first < 2; first++ {
							if !c.Unit() {
								continue
							}
							x := tails
							tail := func(p []int) []int {
								t := x % 3
								x /= 3
								if t > 0 {
									p = append(p, t) // a or b
								}
								return p
							}
							var as, bs [][]int
							for _, k := range al {
								as = append(as, tail([]int{0, 1 + k}))
							}
							for _, k := range be {
								bs = append(bs, tail([]int{1 + k}))
							}
							if x > 0 {
								continue
							}
							g := &CFG{N: 1, T: 3, P: [][][]int{append(append([][]int{}, as...), bs...)}}
							if first == 1 {
								g.P[0] = append(append([][]int{}, bs...), as...)
							}
							for _, in := range words([]int{1, 2, 3}, 5) {
								in := in
								c.Case(func() string { return g.Text() + "topdown over the result, input " + g.word(in) }, func() string {
									c.Trans(2)
									p, err := topdown.New(grammar.RemoveLeftRecursion(g.Build()))
									if err != nil {
										return err.Error()
									}
									want := newChart(g, in).accepts()
									if want {
										c.NonTrivial()
									}
									if got := !isNil(p.Parse(g.lexemes(in))); got != want {
										return fmt.Sprintf("accepted: %v, in the language: %v", got, want)
									}
									return ""
								})
							}
						}
					}
				}
			}
			scaleC06(c)
			hugeC06(c)
			eachNamed(c, true, nil, func(g *CFG, ins [][]int) {
				one(g, words([]int{2, 3}, 4))
			})
			ns := []int{4}
			if c.Thorough {
				ns = []int{2, 3, 4} // substitution makes some of these grammars exponential in n
			}
			eachBlownGrammar(c, ns, func(g *CFG) bool { return g.productive() }, one)
			c.Space("chains")
			for _, g := range lrFamilies(false) {
				if !c.Unit() {
					continue
				}
				one(g, words([]int{g.sym("t"), g.sym("n"), g.sym("m")}, 4))
			}
			sps := []CFGSpace{
				{Name: "1nt/2t/rhs3/prods3", N: 1, T: 2, RHS: 3, MaxProds: []int{3}, InLen: 4},
				{Name: "2nt/2t/rhs2/prods2,2", N: 2, T: 2, RHS: 2, MaxProds: []int{2, 2}, InLen: 4, AllNT: true},
				{Name: "2nt/1t/rhs3/prods2,1", N: 2, T: 1, RHS: 3, MaxProds: []int{2, 1}, InLen: 5, AllNT: true},
				{Name: "2nt/1t/rhs3/prods1,2", N: 2, T: 1, RHS: 3, MaxProds: []int{1, 2}, InLen: 5, AllNT: true},
				{Name: "3nt/1t/rhs2/prods2,1,1", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 1, 1}, InLen: 5},
				{Name: "3nt/1t/rhs2/prods1,1,2/noeps", N: 3, T: 1, RHS: 2, MaxProds: []int{1, 1, 2}, InLen: 5, NoEps: true, AllNT: true},
				{Name: "3nt/1t/rhs2/prods2,2,2/noeps/units", N: 3, T: 1, RHS: 1, MaxProds: []int{3, 3, 3}, InLen: 3, NoEps: true},
			}
			if c.Thorough {
				sps = append(sps,
					CFGSpace{Name: "2nt/2t/rhs2/prods3,2", N: 2, T: 2, RHS: 2, MaxProds: []int{3, 2}, InLen: 4},
					CFGSpace{Name: "2nt/1t/rhs3/prods2,2", N: 2, T: 1, RHS: 3, MaxProds: []int{2, 2}, InLen: 6},
					CFGSpace{Name: "3nt/1t/rhs2/prods2,2,1/noeps", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 2, 1}, InLen: 5, NoEps: true},
					CFGSpace{Name: "3nt/1t/rhs2/prods1,2,2/noeps", N: 3, T: 1, RHS: 2, MaxProds: []int{1, 2, 2}, InLen: 5, NoEps: true})
			}
			for _, sp := range sps {
				c.Space(sp.Name)
				ins := words(rng(sp.N, sp.N+sp.T), sp.InLen)
				eachCFG(sp, func(g *CFG) {
					if c.Unit() && g.productive() {
						one(g, ins)
					}
				})
			}
		},
	})
}

func pow(b, e int) int {
	r := 1
	for ; e > 0 && r < 1<<40; e-- {
		r *= b
	}
	return r
}

func checkRemoveLR(c *Ctx, g *CFG, ins [][]int) string {
	real := g.Build()
	before := real.String()
	c.Trans(1)
	out := grammar.RemoveLeftRecursion(real)
	if out == nil {
		return "returned nil"
	}
	if g.leftRecursive() {
		c.NonTrivial()
	}
	if real.String() != before {
		return "the argument was changed:\n" + before + "\n->\n" + real.String()
	}
	og := readGrammar(out)
	show := func() string { return "result:\n" + out.String() }
	if og.N == 0 || og.name(0) != g.name(0) {
		return "start symbol changed; " + show()
	}
	c.OutcomeS(og.Text())
	if !g.hasEps() && !g.cyclic() {
		if og.leftRecursive() {
			return "result is left recursive; " + show()
		}
		if parlex.IsLeftRecursive(out) {
			return "IsLeftRecursive(result); " + show()
		}
		if _, err := topdown.New(out); err != nil {
			return "topdown.New rejects the result; " + show()
		}
	}
	text := out.String()
	rg, err := grammar.New(text)
	if err != nil {
		return "String() of the result is not a grammar: " + text
	}
	if rt := readGrammar(rg).Text(); rt != og.Text() {
		return "String() of the result defines another grammar:\n" + og.Text() + "\n->\n" + rt
	}
	for _, in := range ins {
		a := newChart(g, in).accepts()
		b := newChart(og, mapWord(g, og, in)).accepts()
		if a != b {
			return fmt.Sprintf("word %s: in original language %v, in result's language %v; %s", g.word(in), a, b, show())
		}
	}
	// the result is usable by the real parser as well
	for i := 0; i < len(ins) && i < 4; i++ {
		c.Trans(1)
		a := newChart(g, ins[i]).accepts()
		if b := packrat.New(out).Parse(g.lexemes(ins[i])) != nil; a != b {
			return fmt.Sprintf("packrat over the result on %s: %v, want %v; %s", g.word(ins[i]), b, a, show())
		}
	}
	return ""
}
