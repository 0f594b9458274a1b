package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// family is a hand written grammar with an input bound: every word over its
// terminals up to length Max is an input, and so are the long words with all
// their single-edit neighbours.
type family struct {
	name string
	text string
	max  int
	deep int // thorough bound
	long []string
}

var families = []family{
	{"ambiguous-ops", "E -> E + E\n -> E * E\n -> n", 7, 9, []string{"n + n * n + n * n + n", "n * n * n * n + n + n"}},
	{"ops-parens", "E -> E + E\n -> E * E\n -> ( E )\n -> n", 5, 7, []string{"n * ( n + n ) * n + ( n )", "( ( ( n ) + n ) * n )", "( n + n ) * ( n * n )"}},
	{"ops-three-levels", "E -> E ^ E\n -> E * E\n -> E + E\n -> n", 5, 7, []string{"n + n * n ^ n * n + n"}},
	{"ops-group-alts", "E -> E P E\n -> E M E\n -> n\nP -> +\n -> -\nM -> *\n -> /", 5, 6, []string{"n + n * n - n / n"}},
	{"left-list", "L -> L , i\n -> i", 9, 12, []string{"i , i , i , i , i , i , i , i , i , i , i , i"}},
	{"right-list", "L -> i , L\n -> i", 9, 12, []string{"i , i , i , i , i , i , i , i , i , i , i , i"}},
	{"opt-list", "L -> [ M ]\nM -> I\n ->\nI -> I , v\n -> v", 6, 8, []string{"[ v , v , v , v , v ]", "[ ]"}},
	{"nested", "S -> ( S )\n -> x\n ->", 8, 10, []string{"( ( ( ( ( ( ( x ) ) ) ) ) ) )", "( ( ( ( ( ) ) ) ) )"}},
	{"dyck", "S -> S S\n -> ( S )\n ->", 8, 10, []string{"( ( ) ) ( ( ) ( ) )"}},
	{"dyck2", "S -> ( S ) S\n -> [ S ] S\n ->", 6, 7, []string{"( [ ] ( ) ) [ ( ) ]"}},
	{"palindrome", "S -> a S a\n -> b S b\n -> a\n -> b\n ->", 7, 10, []string{"a b a a b b a a b a"}},
	{"dangling-else", "S -> if S else S\n -> if S\n -> x", 6, 8, []string{"if if x else x", "if if x else if x else x", "if if if x else x else x"}},
	{"dangling-else-rev", "S -> if S\n -> if S else S\n -> x", 6, 8, []string{"if if x else x", "if if if x else x else x"}},
	{"hidden-left", "S -> N S a\n -> b\nN -> n\n ->", 6, 8, []string{"b a a a a", "n n b a a"}},
	{"null-chain", "S -> A B C x\nA -> B\n -> a\nB -> C\n -> b\nC ->\n -> c", 5, 6, []string{"a b c x", "c c c x"}},
	{"unit-chain", "S -> A\nA -> B\nB -> C\nC -> D\nD -> F\nF -> G\nG -> x\n -> G y", 6, 9, []string{"x y y y y y y"}},
	{"long-rhs", "S -> a O b O c O d O e\nO -> o\n ->", 4, 4, []string{"a b c d e", "a o b o c o d o e", "a o b c o d e", "a b o c d o e"}},
	{"long-nulls", "S -> A A A A A A\nA -> a\n ->", 8, 9, nil},
	{"many-alts", "S -> a S\n -> b S\n -> c S\n -> a\n -> b\n -> c\n -> a b\n -> b c\n -> c a\n -> a a a\n -> b b b\n -> c c c", 5, 7, []string{"a b c a b c a b", "c c c b b b a a a"}},
	{"mutual-left", "A -> B +\n -> +\nB -> A A\n -> -", 7, 9, []string{"+ - + + + +"}},
	{"mutual-left3", "A -> B x\n -> a\nB -> C y\n -> b\nC -> A z\n -> c", 5, 6, []string{"a z y x z y x", "c y x z y x"}},
	{"cyclic-units", "S -> A\n -> x\nA -> B\n -> y\nB -> S\n -> z S", 6, 7, []string{"z z z x", "z z y"}},
	{"cyclic-null", "S -> S S\n -> A\n ->\nA -> S\n -> a", 6, 8, []string{"a a a a a a a a"}},
	{"cyclic-null2", "S -> A S B\n -> s\nA -> a\n ->\nB -> b\n -> A", 5, 6, []string{"a a s b b", "a s a b a"}},
	{"center-left", "S -> S + T\n -> T\nT -> T * F\n -> F\nF -> ( S )\n -> n", 5, 7, []string{"n + n * n + n", "( n + n ) * n", "n * ( n * ( n + n ) )"}},
	{"shared-prefix", "S -> a b c d\n -> a b c\n -> a b\n -> a\n -> S ; S", 6, 7, []string{"a b c ; a b ; a b c d ; a"}},
	{"statements", "P -> P T ;\n ->\nT -> v = X\n -> { P }\nX -> X o X\n -> v", 5, 6, []string{"v = v o v o v ; { v = v ; } ;", "{ { } ; } ; v = v ;"}},
	{"two-words", "S -> A B\nA -> a A\n -> a\nB -> a B\n -> b", 7, 10, []string{"a a a a a a a b"}},
	{"both-sided", "S -> S a\n -> a S\n -> b", 8, 10, []string{"a a b a a a"}},
	{"non-lr", "S -> a S a\n -> a", 11, 14, nil},
	{"null-start", "S ->\n -> A S\nA -> a\n -> b", 6, 8, []string{"a b a b a b"}},
	{"useless", "S -> A\n -> x\nA -> A a\nB -> b", 4, 5, nil},
	{"duplicate-prods", "S -> A\n -> A\n -> a\nA -> a\n -> a\n -> S b", 6, 8, nil},
	{"json-like", "V -> s\n -> n\n -> A\n -> O\nA -> [ ]\n -> [ L ]\nL -> V\n -> V , L\nO -> { }\n -> { M }\nM -> K\n -> K , M\nK -> s : V", 3, 4, []string{"{ s : [ n , s ] , s : { } }", "[ [ ] , { s : n } , s ]", "[ n , n , n , n , n ]"}},
	{"gaps", "E -> E + E\n -> ( E )\n -> n\n -> G E G\nG -> _\n ->", 4, 5, []string{"_ n _ + _ n", "_ ( _ n + n ) _", "( n + _ n _ )"}},
	{"triple", "S -> A A A\nA -> a\n -> b\n -> A A", 6, 8, nil},
	{"late-alternative", "S -> A c\n -> B d\nA -> a A\n -> a\nB -> a B\n -> a", 6, 8, []string{"a a a a a a a d", "a a a a a a a c"}},
	{"wide-null-mid", "S -> x N N y N z\nN -> N n\n ->", 6, 7, []string{"x n n n y n n z", "x y z"}},
}

func parseSyms(g *CFG, s string) []int {
	f := strings.Fields(s)
	out := make([]int, len(f))
	for i, w := range f {
		out[i] = g.sym(w)
		if out[i] < 0 {
			panic("unknown symbol " + w + " in family")
		}
	}
	return out
}

// parseSpaces are the exhaustively enumerated grammar spaces.
func parseSpaces(thorough bool) []CFGSpace {
	if !thorough {
		return []CFGSpace{
			{Name: "1nt/2t/rhs3/prods3/len4", N: 1, T: 2, RHS: 3, MaxProds: []int{3}, InLen: 4},
			{Name: "2nt/2t/rhs2/prods2,2/len4", N: 2, T: 2, RHS: 2, MaxProds: []int{2, 2}, InLen: 4},
			{Name: "2nt/1t/rhs2/prods3,2/len5", N: 2, T: 1, RHS: 2, MaxProds: []int{3, 2}, InLen: 5},
			{Name: "3nt/1t/rhs2/prods2,1,1/len4", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 1, 1}, InLen: 4},
		}
	}
	return []CFGSpace{
		{Name: "1nt/2t/rhs3/prods3/len6", N: 1, T: 2, RHS: 3, MaxProds: []int{3}, InLen: 6},
		{Name: "2nt/2t/rhs2/prods3,2/len5", N: 2, T: 2, RHS: 2, MaxProds: []int{3, 2}, InLen: 5},
		{Name: "2nt/1t/rhs3/prods2,2/len6", N: 2, T: 1, RHS: 3, MaxProds: []int{2, 2}, InLen: 6},
		{Name: "3nt/1t/rhs2/prods2,2,1/len5", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 2, 1}, InLen: 5},
		{Name: "2nt/1t/rhs2/prods3,3/len6", N: 2, T: 1, RHS: 2, MaxProds: []int{3, 3}, InLen: 6},
	}
}

// eachParse enumerates (grammar, inputs).  filter selects grammars; run is
// called once per owned grammar with its inputs and makes the cases.
func eachParse(c *Ctx, filter func(g *CFG) bool, run func(g *CFG, ins [][]int)) {
	eachBlown(c, filter, run)
	for _, f := range families {
		g := parseCFG(f.text)
		if filter != nil && !filter(g) {
			continue
		}
		c.Space("family " + f.name)
		ts := rng(g.N, g.N+g.T)
		max := f.max
		if c.Thorough {
			max = f.deep
		}
		ins := words(ts, max)
		for _, l := range f.long {
			ins = append(ins, edits(parseSyms(g, l), ts)...)
		}
		for len(ins) > 0 {
			n := 500
			if n > len(ins) {
				n = len(ins)
			}
			if c.Unit() {
				run(g, ins[:n])
			}
			ins = ins[n:]
		}
	}
	for _, sp := range parseSpaces(c.Thorough) {
		c.Space(sp.Name)
		ins := words(rng(sp.N, sp.N+sp.T), sp.InLen)
		eachCFG(sp, func(g *CFG) {
			if !c.Unit() {
				return
			}
			if filter != nil && !filter(g) {
				return
			}
			run(g, ins)
		})
	}
}

// eachAlien enumerates inputs with kinds that no production can match: the
// non-terminals, a kind the grammar does not have and the empty kind.
func eachAlien(c *Ctx, filter func(g *CFG) bool, run func(g *CFG, ins [][]int)) {
	ins := func(g *CFG, max, lim int, good [][]int) (out [][]int) {
		all := rng(0, g.N+g.T+2)
		for pow(len(all), max) > lim {
			max--
		}
		for _, w := range words(all, max) {
			for _, s := range w {
				if s < g.N || s >= g.N+g.T {
					out = append(out, w)
					break
				}
			}
		}
		as := append(rng(0, g.N), g.N+g.T)
		for _, w := range good {
			if len(w) <= max || !newChart(g, w).accepts() {
				continue
			}
			for i := 0; i <= len(w); i++ {
				for _, a := range as {
					x := append(append(append([]int{}, w[:i]...), a), w[i:]...)
					out = append(out, x)
					if i < len(w) {
						x = append([]int{}, w...)
						x[i] = a
						out = append(out, x)
					}
				}
			}
		}
		return out
	}
	lim, wl := 800, 3
	if c.Thorough {
		lim, wl = 20000, 4
	}
	for _, f := range families {
		g := parseCFG(f.text)
		if filter != nil && !filter(g) {
			continue
		}
		c.Space("kinds no production matches, family " + f.name)
		var good [][]int
		for _, l := range f.long {
			good = append(good, parseSyms(g, l))
		}
		ts := rng(g.N, g.N+g.T)
		for n := wl; n > 0; n-- {
			if pow(len(ts), n) <= lim {
				good = append(good, words(ts, n)...)
				break
			}
		}
		if c.Unit() {
			run(g, ins(g, 4, lim, good))
		}
	}
	sps := []CFGSpace{
		{Name: "1nt/2t/rhs2/prods3", N: 1, T: 2, RHS: 2, MaxProds: []int{3}},
		{Name: "2nt/1t/rhs2/prods2,2", N: 2, T: 1, RHS: 2, MaxProds: []int{2, 2}},
	}
	if c.Thorough {
		sps = append(sps, CFGSpace{Name: "3nt/1t/rhs2/prods2,1,1", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 1, 1}}, CFGSpace{Name: "2nt/2t/rhs2/prods2,2", N: 2, T: 2, RHS: 2, MaxProds: []int{2, 2}}, CFGSpace{Name: "1nt/2t/rhs3/prods2", N: 1, T: 2, RHS: 3, MaxProds: []int{2}})
	}
	for _, sp := range sps {
		c.Space("kinds no production matches, " + sp.Name)
		good := words(rng(sp.N, sp.N+sp.T), wl)
		eachCFG(sp, func(g *CFG) {
			if c.Unit() && (filter == nil || filter(g)) {
				run(g, ins(g, 2, lim, good))
			}
		})
	}
}

func isNil(n parlex.ParseNode) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func caseDesc(g *CFG, in []int) func() string {
	return func() string { return g.Text() + "input " + g.word(in) }
}

// lexSnapshot captures what a caller can see of a lexeme slice.
func lexSnapshot(ls []parlex.Lexeme) string {
	var b strings.Builder
	for _, l := range ls {
		if l == nil {
			b.WriteString("<nil>;")
			continue
		}
		ln, cl := l.Pos()
		k := l.Kind()
		fmt.Fprintf(&b, "%p %T %s=%q@%d,%d;", l, k, k.String(), l.Value(), ln, cl)
		if reflect.ValueOf(k).Kind() == reflect.Ptr {
			fmt.Fprintf(&b, "%p;", k)
		}
	}
	return b.String()
}

// emptySpace runs f for every way of making a grammar without productions.
func emptySpace(c *Ctx, f func(rg parlex.Grammar) string) {
	c.Space("grammar without productions")
	mk := []struct {
		name string
		f    func() parlex.Grammar
	}{
		{"grammar.Empty()", func() parlex.Grammar { return grammar.Empty() }},
		{"grammar.New of empty text", func() parlex.Grammar { return (&CFG{}).Build() }},
		{"foreign grammar", func() parlex.Grammar { return (&CFG{}).BuildIface() }},
	}
	for _, m := range mk {
		m := m
		if c.Unit() {
			c.Case(func() string { return m.name }, func() string {
				c.Trans(1)
				if bad := f(m.f()); bad != "" {
					return m.name + ": " + bad
				}
				return ""
			})
		}
	}
}

// emptyWords are the inputs for a grammar without productions.
func emptyWords() [][]parlex.Lexeme {
	x, y := lexeme.New(stringsymbol.Symbol("a")).Set("1"), lexeme.New(stringsymbol.Symbol("")).Set("")
	return [][]parlex.Lexeme{nil, {}, {x}, {y}, {x, y}}
}

// faithful checks that tree n is a derivation tree of in by g, with the
// lexemes of lx as leaves and consistent links.
func faithful(g *CFG, n parlex.ParseNode, lx []parlex.Lexeme, wantPos bool) string {
	byName := map[string]int{}
	for s := 0; s < g.N+g.T; s++ {
		byName[g.name(s)] = s
	}
	pos := 0
	seen := map[parlex.ParseNode]bool{}
	var rec func(n, parent parlex.ParseNode, depth int) string
	rec = func(n, parent parlex.ParseNode, depth int) string {
		if isNil(n) {
			return "nil node in tree"
		}
		if depth > 5000 {
			return "tree is cyclic"
		}
		if seen[n] {
			return "node shared between two places: " + n.Kind().String()
		}
		seen[n] = true
		if p := n.Parent(); parent == nil {
			if !isNil(p) {
				return "root has a parent"
			}
		} else if isNil(p) || p != parent {
			return "wrong parent link at " + n.Kind().String()
		}
		s, ok := byName[n.Kind().String()]
		if !ok {
			return "node kind not in grammar: " + n.Kind().String()
		}
		k := n.Children()
		if s >= g.N {
			if k != 0 {
				return "terminal node with children"
			}
			if pos >= len(lx) {
				return "more leaves than lexemes"
			}
			l := lx[pos]
			pos++
			nl, nc := n.Pos()
			ll, lc := l.Pos()
			if n.Kind().String() != l.Kind().String() || n.Value() != l.Value() || nl != ll || nc != lc {
				return fmt.Sprintf("leaf %d is %s %q (%d,%d), lexeme is %s %q (%d,%d)", pos-1, n.Kind(), n.Value(), nl, nc, l.Kind(), l.Value(), ll, lc)
			}
			return ""
		}
		if n.Value() != "" {
			return "non-terminal node " + n.Kind().String() + " has value " + n.Value()
		}
		found := false
		for _, p := range g.P[s] {
			if len(p) != k {
				continue
			}
			ok := true
			for i, x := range p {
				if n.Child(i).Kind().String() != g.name(x) {
					ok = false
					break
				}
			}
			if ok {
				found = true
				break
			}
		}
		if !found {
			return "children of " + n.Kind().String() + " match no production: " + renderPN(g, n)
		}
		for i := 0; i < k; i++ {
			if bad := rec(n.Child(i), n, depth+1); bad != "" {
				return bad
			}
		}
		if wantPos && k > 0 {
			nl, nc := n.Pos()
			cl, cc := n.Child(0).Pos()
			if nl != cl || nc != cc {
				return fmt.Sprintf("node %s at (%d,%d), its first child at (%d,%d)", n.Kind(), nl, nc, cl, cc)
			}
		}
		return ""
	}
	if isNil(n) {
		return "nil tree"
	}
	if n.Kind().String() != g.name(0) {
		return "root is " + n.Kind().String() + ", not the start symbol"
	}
	if bad := rec(n, nil, 0); bad != "" {
		return bad
	}
	if pos != len(lx) {
		return fmt.Sprintf("tree has %d leaves, input has %d lexemes", pos, len(lx))
	}
	return ""
}

func init() {
	register(&Check{
		ID:     "C01",
		Rule:   "every grammar of the listed spaces (up to renaming of terminals, all non-terminals reachable; including left recursive, cyclic, ambiguous and nullable ones) and every listed grammar family, each against every terminal word up to the length bound, plus long words with all single-edit neighbours; oracle: least fixpoint of the derivation relation; non-trivial: the word is in the language",
		Bounds: []string{"very long inputs: left recursive lists of 1001 to 65540 items, right recursive ones of 401 and 601; 500 to 2049 alternatives", "special names: 4 small grammars with two symbols renamed to every ordered pair of about 95 names (case variants, primes, operators, comment and escape characters, white space, format verbs, invalid UTF-8, names used by the implementation; quick: a fifth of the pairs not involving one of 13 names)", "pumped words u v^k w x^k y of every family (to length 60, one family 40) and of all 1 NT/2 T, 2 NT/1 T and 3 NT/1 T grammars with RHS<=2 (to length 21); blown-up grammars: families and small grammars with something of size n in place of something small (alternatives padded, terminals repeated, unit chains, empty symbols before or after, copies of non-terminals, letter classes), n in 4, 9, 18 (1 NT/2 T and 2 NT/1 T grammars: 9)", "grammars: 1 NT/2 T/RHS<=3/<=3 productions; 2 NT/2 T/RHS<=2/<=2,2; 2 NT/1 T/RHS<=2/<=3,2; 3 NT/1 T/RHS<=2/<=2,1,1", "inputs: all words to length 4 or 5; families to length 3..11", "scaled families (lists, nesting, unit chains, alternatives, long productions, empty symbols, late choices, bracketings): sizes 1..20, around powers of two and hundreds to 300", "grammars without productions", "kinds no production matches (the non-terminals, an unknown and the empty kind): all words to length 2..4 and inserted or replaced at every place of accepted words, families and 1 NT/2 T, 2 NT/1 T grammars"},
		Run: func(c *Ctx) {
			emptySpace(c, func(rg parlex.Grammar) string {
				for _, w := range emptyWords() {
					if n := packrat.New(rg).Parse(w); n != nil {
						return fmt.Sprintf("a tree for %d lexemes", len(w))
					}
				}
				return ""
			})
			run := func(g *CFG, ins [][]int) {
				real := g.Build()
				for _, in := range ins {
					in := in
					c.Case(caseDesc(g, in), func() string {
						lx := g.lexemes(in)
						c.Trans(1)
						n := packrat.New(real).Parse(lx)
						want := newChart(g, in).accepts()
						got := n != nil
						if want {
							c.NonTrivial()
						}
						if got != want {
							return fmt.Sprintf("Parse returned a tree: %v; word in language: %v", got, want)
						}
						if got {
							c.OutcomeS(renderPN(g, n))
						} else {
							c.OutcomeS("reject")
						}
						return ""
					})
				}
			}
			eachParse(c, nil, run)
			eachAlien(c, nil, run)
			eachNamed(c, false, nil, run)
			scaleC01(c)
			hugeC01(c, false)
		},
	})
	register(&Check{
		ID:     "C02",
		Rule:   "as C01, for every word the parser accepts: root, productions, leaves (kind, value, position, order), positions of inner nodes, parent links, no sharing, input slice and lexemes untouched, same answer when parsed again; non-trivial: a tree was returned",
		Bounds: []string{"as C01"},
		Run: func(c *Ctx) {
			run := func(g *CFG, ins [][]int) {
				real := g.Build()
				for _, in := range ins {
					in := in
					c.Case(caseDesc(g, in), func() string {
						lx := g.lexemes(in)
						snap := lexSnapshot(lx)
						c.Trans(1)
						n := packrat.New(real).Parse(lx)
						if lexSnapshot(lx) != snap {
							return "the input lexemes were modified"
						}
						if n == nil {
							return ""
						}
						c.NonTrivial()
						c.OutcomeS(renderPN(g, n))
						return faithful(g, n, lx, true)
					})
				}
			}
			eachParse(c, nil, run)
			eachAlien(c, nil, run)
			eachNamed(c, false, nil, run)
			scaleC02(c)
			hugeC01(c, true)
		},
	})
	register(&Check{
		ID:     "C03",
		Rule:   "(1) as C01 restricted to grammars without cyclic derivations and words in the language: at every node of the returned tree no earlier-listed production of the node's symbol derives exactly the node's span; (2) every expression grammar with 1..3 binary operators listed first and a subset of {atom, parentheses, prefix, postfix} after them in every order, against every sentence up to the length bound: the tree is the one with the lexicographically least production choices in pre-order; non-trivial: more than one production derives the span",
		Bounds: []string{"as C01", "two matching ones among 40 to 1030 productions, two of 40 to 300 binary operators: pairs of places around powers of two and the ends", "expression sentences to length 7 (quick), 9 (thorough)", "scaled: 2..24 operands, 2..24 alternatives (thorough: 40)"},
		Assume: []string{"grammars without cyclic derivations (A =>+ A)"},
		Run: func(c *Ctx) {
			opSpace(c)
			scaleC03(c)
			hugeC03(c)
			run := func(g *CFG, ins [][]int) {
				real := g.Build()
				for _, in := range ins {
					in := in
					ch := newChart(g, in)
					if !ch.accepts() {
						continue
					}
					c.Case(caseDesc(g, in), func() string {
						c.Trans(1)
						n := packrat.New(real).Parse(g.lexemes(in))
						if isNil(n) {
							return "no tree for a word in the language"
						}
						return earliest(c, g, ch, n)
					})
				}
			}
			eachParse(c, func(g *CFG) bool { return !g.cyclic() }, run)
			eachNamed(c, false, func(g *CFG) bool { return !g.cyclic() }, run)
		},
	})
}

// sentences lists the distinct words of length 1..max derivable from the start
// symbol of a grammar without nullable symbols.
func sentences(g *CFG, max int) [][]int {
	type key struct{ s, n int }
	memo := map[key][][]int{}
	var of func(s, n int) [][]int
	var seq func(p []int, n int) [][]int
	seq = func(p []int, n int) [][]int {
		if len(p) == 0 {
			if n == 0 {
				return [][]int{{}}
			}
			return nil
		}
		var out [][]int
		for k := 1; k <= n-len(p)+1; k++ {
			hs := of(p[0], k)
			if len(hs) == 0 {
				continue
			}
			ts := seq(p[1:], n-k)
			for _, h := range hs {
				for _, t := range ts {
					out = append(out, append(append([]int{}, h...), t...))
				}
			}
		}
		return out
	}
	of = func(s, n int) [][]int {
		if s >= g.N {
			if n == 1 {
				return [][]int{{s}}
			}
			return nil
		}
		k := key{s, n}
		if r, ok := memo[k]; ok {
			return r
		}
		seen := map[string]bool{}
		var out [][]int
		for _, p := range g.P[s] {
			if len(p) == 1 && p[0] == s {
				continue
			}
			for _, w := range seq(p, n) {
				if ks := fmt.Sprint(w); !seen[ks] {
					seen[ks] = true
					out = append(out, w)
				}
			}
		}
		memo[k] = out
		return out
	}
	var out [][]int
	for n := 1; n <= max; n++ {
		out = append(out, of(0, n)...)
	}
	return out
}

// opSpace enumerates expression grammars and their sentences.
func opSpace(c *Ctx) {
	bins := []string{"E + E", "E * E", "E ^ E"}
	others := []string{"n", "( E )", "- E", "E !"}
	for nb := 1; nb <= 3; nb++ {
		for mask := 1; mask < 16; mask += 2 {
			var sel []string
			for i, o := range others {
				if mask&(1<<i) != 0 {
					sel = append(sel, o)
				}
			}
			for _, ar := range arrangements(len(sel), len(sel)) {
				if len(ar) != len(sel) {
					continue
				}
				t := "E"
				for _, b := range bins[:nb] {
					t += " -> " + b + "\n"
				}
				for _, x := range ar {
					t += " -> " + sel[x] + "\n"
				}
				max := 7
				if nb == 3 && len(sel) > 2 {
					max = 5
				}
				if c.Thorough {
					max += 2
				}
				c.Space(fmt.Sprintf("operators bin=%d other=%d len=%d", nb, len(sel), max))
				if !c.Unit() {
					continue
				}
				g := parseCFG(t)
				real := g.Build()
				for _, in := range sentences(g, max) {
					in := in
					c.Case(caseDesc(g, in), func() string {
						ch := newChart(g, in)
						c.Trans(1)
						n := packrat.New(real).Parse(g.lexemes(in))
						if isNil(n) {
							return "no tree for a word in the language"
						}
						if bad := earliest(c, g, ch, n); bad != "" {
							return bad
						}
						b := &bestOp{ch, map[[3]int]*Node{}}
						w := b.best(0, 0, len(in)).Render(g)
						if r := renderPN(g, n); r != w {
							return "got  " + r + "\nwant " + w
						}
						return ""
					})
				}
			}
		}
	}
}

// earliest checks the choice of production at every node.
func earliest(c *Ctx, g *CFG, ch *Chart, n parlex.ParseNode) string {
	ambiguous := false
	var rec func(n parlex.ParseNode, i int) (int, string)
	rec = func(n parlex.ParseNode, i int) (int, string) {
		s := g.sym(n.Kind().String())
		if s >= g.N {
			return i + 1, ""
		}
		j := i
		for k := 0; k < n.Children(); k++ {
			var bad string
			if j, bad = rec(n.Child(k), j); bad != "" {
				return 0, bad
			}
		}
		used := -1
		for pi, p := range g.P[s] {
			same := len(p) == n.Children()
			for k := 0; same && k < len(p); k++ {
				same = n.Child(k).Kind().String() == g.name(p[k])
			}
			if same {
				used = pi
				break
			}
		}
		for pi := 0; pi < used; pi++ {
			if ch.seq(g.P[s][pi], i, j) {
				return 0, fmt.Sprintf("node %s over lexemes %d..%d uses production %d; production %d derives the same span; tree %s", g.name(s), i, j, used, pi, renderPN(g, n))
			}
		}
		for pi := used + 1; pi < len(g.P[s]); pi++ {
			if ch.seq(g.P[s][pi], i, j) {
				ambiguous = true
			}
		}
		return j, ""
	}
	_, bad := rec(n, 0)
	if ambiguous {
		c.NonTrivial()
	}
	c.OutcomeS(renderPN(g, n))
	return bad
}
