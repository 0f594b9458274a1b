package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// Sizes beyond those of the scaled families: past a thousand, past four
// thousand and, where one call is cheap enough, past the ranges of 16 bit
// counters.
var (
	large = []int{500, 1001, 1025, 2049}
	big   = []int{1001, 4099}
	huge  = []int{10001, 32770, 65540}
)

// hugeCase makes one unit with one case.
func hugeCase(c *Ctx, desc string, f func() string) {
	if c.Unit() {
		c.Case(func() string { return desc }, func() string {
			c.Trans(1)
			c.NonTrivial()
			return f()
		})
	}
}

// hugeList is a list grammar with a word of n items.
func hugeList(n int, left bool) (*CFG, []int) {
	g := parseCFG("L -> L , i\n  -> i")
	if !left {
		g = parseCFG("L -> i T\nT -> , i T\n  ->")
	}
	var in []int
	for i := 0; i < n; i++ {
		if i > 0 {
			in = append(in, g.sym(","))
		}
		in = append(in, g.sym("i"))
	}
	return g, in
}

func hugeC01(c *Ctx, tree bool) {
	c.Space("very long inputs")
	for _, n := range append(append([]int{}, big...), huge...) {
		n := n
		hugeCase(c, fmt.Sprintf("left recursive list of %d", n), func() string {
			g, in := hugeList(n, true)
			lx := g.lexemes(in)
			p := packrat.New(g.Build())
			r := p.Parse(lx)
			if r == nil {
				return "refused"
			}
			if tree {
				return hugeListTree(r, lx)
			}
			if p.Parse(lx[:len(lx)-1]) != nil {
				return "accepted without its last item"
			}
			return ""
		})
	}
	for _, n := range []int{401, 601} {
		n := n
		hugeCase(c, fmt.Sprintf("right recursive list of %d", n), func() string {
			g, in := hugeList(n, false)
			lx := g.lexemes(in)
			p := packrat.New(g.Build())
			r := p.Parse(lx)
			if r == nil {
				return "refused"
			}
			if tree {
				return faithful(g, r, lx, true)
			}
			if p.Parse(lx[:len(lx)-1]) != nil {
				return "accepted without its last item"
			}
			return ""
		})
	}
	c.Space("very large grammars")
	for _, n := range large {
		n := n
		hugeCase(c, fmt.Sprintf("%d alternatives", n), func() string {
			gr := grammar.Empty()
			s := stringsymbol.Symbol("S")
			for i := 0; i < n; i++ {
				gr.Add(s, stringsymbol.Production{stringsymbol.Symbol(fmt.Sprint("t", i)), "x"})
			}
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				t := packrat.New(gr).Parse(kindLexemes([]string{fmt.Sprint("t", i), "x"}))
				if isNil(t) || t.Children() != 2 || t.Child(0).Kind().String() != fmt.Sprint("t", i) {
					return fmt.Sprintf("alternative %d is refused", i)
				}
				if packrat.New(gr).Parse(kindLexemes([]string{fmt.Sprint("t", i), fmt.Sprint("t", i)})) != nil {
					return fmt.Sprintf("alternative %d accepts another word", i)
				}
			}
			return ""
		})
	}
}

// hugeListTree checks the left recursive list tree without recursion.
func hugeListTree(r parlex.ParseNode, lx []parlex.Lexeme) string {
	leaf := func(n parlex.ParseNode, l parlex.Lexeme) string {
		a, b := n.Pos()
		x, y := l.Pos()
		if n.Kind().String() != l.Kind().String() || n.Value() != l.Value() || a != x || b != y || n.Children() != 0 {
			return fmt.Sprintf("leaf %s %q, expected %s %q", n.Kind(), n.Value(), l.Kind(), l.Value())
		}
		return ""
	}
	i := len(lx) - 1
	for ; i > 0; i -= 2 {
		if r.Kind().String() != "L" || r.Children() != 3 {
			return fmt.Sprintf("not a list with 3 children before lexeme %d", i)
		}
		for k, n := range []int{0, i - 1, i} {
			if r.Child(k).Parent() != r {
				return "parent link"
			}
			if k > 0 {
				if bad := leaf(r.Child(k), lx[n]); bad != "" {
					return bad
				}
			}
		}
		r = r.Child(0)
	}
	if r.Kind().String() != "L" || r.Children() != 1 {
		return "the first item"
	}
	return leaf(r.Child(0), lx[0])
}

func hugeC05(c *Ctx) {
	c.Space("very long inputs")
	for _, n := range append(append([]int{}, big...), huge...) {
		n := n
		hugeCase(c, fmt.Sprintf("list of %d", n), func() string {
			g, in := hugeList(n, false)
			lx := g.lexemes(in)
			p, err := topdown.New(g.Build())
			if err != nil {
				return err.Error()
			}
			r := p.Parse(lx)
			if isNil(r) {
				return "refused"
			}
			if !isNil(p.Parse(lx[:len(lx)-1])) {
				return "accepted without its last item"
			}
			k := 0
			for cur := r; ; {
				for j := 0; j < cur.Children()-1; j++ {
					x := cur.Child(j)
					if k >= len(lx) || x.Kind().String() != lx[k].Kind().String() || x.Value() != lx[k].Value() || x.Parent() != cur {
						return fmt.Sprintf("leaf %d", k)
					}
					k++
				}
				if cur.Children() == 0 {
					break
				}
				cur = cur.Child(cur.Children() - 1)
			}
			if k != len(lx) {
				return fmt.Sprintf("%d leaves", k)
			}
			return ""
		})
	}
}

func hugeC04(c *Ctx) {
	c.Space("very long chains")
	for _, n := range []int{300, 601, 1100} {
		for closed := 0; closed < 2; closed++ {
			n, closed := n, closed
			hugeCase(c, fmt.Sprintf("chain of %d symbols, closed: %d", n, closed), func() string {
				gr := grammar.Empty()
				for i := 0; i < n; i++ {
					next := stringsymbol.Symbol(fmt.Sprint("N", i+1))
					if i == n-1 {
						next = "t"
						if closed == 1 {
							next = stringsymbol.Symbol(fmt.Sprint("N", n/2))
						}
					}
					gr.Add(stringsymbol.Symbol(fmt.Sprint("N", i)), stringsymbol.Production{next, "t"})
				}
				if parlex.IsLeftRecursive(gr) != (closed == 1) {
					return "IsLeftRecursive"
				}
				if _, err := topdown.New(gr); (err != nil) != (closed == 1) {
					return fmt.Sprint("topdown.New: ", err)
				}
				return ""
			})
		}
	}
}

func hugeC06(c *Ctx) {
	c.Space("very many alternatives")
	for _, n := range []int{300, 1001} {
		n := n
		hugeCase(c, fmt.Sprintf("%d recursive alternatives", n), func() string {
			gr := grammar.Empty()
			for i := 0; i < n; i++ {
				gr.Add(stringsymbol.Symbol("A"), stringsymbol.Production{"A", stringsymbol.Symbol(fmt.Sprint("t", i))})
			}
			gr.Add(stringsymbol.Symbol("A"), stringsymbol.Production{"x"})
			out := grammar.RemoveLeftRecursion(gr)
			if parlex.IsLeftRecursive(out) {
				return "left recursive"
			}
			p, err := topdown.New(out)
			if err != nil {
				return err.Error()
			}
			yes := []string{"x"}
			for i := n - 1; i >= 0; i-- {
				yes = append(yes, fmt.Sprint("t", i))
			}
			if isNil(p.Parse(kindLexemes(yes))) {
				return "a word of the language is refused"
			}
			if !isNil(p.Parse(kindLexemes(append(yes, "x")))) {
				return "a word not in the language is accepted"
			}
			return ""
		})
	}
}

func hugeC07(c *Ctx) {
	c.Space("very large grammars")
	for _, n := range []int{1001, 4099} {
		for shape := 0; shape < 3; shape++ {
			n, shape := n, shape
			hugeCase(c, fmt.Sprintf("shape %d of size %d", shape, n), func() string {
				var lines []string
				var want [][2]string
				add := func(nt, w string) {
					lines = append(lines, nt+" -> "+w)
					want = append(want, [2]string{nt, w})
				}
				switch shape {
				case 0:
					for i := 0; i < n; i++ {
						add("A", fmt.Sprint("x t", i))
					}
				case 1:
					for i := 0; i < n; i++ {
						add(fmt.Sprint("N", i), fmt.Sprintf("N%d x", (i+1)%n))
					}
				case 2:
					add("A", strings.TrimSpace(strings.Repeat("x y z ", n)))
				}
				check := func(rg *grammar.Grammar) string {
					k := 0
					for _, nt := range rg.NonTerminals() {
						for it := rg.Productions(nt).Iter(); it.Next(); k++ {
							var w []string
							for j := it.Iter(); j.Next(); {
								w = append(w, j.Symbol.String())
							}
							if k >= len(want) || nt.String() != want[k][0] || strings.Join(w, " ") != want[k][1] {
								return fmt.Sprintf("production %d differs", k)
							}
						}
					}
					if k != len(want) {
						return fmt.Sprintf("%d productions, expected %d", k, len(want))
					}
					return ""
				}
				rg, err := grammar.New(strings.Join(lines, "\n"))
				if err != nil {
					return err.Error()
				}
				if bad := check(rg); bad != "" {
					return bad
				}
				r2, err := grammar.New(rg.String())
				if err != nil {
					return err.Error()
				}
				if bad := check(r2); bad != "" {
					return "read back: " + bad
				}
				r3 := grammar.Empty()
				for _, w := range want {
					p := stringsymbol.Production{}
					for _, s := range strings.Fields(w[1]) {
						p = append(p, stringsymbol.Symbol(s))
					}
					r3.Add(stringsymbol.Symbol(w[0]), p)
				}
				return check(r3)
			})
		}
	}
}

func hugeIns() (out []string) {
	for _, n := range append(append([]int{}, big...), huge...) {
		a, nl, sp := strings.Repeat("a", n), strings.Repeat("\n", n), strings.Repeat(" ", n)
		out = append(out, a+" b?", nl+"b ?\nb", sp+"b?b", `"`+nl+a+`" b ?`, "b?"+nl+"?"+a)
	}
	for _, n := range []int{1001, 3001} {
		out = append(out, strings.Repeat("?", n)+"b?", strings.Repeat("ab ", n)+"?", strings.Repeat("a?\n", n))
	}
	return
}

func hugeC10(c *Ctx, f func(d *simpleDef, in string)) {
	c.Space("very long inputs")
	for _, in := range hugeIns() {
		if c.Unit() {
			f(&simpleDef{rules: []lrule{{kind: "w", src: `\w+`}, {kind: "s", src: `\s+`, discard: true}, {kind: "q", src: `"[^"]*"`}}}, in)
		}
	}
	c.Space("very many rules")
	for _, n := range []int{1030} {
		if !c.Unit() {
			continue
		}
		d := &simpleDef{}
		in := ""
		for i := 0; i < n; i++ {
			d.rules = append(d.rules, lrule{kind: fmt.Sprint("k", i), src: fmt.Sprint("k", i, "x")})
			if i%100 == 0 || i > n-10 {
				in += fmt.Sprintf("k%dx", i)
			}
		}
		f(d, in)
	}
}

func hugeC11(c *Ctx, f func(d *stackDef, ins []string)) {
	c.Space("very long inputs")
	for _, in := range hugeIns() {
		if c.Unit() {
			f(&stackDef{subs: []subDef{{"Main", []lrule{{kind: "w", src: `\w+`}, {kind: "s", src: `\s+`, discard: true}, {kind: "q", src: `"[^"]*"`}}}}}, []string{in})
		}
	}
	c.Space("very deep stacks")
	for _, n := range []int{1001, 2500} {
		if c.Unit() {
			d := &stackDef{subs: []subDef{
				{"Main", []lrule{{kind: "o", src: `\(`, push: "In"}, {kind: "w", src: `a`}}},
				{"In", []lrule{{kind: "p", src: `\(`, push: "In"}, {kind: "c", src: `\)`, pop: 1}, {kind: "v", src: `a`}}}}}
			f(d, []string{strings.Repeat("(", n) + "a" + strings.Repeat(")", n-1) + "a)a)a", strings.Repeat("(", n) + "!a"})
		}
	}
}

func hugeC14(c *Ctx) {
	c.Space("very large trees")
	var ts []*rt
	var names []string
	for _, n := range append(append([]int{}, big...), huge...) {
		wide := &rt{kind: "A"}
		for i := 0; i < n; i++ {
			wide.ch = append(wide.ch, &rt{kind: "B", val: fmt.Sprint(i)})
		}
		ts = append(ts, wide, &rt{kind: "A", ch: []*rt{{kind: "B", val: strings.Repeat("v\n", n)}, {kind: "C"}}})
		names = append(names, fmt.Sprint("wide ", n), fmt.Sprint("value ", n))
	}
	for _, n := range []int{600, 1100} {
		deep := &rt{kind: "A", val: "leaf"}
		for i := 1; i < n; i++ {
			deep = &rt{kind: "A", ch: []*rt{deep, {kind: "D"}}}
		}
		ts = append(ts, deep)
		names = append(names, fmt.Sprint("deep ", n))
	}
	for i, t := range ts {
		t := t
		hugeCase(c, names[i], func() string {
			p := t.pn()
			q, err := tree.New(p.String())
			if err != nil {
				return err.Error()
			}
			if n := q.Size(); n != t.size() {
				return fmt.Sprintf("Size %d", n)
			}
			if bad := t.diff(q, false); bad != "" {
				return trunc(bad)
			}
			if bad := t.diff(tree.Clone(p), true); bad != "" {
				return "Clone: " + trunc(bad)
			}
			return ""
		})
	}
}

func hugeC15(c *Ctx, one func(t *rt, s step) string) {
	c.Space("very wide nodes")
	for _, n := range append(append([]int{}, big...), huge...) {
		if !c.Unit() {
			continue
		}
		t := scaledTrees(n)[0]
		idxs := []int{0, n / 2, n - 1, n, -1, -n, -n - 1}
		if n > 10000 {
			idxs = []int{n - 2, -n, n}
		}
		for _, o := range opsFor(idxs, [][]int{{n - 1, 0, -1, n / 2}, rng(n/2, n)}, [][]string{{"B"}, {"C", "D"}}) {
			s := step{nil, o}
			c.Case(func() string { return fmt.Sprintf("%d children, %s", n, trunc(o.name)) }, func() string {
				c.NonTrivial()
				ref := t.clone()
				p := t.pn()
				wr, has := s.op.ref(ref)
				c.Trans(1)
				if r := s.op.meth(p); has && r != wr {
					return fmt.Sprint("returned ", r)
				}
				return trunc(ref.diff(p, true))
			})
		}
	}
}

func hugeC16(c *Ctx) {
	c.Space("very large trees")
	for _, n := range append(append([]int{}, big...), huge...) {
		n := n
		hugeCase(c, fmt.Sprint("wide ", n), func() string {
			t := scaledTrees(n)[0]
			x, y := mark("x"), mark("y")
			m := map[string]func(*rt){"B": x.ref, "D": y.ref}
			r := tree.Merge(tree.Reducer{"B": x.real}, tree.Reducer{"D": y.real})
			p := t.pn()
			if bad := refReduce(t, m).diff(r.Reduce(p), true); bad != "" {
				return trunc(bad)
			}
			return trunc(t.diff(p, true))
		})
	}
	for _, n := range []int{1001, 4001} {
		n := n
		hugeCase(c, fmt.Sprint("deep ", n), func() string {
			deep := &rt{kind: "A", val: "leaf"}
			for i := 1; i < n; i++ {
				deep = &rt{kind: []string{"A", "B"}[i%2], ch: []*rt{deep}, l: i}
			}
			x := mark("x")
			m := map[string]func(*rt){"B": x.ref}
			return trunc(refReduce(deep, m).diff(tree.Reducer{"B": x.real}.Reduce(deep.pn()), true))
		})
	}
}

func hugeC19(c *Ctx) {
	c.Space("very long results")
	for _, n := range append(append([]int{}, big...), huge...) {
		for _, at := range []int{-1, n / 2, n - 1} {
			n, at := n, at
			hugeCase(c, fmt.Sprintf("%d lexemes, error at %d", n, at), func() string {
				log := &stubLog{}
				lx := &stubLexer{log: log}
				for i := 0; i < n; i++ {
					l := lexeme.String("k")
					if i == at {
						lx.out = append(lx.out, &stubErrLexeme{l, i})
					} else {
						lx.out = append(lx.out, l)
					}
				}
				root := &tree.PN{Lexeme: lexeme.String("root")}
				t, err := parlex.Run("in", lx, &stubParser{log: log, out: root})
				if at < 0 {
					if err != nil || t != parlex.ParseNode(root) {
						return fmt.Sprintf("got %v, %v", t, err)
					}
					return ""
				}
				if e, ok := err.(*stubErrLexeme); !ok || e.id != at || t != nil || len(log.ev) != 1 {
					return fmt.Sprintf("got %v, %v", t, err)
				}
				return ""
			})
		}
	}
}

func hugeC20(c *Ctx) {
	c.Space("very large sets and productions")
	for _, n := range append(append([]int{}, big...), huge...) {
		n := n
		hugeCase(c, fmt.Sprintf("%d symbols", n), func() string {
			set := setsymbol.New()
			given := make([]*setsymbol.Symbol, n)
			nm := func(i int) string { return fmt.Sprint("s", i) }
			var syms []parlex.Symbol
			for i := range given {
				given[i] = set.Str(nm(i))
				syms = append(syms, foreignSym(nm(n-1-i)))
			}
			p := set.Production(syms...)
			if set.Size() != n || p.Symbols() != n {
				return "Size"
			}
			other := setsymbol.New()
			q := other.CastProduction(p)
			for i := range given {
				if given[i].Idx() != i || given[i].String() != nm(i) || set.ByIdx(i).String() != nm(i) || set.Idx(syms[n-1-i]) != i || !set.Has(nm(i)) {
					return fmt.Sprintf("symbol %d", i)
				}
				if p.Symbol(i).String() != nm(n-1-i) || q.Symbol(i).String() != nm(n-1-i) {
					return fmt.Sprintf("symbol %d of the production", i)
				}
			}
			if set.ByIdx(n) != nil || set.Has(nm(n)) {
				return "unknown symbol"
			}
			return ""
		})
	}
}

func hugeC27(c *Ctx) {
	c.Space("very many lexemes")
	for _, n := range append(append([]int{}, big...), huge...) {
		n := n
		hugeCase(c, fmt.Sprintf("%d lexemes", n), func() string {
			var ls []parlex.Lexeme
			var short, long []string
			errs := 0
			for i := 0; i < n; i++ {
				l := lexeme.String("k").Set(fmt.Sprint(i)).At(i+1, n-i)
				if i%1000 == 0 || i == n-1 {
					ls = append(ls, &stubErrLexeme{l, i})
					errs++
				} else {
					ls = append(ls, l)
				}
				short = append(short, fmt.Sprint("k: ", i))
				long = append(long, fmt.Sprintf("k: \"%d\" (%d, %d)", i, i+1, n-i))
			}
			if parlex.LexemeString(ls...) != "["+strings.Join(short, ", ")+"]" {
				return "LexemeString"
			}
			if parlex.LexemeList(ls) != strings.Join(long, "\n") {
				return "LexemeList"
			}
			if es := parlex.LexErrors(ls); len(es) != errs || parlex.Lexeme(es[errs-1]) != ls[n-1] {
				return "LexErrors"
			}
			return ""
		})
	}
}

// hugeC24 and hugeC25: long expressions.
func hugeC24(c *Ctx, one func(t []string)) {
	c.Space("long expressions")
	for _, n := range sizes(c.Thorough, 130) {
		if !c.Unit() {
			continue
		}
		for _, op := range []string{"+", "-", "*", "/"} {
			t := []string{"7"}
			mix := []string{"7"}
			for i := 0; i < n; i++ {
				t = append(t, op, []string{"2", "3", ".5"}[i%3])
				mix = append(mix, []string{"+", "*", "-", "/"}[(i+len(op)+int(op[0]))%4], "3")
			}
			one(t)
			one(mix)
			one(append(append([]string{}, t...), op))
		}
		if n <= 40 {
			var l, r []string
			for i := 0; i < n; i++ {
				l = append(l, "(")
				r = append(r, ")", "-", "2")
			}
			one(append(append(append([]string{}, l...), "1"), r...))
			one(append(append(append([]string{}, l...), "1"), r[:len(r)-3]...))
			var x []string
			for i := 0; i < n; i++ {
				x = append(x, "2", "-", "(")
			}
			x = append(x, "1")
			for i := 0; i < n; i++ {
				x = append(x, ")")
			}
			one(x)
		}
	}
}

func hugeC25(c *Ctx, one func(t []string)) {
	c.Space("long programs")
	for _, n := range sizes(c.Thorough, 130) {
		if !c.Unit() {
			continue
		}
		var num, alt []string
		for i := 0; i < n; i++ {
			num = append(num, []string{"2", "3.5", "-1.25"}[i%3])
		}
		one(num)
		for _, op := range []string{"+", "-", "*", ">", "--"} {
			p := append([]string{}, num...)
			for i := 0; i < n-1; i++ {
				p = append(p, op)
			}
			one(p)
			one(append(p, op))
		}
		alt = append(alt, "1")
		for i := 0; i < n; i++ {
			alt = append(alt, []string{"2", "3.5"}[i%2], []string{"+", "-", "*"}[i%3])
		}
		one(alt)
		one(append(alt, "+"))
	}
}

// hugeC03: two of very many productions match, or operators of very many.
func hugeC03(c *Ctx) {
	c.Space("very many productions")
	ns := []int{40, 65, 129, 130, 257, 258, 300, 520, 1030}
	for _, n := range ns {
		var at []int
		for _, x := range []int{0, 1, 15, 16, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, n/2 - 1, n - 2, n - 1} {
			if x < n && (len(at) == 0 || x > at[len(at)-1]) {
				at = append(at, x)
			}
		}
		for _, i := range at {
			if !c.Unit() {
				continue
			}
			for _, j := range at {
				if i >= j {
					continue
				}
				n, i, j := n, i, j
				c.Case(func() string { return fmt.Sprintf("%d productions, %d and %d match", n, i, j) }, func() string {
					c.NonTrivial()
					for _, flip := range []bool{false, true} {
						gr := grammar.Empty()
						S, B := stringsymbol.Symbol("S"), stringsymbol.Symbol("B")
						for k := 0; k < n; k++ {
							switch {
							case (k == i) != flip && (k == i || k == j):
								gr.Add(S, stringsymbol.Production{"B", "x"})
							case k == i || k == j:
								gr.Add(S, stringsymbol.Production{"x", "B"})
							default:
								gr.Add(S, stringsymbol.Production{stringsymbol.Symbol(fmt.Sprint("t", k))})
							}
						}
						gr.Add(B, stringsymbol.Production{"x"})
						c.Trans(1)
						t := packrat.New(gr).Parse(kindLexemes([]string{"x", "x"}))
						if isNil(t) || t.Children() != 2 {
							return "refused"
						}
						if want := []string{"B", "x"}[b2i(flip)]; t.Child(0).Kind().String() != want {
							return fmt.Sprintf("production %d was chosen", j)
						}
					}
					return ""
				})
				if n > 300 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%d operators, %d and %d in a sentence", n, i, j) }, func() string {
					c.NonTrivial()
					gr := grammar.Empty()
					E := stringsymbol.Symbol("E")
					op := func(k int) string { return fmt.Sprint("o", k) }
					for k := 0; k < n; k++ {
						gr.Add(E, stringsymbol.Production{E, stringsymbol.Symbol(op(k)), E})
					}
					gr.Add(E, stringsymbol.Production{"n"})
					p := packrat.New(gr)
					for _, w := range [][]string{{op(i), op(j)}, {op(j), op(i)}, {op(j), op(i), op(j)}, {op(i), op(j), op(i)}, {op(j), op(j)}} {
						in := []string{"n"}
						for _, o := range w {
							in = append(in, o, "n")
						}
						root := len(w) - 1 // the last of the loosest operators
						for root > 0 && w[root] != op(i) {
							root--
						}
						if w[root] != op(i) {
							root = len(w) - 1
						}
						c.Trans(1)
						t := p.Parse(kindLexemes(in))
						if isNil(t) || t.Children() != 3 || t.Child(1).Kind().String() != w[root] {
							return fmt.Sprint("wrong operator at the root of ", in)
						}
						leaves := 0
						var count func(x parlex.ParseNode)
						count = func(x parlex.ParseNode) {
							if x.Children() == 0 {
								leaves++
							}
							for k := 0; k < x.Children(); k++ {
								count(x.Child(k))
							}
						}
						if count(t.Child(0)); leaves != 2*root+1 {
							return fmt.Sprintf("%v is not split at its last operator o%d", in, i)
						}
					}
					return ""
				})
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
