package main

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// A component is something a program builds once and uses many times.  mk
// builds a fresh instance, the operations use it.  The result of an operation
// is a value that render shows.
type component struct {
	name string
	mk   func() interface{}
	ops  []compOp
	// indices of the operations that are run against each other
	conc []int
	// sequence lengths, quick and thorough
	depth [2]int
}

type compOp struct {
	name string
	f    func(inst interface{}) interface{}
}

// guarded runs an operation; a panic is its result.
func (o *compOp) guarded(inst interface{}) (res interface{}) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	return o.f(inst)
}

type pairRes struct{ a, b interface{} }

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case pairRes:
		return render(x.a) + " / " + render(x.b)
	case []parlex.Lexeme:
		var b strings.Builder
		for _, l := range x {
			if l == nil {
				b.WriteString("<nil> ")
				continue
			}
			ln, cl := l.Pos()
			fmt.Fprintf(&b, "%s:%q@%d,%d", l.Kind(), l.Value(), ln, cl)
			if e, ok := l.(parlex.LexError); ok {
				fmt.Fprintf(&b, "!%s", e.Error())
			}
			b.WriteByte(' ')
		}
		return b.String()
	case []parlex.Symbol:
		var b strings.Builder
		for _, s := range x {
			if s == nil {
				b.WriteString("<nil> ")
			} else {
				b.WriteString(s.String() + " ")
			}
		}
		return b.String()
	case parlex.ParseNode:
		if isNil(x) {
			return "no tree"
		}
		return showPN(x)
	case *grammar.Grammar:
		if x == nil {
			return "no grammar"
		}
		return x.String()
	case parlex.Productions:
		return showProds(x)
	case tree.Reducer:
		return showReducer(x)
	case error:
		return "error " + x.Error()
	case float64:
		if math.IsNaN(x) {
			return "NaN"
		}
		return fmt.Sprint(x)
	case *analyze.Analytics:
		var b strings.Builder
		for _, s := range []string{"S", "A", "B", "E", "a", "b", "c", "n", "+", "zz"} {
			y := stringsymbol.Symbol(s)
			fmt.Fprintf(&b, "%s:%v%v%v ", s, x.Contains(y), x.NonTerminal(y), x.HasNilInFirst(y))
		}
		return b.String()
	default:
		return fmt.Sprint(v)
	}
}

// spoil writes to everything of a result that the caller owns.
func spoil(v interface{}) {
	junk := func(l parlex.Lexeme) {
		if lx, ok := l.(*lexeme.Lexeme); ok && lx != nil {
			lx.Set("spoiled").At(-7, -7)
			lx.K = stringsymbol.Symbol("spoiled")
		}
	}
	switch x := v.(type) {
	case pairRes:
		spoil(x.a)
		spoil(x.b)
	case []parlex.Lexeme:
		for i, l := range x {
			junk(l)
			x[i] = lexeme.String("spoiled")
		}
		if cap(x) > len(x) {
			x = x[:cap(x)]
			x[len(x)-1] = lexeme.String("spoiled")
		}
	case []parlex.Symbol:
		for i := range x {
			x[i] = stringsymbol.Symbol("spoiled")
		}
	case *tree.PN:
		if x == nil {
			return
		}
		for _, c := range x.C {
			spoil(c)
		}
		junk(x.Lexeme)
		x.Lexeme = lexeme.String("spoiled")
		for i := range x.C {
			x.C[i] = nil
		}
		x.C, x.P = nil, nil
	case tree.Reducer:
		for k := range x {
			x[k] = func(n *tree.PN) { n.C = nil }
		}
		x["spoiled"] = tree.RemoveChild(0)
	case *grammar.Grammar:
		if x != nil {
			x.Add(stringsymbol.Symbol("spoiled"), stringsymbol.Production{"S"})
		}
	}
}

// showReducer shows what a reducer does to a fixed tree.
func showReducer(r tree.Reducer) string {
	if r == nil {
		return "no reducer"
	}
	keys := []string{}
	for k := range r {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		n := &rt{kind: k, val: "v", ch: []*rt{{kind: "a", val: "1"}, {kind: "b", val: "2", ch: []*rt{{kind: "x", val: "3"}, {kind: "a", val: "4"}}}, {kind: "c", val: "5"}}}
		pn := n.pn()
		if r[k] == nil {
			b.WriteString(k + "=>nil ")
			continue
		}
		r[k](pn)
		fmt.Fprintf(&b, "%s=>%s ", k, showPN(pn))
	}
	return b.String()
}

func rangeInts(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func lexOps(inputs []string) (ops []compOp) {
	for _, in := range inputs {
		in := in
		ops = append(ops, compOp{fmt.Sprintf("Lex(%q)", in), func(i interface{}) interface{} { return i.(parlex.Lexer).Lex(in) }})
	}
	return
}

type parseInst struct {
	p   parlex.Parser
	lxs map[string][]parlex.Lexeme
}

func parseOps(alpha []string, max int, keep func(string) bool) (ops []compOp, words []string) {
	for _, w := range strWords(alpha, max) {
		if !keep(w) {
			continue
		}
		w := w
		words = append(words, w)
		ops = append(ops, compOp{fmt.Sprintf("Parse(%q)", w), func(i interface{}) interface{} {
			x := i.(*parseInst)
			return x.p.Parse(x.lxs[w])
		}})
	}
	ops = append(ops, compOp{"look at the lexemes", func(i interface{}) interface{} {
		x := i.(*parseInst)
		var b strings.Builder
		for _, w := range words {
			b.WriteString(render(x.lxs[w]))
		}
		return b.String()
	}})
	return
}

func charLexemes(w string) []parlex.Lexeme {
	out := []parlex.Lexeme{}
	for i := 0; i < len(w); i++ {
		out = append(out, lexeme.String(w[i:i+1]).Set("v"+w[i:i+1]).At(1, i+1))
	}
	return out
}

func mkParse(p parlex.Parser, words []string) *parseInst {
	x := &parseInst{p: p, lxs: map[string][]parlex.Lexeme{}}
	for _, w := range words {
		x.lxs[w] = charLexemes(w)
	}
	return x
}

type redInst struct {
	r     tree.Reducer
	other tree.Reducer
	trees []*tree.PN
}

type gramInst struct {
	g  *grammar.Grammar
	pr *packrat.Packrat
	td parlex.Parser
	an *analyze.Analytics
	w  map[string][]parlex.Lexeme
}

func errOr(v interface{}, err error) interface{} {
	if err != nil {
		return pairRes{"", err}
	}
	return v
}

func components() []component {
	var out []component

	simpleIn := []string{"", "a", "ab", "12 ab", "if", "iffy", "a\nb", "#", "a#b", "##", "a # 1", "1\n#\n2", "é", "a é", " ", "if 1", "\"x\"", "\"x", "12#12", "ab\n\n12"}
	simpleDef := "id /[a-z]+/\nnum /\\d+/\nif\nstr /\"[^\"]*\"/\nspace /\\s+/ -"
	out = append(out, component{"simplelexer", func() interface{} {
		return parlex.MustLexer(simplelexer.New(simpleDef))
	}, append(lexOps(simpleIn), compOp{"String", func(i interface{}) interface{} { return i.(*simplelexer.Lexer).String() }}), []int{3, 8, 11, 16, 20}, [2]int{3, 4}})
	out = append(out, component{"simplelexer by priority, with inserted lexemes and a rule for errors", func() interface{} {
		l, err := simplelexer.New(simpleDef + "\nLexError /q!/")
		if err != nil {
			panic(err)
		}
		l.ByPriority()
		return l.InsertStart("S", "<").InsertEnd("E", ">")
	}, lexOps(append([]string{"q!", "#q!"}, simpleIn...)), []int{1, 5, 10, 0}, [2]int{3, 4}})
	out = append(out, component{"stacklexer", func() interface{} {
		l, err := stacklexer.New(`
== main ==
  q /"/ str
  w /[a-z]+/
  if
  common
  popall /!/ ^^
== str ==
  esc /\\\\(.)/ ("<"|1|">")
  t /[^"\\\\\[!]+/
  lb /\[/ main
  qe /"/ ^
  common
== common ==
  sp /\s+/ -
`)
		if err != nil {
			panic(err)
		}
		return l.InsertStart("S", "<").InsertEnd("E", ">")
	}, lexOps([]string{"", "a", "if", "\"a\"", "a\"b", "\"a\nb\" c", "\"[if\"x", "#", "\"#\"", "a#\"#", "\"\"", "\"[\"a\"", "\"x\n[y\n\"z\"", "!", "\"\\\"", "a\n#\nb", "##\n\"[##"}), []int{2, 5, 6, 9, 15}, [2]int{3, 4}})

	keepAll := func(string) bool { return true }
	add := func(name, gr string, td bool, alpha []string, max int, keep func(string) bool, conc []int, depth [2]int) {
		ops, words := parseOps(alpha, max, keep)
		ops = append(ops, compOp{"the grammar", func(i interface{}) interface{} {
			switch p := i.(*parseInst).p.(type) {
			case *packrat.Packrat:
				return p.Grammar.(*grammar.Grammar).String()
			case *topdown.Topdown:
				return p.Grammar.(*grammar.Grammar).String()
			}
			return nil
		}})
		out = append(out, component{name, func() interface{} {
			g, err := grammar.New(gr)
			if err != nil {
				panic(err)
			}
			var p parlex.Parser = packrat.New(g)
			if td {
				p, err = topdown.New(g)
				if err != nil {
					panic(err)
				}
			}
			return mkParse(p, words)
		}, ops, conc, depth})
	}
	add("packrat, ambiguous", "E -> E + E\n  -> E * E\n  -> n", false, []string{"n", "+", "*"}, 5, func(w string) bool {
		return len(w) <= 1 || w == "n+n" || w == "n+n*n" || w == "n*n+n" || w == "+n" || w == "nn" || w == "n?n" || w == "n+n+n" || w == "n+"
	}, nil, [2]int{3, 4})
	out[len(out)-1].conc = byName(out[len(out)-1].ops, `Parse("n+n")`, `Parse("n")`, `Parse("nn")`)
	add("packrat, nullable", "S -> A S b\n  -> B\nA -> a\n  ->\nB -> b B\n  ->\n  -> c", false, []string{"a", "b", "c", "z"}, 2, keepAll, nil, [2]int{3, 3})
	out[len(out)-1].conc = byName(out[len(out)-1].ops, `Parse("")`, `Parse("ab")`, `Parse("za")`)
	add("topdown", "S -> A S b\n  -> B\nA -> a\n  -> a A\nB -> b B\n  ->\n  -> c", true, []string{"a", "b", "c", "z"}, 2, keepAll, nil, [2]int{3, 3})
	out[len(out)-1].conc = byName(out[len(out)-1].ops, `Parse("")`, `Parse("ab")`, `Parse("bb")`, `Parse("za")`)

	// inputs that are easily taken for one another
	alike := [][][4]string{
		{{"a", "1"}, {"bc", "2"}}, {{"ab", "1"}, {"c", "2"}}, {{"abc", "12"}}, {{"a", "1"}, {"b", "2"}, {"c", "3"}}, {{"a bc", "1"}},
		{{"a", "x"}, {"bc", "y"}}, {{"a", "12"}, {"bc", ""}}, {{"a", "1", "later"}, {"bc", "2", "later"}}, {{"bc", "2"}, {"a", "1"}}, {{"a", "1"}, {"a", "1"}, {"bc", "2"}}, {}, {{"", "1"}, {"a", "1"}, {"bc", "2"}},
	}
	alikeLexemes := func(k int) (ls []parlex.Lexeme) {
		for i, x := range alike[k] {
			l := lexeme.String(x[0]).Set(x[1]).At(1, i+1)
			if x[2] != "" {
				l.At(5, 7+i)
			}
			ls = append(ls, l)
		}
		return
	}
	for td := 0; td < 2; td++ {
		td := td
		var ops []compOp
		for k := range alike {
			k := k
			ops = append(ops, compOp{fmt.Sprintf("Parse(%v)", alike[k]), func(i interface{}) interface{} { return i.(parlex.Parser).Parse(alikeLexemes(k)) }})
		}
		ops = append(ops, compOp{"Parse a list, change it, parse it again", func(i interface{}) interface{} {
			p := i.(parlex.Parser)
			ls := alikeLexemes(0)
			x := p.Parse(ls)
			ls[0] = lexeme.String("bc").Set("new").At(3, 3)
			y := p.Parse(ls)
			ls[0] = lexeme.String("a").Set("again").At(4, 4)
			return pairRes{pairRes{x, y}, p.Parse(ls)}
		}}, compOp{"Parse lexemes, change them, parse them again", func(i interface{}) interface{} {
			p := i.(parlex.Parser)
			ls := alikeLexemes(3)
			x := p.Parse(ls)
			ls[1].(*lexeme.Lexeme).K = stringsymbol.Symbol("bc")
			y := p.Parse(ls[:2])
			ls[0].(*lexeme.Lexeme).Set("new").At(9, 9)
			return pairRes{pairRes{x, y}, p.Parse(ls[:2])}
		}})
		out = append(out, component{[]string{"packrat", "topdown"}[td] + ", look-alike inputs", func() interface{} {
			g, err := grammar.New("S -> a bc\n  -> ab c\n  -> a b c\n  -> abc\n  -> a S\n  ->")
			if err != nil {
				panic(err)
			}
			if td == 1 {
				return parlex.MustParser(topdown.New(g))
			}
			return packrat.New(g)
		}, ops, []int{0, 1}, [2]int{3, 4}})
	}

	gtext := "S -> A B\n  -> b\nA -> a A\n  ->\nB -> S c\n  -> b"
	gmk := func() interface{} {
		g, err := grammar.New(gtext)
		if err != nil {
			panic(err)
		}
		ga, err := grammar.New(gtext) // g itself is not analysed yet
		if err != nil {
			panic(err)
		}
		x := &gramInst{g: g, pr: packrat.New(g), an: analyze.Analyze(ga), w: map[string][]parlex.Lexeme{}}
		g2, _ := grammar.New("S -> a S\n  -> b")
		x.td = parlex.MustParser(topdown.New(g2))
		for _, w := range []string{"", "b", "ab", "abc", "bc", "zb"} {
			x.w[w] = charLexemes(w)
		}
		return x
	}
	gops := []compOp{
		{"String", func(i interface{}) interface{} { return i.(*gramInst).g.String() }},
		{"NonTerminals", func(i interface{}) interface{} { return i.(*gramInst).g.NonTerminals() }},
		{"Productions(S)", func(i interface{}) interface{} {
			return i.(*gramInst).g.Productions(stringsymbol.Symbol("S"))
		}},
		{"Productions(unknown)", func(i interface{}) interface{} {
			return i.(*gramInst).g.Productions(stringsymbol.Symbol("unknown"))
		}},
		{"Productions(foreign symbol)", func(i interface{}) interface{} {
			return i.(*gramInst).g.Productions(setsymbol.New().Str("B"))
		}},
		{"IsLeftRecursive", func(i interface{}) interface{} { return parlex.IsLeftRecursive(i.(*gramInst).g) }},
		{"RemoveLeftRecursion", func(i interface{}) interface{} { return grammar.RemoveLeftRecursion(i.(*gramInst).g) }},
		{"Analyze", func(i interface{}) interface{} { return analyze.Analyze(i.(*gramInst).g) }},
		{"topdown.New", func(i interface{}) interface{} {
			_, err := topdown.New(i.(*gramInst).g)
			return fmt.Sprint(err)
		}},
		{"LoadGrammar", func(i interface{}) interface{} {
			s := setsymbol.New()
			s.LoadGrammar(i.(*gramInst).g)
			return s.Size()
		}},
		{"Analytics", func(i interface{}) interface{} { return i.(*gramInst).an }},
		{"HasFirst", func(i interface{}) interface{} {
			a := i.(*gramInst).an
			var b strings.Builder
			for _, x := range []string{"S", "A", "B", "a", "zz"} {
				for _, y := range []string{"a", "b", "c", "zz"} {
					fmt.Fprint(&b, a.HasFirst(stringsymbol.Symbol(x), stringsymbol.Symbol(y)), " ")
				}
			}
			return b.String()
		}},
	}
	for _, w := range []string{"", "b", "ab", "abc", "zb"} {
		w := w
		gops = append(gops, compOp{fmt.Sprintf("packrat Parse(%q)", w), func(i interface{}) interface{} {
			x := i.(*gramInst)
			return x.pr.Parse(x.w[w])
		}}, compOp{fmt.Sprintf("new packrat Parse(%q)", w), func(i interface{}) interface{} {
			x := i.(*gramInst)
			return packrat.New(x.g).Parse(x.w[w])
		}})
	}
	gc := byName(gops, "String", "NonTerminals", "Productions(S)", "Productions(unknown)", "Productions(foreign symbol)", "IsLeftRecursive", "RemoveLeftRecursion", "Analyze", "Analytics", "HasFirst", `packrat Parse("b")`, `new packrat Parse("ab")`)
	out = append(out, component{"grammar", gmk, gops, gc, [2]int{3, 4}})

	// a reducer and trees
	rmk := func() interface{} {
		r, err := reducer.Parse("S If(ChildIs(0,\"a\"), PromoteChild(0), RemoveAll(\"b\").PromoteSingleChild()) T PromoteGrandChildren() U RemoveChildren(0,-1) V PromoteChildValue(-1).PromoteChildrenOf(0)")
		if err != nil {
			panic(err)
		}
		x := &redInst{r: r, other: tree.Reducer{"S": tree.RemoveChild(-1), "a": tree.ReplaceWithChild(0)}}
		mk := func(k string, c ...*rt) *rt { return &rt{kind: k, val: "v" + k, ch: c, l: 2, c: 3} }
		for _, t := range []*rt{
			mk("S", mk("a", mk("x")), mk("b")), mk("S", mk("b"), mk("T", mk("b"), mk("U", mk("x"), mk("y"), mk("z")))),
			mk("T", mk("S", mk("a")), mk("S", mk("b")), mk("c")), mk("U"), mk("V", mk("T", mk("x")), mk("S", mk("q"))), mk("q", mk("V", mk("V", mk("a"), mk("b"))), mk("U", mk("a")))} {
			x.trees = append(x.trees, t.pn())
		}
		return x
	}
	var rops []compOp
	for k := 0; k < 6; k++ {
		k := k
		rops = append(rops,
			compOp{fmt.Sprintf("Reduce(tree %d)", k), func(i interface{}) interface{} { return i.(*redInst).r.Reduce(i.(*redInst).trees[k]) }},
			compOp{fmt.Sprintf("look at tree %d", k), func(i interface{}) interface{} { return showPN(i.(*redInst).trees[k]) }},
			compOp{fmt.Sprintf("Clone(tree %d)", k), func(i interface{}) interface{} { return tree.Clone(i.(*redInst).trees[k]) }},
		)
	}
	rops = append(rops,
		compOp{"Reduce a tree, change it, reduce it again", func(i interface{}) interface{} {
			t := (&rt{kind: "S", val: "v", ch: []*rt{{kind: "a", val: "1", ch: []*rt{{kind: "x"}}}, {kind: "b"}}}).pn()
			x := i.(*redInst).r.Reduce(t)
			t.C[0].Lexeme = lexeme.String("b").Set("2")
			return pairRes{x, i.(*redInst).r.Reduce(t)}
		}},
		compOp{"Reduce look-alike trees", func(i interface{}) interface{} {
			r := i.(*redInst).r
			var out interface{}
			for k := 0; k < 3; k++ {
				out = pairRes{out, r.Reduce((&rt{kind: "S", val: "v", l: k, c: 2 * k, ch: []*rt{{kind: "b", val: "w"}, {kind: "c", val: "x", l: 1, c: k}}}).pn())}
			}
			return out
		}},
		compOp{"String(tree 1)", func(i interface{}) interface{} { return i.(*redInst).trees[1].String() }},
		compOp{"Size(tree 1)", func(i interface{}) interface{} { return i.(*redInst).trees[1].Size() }},
		compOp{"Can(tree 1)", func(i interface{}) interface{} { return i.(*redInst).r.Can(i.(*redInst).trees[1]) }},
		compOp{"Merge", func(i interface{}) interface{} { return tree.Merge(i.(*redInst).r, i.(*redInst).other) }},
		compOp{"Merge the other way", func(i interface{}) interface{} { return tree.Merge(i.(*redInst).other, i.(*redInst).r) }},
		compOp{"the reducer", func(i interface{}) interface{} { return showReducer(i.(*redInst).r) }},
		compOp{"merged Reduce(tree 1)", func(i interface{}) interface{} {
			x := i.(*redInst)
			return tree.Merge(x.r, x.other).Reduce(x.trees[1])
		}},
	)
	out = append(out, component{"reducer", rmk, rops, byName(rops, "Reduce(tree 0)", "Reduce(tree 1)", "Reduce(tree 4)", "Clone(tree 1)", "String(tree 1)", "Merge", "merged Reduce(tree 1)"), [2]int{3, 4}})

	// a runner
	runIn := []string{"", "1", "1+1", "1+1*1", "(1)", "1+", "#", "1+#", "1 1", "(1+1)*1", "1\n+\n1", "+#+", "((1)", "1*1*1"}
	var runOps []compOp
	for _, in := range runIn {
		in := in
		runOps = append(runOps, compOp{fmt.Sprintf("Run(%q)", in), func(i interface{}) interface{} {
			n, err := i.(*parlex.Runner).Run(in)
			if isNil(n) {
				n = nil
			}
			if err != nil {
				return pairRes{n, err}
			}
			return n
		}})
	}
	out = append(out, component{"runner", func() interface{} {
		p := realPipes()[1]
		return parlex.New(p.lx, p.ps, p.rs...)
	}, runOps, []int{1, 2, 5, 7}, [2]int{3, 4}})

	// constructors share package level lexers, parsers and reducers
	none := func() interface{} { return nil }
	var cops []compOp
	for _, s := range []string{"S PromoteChild(0)", "S RemoveChild(1).PromoteSingleChild() T Nil", "S If(ChildIs(0,\"a\"), RemoveAll(\"b\"), Nil)", "S Nope(1)", "S #", "", "S RemoveChildren(0,-1) // c\nT PromoteChildrenOf(1)"} {
		s := s
		cops = append(cops, compOp{fmt.Sprintf("reducer.Parse(%q)", s), func(interface{}) interface{} { v, err := reducer.Parse(s); return errOr(v, err) }})
	}
	for _, s := range []string{"S -> a* b", "S -> (a|b)? c\nT -> S+", "S -> (", "", "S -> a #", "S -> (a b)* // x\n"} {
		s := s
		cops = append(cops, compOp{fmt.Sprintf("regexgram.New(%q)", s), func(interface{}) interface{} {
			g, r, err := regexgram.New(s)
			if err != nil {
				return pairRes{"", err}
			}
			return pairRes{g, r}
		}})
	}
	for _, s := range []string{"S -> a S\n  ->", "S -> a -> b", "-> x"} {
		s := s
		cops = append(cops, compOp{fmt.Sprintf("grammar.New(%q)", s), func(interface{}) interface{} { v, err := grammar.New(s); return errOr(v, err) }})
	}
	for _, s := range []string{"S {\n a: \"1\"\n b {\n  c\n }\n}", "S {", "", "S: \"x\\n\""} {
		s := s
		cops = append(cops, compOp{fmt.Sprintf("tree.New(%q)", s), func(interface{}) interface{} { v, err := tree.New(s); return errOr(v, err) }})
	}
	for _, s := range []string{"a /x/\nb /[/", "a /x+/\nsp /\\s/ -"} {
		s := s
		cops = append(cops, compOp{fmt.Sprintf("simplelexer.New(%q)", s), func(interface{}) interface{} {
			v, err := simplelexer.New(s)
			if err != nil {
				return pairRes{"", err}
			}
			return v.Lex("xx #x")
		}})
	}
	for _, s := range []string{"== main ==\na /x/\nq /\"/ in\n== in ==\nb /y/ ^", "== main ==\na /[/", "== main ==\na /x/ nowhere"} {
		s := s
		cops = append(cops, compOp{fmt.Sprintf("stacklexer.New(%q)", s), func(interface{}) interface{} {
			v, err := stacklexer.New(s)
			if err != nil {
				return pairRes{"", err}
			}
			return v.Lex("x\"yx#")
		}})
	}
	out = append(out, component{"constructors", none, cops, []int{0, 2, 3, 7, 9, 13, 16, 20, 22}, [2]int{3, 4}})

	var eops []compOp
	for _, s := range []string{"[1,2]", "{\"a\":[]}", "[", "#", "", "{\"a\":1,\"b\":{\"c\":null}}", "\"x\"", "[true,[false]]"} {
		s := s
		eops = append(eops, compOp{fmt.Sprintf("Format(%q)", s), func(interface{}) interface{} { v, err := parlexjson.Format(s); return errOr(v, err) }})
	}
	for _, s := range []string{"1+2*3", "2*(1-4)/2", "1+", "$", "-1", "8/2/2"} {
		s := s
		eops = append(eops, compOp{fmt.Sprintf("math.Eval(%q)", s), func(interface{}) interface{} { v, err := parlexmath.Eval(s); return errOr(v, err) }})
	}
	for _, s := range []string{"1 2 +", "1 2 - 3 *", "4 2 / 1"} {
		s := s
		eops = append(eops, compOp{fmt.Sprintf("scalc.Eval(%q)", s), func(interface{}) interface{} { return fmt.Sprint(scalc.Eval(s)) }})
	}
	out = append(out, component{"examples", none, eops, byName(eops, `Format("[1,2]")`, `Format("[")`, `math.Eval("1+")`, `math.Eval("-1")`, `scalc.Eval("1 2 +")`), [2]int{3, 4}})
	return out
}

func byName(ops []compOp, names ...string) (out []int) {
	for _, n := range names {
		found := false
		for i := range ops {
			if ops[i].name == n {
				out = append(out, i)
				found = true
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}
	return
}

func init() {
	register(&Check{
		ID:     "C21",
		Rule:   "every sequence of operations up to a length on one instance of each reusable component (lexers, parsers, grammar, analysis, reducers and trees, runner, constructors, examples); in a second pass every result is overwritten by the caller as soon as it is returned.  Every result equals that of a fresh instance, and in the first pass no result changes when later operations run.  The same with calls that configure lexers, grammars and reducers in between: a call gives what it gives on a fresh instance after the same configuring calls",
		Bounds: []string{"configured: 2 lexers, a grammar with both parsers, a runner and the analysis, a reducer; 5 to 7 configuring and 4 to 17 other calls, sequences of length 4 (thorough: 5)", "14 components with 14 to 30 operations each", "sequences of length 3 (thorough: 4)", "every operation repeated 4 to 65 times before every other, and all operations in turn three times with every stride", "what an operation gives alone is established in a process of its own"},
		Assume: []string{"the productions that Grammar.Productions returns are shared with the grammar and are not written to"},
		Run:    runC21,
	})
}

// freshResults gives the result of operations of a component, each in a
// process of its own, so that it is the first operation that process executes
// and package level state is fresh as well.
func freshResults(ci int, ks []int) []string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	out := make([]string, len(ks))
	errs := make([]error, len(ks))
	var wg sync.WaitGroup
	slots := make(chan bool, 2)
	for i, k := range ks {
		i, k := i, k
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			cmd := exec.Command(self, "fresh", strconv.Itoa(ci), strconv.Itoa(k))
			cmd.Env = append(os.Environ(), noRaceSleep)
			b, err := cmd.Output()
			out[i], errs[i] = string(b), err
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			panic(fmt.Sprintf("operation %d alone: %v", ks[i], err))
		}
	}
	return out
}

// freshMain is the process that executes one operation.
func freshMain(args []string) int {
	ci, _ := strconv.Atoi(args[0])
	k, _ := strconv.Atoi(args[1])
	cp := components()[ci]
	os.Stdout.WriteString(render(cp.ops[k].guarded(cp.mk())))
	return 0
}

func runC21(c *Ctx) {
	cfgC21(c)
	for ci, cp := range components() {
		ci, cp := ci, cp
		c.Space(cp.name)
		n := len(cp.ops)
		depth := cp.depth[0]
		if c.Thorough {
			depth = cp.depth[1]
		}
		var want []string
		fresh := func(k int) string {
			if want == nil {
				ks := make([]int, n)
				for k := range ks {
					ks[k] = k
				}
				want = freshResults(ci, ks)
			}
			return want[k]
		}
		for first := 0; first < n; first++ {
			if !c.Unit() {
				continue
			}
			total := pow(n, depth-1)
			for code := 0; code < total; code++ {
				seq := make([]int, depth)
				seq[0] = first
				for i, x := 1, code; i < depth; i++ {
					seq[i] = x % n
					x /= n
				}
				c.Case(func() string {
					var b strings.Builder
					fmt.Fprintf(&b, "%s:", cp.name)
					for _, k := range seq {
						b.WriteString("\n  " + cp.ops[k].name)
					}
					return b.String()
				}, func() string {
					inst := cp.mk()
					res := make([]interface{}, depth)
					for i, k := range seq {
						c.Trans(1)
						res[i] = cp.ops[k].guarded(inst)
						if got := render(res[i]); got != fresh(k) {
							return fmt.Sprintf("operation %d (%s) gives\n%s\nalone it gives\n%s", i+1, cp.ops[k].name, got, fresh(k))
						}
					}
					for i, k := range seq {
						if got := render(res[i]); got != fresh(k) {
							return fmt.Sprintf("the result of operation %d (%s) was\n%s\nand is now\n%s", i+1, cp.ops[k].name, fresh(k), got)
						}
					}
					inst = cp.mk()
					for i, k := range seq {
						c.Trans(1)
						r := cp.ops[k].guarded(inst)
						if got := render(r); got != fresh(k) {
							return fmt.Sprintf("the caller overwrites its results; operation %d (%s) gives\n%s\nalone it gives\n%s", i+1, cp.ops[k].name, got, fresh(k))
						}
						spoil(r)
					}
					c.NonTrivial()
					c.OutcomeS(cp.ops[seq[0]].name + fresh(seq[0]))
					return ""
				})
			}
			// long histories: one operation many times, then any other; what
			// was returned stays as it is
			for _, rep := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 515, 1030} {
				for last := 0; last < n; last++ {
					if rep > 65 && last != first && last != (first+1)%n {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("%s:\n  %d times %s\n  %s", cp.name, rep, cp.ops[first].name, cp.ops[last].name)
					}, func() string {
						inst := cp.mk()
						held := make([]interface{}, rep+1)
						for i := 0; i <= rep; i++ {
							k := first
							if i == rep {
								k = last
							}
							c.Trans(1)
							held[i] = cp.ops[k].guarded(inst)
							if got := render(held[i]); got != fresh(k) {
								return fmt.Sprintf("operation %d (%s) gives\n%s\nalone it gives\n%s", i+1, cp.ops[k].name, got, fresh(k))
							}
						}
						for i, r := range held[:rep] {
							if got := render(r); got != fresh(first) {
								return fmt.Sprintf("the result of operation %d (%s) was\n%s\nand is now\n%s", i+1, cp.ops[first].name, fresh(first), got)
							}
						}
						return ""
					})
				}
			}
			// all operations in turn, starting with this one, with every stride
			for stride := 1; stride < n; stride++ {
				c.Case(func() string {
					return fmt.Sprintf("%s:\n  from %s on every %d. operation, %d times", cp.name, cp.ops[first].name, stride, 3*n)
				}, func() string {
					inst := cp.mk()
					for i := 0; i < 3*n; i++ {
						k := (first + i*stride) % n
						c.Trans(1)
						if got := render(cp.ops[k].guarded(inst)); got != fresh(k) {
							return fmt.Sprintf("operation %d (%s) gives\n%s\nalone it gives\n%s", i+1, cp.ops[k].name, got, fresh(k))
						}
					}
					return ""
				})
			}
		}
	}
}
