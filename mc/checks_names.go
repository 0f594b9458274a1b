package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// Names and characters are a dimension of their own: code may treat one of
// them specially (case, marks, comment characters, escapes, separators, the
// names the implementation uses itself).

var oddNames = []string{
	"a", "A", "aa", "ab", "a'", "a''", "'", "_", "a_b", "__", "*", "a*", "+", "?", "|", "(", ")", "#", "#a", "//", "/", "\\", "\\n", "-", "->", "=", "==", "^", "$", ".", ",", ";", ":", "\"", "`", "{", "}", "[", "]", "<", ">", "!", "@", "~", "&",
	"0", "1", "01", "-1", "1.5", "é", "É", "e\u0301", "世", "ß", "SS", "\u2028", "\u00a0", "\ufeff", "\ufeffa", "\x80", "\xff", "\x00", "\x7f", "\t", "\r", "\n", " ", "", " a", "a ", "a b", "a\tb", "a\r",
	"Error", "START", "NIL", "nil", "Nil", "Main", "EOF", "eps", "ε", "%s", "%d", "%", "a%", "null", "S", "S'", "true", "Symbol", "<nil>",
}

// Long names that differ in one character only, at the end, in the middle or
// at the start.
func init() {
	for _, n := range []int{16, 32, 64, 128, 256, 1024} {
		p := strings.Repeat("n", n)
		oddNames = append(oddNames, p+"1", p+"2")
		if n == 64 || n == 256 {
			oddNames = append(oddNames, p, "1"+p, "2"+p, p+"1"+p, p+"2"+p)
		}
	}
}

// textName: a name that the line oriented notations can express.
func textName(s string) bool {
	if s == "" || strings.Contains(s, "->") {
		return false
	}
	for _, r := range s {
		if unicode.IsSpace(r) {
			return false
		}
	}
	return true
}

func filterNames(f func(string) bool) (out []string) {
	for _, s := range oddNames {
		if f(s) {
			out = append(out, s)
		}
	}
	return
}

// textOK reports whether grammar.New can express g.
func (g *CFG) textOK() bool {
	for _, s := range g.names {
		if !textName(s) {
			return false
		}
	}
	return true
}

// BuildAdd makes the real grammar with Add.
func (g *CFG) BuildAdd() *grammar.Grammar {
	out := grammar.Empty()
	for nt, ps := range g.P {
		for _, p := range ps {
			sp := stringsymbol.Production{}
			for _, s := range p {
				sp = append(sp, stringsymbol.Symbol(g.name(s)))
			}
			out.Add(stringsymbol.Symbol(g.name(nt)), sp)
		}
	}
	return out
}

// namedBases are the grammars whose symbols are renamed: S, A, x, y.
var namedBases = [][][][]int{
	{{{1, 2}, {2}}, {{3, 1}, {3}}},   // S -> A x | x   A -> y A | y
	{{{0, 2}, {1}}, {{3}, {}}},       // S -> S x | A   A -> y |
	{{{2, 0, 3}, {1}}, {{}, {3, 2}}}, // S -> x S y | A   A -> | y x
	{{{1, 2}, {3}}, {{0, 3}, {2}}},   // S -> A x | y   A -> S y | x
}

// eachNamed enumerates the base grammars with two of their symbols renamed.
func eachNamed(c *Ctx, text bool, filter func(g *CFG) bool, run func(g *CFG, ins [][]int)) {
	names := oddNames
	if text {
		names = filterNames(textName)
	}
	c.Space("special names")
	ins := append(words([]int{2, 3}, 3), words([]int{0, 1, 2, 3, 4, 5}, 1)...)
	if c.Thorough {
		ins = append(words([]int{2, 3}, 4), words([]int{0, 1, 2, 3, 4, 5}, 2)...)
	}
	var noEmpty [][]int
	for _, w := range ins {
		ok := true
		for _, x := range w {
			ok = ok && x != 5
		}
		if ok {
			noEmpty = append(noEmpty, w)
		}
	}
	for b, P := range namedBases {
		if filter != nil && !filter(&CFG{N: 2, T: 2, P: P}) {
			continue
		}
		for ro, role := range [][2]int{{0, 1}, {1, 2}, {2, 3}, {0, 3}} {
			for i, n1 := range names {
				if !c.Unit() {
					continue
				}
				for j, n2 := range names {
					if long := len(n1) > 15 && len(n2) > 15; i == j || !c.Thorough && !long && (i+j+4*b+ro)%5 != 0 && i > 12 && j > 12 {
						continue
					}
					nm := []string{"Sx", "Ax", "xx", "yx"}
					nm[role[0]], nm[role[1]] = n1, n2
					in := ins
					if n1 == "" || n2 == "" {
						in = noEmpty // the empty kind is in the grammar
					}
					run(&CFG{N: 2, T: 2, P: P, names: nm}, in)
				}
			}
		}
	}
}

// oddChars are the characters that inputs of lexers are made of.
func oddChars() (out []string) {
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	return append(out, "é", "É", "ß", "世", "😀", "\ufeff", "\u2028", "\u2029", "\u0085", "\u00a0", "e\u0301", "\u200b", "\ufffd", "\r\n", "\n\r", "\xe4\xb8", "\xff\xfe")
}

var charRules = [][]lrule{
	{},
	{{kind: "as", src: "a+"}},
	{{kind: "any", src: "."}},
	{{kind: "all", src: "(?s)."}},
	{{kind: "nota", src: "[^a]"}, {kind: "a", src: "a"}},
	{{kind: "as", src: "a+"}, {kind: "nl", src: `\n`, discard: true}},
	{{kind: "run", src: `[^a\n]+`}, {kind: "a", src: "a", discard: true}},
	{{kind: "sp", src: `\s+`}, {kind: "w", src: `\w+`}},
	{{kind: "two", src: "(?s).a"}, {kind: "a", src: "a|aa"}},
}

// charRuleSets are the rule lists for character x, with x as literal as well.
func charRuleSets(x string) [][]lrule {
	rs := append([][]lrule{}, charRules...)
	if regexp.QuoteMeta(x) == x && !strings.ContainsAny(x, "\n") && strings.ToValidUTF8(x, "") == x {
		lit := x
		if strings.ContainsAny(x, "/\x00") {
			return rs
		}
		rs = append(rs, []lrule{{kind: "lit", src: lit}, {kind: "a", src: "a"}}, []lrule{{kind: "lit", src: lit, discard: true}})
	} else if q := regexp.QuoteMeta(x); q != x && !strings.Contains(q, "/") && x != "\\" {
		rs = append(rs, []lrule{{kind: "lit", src: q}, {kind: "a", src: "a"}})
	}
	return rs
}

func charWords(x string) []string { return strWords([]string{"a", x, "\n"}, 3) }

// charsSimple: every byte and some runes as text for the simple lexer.
func charsSimple(c *Ctx, f func(d *simpleDef, in string)) {
	c.Space("every byte, special runes and line ends")
	for _, x := range oddChars() {
		if !c.Unit() {
			continue
		}
		for _, rs := range charRuleSets(x) {
			d := &simpleDef{rules: rs}
			for _, in := range charWords(x) {
				f(d, in)
			}
		}
	}
	c.Space("special kinds")
	ks := filterNames(kindName)
	for _, k1 := range ks {
		if !c.Unit() {
			continue
		}
		for _, k2 := range ks {
			if k1 == k2 {
				continue
			}
			d := &simpleDef{rules: []lrule{{kind: k1, src: "a+"}, {kind: k2, src: "a|b"}}}
			for _, in := range []string{"", "a", "ab", "baab", "cb\n"} {
				f(d, in)
			}
		}
		d := &simpleDef{rules: []lrule{{kind: "q", src: "a"}, {kind: k1, src: "b", discard: true}}, ins: [4]string{k1, k1, k1, ""}, err: k1}
		for _, in := range []string{"", "a", "ab", "baab", "cb\n"} {
			f(d, in)
		}
	}
}

// kindName: what the lexer notations take as a kind.
func kindName(s string) bool { return textName(s) && !strings.Contains(s, "/") }

// charsStack: the same for the stack lexer.
func charsStack(c *Ctx, f func(d *stackDef, ins []string)) {
	c.Space("every byte, special runes and line ends")
	for _, x := range oddChars() {
		if !c.Unit() {
			continue
		}
		for _, rs := range charRuleSets(x) {
			f(&stackDef{subs: []subDef{{"Main", rs}}}, charWords(x))
		}
		f(&stackDef{subs: []subDef{{"Main", []lrule{{kind: "o", src: "a", push: "In"}, {kind: "nl", src: `\n`}}}, {"In", []lrule{{kind: "c", src: "a", pop: 1, discard: true}, {kind: "t", src: `[^a\n]`}}}}}, charWords(x))
	}
	c.Space("special kinds")
	ks := filterNames(kindName)
	for _, k1 := range ks {
		if !c.Unit() || strings.HasPrefix(k1, "==") {
			continue
		}
		for _, k2 := range ks {
			if k1 == k2 || strings.HasPrefix(k2, "==") {
				continue
			}
			f(&stackDef{subs: []subDef{{"Lx", []lrule{{kind: k1, src: "a+", push: "In"}, {kind: k2, src: "b"}}}, {"In", []lrule{{kind: k2, src: "a", pop: 1}, {kind: k1, src: "b", discard: true}}}}}, []string{"", "a", "ab", "baab", "cb\n", "abbab"})
		}
		f(&stackDef{subs: []subDef{{"Lx", []lrule{{kind: "q", src: "a"}, {kind: k1, src: "b", discard: true}}}}, ins: [4]string{k1, k1, k1, ""}, err: k1}, []string{"", "a", "ab", "baab", "cb\n"})
	}
	c.Space("expressions that prefer a shorter match")
	lazy := []lrule{{kind: "alt", src: "a|ab"}, {kind: "lazy", src: "a+?"}, {kind: "lb", src: "a+?b"}, {kind: "opt", src: "a(?:b??)"}, {kind: "long", src: "ab|a"}, {kind: "w", src: "[ab]+"}, {kind: "b", src: "b", push: "In"}, {kind: "n", src: "a{1,2}?"}}
	ins := strWords([]string{"a", "b", "c"}, 4)
	for _, ar := range arrangements(len(lazy), 2) {
		for pri := 0; pri < 2; pri++ {
			if !c.Unit() {
				continue
			}
			d := &stackDef{priority: pri == 1, subs: []subDef{{name: "Main"}, {"In", []lrule{{kind: "o", src: "b|bb|c", pop: 1}, {kind: "ia", src: "a|aa"}}}}}
			for _, x := range ar {
				d.subs[0].rules = append(d.subs[0].rules, lazy[x])
			}
			f(d, ins)
		}
	}
	c.Space("expressions that prefer a shorter match, groups")
	for _, g := range []lrule{{kind: "g", src: "(a)|(ab)", groups: []string{"1", `"-"`, "2"}}, {kind: "g", src: "(a+?)(b*)", groups: []string{"2", "1"}}, {kind: "g", src: "(a|ab)(b|c)?", groups: []string{"1", `","`, "2"}}} {
		for _, o := range lazy {
			if c.Unit() {
				f(&stackDef{subs: []subDef{{"Main", []lrule{g, o}}, {"In", []lrule{{kind: "o", src: "a", pop: 1}}}}}, ins)
			}
		}
	}
}

// namesC07: the grammar notation and Add with every pair of special names.
func namesC07(c *Ctx) {
	c.Space("special names")
	obj := func(g *CFG, how string, rg *grammar.Grammar, err error) string {
		c.Trans(1)
		if err != nil {
			return how + ": " + err.Error()
		}
		m := newGmodel()
		for nt, ps := range g.P {
			for _, p := range ps {
				var s []string
				for _, x := range p {
					s = append(s, g.name(x))
				}
				m.add(g.name(nt), s)
			}
		}
		c.OutcomeS(m.text())
		return checkGrammarObject(rg, m)
	}
	for _, P := range namedBases[:2] {
		for _, role := range [][2]int{{0, 1}, {1, 2}, {2, 3}} {
			for i, n1 := range oddNames {
				if !c.Unit() {
					continue
				}
				for j, n2 := range oddNames {
					if i == j {
						continue
					}
					nm := []string{"Sx", "Ax", "xx", "yx"}
					nm[role[0]], nm[role[1]] = n1, n2
					g := &CFG{N: 2, T: 2, P: P, names: nm}
					c.Case(func() string { return fmt.Sprintf("names %q\n%s", nm, g.Text()) }, func() string {
						c.NonTrivial()
						if !g.textOK() {
							return addOnly(g)
						}
						rg, err := grammar.New(g.Text())
						if bad := obj(g, "New", rg, err); bad != "" {
							return bad
						}
						return obj(g, "Add", g.BuildAdd(), nil)
					})
				}
			}
		}
	}
}

// addOnly checks a grammar that its text form cannot express.
func addOnly(g *CFG) string {
	rg := g.BuildAdd()
	og := readGrammar(rg)
	if og.N != g.N || fmt.Sprint(og.P) != fmt.Sprint(canon(g).P) || fmt.Sprintf("%q", og.names) != fmt.Sprintf("%q", canon(g).names) {
		return fmt.Sprintf("Add built %q %v, not %q %v", og.names, og.P, canon(g).names, canon(g).P)
	}
	for s := 0; s < g.N+g.T; s++ {
		ps := rg.Productions(foreignSym(g.name(s)))
		if (ps != nil) != (s < g.N) {
			return fmt.Sprintf("Productions(%q)", g.name(s))
		}
		if ps != nil && iterProds(ps) != showProds(ps) {
			return fmt.Sprintf("iterating Productions(%q) gives %q", g.name(s), iterProds(ps))
		}
	}
	return ""
}

// canon numbers the terminals in order of appearance.
func canon(g *CFG) *CFG { return readGrammar(g.BuildIface()) }

// namesC20: symbol sets with every pair of special names.
func namesC20(c *Ctx) {
	c.Space("special names")
	for i, n1 := range oddNames {
		if !c.Unit() {
			continue
		}
		for j, n2 := range oddNames {
			if i == j {
				continue
			}
			n1, n2 := n1, n2
			c.Case(func() string { return fmt.Sprintf("symbols %q and %q", n1, n2) }, func() string {
				c.NonTrivial()
				m, o := &setModel{set: setsymbol.New()}, &setModel{set: setsymbol.New()}
				all := []string{n1, n2, "zz"}
				steps := []func() string{
					func() string { return m.gave(m.set.Str(n1), n1) },
					func() string { return m.gave(m.set.Symbol(foreignSym(n2)), n2) },
					func() string { return o.gave(o.set.Symbol(stringsymbol.Symbol(n2)), n2) },
					func() string { return o.gave(o.set.Symbol(m.given[0]), n1) },
					func() string { return m.gave(m.set.Symbol(o.given[0]), n2) },
					func() string { return m.gave(m.set.Str(n1), n1) },
				}
				for k, s := range steps {
					c.Trans(1)
					if bad := s(); bad != "" {
						return fmt.Sprintf("step %d: %s", k+1, bad)
					}
					for _, x := range []*setModel{m, o} {
						if bad := x.check(all); bad != "" {
							return fmt.Sprintf("after step %d: %s", k+1, bad)
						}
					}
				}
				p := m.set.Production(stringsymbol.Symbol(n2), foreignSym(n1), m.set.Str(n2))
				if got := showProds(m.set.Productions(p)); got != showProds(fprods{fprod{n2, n1, n2}}) {
					return "production " + got
				}
				if got := iterProds(m.set.Productions(p)); got != showProds(fprods{fprod{n2, n1, n2}}) {
					return "iterating the production " + got
				}
				q := o.set.CastProduction(p)
				if got := showProds(o.set.Productions(q)); got != showProds(fprods{fprod{n2, n1, n2}}) {
					return "cast production " + got
				}
				ls := o.set.LoadLexemes([]parlex.Lexeme{&probeLexeme{stringsymbol.Symbol(n1), n2, 1, 2}, lexeme.String(n2).Set(n1)})
				if len(ls) != 2 || ls[0].Kind().String() != n1 || ls[1].Kind().String() != n2 || ls[0].Value() != n2 || ls[1].Value() != n1 {
					return fmt.Sprint("LoadLexemes ", ls)
				}
				return ""
			})
		}
	}
}

// namesTree: kinds are compared exactly.
func namesC15(c *Ctx) {
	c.Space("special kinds")
	for i, n1 := range oddNames {
		if !c.Unit() {
			continue
		}
		for j, n2 := range oddNames {
			n1, n2 := n1, n2
			same := i == j
			c.Case(func() string { return fmt.Sprintf("kind %q, argument %q", n1, n2) }, func() string {
				t := &rt{kind: "K", ch: []*rt{{kind: n1, val: "1"}, {kind: "other", val: "2"}, {kind: n1, val: "3", ch: []*rt{{kind: n2}}}}}
				c.Trans(4)
				p := t.pn()
				for k, ch := range t.ch {
					want := ch.kind == n2
					if p.ChildIs(k, n2) != want || p.ChildIs(k-3, n2) != want {
						return fmt.Sprintf("ChildIs(%d) is not %v", k, want)
					}
					if p.ChildAt(k, n2) != want || p.ChildAt(k, "zz", n2) != want || !p.ChildAt(k, n2, ch.kind) {
						return fmt.Sprintf("ChildAt(%d) is not %v", k, want)
					}
				}
				p.RemoveAll("zz", n2)
				want := t.clone()
				if same {
					want.ch = want.ch[1:2]
				} else if n2 == "other" {
					want.ch = []*rt{want.ch[0], want.ch[2]}
				}
				if bad := want.diff(p, true); bad != "" {
					return "RemoveAll: " + bad
				}
				p = t.pn()
				tree.RemoveAll(n2)(p)
				if bad := want.diff(p, true); bad != "" {
					return "RemoveAll reduction: " + bad
				}
				p = t.pn()
				tree.If(tree.ChildIs(-1, n2), tree.RemoveChild(0), tree.RemoveChild(1))(p)
				want = t.clone()
				if same {
					want.ch = want.ch[1:]
				} else {
					want.ch = []*rt{want.ch[0], want.ch[2]}
				}
				if bad := want.diff(p, true); bad != "" {
					return "If: " + bad
				}
				return ""
			})
		}
	}
}

// namesC16: a reduction runs exactly on nodes of its kind.
func namesC16(c *Ctx, try func(t *rt, r tree.Reducer, m map[string]func(*rt)) string) {
	c.Space("special kinds")
	for _, n1 := range oddNames {
		if !c.Unit() {
			continue
		}
		for _, n2 := range oddNames {
			n1, n2 := n1, n2
			c.Case(func() string { return fmt.Sprintf("kind %q, rule %q", n1, n2) }, func() string {
				t := &rt{kind: n1, val: "0", ch: []*rt{{kind: "other", val: "2", ch: []*rt{{kind: n1, val: "4"}}}, {kind: n1, val: "3", ch: []*rt{{kind: "leaf"}, {kind: n1}}}}}
				x, y := mark("x"), mark("y")
				r := tree.Reducer{}
				r.Add(n2, x.real)
				m := map[string]func(*rt){n2: x.ref}
				if r.Can(t.pn()) != (n1 == n2) {
					return "Can"
				}
				if bad := try(t, r, m); bad != "" {
					return bad
				}
				if n1 != n2 {
					r[n1] = y.real
					m[n1] = y.ref
					if bad := try(t, r, m); bad != "" {
						return "two rules: " + bad
					}
				}
				r2 := tree.Reducer{n1: y.real}
				mm := map[string]func(*rt){n2: x.ref, n1: y.ref}
				if n1 == n2 {
					mm[n1] = func(t *rt) { x.ref(t); y.ref(t) }
				}
				if bad := try(t, tree.Merge(tree.Reducer{n2: x.real}, r2), mm); bad != "" {
					return "merged: " + bad
				}
				return ""
			})
		}
	}
}

// namesC17: kinds given as arguments are compared exactly.
func namesC17(c *Ctx) {
	c.Space("special kinds as arguments")
	for _, n1 := range oddNames {
		if !c.Unit() {
			continue
		}
		t := &rt{kind: "A", ch: []*rt{{kind: "other", val: "o"}}}
		for i, n := range oddNames {
			t.ch = append(t.ch, &rt{kind: n, val: fmt.Sprint(i)})
		}
		n1 := n1
		c.Case(func() string { return fmt.Sprintf("argument %q", n1) }, func() string {
			c.Trans(3)
			c.NonTrivial()
			want := &rt{kind: "A"}
			for _, x := range t.ch {
				if x.kind != n1 {
					want.ch = append(want.ch, x)
				}
			}
			for _, text := range []string{fmt.Sprintf("A RemoveAll(%q)", n1), fmt.Sprintf("A RemoveAll(%q, %q)", n1, n1), fmt.Sprintf("A\n\tRemoveAll( %q ,%q)\n", "zz", n1)} {
				r, err := reducer.Parse(text)
				if err != nil {
					return text + ": " + err.Error()
				}
				if bad := want.diff(r.Reduce(t.pn()), true); bad != "" {
					return text + ": " + bad
				}
			}
			for i := 1; i < len(t.ch); i++ {
				text := fmt.Sprintf("A If(ChildIs(%d, %q), RemoveChildren(0,1), RemoveChild(0))", i, n1)
				r, err := reducer.Parse(text)
				if err != nil {
					return text + ": " + err.Error()
				}
				want := &rt{kind: "A", ch: t.ch[1:]}
				if t.ch[i].kind == n1 {
					want = &rt{kind: "A", ch: t.ch[2:]}
				}
				if bad := want.diff(r.Reduce(t.pn()), true); bad != "" {
					return text + ": " + bad
				}
			}
			return ""
		})
	}
	c.Space("special rule names")
	ks := []string{"a", "A", "aa", "_", "__", "a_b", "A1", "a0", "nil", "NIL", "If2", "Iff", "Nile", "Nil_", "ChildIsA", "RemoveAll2", "Removes", "START", "Main", "Error", "x_", "PromoteChildX"}
	for _, n := range []int{16, 32, 64, 256, 1024} {
		ks = append(ks, strings.Repeat("n", n)+"1", strings.Repeat("n", n)+"2")
	}
	for _, n1 := range ks {
		if !c.Unit() {
			continue
		}
		for _, n2 := range ks {
			if n1 == n2 {
				continue
			}
			n1, n2 := n1, n2
			text := n1 + " RemoveChild(0)\n" + n2 + " Nil . RemoveChild(-1)"
			c.Case(func() string { return text }, func() string {
				c.Trans(1)
				r, err := reducer.Parse(text)
				if err != nil {
					return err.Error()
				}
				if len(r) != 2 {
					return fmt.Sprintf("%d rules", len(r))
				}
				m := map[string]func(*rt){
					n1: func(t *rt) { t.ch = append([]*rt{}, t.ch[min(1, len(t.ch)):]...) },
					n2: func(t *rt) { t.ch = append([]*rt{}, t.ch[:max(0, len(t.ch)-1)]...) },
				}
				t := &rt{kind: "K"}
				for _, k := range ks {
					t.ch = append(t.ch, &rt{kind: k, ch: []*rt{{kind: "q", val: "0"}, {kind: "q", val: "1"}, {kind: "q", val: "2"}}})
				}
				return refReduce(t, m).diff(r.Reduce(t.pn()), true)
			})
		}
	}
}

// namesC27: kinds and values are kept and shown whatever they are.
func namesC27(c *Ctx) {
	c.Space("special kinds and values")
	for _, k := range oddNames {
		if !c.Unit() {
			continue
		}
		for _, v := range oddNames {
			for _, at := range [][2]int{{-1, 0}, {3, 4}} {
				k, v, at := k, v, at
				c.Case(func() string { return fmt.Sprintf("kind %q, value %q at %v", k, v, at) }, func() string {
					c.Trans(3)
					c.NonTrivial()
					set := setsymbol.New()
					set.Str("x")
					w := rlex{k, v, at[0], at[1]}
					for i, s := range []parlex.Symbol{stringsymbol.Symbol(k), foreignSym(k), set.Str(k)} {
						l := lexeme.New(s).Set(v).At(at[0], at[1])
						for _, x := range []*lexeme.Lexeme{l, lexeme.Copy(l), lexeme.String(k).Set(v).At(at[0], at[1])} {
							if bad := w.diff(x); bad != "" {
								return fmt.Sprint(i, ": ", bad)
							}
							if x.String() != w.str() {
								return fmt.Sprintf("String is %s, expected %s", x.String(), w.str())
							}
						}
						one, long := k, fmt.Sprintf("%s: %q", k, v)
						if v != "" {
							one += ": " + v
						}
						if at[0] > 0 {
							long += fmt.Sprintf(" (%d, %d)", at[0], at[1])
						}
						if got, want := parlex.LexemeString(l), one; got != want {
							return fmt.Sprintf("LexemeString is %q, expected %q", got, want)
						}
						if got, want := parlex.LexemeString(l, &probeLexeme{"q", "r", 1, 1}, l), "["+one+", q: r, "+one+"]"; got != want {
							return fmt.Sprintf("LexemeString is %q, expected %q", got, want)
						}
						if got, want := parlex.LexemeList([]parlex.Lexeme{l, l}), long+"\n"+long; got != want {
							return fmt.Sprintf("LexemeList is %q, expected %q", got, want)
						}
					}
					return ""
				})
			}
		}
	}
}

// namesRx: symbols of the regular expression notation.
func rxOddNames() (out [][]rxRule) {
	names := []string{"a", "A", "aa", "_", "__", "a_b", "_a", "a_", "0", "1", "01", "10", "rarr", "symbol", "repeats", "optional", "or", "nl", "space", "comment", "Grammar", "Production", "Productions", "ContinueProd", "Symbols", "Symbol", "Group", "OptSymbol", "RepSymbol", "OrSymbol", "MoreOr", "NL", "START", "Error", "nil", "NIL", "Nil"}
	for _, n := range []int{32, 64, 256} {
		names = append(names, strings.Repeat("n", n)+"1", strings.Repeat("n", n)+"2")
	}
	for i, p := range names {
		for j, q := range names {
			if i == j {
				continue
			}
			x, y := sy(p), sy(q)
			switch (i + 2*j) % 5 {
			case 0:
				out = append(out, []rxRule{rule("Sx", star(x), y)})
			case 1:
				out = append(out, []rxRule{rule("Sx", star(grp(x, y)), opt(x))})
			case 2:
				out = append(out, []rxRule{rule("Sx", alt(x, star(y)), sy("t"))})
			case 3:
				out = append(out, []rxRule{rule("Sx", star(x), y), rule(q, sy("t"), star(grp(x)), opt(sy("u")))})
			case 4:
				out = append(out, []rxRule{rule(p, star(grp(alt(y, sy("t")))), sy("u")), rule(q, sy("v"), opt(sy("w")))})
			}
		}
	}
	return
}

// namesC13: definitions with special kinds, by every way of building a lexer.
func namesC13(c *Ctx) {
	c.Space("special kinds")
	ks := filterNames(kindName)
	for _, k1 := range ks {
		if !c.Unit() {
			continue
		}
		for _, k2 := range ks {
			if k1 == k2 {
				continue
			}
			d := &simpleDef{rules: []lrule{{kind: k1, src: "a+"}, {kind: k2, src: "a|b", discard: true}}}
			c.Case(func() string { return d.String() }, func() string {
				c.NonTrivial()
				l1, err := simplelexer.New(d.text())
				if err != nil {
					return "New: " + err.Error()
				}
				l3, _ := simplelexer.New()
				for _, r := range d.rules {
					if err := l3.Add(stringsymbol.Symbol(r.kind), regexp.MustCompile(r.src), r.discard); err != nil {
						return "Add: " + err.Error()
					}
				}
				s := l1.String()
				if l3.String() != s {
					return "String of the lexer built by Add is\n" + l3.String() + "\nnot\n" + s
				}
				l4, err := simplelexer.New(s)
				if err != nil {
					return "New of String: " + err.Error() + "\n" + s
				}
				for k := range d.rules {
					if l, err := simplelexer.New(s, d.rules[k].kind+" /c/"); err == nil || l != nil {
						return fmt.Sprintf("New accepts the kind %q twice", d.rules[k].kind)
					}
				}
				m := d.model()
				c.OutcomeS(s)
				for i, l := range []*simplelexer.Lexer{l1, l3, l4} {
					// a kind that is there is refused, and nothing changes
					for k, r := range d.rules {
						if l.Add([]parlex.Symbol{foreignSym(r.kind), stringsymbol.Symbol(r.kind)}[k], regexp.MustCompile("c"), !r.discard) == nil {
							return fmt.Sprintf("built %d: Add accepts the kind %q again", i, r.kind)
						}
					}
					if l.String() != s {
						return "String after refused rules is\n" + l.String() + "\nnot\n" + s
					}
					for _, in := range []string{"a", "ab", "baab", "cb\n"} {
						c.Trans(1)
						if bad := compareLex(m, l.Lex(in), in, false); bad != "" {
							return fmt.Sprintf("%s built %d, input %q: %s", s, i, in, bad)
						}
					}
				}
				return ""
			})
		}
	}
}
