package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

func init() {
	register(&Check{
		ID:     "C20",
		Rule:   "explicit-state enumeration of operation sequences on two symbol sets (interning by string, by own, foreign and other-set symbols, lookups by every index, LoadGrammar, LoadLexemes) against a list model, re-checking every symbol handed out so far after every step; operation sequences on productions (build, append, take from and add to production lists, casts between the set, string and foreign implementations), re-checking every production handed out so far; every iterator over every production list up to a bound",
		Bounds: []string{"sets and productions of 1001 to 65540 symbols", "every pair of about 95 special names", "sets: every sequence of up to 6 of 13 operations over 3 names", "productions: every sequence of up to 5 of 12 operations", "casts and iterators: every list of up to 3 productions of up to 3 symbols over 2 names", "scaled: sets of up to 1024 names, productions of up to 300 symbols", "nil arguments and unknown symbols"},
		Assume: []string{"indices are not negative for Production and Symbol"},
		Run:    runC20,
	})
	register(&Check{
		ID:     "C26",
		Rule:   "every grammar of the listed spaces and families with every word up to a bound: packrat, topdown, IsLeftRecursive, RemoveLeftRecursion and Analyze are run on the grammar as grammar.Grammar, as a stringsymbol grammar, as a foreign implementation with its own symbol, production and iterator types, as a grammar whose productions were added in turns, and as grammars over other symbol sets of the same size and larger, in which the symbols have other indices, with lexeme kinds given as string symbols, foreign symbols, symbols of the grammar's own set and symbols of an unrelated set in which the same names have other indices; all trees and verdicts must be equal; non-trivial: a tree was returned",
		Bounds: []string{"special names: 4 small grammars with two symbols renamed to every ordered pair of about 95 names (case variants, primes, operators, comment and escape characters, white space, format verbs, invalid UTF-8, names used by the implementation; quick: a fifth of the pairs not involving one of 13 names)", "1 NT/2 T/RHS<=2/3; 2 NT/2 T/RHS<=2/2,1; 2 NT/1 T/RHS<=2/2,2; words to length 4 (quick), kinds that are non-terminals to length 2", "five ways to represent the kinds of one word, mixed ones included"},
		Run:    runC26,
	})
}

type setModel struct {
	set   *setsymbol.Set
	names []string
	given []*setsymbol.Symbol
	gname []string
}

func (m *setModel) find(s string) int {
	for i, n := range m.names {
		if n == s {
			return i
		}
	}
	return -1
}

func (m *setModel) intern(s string) int {
	if i := m.find(s); i >= 0 {
		return i
	}
	m.names = append(m.names, s)
	return len(m.names) - 1
}

func (m *setModel) gave(sym *setsymbol.Symbol, s string) string {
	i := m.intern(s)
	if sym == nil {
		return "nil symbol for " + s
	}
	if sym.Idx() != i || sym.String() != s {
		return fmt.Sprintf("symbol for %q has index %d and string %q, expected index %d", s, sym.Idx(), sym.String(), i)
	}
	m.given = append(m.given, sym)
	m.gname = append(m.gname, s)
	return ""
}

func (m *setModel) check(all []string) string {
	s := m.set
	if s.Size() != len(m.names) {
		return fmt.Sprintf("Size = %d, expected %d", s.Size(), len(m.names))
	}
	for i, x := range m.given {
		if x.String() != m.gname[i] || x.Idx() != m.find(m.gname[i]) {
			return fmt.Sprintf("a symbol given for %q is now %q, index %d", m.gname[i], x.String(), x.Idx())
		}
	}
	for _, n := range all {
		w := m.find(n)
		if s.Has(n) != (w >= 0) {
			return fmt.Sprintf("Has(%q) = %v", n, w < 0)
		}
		h := s.HasSymbol(foreignSym(n))
		if (h != nil) != (w >= 0) || h != nil && (h.Idx() != w || h.String() != n) {
			return fmt.Sprintf("HasSymbol(%q)", n)
		}
		if w >= 0 && s.Idx(stringsymbol.Symbol(n)) != w {
			return fmt.Sprintf("Idx(%q) = %d", n, s.Idx(stringsymbol.Symbol(n)))
		}
	}
	for i := 0; i <= len(m.names)+1; i++ {
		x := s.ByIdx(i)
		if i >= len(m.names) {
			if x != nil {
				return fmt.Sprintf("ByIdx(%d) of %d symbols is not nil", i, len(m.names))
			}
			continue
		}
		if x == nil || x.Idx() != i || x.String() != m.names[i] {
			return fmt.Sprintf("ByIdx(%d)", i)
		}
	}
	if s.Size() != len(m.names) {
		return "a lookup changed the set"
	}
	return ""
}

func runC20(c *Ctx) {
	names := []string{"a", "b", ""}
	all := append([]string{"zz"}, names...)
	g0, _ := grammar.New("b -> q a\n  ->\nq -> b")
	type op struct {
		name string
		f    func(ms []*setModel) string
	}
	var ops []op
	for _, n := range names {
		n := n
		ops = append(ops,
			op{fmt.Sprintf("s.Str(%q)", n), func(ms []*setModel) string { return ms[0].gave(ms[0].set.Str(n), n) }},
			op{fmt.Sprintf("t.Str(%q)", n), func(ms []*setModel) string { return ms[1].gave(ms[1].set.Str(n), n) }},
			op{fmt.Sprintf("s.Symbol(foreign %q)", n), func(ms []*setModel) string { return ms[0].gave(ms[0].set.Symbol(foreignSym(n)), n) }},
		)
	}
	cross := func(from, to int) op {
		return op{fmt.Sprintf("set %d takes all symbols of set %d", to, from), func(ms []*setModel) string {
			n := len(ms[from].given)
			for i := 0; i < n; i++ {
				x := ms[from].given[i]
				had := ms[to].find(ms[from].gname[i]) >= 0
				if h := ms[to].set.HasSymbol(x); (h != nil) != had || h != nil && h.String() != ms[from].gname[i] {
					return "HasSymbol of another set's symbol"
				}
				if had && ms[to].set.Idx(x) != ms[to].find(ms[from].gname[i]) {
					return "Idx of another set's symbol"
				}
				if bad := ms[to].gave(ms[to].set.Symbol(x), ms[from].gname[i]); bad != "" {
					return "Symbol of another set's symbol: " + bad
				}
			}
			return ""
		}}
	}
	ops = append(ops, cross(0, 1), cross(1, 0), cross(0, 0),
		op{"s.LoadGrammar", func(ms []*setModel) string {
			ms[0].set.LoadGrammar(g0)
			for _, x := range []string{"b", "q", "a"} {
				if !ms[0].set.Has(x) {
					return "LoadGrammar did not load " + x
				}
			}
			// the order of the new symbols is not part of the claim: read it back
			for i := len(ms[0].names); i < ms[0].set.Size(); i++ {
				n := ms[0].set.ByIdx(i).String()
				if ms[0].find(n) >= 0 {
					return "LoadGrammar added " + n + " twice"
				}
				ms[0].names = append(ms[0].names, n)
			}
			for _, n := range ms[0].names {
				if n != "b" && n != "q" && n != "a" && ms[0].find(n) < 0 {
					return "LoadGrammar invented " + n
				}
			}
			return ""
		}})
	ops = append(ops, op{"s.LoadLexemes", func(ms []*setModel) string {
		in := []parlex.Lexeme{&probeLexeme{"b", "vb", 1, 2}, lexeme.String("a").Set("va"), lexeme.New(ms[1].set.Str("b")).Set("w").At(3, 4)}
		ms[1].intern("b")
		snap := lexSnapshot(in)
		out := ms[0].set.LoadLexemes(in)
		if lexSnapshot(in) != snap {
			return "LoadLexemes changed its input"
		}
		if len(out) != 3 {
			return "LoadLexemes length"
		}
		for i, o := range out {
			l1, c1 := o.Pos()
			l2, c2 := in[i].Pos()
			if o.Value() != in[i].Value() || l1 != l2 || c1 != c2 {
				return "LoadLexemes changed a lexeme"
			}
			k, ok := o.Kind().(*setsymbol.Symbol)
			if !ok {
				return "LoadLexemes left a foreign kind"
			}
			if bad := ms[0].gave(k, in[i].Kind().String()); bad != "" {
				return bad
			}
		}
		return ""
	}})
	max := 6
	if c.Thorough {
		max = 7
	}
	c.Space("symbol sets")
	eachSeq(len(ops), 3, func(head []int) {
		if !c.Unit() {
			return
		}
		var rec func(seq []int)
		run := func(seq []int) {
			sq := append([]int{}, seq...)
			c.Case(func() string {
				var s []string
				for _, k := range sq {
					s = append(s, ops[k].name)
				}
				return strings.Join(s, "; ")
			}, func() string {
				ms := []*setModel{{set: setsymbol.New()}, {set: setsymbol.New()}}
				for i, k := range sq {
					c.Trans(1)
					if bad := ops[k].f(ms); bad != "" {
						return fmt.Sprintf("step %d: %s", i+1, bad)
					}
				}
				// prefixes are cases of their own, so checking at the end is enough
				for i, m := range ms {
					if bad := m.check(all); bad != "" {
						return fmt.Sprintf("set %d: %s", i, bad)
					}
				}
				if len(ms[0].names) > 1 && len(ms[1].names) > 1 {
					c.NonTrivial()
				}
				c.State(hashS(strings.Join(ms[0].names, ",") + "|" + strings.Join(ms[1].names, ",")))
				return ""
			})
		}
		rec = func(seq []int) {
			run(seq)
			if len(head) == 3 && len(seq) < max {
				for i := range ops {
					rec(append(seq, i))
				}
			}
		}
		rec(append([]int{}, head...))
	})
	scaleC20(c)
	hugeC20(c)
	namesC20(c)
	prodSeqs(c)
	castSpace(c)
	edgeSpace(c)
}

// prodSeqs: operation sequences on productions of one set.
func prodSeqs(c *Ctx) {
	type handle struct {
		p    *setsymbol.Production
		want []string
	}
	type world struct {
		set  *setsymbol.Set
		hs   []*handle
		ps   *setsymbol.Productions
		pw   [][]string
		next int
	}
	show := func(p parlex.Production) string {
		var s []string
		for i := 0; i < p.Symbols(); i++ {
			s = append(s, p.Symbol(i).String())
		}
		return strings.Join(s, " ")
	}
	fresh := func(w *world) stringsymbol.Symbol {
		w.next++
		return stringsymbol.Symbol(fmt.Sprint("x", w.next))
	}
	type op struct {
		name string
		f    func(w *world) bool
	}
	ops := []op{
		{"new production", func(w *world) bool {
			a, b := fresh(w), fresh(w)
			w.hs = append(w.hs, &handle{w.set.Production(a, b), []string{string(a), string(b)}})
			return len(w.hs) <= 3
		}},
		{"new empty production", func(w *world) bool {
			w.hs = append(w.hs, &handle{w.set.Production(), nil})
			return len(w.hs) <= 3
		}},
		{"cast a string production", func(w *world) bool {
			a := fresh(w)
			w.hs = append(w.hs, &handle{w.set.CastProduction(stringsymbol.Production{a}), []string{string(a)}})
			return len(w.hs) <= 3
		}},
	}
	for h := 0; h < 2; h++ {
		h := h
		ops = append(ops,
			op{fmt.Sprintf("append one symbol to handle %d", h), func(w *world) bool {
				if h >= len(w.hs) {
					return false
				}
				a := fresh(w)
				w.hs[h].p.AddSymbols(a)
				w.hs[h].want = append(append([]string{}, w.hs[h].want...), string(a))
				return true
			}},
			op{fmt.Sprintf("add handle %d to the list", h), func(w *world) bool {
				if h >= len(w.hs) {
					return false
				}
				w.ps.AddProductions(w.hs[h].p)
				w.pw = append(w.pw, append([]string{}, w.hs[h].want...))
				return true
			}},
			op{fmt.Sprintf("take production %d of the list", h), func(w *world) bool {
				if h >= len(w.pw) {
					return false
				}
				p := w.ps.Production(h).(*setsymbol.Production)
				w.hs = append(w.hs, &handle{p, append([]string{}, w.pw[h]...)})
				return len(w.hs) <= 3
			}})
	}
	ops = append(ops,
		op{"append two symbols to the last handle", func(w *world) bool {
			if len(w.hs) == 0 {
				return false
			}
			h := w.hs[len(w.hs)-1]
			a, b := fresh(w), fresh(w)
			h.p.AddSymbols(a, b)
			h.want = append(append([]string{}, h.want...), string(a), string(b))
			return true
		}},
		op{"add a string production to the list", func(w *world) bool {
			a := fresh(w)
			w.ps.AddProductions(stringsymbol.Production{a, a})
			w.pw = append(w.pw, []string{string(a), string(a)})
			return true
		}},
		op{"replace the list by one of the first handle", func(w *world) bool {
			if len(w.hs) == 0 {
				return false
			}
			w.ps = w.set.Productions(w.hs[0].p)
			w.pw = [][]string{append([]string{}, w.hs[0].want...)}
			return true
		}})
	max := 6
	if c.Thorough {
		max = 7
	}
	c.Space("productions")
	eachSeq(len(ops), 2, func(head []int) {
		if !c.Unit() {
			return
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			sq := append([]int{}, seq...)
			ok := true
			if c.onlyU >= 0 {
				// the numbers of the cases depend on which sequences are possible
				func() {
					defer func() { recover() }()
					w := &world{set: setsymbol.New()}
					w.ps = w.set.Productions()
					for _, k := range sq {
						if ok = ok && ops[k].f(w); !ok {
							return
						}
					}
				}()
			}
			c.Case(func() string {
				var s []string
				for _, k := range sq {
					s = append(s, ops[k].name)
				}
				return strings.Join(s, "; ")
			}, func() string {
				w := &world{set: setsymbol.New()}
				w.ps = w.set.Productions()
				for _, k := range sq {
					c.Trans(1)
					if !ops[k].f(w) {
						ok = false
						return ""
					}
				}
				c.NonTrivial()
				for i, h := range w.hs {
					if g, x := show(h.p), strings.Join(h.want, " "); g != x || h.p.String() != x {
						return fmt.Sprintf("handle %d is now [%s], expected [%s]", i, g, x)
					}
				}
				if w.ps.Productions() != len(w.pw) {
					return "number of productions"
				}
				for i, x := range w.pw {
					if g := show(w.ps.Production(i)); g != strings.Join(x, " ") {
						return fmt.Sprintf("production %d of the list is now [%s], expected %v", i, g, x)
					}
				}
				return ""
			})
			if ok && len(head) == 2 && len(seq) < max {
				for i := range ops {
					rec(append(seq, i))
				}
			}
		}
		rec(append([]int{}, head...))
	})
}

// fprod and fprods are foreign productions with their own iterators.
type fprod []string

func (p fprod) Symbols() int { return len(p) }
func (p fprod) Symbol(i int) parlex.Symbol {
	if i >= len(p) {
		return nil
	}
	return foreignSym(p[i])
}
func (p fprod) Iter() *parlex.ProductionIterator { return &parlex.ProductionIterator{Production: p} }

type fprods []fprod

func (p fprods) Productions() int { return len(p) }
func (p fprods) Production(i int) parlex.Production {
	if i >= len(p) {
		return nil
	}
	return p[i]
}
func (p fprods) Iter() *parlex.ProductionsIterator {
	return &parlex.ProductionsIterator{Productions: p}
}

func showProds(p parlex.Productions) string {
	var b strings.Builder
	for i := 0; i < p.Productions(); i++ {
		q := p.Production(i)
		b.WriteByte('[')
		for j := 0; j < q.Symbols(); j++ {
			b.WriteString(q.Symbol(j).String() + " ")
		}
		b.WriteByte(']')
	}
	return b.String()
}

func iterProds(p parlex.Productions) string {
	var b strings.Builder
	n := 0
	i := p.Iter()
	for ; i.Next(); n++ {
		if i.Idx != n {
			return "index of the production iterator"
		}
		b.WriteByte('[')
		m := 0
		j := i.Iter()
		for ; j.Next(); m++ {
			if j.Idx != m {
				return "index of the symbol iterator"
			}
			b.WriteString(j.Symbol.String() + " ")
		}
		if j.Next() || j.Next() {
			return "the symbol iterator goes on after its end"
		}
		b.WriteByte(']')
	}
	if i.Next() || i.Next() {
		return "the production iterator goes on after its end"
	}
	return b.String()
}

func castSpace(c *Ctx) {
	c.Space("casts and iterators")
	rhs := words([]int{0, 1}, 3)
	nm := []string{"a", "b"}
	eachSeq(len(rhs), 3, func(seq []int) {
		if !c.Unit() {
			return
		}
		sq := append([]int{}, seq...)
		var fp fprods
		for _, k := range sq {
			p := fprod{}
			for _, s := range rhs[k] {
				p = append(p, nm[s])
			}
			fp = append(fp, p)
		}
		c.Case(func() string { return fmt.Sprint(fp) }, func() string {
			want := showProds(fp)
			c.OutcomeS(want)
			if len(fp) > 1 {
				c.NonTrivial()
			}
			set, other := setsymbol.New(), setsymbol.New()
			other.Str("zz")
			other.Str("b")
			var list []parlex.Production
			for i := range fp {
				list = append(list, fp[i])
			}
			c.Trans(12)
			versions := map[string]parlex.Productions{
				"foreign":                fp,
				"string cast":            stringsymbol.CastProductions(fp),
				"set cast":               set.CastProductions(fp),
				"set built":              set.Productions(list...),
				"set of other set":       set.CastProductions(other.CastProductions(fp)),
				"string of set":          stringsymbol.CastProductions(set.CastProductions(fp)),
				"set of string":          set.CastProductions(stringsymbol.CastProductions(fp)),
				"string of string":       stringsymbol.CastProductions(stringsymbol.CastProductions(fp)),
				"set of same set":        set.CastProductions(set.CastProductions(fp)),
				"other of set, added to": func() parlex.Productions { p := other.Productions(); p.AddProductions(list...); return p }(),
				"set, added one at a time": func() parlex.Productions {
					p := set.Productions()
					for _, x := range list {
						p.AddProductions(set.CastProduction(x))
					}
					return p
				}(),
				"set, productions of other": func() parlex.Productions {
					p := set.Productions()
					for _, x := range list {
						p.AddProductions(other.CastProduction(x))
					}
					return p
				}(),
			}
			for how, v := range versions {
				if g := showProds(v); g != want {
					return how + " reads " + g + ", expected " + want
				}
				if g := iterProds(v); g != want {
					return how + " iterates " + g + ", expected " + want
				}
				if v.Production(len(fp)) != nil {
					return how + ": a production past the end"
				}
				for i := range fp {
					if v.Production(i).Symbol(len(fp[i])) != nil {
						return how + ": a symbol past the end"
					}
					if _, ok := v.(fprods); !ok {
						if g := fmt.Sprint(v.Production(i)); g != strings.Join(fp[i], " ") {
							return how + ": String of production is " + g
						}
					}
				}
			}
			// an append to a cast production stays with it
			for i, x := range list {
				theirs := other.CastProduction(x)
				for how, p := range map[string]*setsymbol.Production{"of a foreign production": set.CastProduction(x), "of a production of another set": set.CastProduction(theirs), "of a string production": set.CastProduction(stringsymbol.CastProduction(x))} {
					p.AddSymbols(stringsymbol.Symbol("new"))
					for j := 0; j < p.Symbols(); j++ {
						if s, ok := p.Symbol(j).(*setsymbol.Symbol); !ok || set.Idx(stringsymbol.Symbol(s.String())) != s.Idx() {
							return "a production cast " + how + " does not hold symbols of the set it was cast to"
						}
					}
					if p.Symbols() != len(fp[i])+1 || p.Symbol(len(fp[i])).String() != "new" {
						return "append to a production cast " + how
					}
					if theirs.Symbols() != len(fp[i]) {
						return "appending to a cast production changed the original"
					}
				}
			}
			return ""
		})
	})
}

// edgeSpace: nil arguments, unknown symbols and text forms.
func edgeSpace(c *Ctx) {
	c.Space("absent values and text forms")
	if !c.Unit() {
		return
	}
	c.Case(func() string { return "absent values" }, func() string {
		c.Trans(20)
		c.NonTrivial()
		s, o := setsymbol.New(), setsymbol.New()
		s.Str("a")
		b := o.Str("b")
		for _, x := range []parlex.Symbol{foreignSym("b"), stringsymbol.Symbol("b"), b} {
			if s.Idx(x) != -1 {
				return "Idx of an unknown symbol"
			}
			if s.HasSymbol(x) != nil {
				return "HasSymbol of an unknown symbol"
			}
		}
		if s.Size() != 1 || s.Has("b") {
			return "a lookup added a symbol"
		}
		if s.Symbol(nil) != nil || s.CastProduction(nil) != nil || s.CastProductions(nil) != nil || stringsymbol.CastProduction(nil) != nil || stringsymbol.CastProductions(nil) != nil {
			return "a cast of nil is not nil"
		}
		if s.Size() != 1 {
			return "a cast of nil added a symbol"
		}
		var np *setsymbol.Production
		var nps *setsymbol.Productions
		if np.Symbols() != 0 || nps.Productions() != 0 || stringsymbol.Production(nil).Symbols() != 0 || stringsymbol.Productions(nil).Productions() != 0 {
			return "a nil production is not empty"
		}
		if np.Iter().Next() || nps.Iter().Next() || stringsymbol.Production(nil).Iter().Next() || stringsymbol.Productions(nil).Iter().Next() || (&parlex.ProductionIterator{}).Next() || (&parlex.ProductionsIterator{}).Next() {
			return "an iterator over nothing"
		}
		for _, x := range []parlex.Symbol{foreignSym("b"), stringsymbol.Symbol("b"), b} {
			if stringsymbol.CastSymbol(x) != "b" {
				return "CastSymbol"
			}
		}
		return ""
	})
	for _, n := range []string{"", "a", "abc", "é", "日本語", "a b", "\x80"} {
		n := n
		c.Case(func() string { return fmt.Sprintf("SymLen of %q", n) }, func() string {
			c.Trans(3)
			for _, s := range []parlex.Symbol{foreignSym(n), stringsymbol.Symbol(n), setsymbol.New().Str(n)} {
				k := 0
				for range n {
					k++
				}
				if parlex.SymLen(s) != k {
					return fmt.Sprintf("SymLen = %d, expected %d", parlex.SymLen(s), k)
				}
			}
			return ""
		})
	}
}

// fgrammar is a foreign grammar over fprods.
type fgrammar struct {
	nts []string
	p   map[string]fprods
}

func (g *fgrammar) Productions(s parlex.Symbol) parlex.Productions {
	p, ok := g.p[s.String()]
	if !ok {
		return nil
	}
	return p
}

func (g *fgrammar) NonTerminals() []parlex.Symbol {
	var out []parlex.Symbol
	for _, n := range g.nts {
		out = append(out, foreignSym(n))
	}
	return out
}

func (g *CFG) BuildForeign() *fgrammar {
	out := &fgrammar{p: map[string]fprods{}}
	for nt, ps := range g.P {
		if len(ps) == 0 {
			continue
		}
		out.nts = append(out.nts, g.name(nt))
		for _, p := range ps {
			q := fprod{}
			for _, s := range p {
				q = append(q, g.name(s))
			}
			out.p[g.name(nt)] = append(out.p[g.name(nt)], q)
		}
	}
	return out
}

func renderMaybe(g *CFG, n parlex.ParseNode) string {
	if isNil(n) {
		return "no"
	}
	return renderPN(g, n)
}

// BuildInterleaved makes the real grammar with Add, the first productions of
// all symbols first, then all second ones and so on.
func (g *CFG) BuildInterleaved() *grammar.Grammar {
	out := grammar.Empty()
	for k, more := 0, true; more; k++ {
		more = false
		for nt, ps := range g.P {
			if k >= len(ps) {
				continue
			}
			more = true
			sp := stringsymbol.Production{}
			for _, s := range ps[k] {
				sp = append(sp, stringsymbol.Symbol(g.name(s)))
			}
			out.Add(stringsymbol.Symbol(g.name(nt)), sp)
		}
	}
	return out
}

// setGrammar is a grammar over a set in which the symbols have other indices
// than a set has that is loaded with the grammar.
type setGrammar struct {
	order []parlex.Symbol
	prods map[string]*setsymbol.Productions
}

func (g *setGrammar) NonTerminals() []parlex.Symbol { return append([]parlex.Symbol{}, g.order...) }

func (g *setGrammar) Productions(s parlex.Symbol) parlex.Productions {
	if p, ok := g.prods[s.String()]; ok {
		return p
	}
	return nil
}

// BuildSet makes a setGrammar; filler symbols are stored first.
func (g *CFG) BuildSet(filler int) *setGrammar {
	set := setsymbol.New()
	for i := 0; i < filler; i++ {
		set.Str(fmt.Sprint("filler ", i))
	}
	// only symbols that occur, the last one first
	occurs := make([]bool, g.N+g.T)
	for nt, ps := range g.P {
		for _, p := range ps {
			occurs[nt] = true
			for _, s := range p {
				occurs[s] = true
			}
		}
	}
	for i := g.N + g.T - 1; i >= 0; i-- {
		if occurs[i] {
			set.Str(g.name(i))
		}
	}
	out := &setGrammar{prods: map[string]*setsymbol.Productions{}}
	for nt, ps := range g.P {
		if len(ps) == 0 {
			continue
		}
		out.order = append(out.order, set.Str(g.name(nt)))
		pp := set.Productions()
		for _, p := range ps {
			sp := set.Production()
			for _, s := range p {
				sp.AddSymbols(set.Str(g.name(s)))
			}
			pp.AddProductions(sp)
		}
		out.prods[g.name(nt)] = pp
	}
	return out
}

// analysis shows what an analysis says about the symbols of g and another one.
func analysis(g *CFG, a *analyze.Analytics) string {
	var b strings.Builder
	name := func(i int) parlex.Symbol {
		if i == g.N+g.T {
			return foreignSym("nobody")
		}
		return foreignSym(g.name(i))
	}
	for i := 0; i <= g.N+g.T; i++ {
		s := name(i)
		fmt.Fprint(&b, b2i(a.Contains(s)), b2i(a.NonTerminal(s)), b2i(a.HasNilInFirst(s)))
		for j := g.N; j <= g.N+g.T; j++ {
			fmt.Fprint(&b, b2i(a.HasFirst(s, name(j))))
		}
		b.WriteByte(' ')
	}
	return b.String()
}

func runC26(c *Ctx) {
	type ver struct {
		how string
		g   parlex.Grammar
		pr  parlex.Parser
		td  parlex.Parser
		lr  bool
	}
	versions := func(g *CFG) []*ver {
		rg := g.BuildText()
		return []*ver{{how: "grammar.Grammar", g: rg}, {how: "stringsymbol", g: g.BuildIface()}, {how: "foreign", g: g.BuildForeign()}, {how: "analysed", g: analyze.Analyze(rg)},
			{how: "interleaved", g: g.BuildInterleaved()}, {how: "another set", g: g.BuildSet(0)}, {how: "another, larger set", g: g.BuildSet(3)}}
	}
	run := func(g *CFG, ins [][]int) {
		var vs []*ver
		c.Case(func() string { return g.Text() + "grammar level" }, func() string {
			vs = versions(g)
			var first, firstAn string
			for i, v := range vs {
				c.Trans(5)
				an := analysis(g, analyze.Analyze(v.g))
				if i == 0 {
					firstAn = an
				} else if an != firstAn {
					return v.how + ": Analyze gives\n" + an + "\nnot\n" + firstAn
				}
				v.pr = packrat.New(v.g)
				v.lr = parlex.IsLeftRecursive(v.g)
				t, err := topdown.New(v.g)
				if (err != nil) != v.lr {
					return v.how + ": topdown.New and IsLeftRecursive disagree"
				}
				if err == nil {
					v.td = t
				}
				if v.lr != vs[0].lr {
					return v.how + ": IsLeftRecursive differs"
				}
				s := ""
				if g.productive() {
					s = gtext(grammar.RemoveLeftRecursion(v.g))
				}
				if i == 0 {
					first = s
				} else if s != first {
					return v.how + ": RemoveLeftRecursion gives\n" + s + "\nnot\n" + first
				}
			}
			return ""
		})
		scr := setsymbol.New()
		for i := g.N + g.T - 1; i >= 0; i-- {
			scr.Str("filler" + fmt.Sprint(i))
			scr.Str(g.name(i))
		}
		for _, in := range ins {
			in := in
			c.Case(caseDesc(g, in), func() string {
				if vs == nil { // single case replay
					vs = versions(g)
					for _, v := range vs {
						v.pr = packrat.New(v.g)
						if t, err := topdown.New(v.g); err == nil {
							v.td = t
						}
					}
				}
				first, firstTD := "", ""
				for i, v := range vs {
					own := map[string]parlex.Symbol{}
					for _, nt := range v.g.NonTerminals() {
						for it := v.g.Productions(nt).Iter(); it.Next(); {
							for j := it.Iter(); j.Next(); {
								own[j.Symbol.String()] = j.Symbol
							}
						}
					}
					kinds := []func(s string) parlex.Symbol{
						func(s string) parlex.Symbol { return stringsymbol.Symbol(s) },
						func(s string) parlex.Symbol { return foreignSym(s) },
						func(s string) parlex.Symbol { return scr.Str(s) },
						func(s string) parlex.Symbol {
							if o := own[s]; o != nil {
								return o
							}
							return foreignSym(s)
						},
					}
					n := 0
					kinds = append(kinds, func(s string) parlex.Symbol {
						n++
						return kinds[n%4](s)
					})
					for ki, k := range kinds {
						if i > 0 && ki == 0 || i > 3 && ki < 3 {
							continue
						}
						lx := make([]parlex.Lexeme, len(in))
						for p, s := range in {
							lx[p] = lexeme.New(k(g.name(s))).Set(fmt.Sprint("v", p)).At(p, p)
						}
						c.Trans(1)
						got := renderMaybe(g, v.pr.Parse(lx))
						gotTD := ""
						if v.td != nil {
							c.Trans(1)
							gotTD = renderMaybe(g, v.td.Parse(lx))
						}
						if i == 0 && ki == 0 {
							first, firstTD = got, gotTD
							c.OutcomeS(got)
							if len(got) > 3 {
								c.NonTrivial()
							}
							continue
						}
						if got != first {
							return fmt.Sprintf("%s, kinds %d: packrat gives %s, not %s", v.how, ki, got, first)
						}
						if gotTD != firstTD {
							return fmt.Sprintf("%s, kinds %d: topdown gives %s, not %s", v.how, ki, gotTD, firstTD)
						}
					}
				}
				return ""
			})
		}
	}
	eachNamed(c, false, nil, func(g *CFG, ins [][]int) {
		var short [][]int
		for _, w := range ins {
			if len(w) < 3 || c.Thorough {
				short = append(short, w)
			}
		}
		run(g, short)
	})
	for _, f := range families {
		g := parseCFG(f.text)
		c.Space("family " + f.name)
		ts := rng(g.N, g.N+g.T)
		max := f.max
		lim := 300
		if c.Thorough {
			lim = 5000
		}
		for pow(len(ts), max) > lim {
			max--
		}
		ins := words(ts, max)
		for _, l := range f.long {
			ins = append(ins, edits(parseSyms(g, l), ts)...)
		}
		for n := 4; n > 0; n-- {
			if all := rng(0, g.N+g.T+2); pow(len(all), n) <= lim {
				ins = append(ins, words(all, n)...)
				break
			}
		}
		if c.Unit() {
			run(g, ins)
		}
	}
	sps := []CFGSpace{
		{Name: "1nt/2t/rhs2/prods3/len4", N: 1, T: 2, RHS: 2, MaxProds: []int{3}, InLen: 4},
		{Name: "2nt/2t/rhs2/prods2,1/len3", N: 2, T: 2, RHS: 2, MaxProds: []int{2, 1}, InLen: 3},
		{Name: "2nt/1t/rhs2/prods2,2/len4", N: 2, T: 1, RHS: 2, MaxProds: []int{2, 2}, InLen: 4},
	}
	if c.Thorough {
		sps = append(sps,
			CFGSpace{Name: "2nt/2t/rhs2/prods2,2/len3", N: 2, T: 2, RHS: 2, MaxProds: []int{2, 2}, InLen: 3},
			CFGSpace{Name: "3nt/1t/rhs2/prods2,1,1/len4", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 1, 1}, InLen: 4})
	}
	for _, sp := range sps {
		c.Space(sp.Name)
		ins := append(words(rng(sp.N, sp.N+sp.T), sp.InLen), words(rng(0, sp.N), 2)...)
		eachCFG(sp, func(g *CFG) {
			if c.Unit() {
				run(g, ins)
			}
		})
	}
}
