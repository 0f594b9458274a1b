package main

import (
	"math/bits"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// CFG is the reference model of a context free grammar.  Symbols are small
// ints: 0..N-1 are non-terminals (0 is the start symbol), N..N+T-1 terminals.
type CFG struct {
	N, T  int
	P     [][][]int // P[nt] = ordered productions
	names []string  // optional
}

var ntNames = []string{"S", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "O", "P"}
var tNames = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}

func (g *CFG) name(s int) string {
	switch s - g.N - g.T { // kinds that are not in the grammar
	case 0:
		return "_?_"
	case 1:
		return ""
	}
	if g.names != nil {
		return g.names[s]
	}
	if s < g.N {
		return ntNames[s]
	}
	return tNames[s-g.N]
}

func (g *CFG) sym(name string) int {
	for s := 0; s < g.N+g.T; s++ {
		if g.name(s) == name {
			return s
		}
	}
	return -1
}

// Text renders the grammar in the notation of grammar.New.
func (g *CFG) Text() string {
	var b strings.Builder
	for nt, ps := range g.P {
		for i, p := range ps {
			if i == 0 {
				b.WriteString(g.name(nt))
			}
			b.WriteString(" ->")
			for _, s := range p {
				b.WriteString(" ")
				b.WriteString(g.name(s))
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

// Build makes the real grammar: from the text form, from a text in which the
// symbols take turns, or with Add.  Which of them depends on the grammar.
func (g *CFG) Build() *grammar.Grammar {
	if len(g.P) < 2 {
		return g.BuildText()
	}
	switch hashS(g.Text()) % 4 {
	case 0:
		if g.textOK() {
			return g.BuildTurns()
		}
		return g.BuildInterleaved()
	case 1:
		return g.BuildInterleaved()
	}
	return g.BuildText()
}

// BuildTurns makes the real grammar from a text with the first productions of
// all symbols, then all second ones and so on.
func (g *CFG) BuildTurns() *grammar.Grammar {
	var b strings.Builder
	for k, more := 0, true; more; k++ {
		more = false
		for nt, ps := range g.P {
			if k >= len(ps) {
				continue
			}
			more = true
			b.WriteString(g.name(nt) + " ->")
			for _, s := range ps[k] {
				b.WriteString(" " + g.name(s))
			}
			b.WriteString("\n")
		}
	}
	r, err := grammar.New(b.String())
	if err != nil {
		panic("grammar.New rejected " + b.String() + ": " + err.Error())
	}
	return r
}

// BuildText makes the real grammar from the text form.
func (g *CFG) BuildText() *grammar.Grammar {
	if !g.textOK() { // names that the notation cannot express
		return g.BuildAdd()
	}
	r, err := grammar.New(g.Text())
	if err != nil {
		panic("grammar.New rejected " + g.Text() + ": " + err.Error())
	}
	return r
}

// ifaceGrammar is a third-party implementation of parlex.Grammar, built from
// the stringsymbol types.
type ifaceGrammar struct {
	order []parlex.Symbol
	prods map[string]stringsymbol.Productions
}

func (g *ifaceGrammar) Productions(s parlex.Symbol) parlex.Productions {
	p, ok := g.prods[s.String()]
	if !ok {
		return nil
	}
	return p
}

func (g *ifaceGrammar) NonTerminals() []parlex.Symbol {
	return append([]parlex.Symbol{}, g.order...)
}

// BuildIface makes a grammar through the parlex.Grammar interface only.
func (g *CFG) BuildIface() *ifaceGrammar {
	out := &ifaceGrammar{prods: map[string]stringsymbol.Productions{}}
	for nt, ps := range g.P {
		if len(ps) == 0 {
			continue
		}
		out.order = append(out.order, stringsymbol.Symbol(g.name(nt)))
		var pp stringsymbol.Productions
		for _, p := range ps {
			sp := stringsymbol.Production{}
			for _, s := range p {
				sp = append(sp, stringsymbol.Symbol(g.name(s)))
			}
			pp = append(pp, sp)
		}
		out.prods[g.name(nt)] = pp
	}
	return out
}

// nullable computes the nullable non-terminals.
func (g *CFG) nullable() []bool {
	null := make([]bool, g.N+g.T)
	for ch := true; ch; {
		ch = false
		for nt, ps := range g.P {
			if null[nt] {
				continue
			}
			for _, p := range ps {
				all := true
				for _, s := range p {
					all = all && null[s]
				}
				if all {
					null[nt] = true
					ch = true
					break
				}
			}
		}
	}
	return null
}

func closure(r [][]bool) {
	n := len(r)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if r[i][k] {
				for j := 0; j < n; j++ {
					if r[k][j] {
						r[i][j] = true
					}
				}
			}
		}
	}
}

func square(n int) [][]bool {
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
	}
	return r
}

// leftRecursive reports A =>+ A alpha for some declared non-terminal.
func (g *CFG) leftRecursive() bool {
	null := g.nullable()
	r := square(g.N)
	for nt, ps := range g.P {
		for _, p := range ps {
			for _, s := range p {
				if s < g.N {
					r[nt][s] = true
				}
				if !null[s] {
					break
				}
			}
		}
	}
	closure(r)
	for i := range r {
		if r[i][i] {
			return true
		}
	}
	return false
}

// cyclic reports A =>+ A for some non-terminal.
func (g *CFG) cyclic() bool {
	null := g.nullable()
	r := square(g.N)
	for nt, ps := range g.P {
		for _, p := range ps {
			for k, s := range p {
				if s >= g.N {
					continue
				}
				rest := true
				for m, t := range p {
					if m != k && !null[t] {
						rest = false
					}
				}
				if rest {
					r[nt][s] = true
				}
			}
		}
	}
	closure(r)
	for i := range r {
		if r[i][i] {
			return true
		}
	}
	return false
}

// reachable computes the non-terminals reachable from the start symbol.
func (g *CFG) reachable() []bool {
	seen := make([]bool, g.N)
	var rec func(nt int)
	rec = func(nt int) {
		if seen[nt] {
			return
		}
		seen[nt] = true
		for _, p := range g.P[nt] {
			for _, s := range p {
				if s < g.N {
					rec(s)
				}
			}
		}
	}
	rec(0)
	return seen
}

// Chart is the reference recogniser: the least fixpoint of the derives
// relation over (symbol, i, j).
type Chart struct {
	g  *CFG
	in []int
	n  int
	w  int      // words per row
	d  []uint64 // row (s, i): the set of j with s deriving in[i:j]
	b1 []uint64
	b2 []uint64
}

func (c *Chart) row(s, i int) []uint64 {
	at := (s*(c.n+1) + i) * c.w
	return c.d[at : at+c.w]
}

func (c *Chart) at(s, i, j int) bool {
	if s >= c.g.N {
		return j == i+1 && c.in[i] == s
	}
	return c.row(s, i)[j>>6]>>(uint(j)&63)&1 == 1
}

// ends is the set of j such that p derives in[i:j].
func (c *Chart) ends(p []int, i int) []uint64 {
	cur, next := c.b1, c.b2
	for k := range cur {
		cur[k] = 0
	}
	cur[i>>6] = 1 << (uint(i) & 63)
	for _, s := range p {
		any := uint64(0)
		for k := range next {
			next[k] = 0
		}
		for k, x := range cur {
			for x != 0 {
				m := k<<6 + bits.TrailingZeros64(x)
				x &= x - 1
				if s >= c.g.N {
					if m < c.n && c.in[m] == s {
						next[(m+1)>>6] |= 1 << (uint(m+1) & 63)
						any = 1
					}
				} else {
					for q, y := range c.row(s, m) {
						next[q] |= y
						any |= y
					}
				}
			}
		}
		cur, next = next, cur
		if any == 0 {
			break
		}
	}
	return cur
}

func (c *Chart) seq(p []int, i, j int) bool {
	switch len(p) {
	case 0:
		return i == j
	case 1:
		return c.at(p[0], i, j)
	}
	return c.ends(p, i)[j>>6]>>(uint(j)&63)&1 == 1
}

// newChart recognises in against g.
func newChart(g *CFG, in []int) *Chart {
	c := &Chart{g: g, in: in, n: len(in)}
	c.w = c.n>>6 + 1
	buf := make([]uint64, (g.N*(c.n+1)+2)*c.w)
	c.b1, c.b2, c.d = buf[:c.w], buf[c.w:2*c.w], buf[2*c.w:]
	for i := c.n; i >= 0; i-- {
		// what starts at i depends on itself and on what starts later
		for ch := true; ch; {
			ch = false
			for nt := g.N - 1; nt >= 0; nt-- {
				r := c.row(nt, i)
				for _, p := range g.P[nt] {
					for k, x := range c.ends(p, i) {
						if x&^r[k] != 0 {
							r[k] |= x
							ch = true
						}
					}
				}
			}
		}
	}
	return c
}

func (c *Chart) accepts() bool { return c.at(0, 0, c.n) }

// Node is the reference parse tree.
type Node struct {
	Sym, Prod int
	I, J      int
	C         []*Node
	seq       []int
}

func (t *Node) render(g *CFG, b *strings.Builder) {
	b.WriteString(g.name(t.Sym))
	if t.Sym < g.N {
		b.WriteString("(")
		for i, c := range t.C {
			if i > 0 {
				b.WriteString(" ")
			}
			c.render(g, b)
		}
		b.WriteString(")")
	}
}

// Render shows the tree as S(A(a) b).
func (t *Node) Render(g *CFG) string {
	if t == nil {
		return "nil"
	}
	var b strings.Builder
	t.render(g, &b)
	return b.String()
}

// renderPN renders a real tree the same way.
func renderPN(g *CFG, n parlex.ParseNode) string {
	var b strings.Builder
	var rec func(n parlex.ParseNode)
	rec = func(n parlex.ParseNode) {
		k := n.Kind().String()
		b.WriteString(k)
		if s := g.sym(k); s >= 0 && s < g.N || n.Children() > 0 {
			b.WriteString("(")
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				rec(n.Child(i))
			}
			b.WriteString(")")
		}
	}
	rec(n)
	return b.String()
}

// lexLess is the order on pre-order production sequences.
func lexLess(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

type bestOp struct {
	c    *Chart
	memo map[[3]int]*Node
}

// best returns the derivation whose pre-order sequence of production indexes
// is lexicographically least.  Only for grammars without cyclic derivations.
func (b *bestOp) best(s, i, j int) *Node {
	k := [3]int{s, i, j}
	if n, ok := b.memo[k]; ok {
		return n
	}
	if !b.c.at(s, i, j) {
		b.memo[k] = nil
		return nil
	}
	g := b.c.g
	if s >= g.N {
		n := &Node{Sym: s, I: i, J: j}
		b.memo[k] = n
		return n
	}
	var out *Node
	for pi, p := range g.P[s] {
		if !b.c.seq(p, i, j) {
			continue
		}
		ch, sq := b.seq(p, i, j)
		out = &Node{Sym: s, Prod: pi, I: i, J: j, C: ch, seq: append([]int{pi}, sq...)}
		break
	}
	b.memo[k] = out
	return out
}

func (b *bestOp) seq(p []int, i, j int) ([]*Node, []int) {
	if len(p) == 0 {
		return nil, nil
	}
	var bt []*Node
	var bs []int
	have := false
	for m := i; m <= j; m++ {
		if !b.c.at(p[0], i, m) || !b.c.seq(p[1:], m, j) {
			continue
		}
		h := b.best(p[0], i, m)
		t, ts := b.seq(p[1:], m, j)
		sq := append(append([]int{}, h.seq...), ts...)
		if !have || lexLess(sq, bs) {
			have = true
			bs = sq
			bt = append([]*Node{h}, t...)
		}
	}
	return bt, bs
}

// ---- enumeration ---------------------------------------------------------

// words lists all words over syms of length 0..max, shortest first.
func words(syms []int, max int) [][]int {
	out := [][]int{{}}
	last := out
	for l := 1; l <= max; l++ {
		var nx [][]int
		for _, p := range last {
			for _, s := range syms {
				w := make([]int, len(p)+1)
				copy(w, p)
				w[len(p)] = s
				nx = append(nx, w)
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

// arrangements lists all ordered selections of 1..max distinct indexes below n.
func arrangements(n, max int) [][]int {
	var out [][]int
	for l := 1; l <= max; l++ {
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) == l {
				out = append(out, append([]int{}, cur...))
				return
			}
			for i := 0; i < n; i++ {
				dup := false
				for _, c := range cur {
					dup = dup || c == i
				}
				if !dup {
					rec(append(cur, i))
				}
			}
		}
		rec(nil)
	}
	return out
}

func rng(lo, hi int) []int {
	var r []int
	for i := lo; i < hi; i++ {
		r = append(r, i)
	}
	return r
}

// swapTerm renames terminals x<->y.
func swapTerm(p [][]int, x, y int) [][]int {
	out := make([][]int, len(p))
	for i, r := range p {
		o := make([]int, len(r))
		for j, s := range r {
			switch s {
			case x:
				o[j] = y
			case y:
				o[j] = x
			default:
				o[j] = s
			}
		}
		out[i] = o
	}
	return out
}

func cmpProds(a, b [][]int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		for j := 0; j < len(x) && j < len(y); j++ {
			if x[j] != y[j] {
				return x[j] - y[j]
			}
		}
		if len(x) != len(y) {
			return len(x) - len(y)
		}
	}
	return len(a) - len(b)
}

// CFGSpace describes an enumerated family of grammars.
type CFGSpace struct {
	Name     string
	N, T     int
	RHS      int   // maximal right hand side length
	MaxProds []int // per non-terminal
	MinFirst int   // start symbol has at least this many productions
	InLen    int
	AllNT    bool // keep grammars with unreachable non-terminals
	NoEps    bool // no empty right hand sides
}

// eachCFG enumerates the space up to renaming of terminals, keeping grammars in
// which every non-terminal is reachable.
func eachCFG(sp CFGSpace, f func(g *CFG)) {
	syms := rng(0, sp.N+sp.T)
	rhs := words(syms, sp.RHS)
	if sp.NoEps {
		rhs = rhs[1:]
	}
	lists := make([][][]int, sp.N)
	for nt := 0; nt < sp.N; nt++ {
		lists[nt] = arrangements(len(rhs), sp.MaxProds[nt])
	}
	cur := make([][][]int, sp.N)
	var rec func(nt int)
	rec = func(nt int) {
		if nt == sp.N {
			g := &CFG{N: sp.N, T: sp.T, P: cur}
			if !sp.AllNT {
				for _, r := range g.reachable() {
					if !r {
						return
					}
				}
			}
			if sp.T == 2 {
				// canonical under a<->b
				for k := 0; k < sp.N; k++ {
					c := cmpProds(cur[k], swapTerm(cur[k], sp.N, sp.N+1))
					if c < 0 {
						break
					}
					if c > 0 {
						return
					}
				}
			}
			cp := make([][][]int, sp.N)
			copy(cp, cur)
			f(&CFG{N: sp.N, T: sp.T, P: cp})
			return
		}
		for _, l := range lists[nt] {
			if nt == 0 && len(l) < sp.MinFirst {
				continue
			}
			ps := make([][]int, len(l))
			for i, x := range l {
				ps[i] = rhs[x]
			}
			cur[nt] = ps
			rec(nt + 1)
		}
	}
	rec(0)
}

// ---- lexemes -------------------------------------------------------------

// probeLexeme is a third-party parlex.Lexeme.
type probeLexeme struct {
	k    stringsymbol.Symbol
	v    string
	l, c int
}

func (p *probeLexeme) Kind() parlex.Symbol { return p.k }
func (p *probeLexeme) Value() string       { return p.v }
func (p *probeLexeme) Pos() (int, int)     { return p.l, p.c }

// lexemes makes an input of distinguishable lexemes.
func (g *CFG) lexemes(in []int) []parlex.Lexeme {
	out := make([]parlex.Lexeme, len(in))
	for i, s := range in {
		nm := g.name(s)
		v, ln, col := nm+strconv.Itoa(i), i+1, 2*i+3
		switch (i + len(in)) % 7 { // some that no lexer made
		case 3:
			v, ln, col = "", 0, 0
		case 5:
			ln = -1 - i
		case 6:
			v, col = v+"\n\t", -7
		}
		if i%2 == 0 {
			out[i] = lexeme.String(nm).Set(v).At(ln, col)
		} else {
			out[i] = &probeLexeme{stringsymbol.Symbol(nm), v, ln, col}
		}
	}
	return out
}

func (g *CFG) word(in []int) string {
	s := make([]string, len(in))
	for i, x := range in {
		s[i] = g.name(x)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// parseCFG reads a grammar in the notation of grammar.New into the reference
// model, independently of the code under test.  Symbols that occur on a left
// hand side are non-terminals, in order of first definition.
func parseCFG(text string) *CFG {
	type pr struct {
		nt  string
		rhs []string
	}
	var prods []pr
	var order []string
	seen := map[string]bool{}
	cur := ""
	for _, line := range strings.Split(text, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		i := strings.Index(line, "->")
		if i < 0 {
			panic("parseCFG: " + line)
		}
		if l := strings.TrimSpace(line[:i]); l != "" {
			cur = l
		}
		if !seen[cur] {
			seen[cur] = true
			order = append(order, cur)
		}
		prods = append(prods, pr{cur, strings.Fields(line[i+2:])})
	}
	g := &CFG{N: len(order)}
	g.names = append([]string{}, order...)
	g.P = make([][][]int, len(order))
	idx := map[string]int{}
	for i, n := range order {
		idx[n] = i
	}
	for _, p := range prods {
		r := []int{}
		for _, s := range p.rhs {
			k, ok := idx[s]
			if !ok {
				k = len(g.names)
				idx[s] = k
				g.names = append(g.names, s)
				g.T++
			}
			r = append(r, k)
		}
		nt := idx[p.nt]
		g.P[nt] = append(g.P[nt], r)
	}
	return g
}

// readGrammar reads a real grammar through the parlex.Grammar interface into
// the reference model.
func readGrammar(rg parlex.Grammar) *CFG {
	g := &CFG{}
	idx := map[string]int{}
	nts := rg.NonTerminals()
	for _, nt := range nts {
		idx[nt.String()] = len(g.names)
		g.names = append(g.names, nt.String())
	}
	g.N = len(nts)
	g.P = make([][][]int, g.N)
	for k, nt := range nts {
		ps := rg.Productions(nt)
		if ps == nil {
			continue
		}
		for i := 0; i < ps.Productions(); i++ {
			p := ps.Production(i)
			r := []int{}
			for j := 0; j < p.Symbols(); j++ {
				s := p.Symbol(j).String()
				x, ok := idx[s]
				if !ok {
					x = len(g.names)
					idx[s] = x
					g.names = append(g.names, s)
					g.T++
				}
				r = append(r, x)
			}
			g.P[k] = append(g.P[k], r)
		}
	}
	return g
}

// mapWord translates a word between grammars by symbol name (-1 if unknown).
func mapWord(from, to *CFG, in []int) []int {
	out := make([]int, len(in))
	for i, s := range in {
		out[i] = to.sym(from.name(s))
		if out[i] < 0 {
			out[i] = to.N + to.T // a terminal the grammar does not know
		}
	}
	return out
}

// edits lists in and every word at edit distance 1 over terminals ts.
func edits(in []int, ts []int) [][]int {
	out := [][]int{in}
	for i := range in {
		out = append(out, append(append([]int{}, in[:i]...), in[i+1:]...))
		for _, t := range ts {
			if t != in[i] {
				w := append([]int{}, in...)
				w[i] = t
				out = append(out, w)
			}
		}
	}
	for i := 0; i <= len(in); i++ {
		for _, t := range ts {
			w := append(append(append([]int{}, in[:i]...), t), in[i:]...)
			out = append(out, w)
		}
	}
	return out
}
