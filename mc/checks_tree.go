package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// rt is the reference tree.
type rt struct {
	kind, val string
	l, c      int
	ch        []*rt
}

func (t *rt) clone() *rt {
	o := *t
	o.ch = make([]*rt, len(t.ch))
	for i, c := range t.ch {
		o.ch[i] = c.clone()
	}
	return &o
}

func (t *rt) size() int {
	n := 1
	for _, c := range t.ch {
		n += c.size()
	}
	return n
}

func (t *rt) show(b *strings.Builder) {
	b.WriteString(t.kind)
	if t.val != "" {
		b.WriteString("=" + t.val)
	}
	if len(t.ch) > 0 {
		b.WriteByte('(')
		for i, c := range t.ch {
			if i > 0 {
				b.WriteByte(' ')
			}
			c.show(b)
		}
		b.WriteByte(')')
	}
}

func (t *rt) String() string {
	var b strings.Builder
	t.show(&b)
	return b.String()
}

// pn builds the real tree.
func (t *rt) pn() *tree.PN { return t.pn2(0) }

// pn2 builds the real tree; spare is extra capacity in the child slices.
func (t *rt) pn2(spare int) *tree.PN {
	p := &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(t.kind)).Set(t.val).At(t.l, t.c)}
	if len(t.ch) > 0 {
		p.C = make([]*tree.PN, len(t.ch), len(t.ch)+spare)
	}
	for i, c := range t.ch {
		p.C[i] = c.pn2(spare)
		p.C[i].P = p
	}
	return p
}

// text is the canonical text of the tree.
func (t *rt) text(pad string, b *strings.Builder) {
	b.WriteString(pad + t.kind)
	if t.val != "" {
		b.WriteString(": " + strconv.Quote(t.val))
	}
	if len(t.ch) > 0 {
		b.WriteString(" {\n")
		for _, c := range t.ch {
			c.text(pad+"\t", b)
		}
		b.WriteString(pad + "}\n")
	} else {
		b.WriteString("\n")
	}
}

// diff compares a real tree with the reference: content, order, positions (if
// pos), parent links, and that no node occurs twice.
func (t *rt) diff(n parlex.ParseNode, pos bool) string {
	seen := map[parlex.ParseNode]bool{}
	var rec func(t *rt, n, parent parlex.ParseNode, path string) string
	rec = func(t *rt, n, parent parlex.ParseNode, path string) string {
		if isNil(n) {
			return "nil node at " + path
		}
		if seen[n] {
			return "the node at " + path + " occurs twice in the tree"
		}
		seen[n] = true
		if parent == nil {
			if n.Parent() != nil {
				return "the root has a parent"
			}
		} else if n.Parent() == nil || n.Parent() != parent {
			return "wrong parent link at " + path
		}
		if k := n.Kind().String(); k != t.kind {
			return fmt.Sprintf("kind at %s is %s, expected %s", path, k, t.kind)
		}
		if v := n.Value(); v != t.val {
			return fmt.Sprintf("value at %s is %q, expected %q", path, v, t.val)
		}
		if pos {
			if l, c := n.Pos(); l != t.l || c != t.c {
				return fmt.Sprintf("position at %s is %d:%d, expected %d:%d", path, l, c, t.l, t.c)
			}
		}
		if n.Children() != len(t.ch) {
			return fmt.Sprintf("%d children at %s, expected %d", n.Children(), path, len(t.ch))
		}
		for i, c := range t.ch {
			if bad := rec(c, n.Child(i), n, path+"/"+strconv.Itoa(i)); bad != "" {
				return bad
			}
		}
		return ""
	}
	if bad := rec(t, n, nil, ""); bad != "" {
		return bad + "\nexpected " + t.String() + "\n     got " + showPN(n)
	}
	return ""
}

func showPN(n parlex.ParseNode) string {
	var b strings.Builder
	depth := 0
	nodes := 0
	var rec func(n parlex.ParseNode)
	rec = func(n parlex.ParseNode) {
		if isNil(n) {
			b.WriteString("NIL")
			return
		}
		// a tree that contains itself has no end
		if nodes++; depth > 3000 || nodes > 20000 {
			b.WriteString("...")
			return
		}
		depth++
		defer func() { depth-- }()
		b.WriteString(n.Kind().String())
		if n.Value() != "" {
			b.WriteString("=" + n.Value())
		}
		if l, c := n.Pos(); l > 0 || c > 0 {
			fmt.Fprintf(&b, "@%d,%d", l, c)
		}
		if n.Children() > 0 {
			b.WriteByte('(')
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					b.WriteByte(' ')
				}
				c := n.Child(i)
				if !isNil(c) && (isNil(c.Parent()) || c.Parent() != n) {
					b.WriteString("<other parent>")
				}
				rec(c)
			}
			b.WriteByte(')')
		}
	}
	rec(n)
	return b.String()
}

// shapes enumerates the ordered trees with n nodes.
func shapes(n int) []*rt {
	if n == 1 {
		return []*rt{{}}
	}
	var out []*rt
	for _, f := range forests(n - 1) {
		out = append(out, &rt{ch: f})
	}
	return out
}

func forests(n int) [][]*rt {
	if n == 0 {
		return [][]*rt{nil}
	}
	var out [][]*rt
	for k := 1; k <= n; k++ {
		for _, first := range shapes(k) {
			for _, rest := range forests(n - k) {
				out = append(out, append([]*rt{first}, rest...))
			}
		}
	}
	return out
}

func (t *rt) nodes() []*rt {
	out := []*rt{t}
	for _, c := range t.ch {
		out = append(out, c.nodes()...)
	}
	return out
}

// eachTree enumerates all trees of n nodes over the kinds; every node has its
// own value and position.
func eachTree(n int, kinds []string, f func(t *rt)) {
	for _, s := range shapes(n) {
		idx := make([]int, n)
		for {
			t := s.clone()
			for i, x := range t.nodes() {
				x.kind = kinds[idx[i]]
				x.val = strconv.Itoa(i)
				x.l, x.c = i+1, i*2
			}
			f(t)
			i := 0
			for ; i < n; i++ {
				idx[i]++
				if idx[i] < len(kinds) {
					break
				}
				idx[i] = 0
			}
			if i == n {
				break
			}
		}
	}
}

// mark is a user's own reduction: it leaves a trace in the value of the node.
func mark(s string) redn {
	return redn{"mark " + s, func(t *rt) { t.val += s }, func(p *tree.PN) {
		l, c := p.Pos()
		p.Lexeme = lexeme.New(p.Kind()).Set(p.Value()+s).At(l, c)
	}}
}

// rop is a reduction: the reference function, the method and the Reduction
// forms of the real code.
type rop struct {
	name  string
	args  []int
	strs  []string
	ref   func(t *rt) (bool, bool) // result, and whether the method has a result
	meth  func(p *tree.PN) bool
	form  func() tree.Reduction
	chain func(r tree.Reduction) tree.Reduction
	dsl   string
}

func refIdx(t *rt, i int) (int, bool) {
	if i < 0 {
		i += len(t.ch)
	}
	return i, i >= 0 && i < len(t.ch)
}

func cat(a []*rt, bs ...[]*rt) []*rt {
	out := append([]*rt{}, a...)
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func refPromoteChild(t *rt, i int) bool {
	i, ok := refIdx(t, i)
	if !ok {
		return false
	}
	c := t.ch[i]
	t.kind, t.val, t.l, t.c = c.kind, c.val, c.l, c.c
	t.ch = cat(t.ch[:i], c.ch, t.ch[i+1:])
	return true
}

func opsFor(idxs []int, sets [][]int, syms [][]string) []*rop {
	var out []*rop
	for _, i := range idxs {
		i := i
		a := "(" + strconv.Itoa(i) + ")"
		out = append(out,
			&rop{name: "RemoveChild" + a, args: []int{i},
				ref: func(t *rt) (bool, bool) {
					j, ok := refIdx(t, i)
					if ok {
						t.ch = cat(t.ch[:j], t.ch[j+1:])
					}
					return ok, true
				},
				meth:  func(p *tree.PN) bool { return p.RemoveChild(i) },
				form:  func() tree.Reduction { return tree.RemoveChild(i) },
				chain: func(r tree.Reduction) tree.Reduction { return r.RemoveChild(i) }},
			&rop{name: "ReplaceWithChild" + a, args: []int{i},
				ref: func(t *rt) (bool, bool) {
					j, ok := refIdx(t, i)
					if ok {
						*t = *t.ch[j]
					}
					return ok, true
				},
				meth:  func(p *tree.PN) bool { return p.ReplaceWithChild(i) },
				form:  func() tree.Reduction { return tree.ReplaceWithChild(i) },
				chain: func(r tree.Reduction) tree.Reduction { return r.ReplaceWithChild(i) }},
			&rop{name: "PromoteChild" + a, args: []int{i},
				ref:   func(t *rt) (bool, bool) { return refPromoteChild(t, i), true },
				meth:  func(p *tree.PN) bool { return p.PromoteChild(i) },
				form:  func() tree.Reduction { return tree.PromoteChild(i) },
				chain: func(r tree.Reduction) tree.Reduction { return r.PromoteChild(i) }},
			&rop{name: "PromoteChildrenOf" + a, args: []int{i},
				ref: func(t *rt) (bool, bool) {
					j, ok := refIdx(t, i)
					if ok {
						t.ch = cat(t.ch[:j], t.ch[j].ch, t.ch[j+1:])
					}
					return ok, true
				},
				meth:  func(p *tree.PN) bool { return p.PromoteChildrenOf(i) },
				form:  func() tree.Reduction { return tree.PromoteChildrenOf(i) },
				chain: func(r tree.Reduction) tree.Reduction { return r.PromoteChildrenOf(i) }},
			&rop{name: "PromoteChildValue" + a, args: []int{i},
				ref: func(t *rt) (bool, bool) {
					j, ok := refIdx(t, i)
					if ok {
						c := t.ch[j]
						t.val, t.l, t.c = c.val, c.l, c.c
						t.ch = cat(t.ch[:j], t.ch[j+1:])
					}
					return ok, false
				},
				meth:  func(p *tree.PN) bool { p.PromoteChildValue(i); return false },
				form:  func() tree.Reduction { return tree.PromoteChildValue(i) },
				chain: func(r tree.Reduction) tree.Reduction { return r.PromoteChildValue(i) }},
		)
	}
	for _, set := range sets {
		set := set
		strs := make([]string, len(set))
		for k, i := range set {
			strs[k] = strconv.Itoa(i)
		}
		out = append(out, &rop{name: "RemoveChildren(" + strings.Join(strs, ", ") + ")", args: set,
			ref: func(t *rt) (bool, bool) {
				drop := map[int]bool{}
				for _, i := range set {
					if j, ok := refIdx(t, i); ok {
						drop[j] = true
					}
				}
				var out []*rt
				for i, c := range t.ch {
					if !drop[i] {
						out = append(out, c)
					}
				}
				t.ch = out
				return false, false
			},
			meth:  func(p *tree.PN) bool { p.RemoveChildren(set...); return false },
			form:  func() tree.Reduction { return tree.RemoveChildren(set...) },
			chain: func(r tree.Reduction) tree.Reduction { return r.RemoveChildren(set...) }})
	}
	for _, ss := range syms {
		ss := ss
		q := make([]string, len(ss))
		for i, s := range ss {
			q[i] = strconv.Quote(s)
		}
		out = append(out, &rop{name: "RemoveAll(" + strings.Join(q, ", ") + ")", strs: ss,
			ref: func(t *rt) (bool, bool) {
				var out []*rt
				for _, c := range t.ch {
					hit := false
					for _, s := range ss {
						hit = hit || s == c.kind
					}
					if !hit {
						out = append(out, c)
					}
				}
				t.ch = out
				return false, false
			},
			meth:  func(p *tree.PN) bool { p.RemoveAll(ss...); return false },
			form:  func() tree.Reduction { return tree.RemoveAll(ss...) },
			chain: func(r tree.Reduction) tree.Reduction { return r.RemoveAll(ss...) }})
	}
	out = append(out,
		&rop{name: "PromoteSingleChild()",
			ref: func(t *rt) (bool, bool) {
				if len(t.ch) == 1 {
					refPromoteChild(t, 0)
					return true, true
				}
				return false, true
			},
			meth:  func(p *tree.PN) bool { return p.PromoteSingleChild() },
			form:  func() tree.Reduction { return tree.PromoteSingleChild },
			chain: func(r tree.Reduction) tree.Reduction { return r.PromoteSingleChild() }},
		&rop{name: "PromoteGrandChildren()",
			ref: func(t *rt) (bool, bool) {
				var out []*rt
				for _, c := range t.ch {
					out = append(out, c.ch...)
				}
				t.ch = out
				return false, false
			},
			meth:  func(p *tree.PN) bool { p.PromoteGrandChildren(); return false },
			form:  func() tree.Reduction { return tree.PromoteGrandChildren },
			chain: func(r tree.Reduction) tree.Reduction { return r.PromoteGrandChildren() }},
	)
	for _, o := range out {
		o.dsl = o.name
	}
	return out
}

// at finds the node of the real tree that corresponds to path.
func pnAt(p *tree.PN, path []int) *tree.PN {
	for _, i := range path {
		p = p.C[i]
	}
	return p
}

func (t *rt) at(path []int) *rt {
	for _, i := range path {
		t = t.ch[i]
	}
	return t
}

func (t *rt) paths() [][]int {
	out := [][]int{nil}
	for i, c := range t.ch {
		for _, p := range c.paths() {
			out = append(out, append([]int{i}, p...))
		}
	}
	return out
}

type step struct {
	path []int
	op   *rop
}

func (s step) String() string { return fmt.Sprintf("%v.%s", s.path, s.op.name) }

// useful: the operations worth applying at a node with n children (each
// in-bounds index in both notations, and the out of bounds neighbours).
func stepOps(all map[int][]*rop, n int, lean bool) []*rop {
	key := n
	if lean {
		key = -n - 1
	}
	if o, ok := all[key]; ok {
		return o
	}
	var idxs []int
	lo, hi := -n-1, n
	if lean {
		lo, hi = -1, n-1
		if n == 0 {
			lo, hi = 0, 0
		}
	}
	for i := lo; i <= hi; i++ {
		idxs = append(idxs, i)
	}
	sets := [][]int{{0, -1}}
	if !lean {
		sets = [][]int{{}, {0}, {n}}
		for i := lo; i <= hi; i++ {
			for j := lo; j <= hi; j++ {
				sets = append(sets, []int{i, j})
			}
		}
		if n >= 3 {
			sets = append(sets, []int{2, 0, 1}, []int{0, 2, 0}, []int{-1, -2, -3})
		}
	}
	syms := [][]string{{"A"}, {"B"}}
	if !lean {
		syms = append(syms, []string{}, []string{"A", "B"}, []string{"B", "x"})
	}
	all[key] = opsFor(idxs, sets, syms)
	return all[key]
}

func init() {
	register(&Check{
		ID:     "C14",
		Rule:   "every ordered tree up to the node bound over a kind set and a value set is written with String and read back with New, and compared with the reference tree (content, order, parent links); every byte pair is used as a value; every text over a token alphabet up to a length bound is given to New and accepted exactly if a reference line reader accepts it",
		Bounds: []string{"five kinds of white space (none included) in each of 6 gaps of a text", "1001 to 65540 children, values of as many lines, 600 and 1100 levels", "blown-up trees: all trees up to 4 nodes with children repeated, edges stretched and leaves added, 5 and 21 times", "round trip: all trees up to 6 nodes, 2 kinds, all label assignments from 3 values up to 4 nodes; every value of 1 or 2 bytes (65792)", "texts: every sequence of up to 9 of the tokens a, b: \"v\", {, }, newline", "scaled trees: depth and width to 300"},
		Assume: []string{"kinds are non-empty and contain no white space and none of { } : \" (New's documented format has no quoting for kinds)"},
		Run:    runC14,
	})
	register(&Check{
		ID:     "C15",
		Rule:   "explicit enumeration of operation sequences: every tree up to a node bound, every node of it, every reduction with every index and symbol set, up to a depth; after each step the real tree is compared with a functional reference (content, order, positions, results, parent links, no shared nodes); the three forms of each operation (method, Reduction, chained Reduction) are all driven",
		Bounds: []string{"nodes with 1001 to 65540 children", "special kinds: all pairs of about 95 kinds as kind of the node and kind asked for", "indexes to twice the number of children on both sides, and far outside to the limits of int", "all trees with 2 kinds: depth 1 up to 6 nodes, depth 2 up to 5 nodes, depth 3 up to 4 nodes (in-bounds operations in steps 2 and 3)", "child slices with exact capacity and with spare capacity", "scaled: nodes with up to 300 children"},
		Assume: []string{"nodes removed from the tree are not reused by the caller"},
		Run:    runC15,
	})
	register(&Check{
		ID:     "C16",
		Rule:   "every tree up to a node bound is reduced by every reducer that maps the kinds to reductions of a catalogue (including chains and conditionals); the result is compared with a bottom-up reference; the input is compared with a snapshot and must not share nodes with the result; Merge is compared with running both in turn, for every pair",
		Bounds: []string{"1001 to 65540 children, 1001 and 4001 levels", "special kinds: all pairs of about 95 kinds as kind of the node and kind asked for", "blown-up trees: all trees up to 4 nodes with children repeated, edges stretched and leaves added, 5 and 21 times", "all trees up to 6 nodes over 2 kinds x all reducers over 2 kinds and 16 reductions", "Merge: every pair of reducers over 2 kinds and 7 reductions, all trees up to 5 nodes", "scaled trees: depth and width to 130"},
		Assume: []string{"reductions do not walk up the tree (documented restriction)"},
		Run:    runC16,
	})
}

func runC14(c *Ctx) {
	c.Space("trees")
	roundTrip := func(t *rt) string {
		p := t.pn()
		c.Trans(3)
		s := p.String()
		var b strings.Builder
		t.text("", &b)
		c.OutcomeS(s)
		q, err := tree.New(s)
		if err != nil {
			return fmt.Sprintf("New(String) fails: %v\n%s", err, s)
		}
		if bad := t.diff(q, false); bad != "" {
			return "New(String): " + bad + "\n" + s
		}
		if s2 := q.String(); s2 != s {
			return fmt.Sprintf("String of the copy is %q, not %q", s2, s)
		}
		if n := q.Size(); n != t.size() {
			return fmt.Sprintf("Size = %d, expected %d", n, t.size())
		}
		// the text format itself
		q, err = tree.New(b.String())
		if err != nil {
			return "New of the canonical text fails"
		}
		if bad := t.diff(q, false); bad != "" {
			return "New of the canonical text: " + bad
		}
		cl := tree.Clone(p)
		if bad := t.diff(cl, true); bad != "" {
			return "Clone: " + bad
		}
		if bad := t.diff(p, true); bad != "" {
			return "String, New or Clone changed the tree: " + bad
		}
		for _, x := range q.C {
			if x == p {
				return "shared"
			}
		}
		return ""
	}
	maxN := 6
	if c.Thorough {
		maxN = 8
	}
	for n := 1; n <= maxN; n++ {
		eachTree(n, []string{"A", "bc1"}, func(t *rt) {
			if c.Unit() {
				c.Case(t.String, func() string {
					if n > 1 {
						c.NonTrivial()
					}
					return roundTrip(t)
				})
			}
		})
	}
	c.Space("values in trees")
	vals := []string{"", "x", "a\"b\\\n}{:"}
	for n := 1; n <= 4; n++ {
		for _, s := range shapes(n) {
			s := s
			if !c.Unit() {
				continue
			}
			k := pow(len(vals), n)
			for m := 0; m < k; m++ {
				t := s.clone()
				x := m
				for _, nd := range t.nodes() {
					nd.kind = "K"
					nd.val = vals[x%len(vals)]
					x /= len(vals)
					nd.l, nd.c = 3, 4
				}
				c.Case(func() string { return fmt.Sprintf("%q", t.String()) }, func() string { c.NonTrivial(); return roundTrip(t) })
			}
		}
	}
	scaleC14(c)
	hugeC14(c)
	layoutTree(c)
	c.Space("blown up trees")
	bns := []int{5, 21}
	if c.Thorough {
		bns = []int{2, 3, 5, 9, 14, 21, 35, 70}
	}
	for n := 1; n <= 4; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) {
			if !c.Unit() {
				return
			}
			for _, k := range bns {
				for _, bt := range rtBlow(t, k) {
					c.Case(func() string { return fmt.Sprintf("%q", trunc(bt.String())) }, func() string { c.NonTrivial(); return roundTrip(bt) })
				}
			}
		})
	}
	c.Space("value bytes")
	for a := 0; a < 256; a++ {
		if !c.Unit() {
			continue
		}
		for b := -1; b < 256; b++ {
			v := string([]byte{byte(a)})
			if b >= 0 {
				v += string([]byte{byte(b)})
			}
			t := &rt{kind: "K", ch: []*rt{{kind: "v", val: v, ch: []*rt{{kind: "w"}}}, {kind: "z", val: v}}}
			c.Case(func() string { return fmt.Sprintf("value %q", v) }, func() string { return roundTrip(t) })
		}
	}
	c.Space("value runes and escapes")
	for _, v := range []string{"é", "日本", "\u0000", "\u2028", "😀", "\ufeff", `\`, `\\`, `\n`, `\"`, `"`, `""`, `\x41`, `\u0041`, "\t\r\n", ": \"x\" {", "} y {", "'", "`", "a\\", "\\\"\\", "\xff\xfe", "\u00a0", "\\\n", `\\n`, `\\\n`} {
		v := v
		if c.Unit() {
			t := &rt{kind: "K", val: v, ch: []*rt{{kind: "v", val: v + v}, {kind: "w", val: v + "x" + v}}}
			c.Case(func() string { return fmt.Sprintf("value %q", v) }, func() string { return roundTrip(t) })
		}
	}
	c.Space("kinds")
	for r := rune(33); r < 0x250; r++ {
		if strings.ContainsRune("{}:\"", r) || r == 127 || (r >= 0x80 && r <= 0xa0) {
			continue
		}
		r := r
		if c.Unit() {
			for _, k := range []string{string(r), "a" + string(r), string(r) + "b"} {
				k := k
				t := &rt{kind: k, ch: []*rt{{kind: k, val: "v"}, {kind: "w", ch: []*rt{{kind: k}}}}}
				c.Case(func() string { return fmt.Sprintf("kind %q", k) }, func() string { return roundTrip(t) })
			}
		}
	}
	c.Space("texts")
	toks := []string{"a", `b: "v"`, "{", "}", "\n"}
	max := 9
	if c.Thorough {
		max = 10
	}
	eachSeq(len(toks), 3, func(seq []int) {
		if !c.Unit() {
			return
		}
		// longer sequences are enumerated below their prefix of length 3
		if len(seq) < 3 {
			textCase(c, toks, seq)
			return
		}
		var rec func(s []int)
		rec = func(s []int) {
			textCase(c, toks, append([]int{}, s...))
			if len(s) < max {
				for i := range toks {
					rec(append(s, i))
				}
			}
		}
		rec(append([]int{}, seq...))
	})
}

// refLines is the reference reader of the line oriented format.
func refLines(text string) (*rt, bool) {
	root := &rt{}
	stack := []*rt{root}
	for _, line := range strings.Split(text, "\n") {
		f := strings.TrimSpace(line)
		if strings.HasPrefix(f, "}") {
			if len(stack) == 1 {
				return nil, false
			}
			stack = stack[:len(stack)-1]
			f = strings.TrimSpace(f[1:])
		}
		if f == "" {
			continue
		}
		n := &rt{kind: f[:1]}
		f = strings.TrimSpace(f[1:])
		switch {
		case n.kind == "a":
		case n.kind == "b" && strings.HasPrefix(f, `: "v"`):
			n.val = "v"
			f = strings.TrimSpace(f[5:])
		default:
			return nil, false
		}
		top := stack[len(stack)-1]
		top.ch = append(top.ch, n)
		if f == "{" {
			stack = append(stack, n)
		} else if f != "" {
			return nil, false
		}
	}
	if len(stack) != 1 || len(root.ch) != 1 {
		return nil, false
	}
	return root, true
}

func textCase(c *Ctx, toks []string, seq []int) {
	p := make([]string, len(seq))
	for i, t := range seq {
		p[i] = toks[t]
	}
	text := strings.ReplaceAll(strings.Join(p, " "), " \n", "\n") // no white space at the end of a line
	c.Case(func() string { return fmt.Sprintf("%q", text) }, func() string {
		want, ok := refLines(text)
		c.Trans(1)
		got, err := tree.New(text)
		if !ok {
			if err == nil {
				return "accepted: " + showPN(got)
			}
			if got != nil {
				return "error and a tree"
			}
			return ""
		}
		c.NonTrivial()
		if err != nil {
			return "refused: " + err.Error()
		}
		c.OutcomeS(want.ch[0].String())
		return want.ch[0].diff(got, false)
	})
}

func runC15(c *Ctx) {
	namesC15(c)
	cache := map[int][]*rop{}
	run := func(t *rt, spare int, seq []step) string {
		ref := t.clone()
		p := t.pn2(spare)
		for k, s := range seq {
			rn, pn := ref.at(s.path), pnAt(p, s.path)
			wr, has := s.op.ref(rn)
			c.Trans(1)
			// the three forms of the operation, by turns
			switch (k + len(seq)) % 3 {
			case 0:
				s.op.form()(pn)
			case 1:
				r := s.op.meth(pn)
				if has && r != wr {
					return fmt.Sprintf("step %d: %v returned %v", k+1, s, r)
				}
			case 2:
				s.op.chain(nil)(pn)
			}
			if bad := ref.diff(p, true); bad != "" {
				return fmt.Sprintf("after step %d (%v): %s", k+1, s, bad)
			}
		}
		c.OutcomeS(ref.String())
		if ref.size() != p.Size() {
			return "Size"
		}
		same := true
		for _, s := range seq {
			same = same && fmt.Sprint(s.path) == fmt.Sprint(seq[0].path)
		}
		if same {
			// all of it as one chain
			p := t.pn2(spare)
			var r tree.Reduction
			for _, s := range seq {
				r = s.op.chain(r)
			}
			c.Trans(1)
			r(pnAt(p, seq[0].path))
			if bad := ref.diff(p, true); bad != "" {
				return "as one chain: " + bad
			}
		}
		return ""
	}
	allForms := func(t *rt, s step) string {
		for i, f := range []func(p *tree.PN){
			func(p *tree.PN) { s.op.meth(p) },
			func(p *tree.PN) { s.op.form()(p) },
			func(p *tree.PN) { s.op.chain(nil)(p) },
			func(p *tree.PN) { tree.Chain(s.op.form(), nil)(p) },
			func(p *tree.PN) { tree.If(func(*tree.PN) bool { return true }, s.op.form(), nil)(p) },
			func(p *tree.PN) { tree.If(func(*tree.PN) bool { return false }, nil, s.op.form())(p) },
			func(p *tree.PN) { tree.If(nil, nil, s.op.form())(p) },
			func(p *tree.PN) { tree.Chain(nil, s.op.form())(p) },
			// with reductions of the user before and after
			func(p *tree.PN) { s.op.chain(mark("!").real)(p) },
			func(p *tree.PN) { tree.Chain(mark("!").real, s.op.form())(p) },
			func(p *tree.PN) { tree.Chain(s.op.form(), mark("?").real)(p) },
			func(p *tree.PN) {
				s.op.chain(mark("!").real).If(func(*tree.PN) bool { return true }, mark("?").real, mark("+").real)(p)
			},
			func(p *tree.PN) {
				s.op.chain(nil).If(func(*tree.PN) bool { return false }, mark("+").real, mark("?").real)(p)
			},
		} {
			ref := t.clone()
			p := t.pn()
			rn := ref.at(s.path)
			if i == 8 || i == 9 || i == 11 {
				rn.val += "!"
			}
			s.op.ref(rn)
			if i >= 10 {
				rn.val += "?"
			}
			c.Trans(1)
			f(pnAt(p, s.path))
			if bad := ref.diff(p, true); bad != "" {
				return fmt.Sprintf("form %d of %v: %s", i, s, bad)
			}
		}
		return ""
	}
	queries := func(t *rt) string {
		p := t.pn()
		for _, path := range t.paths() {
			rn, pn := t.at(path), pnAt(p, path)
			n := len(rn.ch)
			for _, i := range append(rng(-2*n-2, 2*n+2), farIdx...) {
				j, ok := refIdx(rn, i)
				c.Trans(6)
				gi, gl, gok := pn.GetIdx(i)
				if gok != ok || gl != n || ok && gi != j {
					return fmt.Sprintf("GetIdx(%d) = %d %d %v", i, gi, gl, gok)
				}
				ch := pn.Child(i)
				if ok != (ch != nil) {
					return fmt.Sprintf("Child(%d) of %d children: %v", i, n, ch)
				}
				if ok && ch != parlex.ParseNode(pn.C[j]) {
					return fmt.Sprintf("Child(%d) is another node", i)
				}
				for _, k := range []string{"A", "B", "x", ""} {
					want := ok && rn.ch[j].kind == k
					if pn.ChildIs(i, k) != want || tree.ChildIs(i, k)(pn) != want || pn.ChildAt(i, k) != want || pn.ChildAt(i, "zz", k) != want {
						return fmt.Sprintf("ChildIs/ChildAt(%d, %q)", i, k)
					}
				}
				if pn.ChildAt(i) {
					return "ChildAt without symbols"
				}
			}
		}
		return t.diff(p, true)
	}
	scaleC15(c, allForms)
	hugeC15(c, allForms)
	depth1, depth2, depth3 := 6, 5, 4
	if c.Thorough {
		depth1, depth2, depth3 = 7, 6, 5
	}
	for n := 1; n <= depth1; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) {
			if !c.Unit() {
				return
			}
			c.Space("queries")
			c.Case(t.String, func() string { return queries(t) })
			for _, p1 := range t.paths() {
				for _, o1 := range stepOps(cache, len(t.at(p1).ch), false) {
					s1 := step{p1, o1}
					c.Space("depth 1")
					c.Case(func() string { return t.String() + " " + s1.String() }, func() string { return allForms(t, s1) })
					if n > depth2 {
						continue
					}
					t1 := t.clone()
					o1.ref(t1.at(p1))
					if t1.size() == t.size() {
						continue // no effect
					}
					for _, p2 := range t1.paths() {
						for _, o2 := range stepOps(cache, len(t1.at(p2).ch), true) {
							s2 := step{p2, o2}
							if n > depth3 {
								c.Space("depth 2")
								c.Case(func() string { return fmt.Sprint(t, " ", s1, " ", s2) }, func() string {
									c.NonTrivial()
									if bad := run(t, 0, []step{s1, s2}); bad != "" {
										return bad
									}
									return run(t, 3, []step{s1, s2})
								})
								continue
							}
							t2 := t1.clone()
							o2.ref(t2.at(p2))
							if t2.size() == t1.size() {
								continue
							}
							c.Space("depth 2 and 3")
							for _, p3 := range t2.paths() {
								for _, o3 := range stepOps(cache, len(t2.at(p3).ch), true) {
									s3 := step{p3, o3}
									c.Case(func() string { return fmt.Sprint(t, " ", s1, " ", s2, " ", s3) }, func() string {
										c.NonTrivial()
										if bad := run(t, 0, []step{s1, s2, s3}); bad != "" {
											return bad
										}
										return run(t, 3, []step{s1, s2, s3})
									})
								}
							}
						}
					}
				}
			}
		})
	}
}

// fnode is a foreign implementation of parlex.ParseNode.
type fnode struct {
	t *rt
	p *fnode
	c []*fnode
}

func (f *fnode) Kind() parlex.Symbol { return foreignSym(f.t.kind) }
func (f *fnode) Value() string       { return f.t.val }
func (f *fnode) Pos() (int, int)     { return f.t.l, f.t.c }
func (f *fnode) Parent() parlex.ParseNode {
	if f.p == nil {
		return nil
	}
	return f.p
}
func (f *fnode) Children() int { return len(f.c) }
func (f *fnode) Child(i int) parlex.ParseNode {
	if i < 0 || i >= len(f.c) {
		return nil
	}
	return f.c[i]
}

type foreignSym string

func (s foreignSym) String() string { return string(s) }

func (t *rt) foreign() *fnode {
	f := &fnode{t: t}
	for _, c := range t.ch {
		x := c.foreign()
		x.p = f
		f.c = append(f.c, x)
	}
	return f
}

// catalogue of reductions for reducers: reference and real form.
type redn struct {
	name string
	ref  func(t *rt)
	real tree.Reduction
}

func rednOf(o *rop) redn {
	return redn{o.name, func(t *rt) { o.ref(t) }, o.form()}
}

func chainRedn(a, b *rop) redn {
	return redn{a.name + "." + b.name, func(t *rt) { a.ref(t); b.ref(t) }, b.chain(a.form())}
}

func ifRedn(i int, kind string, a, b *rop) redn {
	ar, br := func(*rt) {}, func(*rt) {}
	var af, bf tree.Reduction
	an, bn := "Nil", "Nil"
	if a != nil {
		ar, af, an = func(t *rt) { a.ref(t) }, a.form(), a.name
	}
	if b != nil {
		br, bf, bn = func(t *rt) { b.ref(t) }, b.form(), b.name
	}
	return redn{fmt.Sprintf("If(ChildIs(%d, %q), %s, %s)", i, kind, an, bn), func(t *rt) {
		if j, ok := refIdx(t, i); ok && t.ch[j].kind == kind {
			ar(t)
		} else {
			br(t)
		}
	}, tree.If(tree.ChildIs(i, kind), af, bf)}
}

func opNamed(name string) *rop {
	for _, o := range opsFor(rng(-4, 5), [][]int{{0, -1}, {0, 2}, {1}, {-1, 0, 1}}, [][]string{{"A"}, {"B"}, {"A", "B"}}) {
		if o.name == name {
			return o
		}
	}
	panic("no operation " + name)
}

func catalogue() []redn {
	var out []redn
	for _, n := range []string{"RemoveChild(0)", "RemoveChild(-1)", "PromoteSingleChild()", "PromoteGrandChildren()", "PromoteChild(0)", "PromoteChildrenOf(-1)", "PromoteChildValue(0)", "ReplaceWithChild(-1)", "ReplaceWithChild(0)", "RemoveAll(\"A\")", "RemoveChildren(0, -1)"} {
		out = append(out, rednOf(opNamed(n)))
	}
	out = append(out,
		chainRedn(opNamed("PromoteChildValue(0)"), opNamed("PromoteChildrenOf(0)")),
		chainRedn(opNamed("RemoveChildren(0, -1)"), opNamed("PromoteSingleChild()")),
		ifRedn(0, "A", opNamed("PromoteChild(0)"), opNamed("RemoveChild(0)")),
		ifRedn(-1, "B", nil, opNamed("ReplaceWithChild(0)")),
		ifRedn(1, "B", opNamed("PromoteChildrenOf(1)"), nil),
		mark("!"),
	)
	for _, n := range []string{"RemoveAll(\"A\", \"B\")", "PromoteGrandChildren()", "ReplaceWithChild(0)"} {
		x := rednOf(opNamed(n))
		k := mark("?")
		out = append(out, redn{x.name + ".mark", func(t *rt) { x.ref(t); k.ref(t) }, tree.Chain(x.real, k.real)})
	}
	return out
}

// refReduce is bottom-up reduction.
func refReduce(t *rt, m map[string]func(*rt)) *rt {
	o := &rt{kind: t.kind, val: t.val, l: t.l, c: t.c}
	for _, c := range t.ch {
		o.ch = append(o.ch, refReduce(c, m))
	}
	if f := m[o.kind]; f != nil {
		f(o)
	}
	return o
}

func disjoint(a, b parlex.ParseNode) bool {
	seen := map[parlex.ParseNode]bool{}
	var rec func(n parlex.ParseNode, put bool) bool
	rec = func(n parlex.ParseNode, put bool) bool {
		if put {
			seen[n] = true
		} else if seen[n] {
			return false
		}
		for i := 0; i < n.Children(); i++ {
			if !rec(n.Child(i), put) {
				return false
			}
		}
		return true
	}
	rec(a, true)
	return rec(b, false)
}

// scribble overwrites every lexeme of a tree.
func scribble(n parlex.ParseNode) {
	p, ok := n.(*tree.PN)
	if !ok || p == nil {
		return
	}
	if l, ok := p.Lexeme.(*lexeme.Lexeme); ok {
		l.Set("scribbled").At(-7, -7)
		l.K = stringsymbol.Symbol("scribbled")
	}
	for _, x := range p.C {
		scribble(x)
	}
}

func runC16(c *Ctx) {
	cat := catalogue()
	try := func(t *rt, r tree.Reducer, m map[string]func(*rt)) string {
		want := refReduce(t, m)
		p := t.pn()
		c.Trans(2)
		got := r.Reduce(p)
		if bad := want.diff(got, true); bad != "" {
			return "Reduce: " + bad
		}
		if bad := t.diff(p, true); bad != "" {
			return "Reduce changed its input: " + bad
		}
		if !disjoint(p, got) {
			return "the result shares nodes with the input"
		}
		scribble(got)
		if bad := t.diff(p, true); bad != "" {
			return "changing the lexemes of the result changes the input: " + bad
		}
		raw := r.RawReduce(p)
		if bad := want.diff(raw, true); bad != "" {
			return "RawReduce after Reduce: " + bad
		}
		c.OutcomeS(want.String())
		f := t.foreign()
		for _, src := range []parlex.ParseNode{t.pn(), f} {
			c.Trans(1)
			cp := tree.Clone(src)
			if bad := t.diff(cp, true); bad != "" {
				return fmt.Sprintf("Clone of a %T: %s", src, bad)
			}
			if !disjoint(src, cp) {
				return "the clone shares nodes with the original"
			}
			scribble(cp)
			if pn, ok := src.(*tree.PN); ok {
				if bad := t.diff(pn, true); bad != "" {
					return "changing the lexemes of the clone changes the original: " + bad
				}
			}
		}
		if bad := want.diff(r.Reduce(f), true); bad != "" {
			return "Reduce of a foreign tree: " + bad
		}
		return ""
	}
	maxN := 6
	if c.Thorough {
		maxN = 7
	}
	c.Space("reducers")
	for n := 1; n <= maxN; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) {
			if !c.Unit() {
				return
			}
			for a := -1; a < len(cat); a++ {
				for b := -1; b < len(cat); b++ {
					r := tree.Reducer{"zz": tree.RemoveChild(0)}
					m := map[string]func(*rt){}
					name := ""
					if a >= 0 {
						r.Add("A", cat[a].real)
						m["A"] = cat[a].ref
						name += " A:" + cat[a].name
					}
					if b >= 0 {
						r["B"] = cat[b].real
						m["B"] = cat[b].ref
						name += " B:" + cat[b].name
					}
					c.Case(func() string { return t.String() + name }, func() string {
						if a >= 0 && b >= 0 {
							c.NonTrivial()
						}
						return try(t, r, m)
					})
				}
			}
		})
	}
	c.Space("nodes without values")
	for n := 1; n <= 4; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) {
			if !c.Unit() {
				return
			}
			for mask := 1; mask < 1<<n; mask++ {
				bt := t.clone()
				for i, x := range bt.nodes() {
					if mask>>i&1 == 1 {
						x.val = ""
						x.l, x.c = -1, 0
					}
				}
				for a := range cat {
					c.Case(func() string { return bt.String() + " A:" + cat[a].name }, func() string {
						return try(bt, tree.Reducer{"A": cat[a].real}, map[string]func(*rt){"A": cat[a].ref})
					})
				}
			}
		})
	}
	scaleC16(c, try)
	hugeC16(c)
	namesC16(c, try)
	c.Space("blown up trees")
	bns := []int{5, 21}
	if c.Thorough {
		bns = []int{2, 3, 5, 9, 14, 21, 35}
	}
	for n := 1; n <= 4; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) {
			if !c.Unit() {
				return
			}
			for _, k := range bns {
				for _, bt := range rtBlow(t, k) {
					for a := range cat {
						for _, b := range []int{a, -1} {
							r := tree.Reducer{"A": cat[a].real}
							m := map[string]func(*rt){"A": cat[a].ref}
							if b >= 0 {
								r["B"], m["B"] = cat[b].real, cat[b].ref
							}
							c.Case(func() string { return trunc(bt.String()) + " A:" + cat[a].name }, func() string {
								return try(bt, r, m)
							})
						}
					}
				}
			}
		})
	}
	c.Space("merged sizes")
	for n1 := 0; n1 <= 12; n1++ {
		for n2 := 0; n2 <= 12; n2++ {
			for common := 0; common <= n1 && common <= n2; common++ {
				n1, n2, common := n1, n2, common
				if !c.Unit() {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("Merge of %d and %d rules with %d kinds in common", n1, n2, common)
				}, func() string {
					t := &rt{kind: "A"}
					r1, r2 := tree.Reducer{}, tree.Reducer{}
					m := map[string]func(*rt){}
					x, y := mark("x"), mark("y")
					for i := 0; i < n1; i++ {
						k := fmt.Sprint("k", i)
						r1.Add(k, x.real)
						m[k] = x.ref
						t.ch = append(t.ch, &rt{kind: k, val: "v"})
					}
					for i := n1 - common; i < n1-common+n2; i++ {
						k := fmt.Sprint("k", i)
						r2.Add(k, y.real)
						if f := m[k]; f != nil {
							m[k] = func(t *rt) { f(t); y.ref(t) }
						} else {
							m[k] = y.ref
							t.ch = append(t.ch, &rt{kind: k, val: "w"})
						}
					}
					c.NonTrivial()
					return try(t, tree.Merge(r1, r2), m)
				})
			}
		}
	}
	c.Space("can")
	for mask := 0; mask < 8; mask++ {
		mask := mask
		if !c.Unit() {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("rules %03b", mask) }, func() string {
			r := tree.Reducer{}
			for i, k := range []string{"A", "B", ""} {
				if mask>>i&1 == 1 {
					r.Add(k, tree.PromoteSingleChild)
				}
			}
			for i, k := range []string{"A", "B", "", "C"} {
				c.Trans(1)
				if r.Can((&rt{kind: k}).pn()) != (mask>>i&1 == 1) {
					return "Can(" + k + ")"
				}
			}
			if r.Reduce(nil) != nil || r.RawReduce(nil) != nil {
				return "Reduce(nil) is not nil"
			}
			var ri parlex.Reducer = r
			if x := ri.Reduce(nil); x != nil {
				return "Reduce(nil) is not nil"
			}
			return ""
		})
	}
	c.Space("merge")
	sub := []redn{cat[0], cat[2], cat[3], cat[4], cat[6], cat[8], cat[13], mark("!")}
	type red struct {
		a, b int
	}
	var reds []red
	for a := -1; a < len(sub); a++ {
		for b := -1; b < len(sub); b++ {
			reds = append(reds, red{a, b})
		}
	}
	mk := func(x red) (tree.Reducer, map[string]func(*rt), string) {
		r := tree.Reducer{}
		m := map[string]func(*rt){}
		name := "{"
		if x.a >= 0 {
			r["A"], m["A"] = sub[x.a].real, sub[x.a].ref
			name += "A:" + sub[x.a].name + " "
		}
		if x.b >= 0 {
			r["B"], m["B"] = sub[x.b].real, sub[x.b].ref
			name += "B:" + sub[x.b].name
		}
		return r, m, name + "}"
	}
	mergeN := 5
	if c.Thorough {
		mergeN = 6
	}
	var trees []*rt
	for n := 1; n <= mergeN; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) { trees = append(trees, t) })
	}
	for _, x := range reds {
		for _, y := range reds {
			x, y := x, y
			if !c.Unit() {
				continue
			}
			r1, m1, n1 := mk(x)
			r2, m2, n2 := mk(y)
			mm := map[string]func(*rt){}
			for k, f := range m1 {
				mm[k] = f
			}
			for k, g := range m2 {
				g := g
				if f := mm[k]; f != nil {
					mm[k] = func(t *rt) { f(t); g(t) }
				} else {
					mm[k] = g
				}
			}
			c.Case(func() string { return "Merge(" + n1 + ", " + n2 + ") on all trees" }, func() string {
				c.NonTrivial()
				c.Trans(1)
				m := tree.Merge(r1, r2)
				if len(m) != len(mm) || len(r1) != len(m1) || len(r2) != len(m2) {
					return "rules lost or operands changed"
				}
				for _, t := range trees {
					if bad := try(t, m, mm); bad != "" {
						return t.String() + ": " + bad
					}
				}
				// the operands are as they were
				for _, t := range trees[:6] {
					if bad := try(t, r1, m1); bad != "" {
						return "first operand after Merge: " + t.String() + ": " + bad
					}
					if bad := try(t, r2, m2); bad != "" {
						return "second operand after Merge: " + t.String() + ": " + bad
					}
				}
				// the merged reducer is independent of its operands
				m.Add("new", tree.RemoveChild(0))
				delete(m, "A")
				if len(r1) != len(m1) || len(r2) != len(m2) {
					return "the merged reducer is one of its operands"
				}
				return ""
			})
		}
	}
}
