package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// dred is a reduction of the reducer language: an operation, Nil or If.
type dred struct {
	op         *rop
	isIf       bool
	idx        int
	kind       string
	then, othr []*dred
}

func (d *dred) toks() []string {
	if d.isIf {
		out := []string{"If", "(", "ChildIs", "(", fmt.Sprint(d.idx), ",", `"` + d.kind + `"`, ")", ","}
		out = append(out, chainToks(d.then)...)
		out = append(out, ",")
		out = append(out, chainToks(d.othr)...)
		return append(out, ")")
	}
	if d.op == nil {
		return []string{"Nil"}
	}
	name := d.op.name[:strings.IndexByte(d.op.name, '(')]
	out := []string{name, "("}
	if d.op.strs != nil {
		for i, s := range d.op.strs {
			if i > 0 {
				out = append(out, ",")
			}
			out = append(out, `"`+s+`"`)
		}
	} else {
		for i, a := range d.op.args {
			if i > 0 {
				out = append(out, ",")
			}
			out = append(out, fmt.Sprint(a))
		}
	}
	return append(out, ")")
}

func chainToks(ds []*dred) []string {
	var out []string
	for i, d := range ds {
		if i > 0 {
			out = append(out, ".")
		}
		out = append(out, d.toks()...)
	}
	return out
}

func (d *dred) apply(t *rt) {
	if d.isIf {
		ds := d.othr
		if j, ok := refIdx(t, d.idx); ok && t.ch[j].kind == d.kind {
			ds = d.then
		}
		for _, x := range ds {
			x.apply(t)
		}
		return
	}
	if d.op != nil {
		d.op.ref(t)
	}
}

type drule struct {
	name  string
	chain []*dred
}

func progToks(rs []drule) [][]string {
	var out [][]string
	for _, r := range rs {
		out = append(out, append([]string{r.name}, chainToks(r.chain)...))
	}
	return out
}

// layouts of a program
func layout(rules [][]string, style int) string {
	var b strings.Builder
	wordy := func(s string) bool { return s != "" && !strings.Contains("().,\"", s[:1]) }
	for i, r := range rules {
		for j, t := range r {
			switch style {
			case 0: // one line per rule, compact
				if j > 0 && (j == 1 || wordy(r[j-1]) && wordy(t)) {
					b.WriteString(" ")
				}
			case 1: // spaces everywhere
				b.WriteString("  ")
			case 2: // a line per token, with comments
				if j%2 == 0 {
					b.WriteString("\n\t// note ( , \"\n")
				} else {
					b.WriteString("\n")
				}
			}
			b.WriteString(t)
		}
		if style == 3 { // everything on one line
			b.WriteString(" ")
		} else if i < len(rules)-1 || style == 1 {
			b.WriteString("\n")
		}
	}
	if style == 3 {
		b.Reset()
		for _, r := range rules {
			for _, t := range r {
				b.WriteString(t + " ")
			}
		}
	}
	return b.String()
}

// dslOK is the reference recogniser of the language.
func dslOK(t []string) bool {
	i := 0
	peek := func() string {
		if i < len(t) {
			return t[i]
		}
		return ""
	}
	eat := func(s string) bool {
		if peek() == s {
			i++
			return true
		}
		return false
	}
	isNum := func(s string) bool { return s != "" && (s[0] == '-' || s[0] >= '0' && s[0] <= '9') }
	isStr := func(s string) bool { return s != "" && s[0] == '"' }
	var chain func() bool
	red := func() bool {
		switch k := peek(); k {
		case "Nil":
			i++
			return true
		case "PromoteSingleChild", "PromoteGrandChildren":
			i++
			return eat("(") && eat(")")
		case "PromoteChildValue", "RemoveChild", "ReplaceWithChild", "PromoteChildrenOf", "PromoteChild":
			i++
			if !eat("(") || !isNum(peek()) {
				return false
			}
			i++
			return eat(")")
		case "RemoveChildren", "RemoveAll":
			i++
			if !eat("(") {
				return false
			}
			for {
				if k == "RemoveAll" && !isStr(peek()) || k == "RemoveChildren" && !isNum(peek()) {
					return false
				}
				i++
				if !eat(",") {
					return eat(")")
				}
			}
		case "If":
			i++
			if !eat("(") || !eat("ChildIs") || !eat("(") || !isNum(peek()) {
				return false
			}
			i++
			if !eat(",") || !isStr(peek()) {
				return false
			}
			i++
			return eat(")") && eat(",") && chain() && eat(",") && chain() && eat(")")
		}
		return false
	}
	chain = func() bool {
		for {
			if !red() {
				return false
			}
			if !eat(".") {
				return true
			}
		}
	}
	for i < len(t) {
		if t[i] != "Foo" && t[i] != "A" && t[i] != "B" {
			return false
		}
		i++
		if !chain() {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		ID:     "C17",
		Rule:   "every program of the reducer language up to a size bound (rules, chains, nested conditionals, every operation, indices and symbol lists) in four layouts is parsed, and the resulting reducer is run on every tree up to a node bound and compared with a reference bottom-up interpreter; every token sequence up to a length bound and every single-token edit of larger programs is accepted exactly if a reference recogniser accepts it",
		Bounds: []string{"about 95 special kinds as arguments, 22 special rule names", "programs: 1 rule with every operation, every list of up to 3 of 6 indices or of 4 kinds, every chain of 2 and 3 over 7 operations, every If over 6 branches (also nested), 2 and 3 rules", "trees: all up to 5 nodes over 2 kinds", "token sequences: all up to length 4 over 15 tokens, up to length 5 over 9; single edits (delete, replace, insert) of 12 programs", "14 special kinds and 7 special numbers as arguments, every number from -40 to 40 with up to 3 leading zeros", "scaled chains, rules, arguments, conditionals and trees: sizes 1..20 and around powers of two to 130; every operation and condition with indices of those sizes to 300", "every pair of operations as two rules for one kind"},
		Assume: []string{"numbers are decimal integers", "rule names are not keywords of the language and do not start with a digit"},
		Run:    runC17,
	})
}

func runC17(c *Ctx) {
	maxN := 5
	if c.Thorough {
		maxN = 6
	}
	var trees []*rt
	for n := 1; n <= maxN; n++ {
		eachTree(n, []string{"A", "B"}, func(t *rt) { trees = append(trees, t) })
	}
	check := func(rs []drule) {
		if !c.Unit() {
			return
		}
		toks := progToks(rs)
		m := map[string]func(*rt){}
		for _, r := range rs {
			r := r
			m[r.name] = func(t *rt) {
				for _, d := range r.chain {
					d.apply(t)
				}
			}
		}
		for style := 0; style < 4; style++ {
			text := layout(toks, style)
			c.Case(func() string { return text }, func() string {
				c.Trans(1)
				r, err := reducer.Parse(text)
				if err != nil {
					return "Parse: " + err.Error()
				}
				for _, rl := range rs {
					if !r.Can((&rt{kind: rl.name}).pn()) {
						return "no rule for " + rl.name
					}
				}
				if r.Can((&rt{kind: "other"}).pn()) || len(r) != len(m) {
					return fmt.Sprintf("%d rules", len(r))
				}
				c.NonTrivial()
				for _, t := range trees {
					if style > 0 && t.size() > 3 {
						break
					}
					c.Trans(1)
					want := refReduce(t, m)
					if style == 0 {
						c.OutcomeS(want.String())
					}
					if bad := want.diff(r.Reduce(t.pn()), true); bad != "" {
						return t.String() + ": " + bad
					}
				}
				return ""
			})
		}
	}
	all := opsFor([]int{0, 1, 2, -1, -2, 12}, [][]int{{0}, {-1}, {0, -1}, {1, 0, 2}, {0, 0}, {3, 1, -2, 0}}, [][]string{{"A"}, {"B"}, {"A", "B"}, {"x", "B", "A"}})
	d := func(name string) *dred {
		if name == "Nil" {
			return &dred{}
		}
		return &dred{op: opNamed(name)}
	}
	c.Space("empty")
	for _, t := range []string{"", " ", "\n", "// nothing", "// a\n// b\n", "\n\n\t"} {
		t := t
		if c.Unit() {
			c.Case(func() string { return fmt.Sprintf("%q", t) }, func() string {
				c.Trans(1)
				r, err := reducer.Parse(t)
				if err != nil || len(r) != 0 {
					return fmt.Sprint(r, err)
				}
				for _, t := range trees[:20] {
					if bad := t.diff(r.Reduce(t.pn()), true); bad != "" {
						return bad
					}
				}
				return ""
			})
		}
	}
	c.Space("single operations")
	for _, o := range all {
		check([]drule{{"A", []*dred{{op: o}}}})
		check([]drule{{"B", []*dred{{op: o}}}})
	}
	check([]drule{{"A", []*dred{{}}}})
	c.Space("argument lists")
	var lists [][]int
	var slists [][]string
	eachSeq(6, 3, func(seq []int) {
		if len(seq) > 0 {
			var l []int
			for _, k := range seq {
				l = append(l, []int{0, 1, 2, -1, -2, -3}[k])
			}
			lists = append(lists, l)
		}
	})
	eachSeq(4, 3, func(seq []int) {
		if len(seq) > 0 {
			var l []string
			for _, k := range seq {
				l = append(l, []string{"A", "B", "x", ""}[k])
			}
			slists = append(slists, l)
		}
	})
	for _, o := range opsFor(nil, lists, slists) {
		if o.strs != nil || o.args != nil {
			check([]drule{{"A", []*dred{{op: o}}}})
		}
	}
	c.Space("chains")
	small := []*dred{d("RemoveChild(0)"), d("PromoteSingleChild()"), d("PromoteChild(-1)"), d("PromoteChildrenOf(0)"), d("PromoteChildValue(0)"), d("ReplaceWithChild(1)"), d("RemoveAll(\"B\")"), d("Nil")}
	for _, x := range small {
		for _, y := range small {
			check([]drule{{"A", []*dred{x, y}}})
			for _, z := range small {
				check([]drule{{"A", []*dred{x, y, z}}})
			}
		}
	}
	c.Space("conditionals")
	br := [][]*dred{{d("Nil")}, {d("RemoveChild(0)")}, {d("PromoteChild(0)")}, {d("RemoveChild(0)"), d("PromoteSingleChild()")}, {d("PromoteGrandChildren()")}, {d("RemoveChildren(0, 2)"), d("RemoveAll(\"A\", \"B\")")}}
	for _, i := range []int{0, 1, -1, 7} {
		for _, k := range []string{"A", "B"} {
			for _, th := range br {
				for _, ot := range br {
					f := &dred{isIf: true, idx: i, kind: k, then: th, othr: ot}
					check([]drule{{"A", []*dred{f}}})
					if i == 0 {
						check([]drule{{"A", []*dred{f, d("PromoteSingleChild()")}}})
						check([]drule{{"A", []*dred{d("RemoveChild(-1)"), f}}})
						check([]drule{{"A", []*dred{{isIf: true, idx: -1, kind: "A", then: []*dred{f}, othr: ot}}}})
						check([]drule{{"A", []*dred{{isIf: true, idx: -1, kind: "B", then: th, othr: []*dred{d("RemoveChild(0)"), f}}}}})
					}
				}
			}
		}
	}
	c.Space("several rules")
	for _, x := range small {
		for _, y := range small {
			check([]drule{{"A", []*dred{x}}, {"B", []*dred{y}}})
			check([]drule{{"B", []*dred{x, y}}, {"A", []*dred{y}}, {"If2", []*dred{x}}, {"Removed_1", []*dred{y, x}}})
		}
	}
	c.Space("token sequences")
	accept := func(t []string) {
		text := strings.Join(t, " ")
		c.Case(func() string { return text }, func() string {
			c.Trans(1)
			r, err := reducer.Parse(text)
			ok := dslOK(t)
			if ok {
				c.NonTrivial()
				c.OutcomeS(text)
			}
			if ok != (err == nil) {
				return fmt.Sprintf("error is %v, well formed is %v", err, ok)
			}
			if err != nil && r != nil {
				return "an error and a reducer"
			}
			return ""
		})
	}
	tk := []string{"Foo", "PromoteSingleChild", "(", ")", "RemoveChildren", "0", ",", "RemoveAll", `"A"`, ".", "Nil", "If", "ChildIs", "RemoveChild", "B"}
	core := []string{"Foo", "PromoteSingleChild", "(", ")", "RemoveChild", "1", ",", ".", "Nil"}
	seqs := func(tk []string, max int) {
		eachSeq(len(tk), 2, func(seq []int) {
			if !c.Unit() {
				return
			}
			var rec func(s []int)
			rec = func(s []int) {
				t := make([]string, len(s))
				for i, k := range s {
					t[i] = tk[k]
				}
				accept(t)
				if len(seq) == 2 && len(s) < max {
					for i := range tk {
						rec(append(s, i))
					}
				}
			}
			rec(append([]int{}, seq...))
		})
	}
	a, b := 4, 5
	if c.Thorough {
		a, b = 5, 6
	}
	seqs(tk, a)
	seqs(core, b)
	c.Space("edits")
	progs := []string{
		`Foo PromoteSingleChild ( )`, `Foo RemoveChild ( 0 )`, `Foo RemoveChildren ( 0 , 1 , -1 )`, `Foo RemoveAll ( "A" , "B" )`,
		`Foo PromoteChildValue ( 0 ) . PromoteChildrenOf ( -1 ) . PromoteGrandChildren ( )`, `Foo Nil B Nil`,
		`Foo If ( ChildIs ( 0 , "A" ) , Nil , RemoveChild ( 1 ) )`, `Foo If ( ChildIs ( 0 , "A" ) , Nil . PromoteChild ( 0 ) , ReplaceWithChild ( 1 ) ) . Nil`,
		`Foo If ( ChildIs ( -1 , "B" ) , If ( ChildIs ( 0 , "A" ) , Nil , Nil ) , Nil ) B PromoteSingleChild ( )`,
		`A PromoteChild ( 0 ) B PromoteChild ( 1 ) Foo PromoteChildrenOf ( 0 )`, `A RemoveAll ( "A" ) . RemoveAll ( "B" ) B RemoveChildren ( 0 )`,
		`A ReplaceWithChild ( 0 ) . ReplaceWithChild ( -1 )`,
	}
	for _, p := range progs {
		t := strings.Fields(p)
		if c.Unit() {
			accept(t)
		}
		for i := 0; i <= len(t); i++ {
			if !c.Unit() {
				continue
			}
			if i < len(t) {
				accept(append(append([]string{}, t[:i]...), t[i+1:]...))
			}
			for _, k := range tk {
				accept(append(append(append([]string{}, t[:i]...), k), t[i:]...))
				if i < len(t) {
					accept(append(append(append([]string{}, t[:i]...), k), t[i+1:]...))
				}
			}
			for j := i + 1; j < len(t); j++ {
				x := append([]string{}, t...)
				x[i], x[j] = x[j], x[i]
				accept(x)
			}
		}
	}
	scaleC17(c)
	indexC17(c)
	namesC17(c)
	c.Space("arguments")
	for _, k := range []string{`"`, `\`, "a b", "é", "", "a\nb", `\n`, "-", "0", "If", "'", "//", "\x80", `C:\x`} {
		k := k
		if !c.Unit() {
			continue
		}
		t := &rt{kind: "A", ch: []*rt{{kind: k, val: "1"}, {kind: "B"}, {kind: k + "x"}, {kind: k, val: "2"}}}
		for i, pr := range []struct {
			text string
			keep []int
		}{
			{fmt.Sprintf("A RemoveAll(%q)", k), []int{1, 2}},
			{fmt.Sprintf("A RemoveAll(%q, \"B\", %q)", k+"x", k+"y"), []int{0, 3}},
			{fmt.Sprintf("A If(ChildIs(-1, %q), RemoveChild(1), Nil)", k), []int{0, 2, 3}},
			{fmt.Sprintf("A If(ChildIs(2, %q), Nil, RemoveChild(0))", k), []int{1, 2, 3}},
		} {
			i, pr := i, pr
			c.Case(func() string { return pr.text }, func() string {
				c.Trans(1)
				c.NonTrivial()
				r, err := reducer.Parse(pr.text)
				if err != nil {
					return fmt.Sprint(i, err)
				}
				want := &rt{kind: "A"}
				for _, x := range pr.keep {
					want.ch = append(want.ch, t.ch[x])
				}
				return want.diff(r.Reduce(t.pn()), true)
			})
		}
	}
	for _, n := range []string{"7", "-9", "12345678901", "99999999999999999999999", "-99999999999999999999999", "007", "-0"} {
		n := n
		if !c.Unit() {
			continue
		}
		t := &rt{kind: "A"}
		for i := 0; i < 9; i++ {
			t.ch = append(t.ch, &rt{kind: "B", val: fmt.Sprint(i)})
		}
		rm := map[string]int{"7": 7, "-9": 0, "007": 7, "-0": 0}
		for _, op := range []string{"A RemoveChild(" + n + ")", "A RemoveChildren(" + n + ")", "A If(ChildIs(" + n + ",\"B\"), RemoveChild(" + n + "), RemoveChild(" + n + "))"} {
			op := op
			c.Case(func() string { return op }, func() string {
				c.Trans(1)
				r, err := reducer.Parse(op)
				if err != nil {
					return err.Error()
				}
				want := t.clone()
				if i, ok := rm[n]; ok {
					want.ch = append(want.ch[:i:i], want.ch[i+1:]...)
				}
				return want.diff(r.Reduce(t.pn()), true)
			})
		}
	}
	for n := -40; n <= 40; n++ {
		n := n
		if !c.Unit() {
			continue
		}
		t := &rt{kind: "A"}
		for i := 0; i < 35; i++ {
			t.ch = append(t.ch, &rt{kind: "B", val: fmt.Sprint(i), ch: []*rt{{kind: "C"}}})
		}
		for z := 0; z < 4; z++ {
			num := strings.Repeat("0", z) + fmt.Sprint(n)
			if n < 0 {
				num = "-" + strings.Repeat("0", z) + fmt.Sprint(-n)
			}
			for _, o := range []string{"RemoveChild(%s)", "RemoveChildren(%s)", "If(ChildIs(%s,\"B\"), RemoveChild(0), Nil)", "RemoveChildren(0, %s)", "RemoveChildren(%s, 36)"} {
				text := "A " + fmt.Sprintf(o, num)
				c.Case(func() string { return text }, func() string {
					c.Trans(1)
					r, err := reducer.Parse(text)
					if err != nil {
						return err.Error()
					}
					i := n
					if i < 0 {
						i += 35
					}
					drop := map[int]bool{i: i >= 0 && i < 35}
					if strings.HasPrefix(o, "If") {
						drop = map[int]bool{0: drop[i]}
					} else if strings.Contains(o, "0,") {
						drop[0] = true
					}
					want := &rt{kind: "A"}
					for j, x := range t.ch {
						if !drop[j] {
							want.ch = append(want.ch, x)
						}
					}
					return want.diff(r.Reduce(t.pn()), true)
				})
			}
		}
	}
	c.Space("not lexable")
	for _, t := range []string{"Foo $", "@", "Foo RemoveChild(0) ;", "Foo RemoveAll('A')", "Foo RemoveAll(\"A)", "Foo /", "Foo RemoveChild(1.5)", "Foo RemoveChild(.5)", "Foo RemoveChildren(0, 1.)", "Foo RemoveChild(--1)", "Foo RemoveChild(1e3)", "Foo RemoveChild(+1)"} {
		t := t
		if c.Unit() {
			c.Case(func() string { return t }, func() string {
				c.Trans(1)
				r, err := reducer.Parse(t)
				if err == nil || r != nil {
					return "accepted"
				}
				return ""
			})
		}
	}
	charsC17(c)
	_ = tree.Chain
}

// charsC17: numbers, comments, strings and white space, character by
// character.
func charsC17(c *Ctx) {
	kids := &rt{kind: "A"}
	for i := 0; i < 12; i++ {
		kids.ch = append(kids.ch, &rt{kind: fmt.Sprintf("k%d", i), val: fmt.Sprint(i)})
	}
	drop := func(ks ...int) *rt {
		out := &rt{kind: "A"}
		for i, x := range kids.ch {
			gone := false
			for _, k := range ks {
				gone = gone || k == i || k+len(kids.ch) == i
			}
			if !gone {
				out.ch = append(out.ch, x)
			}
		}
		return out
	}
	expect := func(text string, want *rt) string {
		c.Trans(1)
		r, err := reducer.Parse(text)
		if want == nil {
			if err == nil || r != nil {
				return "accepted"
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		if len(r) != 1 {
			return fmt.Sprintf("%d rules", len(r))
		}
		return want.diff(r.Reduce(kids.pn()), true)
	}
	c.Space("texts of numbers")
	number := regexp.MustCompile(`^-?\d+$`)
	max := 4
	if c.Thorough {
		max = 5
	}
	for _, w := range strWords([]string{"0", "1", "9", ".", "-", "+", "e", "x", "_", ","}, max) {
		if !c.Unit() {
			continue
		}
		w := w
		c.Case(func() string { return "A RemoveChild(" + w + ")" }, func() string {
			var one, many *rt
			var nums []int
			ok := true
			for _, x := range strings.Split(w, ",") {
				n, err := strconv.Atoi(x)
				ok = ok && err == nil && number.MatchString(x)
				nums = append(nums, n)
			}
			if ok {
				c.NonTrivial()
				many = drop(nums...)
				if len(nums) == 1 {
					one = many
				}
			}
			if bad := expect("A RemoveChild("+w+")", one); bad != "" {
				return bad
			}
			return expect("A RemoveChildren("+w+")", many)
		})
	}
	c.Space("comments, strings and white space, every character")
	for _, x := range oddChars() {
		if !c.Unit() {
			continue
		}
		x := x
		c.Case(func() string { return fmt.Sprintf("character %q", x) }, func() string {
			c.NonTrivial()
			if !strings.Contains(x, "\n") {
				for i, text := range []string{
					"A RemoveChild(0) //" + x + ".RemoveChild(1)\n",
					"//" + x + "\nA RemoveChild(0)",
					"A RemoveChild(0)\n// RemoveChild(1)" + x,
					"A //" + x + x + "RemoveChild(5).\n//\nRemoveChild(//" + x + ")\n0)",
					"A RemoveChild(0) //// \" " + x + " //",
				} {
					if bad := expect(text, drop(0)); bad != "" {
						return fmt.Sprintf("comment %d: %s", i, bad)
					}
				}
			}
			if x != "\"" && x != "\\" && utf8.ValidString(x) {
				t := kids.clone()
				for i, k := range []string{x, "p" + x, x + "q", "p" + x + "q"} {
					t.ch[i+3].kind = k
				}
				for i, k := range []string{x, "p" + x, x + "q", "p" + x + "q"} {
					want := t.clone()
					want.ch = append(want.ch[:i+3], want.ch[i+4:]...)
					r, err := reducer.Parse("A RemoveAll(\"" + k + "\")")
					if err != nil {
						return fmt.Sprintf("kind %q: %v", k, err)
					}
					if bad := want.diff(r.Reduce(t.pn()), true); bad != "" {
						return fmt.Sprintf("kind %q: %s", k, bad)
					}
				}
			}
			var want *rt
			if strings.Trim(x, " \t\n\r\f") == "" {
				want = drop(0)
			}
			if bad := expect("A"+x+"RemoveChild(0)", want); bad != "" {
				return "between the kind and the operation: " + bad
			}
			if bad := expect("A RemoveChild(0"+x+")", want); bad != "" && !number.MatchString(x) {
				return "behind the argument: " + bad
			}
			if want != nil {
				if bad := expect(strings.Join([]string{"", "A", "RemoveChild", "(", "0", ")", ".", "Nil", ""}, x), want); bad != "" {
					return "everywhere: " + bad
				}
			}
			return ""
		})
	}
}
