package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/tree"
)

// The notations with every choice of white space between their parts.

var blanks = []string{"", " ", "  ", "\t", " \t "}

// eachGap calls f with every assignment of blanks to n gaps.
func eachGap(n int, f func(g []string)) {
	g := make([]string, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]string{}, g...))
			return
		}
		for _, b := range blanks {
			g[i] = b
			rec(i + 1)
		}
	}
	rec(0)
}

// layoutStack: white space in stack lexer definitions, and names of sub-lexers.
func layoutStack(c *Ctx, f func(d *stackDef, ins []string)) {
	ins := strWords([]string{"a", "b", "c"}, 4)
	c.Space("white space in rules of a stack lexer")
	eachGap(6, func(g []string) {
		if !c.Unit() {
			return
		}
		n := strings.Join(g[2:], "")
		disc := len(n)%2 == 1
		m := &stackDef{subs: []subDef{
			{"Main", []lrule{{kind: "g", src: "a(b)", groups: []string{"1", `"x"`}, push: "In", discard: disc}, {kind: "c", src: "c", push: "In", discard: !disc}, {kind: "a", src: "a", discard: disc}}},
			{"In", []lrule{{kind: "w", src: "a"}, {kind: "p", src: "(b)", groups: []string{"1"}, pop: 1, discard: disc}, {kind: "q", src: "c", pop: 2, discard: !disc}}},
		}}
		dash := func(on bool) string {
			if on {
				return g[4] + "-" + g[5]
			}
			return g[5]
		}
		bare := g[4]
		if bare == "" {
			bare = " "
		}
		bareDash := g[5]
		if disc {
			bareDash = bare + "-" + g[5]
		}
		m.written = []string{"== Main ==\n" +
			g[0] + "g" + g[1] + "/a(b)/" + g[2] + `(1|"x")` + g[3] + "In" + dash(disc) + "\n" +
			g[5] + "\n" +
			g[0] + "c" + g[1] + "/c/" + g[3] + "In" + dash(!disc) + "\n" +
			g[0] + "a" + bareDash + "\n" +
			"== In ==\n" +
			g[0] + "w" + g[1] + "/a/" + g[5] + "\n" +
			g[0] + "p" + g[1] + "/(b)/" + g[2] + "(1)" + g[3] + "^" + dash(disc) + "\n" +
			g[0] + "q" + g[1] + "/c/" + g[3] + "^^" + dash(!disc) + "\n"}
		f(m, ins[:40])
	})
	c.Space("white space in headers and names of sub-lexers")
	names := []string{"Main", "_", "_a", "A_b", "A1", "a_1_", "Z9_z", strings.Repeat("long_", 16) + "1", strings.Repeat("long_", 16) + "2"}
	for _, n1 := range names {
		for _, n2 := range names {
			if n1 == n2 || !c.Unit() {
				continue
			}
			eachGap(3, func(g []string) {
				for v := 0; v < 2; v++ {
					if n1 != "Main" && (g[0] != g[1] || g[1] != g[2]) {
						continue
					}
					m := &stackDef{subs: []subDef{
						{n1, []lrule{{kind: "a", src: "a", push: n2}, {kind: "c", src: "c"}, {inherit: n2}}},
						{n2, []lrule{{kind: "b", src: "b", pop: 1}, {kind: "d", src: "ab?", push: n1}}},
					}}
					end := []string{"==", ""}[v]
					m.written = []string{"==" + g[0] + n1 + g[1] + end + g[2] + "\n  a " + n2 + "\n  c\n" + g[1] + n2 + g[2] + "\n==" + g[0] + n2 + g[1] + end + g[2] + "\n\n b ^\n d /ab?/ " + n1 + "\n"}
					f(m, ins[:40])
				}
			})
		}
	}
}

// layoutSimple: white space in the definition of a simple lexer.
func layoutSimple(c *Ctx) {
	c.Space("white space in definitions")
	ins := strWords([]string{"a", "b", "c"}, 3)
	eachGap(4, func(g []string) {
		if !c.Unit() {
			return
		}
		for _, nl := range []string{"\n", "\r\n", "\n" + g[3] + "\n"} {
			for mask := 0; mask < 8; mask++ {
				d := &simpleDef{rules: []lrule{{kind: "x", src: "ab?", discard: mask&1 != 0}, {kind: "b", src: "b", discard: mask&2 != 0}, {kind: "y", src: "b+|c", discard: mask&4 != 0}}}
				t := ""
				for i, r := range d.rules {
					t += g[0] + r.kind
					if r.src != r.kind {
						t += g[1] + "/" + r.src + "/"
					}
					if r.discard {
						if r.src == r.kind && g[2] == "" {
							t += " "
						}
						t += g[2] + "-"
					}
					t += g[3]
					if i < 2 {
						t += nl
					}
				}
				c.Case(func() string { return fmt.Sprintf("definition %q", t) }, func() string {
					c.NonTrivial()
					l, err := simplelexer.New(t)
					if err != nil {
						return err.Error()
					}
					m := d.model()
					for _, in := range ins {
						c.Trans(1)
						if bad := compareLex(m, l.Lex(in), in, false); bad != "" {
							return fmt.Sprintf("input %q: %s", in, bad)
						}
					}
					return ""
				})
			}
		}
	})
}

// layoutTree: white space in the text of a tree.
func layoutTree(c *Ctx) {
	c.Space("white space in texts")
	want := &rt{kind: "A", val: "v w", ch: []*rt{{kind: "B"}, {kind: "C", val: "{", ch: []*rt{{kind: "D", ch: []*rt{{kind: "E", val: ""}}}, {kind: "F", val: "\t"}}}, {kind: "G"}}}
	eachGap(6, func(g []string) {
		if !c.Unit() {
			return
		}
		// gaps: at the start of a line, before and after the colon, before the
		// brace, at the end of a line, after a closing brace
		t := g[0] + "A" + g[1] + ":" + g[2] + `"v w"` + g[3] + "{\n" +
			g[0] + "B" + g[4] + "\n" +
			g[4] + "\n" +
			g[0] + "C" + g[1] + ":" + g[2] + `"{"` + g[3] + "{\n" +
			g[0] + "D" + g[3] + "{\n" +
			g[0] + "E" + g[4] + "\n" +
			g[0] + "}" + g[5] + "F" + g[1] + ":" + g[2] + `"\t"` + g[4] + "\n" +
			g[0] + "}" + g[5] + "\n" +
			g[0] + "G" + g[4] + "\n" +
			g[0] + "}" + g[5]
		c.Case(func() string { return fmt.Sprintf("text %q", t) }, func() string {
			c.NonTrivial()
			c.Trans(1)
			p, err := tree.New(t)
			if err != nil {
				return err.Error()
			}
			return want.diff(p, false)
		})
	})
}

// layoutGrammar: white space in the text of a grammar. Symbols are separated by
// at least one space.
func layoutGrammar(c *Ctx) {
	c.Space("white space in grammars")
	seps := []string{" ", "  ", "\t ", " \t", " \t "}
	for _, nl := range []string{"\n", "\r\n", "\n\n", " \n \t\n"} {
		eachGap(4, func(g []string) {
			if !c.Unit() {
				return
			}
			for _, sep := range seps {
				t := nl + g[0] + "A" + g[1] + "->" + g[2] + "a" + sep + "B" + sep + "c" + g[3] + nl +
					g[0] + "->" + g[2] + "B" + g[3] + nl +
					g[0] + "->" + g[3] + nl +
					g[0] + "B" + g[1] + "->" + g[3] + nl +
					g[0] + "A" + sep + "B" + g[3] + nl + g[0]
				c.Case(func() string { return fmt.Sprintf("text %q", t) }, func() string {
					c.NonTrivial()
					c.Trans(1)
					m := newGmodel()
					m.read("A -> a B c\n-> B\n->\nB ->\nA B\n")
					gr, err := grammar.New(t)
					if err != nil {
						return err.Error()
					}
					return checkGrammarObject(gr, m)
				})
			}
		})
	}
}
