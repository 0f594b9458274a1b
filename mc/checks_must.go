package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

func init() {
	register(&Check{
		ID:     "C28",
		Rule:   "every definition text up to the bound over an alphabet of definition fragments, per constructor: exactly one of component and error is nil; the Must form and the parlex.Must helpers panic with an error of the same text exactly if there is an error, and otherwise give a component with the same observable behaviour (probe inputs, text form, effect on trees); parlex.Must helpers hand through the very value and panic with the very error; non-trivial: a refused definition",
		Bounds: []string{"definition texts of up to 5 fragments (quick) / 6 (thorough) of 8 to 12, joined by newlines, blanks or nothing", "values and errors of several types for the parlex.Must helpers"},
		Run:    runC28,
	})
}

// caught calls f and returns what it panicked with.
func caught(f func() interface{}) (v interface{}, p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	return f(), nil
}

type ctorCase struct {
	name  string
	sep   string
	frags []string
	// mk calls the plain constructor: shown behaviour, whether there is a
	// component, error
	mk func(text string) (func() string, bool, error)
	// must calls forms that panic
	must []func(text string) func() string
}

func ctorCases() []ctorCase {
	lexed := func(l parlex.Lexer) func() string {
		return func() string {
			s := ""
			for _, in := range []string{"", "ab", "a b?a(", "ba\n(ab)b", "x->a|b*"} {
				s += render(l.Lex(in)) + "\n"
			}
			if st, ok := l.(fmt.Stringer); ok {
				s += st.String()
			}
			return s
		}
	}
	gram := func(g parlex.Grammar) func() string {
		return func() string {
			s := render(g.NonTerminals()) + g.(fmt.Stringer).String() + fmt.Sprint(parlex.IsLeftRecursive(g))
			for _, w := range []string{"", "a", "a b", "b b a"} {
				s += "\n" + render(packrat.New(g).Parse(kindLexemes(strings.Fields(w))))
			}
			return s
		}
	}
	red := func(r tree.Reducer) func() string { return func() string { return showReducer(r) } }
	parse := func(p parlex.Parser) func() string {
		return func() string {
			s := ""
			for _, w := range []string{"", "a", "a b", "b b a", "a b b"} {
				s += render(p.Parse(kindLexemes(strings.Fields(w)))) + "\n"
			}
			return s
		}
	}
	return []ctorCase{
		{"simplelexer", "\n", []string{"a", "b /a|b/", "s /\\s+/ -", "a /ab+/", "+", "x /(/", "", "c /[/", "p /\\(/ -"},
			func(t string) (func() string, bool, error) {
				l, err := simplelexer.New(t)
				if l == nil {
					return nil, false, err
				}
				return lexed(l), true, err
			},
			[]func(t string) func() string{
				func(t string) func() string { return lexed(parlex.MustLexer(simplelexer.New(t))) },
			}},
		{"stacklexer", "\n", []string{"== M ==", "== N ==", "a", "b /b+/", "N", "M", "o /\\(/ N", "c /\\)/ ^", "g /(a)(b)/ (2)", "g /(a)/ (3)", "x /(/", "u /u/ Nowhere"},
			func(t string) (func() string, bool, error) {
				l, err := stacklexer.New(t)
				if l == nil {
					return nil, false, err
				}
				return lexed(l), true, err
			},
			[]func(t string) func() string{
				func(t string) func() string { return lexed(stacklexer.Must(t)) },
				func(t string) func() string { return lexed(parlex.MustLexer(stacklexer.New(t))) },
			}},
		{"grammar", "\n", []string{"S -> a S", "-> b", "->", "A -> S b", "S -> A -> b", "", "a b", "A -> A b", "-> -> a"},
			func(t string) (func() string, bool, error) {
				g, err := grammar.New(t)
				if g == nil {
					return nil, false, err
				}
				return gram(g), true, err
			},
			[]func(t string) func() string{
				func(t string) func() string { return gram(parlex.MustGrammar(grammar.New(t))) },
			}},
		{"regexgram", " ", []string{"\nS -> a", "a*", "b?", "|", "(", ")", "\n-> b", "*", "\nA -> S", "->", "?"},
			func(t string) (func() string, bool, error) {
				g, r, err := regexgram.New(t)
				if g == nil && r == nil {
					return nil, false, err
				}
				if g == nil || r == nil {
					return nil, true, errors.New("one of grammar and reducer is nil")
				}
				return func() string { return gram(g)() + showReducer(r) }, true, err
			},
			[]func(t string) func() string{
				func(t string) func() string {
					g, r := regexgram.Must(t)
					return func() string { return gram(g)() + showReducer(r) }
				},
			}},
		{"reducer", " ", []string{"A", "RemoveChild(0)", ".PromoteSingleChild()", "\nB", "RemoveAll(\"C\")", "If(ChildIs(0,\"B\"),Nil,RemoveChild(-1))", "(", "1.5", ".", "// c\n", "Nil"},
			func(t string) (func() string, bool, error) {
				r, err := reducer.Parse(t)
				if r == nil {
					return nil, false, err
				}
				return red(r), true, err
			},
			[]func(t string) func() string{
				func(t string) func() string { return red(reducer.Must(t)) },
			}},
		{"tree", "\n", []string{"A {", "}", "B", "B: \"v\"", "C: \"\\n\" {", "", "\"", "} D", "{"},
			func(t string) (func() string, bool, error) {
				p, err := tree.New(t)
				if p == nil {
					return nil, false, err
				}
				return func() string { return showPN(p) + p.String() }, true, err
			}, nil},
		{"topdown", "\n", []string{"S -> a S", "-> b", "->", "S -> A b", "A -> a", "A -> S", "-> A A", "S -> b b a"},
			func(t string) (func() string, bool, error) {
				g, err := grammar.New(t)
				if err != nil {
					return nil, false, err
				}
				p, err := topdown.New(g)
				if p == nil {
					return nil, false, err
				}
				return parse(p), true, err
			},
			[]func(t string) func() string{
				func(t string) func() string {
					return parse(parlex.MustParser(topdown.New(parlex.MustGrammar(grammar.New(t)))))
				},
			}},
		{"packrat", "\n", []string{"S -> a S", "-> b", "->", "S -> A b", "A -> a", "A -> S", "-> A A", "S -> b b a"},
			func(t string) (func() string, bool, error) {
				g, err := grammar.New(t)
				if err != nil {
					return nil, false, err
				}
				p := packrat.New(g)
				return parse(p), p != nil, nil
			},
			[]func(t string) func() string{
				func(t string) func() string {
					return parse(parlex.MustParser(packrat.Constructor(parlex.MustGrammar(grammar.New(t)))))
				},
			}},
	}
}

type mustErr struct{ s string }

func (m mustErr) Error() string { return m.s }

func runC28(c *Ctx) {
	max := 4
	if c.Thorough {
		max = 5
	}
	for _, cc := range ctorCases() {
		cc := cc
		n := len(cc.frags)
		depth := max
		if n <= 9 && !c.Thorough {
			depth++
		}
		c.Space(fmt.Sprintf("%s: all texts of up to %d of %d fragments", cc.name, depth, n))
		one := func(t string) {
			c.Case(func() string { return fmt.Sprintf("%s %q", cc.name, t) }, func() string {
				c.Trans(1 + len(cc.must))
				show, has, err := cc.mk(t)
				if has && err != nil {
					return "a component and the error " + err.Error()
				}
				if !has && err == nil {
					return "neither a component nor an error"
				}
				want := ""
				if has {
					want = show()
					c.OutcomeS(cc.name)
				} else {
					c.NonTrivial()
					c.OutcomeS(cc.name + err.Error())
				}
				for i, m := range cc.must {
					got, p := caught(func() interface{} { return m(t) })
					if has {
						if p != nil {
							return fmt.Sprintf("Must form %d panics: %v", i, p)
						}
						if g := got.(func() string)(); g != want {
							return fmt.Sprintf("Must form %d gives\n%s\nnot\n%s", i, g, want)
						}
						continue
					}
					if p == nil {
						return fmt.Sprintf("Must form %d does not panic with %v", i, err)
					}
					e, ok := p.(error)
					if !ok || e.Error() != err.Error() {
						return fmt.Sprintf("Must form %d panics with %v, expected %v", i, p, err)
					}
				}
				return ""
			})
		}
		eachSeq(n, 2, func(head []int) {
			if !c.Unit() {
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				p := make([]string, len(seq))
				for i, k := range seq {
					p[i] = cc.frags[k]
				}
				one(strings.Join(p, cc.sep))
				if len(head) == 2 && len(seq) < depth {
					for i := range cc.frags {
						rec(append(seq[:len(seq):len(seq)], i))
					}
				}
			}
			rec(append([]int{}, head...))
		})
	}
	c.Space("parlex.Must helpers")
	l, _ := simplelexer.New("a")
	sl := stacklexer.Must("== M ==\na\n")
	g := parlex.MustGrammar(grammar.New("S -> a"))
	td, _ := topdown.New(g)
	errs := []error{nil, errors.New("x"), errors.New(""), mustErr{"m"}, &mustErr{"p"}, grammar.ErrBadGrammar, topdown.ErrLeftRecursion, stacklexer.ErrCyclic, parlex.ErrCouldNotLex}
	lexers := []parlex.Lexer{l, sl, nil, &stubLexer{}}
	parsers := []parlex.Parser{td, packrat.New(g), nil, &stubParser{}}
	grammars := []parlex.Grammar{g, nil, grammar.RemoveLeftRecursion(g), td, packrat.New(g)}
	for ei, err := range errs {
		err := err
		if !c.Unit() {
			continue
		}
		try := func(what string, f func() interface{}, want interface{}) {
			c.Case(func() string { return fmt.Sprintf("%s, error %d", what, ei) }, func() string {
				c.Trans(1)
				v, p := caught(f)
				if err == nil {
					if p != nil {
						return fmt.Sprint("panics: ", p)
					}
					if v != want {
						return "gives another value"
					}
					return ""
				}
				c.NonTrivial()
				if p != interface{}(err) {
					return fmt.Sprintf("panics with %v, expected %v", p, err)
				}
				return ""
			})
		}
		for i, x := range lexers {
			x := x
			try(fmt.Sprint("MustLexer ", i), func() interface{} { return parlex.MustLexer(x, err) }, x)
		}
		for i, x := range parsers {
			x := x
			try(fmt.Sprint("MustParser ", i), func() interface{} { return parlex.MustParser(x, err) }, x)
		}
		for i, x := range grammars {
			x := x
			try(fmt.Sprint("MustGrammar ", i), func() interface{} { return parlex.MustGrammar(x, err) }, x)
		}
	}
}
