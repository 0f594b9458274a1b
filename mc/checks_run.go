package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// The stub stages record every call.
type stubLog struct{ ev []string }

func (l *stubLog) add(f string, a ...interface{}) { l.ev = append(l.ev, fmt.Sprintf(f, a...)) }

type stubErrLexeme struct {
	*lexeme.Lexeme
	id int
}

func (s *stubErrLexeme) Error() string {
	if s.id%2 == 1 {
		return ""
	}
	return fmt.Sprint("stub error ", s.id)
}

type stubLexer struct {
	log *stubLog
	out []parlex.Lexeme
}

func (s *stubLexer) Lex(in string) []parlex.Lexeme { s.log.add("lex %q", in); return s.out }

type stubParser struct {
	log *stubLog
	out parlex.ParseNode
	in  []parlex.Lexeme
}

func (s *stubParser) Parse(ls []parlex.Lexeme) parlex.ParseNode {
	s.log.add("parse")
	s.in = ls
	return s.out
}

type stubReducer struct {
	log *stubLog
	id  int
	out parlex.ParseNode
	in  parlex.ParseNode
}

func (s *stubReducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	s.log.add("reduce %d", s.id)
	s.in = n
	return s.out
}
func (s *stubReducer) Can(parlex.ParseNode) bool { return false }

func init() {
	register(&Check{
		ID:     "C19",
		Rule:   "fault enumeration on stub stages: every lexer result (nil, empty, every pattern of good and error lexemes up to a length), every parser result (nil, a tree) and every list of reducers up to a length (absent, good, failing), through Run and through a Runner used twice; the error, the result and the exact sequence of calls with their arguments are compared with the documented pipeline; then real lexers, parsers and reducers: every input up to a length through Run compared with the stages called by hand",
		Bounds: []string{"1001 to 65540 lexemes, error nowhere, in the middle, at the end", "stubs: lexeme patterns to length 4, reducer lists to length 4", "real: 8 pipelines, every input up to length 6 over 4 or 5 characters"},
		Run:    runC19,
	})
}

func runC19(c *Ctx) {
	c.Space("stubs")
	type lres struct {
		name string
		mk   func() []parlex.Lexeme
	}
	lress := []lres{{"nil", func() []parlex.Lexeme { return nil }}}
	for n := 0; n <= 4; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			n, mask := n, mask
			lress = append(lress, lres{fmt.Sprintf("%d lexemes, errors %0*b", n, n, mask), func() []parlex.Lexeme {
				out := make([]parlex.Lexeme, n)
				for i := range out {
					lx := lexeme.String("k").Set(fmt.Sprint(i)).At(1, i)
					if i%2 == 0 {
						lx = lexeme.String("").Set("")
					}
					if mask>>i&1 == 1 {
						out[i] = &stubErrLexeme{lx, i}
					} else {
						out[i] = lx
					}
				}
				return out
			}})
		}
	}
	maxR := 4
	for _, lr := range lress {
		for parse := 0; parse < 2; parse++ {
			lr, parse := lr, parse
			if !c.Unit() {
				continue
			}
			for nr := 0; nr <= maxR; nr++ {
				for code := 0; code < pow(3, nr); code++ {
					nr, code := nr, code
					c.Case(func() string {
						return fmt.Sprintf("lexer gives %s, parser gives a tree: %v, %d reducers %d (base 3: good, absent, failing)", lr.name, parse == 1, nr, code)
					}, func() string {
						for mode := 0; mode < 4; mode++ {
							log := &stubLog{}
							lx := &stubLexer{log: log, out: lr.mk()}
							ps := &stubParser{log: log}
							if parse == 1 {
								ps.out = &tree.PN{Lexeme: lexeme.String("root")}
							}
							var rs []parlex.Reducer
							var stubs []*stubReducer
							x := code
							for i := 0; i < nr; i++ {
								switch x % 3 {
								case 0, 2:
									s := &stubReducer{log: log, id: i}
									if x%3 == 0 {
										s.out = &tree.PN{Lexeme: lexeme.String(fmt.Sprint("r", i))}
									}
									stubs = append(stubs, s)
									rs = append(rs, s)
								case 1:
									rs = append(rs, nil)
								}
								x /= 3
							}
							given := append([]parlex.Reducer{}, rs...)
							// reference
							var want []string
							var wantErr error
							var wantOut parlex.ParseNode
							want = append(want, fmt.Sprintf("lex %q", "in put"))
							func() {
								if lx.out == nil {
									wantErr = parlex.ErrCouldNotLex
									return
								}
								for _, l := range lx.out {
									if e, ok := l.(*stubErrLexeme); ok {
										wantErr = e
										return
									}
								}
								want = append(want, "parse")
								if ps.out == nil {
									wantErr = parlex.ErrCouldNotParse
									return
								}
								wantOut = ps.out
								for _, s := range stubs {
									want = append(want, fmt.Sprintf("reduce %d", s.id))
									wantOut = s.out
									if s.out == nil {
										wantErr = parlex.ErrCouldNotReduce
										return
									}
								}
							}()
							if wantErr != nil {
								wantOut = nil
							}
							var got parlex.ParseNode
							var err error
							c.Trans(1)
							switch mode {
							case 0:
								got, err = parlex.Run("in put", lx, ps, rs...)
							case 1:
								got, err = parlex.New(lx, ps, rs...).Run("in put")
							case 2, 3:
								r := parlex.New(lx, ps, rs...)
								r.Run([]string{"other", "in put"}[mode-2])
								log.ev = nil
								got, err = r.Run("in put")
							}
							for i, x := range rs {
								if x != given[i] {
									return fmt.Sprintf("mode %d: the list of reducers was changed at %d", mode, i)
								}
							}
							c.OutcomeS(fmt.Sprint(want, wantErr))
							if wantErr != nil {
								c.NonTrivial()
							}
							if err != wantErr {
								return fmt.Sprintf("mode %d: error %v, expected %v", mode, err, wantErr)
							}
							if got != wantOut {
								return fmt.Sprintf("mode %d: result %v, expected %v", mode, got, wantOut)
							}
							if g, w := strings.Join(log.ev, "; "), strings.Join(want, "; "); g != w {
								return fmt.Sprintf("mode %d: calls were %s, expected %s", mode, g, w)
							}
							if len(want) > 1 && lexSnapshot(ps.in) != lexSnapshot(lx.out) {
								return "the parser got other lexemes"
							}
							prev := ps.out
							for i, s := range stubs {
								if len(want) > 2+i {
									if s.in != prev {
										return fmt.Sprintf("reducer %d got another tree", s.id)
									}
									prev = s.out
								}
							}
						}
						return ""
					})
				}
			}
			c.Case(func() string { return "LexErrors of " + lr.name }, func() string {
				ls := lr.mk()
				c.Trans(1)
				es := parlex.LexErrors(ls)
				j := 0
				for _, l := range ls {
					if e, ok := l.(*stubErrLexeme); ok {
						if j >= len(es) || es[j] != parlex.LexError(e) {
							return "LexErrors misses or reorders an error"
						}
						j++
					}
				}
				if j != len(es) {
					return "LexErrors reports a lexeme that is no error"
				}
				return ""
			})
		}
	}
	scaleC19(c)
	hugeC19(c)
	c.Space("must")
	if c.Unit() {
		c.Case(func() string { return "Must functions" }, func() string {
			e := errors.New("x")
			g := grammar.Empty()
			p := packrat.New(g)
			l := &stubLexer{}
			c.Trans(6)
			if parlex.MustGrammar(g, nil) != parlex.Grammar(g) || parlex.MustParser(p, nil) != parlex.Parser(p) || parlex.MustLexer(l, nil) != parlex.Lexer(l) {
				return "Must changes its argument"
			}
			for i, f := range []func(){func() { parlex.MustGrammar(g, e) }, func() { parlex.MustParser(p, e) }, func() { parlex.MustLexer(l, e) }, func() { regexgram.Must("S -> (") }, func() { stacklexer.Must("") }, func() { stacklexer.Must("== A ==\n  x /(/") }, func() { reducer.Must("A RemoveChild(") }} {
				if guard(f) == "" {
					return fmt.Sprint("Must does not panic: ", i)
				}
			}
			for i, f := range []func(){func() { regexgram.Must("S -> s") }, func() { stacklexer.Must("== A ==\n  x") }, func() { reducer.Must("A RemoveChild(0)") }} {
				if p := guard(f); p != "" {
					return fmt.Sprint("Must panics: ", i, p)
				}
			}
			if q, err := packrat.Constructor(g); err != nil || q == nil {
				return "packrat.Constructor"
			}
			return ""
		})
	}
	c.Space("real pipelines")
	for pi, p := range realPipes() {
		pi, p := pi, p
		max := 6
		if c.Thorough {
			max = 8
		}
		if len(p.alpha) > 4 {
			max--
		}
		ws := strWords(p.alpha, max)
		for len(ws) > 0 {
			n := 200
			if n > len(ws) {
				n = len(ws)
			}
			if c.Unit() {
				for _, in := range ws[:n] {
					in := in
					c.Case(func() string { return fmt.Sprintf("%s (%d): %q", p.name, pi, in) }, func() string { return pipeCase(c, p, in) })
				}
			}
			ws = ws[n:]
		}
	}
}

type realPipe struct {
	name  string
	lx    parlex.Lexer
	ps    parlex.Parser
	rs    []parlex.Reducer
	alpha []string
}

func pipeCase(c *Ctx, p realPipe, in string) string {
	c.Trans(3)
	got, err := parlex.Run(in, p.lx, p.ps, p.rs...)
	got2, err2 := parlex.New(p.lx, p.ps, p.rs...).Run(in)
	if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() {
		return fmt.Sprintf("Run: %v, Runner.Run: %v", err, err2)
	}
	ls := p.lx.Lex(in)
	if ls == nil {
		return "Lex returned nil"
	}
	c.Outcome(hashS(fmt.Sprint(err)))
	if es := parlex.LexErrors(ls); len(es) > 0 {
		if err == nil || !isNil(got) {
			return "a lex error did not surface"
		}
		le, ok := err.(parlex.LexError)
		if !ok {
			return fmt.Sprintf("error is %v (%T), not the lex error", err, err)
		}
		l1, c1 := le.Pos()
		l2, c2 := es[0].Pos()
		if le.Value() != es[0].Value() || l1 != l2 || c1 != c2 || le.Error() != es[0].Error() {
			return "not the first lex error"
		}
		if !strings.Contains(in, le.Value()) || le.Value() == "" {
			return "the error is not about the input"
		}
		return ""
	}
	n := p.ps.Parse(ls)
	if isNil(n) {
		if err != parlex.ErrCouldNotParse || got != nil {
			return fmt.Sprintf("not parsable, but Run = %v, %v", got, err)
		}
		return ""
	}
	c.NonTrivial()
	for _, r := range p.rs {
		if r != nil {
			n = r.Reduce(n)
		}
	}
	if err != nil {
		return "Run failed: " + err.Error()
	}
	if showPN(n) != showPN(got) || showPN(n) != showPN(got2) {
		return "Run gives " + showPN(got) + ", by hand " + showPN(n)
	}
	return ""
}

func realPipes() []realPipe {
	sl := func(t string) parlex.Lexer { return parlex.MustLexer(simplelexer.New(t)) }
	st := func(t string) parlex.Lexer { return parlex.MustLexer(stacklexer.New(t)) }
	gr := func(t string) parlex.Grammar { return parlex.MustGrammar(grammar.New(t)) }
	td := func(g parlex.Grammar) parlex.Parser {
		p, err := topdown.New(g)
		return parlex.MustParser(p, err)
	}
	expr := "E -> E + E\n  -> E * E\n  -> ( E )\n  -> n"
	lex1 := "n /\\d+/\nspace /\\s+/ -\n+ /\\+/\n* /\\*/\n( /\\(/\n) /\\)/"
	rg, rr := regexgram.Must("L -> lb (I (comma I)*)? rb\nI -> x | L")
	rp := "L -> ( L )\n  -> i , L\n  -> i"
	return []realPipe{
		{"expr packrat", sl(lex1), packrat.New(gr(expr)), nil, []string{"1", "+", "*", "$"}},
		{"expr packrat reduced", sl(lex1), packrat.New(gr(expr)), []parlex.Reducer{tree.Reducer{"E": tree.RemoveAll("(", ")").PromoteSingleChild()}, nil, tree.Reducer{"E": tree.PromoteChild(1)}}, []string{"1", "+", "(", ")"}},
		{"regexgram", sl("lb /\\[/\nrb /\\]/\ncomma /,/\nx /x/"), packrat.New(rg), []parlex.Reducer{rr, tree.Reducer{"L": tree.RemoveAll("lb", "rb", "comma"), "I": tree.PromoteSingleChild}}, []string{"[", "]", ",", "x", "?"}},
		{"list topdown", sl("( /\\(/\n) /\\)/\ni /i/\n, /,/"), td(gr(rp)), []parlex.Reducer{tree.Reducer{"L": tree.RemoveAll("(", ")", ",")}}, []string{"(", ")", "i", ",", "!"}},
		{"no lex rule for space", sl("a /a/\nb /b/"), packrat.New(gr("S -> S a\n  -> b\n  ->")), nil, []string{"a", "b", " ", "\n"}},
		{"stack", st("== main ==\nq /\"/ str\nw /\\w/\nsp /\\s/ -\n== str ==\nt /[^\"]+/\nqe /\"/ ^"), packrat.New(gr("S -> S I\n  ->\nI -> q T qe\n  -> w\nT -> t\n  ->")), []parlex.Reducer{tree.Reducer{"S": tree.PromoteChildrenOf(0), "T": tree.PromoteSingleChild}}, []string{"\"", "a", " ", "\n", "-"}},
		{"empty grammar language", sl("a /a/"), td(gr("S -> a S\n  ->")), nil, []string{"a", "x"}},
		{"error then recover", sl("num /\\d+/\nid /[a-z]+/"), packrat.New(gr("S -> num id\n -> id num\n -> num")), nil, []string{"1", "a", "#", "Z"}},
	}
}
