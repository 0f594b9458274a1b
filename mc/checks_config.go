package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// A cfgComp is a component with calls that configure it (conf) and calls that
// only use it (use).
type cfgComp struct {
	name      string
	mk        func() interface{}
	conf, use []compOp
}

type grammarInst struct {
	g  *grammar.Grammar
	p  *packrat.Packrat
	td *topdown.Topdown
	// the parsers and the grammar behind a runner
	r *parlex.Runner
}

func cfgComps() (out []cfgComp) {
	confSimple := func(name string, f func(l *simplelexer.Lexer)) compOp {
		return compOp{name, func(i interface{}) interface{} { f(i.(*simplelexer.Lexer)); return nil }}
	}
	out = append(out, cfgComp{
		"simplelexer", func() interface{} {
			l, err := simplelexer.New("ab\nw /[a-c]+/\ns /\\s+/ -")
			if err != nil {
				panic(err)
			}
			return l
		},
		[]compOp{
			confSimple("ByPriority", func(l *simplelexer.Lexer) { l.ByPriority() }),
			confSimple("ByLength", func(l *simplelexer.Lexer) { l.ByLength() }),
			confSimple("InsertStart", func(l *simplelexer.Lexer) { l.InsertStart("st", "x") }),
			confSimple("InsertEnd", func(l *simplelexer.Lexer) { l.InsertEnd("en", "y") }),
			confSimple("Error", func(l *simplelexer.Lexer) { l.Error = "Oops" }),
			confSimple("Add d", func(l *simplelexer.Lexer) {
				l.Add(stringsymbol.Symbol("d"), regexp.MustCompile(`[a-d]+|\?`), false)
			}),
			confSimple("Add ab again", func(l *simplelexer.Lexer) {
				l.Add(stringsymbol.Symbol("ab"), regexp.MustCompile(`zz`), true)
			}),
		},
		append(lexOps([]string{"abc ?d\nab", "?", "", "ab abd"}), compOp{"String", func(i interface{}) interface{} { return i.(*simplelexer.Lexer).String() }}),
	})
	confStack := func(name string, f func(l *stacklexer.StackLexer)) compOp {
		return compOp{name, func(i interface{}) interface{} { f(i.(*stacklexer.StackLexer)); return nil }}
	}
	out = append(out, cfgComp{
		"stacklexer", func() interface{} {
			return stacklexer.Must("== Main ==\nab\nw /[a-c]+/\ns /\\s+/ -\no /\\(/ In\n== In ==\nx /[a-z]/\ny /ab/\nc /\\)/ ^\n")
		},
		[]compOp{
			confStack("ByPriority", func(l *stacklexer.StackLexer) { l.ByPriority() }),
			confStack("ByLength", func(l *stacklexer.StackLexer) { l.ByLength() }),
			confStack("InsertStart", func(l *stacklexer.StackLexer) { l.InsertStart("st", "x") }),
			confStack("InsertEnd", func(l *stacklexer.StackLexer) { l.InsertEnd("en", "y") }),
			confStack("Error", func(l *stacklexer.StackLexer) { l.Error = "Oops" }),
			confStack("Error w", func(l *stacklexer.StackLexer) { l.Error = "w" }),
		},
		lexOps([]string{"abc (ab)?d\nab", "?", "", "(((ab", "(ab!ab)"}),
	})
	add := func(nt string, syms ...string) compOp {
		return compOp{fmt.Sprint("Add ", nt, " -> ", strings.Join(syms, " ")), func(i interface{}) interface{} {
			p := stringsymbol.Production{}
			for _, s := range syms {
				p = append(p, stringsymbol.Symbol(s))
			}
			i.(*grammarInst).g.Add(stringsymbol.Symbol(nt), p)
			return nil
		}}
	}
	use := func(name string, f func(x *grammarInst) interface{}) compOp {
		return compOp{name, func(i interface{}) interface{} { return f(i.(*grammarInst)) }}
	}
	var guse []compOp
	for _, w := range []string{"a", "b a", "c", "a c a", "d"} {
		w := w
		guse = append(guse, use("packrat "+w, func(x *grammarInst) interface{} { return x.p.Parse(kindLexemes(strings.Fields(w))) }))
		guse = append(guse, use("topdown "+w, func(x *grammarInst) interface{} { return x.td.Parse(kindLexemes(strings.Fields(w))) }))
	}
	guse = append(guse,
		use("run", func(x *grammarInst) interface{} { return errOr(x.r.Run("b a c a")) }),
		use("String", func(x *grammarInst) interface{} { return x.g.String() }),
		use("NonTerminals", func(x *grammarInst) interface{} { return x.g.NonTerminals() }),
		use("Productions", func(x *grammarInst) interface{} {
			s := ""
			for _, n := range []string{"S", "A", "B", "c"} {
				if ps := x.g.Productions(stringsymbol.Symbol(n)); ps != nil {
					s += n + iterProds(ps) + showProds(ps)
				}
			}
			return s
		}),
		use("Analyze", func(x *grammarInst) interface{} { return analyze.Analyze(x.g) }),
		use("IsLeftRecursive", func(x *grammarInst) interface{} { return parlex.IsLeftRecursive(x.g) }),
		use("RemoveLeftRecursion", func(x *grammarInst) interface{} { return grammar.RemoveLeftRecursion(x.g) }),
	)
	out = append(out, cfgComp{
		"grammar", func() interface{} {
			g, err := grammar.New("S -> A S\n->\nA -> a\n-> b A")
			if err != nil {
				panic(err)
			}
			td, err := topdown.New(g)
			if err != nil {
				panic(err)
			}
			l, err := simplelexer.New("a\nb\nc\ns /\\s/ -")
			if err != nil {
				panic(err)
			}
			p := packrat.New(g)
			return &grammarInst{g, p, td, parlex.New(l, p)}
		},
		[]compOp{add("A", "c"), add("A", "B", "a"), add("B", "c"), add("B"), add("S", "d")},
		guse,
	})
	out = append(out, cfgComp{
		"grammar that begins empty", func() interface{} {
			g := grammar.Empty()
			td, err := topdown.New(g)
			if err != nil {
				panic(err)
			}
			l, err := simplelexer.New("a\nb\nc\ns /\\s/ -")
			if err != nil {
				panic(err)
			}
			p := packrat.New(g)
			return &grammarInst{g, p, td, parlex.New(l, p)}
		},
		[]compOp{add("S", "A", "S"), add("S"), add("A", "a"), add("A", "b", "A"), add("S", "d")},
		guse,
	})
	rt1 := &rt{kind: "A", val: "r", ch: []*rt{{kind: "B", val: "1", ch: []*rt{{kind: "A", val: "2"}, {kind: "C", val: "3"}}}, {kind: "C", val: "4"}}}
	confRed := func(name, kind string, r tree.Reduction) compOp {
		return compOp{name, func(i interface{}) interface{} { i.(tree.Reducer).Add(kind, r); return nil }}
	}
	useRed := func(name string, f func(r tree.Reducer) interface{}) compOp {
		return compOp{name, func(i interface{}) interface{} { return f(i.(tree.Reducer)) }}
	}
	out = append(out, cfgComp{
		"reducer", func() interface{} { return tree.Reducer{"A": tree.RemoveAll("C")} },
		[]compOp{
			confRed("A: PromoteSingleChild", "A", tree.PromoteSingleChild),
			confRed("B: PromoteChildValue(0)", "B", tree.PromoteChildValue(0)),
			confRed("B: RemoveChild(0)", "B", tree.RemoveChild(0)),
			confRed("C: mark", "C", mark("m").real),
			confRed("A: nil", "A", nil),
		},
		[]compOp{
			useRed("Reduce", func(r tree.Reducer) interface{} { return r.Reduce(rt1.pn()) }),
			useRed("RawReduce", func(r tree.Reducer) interface{} { return r.RawReduce(rt1.pn()) }),
			useRed("Can", func(r tree.Reducer) interface{} {
				return fmt.Sprint(r.Can(rt1.pn()), r.Can(rt1.ch[0].pn()), r.Can(rt1.ch[1].pn()))
			}),
			useRed("Merge left", func(r tree.Reducer) interface{} {
				return tree.Merge(r, tree.Reducer{"B": mark("n").real})
			}),
			useRed("Merge right", func(r tree.Reducer) interface{} {
				return tree.Merge(tree.Reducer{"B": mark("n").real}, r)
			}),
		},
	})
	return
}

// cfgC21: a call that only uses a component gives what it gives on a fresh
// component with the same configuring calls, whatever was used in between.
func cfgC21(c *Ctx) {
	for _, cp := range cfgComps() {
		cp := cp
		c.Space("configured " + cp.name)
		nc := len(cp.conf)
		ops := append(append([]compOp{}, cp.conf...), cp.use...)
		depth := 4
		if c.Thorough {
			depth = 5
		}
		memo := map[string]string{}
		// fresh gives the result of a use after the configuring calls of seq
		fresh := func(seq []int, u int) string {
			key := ""
			for _, k := range seq {
				if k < nc {
					key += fmt.Sprint(k, " ")
				}
			}
			key += fmt.Sprint(": ", u)
			if v, ok := memo[key]; ok {
				return v
			}
			inst := cp.mk()
			for _, k := range seq {
				if k < nc {
					ops[k].guarded(inst)
				}
			}
			v := render(ops[u].guarded(inst))
			memo[key] = v
			return v
		}
		for head := 0; head < len(ops)*len(ops); head++ {
			if !c.Unit() {
				continue
			}
			memo = map[string]string{}
			var rec func(seq []int)
			rec = func(seq []int) {
				if len(seq) < depth {
					for i := range ops {
						rec(append(seq[:len(seq):len(seq)], i))
					}
					return
				}
				if seq[len(seq)-1] < nc {
					return
				}
				c.Case(func() string {
					s := cp.name + ":"
					for _, k := range seq {
						s += "\n  " + ops[k].name
					}
					return s
				}, func() string {
					c.NonTrivial()
					for pass := 0; pass < 2; pass++ {
						inst := cp.mk()
						var held []interface{}
						var was []string
						for i, k := range seq {
							c.Trans(1)
							r := ops[k].guarded(inst)
							if k < nc {
								continue
							}
							got, want := render(r), fresh(seq[:i], k)
							if got != want {
								return fmt.Sprintf("operation %d (%s) gives\n%s\non a fresh component with the same configuration it gives\n%s", i+1, ops[k].name, got, want)
							}
							if pass == 1 {
								spoil(r)
							} else {
								held = append(held, r)
								was = append(was, got)
							}
						}
						for i, r := range held {
							if got := render(r); got != was[i] {
								return fmt.Sprintf("a result was\n%s\nand is now\n%s", was[i], got)
							}
						}
					}
					return ""
				})
			}
			rec([]int{head / len(ops), head % len(ops)})
		}
	}
}
