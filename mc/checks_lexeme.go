package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

func init() {
	register(&Check{
		ID:     "C27",
		Rule:   "every sequence of constructor, Set, At and Copy calls up to the bound on lexemes of every kind of symbol, after each the accessors and the text form of every lexeme made so far equal those of a plain record; every list of up to 4 lexemes with every mixture of empty, plain and special values and set, unset and zero positions: LexemeString and LexemeList equal the documented forms, and LexErrors picks exactly the errors; the error texts of both lexers name the position and the text of each error; non-trivial: more than one lexeme",
		Bounds: []string{"1001 to 65540 lexemes", "every pair of about 95 special kinds and values", "operation sequences to depth 6 (quick) / 7 (thorough)", "lists to length 4 of 12 lexemes", "error texts: words over {a,?,newline} to length 6"},
		Run:    runC27,
	})
}

type rlex struct {
	kind, val string
	l, c      int
}

func (r rlex) str() string {
	pos := ""
	if r.l != -1 {
		pos = fmt.Sprintf(" (%d, %d)", r.l, r.c)
	}
	if r.val == "" {
		return "Lexeme{" + r.kind + pos + "}"
	}
	return fmt.Sprintf("Lexeme{%s:%q%s}", r.kind, r.val, pos)
}

func (r rlex) diff(l parlex.Lexeme) string {
	ln, co := l.Pos()
	if l.Kind().String() != r.kind || l.Value() != r.val || ln != r.l || co != r.c {
		return fmt.Sprintf("lexeme is %s %q (%d, %d), expected %s %q (%d, %d)", l.Kind(), l.Value(), ln, co, r.kind, r.val, r.l, r.c)
	}
	return ""
}

func runC27(c *Ctx) {
	namesC27(c)
	hugeC27(c)
	type world struct {
		ls []*lexeme.Lexeme
		ws []rlex
	}
	type op struct {
		name string
		f    func(w *world)
		need int // lexemes it needs
		adds bool
	}
	set := setsymbol.New()
	set.Str("other")
	var ops []op
	mk := func(name, kind string, f func() *lexeme.Lexeme) {
		ops = append(ops, op{name, func(w *world) {
			w.ls = append(w.ls, f())
			w.ws = append(w.ws, rlex{kind, "", -1, 0})
		}, 0, true})
	}
	mk("New(string symbol)", "k", func() *lexeme.Lexeme { return lexeme.New(stringsymbol.Symbol("k")) })
	mk("New(set symbol)", "s", func() *lexeme.Lexeme { return lexeme.New(set.Str("s")) })
	mk("String(k)", "k", func() *lexeme.Lexeme { return lexeme.String("k") })
	mk("String()", "", func() *lexeme.Lexeme { return lexeme.String("") })
	for at := 0; at < 2; at++ {
		at := at
		on := func(name string, f func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme) {
			ops = append(ops, op{fmt.Sprintf("%d.%s", at, name), func(w *world) {
				if f(w.ls[at], &w.ws[at]) != w.ls[at] {
					panic(name + " returns another lexeme")
				}
			}, at + 1, false})
		}
		on("Set(v)", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.val = "v"; return l.Set("v") })
		on("Set(quote newline)", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.val = "\"\n\\"; return l.Set("\"\n\\") })
		on("Set()", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.val = ""; return l.Set("") })
		on("At(0,5)", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.l, r.c = 0, 5; return l.At(0, 5) })
		on("At(0,0)", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.l, r.c = 0, 0; return l.At(0, 0) })
		on("At(-1,4)", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.l, r.c = -1, 4; return l.At(-1, 4) })
		on("At(3,1)", func(l *lexeme.Lexeme, r *rlex) *lexeme.Lexeme { r.l, r.c = 3, 1; return l.At(3, 1) })
		ops = append(ops, op{fmt.Sprintf("Copy(%d)", at), func(w *world) {
			w.ls = append(w.ls, lexeme.Copy(w.ls[at]))
			w.ws = append(w.ws, w.ws[at])
		}, at + 1, true})
	}
	max := 6
	if c.Thorough {
		max = 7
	}
	c.Space("lexeme histories")
	eachSeq(len(ops), 2, func(head []int) {
		if !c.Unit() {
			return
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			sq := append([]int{}, seq...)
			n := 0
			for _, k := range sq {
				if ops[k].need > n {
					return
				}
				if ops[k].adds {
					n++
				}
			}
			if n > 3 {
				return
			}
			c.Case(func() string {
				var s []string
				for _, k := range sq {
					s = append(s, ops[k].name)
				}
				return strings.Join(s, "; ")
			}, func() string {
				w := &world{}
				for _, k := range sq {
					c.Trans(1)
					ops[k].f(w)
				}
				if len(w.ls) > 1 {
					c.NonTrivial()
				}
				for i, l := range w.ls {
					if bad := w.ws[i].diff(l); bad != "" {
						return fmt.Sprintf("lexeme %d: %s", i, bad)
					}
					if l.String() != w.ws[i].str() {
						return fmt.Sprintf("String of lexeme %d is %s, expected %s", i, l.String(), w.ws[i].str())
					}
					for j := 0; j < i; j++ {
						if l == w.ls[j] {
							return "two calls returned the same lexeme"
						}
					}
				}
				return ""
			})
			if len(head) == 2 && len(seq) < max {
				for i := range ops {
					rec(append(seq, i))
				}
			}
		}
		rec(append([]int{}, head...))
	})
	c.Space("lists of lexemes")
	var pool []parlex.Lexeme
	for _, v := range []string{"", "v", "a\n\"b"} {
		pool = append(pool, lexeme.String("k").Set(v).At(0, 1), lexeme.String("k").Set(v), lexeme.String("k").Set(v).At(0, 0), &probeLexeme{"f", v, 2, 7}, &stubErrLexeme{lexeme.String("e").Set(v).At(0, 3), len(pool)})
	}
	eachSeq(len(pool), 4, func(seq []int) {
		if !c.Unit() {
			return
		}
		sq := append([]int{}, seq...)
		c.Case(func() string { return fmt.Sprint("lexemes ", sq) }, func() string {
			c.Trans(3)
			if len(sq) > 1 {
				c.NonTrivial()
			}
			var ls []parlex.Lexeme
			var short, long []string
			var errs []parlex.Lexeme
			for _, k := range sq {
				l := pool[k]
				ls = append(ls, l)
				s := l.Kind().String()
				g := fmt.Sprintf("%s: %q", s, l.Value())
				if l.Value() != "" {
					s += ": " + l.Value()
				}
				if ln, co := l.Pos(); ln > 0 || co > 0 {
					g += fmt.Sprintf(" (%d, %d)", ln, co)
				}
				short = append(short, s)
				long = append(long, g)
				if _, ok := l.(*stubErrLexeme); ok {
					errs = append(errs, l)
				}
			}
			want := strings.Join(short, ", ")
			if len(sq) > 1 {
				want = "[" + want + "]"
			}
			c.OutcomeS(want)
			if g := parlex.LexemeString(ls...); g != want {
				return fmt.Sprintf("LexemeString is %q, expected %q", g, want)
			}
			if g, w := parlex.LexemeList(ls), strings.Join(long, "\n"); g != w {
				return fmt.Sprintf("LexemeList is %q, expected %q", g, w)
			}
			es := parlex.LexErrors(ls)
			if len(es) != len(errs) {
				return fmt.Sprintf("LexErrors finds %d, expected %d", len(es), len(errs))
			}
			for i := range es {
				if parlex.Lexeme(es[i]) != errs[i] {
					return fmt.Sprintf("error %d is another lexeme", i)
				}
			}
			return ""
		})
	})
	c.Space("error texts of the lexers")
	sl, err1 := simplelexer.New("a\nsp /\\n/ -")
	st, err2 := stacklexer.New("== A ==\n  a\n  sp /\\n/ -")
	for _, in := range strWords([]string{"a", "?", "\n"}, 6) {
		in := in
		if !c.Unit() {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("input %q", in) }, func() string {
			if err1 != nil || err2 != nil {
				return fmt.Sprint(err1, err2)
			}
			for base, l := range []parlex.Lexer{sl, st} {
				c.Trans(1)
				es := parlex.LexErrors(l.Lex(in))
				k := 0
				for i := 0; i < len(in); i++ {
					if in[i] != '?' {
						continue
					}
					j := i
					for j < len(in) && in[j] == '?' {
						j++
					}
					if k >= len(es) {
						return "an error is missing"
					}
					c.NonTrivial()
					ln, co := base+strings.Count(in[:i], "\n"), i-strings.LastIndex(in[:i], "\n")
					if w := fmt.Sprintf("Lex Error %d:%d) %s", ln, co, in[i:j]); es[k].Error() != w {
						return fmt.Sprintf("error text is %q, expected %q", es[k].Error(), w)
					}
					k++
					i = j
				}
				if k != len(es) {
					return "too many errors"
				}
			}
			return ""
		})
	}
	c.Space("error texts, special text")
	sl, err1 = simplelexer.New("a /q/\nsp /\\n/ -")
	st, err2 = stacklexer.New("== A ==\n  a /q/\n  sp /\\n/ -")
	texts := append(append([]string{}, oddNames...), oddChars()...)
	for _, n := range []int{33, 65, 257, 1025, 5000} {
		texts = append(texts, strings.Repeat("?", n), strings.Repeat("? %d\t", n))
	}
	for _, s := range texts {
		if s == "" || strings.ContainsAny(s, "q\n") || !c.Unit() {
			continue
		}
		s := s
		c.Case(func() string { return fmt.Sprintf("error %q", s) }, func() string {
			if err1 != nil || err2 != nil {
				return fmt.Sprint(err1, err2)
			}
			c.NonTrivial()
			for base, l := range []parlex.Lexer{sl, st} {
				for _, pre := range []string{"", "\n\nqq", "\nq" + s + "qqqqqqqqqq"} {
					c.Trans(1)
					es := parlex.LexErrors(l.Lex(pre + s + "q\n"))
					if len(es) == 0 {
						return "no error"
					}
					w := fmt.Sprintf("Lex Error %d:%d) %s", base+strings.Count(pre, "\n"), len(pre)-strings.LastIndex(pre, "\n"), s)
					if got := es[len(es)-1].Error(); got != w {
						return fmt.Sprintf("error text is %q, expected %q", got, w)
					}
				}
			}
			return ""
		})
	}
}
