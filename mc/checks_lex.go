package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// ---- reference lexing machine ----------------------------------------------

type lrule struct {
	kind    string
	src     string // regular expression
	discard bool
	push    string
	pop     int
	groups  []string // "1" or a quoted literal
	re      *regexp.Regexp
	inherit string // not a rule: inherit from this sub-lexer
}

type lexModel struct {
	start    string
	subs     map[string][]lrule // rules in order, inheritance resolved
	priority bool
	base     int // number of the first line
	ins      [4]string
	errKind  string
}

type rlexeme struct {
	kind, val string
	line, col int
	err       bool
	ins       bool
}

var reCache = map[string]*regexp.Regexp{}

func anchored(src string) *regexp.Regexp {
	r, ok := reCache[src]
	if !ok {
		r = regexp.MustCompile(`\A(?:` + src + `)`)
		reCache[src] = r
	}
	return r
}

func (m *lexModel) lex(s string) []rlexeme {
	var out []rlexeme
	if m.ins[0] != "" {
		out = append(out, rlexeme{kind: m.ins[0], val: m.ins[1], ins: true})
	}
	cur := m.start
	var stack []string
	errAt := -1
	pos := func(i int) (int, int) {
		nl := strings.LastIndex(s[:i], "\n")
		return m.base + strings.Count(s[:i], "\n"), i - nl
	}
	flush := func(end int) {
		if errAt >= 0 {
			l, c := pos(errAt)
			out = append(out, rlexeme{m.errKind, s[errAt:end], l, c, true, false})
			errAt = -1
		}
	}
	i := 0
	for i < len(s) {
		var best *lrule
		var loc []int
		for k := range m.subs[cur] {
			r := &m.subs[cur][k]
			lo := anchored(r.src).FindStringSubmatchIndex(s[i:])
			if lo == nil || lo[1] == 0 {
				continue
			}
			// rules are tried in priority order
			if best == nil || (!m.priority && lo[1] > loc[1]) {
				best, loc = r, lo
			}
		}
		if best == nil {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				continue
			}
			if errAt < 0 {
				errAt = i
			}
			i++
			continue
		}
		flush(i)
		if !best.discard {
			v := s[i : i+loc[1]]
			if best.groups != nil {
				v = ""
				for _, g := range best.groups {
					if n, err := strconv.Atoi(g); err == nil {
						if loc[2*n] >= 0 {
							v += s[i+loc[2*n] : i+loc[2*n+1]]
						}
					} else {
						if lit, err := strconv.Unquote(g); err == nil {
							g = lit
						}
						v += g
					}
				}
			}
			l, c := pos(i)
			out = append(out, rlexeme{best.kind, v, l, c, false, false})
		}
		i += loc[1]
		if best.pop > 0 {
			for k := 0; k < best.pop && len(stack) > 0; k++ {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		} else if best.push != "" {
			stack = append(stack, cur)
			cur = best.push
		}
	}
	flush(len(s))
	if m.ins[2] != "" {
		out = append(out, rlexeme{kind: m.ins[2], val: m.ins[3], ins: true})
	}
	return out
}

func showRlex(ls []rlexeme, pos bool) string {
	var b strings.Builder
	for _, l := range ls {
		e := ""
		if l.err {
			e = "!"
		}
		if pos && !l.ins {
			fmt.Fprintf(&b, "%s%s:%q@%d,%d ", e, l.kind, l.val, l.line, l.col)
		} else if !pos {
			fmt.Fprintf(&b, "%s%s:%q ", e, l.kind, l.val)
		}
	}
	return b.String()
}

// observeLex reads a real lexeme list.  With pos, inserted lexemes (head,
// tail) are left out, their position is not defined.
func observeLex(ls []parlex.Lexeme, pos bool, head, tail int) string {
	var b strings.Builder
	for i, l := range ls {
		if l == nil {
			b.WriteString("<nil> ")
			continue
		}
		e := ""
		if _, ok := l.(parlex.LexError); ok {
			e = "!"
		}
		if pos {
			if i < head || i >= len(ls)-tail {
				continue
			}
			ln, c := l.Pos()
			fmt.Fprintf(&b, "%s%s:%q@%d,%d ", e, l.Kind(), l.Value(), ln, c)
		} else {
			fmt.Fprintf(&b, "%s%s:%q ", e, l.Kind(), l.Value())
		}
	}
	return b.String()
}

func compareLex(m *lexModel, got []parlex.Lexeme, in string, pos bool) string {
	if got == nil {
		return "Lex returned nil"
	}
	want := m.lex(in)
	h, t := 0, 0
	if m.ins[0] != "" {
		h = 1
	}
	if m.ins[2] != "" {
		t = 1
	}
	w, g := showRlex(want, pos), observeLex(got, pos, h, t)
	if w != g {
		return "got  " + g + "\nwant " + w
	}
	var errs int
	for _, l := range want {
		if l.err {
			errs++
		}
	}
	if es := parlex.LexErrors(got); len(es) != errs {
		return fmt.Sprintf("LexErrors finds %d errors, want %d", len(es), errs)
	}
	return ""
}

// ---- simple lexer ------------------------------------------------------------

type simpleDef struct {
	rules    []lrule
	priority bool
	ins      [4]string
	err      string // the kind of error lexemes, if changed
	toggle   bool   // the other mode is chosen first
}

func (d *simpleDef) text() string {
	var b strings.Builder
	for _, r := range d.rules {
		b.WriteString("  " + r.kind)
		if r.src != r.kind {
			b.WriteString(" /" + strings.Replace(r.src, "/", `\/`, -1) + "/")
		}
		if r.discard {
			b.WriteString(" -")
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (d *simpleDef) model() *lexModel {
	m := &lexModel{start: "", subs: map[string][]lrule{"": d.rules}, priority: d.priority, ins: d.ins, errKind: "Error"}
	if d.err != "" {
		m.errKind = d.err
	}
	return m
}

func (d *simpleDef) build() (*simplelexer.Lexer, error) {
	l, err := simplelexer.New(d.text())
	if err != nil {
		return nil, err
	}
	if d.toggle && !d.priority {
		l.ByPriority()
		l.ByLength()
	}
	if d.toggle && d.priority {
		l.ByLength()
	}
	if d.priority {
		l.ByPriority()
	}
	if d.err != "" {
		l.Error = d.err
	}
	if d.ins[0] != "" {
		if r := l.InsertStart(d.ins[0], d.ins[1]); len(d.text())%2 == 0 {
			l = r
		}
	}
	if d.ins[2] != "" {
		if r := l.InsertEnd(d.ins[2], d.ins[3]); (len(d.text())%2 == 0) == (d.ins[0] != "") {
			l = r
		}
	}
	return l, nil
}

func (d *simpleDef) String() string {
	s := d.text()
	if d.priority {
		s += "ByPriority\n"
	}
	if d.ins != [4]string{} {
		s += fmt.Sprintf("insert %q\n", d.ins)
	}
	if d.err != "" {
		s += "Error = " + d.err + "\n"
	}
	if d.toggle {
		s += "mode changed before\n"
	}
	return s
}

func strWords(alpha []string, max int) []string {
	out := []string{""}
	last := out
	for l := 1; l <= max; l++ {
		var nx []string
		for _, p := range last {
			for _, a := range alpha {
				nx = append(nx, p+a)
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

var rePool = []lrule{
	{kind: "a", src: "a"}, {kind: "ab", src: "ab"}, {kind: "as", src: "a+"}, {kind: "word", src: "[ab]+"}, {kind: "alt", src: "a|ab"},
	{kind: "nl", src: `\n`}, {kind: "rep", src: "(?:ab)*"}, {kind: "notb", src: "[^b]"}, {kind: "opt", src: "b?a"}, {kind: "lazy", src: "a+?b"}, {kind: "line", src: `b\na?`},
}

// eachSimple enumerates simple lexers and inputs.
func eachSimple(c *Ctx, f func(d *simpleDef, in string)) {
	max := 5
	if c.Thorough {
		max = 7
	}
	ins := strWords([]string{"a", "b", "\n"}, max)
	c.Space(fmt.Sprintf("up to 3 of %d rules, every discard choice, both modes, words over {a,b,newline} to length %d", len(rePool), max))
	for _, ar := range arrangements(len(rePool), 3) {
		for mask := 0; mask < 1<<len(ar); mask++ {
			for pri := 0; pri < 2; pri++ {
				if !c.Unit() {
					continue
				}
				d := &simpleDef{priority: pri == 1}
				for i, x := range ar {
					r := rePool[x]
					r.discard = mask&(1<<i) != 0
					d.rules = append(d.rules, r)
				}
				for _, in := range ins {
					f(d, in)
				}
			}
		}
	}
	c.Space("no rules")
	for _, in := range strWords([]string{"a", "\n"}, 3) {
		if c.Unit() {
			f(&simpleDef{}, in)
		}
	}
	c.Space("inserted lexemes")
	for _, i := range [][4]string{{"s", "S"}, {"", "", "e", "E"}, {"s", "", "e", ""}, {"a", "x", "a", "y"}, {"a", "", "a", ""}, {"", "", "ab", ""}, {"Error", "", "Error", ""}} {
		for _, ar := range arrangements(4, 2) {
			for pri := 0; pri < 2; pri++ {
				if !c.Unit() {
					continue
				}
				d := &simpleDef{ins: i, priority: pri == 1}
				for _, x := range ar {
					d.rules = append(d.rules, rePool[x])
				}
				d.rules[0].discard = pri == 1
				for _, in := range strWords([]string{"a", "b", "\n"}, 4) {
					f(d, in)
				}
			}
		}
	}
	c.Space("bytes and runes")
	up := []lrule{{kind: "e", src: "é"}, {kind: "notA", src: "[^a]"}, {kind: "any", src: "."}, {kind: "tab", src: `\t`}, {kind: "slash", src: "a/b"}, {kind: "pair", src: "éa|世"}}
	for _, ar := range arrangements(len(up), 2) {
		if !c.Unit() {
			continue
		}
		d := &simpleDef{}
		for _, x := range ar {
			d.rules = append(d.rules, up[x])
		}
		for _, in := range strWords([]string{"a", "é", "/b", "\t", "世", "\n", "\x80"}, 3) {
			f(d, in)
		}
	}
	c.Space("changed mode and error kind")
	for _, ar := range arrangements(5, 2) {
		for v := 0; v < 8; v++ {
			if !c.Unit() {
				continue
			}
			d := &simpleDef{priority: v&1 == 1, toggle: v&2 == 2}
			for _, x := range ar {
				d.rules = append(d.rules, rePool[x])
			}
			if v&4 == 4 {
				d.err = []string{"Bad", d.rules[0].kind}[v&1]
			}
			for _, in := range strWords([]string{"a", "b", "\n"}, 4) {
				f(d, in)
			}
		}
	}
	c.Space("end anchors, flags and classes")
	fl := []lrule{{kind: "end", src: "a$"}, {kind: "fold", src: "(?i)ab"}, {kind: "dot", src: "(?s)b."}, {kind: "eol", src: "(?m)a+$"}, {kind: "sp", src: `\s`}, {kind: "cap", src: "(a)(?:b)"}, {kind: "b", src: "b"}}
	for _, ar := range arrangements(len(fl), 2) {
		for pri := 0; pri < 2; pri++ {
			if !c.Unit() {
				continue
			}
			d := &simpleDef{priority: pri == 1}
			for _, x := range ar {
				d.rules = append(d.rules, fl[x])
			}
			for _, in := range strWords([]string{"a", "b", "\n", "A", "\r\n"}, 4) {
				f(d, in)
			}
		}
	}
	scaleC10(c, f)
	hugeC10(c, f)
	charsSimple(c, f)
	c.Space("many rules")
	kw := []string{"if", "in", "int", "i", "for", "fo", "f", "forint", "x"}
	for rot := 0; rot < len(kw); rot++ {
		for pri := 0; pri < 2; pri++ {
			for idAt := 0; idAt < 3; idAt++ {
				if !c.Unit() {
					continue
				}
				d := &simpleDef{priority: pri == 1}
				for k := range kw {
					w := kw[(k+rot)%len(kw)]
					if k == idAt*4 {
						d.rules = append(d.rules, lrule{kind: "id", src: `[a-z]\w*`}, lrule{kind: "num", src: `\d+(?:\.\d+)?`}, lrule{kind: "str", src: `"[^"]*"`})
					}
					d.rules = append(d.rules, lrule{kind: w, src: w})
				}
				d.rules = append(d.rules, lrule{kind: "ws", src: `\s+`, discard: true}, lrule{kind: "cm", src: `//[^\n]*`, discard: true}, lrule{kind: "op", src: `[-+*=]|==`})
				parts := []string{"if", "int", "inf", "forint", "i", "1.5", "1.", "\"a\nb\"", "\"a", " ", "\n", "//c\n", "==", "?", "x1"}
				for _, a := range parts {
					for _, b := range parts {
						for _, e := range parts {
							f(d, a+b+e)
						}
					}
				}
				long := ""
				for k := 0; k < 60; k++ {
					long += parts[(k*7+rot)%len(parts)] + []string{" ", "\n", "", "? "}[k%4]
				}
				for cut := 0; cut <= len(long); cut += 3 {
					f(d, long[:cut])
				}
			}
		}
	}
}

// ---- stack lexer -------------------------------------------------------------

type subDef struct {
	name  string
	rules []lrule
}

type stackDef struct {
	subs     []subDef
	priority bool
	ins      [4]string
	err      string   // the kind of error lexemes, if changed
	toggle   bool     // the other mode is chosen first
	layout   int      // how the definition is written
	written  []string // the definition, if it is not to be made from the rest
}

func (d *stackDef) text() string { return strings.Join(d.texts(), "") }

// texts returns the definitions to give to New.
func (d *stackDef) texts() (out []string) {
	if d.written != nil {
		return d.written
	}
	for _, s := range d.subs {
		t := s.text()
		switch d.layout {
		case 1:
			t = strings.Replace(t, "== "+s.name+" ==", "=="+s.name+"==", 1)
		case 2:
			t = strings.Replace(t, "== "+s.name+" ==", "== "+s.name, 1)
		case 3:
			t = "\n" + strings.Replace(strings.Replace(t, "\n", " \n\n", -1), "  ", "\t \t", -1) + "  \n"
		case 4:
			t = strings.Replace(t, "\n  ", "\n", -1)
		}
		out = append(out, t)
	}
	if d.layout != 5 {
		out = []string{strings.Join(out, "")}
	}
	return
}

func (s *subDef) text() string {
	var b strings.Builder
	{
		b.WriteString("== " + s.name + " ==\n")
		for _, r := range s.rules {
			if r.inherit != "" {
				b.WriteString("  " + r.inherit + "\n")
				continue
			}
			b.WriteString("  " + r.kind)
			if r.src != r.kind || r.groups != nil {
				b.WriteString(" /" + strings.Replace(r.src, "/", `\/`, -1) + "/")
			}
			if r.groups != nil {
				b.WriteString(" (" + strings.Join(r.groups, "|") + ")")
			}
			if r.pop > 0 {
				b.WriteString(" " + strings.Repeat("^", r.pop))
			} else if r.push != "" {
				b.WriteString(" " + r.push)
			}
			if r.discard {
				b.WriteString(" -")
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (d *stackDef) String() string {
	s := d.text()
	if d.priority {
		s += "ByPriority\n"
	}
	if d.ins != [4]string{} {
		s += fmt.Sprintf("insert %q\n", d.ins)
	}
	if d.err != "" {
		s += "Error = " + d.err + "\n"
	}
	if d.toggle {
		s += "mode changed before\n"
	}
	if d.layout > 0 || d.written != nil {
		s += fmt.Sprintf("written as %q\n", d.texts())
	}
	return s
}

// model resolves inheritance; it reports whether the definition is valid.
func (d *stackDef) model() (*lexModel, bool) {
	m := &lexModel{subs: map[string][]lrule{}, priority: d.priority, base: 1, ins: d.ins, errKind: "Error"}
	if d.err != "" {
		m.errKind = d.err
	}
	byName := map[string]subDef{}
	for i, s := range d.subs {
		if i == 0 {
			m.start = s.name
		}
		byName[s.name] = s
	}
	if m.start == "" {
		return nil, false
	}
	ok := true
	var flat func(name string, seen []string) []lrule
	flat = func(name string, seen []string) []lrule {
		for _, x := range seen {
			if x == name {
				ok = false
				return nil
			}
		}
		var out []lrule
		have := map[string]bool{}
		for _, r := range byName[name].rules {
			rs := []lrule{r}
			if r.inherit != "" {
				rs = flat(r.inherit, append(seen, name))
			}
			for _, x := range rs {
				if !have[x.kind] {
					have[x.kind] = true
					out = append(out, x)
				}
			}
		}
		return out
	}
	for _, s := range d.subs {
		m.subs[s.name] = flat(s.name, nil)
		for _, r := range s.rules {
			if r.inherit != "" {
				if _, f := byName[r.inherit]; !f {
					ok = false
				}
				continue
			}
			re, err := regexp.Compile(r.src)
			if err != nil {
				ok = false
				continue
			}
			if r.push != "" {
				if _, f := byName[r.push]; !f {
					ok = false
				}
			}
			for _, g := range r.groups {
				if n, err := strconv.Atoi(g); err == nil && n > re.NumSubexp() {
					ok = false
				}
			}
		}
	}
	return m, ok
}

func (d *stackDef) build() (*stacklexer.StackLexer, error) {
	l, err := stacklexer.New(d.texts()...)
	if err != nil {
		return nil, err
	}
	// the methods return the lexer for chaining; use that, or not
	odd := len(strings.Join(d.texts(), ""))%2 == 1
	if d.toggle && !d.priority {
		if odd {
			l = l.ByPriority().ByLength()
		} else {
			l.ByPriority()
			l.ByLength()
		}
	}
	if d.toggle && d.priority {
		l.ByLength()
	}
	if d.priority {
		if odd {
			l = l.ByPriority()
		} else {
			l.ByPriority()
		}
	}
	if d.err != "" {
		l.Error = d.err
	}
	if d.ins[0] != "" {
		if r := l.InsertStart(d.ins[0], d.ins[1]); odd {
			l = r
		}
	}
	if d.ins[2] != "" {
		if r := l.InsertEnd(d.ins[2], d.ins[3]); odd == (d.ins[0] == "") {
			l = r
		}
	}
	return l, nil
}

// eachStack enumerates stack lexers; f is called per lexer with its inputs.
func eachStack(c *Ctx, f func(d *stackDef, ins []string)) {
	max := 5
	if c.Thorough {
		max = 7
	}
	// two sub-lexers; the first has up to 2 rules and the second up to 2, with
	// every push/pop/discard/inherit choice
	first := []lrule{
		{kind: "open", src: "a", push: "In"}, {kind: "openD", src: "a", push: "In", discard: true}, {kind: "self", src: "ab", push: "Main"}, {kind: "word", src: "[ab]+"}, {kind: "b", src: "b"},
		{kind: "pop", src: "b", pop: 1}, {kind: "nl", src: `\n`, discard: true}, {kind: "deep", src: "aa", push: "In"}, {inherit: "In"}, {kind: "zero", src: "b*"},
	}
	second := []lrule{
		{kind: "close", src: "b", pop: 1}, {kind: "close2", src: "bb?", pop: 2}, {kind: "word", src: "a+"}, {kind: "again", src: "a", push: "In"}, {kind: "nl", src: `\n`}, {kind: "open", src: "ab", discard: true},
		{kind: "closeD", src: "b", pop: 1, discard: true}, {kind: "main", src: "aa", push: "Main"},
	}
	ins := strWords([]string{"a", "b", "\n"}, max)
	c.Space(fmt.Sprintf("two sub-lexers with up to 2 of %d and up to 2 of %d rules, both modes, words over {a,b,newline} to length %d", len(first), len(second), max))
	for _, a := range arrangements(len(first), 2) {
		for _, b := range arrangements(len(second), 2) {
			for pri := 0; pri < 2; pri++ {
				if !c.Unit() {
					continue
				}
				d := &stackDef{priority: pri == 1, subs: []subDef{{name: "Main"}, {name: "In"}}}
				for _, x := range a {
					d.subs[0].rules = append(d.subs[0].rules, first[x])
				}
				for _, x := range b {
					d.subs[1].rules = append(d.subs[1].rules, second[x])
				}
				f(d, ins)
			}
		}
	}
	// inheritance: the position and order of inherited rules
	c.Space("inheritance chains and positions")
	sh := []lrule{{kind: "x", src: "ab"}, {kind: "y", src: "a"}, {kind: "z", src: "b"}, {kind: "w", src: "[ab]"}}
	own := []lrule{{kind: "own", src: "a"}, {kind: "x", src: "a"}, {kind: "q", src: "[ab]"}, {kind: "z", src: "bb", push: "Main"}}
	small := strWords([]string{"a", "b", "\n"}, 4)
	for _, a := range arrangements(len(sh), 3) {
		for o := range own {
			for at := 0; at < 2; at++ {
				for pri := 0; pri < 2; pri++ {
					for shape := 0; shape < 3; shape++ {
						if !c.Unit() {
							continue
						}
						d := &stackDef{priority: pri == 1}
						main := []lrule{own[o], {inherit: "Sh"}}
						if at == 1 {
							main = []lrule{{inherit: "Sh"}, own[o]}
						}
						var rs []lrule
						for _, x := range a {
							rs = append(rs, sh[x])
						}
						switch shape {
						case 0:
							d.subs = []subDef{{"Main", main}, {"Sh", rs}}
						case 1: // a chain of three, the middle one adds a rule
							d.subs = []subDef{{"Main", main}, {"Sh", []lrule{{kind: "mid", src: "b"}, {inherit: "Base"}}}, {"Base", rs}}
						case 2: // defined before use, two heirs
							d.subs = []subDef{{"Main", append(main, lrule{kind: "in", src: `\n`, push: "Other"})}, {"Base", rs[:1]}, {"Other", []lrule{{inherit: "Sh"}, {kind: "out", src: `\n`, pop: 1}}}, {"Sh", append([]lrule{{inherit: "Base"}}, rs...)}}
						}
						f(d, small)
					}
				}
			}
		}
	}
	c.Space("groups")
	for _, g := range []lrule{
		{kind: "g", src: "(a)(b)", groups: []string{"2", "1"}}, {kind: "g", src: "(a)(b)", groups: []string{"1"}}, {kind: "g", src: "(a)(b)", groups: []string{"0"}},
		{kind: "g", src: "(a)|(b)", groups: []string{"1", `"-"`, "2"}}, {kind: "g", src: "(a)?(b)", groups: []string{"1", "2"}}, {kind: "g", src: "a(b*)", groups: []string{"1"}},
		{kind: "g", src: "a(b*)", groups: []string{`"lit"`}}, {kind: "g", src: `a(\n)?(b)`, groups: []string{"2", `":1:"`, "2"}}, {kind: "g", src: `(a+)\n`, groups: []string{"1"}, push: "In"},
		{kind: "g", src: `(a)(b)(a)`, groups: []string{"3", "2", "1", "3"}}, {kind: "g", src: `((a)b)`, groups: []string{"2"}, discard: true},
		{kind: "g", src: "(a)(b)", groups: []string{`"2"`, "1"}}, {kind: "g", src: "(a)(b)", groups: []string{`"3"`}}, {kind: "g", src: "(a)(b)", groups: []string{`"01"`, "02", `" "`}},
		{kind: "g", src: "(a)(b)", groups: []string{"3"}}, {kind: "g", src: "ab", groups: []string{"1"}}, {kind: "g", src: "(a)", groups: []string{"7"}},
	} {
		for _, o := range []lrule{{kind: "b", src: "b"}, {kind: "ab", src: "ab?"}, {kind: "nl", src: `\n`, discard: true}} {
			for pri := 0; pri < 2; pri++ {
				if !c.Unit() {
					continue
				}
				d := &stackDef{priority: pri == 1, subs: []subDef{{"Main", []lrule{g, o}}, {"In", []lrule{{kind: "b", src: "b"}, {kind: "out", src: "a", pop: 1}}}}}
				f(d, ins)
			}
		}
	}
	c.Space("literals")
	for _, l := range []string{`lit`, `a-b`, `a b`, `""`, `"a'b"`, `"\""`, `"\\"`, `"\n"`, `"é"`, `é`, `"1"`, `1x`, `x1`, `"-1"`, `"0"`, `"("`} {
		for _, g := range [][]string{{l}, {l, "1"}, {"1", l, l}} {
			if c.Unit() {
				f(&stackDef{subs: []subDef{{"Main", []lrule{{kind: "g", src: "a(b)", groups: g}, {kind: "b", src: "b"}}}}}, strWords([]string{"a", "b"}, 4))
			}
		}
	}
	c.Space("stack depth")
	deepIns := append(strWords([]string{"(", ")", "x"}, 6), strings.Repeat("(", 12)+"x"+strings.Repeat(")", 14)+"x", strings.Repeat("(x", 9)+"!"+strings.Repeat(")", 3))
	for pops := 1; pops <= 4; pops++ {
		for lev := 1; lev <= 4; lev++ {
			if !c.Unit() {
				continue
			}
			d := &stackDef{}
			for l := 0; l <= lev; l++ {
				n := fmt.Sprintf("L%d", l)
				rs := []lrule{{kind: fmt.Sprintf("x%d", l), src: "x"}}
				if l < lev {
					rs = append(rs, lrule{kind: "o" + n, src: `\(`, push: fmt.Sprintf("L%d", l+1)})
				} else {
					rs = append(rs, lrule{kind: "o" + n, src: `\(`, push: "L1"})
				}
				if l == lev {
					rs = append(rs, lrule{kind: "c" + n, src: `\)`, pop: pops})
				} else if l > 0 {
					rs = append(rs, lrule{kind: "c" + n, src: `\)`, pop: 1})
				}
				d.subs = append(d.subs, subDef{n, rs})
			}
			f(d, deepIns)
		}
	}
	c.Space("inserted lexemes")
	for _, i := range [][4]string{{"s", "S"}, {"", "", "e", "E"}, {"s", "", "e", ""}, {"a", "", "a", ""}, {"b", "", "b", ""}, {"a", "x", "b", "y"}, {"Error", "", "Error", ""}} {
		if c.Unit() {
			f(&stackDef{ins: i, subs: []subDef{{"Main", []lrule{{kind: "a", src: "a", push: "In"}, {kind: "nl", src: `\n`, discard: true}}}, {"In", []lrule{{kind: "b", src: "b", pop: 1}}}}}, ins)
		}
	}
	c.Space("layout, changed mode and error kind, expressions taken from the name")
	opts := []lrule{{kind: "a", src: "a", push: "In"}, {kind: "b", src: "b", pop: 1}, {kind: "ab", src: "ab", discard: true}, {kind: "b+", src: "b+", push: "In", discard: true}, {kind: "b", src: "b", pop: 2, discard: true}, {kind: "sl", src: "a/b?"}, {kind: "In", inherit: "In"}}
	lx := strWords([]string{"a", "b", "/", "\n"}, 4)
	for _, a := range arrangements(len(opts), 2) {
		for b := range opts[:6] {
			for v := 0; v < 8; v++ {
				if !c.Unit() {
					continue
				}
				d := &stackDef{subs: []subDef{{name: "Main"}, {"In", []lrule{opts[b], {kind: "z", src: `\n`}}}}}
				for _, x := range a {
					d.subs[0].rules = append(d.subs[0].rules, opts[x])
				}
				if v < 6 {
					d.layout = v
				} else {
					d.toggle, d.priority, d.err = true, v == 7, []string{"Bad", "z"}[v-6]
				}
				f(d, lx)
			}
		}
	}
	scaleC11(c, f)
	hugeC11(c, f)
	charsStack(c, f)
	layoutStack(c, f)
	c.Space("definitions that must be refused or accepted")
	for _, d := range []*stackDef{
		{subs: []subDef{{"A", []lrule{{inherit: "A"}}}}},
		{subs: []subDef{{"A", []lrule{{inherit: "B"}}}, {"B", []lrule{{inherit: "A"}}}}},
		{subs: []subDef{{"A", []lrule{{kind: "x", src: "x"}, {inherit: "B"}}}, {"B", []lrule{{inherit: "C"}}}, {"C", []lrule{{kind: "y", src: "y"}, {inherit: "A"}}}}},
		{subs: []subDef{{"M", []lrule{{kind: "x", src: "x"}}}, {"A", []lrule{{inherit: "B"}}}, {"B", []lrule{{inherit: "A"}}}}},
		{subs: []subDef{{"M", []lrule{{kind: "x", src: "x("}}}}},
		{subs: []subDef{{"M", []lrule{{kind: "x", src: "x"}}}, {"N", []lrule{{kind: "+", src: "+"}}}}},
		{subs: []subDef{{"M", []lrule{{inherit: "N"}}}, {"N", []lrule{{kind: "y", src: "y"}, {kind: "x", src: "[x"}}}}},
		{subs: []subDef{{"M", []lrule{{kind: "x", src: "x", push: "Nowhere"}}}}},
		{subs: []subDef{{"M", []lrule{{kind: "x", src: "x"}}}, {"N", []lrule{{kind: "y", src: "y", push: "Nowhere"}}}}},
		{},
		{subs: []subDef{{"M", nil}}},
		{subs: []subDef{{"M", []lrule{{kind: "x", src: "x", push: "N"}}}, {"N", nil}}},
		{subs: []subDef{{"M", []lrule{{inherit: "N"}, {inherit: "O"}}}, {"N", []lrule{{inherit: "O"}}}, {"O", []lrule{{kind: "x", src: "x"}}}}},
	} {
		if c.Unit() {
			f(d, []string{"", "x", "xy", "yx\nx", "zz"})
		}
	}
}

// ---- checks --------------------------------------------------------------------

func init() {
	register(&Check{
		ID:     "C10",
		Rule:   "every ordered choice of up to 3 rules from a pool of overlapping, lazy, empty-matching and multi-line expressions x every discard choice x both selection modes, rule-free lexers, inserted lexemes, multi-byte text and keyword lexers, each against every input up to the bound; the kinds, values, errors and order equal those of a reference tokeniser; non-trivial: at least two lexemes",
		Bounds: []string{"runs, blank runs, line breaks and literals of 1001 to 65540 characters; 1001 and 3001 errors or lexemes; 1030 rules", "every byte and 17 special runes and line ends in words to length 3 over {a, x, newline} against 9 or more rule lists; special kinds: all pairs of about 70", "words of up to 4 letters over 6 with every letter 2, 5, 11, 18 and 33 times", "inputs over {a,b,newline} to length 5 (quick) / 7 (thorough)", "keyword lexer: 15 rules, all triples of 15 fragments and all prefixes of a 250 byte text", "changed modes and error kinds, end anchors and flags: pairs of rules, words to length 4", "scaled inputs and rule lists to size 300"},
		Assume: []string{"regexp.Regexp matching itself", "expressions do not look behind the match (^, \\b)"},
		Run: func(c *Ctx) {
			eachSimple(c, func(d *simpleDef, in string) {
				c.Case(func() string { return d.String() + fmt.Sprintf("input %q", in) }, func() string {
					l, err := cachedSimple(d)
					if err != nil {
						return "New: " + err.Error()
					}
					c.Trans(1)
					got := l.Lex(in)
					if len(got) > 1 {
						c.NonTrivial()
					}
					c.OutcomeS(observeLex(got, false, 0, 0))
					return compareLex(d.model(), got, in, false)
				})
			})
		},
	})
	register(&Check{
		ID:     "C11",
		Rule:   "every pair of sub-lexers with up to 2 rules each from pools covering push, pop, double pop, recursion, discard, inheritance, masking and empty matches, inheritance chains with every order and position, group selections, stack depths, and definitions that must be refused, x both modes, against every input up to the bound; kinds, values and order equal those of a reference stack machine; non-trivial: more than one lexeme",
		Bounds: []string{"runs, blank runs, line breaks and literals of 1001 to 65540 characters; 1001 and 3001 errors or lexemes; stacks 1001 and 2500 deep", "every byte and 17 special runes and line ends in words to length 3 over {a, x, newline} against 10 or more rule lists; special kinds: all pairs of about 70; expressions that prefer a shorter match: pairs of 8, words to length 4", "words of up to 4 letters over 6 with every letter 2, 5, 11, 18 and 33 times", "inputs over {a,b,newline} to length 5 (quick) / 7 (thorough); bracket inputs to length 6", "five kinds of white space (none included) in each of 6 gaps of a rule and 3 of a header; 72 pairs of names of sub-lexers", "six layouts, changed modes and error kinds: up to 2 rules of 7 and 1 of 6, words over {a,b,/,newline} to length 4", "scaled inputs, stacks, pops and inheritance chains to size 300 (definitions 66)"},
		Assume: []string{"regexp.Regexp matching itself", "expressions do not look behind the match (^, \\b)", "the iteration order of Go maps is not controlled; lexers whose rules are inherited are built 3 times"},
		Run: func(c *Ctx) {
			eachStack(c, func(d *stackDef, ins []string) { stackCases(c, d, ins, false) })
		},
	})
	register(&Check{
		ID:     "C12",
		Rule:   "the lexers and inputs of C10 and C11: line and column of every lexeme and error are those of its first byte in the input, counting newlines in matched, discarded and unmatched text alike; non-trivial: the input has a newline",
		Bounds: []string{"as C10 and C11"},
		Assume: []string{"as C10 and C11"},
		Run: func(c *Ctx) {
			eachSimple(c, func(d *simpleDef, in string) {
				c.Case(func() string { return d.String() + fmt.Sprintf("input %q", in) }, func() string {
					l, err := cachedSimple(d)
					if err != nil {
						return "New: " + err.Error()
					}
					c.Trans(1)
					got := l.Lex(in)
					if strings.Contains(in, "\n") {
						c.NonTrivial()
					}
					c.OutcomeS(observeLex(got, true, 0, 0))
					return compareLex(d.model(), got, in, true)
				})
			})
			eachStack(c, func(d *stackDef, ins []string) { stackCases(c, d, ins, true) })
		},
	})
	register(&Check{
		ID:     "C13",
		Rule:   "every simple lexer of the pool (up to 3 rules, every discard choice) built from one definition, from one definition per rule, from Add calls and from the String of each of those: all behave alike on every probe input; duplicate kinds and invalid expressions are refused; String is stable; non-trivial: two or more rules",
		Bounds: []string{"five kinds of white space (none included) in each of 4 gaps of a definition, line ends, discard choices", "special kinds: all pairs of about 70", "up to 3 rules of 14, probes: words over {a,b,newline,/} to length 3 and special texts", "1..300 keyword rules (scaled)"},
		Run:    runC13,
	})
}

var lastSimple *simpleDef
var lastSimpleL *simplelexer.Lexer

func cachedSimple(d *simpleDef) (*simplelexer.Lexer, error) {
	if d == lastSimple {
		return lastSimpleL, nil
	}
	l, err := d.build()
	if err == nil {
		lastSimple, lastSimpleL = d, l
	}
	return l, err
}

func stackCases(c *Ctx, d *stackDef, ins []string, pos bool) {
	m, ok := d.model()
	inh := 1
	for _, s := range d.subs {
		for _, r := range s.rules {
			if r.inherit != "" {
				inh = 3
			}
		}
	}
	var lxs []*stacklexer.StackLexer
	refused := ""
	p := guard(func() {
		for i := 0; i < inh; i++ {
			l, err := d.build()
			if err != nil {
				refused = err.Error()
				if l != nil {
					refused = "a lexer together with an error"
				}
				return
			}
			lxs = append(lxs, l)
		}
	})
	if p != "" || !ok || refused != "" {
		if pos && p == "" && !ok && refused != "" {
			return
		}
		c.Case(func() string { return d.String() + "New" }, func() string {
			c.Trans(1)
			c.OutcomeS(fmt.Sprint(ok, refused != ""))
			if p != "" {
				return "New: " + p
			}
			if ok {
				return "New refuses a valid definition: " + refused
			}
			if refused == "" {
				return "New accepts an invalid definition"
			}
			if refused == "a lexer together with an error" {
				return refused
			}
			return ""
		})
		return
	}
	for _, in := range ins {
		in := in
		c.Case(func() string { return d.String() + fmt.Sprintf("input %q", in) }, func() string {
			for _, l := range lxs {
				c.Trans(1)
				got := l.Lex(in)
				if (!pos && len(got) > 1) || (pos && strings.Contains(in, "\n")) {
					c.NonTrivial()
				}
				c.OutcomeS(observeLex(got, pos, 0, 0))
				if bad := compareLex(m, got, in, pos); bad != "" {
					return bad
				}
			}
			return ""
		})
	}
}

func runC13(c *Ctx) {
	pool := append(append([]lrule{}, rePool...), lrule{kind: "slash", src: `a/b`}, lrule{kind: "star", src: `\*|\\`}, lrule{kind: "x-y", src: "x-y"})
	if !c.Thorough {
		pool = append(pool[:6:6], pool[8], pool[9], pool[11], pool[12], pool[13])
	}
	// kinds that are expressions themselves
	pool = append(pool, lrule{kind: ".", src: `\.`}, lrule{kind: "a+", src: `a\+`}, lrule{kind: "[ab]", src: "[ab]"}, lrule{kind: "(", src: `\(`}, lrule{kind: "-", src: "-"})
	probes := append(strWords([]string{"a", "b", "\n", "/"}, 3), "x-y", "a/b*\\", "x-yab a/bb", "x.a+(a-b", "aa+.(")
	c.Space("up to 3 rules of the pool")
	for _, ar := range arrangements(len(pool), 3) {
		for mask := 0; mask < 1<<len(ar); mask++ {
			if !c.Unit() {
				continue
			}
			d := &simpleDef{}
			for i, x := range ar {
				r := pool[x]
				r.discard = mask&(1<<i) != 0
				d.rules = append(d.rules, r)
			}
			c.Case(func() string { return d.String() }, func() string {
				if len(d.rules) > 1 {
					c.NonTrivial()
				}
				type built struct {
					how string
					l   *simplelexer.Lexer
				}
				var bs []built
				l1, err := simplelexer.New(d.text())
				if err != nil {
					return "New: " + err.Error()
				}
				var parts []string
				l3, _ := simplelexer.New()
				for _, r := range d.rules {
					parts = append(parts, (&simpleDef{rules: []lrule{r}}).text())
					src := strings.Replace(r.src, "/", `\/`, -1)
					if err := l3.Add(stringsymbol.Symbol(r.kind), regexp.MustCompile(src), r.discard); err != nil {
						return "Add: " + err.Error()
					}
					// the lexer is used between the additions
					part := (&simpleDef{rules: d.rules[:len(parts)]}).model()
					for _, in := range probes[:10] {
						c.Trans(1)
						if bad := compareLex(part, l3.Lex(in), in, false); bad != "" {
							return fmt.Sprintf("after %d rules, input %q: %s", len(parts), in, bad)
						}
					}
				}
				l2, err := simplelexer.New(parts...)
				if err != nil {
					return "New of parts: " + err.Error()
				}
				bs = []built{{"one definition", l1}, {"several definitions", l2}, {"Add", l3}}
				s := l1.String()
				for _, b := range bs {
					c.Trans(1)
					if x := b.l.String(); x != s {
						return fmt.Sprintf("String of the lexer built by %s is\n%s\nnot\n%s", b.how, x, s)
					}
				}
				l4, err := simplelexer.New(s)
				if err != nil {
					return "New of String: " + err.Error() + "\n" + s
				}
				if x := l4.String(); x != s {
					return "String is not stable:\n" + s + "\n->\n" + x
				}
				bs = append(bs, built{"String", l4})
				if err := l4.Add(stringsymbol.Symbol(d.rules[0].kind), regexp.MustCompile("q"), false); err == nil {
					return "Add accepts a duplicate kind"
				}
				m := d.model()
				c.OutcomeS(s)
				for _, b := range bs {
					for _, in := range probes {
						c.Trans(1)
						if bad := compareLex(m, b.l.Lex(in), in, false); bad != "" {
							return fmt.Sprintf("built by %s, input %q: %s", b.how, in, bad)
						}
					}
				}
				return ""
			})
		}
	}
	namesC13(c)
	layoutSimple(c)
	c.Space("refused")
	for _, t := range []string{"a\na", "a /x/\nb\na /y/", "a /(/", "+", "x\ny /[/\nz", "a -\na", "*"} {
		t := t
		if !c.Unit() {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("%q", t) }, func() string {
			c.Trans(1)
			if l, err := simplelexer.New(t); err == nil || l != nil {
				return fmt.Sprintf("New = %v, %v", l, err)
			}
			if l, err := simplelexer.New("ok", t); err == nil || l != nil {
				return fmt.Sprintf("New of two = %v, %v", l, err)
			}
			return ""
		})
	}
	c.Space("long names and expressions")
	for _, n := range append(sizes(c.Thorough, 300), 1001, 4099) {
		n := n
		if !c.Unit() {
			continue
		}
		for v := 0; v < 4; v++ {
			v := v
			c.Case(func() string { return fmt.Sprintf("size %d, variant %d", n, v) }, func() string {
				c.NonTrivial()
				long := strings.Repeat([]string{"n", "é", "n_", "+"}[v], n)
				re := strings.Repeat([]string{"x", `\d`, "x?", "[xy]"}[v], n)
				d := &simpleDef{rules: []lrule{{kind: long + "k", src: "b"}, {kind: "x", src: re, discard: v == 1}, {kind: "y" + long, src: "y+", discard: true}, {kind: "z", src: "z"}}}
				if n > 300 {
					d.rules[1].src = strings.Repeat("x", n)
				}
				if v == 3 {
					d.rules[0].kind = "k"
				}
				l, err := simplelexer.New(d.text())
				if err != nil {
					return err.Error()
				}
				l2, err := simplelexer.New(l.String())
				if err != nil {
					return "New of String: " + err.Error()
				}
				if l2.String() != l.String() {
					return "String is not stable"
				}
				m := d.model()
				for _, in := range []string{"bxyz", strings.Repeat("x", n) + "b", strings.Repeat("7", n) + "zb" + strings.Repeat("xy", n)} {
					for _, x := range []*simplelexer.Lexer{l, l2} {
						c.Trans(1)
						if bad := compareLex(m, x.Lex(in), in, false); bad != "" {
							return trunc(bad)
						}
					}
				}
				return ""
			})
		}
	}
	c.Space("many rules")
	for _, n := range append(sizes(c.Thorough, 300), 520, 1030) {
		n := n
		if !c.Unit() {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("%d keyword rules", n) }, func() string {
			d := &simpleDef{}
			var ws []string
			for i := 0; i < n; i++ {
				w := "k" + strings.Repeat("a", i%5) + strconv.Itoa(i)
				ws = append(ws, w)
				d.rules = append(d.rules, lrule{kind: w, src: w, discard: i%3 == 2})
			}
			sort.Strings(ws)
			l, err := simplelexer.New(d.text())
			if err != nil {
				return err.Error()
			}
			l2, err := simplelexer.New(l.String())
			if err != nil {
				return err.Error()
			}
			m := d.model()
			in := strings.Join(ws, "")
			for _, x := range []*simplelexer.Lexer{l, l2} {
				c.Trans(1)
				if bad := compareLex(m, x.Lex(in), in, false); bad != "" {
					return bad
				}
			}
			return ""
		})
	}
}
