From 1a74ff9a58b55027a95e151b5a81c2b184687c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 01/34] fix: packrat accepted the empty input for every grammar

The zero treeDef returned by the memo for an absent key has end 0, so with no
lexemes the absence of a derivation looked like an acceptance.
---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..622ae27 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op.lxms, op.memo, op.set)
-- 
2.43.0


From 9079e0d4a033baf04056709847656de3c05d10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 02/34] fix: IsLeftRecursive missed left recursion hidden
 behind nullable symbols

A symbol that had already been checked, or that is only indirectly nullable,
was treated as not nullable, so topdown.New accepted left recursive grammars
and Parse overflowed the stack.
---
 leftrecursion.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/leftrecursion.go b/leftrecursion.go
index f3d3d95..02052ce 100644
--- a/leftrecursion.go
+++ b/leftrecursion.go
@@ -5,6 +5,7 @@ func IsLeftRecursive(grammar Grammar) bool {
 	op := &lrOp{
 		Grammar: grammar,
 		checked: make(map[string]bool),
+		nilable: nilable(grammar),
 	}
 	for _, nt := range grammar.NonTerminals() {
 		op.stack = make(map[string]bool)
@@ -19,11 +20,39 @@ func IsLeftRecursive(grammar Grammar) bool {
 type lrOp struct {
 	Grammar
 	checked, stack map[string]bool
+	nilable        map[string]bool
+}
+
+// nilable finds all the non-terminals that can be reduced to nil, either
+// directly or because all the symbols in one of their productions can be.
+func nilable(grammar Grammar) map[string]bool {
+	nils := make(map[string]bool)
+	for found := true; found; {
+		found = false
+		for _, nt := range grammar.NonTerminals() {
+			prods := grammar.Productions(nt)
+			if prods == nil || nils[nt.String()] {
+				continue
+			}
+			for i := prods.Iter(); i.Next(); {
+				isNil := true
+				for j := i.Iter(); isNil && j.Next(); {
+					isNil = nils[j.Symbol.String()]
+				}
+				if isNil {
+					nils[nt.String()] = true
+					found = true
+					break
+				}
+			}
+		}
+	}
+	return nils
 }
 
 func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
 	if op.checked[s.String()] {
-		return false, false
+		return false, op.nilable[s.String()]
 	}
 
 	prods := op.Productions(s)
@@ -38,7 +67,7 @@ func (op *lrOp) check(s Symbol) (isLR, checkNext bool) {
 	}
 	op.stack[s.String()] = true
 
-	retCheckNext := false
+	retCheckNext := op.nilable[s.String()]
 	for i := prods.Iter(); i.Next(); {
 		if i.Production.Symbols() == 0 {
 			retCheckNext = true
-- 
2.43.0


From 51b411e4c28420c03cf3f5d819de72c0a53b9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:35 +0000
Subject: [PATCH 03/34] fix: topdown parse trees had no parent links and shared
 nodes

Parent() was nil on every node, and a node found through the memo appeared at
several places of the tree, so changing one place changed the others.
---
 parser/topdown/topdown.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..b66ab32 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,22 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	return link(node, nil)
+}
+
+// link copies a node and its descendants, setting the parent of each. The memo
+// can use the same node in more than one place, so the copy is also what gives
+// every position in the tree a node of its own.
+func link(node, parent *tree.PN) *tree.PN {
+	cp := &tree.PN{
+		Lexeme: node.Lexeme,
+		P:      parent,
+		C:      make([]*tree.PN, len(node.C)),
+	}
+	for i, c := range node.C {
+		cp.C[i] = link(c, cp)
+	}
+	return cp
 }
 
 type treeKey struct {
-- 
2.43.0


From 10441fc564dca113c6cdac6c35cb39ed3796ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 04/34] fix: RemoveLeftRecursion changed the language or did
 not terminate

Substituting the input's productions for a symbol that is directly left
recursive never ended (A -> A a | b; B -> A c). The output grammar was indexed
with the symbol numbers of another set, all leading occurrences of the symbol
were dropped instead of one (E -> E E lost everything), and the new symbol could
collide with a symbol of the grammar.
---
 grammar/left_recursion.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/grammar/left_recursion.go b/grammar/left_recursion.go
index b2e8278..191036f 100644
--- a/grammar/left_recursion.go
+++ b/grammar/left_recursion.go
@@ -22,8 +22,10 @@ func RemoveLeftRecursion(grammar parlex.Grammar) *Grammar {
 		in:   grammar,
 		out:  Empty(),
 		done: make([]bool, len(nts)),
-		set:  setsymbol.New(),
 	}
+	// productions in out are looked up by the index of their symbol
+	op.set = op.out.set
+	op.set.LoadGrammar(grammar)
 	for _, s := range nts {
 		op.cur = op.set.Symbol(s)
 		op.hasDirect = false
@@ -56,7 +58,9 @@ func (op *lrOp) safeAdd(prod *setsymbol.Production) {
 		return
 	}
 
-	for i := op.in.Productions(first).Iter(); i.Next(); {
+	// the productions of first in the output do not start with first, those in
+	// the input may.
+	for i := op.out.Productions(first).Iter(); i.Next(); {
 		newProd := op.set.Production()
 		for lead := i.Production.Iter(); lead.Next(); {
 			newProd.AddSymbols(lead.Symbol)
@@ -78,7 +82,11 @@ func (op *lrOp) getTail(prod *setsymbol.Production) *setsymbol.Production {
 }
 
 func (op *lrOp) removeDirectLeftRecursion() {
-	newSym := op.set.Str(op.cur.String() + "'")
+	name := op.cur.String() + "'"
+	for op.set.Has(name) {
+		name += "'"
+	}
+	newSym := op.set.Str(name)
 	nsIdx := newSym.Idx()
 	if nsIdx >= len(op.out.productions) || op.out.productions[nsIdx] == nil {
 		op.out.order = append(op.out.order, nsIdx)
@@ -92,9 +100,7 @@ func (op *lrOp) removeDirectLeftRecursion() {
 			prod.AddSymbols(newSym)
 			op.directAdd(op.cur, prod)
 		} else {
-			for prod.Symbols() > 0 && prod.Symbol(0).(*setsymbol.Symbol).Idx() == op.cur.Idx() {
-				prod = op.getTail(prod)
-			}
+			prod = op.getTail(prod)
 			if prod.Symbols() > 0 {
 				prod.AddSymbols(newSym)
 				op.directAdd(newSym, prod)
-- 
2.43.0


From f50b30c8103e898422ca56f9a4c42336856f72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:20 +0000
Subject: [PATCH 05/34] fix: tree.New panicked or returned a fragment on
 unbalanced or empty text

A closing brace too many, an unclosed brace and text without a node now return
ErrBadTreeString.
---
 tree/parsetree.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..8fd6edc 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -20,13 +20,17 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	root := &PN{}
+	cur := root
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
 		if len(line) != len(m[0]) {
 			return nil, ErrBadTreeString
 		}
 		if m[1] == "}" {
+			if cur == root {
+				return nil, ErrBadTreeString
+			}
 			cur = cur.P
 		}
 		if m[2] != "" {
@@ -42,6 +46,9 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
+	if cur != root || len(root.C) == 0 {
+		return nil, ErrBadTreeString
+	}
 	cur = cur.C[0]
 	cur.P = nil
 	return cur, nil
-- 
2.43.0


From 10d9e14f5154957981f7b54c932cf32f760ac1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 06/34] fix: tree.New did not read back every value that String
 writes

String quotes values as Go strings, but only \\, \n and \" were understood, so
tabs, control characters and invalid UTF-8 did not survive.
---
 tree/parsetree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 8fd6edc..4bebdb9 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -7,6 +7,7 @@ import (
 	"github.com/adamcolton/parlex/lexeme"
 	"github.com/adamcolton/parlex/symbol/stringsymbol"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -35,7 +36,10 @@ func New(str string) (*PN, error) {
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
-			val := handleSlash.Replace(m[3])
+			val, err := strconv.Unquote(`"` + m[3] + `"`)
+			if err != nil {
+				val = handleSlash.Replace(m[3])
+			}
 			ch := &PN{
 				Lexeme: lexeme.New(kind).Set(val),
 				P:      cur,
-- 
2.43.0


From 66e592026a9c6d6a8f3f347220e7ed2d6e489ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:23 +0000
Subject: [PATCH 07/34] fix: Parent of a root node was not nil

It was a nil *PN in a non-nil interface, so a walk to the root never saw nil.
---
 tree/parsetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 4bebdb9..e917d03 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -68,6 +68,9 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		return nil
+	}
 	return p.P
 }
 
-- 
2.43.0


From 4c4fc1746677930b274879e1e6429d78967c0a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 08/34] fix: tree.Clone lost the positions of the nodes

---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index e917d03..233c476 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -170,11 +170,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From b62082fbc554fa52c186bd1cff7bea3e2b316b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:26 +0000
Subject: [PATCH 09/34] fix: reductions left wrong parent links

Reduce returned a tree without parents, ReplaceWithChild made a node its own
parent and PromoteChildrenOf left the promoted nodes with the removed one.
---
 tree/node_reductions.go | 8 ++++++++
 tree/reducer.go         | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..baa23f0 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -10,7 +10,12 @@ func (p *PN) ReplaceWithChild(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	parent := p.P
 	*p = *(p.C[cIdx])
+	p.P = parent
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
@@ -117,6 +122,9 @@ func (p *PN) PromoteChildrenOf(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	for _, c := range p.C[cIdx].C {
+		c.P = p
+	}
 	if cIdx == l-1 {
 		p.C = append(p.C[:cIdx], p.C[cIdx].C...)
 	} else {
diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..01c96ba 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -74,6 +74,9 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 	}
 	for i := range cp.C {
 		cp.C[i] = r.RawReduce(node.Child(i))
+		if cp.C[i] != nil {
+			cp.C[i].P = cp
+		}
 	}
 
 	if reduction := r[cp.Kind().String()]; reduction != nil {
-- 
2.43.0


From 83ae0e6ecd38c5cc4326f43ce3e1da4291425d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 10/34] fix: PromoteChildValue removed a child for an index out
 of bounds

An index below -len was made relative to the end twice.
---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index baa23f0..e4bf9dd 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -94,14 +94,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From b7d618973874d1319e75aa2a00bd1f137f45a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 11/34] fix: regexgram dropped every production containing an
 empty group

An empty group matches nothing, it does not make the production disappear.
---
 grammar/regexgram/regexgram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 58a20b9..60cfd8c 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -292,7 +292,7 @@ func mergeRules(a, b rules) rules {
 
 func (rc ruleComb) reduce() rules {
 	if len(rc) == 0 {
-		return nil
+		return rules{rule{}}
 	}
 	ra := rc[0]
 	for _, rb := range rc[1:] {
-- 
2.43.0


From 3ce3a82d7221ef2aeef91bd15988730e1c6d4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:08 +0000
Subject: [PATCH 12/34] fix: regexgram merged different repetitions with the
 same generated name

(A B)* and (A_B)* both became (A_B)*, and the second one was lost.
---
 grammar/regexgram/regexgram.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/grammar/regexgram/regexgram.go b/grammar/regexgram/regexgram.go
index 60cfd8c..163a722 100644
--- a/grammar/regexgram/regexgram.go
+++ b/grammar/regexgram/regexgram.go
@@ -115,6 +115,7 @@ type evalOp struct {
 	nonterm   string
 	bludgeons map[string][]string
 	done      map[string]rules
+	defs      map[string]string
 }
 
 func evalGrammar(node *tree.PN) (*grammar.Grammar, tree.Reducer) {
@@ -124,6 +125,7 @@ func evalGrammar(node *tree.PN) (*grammar.Grammar, tree.Reducer) {
 		rdcr:      tree.Reducer{},
 		bludgeons: make(map[string][]string),
 		done:      make(map[string]rules),
+		defs:      make(map[string]string),
 	}
 	for _, c := range node.C {
 		if c.Kind().String() == "Production" {
@@ -193,6 +195,12 @@ func (op *evalOp) evalSymbol(node *tree.PN) rules {
 // And adds a rule to the reducer
 func (op *evalOp) addRepeatAsProduction(node *tree.PN) rules {
 	symName := op.getName(node)
+	// different repetitions can have the same name: (A B)* and (A_B)*
+	def := node.String()
+	for other, used := op.defs[symName]; used && other != def; other, used = op.defs[symName] {
+		symName += "'"
+	}
+	op.defs[symName] = def
 	op.bludgeons[op.nonterm] = append(op.bludgeons[op.nonterm], symName)
 	if rs, ok := op.done[symName]; ok {
 		return rs
-- 
2.43.0


From 8d9488b212e98ffb1139d608710187a65c84b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 13/34] fix: simplelexer ByPriority never matched anything

The initial priority -1 beats every rule, so each input became one error.
---
 lexer/simplelexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..2831f12 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -151,7 +151,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 	for kind, loc := range op.next {
 		if loc != nil && loc[0] == op.cur {
 			p := op.rules[kind].priority
-			if op.compare(loc[1], p, lxEnd, lxP) {
+			if loc[1] > op.cur && (lxP == -1 || op.compare(loc[1], p, lxEnd, lxP)) {
 				lx.K = op.set.ByIdx(kind)
 				lx.V = string(op.b[loc[0]:loc[1]])
 				lxEnd = loc[1]
-- 
2.43.0


From 9946adf578a613afac4d00e321d0a33239b45be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 14/34] fix: a lex error in simplelexer changed the lexer

The error kind was added to the symbols of the lexer, so a rule added afterwards
left a hole in the rules and the next Lex or String panicked. It was also a
write to shared state from Lex.
---
 lexer/simplelexer/lexer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 2831f12..2bc16b1 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -117,8 +117,7 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.String(op.Error).Set(val)
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
-- 
2.43.0


From 7226f26d88e33b00b6655b4cc9403b28207deaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:03 +0000
Subject: [PATCH 15/34] fix: wrong positions around lex errors in simplelexer

Error lexemes had no position, and newlines in skipped text were not counted for
the lexemes after it.
---
 lexer/simplelexer/lexer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 2bc16b1..63ce30f 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -65,7 +65,6 @@ type lexOp struct {
 	errFlag  bool
 	errStart int
 	cur      int
-	lines    int
 }
 
 // Lex takes a string and produces a slice of lexemes that can be consumed by a
@@ -117,7 +116,7 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	lxm := lexeme.String(op.Error).Set(val)
+	lxm := lexeme.String(op.Error).Set(val).At(op.pos(op.errStart))
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
@@ -159,10 +158,13 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 		}
 	}
 
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(lx.V, "\n")
+	lx.At(op.pos(op.cur))
 
 	return lx, lxEnd
 }
+
+// pos returns the line and column at an offset in the input
+func (op *lexOp) pos(at int) (int, int) {
+	before := string(op.b[:at])
+	return strings.Count(before, "\n"), at - strings.LastIndex(before, "\n")
+}
-- 
2.43.0


From ba7ac815bc0dd5db288992976b221250c9e92640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:38 +0000
Subject: [PATCH 16/34] fix: stacklexer.New never returned an error

Invalid regular expressions and cyclic inheritance were ignored, leaving a lexer
with missing rules.
---
 lexer/stacklexer/construct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..8311c25 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -122,7 +122,9 @@ func New(definitions ...string) (*StackLexer, error) {
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
 	}
 
 	return l, nil
-- 
2.43.0


From 15c5355bd780fc26b4219642d5e46f0cba0235a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:39 +0000
Subject: [PATCH 17/34] fix: inherited stacklexer rules lost their order

They were inherited by symbol number, which depends on the iteration order of a
map, instead of the order they are defined in.
---
 lexer/stacklexer/construct.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 8311c25..e7973b9 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -248,10 +248,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From 28cf5a1ef87250d88b5660311e2a26a42e390339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:40 +0000
Subject: [PATCH 18/34] fix: stacklexer did not choose the longest match

The ends of matches found from different starting points were compared without
their offsets, and empty matches could hide other rules.
---
 lexer/stacklexer/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..b79b91b 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -55,6 +55,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
@@ -113,7 +114,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 	for kind, loc := range op.next {
 		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
 			tr := op.rules[kind]
-			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
+			if tr != nil && loc[1] > loc[0] && (r == nil || op.compare(loc[1]+loc[len(loc)-1], tr.priority, idx[1]+idx[len(idx)-1], r.priority)) {
 				idx = loc
 				r = tr
 			}
-- 
2.43.0


From 7fffad1d6f8f012d3ec3149faf5eab34861a4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:41 +0000
Subject: [PATCH 19/34] fix: stacklexer panicked on a pop with an empty stack

---
 lexer/stacklexer/lex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index b79b91b..ab66ac0 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -88,6 +88,10 @@ func (op *lexOp) pop(i int) {
 	if ln < 0 {
 		ln = 0
 	}
+	if len(op.stack) == 0 {
+		op.updateNext()
+		return
+	}
 	op.subLexer = op.stack[ln]
 	op.stack = op.stack[:ln]
 	op.populateNext()
-- 
2.43.0


From c0b44db0cc5ddc064c87fdf597c76c36110329f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 20/34] fix: stacklexer panicked on a group that is not part of
 the match

---
 lexer/stacklexer/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index ab66ac0..77e8a58 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -136,7 +136,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
+			} else if idx[sub.section*2] != -1 { // -1: group is not part of the match
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-- 
2.43.0


From 09012b6a7d02d645ce165cde3babd1cb61d107c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:43 +0000
Subject: [PATCH 21/34] fix: wrong positions around lex errors in stacklexer

The column of an error containing a newline could be negative, and the lexeme
after it was placed on the wrong line.
---
 lexer/stacklexer/lex.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 77e8a58..f50ac4b 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -18,8 +18,7 @@ type lexOp struct {
 		start int
 		kind  *setsymbol.Symbol
 	}
-	cur   int
-	lines int
+	cur int
 }
 
 // Lex fulfills parlex.Lexer. It uses the StackLexer to lex a string
@@ -27,7 +26,6 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 	op := &lexOp{
 		subLexer: l.start,
 		b:        []byte(str),
-		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
 	op.err.kind = l.set.Str(op.Error)
@@ -140,20 +138,18 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
 			}
 		}
-		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
 	} else {
 		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
-		op.handleLineCol(lx, lx.V)
 	}
+	op.handleLineCol(lx, op.cur)
 
 	return lx, offset + idx[1], r
 }
 
-func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, str string) {
-	lx.L = op.lines
-	lx.C = strings.LastIndex(string(op.b[:op.cur]), "\n")
-	lx.C = op.cur - lx.C
-	op.lines += strings.Count(str, "\n")
+func (op *lexOp) handleLineCol(lx *lexeme.Lexeme, at int) {
+	before := string(op.b[:at])
+	lx.L = 1 + strings.Count(before, "\n")
+	lx.C = at - strings.LastIndex(before, "\n")
 }
 
 func (op *lexOp) checkError() {
@@ -163,8 +159,7 @@ func (op *lexOp) checkError() {
 	op.err.flag = false
 	val := string(op.b[op.err.start:op.cur])
 	lx := lexeme.New(op.err.kind).Set(val)
-	op.handleLineCol(lx, lx.V)
-	lx.C -= len(val)
+	op.handleLineCol(lx, op.err.start)
 	op.lxs = append(op.lxs, &errLexeme{lx})
 }
 
-- 
2.43.0


From 50d831b9e5b81787e0ba21140529aba8f7f77c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 22/34] fix: stacklexer.Lex wrote to the symbols shared by all
 calls

The error kind was added to the set on the first Lex, a data race when a lexer
is used from several goroutines.
---
 lexer/stacklexer/construct.go | 1 +
 lexer/stacklexer/lex.go       | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index e7973b9..8e22aaa 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -90,6 +90,7 @@ func New(definitions ...string) (*StackLexer, error) {
 		Error:   "Error",
 		compare: lengthThenPriority,
 	}
+	l.set.Str(l.Error)
 	subLexerDefs := make(map[string]string)
 	for _, definition := range definitions {
 		ms := subParserDef.FindAllStringSubmatchIndex(definition, -1)
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index f50ac4b..f85e331 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -3,7 +3,6 @@ package stacklexer
 import (
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
-	"github.com/adamcolton/parlex/symbol/setsymbol"
 	"strings"
 )
 
@@ -16,7 +15,7 @@ type lexOp struct {
 	err   struct {
 		flag  bool
 		start int
-		kind  *setsymbol.Symbol
+		kind  parlex.Symbol
 	}
 	cur int
 }
@@ -28,7 +27,11 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 		b:        []byte(str),
 		lxs:      make([]parlex.Lexeme, 0),
 	}
-	op.err.kind = l.set.Str(op.Error)
+	if l.set.Has(op.Error) {
+		op.err.kind = l.set.Str(op.Error)
+	} else {
+		op.err.kind = lexeme.String(op.Error).Kind()
+	}
 	if op.insert.startKind != "" {
 		op.lxs = append(op.lxs, lexeme.String(op.insert.startKind).Set(op.insert.startVal))
 	}
-- 
2.43.0


From 0210d86a78deba30737eaae63cff0d8f0c85d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 23/34] fix: literal strings in stacklexer groups kept their
 quotes

The readme's (1|":"|2) gave 123":"456, and a literal containing a digit was
taken for a group.
---
 lexer/stacklexer/construct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 8e22aaa..9994a27 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,7 +55,7 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var intRe = regexp.MustCompile(`^\d+$`)
 
 func parseSubmatches(str string) []submatch {
 	if str == "" {
@@ -68,6 +68,9 @@ func parseSubmatches(str string) []submatch {
 			sec, _ := strconv.Atoi(s)
 			ms[i] = submatch{section: sec}
 		} else {
+			if lit, err := strconv.Unquote(s); err == nil {
+				s = lit
+			}
 			ms[i] = submatch{section: -1, str: s}
 		}
 	}
-- 
2.43.0


From 89ba9eb0e00b94ac5e6761ad6243a14601e9c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 24/34] fix: stacklexer.New accepted definitions that make Lex
 panic

A push to a lexer that is not defined, a group the regular expression does not
have and a definition without any lexer now return an error.
---
 lexer/stacklexer/construct.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 9994a27..7da2a89 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -123,6 +123,10 @@ func New(definitions ...string) (*StackLexer, error) {
 		}
 	}
 
+	if l.start == nil {
+		return nil, errors.New("No Lexer Defined")
+	}
+
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
 	for _, sl := range l.lexers {
@@ -222,6 +226,14 @@ func (sl *subLexer) addMatch(m []string) error {
 		discard:    m[5] == "-",
 		submatches: parseSubmatches(m[3]),
 	}
+	for _, sub := range r.submatches {
+		if sub.section > re.NumSubexp() {
+			return fmt.Errorf("Undefined Group: %d in %s", sub.section, m[1])
+		}
+	}
+	if _, found := sl.lexers[push]; push != "" && !found {
+		return fmt.Errorf("Undefined Lexer: %s in %s", push, m[1])
+	}
 	sl.addRule(r)
 	return nil
 }
-- 
2.43.0


From 3be278a0e8ea9a4302a0f0997ca8c91ffc0087d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 25/34] fix: analyze computed wrong first sets

The first sets of mutually recursive non-terminals were incomplete, depending
on the order of the rules, and a symbol behind a non-terminal that only starts
with an empty production (but is never empty) was counted as a first.
---
 analyze/analysis.go | 70 +++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index 69dd846..e6c798a 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -13,7 +13,7 @@ type Analytics struct {
 	nilInFirst     []bool
 	Terminals      []bool
 	set            *setsymbol.Set
-	done           []bool
+	nilable        []bool
 }
 
 // Analyze a grammar. The grammar is embeded so the return value can be used as
@@ -35,12 +35,15 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		nonterm2firsts: make([][]int, ln),
 		nilInFirst:     make([]bool, ln),
 		Terminals:      make([]bool, ln),
-		done:           make([]bool, ln),
+		nilable:        make([]bool, ln),
 	}
 
-	// find firsts by populating nonterm2firsts
-	for _, symbol := range a.NonTerminals() {
-		a.firsts(a.set.Symbol(symbol))
+	// find firsts by populating nonterm2firsts, repeat until nothing is added
+	for changed := true; changed; {
+		changed = false
+		for _, symbol := range a.NonTerminals() {
+			changed = a.firsts(a.set.Symbol(symbol)) || changed
+		}
 	}
 
 	// populate first2nonterms from nonterm2firsts
@@ -59,37 +62,48 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 	return a
 }
 
-func (a *Analytics) firsts(s *setsymbol.Symbol) ([]int, bool) {
+// firsts updates what is known about s from what is known about the symbols in
+// it's productions. It returns true if something was added.
+func (a *Analytics) firsts(s *setsymbol.Symbol) bool {
 	sIdx := s.Idx()
-	if a.done[sIdx] {
-		return a.nonterm2firsts[sIdx], a.nilInFirst[sIdx]
+	changed := false
+	set := func(bs []bool) {
+		changed = changed || !bs[sIdx]
+		bs[sIdx] = true
 	}
-	a.done[sIdx] = true
-
-	var fs []int
-	nilInFirst := false
 	for i := a.Productions(s).Iter(); i.Next(); {
-		if i.Symbols() == 0 {
-			nilInFirst = true
-			continue
-		}
-		var firsts []int
-		for j, doNext := i.Iter(), true; j.Next() && doNext; {
+		isNil := true
+		for j := i.Iter(); isNil && j.Next(); {
 			symbol := a.set.Symbol(j.Symbol)
+			idx := symbol.Idx()
 			if a.Productions(symbol) == nil {
-				doNext = false
-				fs = append(fs, symbol.Idx())
-				a.Terminals[symbol.Idx()] = true
-			} else {
-				firsts, doNext = a.firsts(symbol)
-				nilInFirst = nilInFirst || doNext
-				fs = append(fs, firsts...)
+				a.Terminals[idx] = true
+				changed = a.addFirst(sIdx, idx) || changed
+			}
+			for _, first := range a.nonterm2firsts[idx] {
+				changed = a.addFirst(sIdx, first) || changed
+			}
+			if j.Idx == 0 && a.nilInFirst[idx] {
+				set(a.nilInFirst)
 			}
+			isNil = a.nilable[idx]
+		}
+		if isNil {
+			set(a.nilable)
+			set(a.nilInFirst)
+		}
+	}
+	return changed
+}
+
+func (a *Analytics) addFirst(nonterm, first int) bool {
+	for _, f := range a.nonterm2firsts[nonterm] {
+		if f == first {
+			return false
 		}
 	}
-	a.nonterm2firsts[sIdx] = fs
-	a.nilInFirst[sIdx] = nilInFirst
-	return fs, nilInFirst
+	a.nonterm2firsts[nonterm] = append(a.nonterm2firsts[nonterm], first)
+	return true
 }
 
 // Contains returns true if the grammar contains the symbol as either a terminal
-- 
2.43.0


From 85055e84cb16f0be5e172f21445a1846170ce853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:08 +0000
Subject: [PATCH 26/34] fix: analyze did not know all the symbols of a grammar

Contains and Terminals missed the terminals that are never first, Contains and
NonTerminal missed non-terminals that are always empty, and a terminal was not
it's own first if it was the first of anything else.
---
 analyze/analysis.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/analyze/analysis.go b/analyze/analysis.go
index e6c798a..08be7ef 100644
--- a/analyze/analysis.go
+++ b/analyze/analysis.go
@@ -38,6 +38,10 @@ func Analyze(grammar parlex.Grammar) *Analytics {
 		nilable:        make([]bool, ln),
 	}
 
+	for idx := range a.Terminals {
+		a.Terminals[idx] = a.Productions(set.ByIdx(idx)) == nil
+	}
+
 	// find firsts by populating nonterm2firsts, repeat until nothing is added
 	for changed := true; changed; {
 		changed = false
@@ -74,10 +78,8 @@ func (a *Analytics) firsts(s *setsymbol.Symbol) bool {
 	for i := a.Productions(s).Iter(); i.Next(); {
 		isNil := true
 		for j := i.Iter(); isNil && j.Next(); {
-			symbol := a.set.Symbol(j.Symbol)
-			idx := symbol.Idx()
-			if a.Productions(symbol) == nil {
-				a.Terminals[idx] = true
+			idx := a.set.Symbol(j.Symbol).Idx()
+			if a.Terminals[idx] {
 				changed = a.addFirst(sIdx, idx) || changed
 			}
 			for _, first := range a.nonterm2firsts[idx] {
@@ -109,12 +111,7 @@ func (a *Analytics) addFirst(nonterm, first int) bool {
 // Contains returns true if the grammar contains the symbol as either a terminal
 // or non-terminal.
 func (a *Analytics) Contains(symbol parlex.Symbol) bool {
-	s := a.set.HasSymbol(symbol)
-	if s == nil {
-		return false
-	}
-	idx := s.Idx()
-	return a.nonterm2firsts[idx] != nil || a.Terminals[idx]
+	return a.set.HasSymbol(symbol) != nil
 }
 
 // NonTerminal returns true if the symbol is a non-terminal in the grammar.
@@ -123,11 +120,7 @@ func (a *Analytics) NonTerminal(symbol parlex.Symbol) bool {
 	if s == nil {
 		return false
 	}
-	idx := s.Idx()
-	if idx >= len(a.nonterm2firsts) {
-		return false
-	}
-	return a.nonterm2firsts[idx] != nil
+	return !a.Terminals[s.Idx()]
 }
 
 // HasFirst returns true if first could be the first symbol in a tree with root
@@ -141,11 +134,11 @@ func (a *Analytics) HasFirst(symbol parlex.Symbol, first parlex.Symbol) bool {
 	if s == nil {
 		return false
 	}
-	nonterms := a.first2nonterms[f.Idx()]
-	if nonterms == nil {
-		return s.Idx() == f.Idx()
+	if s.Idx() == f.Idx() {
+		return true
 	}
-	return nonterms[s.Idx()]
+	nonterms := a.first2nonterms[f.Idx()]
+	return nonterms != nil && nonterms[s.Idx()]
 }
 
 // HasNilInFirst will return true if it possible to reach an empty production
-- 
2.43.0


From 2e6078a56d8f42dcdd3edc527621a8e0a894ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:44 +0000
Subject: [PATCH 27/34] fix: looking up productions changed the grammar

Grammar.Productions added a symbol it did not know to the symbols of the
grammar, so two lookups at the same time were a data race.
---
 grammar/grammar.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..298edcd 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -120,11 +120,11 @@ func Empty() *Grammar {
 // not a non-terminal in the Grammar, nil is returned. It is part of the
 // parlex.Grammer interface.
 func (g *Grammar) Productions(symbol parlex.Symbol) parlex.Productions {
-	idx := g.set.Symbol(symbol).Idx()
-	if idx >= len(g.productions) {
+	s := g.set.HasSymbol(symbol)
+	if s == nil || s.Idx() >= len(g.productions) {
 		return nil
 	}
-	p := g.productions[idx]
+	p := g.productions[s.Idx()]
 	if p == nil {
 		return nil
 	}
-- 
2.43.0


From cdc2c27b2674d1a1cfedd06635c3fca0026a6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:45 +0000
Subject: [PATCH 28/34] fix: setsymbol ByIdx returned a symbol for an index out
 of bounds

The symbol one past the end panicked when it was used.
---
 symbol/setsymbol/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..cad2381 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -25,7 +25,7 @@ func (s *Set) Size() int { return len(s.symb2str) }
 
 // ByIdx gets a symbol by index from the set
 func (s *Set) ByIdx(idx int) *Symbol {
-	if idx > len(s.symb2str) {
+	if idx < 0 || idx >= len(s.symb2str) {
 		return nil
 	}
 	return &Symbol{
-- 
2.43.0


From c7c0f801e0dbf035c9328112e709fb6d6ecbb0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 29/34] fix: productions taken from setsymbol.Productions
 shared their tails

Adding symbols to one of them overwrote the symbols added to another.
---
 symbol/setsymbol/set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index cad2381..4449cdd 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -261,8 +261,9 @@ func (p *Productions) Productions() int {
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
 	if i < len(p.prods) {
+		ln := len(p.prods[i])
 		return &Production{
-			symbs: p.prods[i],
+			symbs: p.prods[i][:ln:ln], // so that AddSymbols makes a copy
 			set:   p.set,
 		}
 	}
-- 
2.43.0


From 629e44db4eeeac52b891aa22b1c89f8439a827f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:04 +0000
Subject: [PATCH 30/34] fix: tree.New refuses a text with more than one root

All roots but the first were dropped silently.
---
 tree/parsetree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 233c476..876298c 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -50,7 +50,7 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	if cur != root || len(root.C) == 0 {
+	if cur != root || len(root.C) != 1 {
 		return nil, ErrBadTreeString
 	}
 	cur = cur.C[0]
-- 
2.43.0


From 1096796139e02e9d491605110a384e94fba98020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:12 +0000
Subject: [PATCH 31/34] fix: the reducer language refuses a fractional index

RemoveChild(1.5) was read as RemoveChild(0).
---
 tree/reducer/reducer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 2b61a0a..781a6c1 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -23,7 +23,7 @@ const lexerRules = `
   PromoteSingleChild
   ReplaceWithChild
   Nil
-  number  /-?\d*\.?\d+/
+  number  /-?\d+/
   rule    /(\w+)/
   string  /\"([^\"\\]|(\\.))*\"/
   lp      /\(/
-- 
2.43.0


From 2652e0140873813dcca73ef85062d3d90e455248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:14 +0000
Subject: [PATCH 32/34] fix: the reducer language reads escapes in strings

RemoveAll("\\"") named the kind \\" instead of ".
---
 tree/reducer/reducer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 781a6c1..5256dd6 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -145,9 +145,7 @@ func evalVarNumArgs(n *tree.PN) []int {
 func evalVarStrArgs(n *tree.PN) []string {
 	args := make([]string, len(n.C))
 	for i, n := range n.C {
-		v := n.Value()
-		v = v[1 : len(v)-1]
-		args[i] = v
+		args[i] = evalOneStrArg(n)
 	}
 	return args
 }
@@ -162,6 +160,9 @@ func evalOneNumArg(n *tree.PN) int {
 
 func evalOneStrArg(n *tree.PN) string {
 	v := n.Value()
+	if s, err := strconv.Unquote(v); err == nil {
+		return s
+	}
 	return v[1 : len(v)-1]
 }
 
-- 
2.43.0


From 5cdef5304b4e23a6901d004d395438bab04da378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:08 +0000
Subject: [PATCH 33/34] fix: packrat does not match a lexeme against the symbol
 being derived

update compared the lexeme at the start of a partly matched production with the
production's own non-terminal, not with the symbol it needs next. With a lexeme
of that kind ("S" for S -> N S, N -> ) the parser accepted it as a leaf, used it
in place of the next symbol or panicked in comparePriority. The symbol that is
needed next is looked up by addPartial.
---
 parser/packrat/packrat.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 622ae27..993ed34 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -166,14 +166,6 @@ func (u *updater) update(op *prOp) {
 		start: extended.end,
 	}
 
-	if td := op.checkNonTerminal(extended.treeMarker); td != nil {
-		(&updater{
-			base:      extended,
-			extension: td.treeKey,
-		}).update(op)
-		return
-	}
-
 	op.addPartial(extended, requires)
 }
 
-- 
2.43.0


From f55b93df1a681386855da97efc62952d0d3bc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:34 +0000
Subject: [PATCH 34/34] fix: stacklexer.New reports the first error of the
 definition, not a random one

---
 lexer/stacklexer/construct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 7da2a89..63ccf91 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -95,6 +95,7 @@ func New(definitions ...string) (*StackLexer, error) {
 	}
 	l.set.Str(l.Error)
 	subLexerDefs := make(map[string]string)
+	var names []string
 	for _, definition := range definitions {
 		ms := subParserDef.FindAllStringSubmatchIndex(definition, -1)
 		cur := struct {
@@ -114,6 +115,7 @@ func New(definitions ...string) (*StackLexer, error) {
 				name:       cur.name,
 			}
 			l.lexers[cur.name] = sl
+			names = append(names, cur.name)
 			if l.start == nil {
 				l.start = sl
 			}
@@ -129,8 +131,8 @@ func New(definitions ...string) (*StackLexer, error) {
 
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
-	for _, sl := range l.lexers {
-		if err := sl.parse(subLexerDefs, done, stack); err != nil {
+	for _, name := range names {
+		if err := l.lexers[name].parse(subLexerDefs, done, stack); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0

