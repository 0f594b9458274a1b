import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or [],"hook_needed":None}})
p("C01","Packrat accepts exactly the language of its grammar",
 "For every context free grammar (left recursive, ambiguous, cyclic and nullable ones included) and every list of lexemes, the packrat parser terminates, returns a parse tree if the start symbol derives exactly that list of kinds, and returns nil otherwise. The empty list is treated like any other input; a lexeme whose kind is unknown or a non-terminal matches nothing.",
 ["programs","inputs"],"every grammar x every lexeme list","The tests parse about a dozen hand-picked sentences of a handful of grammars; soundness and completeness quantify over all grammars and words, and the faults live in combinations of recursion, nullability and order of discovery.",
 ["parser/packrat/packrat.go","grammar/grammar.go","symbol/setsymbol/set.go"],[("worklist of partial trees and waiting markers","parser/packrat/packrat.go: addProds, update, addPartial, addToMemo")],["packrat.Parse"])
p("C02","A packrat tree is a real derivation of the given lexemes",
 "Whenever the packrat parser returns a tree, its root is the start symbol, every inner node with its children in order is one of the grammar's productions, and its leaves are the input lexemes in order with their kind, value and position; an inner node that has children has the position of its first child. Parent links are consistent, no node occurs twice, and the caller's lexemes are left untouched.",
 ["programs","inputs"],"every grammar x every accepted lexeme list","Tests compare a few trees by their text form, which shows neither positions nor parent links nor sharing.",
 ["parser/packrat/packrat.go","tree/parsetree.go"],[("tree construction from the memo","parser/packrat/packrat.go: toPN"),("circular dependency check","parser/packrat/packrat.go: createsCircularDep")],["packrat.Parse"])
p("C03","Packrat resolves ambiguity by production order",
 "When a grammar without cyclic derivations is ambiguous, the tree the packrat parser returns uses at every node the earliest listed production of that symbol that derives exactly the span of the node. For operator grammars (binary operators listed first, atoms, parentheses, prefix and postfix operators after them) the tree is the one with the earliest production choices in pre-order, so operators listed earlier bind looser and operators of one production associate to the left.",
 ["programs","inputs"],"every acyclic grammar x every ambiguous sentence","Tests look at two or three expression sentences; the order in which partial trees are found varies with every grammar and input.",
 ["parser/packrat/packrat.go"],[("priority comparison of alternative trees for one span","parser/packrat/packrat.go: addToMemo, comparePriority")],["packrat.Parse"])
p("C04","Left recursion is detected exactly",
 "For every grammar, IsLeftRecursive reports true exactly if some non-terminal can derive a string that begins with itself, directly, through other non-terminals or behind symbols that can derive the empty string; reachability from the start symbol does not matter. The topdown constructor returns the left recursion error exactly for those grammars.",
 ["programs"],"every grammar, in any implementation of the grammar interface","Tests list a dozen small grammars; nullable prefixes, chains and mutual recursion combine without bound.",
 ["leftrecursion.go","parser/topdown/topdown.go"],[("search over first symbols","leftrecursion.go: IsLeftRecursive, lrOp.check"),("constructor guard","parser/topdown/topdown.go: New")],["parlex.IsLeftRecursive","topdown.New"])
p("C05","Topdown is ordered-choice recursive descent over the whole input",
 "For every grammar it accepts and every lexeme list, the topdown parser terminates and returns exactly the tree of ordered choice: each symbol takes its first production that matches at its position, without reconsidering it later, except that the start symbol only accepts a production that consumes the whole input; nil if there is none. A returned tree is a derivation with the input lexemes as leaves, consistent parent links and no shared nodes.",
 ["programs","inputs"],"every non left recursive grammar x every lexeme list","Tests parse a few JSON-like inputs; memoised failure and success at every (symbol, position) pair must be right for all of them.",
 ["parser/topdown/topdown.go"],[("memoised ordered choice","parser/topdown/topdown.go: accept, tryAccept, acceptProd")],["topdown.Parse"])
p("C06","RemoveLeftRecursion preserves the language",
 "For every grammar whose non-terminals are all productive, RemoveLeftRecursion terminates and returns a grammar with the same start symbol that derives exactly the same strings, and does not change its argument. If the grammar has no empty production and no cyclic derivation, the result is not left recursive and a topdown parser can be built on it; for a list grammar (A -> A s1 | A s2 | ... | b1 | ..., the s and the b being terminals that differ in their first symbol) that parser accepts exactly the same strings.",
 ["programs","inputs"],"every grammar x every string","Tests compare the text of a few results with expected text; language equality quantifies over all strings.",
 ["grammar/left_recursion.go"],[("substitution of lower ordered symbols and removal of direct recursion","grammar/left_recursion.go: RemoveLeftRecursion, safeAdd, removeDirectLeftRecursion")],["grammar.RemoveLeftRecursion"])
p("C07","A grammar holds exactly the productions it was given, in order",
 "A grammar built from text or by adding productions one by one, in any mixture and with symbols and productions of any implementation, holds exactly those productions for exactly those non-terminals, in the order given, with the first non-terminal as start; looking up an unknown symbol gives nil and changes nothing. Its text form read back gives an equal grammar, and a line with more than one arrow is refused with the bad grammar error.",
 ["inputs","histories"],"every grammar text and every sequence of additions","Tests read back three or four grammars; order, continuation lines, empty productions, redefinition and later changes of the arguments combine freely.",
 ["grammar/grammar.go","symbol/setsymbol/set.go"],[("line reader and order list","grammar/grammar.go: New, productionFromLine, Add"),("text form","grammar/grammar.go: String")],["grammar.New","Grammar.Add","Grammar.Productions","Grammar.NonTerminals","Grammar.String"])
p("C08","A regex grammar generates exactly the language of its notation",
 "For every text in the regex grammar notation (optional ?, repetition *, alternatives |, groups, nesting), the grammar regexgram returns derives, for every user-defined symbol, exactly the strings that notation denotes; its productions are in the order of preference of the notation: alternatives as listed, an optional item before its absence, one more repetition before its end. Malformed text gives an error, never a panic and never a partial grammar.",
 ["programs","inputs"],"every notation text x every string","Tests check one sample grammar's text.",
 ["grammar/regexgram/regexgram.go"],[("expansion of alternatives and generated repetition symbols","grammar/regexgram/regexgram.go: evalProd, evalSymbol, addRepeatAsProduction, getName")],["regexgram.New"])
p("C09","The regex grammar's reducer removes every generated symbol",
 "For every regex grammar and every string it accepts, parsing it and applying the reducer that regexgram returned gives a tree whose inner nodes are user-defined symbols only, where the children of each node are a flat sequence matching that symbol's right hand side, and whose leaves are the input in order.",
 ["programs","inputs"],"every regex grammar x every accepted string","Tests look at one reduced tree; the number of repetitions and nesting of repetitions in repetitions is unbounded.",
 ["grammar/regexgram/regexgram.go","tree/reducer.go","tree/node_reductions.go"],[("reductions registered per generated symbol","grammar/regexgram/regexgram.go: addRepeatAsProduction")],["regexgram.New","tree.Reducer.Reduce"])
p("C10","The simple lexer partitions its input by its rules",
 "For every set of rules and every input, the simple lexer walks the input from start to end: at each point a rule's match is what its expression finds there, the longest non-empty match wins, ties going to the earlier rule (or, by priority, the earliest rule that matches), discarded rules produce nothing, and each maximal stretch that no rule matches becomes one error lexeme holding exactly that text. Nothing is lost, duplicated or reordered, inserted start and end lexemes are always there, and lexing always terminates.",
 ["programs","inputs"],"every rule set x mode x input","Tests lex six texts with fixed rules.",
 ["lexer/simplelexer/lexer.go","lexer/simplelexer/construct.go"],[("next match table and comparison","lexer/simplelexer/lexer.go: populateNext, updateNext, findNextMatch, checkError")],["simplelexer.New","Lexer.Lex"])
p("C11","The stack lexer obeys its stack of rule sets",
 "For every definition and input, the stack lexer chooses at each point among the rules of the current sub-lexer (longest match, or earliest rule in priority mode; inherited rules count at the place where they are inherited and never replace own rules), emits the text or the selected groups and literals of the match, and then pushes or pops as the rule says; a pushed sub-lexer with no match at the current point is popped, and popping more than was pushed leaves the first sub-lexer. Text the first sub-lexer cannot match becomes error lexemes, nothing else is lost, and invalid definitions are refused by the constructor, never by a panic while lexing.",
 ["programs","inputs"],"every definition x mode x input","Tests lex four texts.",
 ["lexer/stacklexer/lex.go","lexer/stacklexer/construct.go"],[("stack and per level match tables","lexer/stacklexer/lex.go: lex, pop, populateNext, updateNext"),("inheritance","lexer/stacklexer/construct.go: parse, addHeir, addRule")],["stacklexer.New","StackLexer.Lex"])
p("C12","Every lexeme carries its true line and column",
 "In the result of either lexer, the line and column of every lexeme and every error lexeme taken from the input are those of its first byte (byte columns from 1; lines from 0 in the simple and from 1 in the stack lexer), whatever was matched, discarded, unmatched or multi-line before it. The error lexemes identify exactly the text that no rule matches.",
 ["programs","inputs"],"every lexer x every input","Tests check positions in three texts, none with errors or multi-line matches before them.",
 ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go"],[("position bookkeeping","lexer/simplelexer/lexer.go: pos; lexer/stacklexer/lex.go: handleLineCol, checkError")],["Lexer.Lex","StackLexer.Lex"])
p("C13","A simple lexer and its definition text are equivalent",
 "Building a simple lexer from one text, from one text per rule, by adding the rules one by one, or from the text form of any of these gives lexers that behave identically on every input. A duplicate kind or an invalid expression is refused with an error.",
 ["programs","inputs"],"every rule list x every input","Tests compare the text form of two lexers.",
 ["lexer/simplelexer/construct.go"],[("rule reader and writer","lexer/simplelexer/construct.go: ruleFromLine, addRule, String")],["simplelexer.New","Lexer.Add","Lexer.String"])
p("C14","Tree text form round-trips",
 "For every tree whose kinds are plain words, writing it as text and reading that back gives an equal tree (kinds, values with any bytes, children in order, parent links). For every text, the reader returns either a tree with exactly the described structure or an error, and never panics: unbalanced text, no tree and more than one tree are errors.",
 ["inputs"],"every tree and every text","Tests read back four trees.",
 ["tree/parsetree.go"],[("line expression and cursor","tree/parsetree.go: New, reTreeLine, handleSlash"),("writer","tree/parsetree.go: String, string, sliceReq")],["tree.New","PN.String"])
p("C15","Tree reductions do exactly what they are documented to do",
 "For every tree, every node of it and every sequence of the node operations with any indices (negative counts from the end), the tree after each operation is the documented one: out of bounds indices and unmet conditions leave the node unchanged, in bounds ones move, remove or replace exactly the named children and keep the order of all others. Reported results are right, parent links always agree with children, and no node is lost or appears twice.",
 ["histories","inputs"],"every tree x every operation sequence","Tests apply each operation to one or two trees.",
 ["tree/node_reductions.go","tree/chain_reductions.go"],[("splicing of child slices","tree/node_reductions.go: RemoveChildren, PromoteChildrenOf, PromoteGrandChildren, PromoteChild, ReplaceWithChild"),("chaining","tree/chain_reductions.go: Chain, If")],["PN methods","Reduction values"])
p("C16","A reducer works bottom up on a copy",
 "For every tree and reducer, Reduce applies to each node of a copy, children before parents, the reduction registered for the node's kind and nothing else, and returns that copy with kinds, values and positions preserved; the input is unchanged and shares no node with the result. Clone is such a copy without any reduction. Merging two reducers behaves at every node as running the first's reduction and then the second's, and Can reports exactly whether there is one.",
 ["programs","inputs"],"every tree x every reducer","Tests reduce three trees.",
 ["tree/reducer.go","tree/chain_reductions.go"],[("copying recursion","tree/reducer.go: RawReduce"),("Merge","tree/reducer.go: Merge")],["Reducer.Reduce","Reducer.RawReduce","tree.Merge"])
p("C17","The reducer language means what it says",
 "For every program of the reducer language, parsing succeeds exactly if the program is well formed (any layout and comments), and the resulting reducer does to every tree exactly what the chain of named operations with the given arguments does, conditionals included; of several rules for one kind the last counts. Strings name kinds with any characters (escapes as in Go); malformed programs, fractional indices included, give an error, never a panic or a partial reducer.",
 ["programs","inputs"],"every program x every tree","Tests parse a dozen programs and check few effects.",
 ["tree/reducer/reducer.go"],[("evaluation of the parsed program","tree/reducer/reducer.go: Parse and the evaluation of chains, arguments and conditions")],["reducer.Parse","reducer.Must"])
p("C18","Grammar analysis computes exact first sets",
 "For every grammar whose non-terminals are all productive, the analysis reports a terminal as a possible first symbol of a symbol exactly if some derivation begins with it, an empty production among the firsts (HasNilInFirst) exactly if one can be reached through left most children only, and knows exactly the symbols of the grammar with their role. Unknown symbols are reported as unknown, and the grammar is not changed.",
 ["programs"],"every grammar x every pair of symbols","Tests query two grammars.",
 ["analyze/analysis.go"],[("fixpoint over first sets","analyze/analysis.go: Analyze, firsts")],["analyze.Analyze and its queries"])
p("C19","A run stops at the first failing stage and reports it",
 "For every lexer, parser and list of reducers, Run (and a Runner, any number of times) calls lexer, parser and then the reducers in order, each on the previous result, and returns the last result. If the lexer gives nil or any error lexeme, or the parser gives nil, or a reducer gives nil, it returns no tree and the error of exactly that stage (for lexing: the first error lexeme), and calls no later stage; absent reducers are skipped.",
 ["fault_sequences","inputs"],"every combination of stage results","Tests run one failing and one working pipeline.",
 ["parlex.go","helpers.go"],[("pipeline","parlex.go: Run, New, Runner.Run"),("lex errors","helpers.go: LexErrors")],["parlex.Run","Runner.Run"])
p("C20","Symbol sets and productions are stable values",
 "Through every history of operations, a symbol set gives each distinct name exactly one symbol and index, never changes a symbol handed out earlier, only grows when a new name is stored, and answers lookups by name, symbol (of any implementation) and index accordingly; out of range indices give nil. Productions and production lists hold exactly the symbols given, in order, casts between implementations keep them, iterators visit all of them once in order, and no operation on one production changes another that was handed out.",
 ["histories"],"every operation sequence","Tests call each operation once or twice.",
 ["symbol/setsymbol/set.go","symbol/stringsymbol/symbol.go","helpers.go"],[("interning maps","symbol/setsymbol/set.go: Str, Symbol, HasSymbol, ByIdx"),("iterators","helpers.go: ProductionIterator, ProductionsIterator")],["setsymbol.Set","setsymbol.Production","stringsymbol casts"])
p("C21","Components keep no memory of earlier calls",
 "For every history of calls on one lexer, parser, grammar, analysis, reducer, runner or package level constructor, each call returns what it would return on a fresh component that was configured the same way (rules, productions, modes), including after calls that failed. Results already returned never change later, and a caller that overwrites the lexemes or trees it was given does not affect later calls.",
 ["histories"],"every sequence of calls on one instance","Tests build a fresh component for nearly every call.",
 ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","parser/packrat/packrat.go","parser/topdown/topdown.go","tree/reducer.go","grammar/grammar.go","grammar/regexgram/regexgram.go","tree/reducer/reducer.go"],[("all working state is in per call values","lexOp, prOp, tdOp, evalOp")],["all entry points"])
p("C22","Components can be used from several goroutines at once",
 "Two goroutines that use one lexer, parser, grammar, analysis, reducer or runner at the same time (or the package level constructors and example evaluators, which share package level components) never have a data race, and each gets the result it would get alone, under every schedule. Configuring calls (adding rules or productions, changing modes) are excluded.",
 ["schedules"],"every interleaving of two operations","No test is concurrent.",
 ["lexer/simplelexer/lexer.go","lexer/stacklexer/lex.go","parser/packrat/packrat.go","parser/topdown/topdown.go","tree/reducer.go","grammar/grammar.go","symbol/setsymbol/set.go"],[("operations only read the shared component","lexOp, prOp, tdOp hold all working state; grammar.go: Productions")],["all entry points"])
p("C23","The JSON example formats exactly the JSON documents it defines",
 "For every text built from its token language (unsigned numbers, strings, booleans, null, arrays, objects, white space), Format succeeds exactly if the text is one JSON value, its output is JSON with the same tokens in the same order, and formatting the output again gives the same output; every other text gives an error and an empty string.",
 ["inputs"],"every text over the example's tokens","Tests format one document.",
 ["examples/parlexjson/json.go"],[("grammar, reducer and printer","examples/parlexjson/json.go")],["parlexjson.Format"])
p("C24","The math example evaluates with the usual precedence",
 "For every token sequence over numbers (optionally signed), the four operators and parentheses, Eval returns an error exactly if the sequence is not an expression, and otherwise the value with * and / binding tighter than + and -, operators of equal precedence associating to the left, and parentheses overriding.",
 ["inputs"],"every token sequence","Tests evaluate a handful of expressions.",
 ["examples/parlexmath/math.go"],[("grammar, reducer and evaluation","examples/parlexmath/math.go")],["parlexmath.Eval"])
p("C25","The stack calculator example runs RPN programs",
 "For every sequence of numbers, unary and binary operators in postfix order, optionally ended by a whole-stack operator (len, sum, avg, min, max, first, last), Eval returns the values a postfix machine leaves on its stack, each with the largest precision of the operands it came from, and nothing if an operator lacks operands. Parentheses, the ternary operator and stack manipulation are excluded.",
 ["inputs"],"every token sequence of the supported operators","Tests evaluate a few programs.",
 ["examples/scalc/scalc.go"],[("grammar, reducer and operator table","examples/scalc")],["scalc.Eval"])
p("C26","Behaviour does not depend on how symbols are represented",
 "For every grammar and lexeme list, both parsers, left recursion detection and removal, and the analysis give the same result whichever implementation of grammar, production and symbol they are given (set symbols of the grammar's own set, of an unrelated set with other indices, string symbols or a foreign implementation), because only a symbol's text identifies it.",
 ["programs","inputs","configurations"],"every grammar x lexeme list x combination of implementations","Tests use one implementation at a time.",
 ["symbol/setsymbol/set.go","parser/packrat/packrat.go","parser/topdown/topdown.go","leftrecursion.go","grammar/grammar.go"],[("conversion of foreign symbols by text","symbol/setsymbol/set.go: Symbol, HasSymbol, CastProduction, LoadGrammar, LoadLexemes")],["Parse","IsLeftRecursive","RemoveLeftRecursion","Analyze"])
p("C27","Lexemes are faithful values and print faithfully",
 "Through every history of creating, setting, positioning and copying lexemes, each keeps exactly the kind, value and position last given to it, independently of all others; its text form, LexemeString and LexemeList show kind, value and position of every lexeme in order. LexErrors returns exactly the error lexemes, in order, and the text of a lexer's error names the line, the column and the text of the error.",
 ["histories","inputs"],"every history of lexeme operations, every list of lexemes","Tests print two lexemes.",
 ["lexeme/lexeme.go","helpers.go","lexer/simplelexer/lexer.go","lexer/stacklexer/construct.go"],[("lexeme record","lexeme/lexeme.go: New, String, Set, At, Copy"),("list forms and error filter","helpers.go: LexemeString, LexemeList, LexErrors"),("error text","errLexeme.Error in both lexers")],["lexeme.New","lexeme.Copy","parlex.LexemeString","parlex.LexemeList","parlex.LexErrors"])
p("C28","A constructor gives a usable component or an error, never both",
 "For every definition text, each constructor (simplelexer.New, stacklexer.New, grammar.New, regexgram.New, tree.New, reducer.Parse, topdown.New, packrat.New and packrat.Constructor) returns either a usable component and no error, or an error and no component, and the same one each time it is called. Its Must form, or parlex.MustLexer, MustParser or MustGrammar around it, gives a component that behaves the same exactly if the constructor succeeds, and otherwise panics with the constructor's error.",
 ["programs","inputs"],"every definition text of every constructor","Tests call the Must forms with correct definitions only, and few constructors with incorrect ones.",
 ["helpers.go","lexer/simplelexer/construct.go","lexer/stacklexer/construct.go","grammar/grammar.go","grammar/regexgram/regexgram.go","tree/parsetree.go","tree/reducer/reducer.go","parser/topdown/topdown.go","parser/packrat/packrat.go"],[("Must forms","helpers.go: MustLexer, MustParser, MustGrammar; stacklexer.Must; regexgram.Must; reducer.Must"),("error returns","New and Parse of each package")],["New","Parse","Must","MustLexer","MustParser","MustGrammar"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
