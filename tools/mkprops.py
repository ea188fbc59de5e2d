#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as the editable source of the property list).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Ordered choice commits to the first alternative that matches",
 "An alternation (`a | b | c`, or a vertical rank of rules) tries its alternatives in declared order, every one of them at the position where the alternation started, and yields the result and end position of the first that matches; later alternatives are then not evaluated. It fails exactly when every alternative fails, and in that case the position is the starting one.",
 ["inputs","programs"],"all grammars (number and behaviour of alternatives), all input texts and start positions",
 "Tests try a few two- or three-way alternations on short texts; the guarantee quantifies over every list of alternatives and every way an alternative may leave the cursor when it fails.",
 ["parser_choice.go","parser_rank.go"],[("choice loop","parser_choice.go (*choice).parse"),("rank loop","parser_rank.go (*rank).parse")],
 observe=["Grammar.ParseString","Grammar.ParseTokens"])
p("C02","A sequence matches its elements in order and contiguously",
 "A sequence succeeds exactly when each of its elements succeeds in declared order, each one started where the previous one ended, and it then ends where its last element ended. As soon as one element fails the whole sequence fails and no later element is evaluated.",
 ["inputs","programs"],"all sequences (length, labels, captures), all texts and positions",
 "Tests run fixed grammars on fixed strings; nothing checks for every sequence shape (single value, array, labelled) that elements are evaluated once, in order and contiguously.",
 ["parser_sequence.go"],[("three evaluation loops","parser_sequence.go parseAsSingle/parseAsArray/parseAsObject")],
 observe=["Grammar.ParseString"])
p("C03","A sequence's result has the documented shape",
 "A sequence with labelled elements yields a map holding, for each label, the result of the element carrying it (the map results of elements labelled `&` or `@` are merged into that map, without changing the merged result itself; a label directly inside an optional element counts as that element's); without labels it yields an array of the results of exactly the capturing elements, in order, when more than one result is captured inside it (nested sequences counted), and otherwise the bare result of its last capturing element (or the undefined value if none captures). Literals inside a sequence, lookaheads and references to names beginning with an underscore do not capture.",
 ["inputs","programs"],"all sequences: any mix of labels, capturing and non-capturing elements, any number of elements",
 "The shape depends on the combination of labels and captures of arbitrarily many nested elements; the tests see a handful of rule bodies.",
 ["parser_sequence.go","rule.go","parser_existential.go","parser_ref.go","parser_str.go","parser_lookahead.go","parser_not.go"],
 [("type selection","parser_sequence.go calculateType/calculateLabels/calculateCaptures"),("result assembly","parser_sequence.go parseAs*"),("label merge","parser_sequence.go merge")],
 observe=["Grammar.ParseString result"])
p("C04","Repetition respects its bounds, its join and greediness",
 "`e*`, `e+`, `e{m,n}` and their joined forms `e*j`, `e+j`, `e*j{m,n}` yield an array of the results of n consecutive matches of e separated (when there is a join) by exactly one match of j, where n is the largest achievable count not exceeding the maximum (an unbounded repetition ends at the first match that consumes nothing); the position afterwards is the end of the last counted match, so a separator that is not followed by another match of e is not consumed. If fewer matches than the minimum are available the repetition fails, leaving the position where it started; otherwise it never fails.",
 ["inputs","programs"],"all values of min and max including 0 and 1 and absent, all element and join parsers, all texts",
 "Tests cover a few (min,max) pairs and short texts; boundary counts such as a maximum of 0 or 1, or failing joins at each iteration, are unbounded families.",
 ["parser_pattern.go"],[("repetition loop","parser_pattern.go (*pattern).parse"),("bounds decoding","parser_pattern.go newPattern")],
 observe=["Grammar.ParseString"])
p("C05","Repetition always terminates",
 "A repetition whose element (and separator, if any) can match the empty string stops after finitely many steps instead of looping forever, for every grammar and text.",
 ["inputs","programs"],"all element/join parsers that terminate themselves, including ones that succeed without consuming",
 "Termination is a statement about all executions; a test can only time out on an example.",
 ["parser_pattern.go"],[("progress check","parser_pattern.go (*pattern).parse loop")],observe=["Grammar.ParseString returns"])
p("C06","Lookaheads never consume input",
 "`?e` (or `(?e)`) succeeds exactly when e matches at the current position and `!e` succeeds exactly when it does not; whatever the outcome, the position after either is the position before it. A successful negative lookahead yields the undefined value.",
 ["inputs","programs"],"all inner parsers (however far they advance, succeed or fail) and positions",
 "One lookahead test with one literal exists and no negative lookahead one; the restore must hold for any inner parser.",
 ["parser_lookahead.go","parser_not.go"],[("restore","parser_lookahead.go (*lookahead).parse"),("restore and invert","parser_not.go (*not).parse")],
 observe=["Grammar.ParseString"])
p("C07","An optional element always succeeds",
 "`e?` never fails: it yields e's result and end position when e matches, and otherwise the undefined value with the position unchanged.",
 ["inputs","programs"],"all inner parsers and positions",
 "Tests exercise optional elements only incidentally through the bootstrap grammar.",
 ["parser_existential.go"],[("restore","parser_existential.go (*existential).parse")],observe=["Grammar.ParseString"])
p("C08","Literals and regular expressions match exactly and only at the cursor",
 "A string literal matches if and only if the text at the current position starts with exactly that string, byte for byte, and a regular expression or character class if and only if it matches starting right at the current position (never further on). On success the result is exactly the text consumed and the position advances by exactly its length; on failure nothing moves.",
 ["inputs","programs"],"all literals, regular expressions, texts and positions (including end of text), for plain and for tokenized text",
 "Tests match few literals at few positions; partial matches at the end of the text, regexes matching later or matching empty are input families.",
 ["parser_str.go","parser_regex.go","codestream_rune.go","codestream_token.go"],
 [("literal match","codestream_rune.go MatchString, codestream_token.go MatchString"),("anchored regexp","codestream_rune.go MatchRegexp, codestream_token.go MatchRegexp"),("parsers","parser_str.go parse, parser_regex.go parse")],
 observe=["Grammar.ParseString","CodeStream.MatchString","CodeStream.MatchRegexp"])
p("C09","A rule is evaluated at most once per position and its result is reused",
 "Within one parse, a rule that is not involved in left recursion is evaluated (and its callback run) at most once at any given position of the text unless its caching was switched off; a later request for it at that position yields the identical result, success or failure, and moves the cursor to the same end position without evaluating it again. Caching never leaks from one position or one rule to another.",
 ["inputs","programs","histories"],"all grammars, texts and orders in which alternatives revisit a rule",
 "Memoisation is about the whole history of rule requests in a parse; tests only look at final results.",
 ["packrat.go","parsectx.go"],[("memo table","packrat.go loopify, frame.cacheSet"),("table lookup","parsectx.go getFrame"),("dispatch","packrat.go wrap")],
 state=[("frames","memo frame per position and rule id","parsectx.go ParseContext.frames"),("frame.endpos","-1 or end of the cached match","packrat.go frame")],
 observe=["callback invocation counts","Grammar.ParseString"])
p("C10","Left recursion grows to the longest match and stops",
 "A directly left-recursive rule yields the last of a series of results obtained by re-evaluating the rule with its own previous result as the recursive operand, where every kept result ends strictly further in the text than the one before and the series stops at the first attempt that fails or does not advance. The rule's result and the position afterwards are those of the longest kept attempt, and a recursion with no non-recursive base simply fails.",
 ["inputs","programs"],"all left-recursive rules (any operators, operands, interleaved alternatives) and all texts",
 "The number of growth iterations is unbounded in the text; the tests see two or three operators.",
 ["packrat.go","parsectx.go"],[("growth loop","packrat.go loopify"),("wipe and restore","parsectx.go wipeWith/restoreWith")],
 state=[("loopstage","recursion state of a memo frame","packrat.go frame"),("wipemask","rules to re-evaluate between growth steps","packrat.go frame")],
 observe=["Grammar.ParseString"])
p("C11","A parse accepts the whole text or reports an error",
 "Parsing a text or a token stream yields a parse error if and only if the grammar's entry rules stopped before the end of the text; otherwise it yields exactly the entry rule's result. The error's reported offset lies between the position where matching stopped and the end of the text, and its reported line and column are those of that offset.",
 ["inputs","programs"],"all grammars and texts",
 "Tests check a few accepted and a few rejected texts; acceptance of a proper prefix or a wrong coordinate is an input-dependent fault.",
 ["grammar.go","parseerror.go"],[("end check and error","grammar.go (*Grammar).parse"),("entry points","grammar.go ParseString/ParseTokens")],
 observe=["Grammar.ParseString","Grammar.ParseTokens","IsParseError"])
p("C12","Plain-text offsets map to the right line and column",
 "For every text and every offset in it (end included), the line reported is the number of newline characters before that offset and the column is the distance in bytes from the start of that line. Both are computed from the text alone and never change as the cursor moves.",
 ["inputs"],"all texts (empty, without newline, ending in newline, non-ASCII) and all offsets",
 "Tests check three offsets in two texts.",
 ["codestream_rune.go","helpers/bisect.go"],[("line table","codestream_rune.go NewRuneStream"),("bisection","helpers/bisect.go BisectRight, codestream_rune.go PosToLine/PosToCol")],
 state=[("lineStarts","sorted offsets of line starts","codestream_rune.go RuneStream")],observe=["CodeStream.PosToLine","CodeStream.PosToCol","CodeStream.Line","CodeStream.Col"])
p("C13","Token-stream offsets map back to the original text",
 "In a token stream, every offset of the work text that lies inside a token maps to the original offset of that token plus the distance from the token's start, and the line and column reported for it are those of that offset in the original text. Offsets at the end of the stream map through the last token in the same way. Token lists are understood to be contiguous in the work text.",
 ["inputs"],"all token lists whose work offsets are contiguous, all originals, all offsets",
 "Tests map a handful of offsets of one sample source, none in the last token.",
 ["codestream_token.go","helpers/bisect.go"],[("coordinate search","codestream_token.go coords"),("line and column","codestream_token.go PosToLine/PosToCol"),("construction","codestream_token.go NewTokenStream")],
 state=[("tokens","tokens with original and work offsets","codestream_token.go TokenStream")],observe=["TokenStream.PosToLine","TokenStream.PosToCol"])
p("C14","The cursor stays in bounds and moves only on a match",
 "Setting the position outside the range from zero to the length of the text panics and leaves the cursor alone, and any other value becomes the position. A matching operation that fails leaves the cursor unchanged, one that succeeds advances it by exactly the length of what it matched, matching a single rune consumes exactly the one rune at the cursor when the predicate accepts it (and fails at end of text), and peeking or reading coordinates never moves it.",
 ["inputs","histories"],"all texts, positions, predicates and sequences of stream operations",
 "Tests drive the streams along a few scripted paths.",
 ["codestream_rune.go","codestream_token.go"],[("SetPos","codestream_rune.go, codestream_token.go"),("MatchString/MatchRegexp/MatchRune/GetUntil","codestream_rune.go, codestream_token.go")],
 state=[("pos","byte offset of the cursor","codestream_rune.go RuneStream.pos, codestream_token.go TokenStream.workOffset")],observe=["CodeStream methods"])
p("C15","Peeking returns exactly the requested runes or lines",
 "On valid UTF-8 text, peeking n runes forward yields the next n runes (or all that remain) and peeking n runes backward the previous n (or all there are), in natural order. Peeking lines yields exactly the lines of the original text from the least to the greatest of the requested relative lines (0 being included when a single number is given), clipped to the lines that exist and without a final newline when a further line follows; reading until a marker yields the text up to and including its first occurrence, or the rest of the text when it does not occur.",
 ["inputs"],"all texts, cursor positions and requested counts or ranges, for plain and tokenized text",
 "Tests check about ten calls on one three-line text.",
 ["codestream_rune.go","codestream_token.go","helpers/helpers.go"],[("PeekRunes","codestream_rune.go, codestream_token.go"),("PeekLines","codestream_rune.go, codestream_token.go"),("GetUntil","codestream_rune.go, codestream_token.go"),("LastNRunes","helpers/helpers.go")],
 observe=["CodeStream.PeekRunes","CodeStream.PeekLines","CodeStream.GetUntil"])
p("C16","Rule callbacks run exactly on success and decide the result",
 "When a rule with a callback matches, its callback is called exactly once for that evaluation with the rule's own match (and the current parse context), and what it returns becomes the rule's result; returning nil makes the rule fail like any other non-match. A callback never runs for an evaluation that did not match.",
 ["inputs","programs"],"all rules with callbacks (three signatures), all texts",
 "Tests define callbacks for known inputs; they do not count calls nor check rejected matches in arbitrary contexts.",
 ["packrat.go","line.go"],[("prepareResult","packrat.go"),("signature adaptation","line.go lineInit")],observe=["user callbacks","Grammar.ParseString"])
p("C17","Tracing never changes what is parsed",
 "For every combination of trace options (stack, loop, grammar, line filter, per-rule or per-parse debug and log suppression) a parse yields the same result, the same error and the same callback history as with tracing off, and never panics because of tracing.",
 ["inputs","configurations"],"all trace configurations, grammars and texts (including text that is not valid UTF-8)",
 "Tests run with one trace configuration, so a fault that only shows when tracing is on is not reached.",
 ["packrat.go","parsectx.go","grammar.go","traceoptions.go","parseoption.go"],[("guarded logging","packrat.go loopify, parsectx.go log/String"),("loop stack","parsectx.go loopStackPush/loopStackPop"),("temporary stack trace","grammar.go parse")],
 observe=["Grammar.ParseString under TraceOptions"])
p("C18","Parses with the same grammar are independent",
 "The outcome of a parse depends only on the grammar and the text: earlier parses with the same grammar, whether they succeeded, failed or were aborted by a panicking callback, and the number of times it is repeated, do not change it. The grammar's own options are the same after a parse, even an aborted one, as before.",
 ["histories","inputs"],"all histories of parses on one grammar object",
 "Tests build a grammar and use it on a few texts in one order.",
 ["grammar.go","parsectx.go","packrat.go"],[("fresh context per parse","grammar.go ParseString/ParseTokens, parsectx.go newParseContext"),("option restore","grammar.go parse")],
 observe=["Grammar.ParseString repeated"])
p("C19","A native map keeps last values, first-insertion order and exact membership",
 "After any series of assignments a native map returns for each key the value last assigned to it, reports as present exactly the keys ever assigned, is empty exactly when none was, and lists its keys without duplicates in order of first assignment (alphabetical for keys present at construction). A key counts as undefined exactly when it is absent or holds the undefined value, and looking for the first existing of several keys honours the order given.",
 ["inputs","histories"],"all histories of Set on a map and all keys",
 "The only map test sets two keys.",
 ["native_map.go","helpers/sort.go"],[("Set and key order","native_map.go Set"),("lookups","native_map.go Get/GetExists/GetOrPanic/GetWhicheverOrPanic/Exists/IsUndefined/IsEmpty")],
 state=[("keys","insertion order of keys","native_map.go NativeMap"),("vals","values by key","native_map.go NativeMap")],observe=["NativeMap methods"])
p("C20","Native values convert without losing or inventing text",
 "Concatenating a native array or map yields the text of its elements in order (key order for maps), nested ones included and undefined elements contributing nothing; converting to an integer yields the decimal value of that text and panics when it is not one. Booleans and integers convert both ways as zero and non-zero.",
 ["inputs"],"all nested arrays, maps, strings and integers",
 "No test covers nested or mixed contents.",
 ["native_array.go","native_map.go","native_int.go","native_string.go","native_undefined.go"],[("Concat","native_array.go, native_map.go"),("conversions","native_int.go, native_string.go, native_map.go GetIntExists/GetStringExists")],
 observe=["NativeArray.Concat","NativeIntFrom","NativeStringFrom"])
p("C21","Search, slicing and padding helpers meet their definitions",
 "Bisection on a sorted list returns the insertion point after (or before) all equal elements and sorted insertion keeps the list sorted with exactly one element added. Slicing follows JavaScript's slice for all integer bounds, taking the last n runes returns the longest suffix of at most n runes for any byte string, and padding appends or prepends exactly the missing spaces.",
 ["inputs"],"all lists, strings and integers, including negative and out-of-range ones and invalid UTF-8",
 "Tests cover one word and one list.",
 ["helpers/helpers.go","helpers/bisect.go"],[("SliceString, LastNRunes, Pad, Min/Max","helpers/helpers.go"),("bisection","helpers/bisect.go")],observe=["helpers package"])
p("C22","Compilation gives every rule one identity and resolves names to it",
 "After a grammar is built from rule lines with distinct names, every named rule, nested or not, is reachable by reference from anywhere in the grammar, rules are numbered 0 to count-1 without gaps or duplicates, and only `o` rules take part in the alternation of their rank, in declared order. The compiled rules accept exactly what their rule bodies denote, whether a body was written as a string or as a list of rules.",
 ["programs"],"all rule trees: nesting, naming, mixes of o and i lines, one-alternative choices",
 "Tests compile a dozen grammars; the rule tree shapes are unbounded.",
 ["grammar.go","line.go","line_o.go","line_i.go","parser_rank.go","walk.go","rule.go"],[("rankFromLines","parser_rank.go"),("getRule","line.go"),("postinit","grammar.go"),("walk","walk.go")],
 observe=["GrammarFromLines","Grammar.CountRules"])
p("C23","A parsed node's origin is the span its rule matched",
 "A result that carries source attributes and was produced by a rule's callback records as its origin the start and end offsets of the text that rule matched, the text itself, and the line of the end position (a rule that passes on another rule's result unchanged restamps it with its own span); recorded attributes are returned unchanged when read back.",
 ["inputs","programs"],"all rules, callbacks and texts",
 "Tests print origins in a few cases only.",
 ["packrat.go","attr.go"],[("SetOrigin in prepareResult","packrat.go"),("SetOrigin/GetOrigin","attr.go")],observe=["Ast.GetOrigin"])
p("C24","Lazy values are computed at most once",
 "A lazily computed value is computed by its function at most once, on the first read, and every later read yields that same value until it is explicitly set or cleared; a value set explicitly is returned without calling the function.",
 ["histories"],"all histories of Set/SetLazy/Get/Clear",
 "Tests check one read after one set.",
 ["helpers/lazy.go"],[("Lazy.Get","helpers/lazy.go")],observe=["helpers.Lazy"])
p("C25","Tokenizing Go source reports errors and exact token offsets",
 "Tokenizing Go source without lexical errors yields tokens whose work offsets are contiguous from zero and whose original offsets point at the token in the source, in increasing order; source with lexical errors yields an error and no stream. Earlier calls never influence later ones.",
 ["inputs","histories"],"all source texts and call histories",
 "Tests tokenize one well-formed sample.",
 ["codestream_token.go"],[("scan loop","codestream_token.go TokenStreamFromGoCode"),("error handler","codestream_token.go handleErrors")],observe=["TokenStreamFromGoCode"])
p("C26","The example Lisp machine evaluates its operators as documented",
 "In the example Lisp, `+` and `*` fold all arguments from 0 and 1, `-` subtracts every later argument from the first, chained comparisons are true exactly when every neighbouring pair satisfies the relation, `and`/`or` are the short-circuit conjunction and disjunction, `not` negates, and `if`/`cond` evaluate only the branch of the first true predicate.",
 ["inputs"],"all argument lists",
 "Tests evaluate fixed expressions with few arguments.",
 ["examples/lisp-repl/machine_primitives.go","examples/lisp-repl/machine_internal.go","examples/lisp-repl/machine.go"],[("primitives","examples/lisp-repl/machine_primitives.go"),("comparison","examples/lisp-repl/machine_internal.go cmpNum")],observe=["Machine.Eval"])
p("C27","Nesting depth is not limited by a fixed internal table",
 "A grammar that accepts nested constructs accepts them at every nesting depth memory allows; deep nesting never makes a parse panic or give a different verdict than shallow nesting of the same form.",
 ["inputs"],"all nesting depths",
 "Tests nest a few levels.",
 ["parsectx.go","packrat.go"],[("rule stack","parsectx.go stackPush/stackPop/stackPeek")],state=[("stack","stack of active rule frames","parsectx.go ParseContext")],observe=["Grammar.ParseString"])
p("C28","Walking and mapping a rule tree visits every node once, in order",
 "Walking a grammar tree calls the pre-visit on a node before any of its children and the post-visit after all of them, each occurrence in the tree exactly once, children in declared order (rules before operands); a pre-visit that asks to stop skips that subtree. Mapping over the children replaces each child by the returned one, drops those mapped to nil, and keeps the order.",
 ["programs"],"all trees and mapping functions",
 "No test walks a tree directly.",
 ["walk.go"],[("Walk","walk.go"),("ForEachChild helpers","walk.go")],observe=["Walk","ForEachChild_Array","ForEachChildInRules"])
p("C29","One grammar can be used by several goroutines at once",
 "Concurrent parses with one shared grammar give the results they would give one after another.",
 ["schedules"],"all interleavings of parses on a shared grammar",
 "Tests are single-threaded.",
 ["grammar.go","helpers/lazy.go"],[("none","grammar.go parse writes gm.TraceOptions; lazies are unsynchronised")],observe=["Grammar.ParseString"])
p("C30","The self-hosted joeson grammar equals the hand-compiled one",
 "The grammar compiled from the self-description of the rule language accepts the same rule bodies and builds the same parsers as the hand-compiled grammar.",
 ["programs","inputs"],"all rule bodies",
 "The bootstrap test compares the two on one grammar.",
 ["joeson_handcompiled.go","joeson_intention.go"],[("two rule lists","joeson_handcompiled.go JoesonRules, joeson_intention.go IntentionRules")],observe=["GrammarFromLines with LazyGrammar"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
