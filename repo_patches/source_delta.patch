From af2cca643007e205b93ae47b6d597445fe3772a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 01/16] fix: pattern: a maximum of 0 or 1 was exceeded

e{,1} matched up to 2 times and e{0,0} matched as often as it could,
because the maximum was first compared after the second match.
---
 parser_pattern.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..a086947 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,12 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +102,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +119,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From 70ee0cb54c4ee61a83523d625b0899300b69a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 02/16] fix: pattern: repeating an element that matches the
 empty string looped forever

---
 parser_pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index a086947..9b38fc4 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -118,6 +118,10 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			// an unbounded repetition of an empty match would never end
+			if patt.max < 0 && ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
+				break
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 7c4b761f7fff96b0c2f7cc0d7422c1495eab623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 03/16] fix: TRACE=loop with a line filter popped an empty loop
 stack

The push was filtered by line but the pop was not, so a left-recursive
rule on another line made the parse panic.
---
 packrat.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..564335f 100644
--- a/packrat.go
+++ b/packrat.go
@@ -146,7 +146,8 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
-					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
+					loopStackPushed := opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine)
+					if loopStackPushed {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
 						//  line := ctx.Code.Line()
@@ -197,7 +198,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if loopStackPushed {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From cc4d37468bf25b2c7523c945bacf5a3050d12f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 04/16] fix: tracing an uncached rule that failed dereferenced
 nil

---
 packrat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 564335f..21f5a38 100644
--- a/packrat.go
+++ b/packrat.go
@@ -90,7 +90,11 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		if x.getRule().skipCache {
 			result := fparse(ctx)
 			if showLog {
-				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
+				s := "nil"
+				if result != nil {
+					s = helpers.Escape(result.String())
+				}
+				ctx.log(Cyan("`->:")+" "+s+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
 		}
-- 
2.43.0


From 6d5719b321bbc203cc7e52e9e36e7b6a0b078aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 05/16] fix: rules nested deeper than 1024 made the parse panic

---
 parsectx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..6c22eeb 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,7 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack[:ctx.stackLength], ctx.getFrame(x))
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From fc514bc31201f4e73c407ffe6222b8875a7920a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 06/16] fix: TokenStream: wrong coordinates inside and after
 the last token

The search loop leaves before loading the last token, so the offset was
computed relative to the previous one.
---
 codestream_token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..96a2ce9 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -320,6 +320,7 @@ func (code *TokenStream) coords(workOffset int) coord {
 		panic(fmt.Sprintf("nToken=%d goes beyond len(code.tokens)=%d\n"+
 			"%s", nToken, len(code.tokens), code.Print()))
 	}
+	token = code.tokens[nToken] // when the loop left at the last token
 	offsetInToken := workOffset - token.WorkOffset
 	originalOffset := code.tokens[nToken].OriginalOffset + offsetInToken
 	return coord{
-- 
2.43.0


From 81936a3a7b8fb872c3156206e589d0cc157e4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 07/16] fix: TokenStreamFromGoCode never returned lexical
 errors

The error count was read before anything was scanned, and the errors were
kept in a global that later calls compared their own count with.
---
 codestream_token.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 96a2ce9..7c8e1be 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -332,13 +332,6 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
@@ -346,13 +339,11 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
-	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
 	}
+	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -392,6 +383,12 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	if scan.ErrorCount > 0 {
+		if scan.ErrorCount != len(scanErrors) {
+			panic("assert") // errors must have been collected
+		}
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From 49f56c34b5f9b56236b68fe79328f685bd6988cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 08/16] fix: PeekLines panicked when no requested line exists

---
 codestream_rune.go  | 3 +++
 codestream_token.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..149d8c1 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min > len(code.lineStarts)-1 || code.Line()+max < 0 {
+		return "" // no such line
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index 7c8e1be..febb9df 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min > len(code.lineStarts)-1 || code.Line()+max < 0 {
+		return "" // no such line
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From 6e7915a91de3b8db066ee8de974b2cc1da8a8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 09/16] fix: RuneStream.PeekLines() without argument returns
 the current line

as CodeStream documents and TokenStream does.
---
 codestream_rune.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index 149d8c1..d18f8c1 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -92,7 +92,7 @@ func (code *RuneStream) PeekRunes(n int) string {
 // When only 1 value is given, a second value of 0 is implied to create a range.
 func (code *RuneStream) PeekLines(n ...int) string {
 	if len(n) <= 0 {
-		return ""
+		n = []int{0}
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
-- 
2.43.0


From 0052b02a37ab4d2290ef107faed42887b508e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 10/16] fix: NativeMap.IsEmpty was inverted

---
 native_map.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/native_map.go b/native_map.go
index 2517506..c4a58bc 100644
--- a/native_map.go
+++ b/native_map.go
@@ -75,10 +75,7 @@ func (nm *NativeMap) Keys() []string {
 }
 
 func (nm *NativeMap) IsEmpty() bool {
-	for range nm.vals {
-		return true
-	}
-	return false
+	return len(nm.vals) == 0
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From 8cf76e039349b31e52c6e96e62ce898fc0c2ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 11/16] fix: tracing panicked near U+FFFD or invalid UTF-8

ctx.String() peeks at the previous runes for every trace line.
---
 helpers/helpers.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..4fb10e0 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// An invalid byte counts as one rune.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,11 +143,8 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
-		totalSize += csize // csize is char len in bytes for rune c
+		_, csize := utf8.DecodeLastRuneInString(slice)
+		totalSize += csize // csize is char len in bytes for that rune
 		slice = slice[:len(slice)-csize]
 		nTake--
 	}
-- 
2.43.0


From 2af15cca9783fc9117ec01fb5314eee33f2d8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 12/16] fix: Attr: the rule name of an origin was lost

---
 attr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attr.go b/attr.go
index dbea2b7..bce5430 100644
--- a/attr.go
+++ b/attr.go
@@ -11,6 +11,8 @@ type Attr struct {
 	Start int
 	End   int
 	Line  int
+
+	ruleName string
 }
 
 func NewAttr() *Attr {
@@ -37,6 +39,7 @@ func (attr *Attr) SetOrigin(o Origin) {
 	attr.Start = o.Start
 	attr.End = o.End
 	attr.Line = o.Line
+	attr.ruleName = o.RuleName
 }
 
 func (attr *Attr) GetOrigin() Origin {
@@ -45,6 +48,8 @@ func (attr *Attr) GetOrigin() Origin {
 		Line:  attr.Line,
 		Start: attr.Start,
 		End:   attr.End,
+
+		RuleName: attr.ruleName,
 	}
 }
 
-- 
2.43.0


From 8c49116b313e1100de37fd13ec8516ae91b3656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 13/16] fix: a panicking parse function left stack tracing on

after ParseString(s, Debug{true}), for every later parse.
---
 grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..4fa87f8 100644
--- a/grammar.go
+++ b/grammar.go
@@ -115,9 +115,9 @@ func (gm *Grammar) parse(ctx *ParseContext) Ast {
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
+	// undo temporary stack tracing, even if a parse function panics
+	defer func() { gm.TraceOptions.Stack = oldTrace }()
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From 3b9a8f5dd8507dc830c6682db670557ac9de0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 14/16] fix: merging a labelled result modified the cached
 result of another rule

---
 parser_sequence.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..136c4f1 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -162,13 +162,13 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		switch label {
 		case "&":
 			if IsUndefined(results) {
-				results = res
+				results = copyIfMap(res)
 			} else {
-				results = merge(res, results)
+				results = merge(copyIfMap(res), results)
 			}
 		case "@":
 			if IsUndefined(results) {
-				results = res
+				results = copyIfMap(res)
 			} else {
 				results = merge(results, res)
 			}
@@ -204,6 +204,19 @@ func (seq *sequence) forEachChild(f func(Parser) Parser) Parser {
 	return seq
 }
 
+// The result of a child can be cached by a rule: get a map that can be modified.
+func copyIfMap(it Ast) Ast {
+	nm, isMap := it.(*NativeMap)
+	if !isMap {
+		return it
+	}
+	copied := NewEmptyNativeMap()
+	for _, k := range nm.Keys() {
+		copied.Set(k, nm.GetOrPanic(k))
+	}
+	return copied
+}
+
 // Port of lib/helpers.js:extend() in a less general way (Ast-specific)
 // Extend a source object with the properties of a newcomer object (shallow copy).
 // The modified `toExtend` object is returned.
-- 
2.43.0


From 15b91f3de5c2d6bbf8cb8007de0e091b0b1c29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 15/16] fix: a label directly inside an optional element was
 lost

---
 parser_existential.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..e235824 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -15,13 +15,9 @@ func newExistential(it Ast) *existential {
 	return ex
 }
 
-func (ex *existential) handlesChildLabel() bool {
-	if ex.rule.parent != nil {
-		return ex.rule.parent.handlesChildLabel()
-	} else {
-		return false
-	}
-}
+// The label directly inside of an existential, as in `(a:foo)? b:bar`, makes a
+// map, that a sequence then merges like it does for `(a:foo baz)? b:bar`.
+func (ex *existential) handlesChildLabel() bool { return false }
 
 func (ex *existential) getRule() *rule { return ex.rule }
 
-- 
2.43.0


From 5827316815340389fcfa7249efa94914e6f970f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 16/16] fix: check the grammar's rank before changing its trace
 options

---
 grammar.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 4fa87f8..9c0f8d7 100644
--- a/grammar.go
+++ b/grammar.go
@@ -106,15 +106,15 @@ func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast
 // Use ParseString() or ParseTokens()
 // This parse(ctx) is for Grammar to implement Parser
 func (gm *Grammar) parse(ctx *ParseContext) Ast {
+	if gm.rank == nil {
+		panic("Grammar.rank is nil")
+	}
 	oldTrace := gm.TraceOptions.Stack
 	ctx.GrammarName = gm.getRule().name
 	if ctx.parseOptions.debug {
 		// temporarily enable stack tracing
 		gm.TraceOptions.Stack = true
 	}
-	if gm.rank == nil {
-		panic("Grammar.rank is nil")
-	}
 	// undo temporary stack tracing, even if a parse function panics
 	defer func() { gm.TraceOptions.Stack = oldTrace }()
 	result := gm.rank.parse(ctx)
-- 
2.43.0

