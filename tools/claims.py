CLAIMS={
'C01':('proof','choice.parse and rank.parse are verified over a ghost log of the parser calls they make, for every list of alternatives, every behaviour of the alternatives and every position.'),
'C02':('proof','sequence.parse is verified in all its three result modes over a ghost log of its parser calls: order, contiguity, stop at the first failure.'),
'C03':('proof',"sequence.parse's result is verified against the captures and labels of its elements for the single, array and object forms; copyIfMap and merge are verified against map semantics. The content of an object built with & and @ labels is checked by the bounded oracle only."),
'C04':('proof','pattern.parse is verified for all bounds, joins and behaviours of the value and join parsers: bounds, greediness, kept values, cursor.'),
'C05':('proof','The loop of pattern.parse has a verified decreasing measure for all bounds and all element behaviours that respect the parser contract (the cursor never moves backwards).'),
'C06':('proof','lookahead.parse and not.parse are verified over the ghost call log: one call, verdict, cursor restored.'),
'C07':('proof','existential.parse is verified over the ghost call log: never fails, cursor restored on a miss.'),
'C08':('proof','str.parse and regex.parse are verified against the work text for all texts, literals and expressions (the regexp engine itself is an uninterpreted leftmost-match function).'),
'C19':('proof','Every NativeMap function is verified against map and key-order semantics for all maps and keys.'),
'C20':('proof','The conversions and concatenations of native values are verified against their definition for all values (Ast.String of user types is an uninterpreted pure function).'),
'C09':('proof','The packrat table operations (getFrame, cacheSet, stackPush, wipeWith, restoreWith) and loopify, stack and wrap are verified for every table, history and wrapped parser: a settled frame answers without evaluating, a result outside recursion is stored and kept. That a whole parse evaluates each rule once is the induction over these contracts; the oracle counts evaluations in whole parses (bounded).'),
'C10':('proof','The growing loop of loopify is verified over a ghost log of the calls of the wrapped function, for every behaviour of it that respects the machine contract: the seed, the re-evaluation from the start position, the strict growth, the longest result kept. Termination of the loop follows from strict growth within the text.'),
'C11':('proof','Grammar.parse is verified: the rank is called once at the start, its result returned exactly if it ends at the end of the text, otherwise a ParseError is returned whose message starts with the position, line and column of an offset at or after the end of the match.'),
'C16':('proof','prepareResult is verified over a ghost log of the callbacks: run once, exactly when the parser matched, with the match, the context and the rule, and its result decides; otherwise the match is the result.'),
'C17':('proof','The tracing functions are verified to write nothing and never panic, loopify, prepareResult, stack and wrap to meet the same contract for every value of the trace options, Grammar.parse to give the trace options back.'),
'C18':('proof','newParseContext, Grammar.parse, ParseString and ParseTokens are verified: every parse starts from a fresh context with an empty table and the default options, and gives the trace options back, also when it panics.'),
'C23':('proof','prepareResult, SetOrigin and GetOrigin are verified: the result of a rule is stamped with the start of its frame and the cursor after it, the text and the line; Attr keeps them.'),
'C25':('proof','TokenStreamFromGoCode is verified for every source: tokens contiguous from zero, each with the text and the offset the scanner gave, in increasing order, exactly when the scanner reported no error; an error and no stream otherwise. go/scanner is a model (contracts/models.go): any number of errors, each reported once to the handler, and tokens at increasing offsets inside the source.'),
'C27':('proof','The rule stack is verified to grow at every depth (stackPush, stackPop, stackPeek) and loopify, stack and wrap to have no panic that depends on the depth. Recursion of the Go stack itself is not modelled.'),
'C28':('proof','Walk, ForEachChild_Array, ForEachChildInRules and ForEachChild of every operator are verified over a ghost log of the calls of the mapping function, for every tree and function.'),
'C24':('proof','Every Lazy function is verified for each of the types the package uses it with: computed at most once, kept afterwards.'),
'C12':('proof','Every function that computes a position of plain text (NewRuneStream, PosToLine, PosToCol, Line, Col, bisection) is verified against its definition for all texts and offsets.'),
'C13':('proof','The construction of a token stream, its coordinate search and its line and column functions are verified for all token lists that tile the work text.'),
'C14':('proof','Every cursor operation of both streams is verified against its contract for all texts and positions.'),
'C15':('proof','Peeking of runes and lines and reading up to a marker are verified on both streams for all texts, positions and arguments (forward peeking against the decoded runes re-encoded).'),
'C21':('proof','Every helper is verified against its definition for all inputs.'),
}
NA={
'C29':'not decidable by this family here: the contracts are sequential (no permission or concurrency logic for Go is available offline)',
'C30':'the equality of two parsers generated at run time from 30 rule strings ranges over all rule bodies; no contract within reach of a first-order verifier expresses it (it is an equivalence of two context-free grammars with callbacks)',
}
