package github.com/grepsuzette/joeson

# ---- The parsing machine as every parser must leave it. A second, independent pair of
# pre- and postconditions of Parser.parse (the aspect mach): proved of every operator with
# itself as the contract of the nested calls, and of wrap with the contract of the
# function it wraps.
group PARSE = rule.label, TraceOptions.Stack, TraceOptions.Loop, TraceOptions.Grammar, TraceOptions.FilterLine, TraceOptions.SkipSetup, Grammar.TraceOptions, Grammar.rank, Grammar.rule, Grammar.numrules, rule.rules, map map[string]Parser, choice.choices, choice.rule, rank.choice, rank.rule, sequence.sequence, sequence.rule, sequence.lazyType, pattern.value, pattern.join, pattern.min, pattern.max, existential.it, lookahead.expr, not.it, regex.re, ref.ref, ref.param, ref.rule, rule.capture, rule.grammar, rule.id, rule.parser, rule.parent, rule.name, rule.parseOptions, parseOptions.cb, parseOptions.skipCache, elems Parser, ParseContext.Code, ParseContext.numRules, ParseContext.TraceOptions, ParseContext.parseOptions, ParseContext.frames, RuneStream.text, RuneStream.lineStarts, elems int, TokenStream.original, TokenStream.work, TokenStream.tokens, TokenStream.lineStarts, elems Token, elems []*frame, frame.pos, frame.id, NativeMap.vals, NativeMap.keys, map map[string]Ast, elems string, elems Ast, cell NativeArray

# the state of the frames that existed before
fn running(f: *frame): bool = f.loopstage >= 1
fn machStk(ctx: *ParseContext): bool =
    ctx.stackLength == old(ctx.stackLength) && (fresh(ctx.stack) || arr(ctx.stack) == arr(old(ctx.stack)))
    && (forall k :: 0 <= k < ctx.stackLength ==> ctx.stack[k] == old(ctx.stack[k]))
fn machArr(ctx: *ParseContext): bool = forall a, j :: !fresh(a) && a != arr(old(ctx.stack)) && apartFrom(ctx, a) ==> raw(a, j, *frame) == old(raw(a, j, *frame))
fn machRun(ctx: *ParseContext): bool = forall f: *frame :: !fresh(f) && old(running(f)) ==> f.result == old(f.result) && f.endpos == old(f.endpos) && (f.loopstage == old(f.loopstage) || old(f.loopstage) == 1 && f.loopstage == 2)
fn machFr(ctx: *ParseContext): bool = forall f: *frame :: !fresh(f) && old(frOk(f, len(work(ctx.Code)))) ==> frOk(f, len(work(ctx.Code)))
fn machMask(ctx: *ParseContext): bool = forall f: *frame :: !fresh(f) && old(maskOk(f, ctx.numRules)) ==> maskOk(f, ctx.numRules)
fn machKept(ctx: *ParseContext): bool = machStk(ctx) && machArr(ctx) && machRun(ctx) && machFr(ctx) && machMask(ctx)

aspect mach
props C10
iface Parser.parse(p, ctx) r
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  set who[ncalls] = p
  set at[ncalls] = old(pos(ctx.Code))
  set res[ncalls] = r
  set endp[ncalls] = pos(ctx.Code)
  set ncalls = ncalls + 1
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)

# The calls of the wrapped function one activation of loopify makes: where each began, what
# it returned and where it ended, and what the frame under watch held when it began (seed)
# and the stage it was in when it ended.
ghost pn int
ghost pat map[int]int
ghost pres map[int]Ast
ghost pend map[int]int
ghost watch *frame
ghost pseed map[int]Ast
ghost pseedEnd map[int]int
ghost pstage map[int]int
ghost ptop map[int]*frame
functype parseFunc :: (f, ctx) r
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  set pat[pn] = old(pos(ctx.Code))
  set pres[pn] = r
  set pend[pn] = pos(ctx.Code)
  set pseed[pn] = old(watch.result)
  set pseedEnd[pn] = old(watch.endpos)
  set pstage[pn] = watch.loopstage
  set ptop[pn] = old(ctx.stack[ctx.stackLength - 1])
  set pn = pn + 1
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)

ghost fn2 int
ghost fwho map[int]Parser
ghost fat map[int]int
ghost fres map[int]Ast
ghost fend map[int]int
functype parseFunc2 :: (f, ctx, p) r
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  set fwho[fn2] = p
  set fat[fn2] = old(pos(ctx.Code))
  set fres[fn2] = r
  set fend[fn2] = pos(ctx.Code)
  set fn2 = fn2 + 1
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)

func (*existential).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites

func (*lookahead).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites

func (*not).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites

func (str).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all

func (*regex).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all

func (*choice).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites
  hint ctxOk(ctx) && tabOk(ctx) && pos(ctx.Code) >= old(pos(ctx.Code))
  hint machKept(ctx)

func (*rank).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites
  hint ctxOk(ctx) && tabOk(ctx) && pos(ctx.Code) >= old(pos(ctx.Code))
  hint machKept(ctx)

func (*pattern).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites
  hint ctxOk(ctx) && tabOk(ctx) && pos(ctx.Code) >= old(pos(ctx.Code))
  hint machKept(ctx)

func (*sequence).parse(p, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  ghostwrites
  hint typeis(?r:Ast, *NativeMap) ==> ownMap(mapOf(?r)) && nmOk(mapOf(?r))
  hint ctxOk(ctx) && tabOk(ctx) && pos(ctx.Code) >= old(pos(ctx.Code))
  hint machKept(ctx)

aspect
props C23 C16
# attributes: only the attributes of a node are written
ghost setn int
ghost seta map[int]Ast
ghost seto map[int]Origin
iface Ast.SetOrigin(a, o)
  modifies Attr.Code, Attr.Start, Attr.End, Attr.Line, Attr.ruleName
  set seta[setn] = a
  set seto[setn] = o
  set setn = setn + 1

func (*Attr).SetOrigin(attr, o)
  requires attr != nil
  modifies Attr.Code@attr, Attr.Start@attr, Attr.End@attr, Attr.Line@attr, Attr.ruleName@attr
  nopanic
  ensures attr.Code == o.Code && attr.Start == o.Start && attr.End == o.End && attr.Line == o.Line && attr.ruleName == o.RuleName

func (*Attr).GetOrigin(attr) o
  requires attr != nil
  modifies nothing
  nopanic
  ensures attr.Code == o.Code && attr.Start == o.Start && attr.End == o.End && attr.Line == o.Line && attr.ruleName == o.RuleName

iface Parser.handlesChildLabel(p) r
  uf handlesLabel

aspect mach
props C09 C10 C16 C23
# user callbacks: assumed to leave the parsing machine as every parser does
# the callbacks one activation runs: with what and what they returned
ghost cbn int
ghost cbin map[int]Ast
ghost cbctx map[int]*ParseContext
ghost cbcaller map[int]Ast
ghost cbout map[int]Ast
functype func(it Ast, ctx *ParseContext, caller Ast) Ast :: (f, it, ctx, caller) r
  requires ctxOk(ctx) && tabOk(ctx)
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  set cbin[cbn] = it
  set cbctx[cbn] = ctx
  set cbcaller[cbn] = caller
  set cbout[cbn] = r
  set cbn = cbn + 1
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)

props C09 C10 C17 C23 C27
func stack(fparse, x)(ctx) r
  requires2 ctxOk(ctx) && tabOk(ctx) && !isnil(x)
  let2 p = pos(ctx.Code)
  let2 n = pn
  let2 id = ruleOf(x).id
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  ensures once: pn == n + 1 && pat[n] == p && r == pres[n] && pos(ctx.Code) == pend[n]
  ensures top: ptop[n] != nil && ptop[n].pos == p && ptop[n].id == id
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)

props C09 C10 C17 C27
func loopify(fparse, x)(ctx) r
  requires2 ctxOk(ctx) && tabOk(ctx) && !isnil(x)
  let2 p = pos(ctx.Code)
  let2 n = pn
  let2 id = ruleOf(x).id
  let2 skip = ruleOf(x).parseOptions.skipCache
  let2 fr = ctx.frames[p][id]
  let2 watched = !skip && fr != nil && watch == fr
  let2 stage = fr.loopstage
  let2 cached = watched && stage <= 0 && fr.endpos >= 0
  let2 again = watched && stage >= 1
  let2 grow = watched && stage <= 0 && fr.endpos < 0
  modifies all
  preserves $PARSE
  unframed rule.label, elems string
  ghostwrites
  hint ctxOk(ctx) && tabOk(ctx) && pos(ctx.Code) >= old(pos(ctx.Code))
  hint ctx.stackLength == old(ctx.stackLength) && (fresh(ctx.stack) || arr(ctx.stack) == arr(old(ctx.stack)))
  hint forall k :: 0 <= k < ctx.stackLength ==> ctx.stack[k] == old(ctx.stack[k])
  hint machArr(ctx)
  hint machRun(ctx)
  hint machFr(ctx)
  hint machMask(ctx)
  hint maskOk(?f:*frame, ctx.numRules)
  hint frOk(?f:*frame, len(work(ctx.Code)))
  hint (?f:*frame).loopstage == 3
  hint len(?s:stash) <= ctx.numRules
  hint len(?s:stash) > 0 ==> apartFrom(ctx, arr(?s)) && allocated(arr(?s))
  hint forall i :: 0 <= i < len(?s:stash) && ?s[i] != nil ==> allocated(?s[i]) && 0 <= ?s[i].pos <= len(work(ctx.Code)) && ?s[i].id == i
  hint forall i :: 0 <= i < len(?s:stash) && ?s[i] != nil ==> frOk(?s[i], len(work(ctx.Code)))
  hint forall i :: 0 <= i < len(?s:stash) && ?s[i] != nil ==> maskOk(?s[i], ctx.numRules)
  hint len(?s:stash) > 0 ==> arr(?s) != arr(ctx.stack)
  hint isnil(?b:Ast) ==> !isnil(?r:Ast)
  hint !isnil(?b:Ast) ==> old(pos(ctx.Code)) <= ?e
  hint grow ==> pn > n && watch == fr
  hint grow ==> (forall k :: n <= k < pn ==> pat[k] == p)
  hint grow ==> isnil(pseed[n]) && pseedEnd[n] == -1 && pstage[n] == 2
  hint grow ==> (forall k :: n < k < pn ==> !isnil(pres[k-1]) && pseed[k] == pres[k-1] && pseedEnd[k] == pend[k-1])
  hint grow ==> (forall k :: n < k < pn ==> k == n + 1 || pend[k-1] > pend[k-2])
  hint grow ==> pres[pn-1] == ?r:Ast
  hint grow ==> pend[pn-1] == pos(ctx.Code)
  hint grow ==> pn == n + 1 || pend[pn-1] > pend[pn-2]
  hint grow ==> pn == n + 1 || fr.result == pres[pn-2] && fr.endpos == pend[pn-2]
  hint grow ==> pn == n + 1 || pres[pn-2] == ?r:Ast && pend[pn-2] == ?e
  ensures [C09 C17] hit: cached ==> pn == n && r == old(fr.result) && pos(ctx.Code) == old(fr.endpos)
  ensures [C09 C17] nocache: skip ==> pn == n + 1 && r == pres[n] && pos(ctx.Code) == pend[n] && pat[n] == p
  ensures [C09 C17] memo: grow && pstage[n] == 1 ==> pn == n + 1 && r == pres[n] && pos(ctx.Code) == pend[n] && pat[n] == p
  ensures [C09 C17] stored: grow && pstage[n] == 1 ==> fr.loopstage == 0 && fr.result == r && fr.endpos == pos(ctx.Code)
  ensures [C10 C17] seed: again ==> pn == n && r == old(fr.result) && pos(ctx.Code) == (old(fr.endpos) >= 0 ? old(fr.endpos) : p)
  ensures [C10 C17] seen: again ==> fr.loopstage == (stage == 1 ? 2 : stage)
  ensures [C10 C17] nobase: grow && pstage[n] == 2 && isnil(pres[n]) ==> pn == n + 1 && isnil(r)
  ensures [C10 C17] begins: grow ==> pn > n && (forall k :: n <= k < pn ==> pat[k] == p)
  ensures [C10 C17] seeds: grow ==> isnil(pseed[n]) && pseedEnd[n] == -1 && (forall k :: n < k < pn ==> !isnil(pres[k-1]) && pseed[k] == pres[k-1] && pseedEnd[k] == pend[k-1])
  ensures [C10 C17] longer: grow ==> (forall k :: n + 1 < k < pn ==> pend[k-1] > pend[k-2])
  ensures [C10 C17] best: grow && pn > n + 1 ==> r == pres[pn-2] && pos(ctx.Code) == pend[pn-2] && (isnil(pres[pn-1]) || pend[pn-1] <= pend[pn-2])
  ensures [C10 C17] kept: grow && pn > n + 1 ==> fr.loopstage == 0 && fr.result == r && fr.endpos == pos(ctx.Code)
  ensures [C10 C17] grown: grow && pstage[n] == 2 && !isnil(pres[n]) ==> pn > n + 1
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures machine: machKept(ctx)

props C16 C17 C23
fn relabels(k: *rule): bool = k.label != "" && !isnil(k.parent) && !handlesLabel(k.parent)
func prepareResult(fparse2, caller)(ctx) r
  requires2 ctxOk(ctx) && tabOk(ctx)
  let2 k = ruleOf(caller)
  let2 n = fn2
  let2 c = cbn
  let2 s = setn
  let2 p = pos(ctx.Code)
  let2 top = ctx.stack[ctx.stackLength - 1]
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  ensures [C16 C17] once: fn2 == n + 1 && fwho[n] == caller && fat[n] == p
  ensures [C16 C17] nomatch: isnil(fres[n]) ==> isnil(r) && cbn == c
  ensures [C16 C17] ran: !isnil(fres[n]) && !isnil(k.parseOptions.cb) ==> cbn == c + 1 && cbctx[c] == ctx && cbcaller[c] == caller && r == cbout[c]
  ensures [C16 C17] match: !isnil(fres[n]) && !isnil(k.parseOptions.cb) && !relabels(k) ==> cbin[c] == fres[n]
  ensures [C16 C17] label: !isnil(fres[n]) && !isnil(k.parseOptions.cb) && relabels(k) ==> typeis(cbin[c], *NativeMap)
  ensures [C16 C17] nocb: !isnil(fres[n]) && isnil(k.parseOptions.cb) ==> cbn == c && (!relabels(k) ==> r == fres[n]) && (relabels(k) ==> typeis(r, *NativeMap))
  ensures [C16 C17] endpos: cbn == c ==> pos(ctx.Code) == fend[n]
  ensures [C23] failed: isnil(r) ==> setn == s
  let2 mapped = relabels(k) && isnil(k.parseOptions.cb)
  ensures [C23] stamped: !isnil(r) && !mapped ==> setn == s + 1 && seta[s] == r
  ensures [C23] span: !isnil(r) && !mapped ==> seto[s].Start == top.pos && seto[s].End == pos(ctx.Code) && seto[s].Code == usertext(ctx.Code) && lineIs(ctx.Code, seto[s].End, seto[s].Line)
  ensures [C23] spanmap: !isnil(r) && mapped ==> as(r, *NativeMap).Attr.Start == top.pos && as(r, *NativeMap).Attr.End == pos(ctx.Code) && as(r, *NativeMap).Attr.Code == usertext(ctx.Code) && lineIs(ctx.Code, as(r, *NativeMap).Attr.End, as(r, *NativeMap).Attr.Line)
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)

props C09 C10 C16 C17 C27
func wrap(fparse2, node)(ctx) r
  requires2 ctxOk(ctx) && tabOk(ctx)
  modifies all
  preserves $PARSE
  unframed rule.label
  ghostwrites
  ensures ok: ctxOk(ctx) && tabOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  ensures kept: machKept(ctx)
