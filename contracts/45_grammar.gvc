package github.com/grepsuzette/joeson

# ---- whole parses
aspect mach
props C11 C17 C18
iface ParseOption.apply(o, po) r
  requires po != nil
  modifies parseOptions.debug@po, parseOptions.skipLog@po, parseOptions.skipCache@po
  nopanic
  ensures r == po

func (Debug).apply(o, opts) r
  implements ParseOption.apply
  requires opts != nil
  modifies parseOptions.debug@opts
  ensures opts.debug == o.Bool

func (SkipLog).apply(o, opts) r
  implements ParseOption.apply
  requires opts != nil
  modifies parseOptions.skipLog@opts
  ensures opts.skipLog == o.Bool

func (SkipCache).apply(o, opts) r
  implements ParseOption.apply
  requires opts != nil
  modifies parseOptions.skipCache@opts
  ensures opts.skipCache == o.Bool

func newParseOptions() r
  modifies nothing
  nopanic
  ensures fresh(r) && !r.debug && !r.skipLog && !r.skipCache && isnil(r.cb)

func NewParseError(ctx, s) r
  modifies nothing
  nopanic
  ensures fresh(r.Attr) && r.ctx == ctx && r.ErrorString == s

# nothing of the machine is left from before
fn virgin(ctx: *ParseContext): bool = ctx.stackLength == 0 && ctx.Counter == 0 && len(ctx.loopStack) == 0
    && (forall p, i :: 0 <= p < len(ctx.frames) && 0 <= i < ctx.numRules ==> ctx.frames[p][i] == nil)

func newParseContext(code, numRules, opts) r
  requires !isnil(code) && csOk(code) && opts != nil && numRules >= 0
  modifies nothing
  nopanic
  hint forall p :: 0 <= p < ?i ==> allocated((?f:[][]*frame)[p]) && fresh(?f[p]) && len(?f[p]) == numRules
  hint forall p, q :: 0 <= p < q < ?i ==> arr((?f:[][]*frame)[p]) != arr(?f[q])
  hint forall p, i :: 0 <= p < ?i && 0 <= i < numRules ==> (?f:[][]*frame)[p][i] == nil
  ensures new: fresh(r) && fresh(r.parseOptions)
  ensures given: r.Code == code && r.numRules == numRules && r.TraceOptions == opts
  ensures plain: !r.parseOptions.debug && !r.parseOptions.skipLog && !r.parseOptions.skipCache
  ensures virgin: virgin(r)
  ensures ok: tabOk(r)

# what Grammar.parse was given and gave
ghost gn int
ghost gvirgin bool
ghost gquiet bool
ghost gctx *ParseContext
ghost gcode CodeStream
ghost gpos int
ghost gtext string
ghost ggm *Grammar
ghost gres Ast
func (*Grammar).parse(gm, ctx) r
  requires ctxOk(ctx) && tabOk(ctx) && gm.rule != nil && gm.TraceOptions != nil && ctx.parseOptions != nil
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  let stack0 = gm.TraceOptions.Stack
  modifies all
  preserves TraceOptions.Stack, TraceOptions.Loop, TraceOptions.Grammar, TraceOptions.FilterLine, TraceOptions.SkipSetup, Grammar.TraceOptions, Grammar.rank, Grammar.rule, Grammar.numrules
  ghostwrites
  hint pos(ctx.Code) <= ?m
  hint ?m <= len(work(ctx.Code))
  hint pos(ctx.Code) == endp[n0]
  ensures [C11] once: ncalls == n0 + 1 && who[n0] == gm.rank && at[n0] == p0
  ensures [C11] whole: endp[n0] == len(work(ctx.Code)) ==> r == res[n0] && pos(ctx.Code) == endp[n0]
  ensures [C11] part: endp[n0] != len(work(ctx.Code)) ==> typeis(r, ParseError) && endp[n0] <= pos(ctx.Code) <= len(work(ctx.Code))
  ensures [C11] offset: endp[n0] != len(work(ctx.Code)) ==> endp[n0] <= lineq <= len(work(ctx.Code)) && colq == lineq
  ensures [C11] reported: endp[n0] != len(work(ctx.Code)) ==> startswith(as(r, ParseError).ErrorString, "Error parsing at char:" + itoa(lineq) + "=(line:" + itoa(liner) + ",col:" + itoa(colr) + ").")
  ensures [C17 C18] options: gm.TraceOptions == old(gm.TraceOptions) && gm.TraceOptions.Stack == stack0
  on_panic gm.TraceOptions.Stack == stack0
  set gn = gn + 1
  set gvirgin = old(virgin(ctx))
  set gquiet = old(!ctx.parseOptions.debug && !ctx.parseOptions.skipLog && !ctx.parseOptions.skipCache)
  set gctx = ctx
  set gcode = old(ctx.Code)
  set gtext = old(work(ctx.Code))
  set gpos = old(pos(ctx.Code))
  set ggm = gm
  set gres = r

# a parse starts from nothing but the grammar, the text and the options
func (*Grammar).ParseString(gm, s, options) r
  requires gm.rule != nil && gm.TraceOptions != nil && gm.numrules >= 0
  requires forall i :: 0 <= i < len(options) ==> !isnil(options[i])
  hint len(options) == 0 ==> !(?c:*ParseContext).parseOptions.debug && !?c.parseOptions.skipLog && !?c.parseOptions.skipCache
  let n0 = gn
  modifies all
  preserves TraceOptions.Stack, TraceOptions.Loop, TraceOptions.Grammar, TraceOptions.FilterLine, TraceOptions.SkipSetup, Grammar.TraceOptions, Grammar.rank, Grammar.rule, Grammar.numrules
  ghostwrites
  ensures [C18] once: gn == n0 + 1 && ggm == gm && r == gres
  ensures [C18] virgin: fresh(gctx) && gvirgin
  ensures [C18] text: typeis(gcode, *RuneStream) && fresh(as(gcode, *RuneStream)) && gtext == s && gpos == 0
  ensures [C18] plain: len(options) == 0 ==> gquiet

func (*Grammar).ParseTokens(gm, tokens, options) r
  requires gm.rule != nil && gm.TraceOptions != nil && gm.numrules >= 0 && tokens != nil && tsOk(tokens)
  requires forall i :: 0 <= i < len(options) ==> !isnil(options[i])
  hint len(options) == 0 ==> !(?c:*ParseContext).parseOptions.debug && !?c.parseOptions.skipLog && !?c.parseOptions.skipCache
  let n0 = gn
  modifies all
  preserves TraceOptions.Stack, TraceOptions.Loop, TraceOptions.Grammar, TraceOptions.FilterLine, TraceOptions.SkipSetup, Grammar.TraceOptions, Grammar.rank, Grammar.rule, Grammar.numrules
  ghostwrites
  ensures [C18] once: gn == n0 + 1 && ggm == gm && r == gres
  ensures [C18] virgin: fresh(gctx) && gvirgin
  ensures [C18] text: typeis(gcode, *TokenStream) && as(gcode, *TokenStream) == tokens && gpos == old(tokens.workOffset)
  ensures [C18] plain: len(options) == 0 ==> gquiet
