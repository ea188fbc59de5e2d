package github.com/grepsuzette/joeson

props C09 C10
func newFrame(pos, id) r
  modifies nothing
  nopanic
  ensures new: fresh(r) && r != nil
  ensures r.pos == pos && r.id == id
  ensures empty: isnil(r.result) && r.endpos == -1 && r.loopstage == -1 && isnil(r.wipemask) && isnil(r.param)

func (*frame).cacheSet(fr, result, endpos)
  modifies frame.result@fr, frame.endpos@fr
  nopanic
  ensures fr.result == result && fr.endpos == (endpos < 0 ? -1 : endpos)

# One frame slot per work position and rule; each slot holds nothing or the frame of
# exactly that position and rule, whose cached end, if any, lies in the text at or after
# its position. The stack is kept apart from the table.
fn frOk(f: *frame, n: int): bool = -1 <= f.endpos <= n && (f.endpos >= 0 ==> f.endpos >= f.pos)
fn maskOk(f: *frame, n: int): bool = (isnil(f.wipemask) || len(f.wipemask) == n) && -1 <= f.loopstage <= 3 && (f.loopstage >= 2 ==> !isnil(f.wipemask))
fn tabOk(ctx: *ParseContext): bool =
    ctx.TraceOptions != nil && ctx.parseOptions != nil
    && len(ctx.frames) == len(work(ctx.Code)) + 1
    && 0 <= ctx.stackLength <= len(ctx.stack)
    && (forall p :: 0 <= p < len(ctx.frames) ==> allocated(ctx.frames[p]) && len(ctx.frames[p]) == ctx.numRules && arr(ctx.frames[p]) != arr(ctx.stack))
    && (forall p, i :: 0 <= p < len(ctx.frames) && 0 <= i < ctx.numRules && ctx.frames[p][i] != nil
         ==> allocated(ctx.frames[p][i]) && ctx.frames[p][i].pos == p && ctx.frames[p][i].id == i && frOk(ctx.frames[p][i], len(work(ctx.Code))) && maskOk(ctx.frames[p][i], ctx.numRules))
    && (forall p, q :: 0 <= p < q < len(ctx.frames) ==> arr(ctx.frames[p]) != arr(ctx.frames[q]))

props C09 C10 C27
func (*ParseContext).getFrame(ctx, x) r
  requires ctxOk(ctx) && tabOk(ctx) && !isnil(x)
  let p = pos(ctx.Code)
  let i = ruleOf(x).id
  modifies elems *frame@ctx.frames[p]
  panics_when id: i < 0 || i >= ctx.numRules
  ensures slot: ctx.frames[p][i] == r && r != nil
  ensures own: r.pos == p && r.id == i
  ensures kept: old(ctx.frames[p][i]) != nil ==> r == old(ctx.frames[p][i])
  ensures new: old(ctx.frames[p][i]) == nil ==> fresh(r) && r.endpos == -1 && r.loopstage == -1 && isnil(r.result) && isnil(r.wipemask)
  ensures others: forall q, j :: 0 <= q < len(ctx.frames) && 0 <= j < ctx.numRules && (q != p || j != i) ==> ctx.frames[q][j] == old(ctx.frames[q][j])
  ensures ok: tabOk(ctx)

func (*ParseContext).stackPeek(ctx, skip) r
  requires ctx != nil && 0 <= ctx.stackLength <= len(ctx.stack)
  modifies nothing
  panics_when skip < 0 && ctx.stackLength - 1 - skip >= len(ctx.stack) || skip >= ctx.stackLength
  ensures r == ctx.stack[ctx.stackLength - 1 - skip]

func (*ParseContext).stackPop(ctx)
  modifies ParseContext.stackLength@ctx
  nopanic
  ensures ctx.stackLength == old(ctx.stackLength) - 1

func (*ParseContext).stackPush(ctx, x)
  requires ctxOk(ctx) && tabOk(ctx) && !isnil(x)
  let p = pos(ctx.Code)
  let i = ruleOf(x).id
  let n = ctx.stackLength
  modifies elems *frame@ctx.frames[p], elems *frame@ctx.stack, ParseContext.stack@ctx, ParseContext.stackLength@ctx
  panics_when id: i < 0 || i >= ctx.numRules
  ensures top: ctx.stackLength == n + 1 && ctx.stack[n] == ctx.frames[p][i]
  ensures below: forall k :: 0 <= k < n ==> ctx.stack[k] == old(ctx.stack[k])
  ensures kept: old(ctx.frames[p][i]) != nil ==> ctx.frames[p][i] == old(ctx.frames[p][i])
  ensures new: old(ctx.frames[p][i]) == nil ==> fresh(ctx.frames[p][i]) && ctx.frames[p][i].endpos == -1 && ctx.frames[p][i].loopstage == -1 && isnil(ctx.frames[p][i].result)
  ensures others: forall q, j :: 0 <= q < len(ctx.frames) && 0 <= j < ctx.numRules && (q != p || j != i) ==> ctx.frames[q][j] == old(ctx.frames[q][j])
  ensures ok: tabOk(ctx)
  ensures store: fresh(ctx.stack) || arr(ctx.stack) == arr(old(ctx.stack))

props C09 C10
# the arrays existing before that are not rows of the table are unchanged
fn apartFrom(ctx: *ParseContext, a: int): bool = forall p :: 0 <= p < len(ctx.frames) ==> arr(ctx.frames[p]) != a

func (*ParseContext).wipeWith(ctx, fr, makeStash) r
  requires ctxOk(ctx) && tabOk(ctx) && fr != nil && 0 <= fr.pos <= len(work(ctx.Code))
  requires isnil(fr.wipemask) || len(fr.wipemask) == ctx.numRules
  let p = fr.pos
  modifies elems *frame@ctx.frames[p]
  panics_when nomask: isnil(fr.wipemask)
  hint forall i :: 0 <= i < ctx.numRules ==> ctx.frames[p][i] == (i < ?n && fr.wipemask[i] ? nil : old(ctx.frames[p][i]))
  hint makeStash ==> fresh(?s:[]*frame) && len(?s) == ctx.numRules
  hint makeStash ==> (forall i :: 0 <= i < ctx.numRules ==> (?s:[]*frame)[i] == (i < ?n && fr.wipemask[i] ? old(ctx.frames[p][i]) : nil))
  hint tabOk(ctx)
  ensures wiped: forall i :: 0 <= i < ctx.numRules ==> ctx.frames[p][i] == (fr.wipemask[i] ? nil : old(ctx.frames[p][i]))
  ensures stash: makeStash ==> fresh(r) && len(r) == ctx.numRules && (forall i :: 0 <= i < ctx.numRules ==> r[i] == (fr.wipemask[i] ? old(ctx.frames[p][i]) : nil))
  ensures none: !makeStash ==> len(r) == 0
  ensures ok: tabOk(ctx)

fn stashOk(ctx: *ParseContext, s: []*frame): bool = len(s) <= ctx.numRules && (len(s) > 0 ==> apartFrom(ctx, arr(s)))
    && (forall i :: 0 <= i < len(s) && s[i] != nil ==> allocated(s[i]) && 0 <= s[i].pos <= len(work(ctx.Code)) && s[i].id == i && frOk(s[i], len(work(ctx.Code))) && maskOk(s[i], ctx.numRules))

func (*ParseContext).restoreWith(ctx, s)
  requires ctxOk(ctx) && tabOk(ctx) && stashOk(ctx, s)
  modifies elems *frame
  nopanic
  hint forall i :: 0 <= i < len(s) ==> s[i] == old(s[i])
  hint forall p, i :: 0 <= p < len(ctx.frames) && 0 <= i < ctx.numRules && (i >= ?n || old(s[i]) == nil || old(s[i].pos) != p) ==> ctx.frames[p][i] == old(ctx.frames[p][i])
  hint forall i :: 0 <= i < ?n && old(s[i]) != nil ==> ctx.frames[old(s[i].pos)][i] == old(s[i])
  hint forall a, j :: apartFrom(ctx, a) ==> raw(a, j, *frame) == old(raw(a, j, *frame))
  hint tabOk(ctx)
  ensures put: forall i :: 0 <= i < len(s) && s[i] != nil ==> ctx.frames[s[i].pos][i] == s[i]
  ensures others: forall p, i :: 0 <= p < len(ctx.frames) && 0 <= i < ctx.numRules && (i >= len(s) || s[i] == nil || s[i].pos != p) ==> ctx.frames[p][i] == old(ctx.frames[p][i])
  ensures apart: forall a, j :: apartFrom(ctx, a) ==> raw(a, j, *frame) == old(raw(a, j, *frame))
  ensures ok: tabOk(ctx)

# the trace of running loops
func (*ParseContext).loopStackPush(ctx, name)
  requires ctx != nil
  modifies ParseContext.loopStack@ctx, elems string@ctx.loopStack
  nopanic

func (*ParseContext).loopStackPop(ctx)
  requires ctx != nil
  modifies ParseContext.loopStack@ctx
