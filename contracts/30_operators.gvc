package github.com/grepsuzette/joeson

# What holds of a parse context between two parser calls: the stream is well formed,
# there is one frame slot per work position and rule.
fn ctxOk(ctx: *ParseContext): bool = !isnil(ctx) && csOk(ctx.Code)

# The log of the parser calls made by the activation under verification:
# the k-th call runs parser who[k] at position at[k], gives res[k] and ends at endp[k].
ghost ncalls int
ghost who map[int]Parser
ghost at map[int]int
ghost res map[int]Ast
ghost endp map[int]int

# The rule of a parser never changes.
iface Parser.getRule(p) r
  uf ruleOf
  ensures r != nil

iface Parser.parse(p, ctx) r
  requires ctxOk(ctx)
  modifies all
  preserves choice.choices, choice.rule, rank.choice, sequence.sequence, sequence.rule, sequence.lazyType, pattern.value, pattern.join, pattern.min, pattern.max, existential.it, lookahead.expr, not.it, regex.re, ref.ref, ref.param, rule.capture, rule.label, rule.grammar, elems Parser, ParseContext.Code, ParseContext.numRules, RuneStream.text, RuneStream.lineStarts, elems int, TokenStream.original, TokenStream.work, TokenStream.tokens, TokenStream.lineStarts, elems Token, NativeMap.vals, NativeMap.keys, map map[string]Ast, elems string, elems Ast, cell NativeArray
  unframed rule.label
  ensures ok: ctxOk(ctx)
  ensures fwd: pos(ctx.Code) >= old(pos(ctx.Code))
  set who[ncalls] = p
  set at[ncalls] = old(pos(ctx.Code))
  set res[ncalls] = r
  set endp[ncalls] = pos(ctx.Code)
  set ncalls = ncalls + 1

props C01
func (*choice).parse(ch, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  modifies all
  ghostwrites
  hint ncalls - n0 == ?i
  hint pos(ctx.Code) == p0
  hint forall j :: n0 <= j < ncalls ==> who[j] == ch.choices[j - n0] && at[j] == p0 && res[j] == nil
  ensures order: forall j :: n0 <= j < ncalls ==> who[j] == ch.choices[j - n0] && at[j] == p0
  ensures prior: forall j :: n0 <= j < ncalls - 1 ==> res[j] == nil
  ensures hit: r != nil ==> ncalls > n0 && r == res[ncalls - 1] && pos(ctx.Code) == endp[ncalls - 1]
  ensures miss: r == nil ==> ncalls - n0 == len(ch.choices) && pos(ctx.Code) == p0 && (forall j :: n0 <= j < ncalls ==> res[j] == nil)

func (*rank).parse(rk, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  modifies all
  ghostwrites
  hint ncalls - n0 == ?i
  hint pos(ctx.Code) == p0
  hint forall j :: n0 <= j < ncalls ==> who[j] == rk.choice.choices[j - n0] && at[j] == p0 && res[j] == nil
  ensures order: forall j :: n0 <= j < ncalls ==> who[j] == rk.choice.choices[j - n0] && at[j] == p0
  ensures prior: forall j :: n0 <= j < ncalls - 1 ==> res[j] == nil
  ensures hit: r != nil ==> ncalls > n0 && r == res[ncalls - 1] && pos(ctx.Code) == endp[ncalls - 1]
  ensures miss: r == nil ==> ncalls - n0 == len(rk.choice.choices) && pos(ctx.Code) == p0 && (forall j :: n0 <= j < ncalls ==> res[j] == nil)

props C07
fn undef(a: Ast): bool = isnil(a) || typeis(a, NativeUndefined)

func (*existential).parse(ex, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  modifies all
  ghostwrites
  ensures once: ncalls == n0 + 1 && who[n0] == ex.it && at[n0] == p0
  ensures hit: res[n0] != nil ==> r == res[n0] && pos(ctx.Code) == endp[n0]
  ensures miss: res[n0] == nil ==> typeis(r, NativeUndefined) && pos(ctx.Code) == p0

props C06
func (*lookahead).parse(look, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  modifies all
  ghostwrites
  ensures once: ncalls == n0 + 1 && who[n0] == look.expr && at[n0] == p0
  ensures verdict: (r == nil) <==> (res[n0] == nil)
  ensures still: pos(ctx.Code) == p0

func (*not).parse(no, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  modifies all
  ghostwrites
  ensures once: ncalls == n0 + 1 && who[n0] == no.it && at[n0] == p0
  ensures verdict: (r == nil) <==> (res[n0] != nil)
  ensures value: r != nil ==> typeis(r, NativeUndefined)
  ensures still: pos(ctx.Code) == p0

props C08
func (str).parse(s, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let p0 = pos(ctx.Code)
  let w = work(ctx.Code)
  let lit = s.Str
  modifies all
  ensures iff: r != nil <==> (p0 + len(lit) <= len(w) && w[p0:p0 + len(lit)] == lit)
  ensures hit: r != nil ==> typeis(r, NativeString) && as(r, NativeString) == lit && pos(ctx.Code) == p0 + len(lit)
  ensures miss: r == nil ==> pos(ctx.Code) == p0

func (*regex).parse(re, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let p0 = pos(ctx.Code)
  let rest = work(ctx.Code)[pos(ctx.Code):]
  let e = re.re
  modifies all
  ensures iff: r != nil <==> (found(e, rest) && begof(e, rest) == 0)
  ensures hit: r != nil ==> pos(ctx.Code) == p0 + endof(e, rest) && typeis(r, NativeString) && as(r, NativeString) == work(ctx.Code)[p0:pos(ctx.Code)]
  ensures miss: r == nil ==> pos(ctx.Code) == p0

props C04 C05
fn count(m: []Ast, n0: int, joined: bool): bool = len(m) >= 1 && ncalls - n0 == (joined ? 2 * len(m) - 1 : len(m))
fn atMost(m: []Ast, hi: int): bool = len(m) <= hi
fn picked(m: []Ast, n0: int, joined: bool, val: Parser, jn: Parser): bool = forall i :: 0 <= i < len(m) ==>
    m[i] == res[n0 + (joined ? 2 * i : i)] && who[n0 + (joined ? 2 * i : i)] == val && (joined && i >= 1 ==> who[n0 + 2 * i - 1] == jn)

# the number of calls whose matches are kept
fn used(m: []Ast, joined: bool): int = (len(m) == 0 ? 0 : (joined ? 2 * len(m) - 1 : len(m)))
# why no further element was taken: the maximum, a failure of the join or of the
# value, or (without a maximum) a value that matched nothing
fn stopped(m: []Ast, n0: int, joined: bool, val: Parser, jn: Parser, hi: int): bool =
    (hi >= 0 && len(m) == hi && ncalls == n0 + used(m, joined))
    || (len(m) == 0 && ncalls == n0 + 1 && res[n0] == nil)
    || (len(m) > 0 && !joined && ncalls == n0 + used(m, joined) + 1 && who[ncalls - 1] == val
        && (res[ncalls - 1] == nil || (hi < 0 && endp[ncalls - 1] == endp[ncalls - 2])))
    || (len(m) > 0 && joined && ncalls == n0 + used(m, joined) + 1 && who[ncalls - 1] == jn && res[ncalls - 1] == nil)
    || (len(m) > 0 && joined && ncalls == n0 + used(m, joined) + 2 && who[ncalls - 2] == jn && who[ncalls - 1] == val
        && (res[ncalls - 1] == nil || (hi < 0 && endp[ncalls - 1] == endp[ncalls - 3])))

func (*pattern).parse(patt, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  let joined = !undef(patt.join)
  let val = patt.value
  let jn = patt.join
  let lo = patt.min
  let hi = patt.max
  modifies all
  ghostwrites
  hint forall j :: n0 <= j < ncalls ==> res[j] != nil
  hint count(?m:[]Ast, n0, joined)
  hint hi < 0 || atMost(?m:[]Ast, hi)
  hint ncalls > n0 && pos(ctx.Code) == endp[ncalls - 1]
  hint forall j :: n0 <= j < ncalls ==> at[j] == (j == n0 ? p0 : endp[j - 1])
  hint ctxOk(ctx) && p0 <= pos(ctx.Code)
  hint picked(?m:[]Ast, n0, joined, val, jn)
  decreases hi < 0 ? max(0, lo - len(?m:[]Ast)) + len(work(ctx.Code)) - pos(ctx.Code) : hi - len(?m:[]Ast)
  ensures none: hi == 0 ==> ncalls == n0
  ensures first: hi != 0 ==> ncalls > n0 && who[n0] == val && at[n0] == p0
  ensures chain: forall j :: n0 < j < ncalls ==> at[j] == endp[j - 1] && res[j - 1] != nil
  ensures typ: r != nil ==> typeis(r, *NativeArray)
  ensures values: r != nil ==> picked(*as(r, *NativeArray), n0, joined, val, jn)
  ensures bounds: r != nil ==> (hi < 0 || len(*as(r, *NativeArray)) <= hi) && len(*as(r, *NativeArray)) >= lo
  ensures cursor: r != nil ==> pos(ctx.Code) == (len(*as(r, *NativeArray)) == 0 ? p0 : endp[n0 + used(*as(r, *NativeArray), joined) - 1])
  ensures greedy: r != nil ==> stopped(*as(r, *NativeArray), n0, joined, val, jn, hi)
  ensures miss: r == nil ==> pos(ctx.Code) == p0 && lo > 0
  ensures few: r == nil && hi != 0 && res[ncalls - 1] == nil ==> ncalls - n0 <= (joined ? 2 * lo - 1 : lo)
  ensures cut: r == nil && hi != 0 && res[ncalls - 1] != nil ==> 0 <= hi < lo && ncalls - n0 == (joined ? 2 * hi - 1 : hi)

props C02 C03
# the first n entries of b are those of a
fn upto(a: *NativeMap, b: *NativeMap, n: int): bool = len(a.keys) == n && n <= len(b.keys)
    && (forall i :: 0 <= i < n ==> a.keys[i] == b.keys[i] && a.vals[b.keys[i]] == b.vals[b.keys[i]])

fn valsOf(a: Ast): map[string]Ast = typeis(a, *NativeMap) ? as(a, *NativeMap).vals : nil
fn keysOf(a: Ast): []string = typeis(a, *NativeMap) ? as(a, *NativeMap).keys : nil
fn mapOf(a: Ast): *NativeMap = typeis(a, *NativeMap) ? as(a, *NativeMap) : nil

func copyIfMap(it) r
  let isMap = typeis(it, *NativeMap)
  let good = mapOf(it) != nil && nmOk(mapOf(it))
  modifies nothing
  hint ownMap(?m:*NativeMap)
  hint nmOk(?m:*NativeMap)
  hint good ==> nmOk(mapOf(it))
  hint good ==> upto(?m:*NativeMap, as(it, *NativeMap), ?i)
  ensures other: !isMap ==> r == it
  ensures copy: isMap ==> typeis(r, *NativeMap) && ownMap(mapOf(r)) && nmOk(mapOf(r))
  proves order: good ==> upto(mapOf(r), mapOf(it), len(mapOf(it).keys))
  proves same: good ==> (forall q: string :: (has(mapOf(r).vals, q) <==> has(mapOf(it).vals, q)) && (has(mapOf(it).vals, q) ==> mapOf(r).vals[q] == mapOf(it).vals[q]))

# a map allocated by the function
fn ownMap(m: *NativeMap): bool = fresh(m) && fresh(m.vals) && (fresh(m.keys) || arr(m.keys) == 0)
# the two maps share nothing
fn apart(a: Ast, b: Ast): bool = mapOf(a) != mapOf(b) && valsOf(a) != valsOf(b) && arr(keysOf(a)) != arr(keysOf(b))

func merge(a, b) r
  requires typeis(a, *NativeMap) ==> mapOf(a) != nil && nmOk(mapOf(a))
  let both = !isnil(a) && typeis(a, *NativeMap) && typeis(b, *NativeMap)
  let good = both && mapOf(b) != nil && nmOk(mapOf(b)) && apart(a, b)
  let ks = keysOf(a)
  modifies map map[string]Ast@valsOf(a), NativeMap.keys@mapOf(a), elems string@keysOf(a)
  unframed rule.label
  hint mapOf(a).vals == old(mapOf(a).vals) && nmOk(mapOf(a)) && (fresh(mapOf(a).keys) || arr(mapOf(a).keys) == arr(ks))
  hint good ==> mapOf(b).keys == old(mapOf(b).keys) && mapOf(b).vals == old(mapOf(b).vals)
  hint good ==> (forall q: string :: (has(mapOf(b).vals, q) <==> old(has(mapOf(b).vals, q))) && mapOf(b).vals[q] == old(mapOf(b).vals[q]))
  hint good ==> (forall j :: 0 <= j < len(mapOf(b).keys) ==> mapOf(b).keys[j] == old(mapOf(b).keys[j]))
  hint good ==> (forall j :: 0 <= j < ?i ==> has(mapOf(a).vals, mapOf(b).keys[j]) && mapOf(a).vals[mapOf(b).keys[j]] == mapOf(b).vals[mapOf(b).keys[j]])
  hint good ==> (forall q: string :: old(has(mapOf(a).vals, q)) ==> has(mapOf(a).vals, q))
  hint good ==> (forall q: string :: has(mapOf(a).vals, q) && !old(has(mapOf(a).vals, q)) ==> has(mapOf(b).vals, q))
  hint good ==> (forall q: string :: !has(mapOf(b).vals, q) ==> mapOf(a).vals[q] == old(mapOf(a).vals[q]))
  ensures target: r == a
  ensures ok: typeis(a, *NativeMap) ==> mapOf(a).vals == old(mapOf(a).vals) && nmOk(mapOf(a)) && (fresh(mapOf(a).keys) || arr(mapOf(a).keys) == arr(ks))
  proves union: good ==> (forall q: string :: has(mapOf(a).vals, q) <==> (old(has(mapOf(a).vals, q)) || old(has(mapOf(b).vals, q))))
  proves newer: good ==> (forall q: string :: old(has(mapOf(b).vals, q)) ==> mapOf(a).vals[q] == old(mapOf(b).vals[q]))
  proves older: good ==> (forall q: string :: !old(has(mapOf(b).vals, q)) ==> mapOf(a).vals[q] == old(mapOf(a).vals[q]))

func (*sequence).parse(seq, ctx) r
  implements Parser.parse
  core wrap
  requires ctxOk(ctx)
  let n0 = ncalls
  let p0 = pos(ctx.Code)
  # number of captures among the first k elements, and the last of them (-1: none)
  rec ncap(k: int): int = k <= 0 ? 0 : ncap(k - 1) + (ruleOf(seq.sequence[k - 1]).capture ? 1 : 0)
  rec lastcap(k: int): int = k <= 0 ? -1 : (ruleOf(seq.sequence[k - 1]).capture ? k - 1 : lastcap(k - 1))
  # the last of the first k elements labelled q (-1: none)
  rec lastlab(k: int, q: string): int = k <= 0 ? -1 : (q != "" && ruleOf(seq.sequence[k - 1]).label == q ? k - 1 : lastlab(k - 1, q))
  let merges = exists k :: 0 <= k < len(seq.sequence) && (ruleOf(seq.sequence[k]).label == "&" || ruleOf(seq.sequence[k]).label == "@")
  modifies all
  ghostwrites
  hint ctxOk(ctx)
  hint ncalls - n0 == ?i
  hint forall j :: n0 <= j < ncalls ==> who[j] == seq.sequence[j - n0]
  hint forall j :: n0 <= j < ncalls ==> res[j] != nil
  hint forall j :: n0 <= j < ncalls ==> at[j] == (j == n0 ? p0 : endp[j - 1])
  hint pos(ctx.Code) == (ncalls == n0 ? p0 : endp[ncalls - 1])
  hint p0 <= pos(ctx.Code)
  hint -1 <= lastcap(ncalls - n0) < ncalls - n0
  hint isnil(?r:Ast) ? lastcap(ncalls - n0) < 0 : lastcap(ncalls - n0) >= 0 && ?r:Ast == res[n0 + lastcap(ncalls - n0)]
  hint forall k :: 0 <= k <= ncalls - n0 ==> 0 <= ncap(k) <= ncap(ncalls - n0)
  hint len(?m:[]Ast) == ncap(ncalls - n0)
  hint forall k :: 0 <= k < ncalls - n0 && ruleOf(seq.sequence[k]).capture ==> ncap(k) < ncap(ncalls - n0) && (?m:[]Ast)[ncap(k)] == res[n0 + k]
  hint typeis(?r:Ast, *NativeMap) ==> ownMap(mapOf(?r)) && nmOk(mapOf(?r))
  hint !merges ==> isnil(?r:Ast) || typeis(?r, *NativeMap)
  hint !merges && isnil(?r:Ast) ==> (forall q: string :: lastlab(ncalls - n0, q) < 0)
  hint !merges && !isnil(?r:Ast) ==> (forall q: string :: has(mapOf(?r).vals, q) <==> lastlab(ncalls - n0, q) >= 0)
  hint !merges && !isnil(?r:Ast) ==> (forall q: string :: has(mapOf(?r).vals, q) ==> mapOf(?r).vals[q] == res[n0 + lastlab(ncalls - n0, q)])
  hint forall q: string :: -1 <= lastlab(ncalls - n0, q) < ncalls - n0
  ensures [C02] order: forall j :: n0 <= j < ncalls ==> who[j] == seq.sequence[j - n0] && at[j] == (j == n0 ? p0 : endp[j - 1])
  ensures [C02] prior: forall j :: n0 <= j < ncalls - 1 ==> res[j] != nil
  ensures [C02] hit: r != nil && len(seq.sequence) > 0 ==> ncalls - n0 == len(seq.sequence) && res[ncalls - 1] != nil && pos(ctx.Code) == endp[ncalls - 1]
  ensures [C02] empty: len(seq.sequence) == 0 ==> r != nil && ncalls == n0 && pos(ctx.Code) == p0
  ensures [C02] miss: r == nil ==> ncalls > n0 && res[ncalls - 1] == nil
  ensures [C03] single: r != nil && gottype == 0 ==> (lastcap(len(seq.sequence)) < 0 ? typeis(r, NativeUndefined) : r == res[n0 + lastcap(len(seq.sequence))])
  ensures [C03] array: r != nil && gottype == 1 ==> typeis(r, *NativeArray) && len(*as(r, *NativeArray)) == ncap(len(seq.sequence))
  ensures [C03] elements: r != nil && gottype == 1 ==> (forall k :: 0 <= k < len(seq.sequence) && ruleOf(seq.sequence[k]).capture ==> (*as(r, *NativeArray))[ncap(k)] == res[n0 + k])
  ensures [C03] object: r != nil && gottype == 2 && !merges ==> (isnil(mapOf(r)) ? typeis(r, NativeUndefined) && (forall q: string :: lastlab(len(seq.sequence), q) < 0) : nmOk(mapOf(r)))
  ensures [C03] labels: r != nil && gottype == 2 && !merges && mapOf(r) != nil ==> (forall q: string :: has(mapOf(r).vals, q) <==> lastlab(len(seq.sequence), q) >= 0)
  ensures [C03] values: r != nil && gottype == 2 && !merges && mapOf(r) != nil ==> (forall q: string :: has(mapOf(r).vals, q) ==> mapOf(r).vals[q] == res[n0 + lastlab(len(seq.sequence), q)])
