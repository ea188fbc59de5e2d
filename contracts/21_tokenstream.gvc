package github.com/grepsuzette/joeson

# the tokens tile the work text: transitive form of contiguity
fn tokOk(ts: []Token, n: int): bool =
    (len(ts) > 0 ==> ts[0].WorkOffset == 0 && ts[len(ts) - 1].WorkOffset + len(ts[len(ts) - 1].Repr) == n)
    && (len(ts) == 0 ==> n == 0)
    && (forall i :: 0 <= i < len(ts) ==> 0 <= ts[i].OriginalOffset && 0 <= ts[i].WorkOffset <= n)
    && (forall i, j :: 0 <= i < j < len(ts) ==> ts[i].WorkOffset + len(ts[i].Repr) <= ts[j].WorkOffset)
    && (forall i :: 1 <= i < len(ts) ==> ts[i].WorkOffset == ts[i - 1].WorkOffset + len(ts[i - 1].Repr))

fn tsPos(c: *TokenStream): bool = 0 <= c.workOffset <= len(c.work)
fn tsOk(c: *TokenStream): bool = tsPos(c) && startsOf(c.lineStarts, c.original) && tokOk(c.tokens, len(c.work))

# i is the token of work offset p; and the offset in the original text
fn inTok(c: *TokenStream, p: int, i: int): bool =
    (len(c.tokens) == 0 ? i == 0
     : 0 <= i < len(c.tokens) && c.tokens[i].WorkOffset <= p && (p < c.tokens[i].WorkOffset + len(c.tokens[i].Repr) || i == len(c.tokens) - 1))
fn orig(c: *TokenStream, p: int, i: int): int = (len(c.tokens) == 0 ? 0 : c.tokens[i].OriginalOffset + p - c.tokens[i].WorkOffset)

props C13
func (*TokenStream).coords(c, p) r
  requires tsOk(c)
  requires 0 <= p <= len(c.work)
  modifies nothing
  nopanic
  hint ?n >= 0 && (forall j :: 0 <= j < ?n ==> p >= c.tokens[j].WorkOffset + len(c.tokens[j].Repr))
  ensures maps: exists i :: inTok(c, p, i) && r.originalOffset == orig(c, p, i)
  ensures only: forall i :: inTok(c, p, i) ==> r.originalOffset == orig(c, p, i)
  ensures nonneg: 0 <= r.originalOffset

func (*TokenStream).PosToLine(c, p) r
  implements CodeStream.PosToLine
  requires tsOk(c)
  requires 0 <= p <= len(c.work)
  modifies nothing
  nopanic
  ensures line: exists i :: inTok(c, p, i) && onLine(c.lineStarts, orig(c, p, i), r)
  ensures only: forall i, k :: inTok(c, p, i) && onLine(c.lineStarts, orig(c, p, i), k) ==> r == k

func (*TokenStream).PosToCol(c, p) r
  implements CodeStream.PosToCol
  requires tsOk(c)
  requires 0 <= p <= len(c.work)
  modifies nothing
  nopanic
  ensures col: exists i, k :: inTok(c, p, i) && onLine(c.lineStarts, orig(c, p, i), k) && r == orig(c, p, i) - c.lineStarts[k]

func (*TokenStream).Line(c) r
  implements CodeStream.Line
  requires tsOk(c)
  modifies nothing
  nopanic
  ensures line: exists i :: inTok(c, c.workOffset, i) && onLine(c.lineStarts, orig(c, c.workOffset, i), r)
  ensures only: forall i, k :: inTok(c, c.workOffset, i) && onLine(c.lineStarts, orig(c, c.workOffset, i), k) ==> r == k

func (*TokenStream).Col(c) r
  implements CodeStream.Col
  requires tsOk(c)
  modifies nothing
  nopanic
  ensures col: exists i, k :: inTok(c, c.workOffset, i) && onLine(c.lineStarts, orig(c, c.workOffset, i), k) && r == orig(c, c.workOffset, i) - c.lineStarts[k]

props C13 C25
func NewTokenStream(text, tokens) r
  rec cat(n: int): string = n <= 0 ? "" : cat(n - 1) + tokens[n - 1].Repr
  modifies nothing
  nopanic
  hint startsUpTo(?s:[]int, text, ?n)
  hint ?b:string == cat(?n)
  ensures fresh: fresh(r) && r != nil
  ensures start: r.workOffset == 0
  ensures text: r.original == text && r.tokens == tokens
  ensures work: r.work == cat(len(tokens))
  ensures lines: startsOf(r.lineStarts, text)

props C14
func (*TokenStream).Pos(c) r
  implements CodeStream.Pos
  modifies nothing
  nopanic
  ensures r == c.workOffset

func (*TokenStream).SetPos(c, n)
  implements CodeStream.SetPos
  modifies TokenStream.workOffset@c
  panics_when bounds: n < 0 || n > len(c.work)
  ensures moved: c.workOffset == n

func (*TokenStream).Code(c) r
  implements CodeStream.Code
  modifies nothing
  nopanic
  ensures r == c.original

func (*TokenStream).Length(c) r
  implements CodeStream.Length
  modifies nothing
  nopanic
  ensures r == len(c.original)

func (*TokenStream).workLength(c) r
  implements CodeStream.workLength
  modifies nothing
  nopanic
  ensures r == len(c.work)

props C14 C15
func (*TokenStream).GetUntil(c, end) r
  implements CodeStream.GetUntil
  requires tsPos(c)
  let at = index(c.work[c.workOffset:], end)
  modifies TokenStream.workOffset@c
  nopanic
  ensures moved: c.workOffset == (at < 0 ? len(c.work) : old(c.workOffset) + at + len(end))
  ensures text: r == c.work[old(c.workOffset):c.workOffset]

props C08 C14
func (*TokenStream).MatchString(c, s) ok, m
  implements CodeStream.MatchString
  requires tsPos(c)
  modifies TokenStream.workOffset@c
  nopanic
  ensures iff: ok <==> (old(c.workOffset) + len(s) <= len(c.work) && c.work[old(c.workOffset):old(c.workOffset) + len(s)] == s)
  ensures hit: ok ==> c.workOffset == old(c.workOffset) + len(s) && m == s
  ensures miss: !ok ==> c.workOffset == old(c.workOffset)

func (*TokenStream).MatchRegexp(c, re) ok, m
  implements CodeStream.MatchRegexp
  requires tsPos(c)
  let rest = c.work[c.workOffset:]
  modifies TokenStream.workOffset@c
  nopanic
  ensures iff: ok <==> (found(re, rest) && begof(re, rest) == 0)
  ensures hit: ok ==> c.workOffset == old(c.workOffset) + endof(re, rest) && m == c.work[old(c.workOffset):c.workOffset]
  ensures miss: !ok ==> c.workOffset == old(c.workOffset)
  ensures in: 0 <= c.workOffset <= len(c.work)

props C14
func (*TokenStream).MatchRune(c, f) ok, m
  implements CodeStream.MatchRune
  requires tsPos(c)
  requires !isnil(f)
  let here = c.workOffset
  modifies TokenStream.workOffset@c
  nopanic
  hint (?i == 0 && ?p == 0) || (?i == 1 && ?p == runewidth(c.work, here) && ?r:rune == runeat(c.work, here) && runepred(f, runeat(c.work, here)))
  ensures iff: ok <==> (here < len(c.work) && runepred(f, runeat(c.work, here)))
  ensures hit: ok ==> c.workOffset == here + runewidth(c.work, here) && m == runeat(c.work, here)
  ensures miss: !ok ==> c.workOffset == here

props C14 C15
func (*TokenStream).PeekRunes(c, n) r
  implements CodeStream.PeekRunes
  requires tsOk(c)
  modifies nothing
  nopanic
  hint (?i >= 1 ==> ?p > 0) && ?p + c.workOffset == fwdr(c.work, c.workOffset, ?i)
  hint ?b:string == runesof(c.work, c.workOffset, ?i)
  ensures back: n <= 0 ==> r == c.work[backr(c.work[0:c.workOffset], 0 - n, c.workOffset):c.workOffset]
  ensures fwd: n > 0 ==> (exists k :: 0 <= k <= n && r == runesof(c.work, c.workOffset, k) && (k < n ==> fwdr(c.work, c.workOffset, k) >= len(c.work)))


func (*TokenStream).PeekLines(c, n) r
  implements CodeStream.PeekLines
  requires tsOk(c)
  rec least(k: int): int = k <= 1 ? n[0] : min(least(k - 1), n[k - 1])
  rec greatest(k: int): int = k <= 1 ? n[0] : max(greatest(k - 1), n[k - 1])
  let lo = len(n) == 0 ? 0 : (len(n) == 1 ? min(n[0], 0) : least(len(n)))
  let hi = len(n) == 0 ? 0 : (len(n) == 1 ? max(n[0], 0) : greatest(len(n)))
  modifies nothing
  nopanic
  hint (len(n) >= 2 ==> ?m == least(?i)) && (len(n) == 1 ==> ?m == (?i <= 1 ? n[0] : min(n[0], 0))) && (len(n) == 0 ==> ?m == 0)
  hint (len(n) >= 2 ==> ?m == greatest(?i)) && (len(n) == 1 ==> ?m == (?i <= 1 ? n[0] : max(n[0], 0))) && (len(n) == 0 ==> ?m == 0)
  hint ?m <= ?n
  ensures lines: forall i, k :: inTok(c, c.workOffset, i) && onLine(c.lineStarts, orig(c, c.workOffset, i), k) ==> r == linesOf(c.original, c.lineStarts, k + lo, k + hi)

func (*TokenStream).Print(c) r
  implements CodeStream.Print
  requires tsOk(c)
  modifies nothing
  nopanic
