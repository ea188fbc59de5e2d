package github.com/grepsuzette/joeson

# ls lists the starts of the lines of t: 0 and the offset after each newline
fn startsOf(ls: []int, t: string): bool = startsUpTo(ls, t, len(t))
fn startsUpTo(ls: []int, t: string, n: int): bool =
    len(ls) >= 1 && ls[0] == 0
    && (forall i :: 0 <= i < len(ls) ==> 0 <= ls[i] <= n)
    && (forall i, j :: 0 <= i < j < len(ls) ==> ls[i] < ls[j])
    && (forall i :: 1 <= i < len(ls) ==> t[ls[i] - 1] == '\n')
    && (forall i, k :: 0 <= i < len(ls) && ls[i] <= k < n && t[k] == '\n' ==> i + 1 < len(ls) && ls[i + 1] <= k + 1)

fn rsOk(c: *RuneStream): bool = 0 <= c.pos <= len(c.text) && startsOf(c.lineStarts, c.text)

# p is on line r
fn onLine(ls: []int, p: int, r: int): bool = 0 <= r < len(ls) && ls[r] <= p && (r + 1 < len(ls) ==> p < ls[r + 1])

props C12 C14
func (*RuneStream).Pos(c) r
  implements CodeStream.Pos
  modifies nothing
  nopanic
  ensures r == c.pos

func (*RuneStream).SetPos(c, n)
  implements CodeStream.SetPos
  modifies RuneStream.pos@c
  panics_when bounds: n < 0 || n > len(c.text)
  ensures moved: c.pos == n

func (*RuneStream).Code(c) r
  implements CodeStream.Code
  modifies nothing
  nopanic
  ensures r == c.text

func (*RuneStream).Length(c) r
  implements CodeStream.Length
  modifies nothing
  nopanic
  ensures r == len(c.text)

func (*RuneStream).workLength(c) r
  implements CodeStream.workLength
  modifies nothing
  nopanic
  ensures r == len(c.text)

props C12
func NewRuneStream(text) r
  modifies nothing
  nopanic
  hint startsUpTo(?s:[]int, text, ?n)
  ensures typ: typeis(r, *RuneStream) && fresh(r)
  ensures text: as(r, *RuneStream).text == text && as(r, *RuneStream).pos == 0
  ensures lines: startsOf(as(r, *RuneStream).lineStarts, text)

func (*RuneStream).PosToLine(c, p) r
  implements CodeStream.PosToLine
  requires rsOk(c)
  requires 0 <= p <= len(c.text)
  modifies nothing
  nopanic
  ensures line: onLine(c.lineStarts, p, r)

func (*RuneStream).PosToCol(c, p) r
  implements CodeStream.PosToCol
  requires rsOk(c)
  requires 0 <= p <= len(c.text)
  modifies nothing
  nopanic
  ensures col: exists k :: onLine(c.lineStarts, p, k) && r == p - c.lineStarts[k]

func (*RuneStream).Line(c) r
  implements CodeStream.Line
  requires rsOk(c)
  modifies nothing
  nopanic
  ensures line: onLine(c.lineStarts, c.pos, r)

func (*RuneStream).Col(c) r
  implements CodeStream.Col
  requires rsOk(c)
  modifies nothing
  nopanic
  ensures col: exists k :: onLine(c.lineStarts, c.pos, k) && r == c.pos - c.lineStarts[k]

props C14 C15
func (*RuneStream).GetUntil(c, end) r
  implements CodeStream.GetUntil
  requires rsOk(c)
  let at = index(c.text[c.pos:], end)
  modifies RuneStream.pos@c
  nopanic
  ensures moved: c.pos == (at < 0 ? len(c.text) : old(c.pos) + at + len(end))
  ensures text: r == c.text[old(c.pos):c.pos]

props C08 C14
func (*RuneStream).MatchString(c, s) ok, m
  implements CodeStream.MatchString
  requires rsOk(c)
  modifies RuneStream.pos@c
  nopanic
  ensures iff: ok <==> (old(c.pos) + len(s) <= len(c.text) && c.text[old(c.pos):old(c.pos) + len(s)] == s)
  ensures hit: ok ==> c.pos == old(c.pos) + len(s) && m == s
  ensures miss: !ok ==> c.pos == old(c.pos)

func (*RuneStream).MatchRegexp(c, re) ok, m
  implements CodeStream.MatchRegexp
  requires rsOk(c)
  let rest = c.text[c.pos:]
  modifies RuneStream.pos@c
  nopanic
  ensures iff: ok <==> (found(re, rest) && begof(re, rest) == 0)
  ensures hit: ok ==> c.pos == old(c.pos) + endof(re, rest) && m == c.text[old(c.pos):c.pos]
  ensures miss: !ok ==> c.pos == old(c.pos)
  ensures in: 0 <= c.pos <= len(c.text)

props C14
functype func(rune) bool :: (f, r) b
  uf runepred

func (*RuneStream).MatchRune(c, f) ok, m
  implements CodeStream.MatchRune
  requires rsOk(c)
  requires !isnil(f)
  let here = c.pos
  modifies RuneStream.pos@c
  nopanic
  hint (?i == 0 && ?p == 0) || (?i == 1 && ?p == runewidth(c.text, here) && ?r:rune == runeat(c.text, here) && runepred(f, runeat(c.text, here)))
  ensures iff: ok <==> (here < len(c.text) && runepred(f, runeat(c.text, here)))
  ensures hit: ok ==> c.pos == here + runewidth(c.text, here) && m == runeat(c.text, here)
  ensures miss: !ok ==> c.pos == here

props C14 C15
# the end of the k runes of s that start at p, and their text
rec fwdr(s: string, p: int, k: int): int = k <= 0 ? p : (fwdr(s, p, k - 1) >= len(s) ? fwdr(s, p, k - 1) : fwdr(s, p, k - 1) + runewidth(s, fwdr(s, p, k - 1)))
rec runesof(s: string, p: int, k: int): string = k <= 0 ? "" : (fwdr(s, p, k - 1) >= len(s) ? runesof(s, p, k - 1) : runesof(s, p, k - 1) + string(runeat(s, fwdr(s, p, k - 1))))

props C14 C15
func (*RuneStream).PeekRunes(c, n) r
  implements CodeStream.PeekRunes
  requires rsOk(c)
  modifies nothing
  nopanic
  hint (?i >= 1 ==> ?p > 0) && ?p + c.pos == fwdr(c.text, c.pos, ?i)
  hint ?b:string == runesof(c.text, c.pos, ?i)
  ensures back: n <= 0 ==> r == c.text[backr(c.text[0:c.pos], 0 - n, c.pos):c.pos]
  ensures fwd: n > 0 ==> (exists k :: 0 <= k <= n && r == runesof(c.text, c.pos, k) && (k < n ==> fwdr(c.text, c.pos, k) >= len(c.text)))


# the lines a to b of t, those that exist
fn linesOf(t: string, ls: []int, a: int, b: int): string =
    (a > len(ls) - 1 || b < 0 || b < a ? "" : t[ls[max(0, a)]:(b < len(ls) - 1 ? ls[b + 1] - 1 : len(t))])

func (*RuneStream).PeekLines(c, n) r
  implements CodeStream.PeekLines
  requires rsOk(c)
  rec least(k: int): int = k <= 1 ? n[0] : min(least(k - 1), n[k - 1])
  rec greatest(k: int): int = k <= 1 ? n[0] : max(greatest(k - 1), n[k - 1])
  let lo = len(n) == 0 ? 0 : (len(n) == 1 ? min(n[0], 0) : least(len(n)))
  let hi = len(n) == 0 ? 0 : (len(n) == 1 ? max(n[0], 0) : greatest(len(n)))
  modifies nothing
  nopanic
  hint (len(n) >= 2 ==> ?m == least(?i)) && (len(n) == 1 ==> ?m == (?i <= 1 ? n[0] : min(n[0], 0))) && (len(n) == 0 ==> ?m == 0)
  hint (len(n) >= 2 ==> ?m == greatest(?i)) && (len(n) == 1 ==> ?m == (?i <= 1 ? n[0] : max(n[0], 0))) && (len(n) == 0 ==> ?m == 0)
  hint ?m <= ?n
  ensures online: exists k :: onLine(c.lineStarts, c.pos, k)
  ensures lines: forall k :: onLine(c.lineStarts, c.pos, k) ==> r == linesOf(c.text, c.lineStarts, k + lo, k + hi)

func (*RuneStream).Print(c) r
  implements CodeStream.Print
  requires rsOk(c)
  modifies nothing
  nopanic

func (*RuneStream).PrintDebug(c) r
  requires rsOk(c)
  modifies nothing
  nopanic
