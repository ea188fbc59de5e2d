package github.com/grepsuzette/joeson

# The two streams of the package; no other type can be a CodeStream (it has an
# unexported method). pos is the cursor, work the text the parsers see.
fn isRS(c: CodeStream): bool = typeis(c, *RuneStream)
fn csOk(c: CodeStream): bool =
    (isRS(c) ? !isnil(as(c, *RuneStream)) && rsOk(as(c, *RuneStream))
     : typeis(c, *TokenStream) && !isnil(as(c, *TokenStream)) && tsOk(as(c, *TokenStream)))
fn pos(c: CodeStream): int = (isRS(c) ? as(c, *RuneStream).pos : as(c, *TokenStream).workOffset)
fn work(c: CodeStream): string = (isRS(c) ? as(c, *RuneStream).text : as(c, *TokenStream).work)
fn usertext(c: CodeStream): string = (isRS(c) ? as(c, *RuneStream).text : as(c, *TokenStream).original)

props C14
iface CodeStream.Pos(c) r
  requires csOk(c)
  modifies nothing
  nopanic
  ensures r == pos(c)

iface CodeStream.SetPos(c, n)
  requires csOk(c)
  modifies RuneStream.pos@as(c, *RuneStream), TokenStream.workOffset@as(c, *TokenStream)
  panics_when n < 0 || n > len(work(c))
  ensures moved: pos(c) == n
  ensures ok: csOk(c)

iface CodeStream.workLength(c) r
  requires csOk(c)
  modifies nothing
  nopanic
  ensures r == len(work(c))

iface CodeStream.Length(c) r
  requires csOk(c)
  modifies nothing
  nopanic
  ensures r == len(usertext(c))

iface CodeStream.Code(c) r
  requires csOk(c)
  modifies nothing
  nopanic
  ensures r == usertext(c)

# p is on line r (line and column count from 0; for tokens those of the token's place in the source)
fn lineIs(c: CodeStream, p: int, r: int): bool =
    (isRS(c) ==> onLine(as(c, *RuneStream).lineStarts, p, r))
    && (!isRS(c) ==> (exists i :: inTok(as(c, *TokenStream), p, i) && onLine(as(c, *TokenStream).lineStarts, orig(as(c, *TokenStream), p, i), r)))
fn colIs(c: CodeStream, p: int, r: int): bool =
    (isRS(c) ==> (exists k :: onLine(as(c, *RuneStream).lineStarts, p, k) && r == p - as(c, *RuneStream).lineStarts[k]))
    && (!isRS(c) ==> (exists i, k :: inTok(as(c, *TokenStream), p, i) && onLine(as(c, *TokenStream).lineStarts, orig(as(c, *TokenStream), p, i), k) && r == orig(as(c, *TokenStream), p, i) - as(c, *TokenStream).lineStarts[k]))

iface CodeStream.Line(c) r
  requires csOk(c)
  modifies nothing
  nopanic
  ensures 0 <= r
  ensures line: lineIs(c, pos(c), r)

iface CodeStream.Col(c) r
  requires csOk(c)
  modifies nothing
  nopanic
  ensures 0 <= r

# the positions last asked about
ghost lineq int
ghost liner int
ghost colq int
ghost colr int
iface CodeStream.PosToLine(c, p) r
  requires csOk(c)
  requires 0 <= p <= len(work(c))
  modifies nothing
  nopanic
  ensures 0 <= r
  ensures line: lineIs(c, p, r)
  set lineq = p
  set liner = r

iface CodeStream.PosToCol(c, p) r
  requires csOk(c)
  requires 0 <= p <= len(work(c))
  modifies nothing
  nopanic
  ensures 0 <= r
  ensures col: colIs(c, p, r)
  set colq = p
  set colr = r

iface CodeStream.PeekRunes(c, n) r
  requires csOk(c)
  modifies nothing
  nopanic

iface CodeStream.PeekLines(c, n) r
  requires csOk(c)
  modifies nothing
  nopanic

# a message: it may not move the cursor, and must always come out
iface CodeStream.Print(c) r
  requires csOk(c)
  modifies nothing
  nopanic

iface CodeStream.GetUntil(c, end) r
  requires csOk(c)
  modifies RuneStream.pos@as(c, *RuneStream), TokenStream.workOffset@as(c, *TokenStream)
  nopanic
  ensures ok: csOk(c)
  ensures text: old(pos(c)) <= pos(c) && r == work(c)[old(pos(c)):pos(c)]

iface CodeStream.MatchString(c, s) ok, m
  requires csOk(c)
  modifies RuneStream.pos@as(c, *RuneStream), TokenStream.workOffset@as(c, *TokenStream)
  nopanic
  ensures ok: csOk(c)
  ensures iff: ok <==> (old(pos(c)) + len(s) <= len(work(c)) && work(c)[old(pos(c)):old(pos(c)) + len(s)] == s)
  ensures hit: ok ==> pos(c) == old(pos(c)) + len(s) && m == s
  ensures miss: !ok ==> pos(c) == old(pos(c))

iface CodeStream.MatchRegexp(c, re) ok, m
  requires csOk(c)
  let rest = work(c)[pos(c):]
  modifies RuneStream.pos@as(c, *RuneStream), TokenStream.workOffset@as(c, *TokenStream)
  nopanic
  ensures ok: csOk(c)
  ensures iff: ok <==> (found(re, rest) && begof(re, rest) == 0)
  ensures hit: ok ==> pos(c) == old(pos(c)) + endof(re, rest) && m == work(c)[old(pos(c)):pos(c)]
  ensures fwd: pos(c) >= old(pos(c))
  ensures miss: !ok ==> pos(c) == old(pos(c))

iface CodeStream.MatchRune(c, f) ok, m
  requires csOk(c)
  requires !isnil(f)
  let here = pos(c)
  modifies RuneStream.pos@as(c, *RuneStream), TokenStream.workOffset@as(c, *TokenStream)
  nopanic
  ensures ok: csOk(c)
  ensures iff: ok <==> (here < len(work(c)) && runepred(f, runeat(work(c), here)))
  ensures hit: ok ==> pos(c) == here + runewidth(work(c), here) && m == runeat(work(c), here)
  ensures miss: !ok ==> pos(c) == here
