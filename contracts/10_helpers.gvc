package github.com/grepsuzette/joeson/helpers
props C21

func Min[int](a, b) r
  modifies nothing
  nopanic
  ensures min: r == (a <= b ? a : b)

func Max[int](a, b) r
  modifies nothing
  nopanic
  ensures max: r == (a >= b ? a : b)

func SliceString(s, start, end) r
  modifies nothing
  nopanic
  let a = start < 0 ? max(start + len(s), 0) : start
  let b = min(end < 0 ? max(end + len(s), 0) : end, len(s))
  ensures clamp: r == (a >= b ? "" : s[a:b])

func PadLeft(s, n) r
  modifies nothing
  nopanic
  ensures pad: r == (n > len(s) ? s + repeat(" ", n - len(s)) : s)

func PadRight(s, n) r
  modifies nothing
  nopanic
  ensures pad: r == (n > len(s) ? repeat(" ", n - len(s)) + s : s)

func BoolToString(b) r
  modifies nothing
  nopanic
  ensures r == (b ? "y" : "n")

# a[:r] holds the elements at most n, a[r:] the greater ones
func BisectRight(a, n) r
  modifies nothing
  nopanic
  requires sorted: forall i, j :: 0 <= i <= j < len(a) ==> a[i] <= a[j]
  ensures range: 0 <= r <= len(a)
  ensures left: forall i :: 0 <= i < r ==> a[i] <= n
  ensures right: forall i :: r <= i < len(a) ==> n < a[i]

func BisectLeft(a, n) r
  modifies nothing
  nopanic
  requires sorted: forall i, j :: 0 <= i <= j < len(a) ==> a[i] <= a[j]
  ensures range: 0 <= r <= len(a)
  ensures left: forall i :: 0 <= i < r ==> a[i] < n
  ensures right: forall i :: r <= i < len(a) ==> n <= a[i]

# the start of the k runes of s that end at e
rec backr(s: string, k: int, e: int): int = k <= 0 || e <= 0 ? e : backr(s, k - 1, e - lastwidth(s[0:e]))

props C15 C21
func LastNRunes(s, n) r
  modifies nothing
  nopanic
  hint ?t + len(?s:string) == len(s) && ?s == s[0:len(?s)] && backr(s, ?k, len(?s)) == backr(s, n, len(s))
  ensures range: 0 <= backr(s, n, len(s)) <= len(s)
  ensures suffix: r == s[backr(s, n, len(s)):len(s)]

props C21
# r is a with n added at place k
fn added(r: []int, a: []int, n: int, k: int): bool =
    len(r) == len(a) + 1 && 0 <= k <= len(a) && r[k] == n
    && (forall i :: 0 <= i < k ==> r[i] == old(a[i]))
    && (forall i :: k <= i < len(a) ==> r[i + 1] == old(a[i]))

func insert(a, at, val) r
  requires 0 <= at <= len(a)
  modifies elems int
  nopanic
  ensures added: added(r, a, val, at)

func InsortRight(a, x) r
  requires sorted: forall i, j :: 0 <= i <= j < len(a) ==> a[i] <= a[j]
  modifies elems int
  nopanic
  ensures one: exists k :: added(r, a, x, k)
  ensures sorted: forall i, j :: 0 <= i <= j < len(r) ==> r[i] <= r[j]

func InsortLeft(a, x) r
  requires sorted: forall i, j :: 0 <= i <= j < len(a) ==> a[i] <= a[j]
  modifies elems int
  nopanic
  ensures one: exists k :: added(r, a, x, k)
  ensures sorted: forall i, j :: 0 <= i <= j < len(r) ==> r[i] <= r[j]

props C17 C21
func Escape(s) r
  modifies nothing
  nopanic

func TypeOfToString(t) r
  modifies nothing
