package github.com/grepsuzette/joeson

props C19
# ks lists the keys of h, each once
fn lists(ks: []string, h: map[string]Ast): bool =
    (forall i :: 0 <= i < len(ks) ==> has(h, ks[i]))
    && (forall i, j :: 0 <= i < j < len(ks) ==> ks[i] != ks[j])
    && (forall k: string :: has(h, k) ==> (exists i :: 0 <= i < len(ks) && ks[i] == k))

func helpers.SortStringKeys[Ast](h) r
  modifies nothing
  nopanic
  hint forall i :: 0 <= i < len(?a:[]string) ==> has(h, ?a[i]) && seen(?it:iter, ?a[i])
  hint forall i, j :: 0 <= i < j < len(?a:[]string) ==> ?a[i] != ?a[j]
  hint forall k: string :: seen(?it:iter, k) ==> (exists i :: 0 <= i < len(?a:[]string) && ?a[i] == k)
  ensures lists: lists(r, h)
  ensures sorted: forall i, j :: 0 <= i < j < len(r) ==> r[i] < r[j]
  ensures fresh: fresh(r) || arr(r) == 0

fn nmOk(nm: *NativeMap): bool = nm.vals != nil && lists(nm.keys, nm.vals)

func NewNativeMap(h) r
  requires h != nil
  modifies nothing
  nopanic
  ensures fresh: fresh(r) && nmOk(r) && r.vals == h
  ensures sorted: forall i, j :: 0 <= i < j < len(r.keys) ==> r.keys[i] < r.keys[j]
  ensures own: fresh(r.keys) || arr(r.keys) == 0
  ensures attr: fresh(r.Attr)

func NewEmptyNativeMap() r
  modifies nothing
  nopanic
  ensures fresh: fresh(r) && fresh(r.vals) && nmOk(r)
  ensures own: fresh(r.keys) || arr(r.keys) == 0
  ensures empty: len(r.keys) == 0 && len(r.vals) == 0 && (forall k: string :: !has(r.vals, k))

func (*NativeMap).Set(nm, k, v)
  requires nmOk(nm)
  let known = has(nm.vals, k)
  let ks = nm.keys
  modifies map map[string]Ast@nm.vals, NativeMap.keys@nm, elems string@nm.keys
  nopanic
  hint forall i :: 0 <= i < ?i ==> nm.keys[i] != k
  ensures stored: has(nm.vals, k) && nm.vals[k] == v
  ensures others: forall q: string :: q != k ==> (has(nm.vals, q) <==> old(has(nm.vals, q))) && nm.vals[q] == old(nm.vals[q])
  ensures kept: known ==> len(nm.keys) == old(len(nm.keys))
  ensures appended: !known ==> len(nm.keys) == old(len(nm.keys)) + 1 && nm.keys[len(nm.keys) - 1] == k
  ensures order: forall i :: 0 <= i < old(len(nm.keys)) ==> nm.keys[i] == old(nm.keys[i])
  ensures own: fresh(nm.keys) || arr(nm.keys) == arr(ks)
  ensures ok: nmOk(nm)

func (*NativeMap).Keys(nm) r
  modifies nothing
  nopanic
  ensures r == nm.keys

func (*NativeMap).IsEmpty(nm) r
  modifies nothing
  nopanic
  ensures r <==> (forall k: string :: !has(nm.vals, k))

func (*NativeMap).Exists(nm, k) r
  modifies nothing
  nopanic
  ensures r <==> has(nm.vals, k)

func (*NativeMap).GetExists(nm, k) v, r
  modifies nothing
  nopanic
  ensures r <==> has(nm.vals, k)
  ensures r ? v == nm.vals[k] : v == nil

func (*NativeMap).Get(nm, k) v
  modifies nothing
  nopanic
  ensures has(nm.vals, k) ? v == nm.vals[k] : v == nil

func (*NativeMap).GetOrPanic(nm, k) v
  modifies nothing
  panics_when !has(nm.vals, k)
  ensures v == nm.vals[k]

func (*NativeMap).IsUndefined(nm, k) r
  modifies nothing
  nopanic
  ensures r <==> (!has(nm.vals, k) || typeis(nm.vals[k], NativeUndefined))

func (*NativeMap).GetWhicheverOrPanic(nm, a) v
  modifies nothing
  panics_when forall i :: 0 <= i < len(a) ==> !has(nm.vals, a[i])
  hint forall i :: 0 <= i < ?i ==> !has(nm.vals, a[i])
  ensures exists i :: 0 <= i < len(a) && has(nm.vals, a[i]) && v == nm.vals[a[i]] && (forall j :: 0 <= j < i ==> !has(nm.vals, a[j]))

func (*NativeMap).GetIntExists(nm, k) n, ok
  modifies nothing
  ensures ok <==> has(nm.vals, k)
  ensures int: ok && typeis(nm.vals[k], NativeInt) ==> n == as(nm.vals[k], NativeInt)
  ensures str: ok && typeis(nm.vals[k], NativeString) ==> n == atoi(as(nm.vals[k], NativeString))
  ensures arr: ok && typeis(nm.vals[k], *NativeArray) ==> n == atoi(arrText(as(nm.vals[k], *NativeArray)))
  ensures none: !ok ==> n == 0

func (*NativeMap).GetStringExists(nm, k) s, ok
  modifies nothing
  ensures ok <==> has(nm.vals, k)
  ensures str: ok && typeis(nm.vals[k], NativeString) ==> s == as(nm.vals[k], NativeString)
  ensures arr: ok && typeis(nm.vals[k], *NativeArray) ==> s == arrText(as(nm.vals[k], *NativeArray))
  ensures none: !ok ==> s == ""

props C20
# Names for the results of Concat and of String, so that a contract can speak of the
# results for the elements. (That they are functions of the value in a given heap is
# assumed; the contracts below define arrText and mapText by their elements.)
uf arrText(na: *NativeArray): string
uf mapText(nm: *NativeMap): string
iface Ast.String(a) r
  uf astText

# the text of an element of an array
fn piece(a: Ast): string =
    (typeis(a, NativeString) ? as(a, NativeString)
     : typeis(a, *NativeArray) ? arrText(as(a, *NativeArray))
     : typeis(a, NativeUndefined) ? ""
     : astText(a))

func (*NativeArray).Concat(na) r
  rec cat(k: int): string = k <= 0 ? "" : cat(k - 1) + piece((*na)[k - 1])
  modifies nothing
  hint ?b:string == cat(?i)
  ensures text: r == cat(len(*na))
  assume r == arrText(na)

fn mpiece(a: Ast): string =
    (typeis(a, NativeString) ? as(a, NativeString)
     : typeis(a, *NativeArray) ? arrText(as(a, *NativeArray))
     : typeis(a, *NativeMap) ? mapText(as(a, *NativeMap))
     : typeis(a, NativeUndefined) ? ""
     : itoa(as(a, NativeInt)))

func (*NativeMap).Concat(nm) r
  rec cat(k: int): string = k <= 0 ? "" : cat(k - 1) + (has(nm.vals, nm.keys[k - 1]) ? mpiece(nm.vals[nm.keys[k - 1]]) : "")
  modifies nothing
  hint ?b:string == cat(?i)
  ensures text: r == cat(len(nm.keys))
  assume r == mapText(nm)

func NativeIntFrom(x) r
  modifies nothing
  ensures same: typeis(x, NativeInt) ==> r == x
  ensures str: typeis(x, NativeString) ==> typeis(r, NativeInt) && isnumeral(as(x, NativeString)) && as(r, NativeInt) == atoi(as(x, NativeString))
  ensures arr: typeis(x, *NativeArray) ==> typeis(r, NativeInt) && isnumeral(arrText(as(x, *NativeArray))) && as(r, NativeInt) == atoi(arrText(as(x, *NativeArray)))
  ensures only: typeis(x, NativeInt) || typeis(x, NativeString) || typeis(x, *NativeArray)

func NewNativeIntFrom(x) r
  modifies nothing
  ensures same: typeis(x, NativeInt) ==> r == as(x, NativeInt)
  ensures str: typeis(x, NativeString) ==> isnumeral(as(x, NativeString)) && r == atoi(as(x, NativeString))
  ensures arr: typeis(x, *NativeArray) ==> isnumeral(arrText(as(x, *NativeArray))) && r == atoi(arrText(as(x, *NativeArray)))

func NewNativeIntFromString(s) r
  modifies nothing
  panics_when !isnumeral(s)
  ensures r == atoi(s)

func NewNativeIntFromBool(b) r
  modifies nothing
  nopanic
  ensures r == (b ? 1 : 0)

func (NativeInt).Bool(n) r
  modifies nothing
  nopanic
  ensures r <==> n != 0

func (NativeInt).Int(n) r
  modifies nothing
  nopanic
  ensures r == n

func (NativeInt).String(n) r
  modifies nothing
  nopanic
  ensures r == itoa(n)

func (NativeString).String(s) r
  modifies nothing
  nopanic
  ensures r == s

func NativeStringFrom(x) r
  modifies nothing
  ensures same: typeis(x, NativeString) ==> r == x
  ensures int: typeis(x, NativeInt) ==> typeis(r, NativeString) && as(r, NativeString) == itoa(as(x, NativeInt))
  ensures arr: typeis(x, *NativeArray) ==> typeis(r, NativeString) && as(r, NativeString) == arrText(as(x, *NativeArray))
  ensures only: typeis(x, NativeInt) || typeis(x, NativeString) || typeis(x, *NativeArray)
