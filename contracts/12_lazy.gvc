package github.com/grepsuzette/joeson

# Lazy values (helpers.Lazy), for every type the package uses them with.
# lzn counts the calls of lazy functions made by the activation under verification,
# lz* is the last value such a function returned.
ghost lzn int

ghost lztype int
# the last value a Get of the activation under verification gave
ghost gottype int
props C24
functype func() sequenceRepr :: (f) t
  modifies helpers.Lazy[sequenceRepr].val, helpers.Lazy[[]string].val, helpers.Lazy[[]Ast].val
  set lztype = t
  set lzn = lzn + 1

func (*helpers.Lazy[sequenceRepr]).Get(l) t
  let set0 = l.val != nil
  let v0 = l.val
  modifies helpers.Lazy[sequenceRepr].val, helpers.Lazy[[]string].val, helpers.Lazy[[]Ast].val
  ghostwrites
  ensures kept: set0 ==> lzn == old(lzn) && l.val == v0 && t == *v0
  ensures once: !set0 ==> lzn == old(lzn) + 1 && t == lztype
  ensures set: l.val != nil && t == *l.val
  set gottype = t

func (*helpers.Lazy[sequenceRepr]).Set(l, t)
  modifies helpers.Lazy[sequenceRepr].val@l
  nopanic
  ensures set: l.val != nil && *l.val == t

func (*helpers.Lazy[sequenceRepr]).IsSet(l) r
  modifies nothing
  nopanic
  ensures set: r <==> l.val != nil

func (*helpers.Lazy[sequenceRepr]).Clear(l)
  modifies helpers.Lazy[sequenceRepr].val@l, helpers.Lazy[sequenceRepr].f@l
  nopanic
  ensures cleared: l.val == nil && isnil(l.f)

func (*helpers.Lazy[sequenceRepr]).SetLazy(l, f)
  modifies helpers.Lazy[sequenceRepr].f@l
  nopanic
  ensures lazy: l.f == f

func helpers.LazyFromFunc[sequenceRepr](f) r
  modifies nothing
  nopanic
  ensures lazy: fresh(r) && r.val == nil && r.f == f

ghost lzlabels []string
props C24
functype func() []string :: (f) t
  modifies helpers.Lazy[sequenceRepr].val, helpers.Lazy[[]string].val, helpers.Lazy[[]Ast].val
  set lzlabels = t
  set lzn = lzn + 1

func (*helpers.Lazy[[]string]).Get(l) t
  let set0 = l.val != nil
  let v0 = l.val
  modifies helpers.Lazy[sequenceRepr].val, helpers.Lazy[[]string].val, helpers.Lazy[[]Ast].val
  ghostwrites
  ensures kept: set0 ==> lzn == old(lzn) && l.val == v0 && t == *v0
  ensures once: !set0 ==> lzn == old(lzn) + 1 && t == lzlabels
  ensures set: l.val != nil && t == *l.val

func (*helpers.Lazy[[]string]).Set(l, t)
  modifies helpers.Lazy[[]string].val@l
  nopanic
  ensures set: l.val != nil && *l.val == t

func (*helpers.Lazy[[]string]).IsSet(l) r
  modifies nothing
  nopanic
  ensures set: r <==> l.val != nil

func (*helpers.Lazy[[]string]).Clear(l)
  modifies helpers.Lazy[[]string].val@l, helpers.Lazy[[]string].f@l
  nopanic
  ensures cleared: l.val == nil && isnil(l.f)

func (*helpers.Lazy[[]string]).SetLazy(l, f)
  modifies helpers.Lazy[[]string].f@l
  nopanic
  ensures lazy: l.f == f

func helpers.LazyFromFunc[[]string](f) r
  modifies nothing
  nopanic
  ensures lazy: fresh(r) && r.val == nil && r.f == f

ghost lzcaps []Ast
props C24
functype func() []Ast :: (f) t
  modifies helpers.Lazy[sequenceRepr].val, helpers.Lazy[[]string].val, helpers.Lazy[[]Ast].val
  set lzcaps = t
  set lzn = lzn + 1

func (*helpers.Lazy[[]Ast]).Get(l) t
  let set0 = l.val != nil
  let v0 = l.val
  modifies helpers.Lazy[sequenceRepr].val, helpers.Lazy[[]string].val, helpers.Lazy[[]Ast].val
  ghostwrites
  ensures kept: set0 ==> lzn == old(lzn) && l.val == v0 && t == *v0
  ensures once: !set0 ==> lzn == old(lzn) + 1 && t == lzcaps
  ensures set: l.val != nil && t == *l.val

func (*helpers.Lazy[[]Ast]).Set(l, t)
  modifies helpers.Lazy[[]Ast].val@l
  nopanic
  ensures set: l.val != nil && *l.val == t

func (*helpers.Lazy[[]Ast]).IsSet(l) r
  modifies nothing
  nopanic
  ensures set: r <==> l.val != nil

func (*helpers.Lazy[[]Ast]).Clear(l)
  modifies helpers.Lazy[[]Ast].val@l, helpers.Lazy[[]Ast].f@l
  nopanic
  ensures cleared: l.val == nil && isnil(l.f)

func (*helpers.Lazy[[]Ast]).SetLazy(l, f)
  modifies helpers.Lazy[[]Ast].f@l
  nopanic
  ensures lazy: l.f == f

func helpers.LazyFromFunc[[]Ast](f) r
  modifies nothing
  nopanic
  ensures lazy: fresh(r) && r.val == nil && r.f == f

ghost lzgm *Grammar
props C24
functype func() *Grammar :: (f) t
  modifies all
  set lzgm = t
  set lzn = lzn + 1

func (*helpers.Lazy[*Grammar]).Get(l) t
  let set0 = l.val != nil
  let v0 = l.val
  modifies all
  ghostwrites
  ensures kept: set0 ==> lzn == old(lzn) && l.val == v0 && t == *v0
  ensures once: !set0 ==> lzn == old(lzn) + 1 && t == lzgm
  ensures set: l.val != nil && t == *l.val

func (*helpers.Lazy[*Grammar]).Set(l, t)
  modifies helpers.Lazy[*Grammar].val@l
  nopanic
  ensures set: l.val != nil && *l.val == t

func (*helpers.Lazy[*Grammar]).IsSet(l) r
  modifies nothing
  nopanic
  ensures set: r <==> l.val != nil

func (*helpers.Lazy[*Grammar]).Clear(l)
  modifies helpers.Lazy[*Grammar].val@l, helpers.Lazy[*Grammar].f@l
  nopanic
  ensures cleared: l.val == nil && isnil(l.f)

func (*helpers.Lazy[*Grammar]).SetLazy(l, f)
  modifies helpers.Lazy[*Grammar].f@l
  nopanic
  ensures lazy: l.f == f

func helpers.LazyFromFunc[*Grammar](f) r
  modifies nothing
  nopanic
  ensures lazy: fresh(r) && r.val == nil && r.f == f
