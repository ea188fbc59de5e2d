package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification-level value.
type SV struct {
	v     Val
	typ   types.Type
	ghost string // name of a ghost map
	null  bool   // untyped nil
}

// SEnv evaluates specification expressions in a state.
type SEnv struct {
	x     *Exec
	st    *State // current state
	old   *State // state old() refers to
	vars  map[string]SV
	pkg   *types.Package
	con   *Contract
	metas map[string]SV
	recs  map[string]*recDef
	recN  int
	fuel  string // within a rec body: the limited names
	depth int
	sink  *State // state receiving typing facts (st when nil)
}

type recDef struct {
	f    *SpecFn
	name string
	typ  types.Type
}

func (e *SEnv) fail(f string, a ...any) {
	where := ""
	if e.con != nil {
		where = e.con.file + " " + e.con.name + ": "
	}
	panic(specErr{where + fmt.Sprintf(f, a...)})
}

func (e *SEnv) clone() *SEnv {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+4)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *SEnv) factState() *State {
	if e.sink != nil {
		return e.sink
	}
	return e.st
}

func (e *SEnv) oldEnv() *SEnv {
	n := e.clone()
	n.sink = e.factState()
	n.st = e.old
	return n
}

func (e *SEnv) entryEnv() *SEnv {
	n := e.clone()
	n.sink = e.factState()
	n.st = e.x.entry
	return n
}

// facts assumes typing facts of a loaded ground value.
func (e *SEnv) facts(t types.Type, v Val) {
	for _, a := range v.t {
		if a.bound {
			return
		}
	}
	s := e.factState()
	if s == nil || s.dead {
		return
	}
	save := s.wm
	s.wm = e.st.wm
	e.x.typeFacts(s, t, v)
	s.wm = save
}

var (
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
	tStr  = types.Typ[types.String]
)

func svInt(t *Term) SV  { return SV{v: Val{t: []*Term{t}}, typ: tInt} }
func svBool(t *Term) SV { return SV{v: Val{t: []*Term{t}}, typ: tBool} }
func svStr(t *Term) SV  { return SV{v: Val{t: []*Term{t}}, typ: tStr} }

func (e *SEnv) formula(ex *Ex) *Term {
	v := e.eval(ex)
	if len(v.v.t) != 1 || v.v.t[0].sort != SBool {
		e.fail("boolean expected: %s", ex.src)
	}
	return v.v.t[0]
}

func (e *SEnv) int(ex *Ex) *Term {
	v := e.eval(ex)
	if len(v.v.t) != 1 || v.v.t[0].sort != SInt {
		e.fail("integer expected: %v", show(ex))
	}
	return v.v.t[0]
}

func (e *SEnv) str(ex *Ex) *Term {
	v := e.eval(ex)
	if len(v.v.t) != 1 || v.v.t[0].sort != SStr {
		e.fail("string expected: %v", show(ex))
	}
	return v.v.t[0]
}

func show(e *Ex) string {
	if e == nil {
		return "_"
	}
	if e.src != "" {
		return e.src
	}
	s := e.op + " " + e.s
	for _, a := range e.args {
		s += " (" + show(a) + ")"
	}
	return s
}

// coerce adapts a value to a Go type: nil, boxing into interfaces.
func (e *SEnv) coerce(v SV, t types.Type) SV {
	if t == nil {
		return v
	}
	if v.null {
		return SV{v: e.x.zero(t), typ: t}
	}
	if v.typ == nil {
		return v
	}
	if types.IsInterface(t) && !types.IsInterface(v.typ) {
		if e.x.ti.key(v.typ) == e.x.ti.key(t) {
			return v
		}
		st := e.factState()
		a := e.x.makeIface(st, v.typ, v.v)
		return SV{v: Val{t: []*Term{a}}, typ: t}
	}
	return SV{v: v.v, typ: t, ghost: v.ghost}
}

func (e *SEnv) equal(a, b SV) *Term {
	x := e.x
	switch {
	case a.null && b.null:
		return x.True()
	case b.null:
		a, b = b, a
		fallthrough
	case a.null:
		if _, ok := b.typ.Underlying().(*types.Slice); ok {
			return x.Eq(b.v.t[0], x.Int(0))
		}
		z := x.zero(b.typ)
		if b.v.addr != nil {
			return x.False()
		}
		return x.Eq(z.one(), b.v.one())
	}
	ai, bi := types.IsInterface(a.typ), types.IsInterface(b.typ)
	if ai && !bi {
		b = e.coerce(b, a.typ)
	} else if bi && !ai {
		a = e.coerce(a, b.typ)
	}
	if len(a.v.t) != len(b.v.t) {
		e.fail("comparison of %s and %s", a.typ, b.typ)
	}
	var cs []*Term
	for i := range a.v.t {
		if a.v.t[i].sort != b.v.t[i].sort {
			e.fail("comparison of %s and %s", a.typ, b.typ)
		}
		cs = append(cs, x.Eq(a.v.t[i], b.v.t[i]))
	}
	return x.And(cs...)
}

func (e *SEnv) ident(n string) (SV, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	if t, ok := e.x.w.specs.ghosts[n]; ok {
		if strings.HasPrefix(t, "map[int]") {
			return SV{ghost: n}, true
		}
		gt := e.x.w.ghostType(n)
		var v Val
		for _, l := range e.x.ti.Leaves(gt) {
			v.t = append(v.t, e.x.read(e.st, "G:"+n+l.path, l.sort))
		}
		return SV{v: v, typ: gt}, true
	}
	if f, ok := e.x.w.specs.fns[n]; ok && len(f.params) == 0 {
		return e.callFn(f, nil), true
	}
	// package-level constants and variables
	if e.pkg != nil {
		switch o := e.pkg.Scope().Lookup(n).(type) {
		case *types.Const:
			return e.constant(o), true
		case *types.Var:
			a := &Addr{kind: "O", typ: o.Type(), key: "global:" + strings.ReplaceAll(e.pkg.Path()+"."+n, e.x.ti.repo, "~"), ref: e.x.Int(0), n: len(e.x.ti.Leaves(o.Type())), vt: o.Type()}
			return e.load(a), true
		}
	}
	return SV{}, false
}

func (e *SEnv) load(a *Addr) SV {
	x := e.x
	var v Val
	for i := 0; i < a.n; i++ {
		name, srt := x.addrComp(a, i)
		t := x.Select(x.read(e.st, name, srt), a.ref)
		if a.kind == "E" {
			t = x.Select(t, a.idx)
		}
		v.t = append(v.t, t)
	}
	e.facts(a.vt, v)
	return SV{v: v, typ: a.vt}
}

// field access with promotion
func (e *SEnv) field(b SV, name string) SV {
	x := e.x
	if b.typ == nil {
		e.fail("field %s of an untyped value", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(b.typ, true, e.fieldPkg(b.typ), name)
	if _, ok := obj.(*types.Var); !ok {
		e.fail("no field %s in %s", name, b.typ)
	}
	cur := b
	for _, i := range path {
		if p, ok := cur.typ.Underlying().(*types.Pointer); ok {
			st := p.Elem()
			a := x.toAddr(cur.v, cur.typ)
			lo, n, ft := x.ti.fieldRange(st, i)
			na := *a
			na.lo, na.n, na.vt = a.lo+lo, n, ft
			cur = e.load(&na)
		} else {
			lo, n, ft := x.ti.fieldRange(cur.typ, i)
			cur = SV{v: Val{t: cur.v.t[lo : lo+n]}, typ: ft}
		}
	}
	return cur
}

func (e *SEnv) fieldPkg(t types.Type) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

func (e *SEnv) index(b SV, ix *Ex) SV {
	x := e.x
	if b.ghost != "" {
		i := e.int(ix)
		et := x.w.ghostElem(b.ghost)
		var v Val
		for _, l := range x.ti.Leaves(et) {
			v.t = append(v.t, x.Select(x.read(e.st, "G:"+b.ghost+l.path, ArrSort(SInt, l.sort)), i))
		}
		return SV{v: v, typ: et}
	}
	switch u := b.typ.Underlying().(type) {
	case *types.Slice:
		i := e.int(ix)
		return e.load(x.elemAddr(u.Elem(), b.v.t[0], x.Add(b.v.t[1], i)))
	case *types.Basic:
		i := e.int(ix)
		return svInt(x.SAt(b.v.one(), i))
	case *types.Map:
		k := e.coerce(e.eval(ix), u.Key())
		v, _ := x.mapGet(e.st, u, b.v.one(), k.v.one())
		e.facts(u.Elem(), v)
		return SV{v: v, typ: u.Elem()}
	}
	e.fail("index of %s", b.typ)
	return SV{}
}

func (e *SEnv) eval(ex *Ex) SV {
	x := e.x
	switch ex.op {
	case "int":
		return svInt(x.Int(ex.n))
	case "str":
		return svStr(x.StrLit(ex.s))
	case "true", "false":
		return svBool(x.Bool(ex.op == "true"))
	case "nil":
		return SV{null: true}
	case "ident":
		if v, ok := e.ident(ex.s); ok {
			return v
		}
		e.fail("unknown name %s", ex.s)
	case "meta":
		if v, ok := e.metas[ex.s]; ok {
			return v
		}
		e.fail("metavariable ?%s outside a hint", ex.s)
	case "old":
		return e.oldEnv().eval(ex.args[0])
	case "entry":
		return e.entryEnv().eval(ex.args[0])
	case "let":
		n := e.clone()
		n.vars[ex.s] = e.eval(ex.args[0])
		return n.eval(ex.args[1])
	case "field":
		return e.field(e.eval(ex.args[0]), ex.s)
	case "index":
		return e.index(e.eval(ex.args[0]), ex.args[1])
	case "slice":
		b := e.eval(ex.args[0])
		lo := x.Int(0)
		if ex.args[1] != nil {
			lo = e.int(ex.args[1])
		}
		if _, ok := b.typ.Underlying().(*types.Basic); ok {
			hi := x.SLen(b.v.one())
			if ex.args[2] != nil {
				hi = e.int(ex.args[2])
			}
			return svStr(x.SSub(b.v.one(), lo, hi))
		}
		hi := b.v.t[2]
		if ex.args[2] != nil {
			hi = e.int(ex.args[2])
		}
		return SV{v: Val{t: []*Term{b.v.t[0], x.Add(b.v.t[1], lo), x.Sub(hi, lo), x.Sub(b.v.t[3], lo)}}, typ: b.typ}
	case "unary":
		switch ex.s {
		case "!":
			return svBool(x.Not(e.formula(ex.args[0])))
		case "-":
			return svInt(x.Scale(-1, e.int(ex.args[0])))
		case "*":
			p := e.eval(ex.args[0])
			return e.load(x.toAddr(p.v, p.typ))
		}
	case "binary":
		return e.binary(ex)
	case "cond":
		c := e.formula(ex.args[0])
		if isTrue(c) {
			return e.eval(ex.args[1])
		}
		if isFalse(c) {
			return e.eval(ex.args[2])
		}
		return e.ite(c, e.eval(ex.args[1]), e.eval(ex.args[2]))
	case "forall", "exists":
		return svBool(e.quant(ex))
	case "as":
		b := e.eval(ex.args[0])
		t := x.w.typ(e.pkg, ex.s)
		if !types.IsInterface(b.typ) {
			return e.coerce(b, t)
		}
		if types.IsInterface(t) {
			return SV{v: b.v, typ: t}
		}
		v := x.unIface(nil, b.v.one(), t)
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			e.facts(t, v)
		} else if !v.t[0].bound {
			e.facts(t, v)
		}
		return SV{v: v, typ: t}
	case "typeis":
		b := e.eval(ex.args[0])
		return svBool(x.isType(b.v.one(), x.w.typ(e.pkg, ex.s)))
	case "implements":
		b := e.eval(ex.args[0])
		return svBool(x.isType(b.v.one(), x.w.typ(e.pkg, ex.s)))
	case "raw":
		t := x.w.typ(e.pkg, ex.s)
		a, j := e.int(ex.args[0]), e.int(ex.args[1])
		var v Val
		for i := range x.ti.Leaves(t) {
			n, s := x.ti.elemComp(t, i)
			v.t = append(v.t, x.Select(x.Select(x.read(e.st, n, s), a), j))
		}
		return SV{v: v, typ: t}
	case "tag":
		return svInt(x.Int(x.ti.tag(x.w.typ(e.pkg, ex.s))))
	case "zero":
		t := x.w.typ(e.pkg, ex.s)
		return SV{v: x.zero(t), typ: t}
	case "call":
		return e.call(ex)
	}
	e.fail("cannot evaluate %s", show(ex))
	return SV{}
}

func (e *SEnv) ite(c *Term, a, b SV) SV {
	t := a.typ
	if a.null {
		t = b.typ
	}
	if !a.null && !b.null && a.typ != nil && b.typ != nil {
		if types.IsInterface(b.typ) && !types.IsInterface(a.typ) {
			t = b.typ
		}
	}
	a, b = e.coerce(a, t), e.coerce(b, t)
	var v Val
	for i := range a.v.t {
		v.t = append(v.t, e.x.Ite(c, a.v.t[i], b.v.t[i]))
	}
	return SV{v: v, typ: t}
}

func (e *SEnv) binary(ex *Ex) SV {
	x := e.x
	a, b := ex.args[0], ex.args[1]
	switch ex.s {
	case "&&":
		p := e.formula(a)
		if isFalse(p) {
			return svBool(p)
		}
		return svBool(x.And(p, e.formula(b)))
	case "||":
		p := e.formula(a)
		if isTrue(p) {
			return svBool(p)
		}
		return svBool(x.Or(p, e.formula(b)))
	case "==>":
		p := e.formula(a)
		if isFalse(p) {
			return svBool(x.True())
		}
		return svBool(x.Implies(p, e.formula(b)))
	case "<==>":
		return svBool(x.Eq(e.formula(a), e.formula(b)))
	case "==":
		return svBool(e.equal(e.eval(a), e.eval(b)))
	case "!=":
		return svBool(x.Not(e.equal(e.eval(a), e.eval(b))))
	case "+":
		l := e.eval(a)
		if len(l.v.t) == 1 && l.v.t[0].sort == SStr {
			return svStr(x.SCat(l.v.t[0], e.str(b)))
		}
		return svInt(x.Add(e.int(a), e.int(b)))
	case "-":
		return svInt(x.Sub(e.int(a), e.int(b)))
	case "*":
		return svInt(x.Mul(e.int(a), e.int(b)))
	case "/":
		return svInt(x.Fun("goquo", SInt, e.int(a), e.int(b)))
	case "%":
		return svInt(x.Fun("gorem", SInt, e.int(a), e.int(b)))
	case "<", "<=", ">", ">=":
		l := e.eval(a)
		if len(l.v.t) == 1 && l.v.t[0].sort == SStr {
			p, q := l.v.t[0], e.str(b)
			switch ex.s {
			case "<":
				return svBool(x.Fun("sLt", SBool, p, q))
			case ">":
				return svBool(x.Fun("sLt", SBool, q, p))
			case "<=":
				return svBool(x.Not(x.Fun("sLt", SBool, q, p)))
			case ">=":
				return svBool(x.Not(x.Fun("sLt", SBool, p, q)))
			}
		}
		p, q := e.int(a), e.int(b)
		switch ex.s {
		case "<":
			return svBool(x.Lt(p, q))
		case "<=":
			return svBool(x.Le(p, q))
		case ">":
			return svBool(x.Gt(p, q))
		case ">=":
			return svBool(x.Ge(p, q))
		}
	}
	e.fail("operator %s", ex.s)
	return SV{}
}

func (e *SEnv) quant(ex *Ex) *Term {
	x := e.x
	n := e.clone()
	var bs []*Term
	for _, b := range ex.binds {
		t := types.Type(tInt)
		if b.typ != "int" && b.typ != "" {
			t = x.w.typ(e.pkg, b.typ)
		}
		ls := x.ti.Leaves(t)
		if len(ls) != 1 {
			e.fail("quantification over %s", b.typ)
		}
		bv := x.BV(b.name, ls[0].sort)
		bs = append(bs, bv)
		n.vars[b.name] = SV{v: Val{t: []*Term{bv}}, typ: t}
	}
	body := n.formula(ex.args[0])
	var trigs [][]*Term
	for _, tg := range ex.trigs {
		var ts []*Term
		for _, t := range tg {
			v := n.eval(t)
			ts = append(ts, v.v.t...)
		}
		trigs = append(trigs, ts)
	}
	return x.quantShift(ex.op, bs, body, trigs)
}

// quantShift changes variables so that array accesses A[i+off] become A[j] (usable as patterns).
// The variants for different offsets are equivalent formulas; all are conjoined.
func (x *Exec) quantShift(op string, bs []*Term, body *Term, trigs [][]*Term) *Term {
	if len(trigs) > 0 {
		return x.Quant(op, bs, body, trigs)
	}
	// offsets of each binder in array accesses
	plain := map[*Term]bool{}
	rests := map[*Term]map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" || (t.op == "uf" && t.name == "sat") {
			ix := t.args[1]
			l := toLin(ix)
			for _, b := range bs {
				if b.sort == SInt && l.m[b] == 1 {
					r := x.Sub(ix, b)
					if r.op == "int" && r.ival == 0 {
						plain[b] = true
					} else if !r.bound || onlyOver(r, bs, b) {
						if rests[b] == nil {
							rests[b] = map[*Term]bool{}
						}
						rests[b][r] = true
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	type variant struct {
		bs   []*Term
		body *Term
		sub  map[*Term]*Term
	}
	out := []variant{{bs, body, nil}}
	// binders whose offsets are constant first
	var order []int
	for pass := 0; pass < 2; pass++ {
		for i, b := range bs {
			dep := false
			for r := range rests[b] {
				dep = dep || r.bound
			}
			if dep == (pass == 1) {
				order = append(order, i)
			}
		}
	}
	for _, i := range order {
		b := bs[i]
		var rs []*Term
		for r := range rests[b] {
			rs = append(rs, r)
		}
		sortTerms(rs)
		var next []variant
		for _, v := range out {
			if plain[b] || len(rs) == 0 {
				next = append(next, v)
			}
			for _, r := range rs {
				nb := x.BV("j", SInt)
				nbs := append([]*Term(nil), v.bs...)
				nbs[i] = nb
				if r.bound {
					r = x.Subst(r, v.sub)
					if x.Subst(r, map[*Term]*Term{b: x.Int(0)}) != r {
						next = append(next, v)
						continue
					}
				}
				to := x.Sub(nb, r)
				sub := map[*Term]*Term{b: to}
				for k, t := range v.sub {
					sub[k] = t
				}
				next = append(next, variant{nbs, x.Subst(v.body, map[*Term]*Term{b: to}), sub})
			}
		}
		if len(next) > 4 {
			next = next[:4]
		}
		out = next
	}
	if op == "exists" {
		return x.Quant(op, out[0].bs, out[0].body, nil)
	}
	var cs []*Term
	for _, v := range out {
		cs = append(cs, x.Quant(op, v.bs, v.body, nil))
		if tg := x.limTrigger(v.bs, v.body); tg != nil {
			cs = append(cs, x.Quant(op, v.bs, v.body, [][]*Term{tg}))
		}
	}
	return x.And(cs...)
}

// onlyOver: the bound variables of t are binders of bs other than b.
func onlyOver(t *Term, bs []*Term, b *Term) bool {
	if !t.bound {
		return true
	}
	if t.op == "bv" {
		for _, c := range bs {
			if c == t {
				return t != b
			}
		}
		return false
	}
	if len(t.binds) > 0 {
		return false
	}
	for _, a := range t.args {
		if !onlyOver(a, bs, b) {
			return false
		}
	}
	return true
}

// limTrigger: a fact about a recursive function is also used at the ends of its unfolding.
func (x *Exec) limTrigger(bs []*Term, body *Term) []*Term {
	var out *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if out != nil || !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.name, "rec:") && !strings.HasSuffix(t.name, "_lim") {
			have := map[*Term]bool{}
			ok := true
			for _, a := range t.args {
				have[a] = true
				ok = ok && (a.op == "bv" || !a.bound)
			}
			for _, b := range bs {
				ok = ok && have[b]
			}
			if ok {
				out = x.Fun(t.name+"_lim", t.sort, t.args...)
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if out == nil {
		return nil
	}
	return []*Term{out}
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (e *SEnv) callFn(f *SpecFn, args []SV) SV {
	if len(args) != len(f.params) {
		e.fail("%s takes %d arguments", f.name, len(f.params))
	}
	if e.depth > 40 {
		e.fail("%s: expansion too deep", f.name)
	}
	pkg := e.x.w.pkgOf(f.pkg)
	n := &SEnv{x: e.x, st: e.st, old: e.old, pkg: pkg, con: e.con, vars: map[string]SV{}, depth: e.depth + 1, sink: e.factState(), metas: e.metas, recs: e.recs, fuel: e.fuel}
	for i, p := range f.params {
		a := args[i]
		if p.typ != "" && !strings.HasPrefix(p.typ, "ghost") {
			a = e.coerce(a, e.x.w.typ(pkg, p.typ))
		}
		n.vars[p.name] = a
	}
	if f.body == nil {
		var at []*Term
		for _, p := range f.params {
			at = append(at, n.vars[p.name].v.t...)
		}
		rt := e.x.w.typ(pkg, f.typ)
		var v Val
		for _, l := range e.x.ti.Leaves(rt) {
			v.t = append(v.t, e.x.Fun("uf:"+f.name+l.path, l.sort, at...))
		}
		return SV{v: v, typ: rt}
	}
	r := n.eval(f.body)
	if f.typ != "" {
		r = e.coerce(r, e.x.w.typ(pkg, f.typ))
	}
	return r
}

// rec: a recursive specification function over integers, defined by axioms with limited unfolding.
func (e *SEnv) rec(f *SpecFn) *recDef {
	x := e.x
	if f.global {
		if d, ok := x.globRecs[f.name]; ok {
			return d
		}
		d := (&SEnv{x: x, st: &State{dead: true}, pkg: x.w.pkgOf(f.pkg), vars: map[string]SV{}}).recDefine(f)
		return d
	}
	if e.recs == nil {
		e.recs = map[string]*recDef{}
	}
	if d, ok := e.recs[f.name]; ok {
		return d
	}
	return e.recDefine(f)
}

func (e *SEnv) recDefine(f *SpecFn) *recDef {
	x := e.x
	x.recN++
	d := &recDef{f: f, name: fmt.Sprintf("rec:%s!%d", f.name, x.recN), typ: x.w.typ(e.pkg, f.typ)}
	if f.global {
		d.name = "rec:" + f.name
		x.globRecs[f.name] = d
	} else {
		e.recs[f.name] = d
	}
	n := e.clone()
	n.recs = e.recs
	n.st = e.old
	if n.st == nil {
		n.st = e.st
	}
	n.sink = &State{dead: true}
	n.fuel = f.name
	var bs []*Term
	for _, p := range f.params {
		t := types.Type(tInt)
		if p.typ != "" {
			t = x.w.typ(e.pkg, p.typ)
		}
		ls := x.ti.Leaves(t)
		if len(ls) != 1 {
			e.fail("rec parameter type %s", p.typ)
		}
		b := x.BV(p.name, ls[0].sort)
		bs = append(bs, b)
		n.vars[p.name] = SV{v: Val{t: []*Term{b}}, typ: t}
	}
	body := n.eval(f.body)
	body = n.coerce(body, d.typ)
	for i, l := range x.ti.Leaves(d.typ) {
		h := x.Fun(d.name+l.path, l.sort, bs...)
		hl := x.Fun(d.name+"_lim"+l.path, l.sort, bs...)
		ax := x.Forall(bs, x.And(x.Eq(h, body.v.t[i]), x.Eq(h, hl)), []*Term{h})
		x.addAxiomTerm([]string{d.name + l.path}, ax)
	}
	return d
}

func (e *SEnv) call(ex *Ex) SV {
	x := e.x
	argn := func(n int) {
		if len(ex.args) != n {
			e.fail("%s takes %d arguments", ex.s, n)
		}
	}
	switch ex.s {
	case "len":
		argn(1)
		b := e.eval(ex.args[0])
		switch u := b.typ.Underlying().(type) {
		case *types.Basic:
			return svInt(x.SLen(b.v.one()))
		case *types.Slice:
			return svInt(b.v.t[2])
		case *types.Map:
			if b.v.one().bound {
				e.fail("len of a map under a quantifier")
			}
			ln, ls := x.ti.mapLen(u)
			return svInt(x.Ite(x.Eq(b.v.one(), x.Int(0)), x.Int(0), x.Select(x.read(e.st, ln, ls), b.v.one())))
		}
		e.fail("len of %s", b.typ)
	case "cap":
		return svInt(e.eval(ex.args[0]).v.t[3])
	case "arr":
		return svInt(e.eval(ex.args[0]).v.t[0])
	case "min", "max":
		a, b := e.int(ex.args[0]), e.int(ex.args[1])
		c := x.Le(a, b)
		if ex.s == "max" {
			c = x.Le(b, a)
		}
		return svInt(x.Ite(c, a, b))
	case "has":
		argn(2)
		m := e.eval(ex.args[0])
		u := m.typ.Underlying().(*types.Map)
		k := e.coerce(e.eval(ex.args[1]), u.Key())
		_, has := x.mapGet(e.st, u, m.v.one(), k.v.one())
		return svBool(has)
	case "seen":
		// the iteration it has visited the key k
		argn(2)
		it := e.eval(ex.args[0])
		k := e.eval(ex.args[1])
		ks := k.v.one().sort
		a := x.read(e.st, "IT:seen:"+string(ks), ArrSort(SInt, ArrSort(ks, SBool)))
		return svBool(x.Select(x.Select(a, it.v.one()), k.v.one()))
	case "fresh":
		// allocated after the old state
		b := e.eval(ex.args[0])
		r := b.v.t[0]
		if r.sort == SAny {
			r = x.Sel("rptr", r)
		}
		if e.old == nil {
			e.fail("fresh needs an old state")
		}
		return svBool(x.Lt(e.old.wm, r))
	case "allocated":
		b := e.eval(ex.args[0])
		r := b.v.t[0]
		if r.sort == SAny {
			r = x.Sel("rptr", r)
		}
		return svBool(x.And(x.Le(x.Int(0), r), x.Le(r, e.st.wm)))
	case "ref":
		b := e.eval(ex.args[0])
		r := b.v.t[0]
		if r.sort == SAny {
			r = x.Sel("rptr", r)
		}
		return svInt(r)
	case "sub":
		argn(3)
		return svStr(x.SSub(e.str(ex.args[0]), e.int(ex.args[1]), e.int(ex.args[2])))
	case "at":
		argn(2)
		return svInt(x.SAt(e.str(ex.args[0]), e.int(ex.args[1])))
	case "runewidth":
		argn(2)
		return svInt(x.Fun("rw", SInt, e.str(ex.args[0]), e.int(ex.args[1])))
	case "runeat":
		argn(2)
		return svInt(x.Fun("rv", SInt, e.str(ex.args[0]), e.int(ex.args[1])))
	case "lastwidth":
		argn(1)
		return svInt(x.Fun("lrw", SInt, e.str(ex.args[0])))
	case "index":
		argn(2)
		return svInt(x.Fun("sIndex", SInt, e.str(ex.args[0]), e.str(ex.args[1])))
	case "itoa":
		return svStr(x.Fun("itoa", SStr, e.int(ex.args[0])))
	case "atoi":
		return svInt(x.Fun("atoi", SInt, e.str(ex.args[0])))
	case "isnumeral":
		return svBool(x.Fun("atoiOk", SBool, e.str(ex.args[0])))
	case "repeat":
		return svStr(x.Fun("sRepeat", SStr, e.str(ex.args[0]), e.int(ex.args[1])))
	case "startswith":
		return svBool(x.startsWith(e.str(ex.args[0]), e.str(ex.args[1])))
	case "runestr":
		return svStr(x.Fun("srune", SStr, e.int(ex.args[0])))
	case "isnil":
		b := e.eval(ex.args[0])
		return svBool(e.equal(b, SV{null: true}))
	case "found", "begof", "endof":
		// regular expressions: found(re, s)
		re := e.eval(ex.args[0])
		r := re.v.t[0]
		if _, isPtr := re.typ.Underlying().(*types.Pointer); isPtr {
			r = e.load(x.toAddr(re.v, re.typ)).v.one()
		}
		s := e.str(ex.args[1])
		switch ex.s {
		case "found":
			return svBool(x.Fun("reFound", SBool, r, s))
		case "begof":
			return svInt(x.Fun("reBeg", SInt, r, s))
		}
		return svInt(x.Fun("reEnd", SInt, r, s))
	case "builder":
		b := e.eval(ex.args[0])
		return svStr(x.Select(x.read(e.st, "SB:buf", ArrSort(SInt, SStr)), b.v.one()))
	case "box":
		argn(1)
		b := e.eval(ex.args[0])
		return SV{v: Val{t: []*Term{x.makeIface(e.factState(), b.typ, b.v)}}, typ: types.NewInterfaceType(nil, nil)}
	case "string":
		b := e.eval(ex.args[0])
		if b.v.t[0].sort == SStr {
			return SV{v: b.v, typ: tStr}
		}
		return svStr(x.Fun("srune", SStr, b.v.one()))
	case "int":
		b := e.eval(ex.args[0])
		return SV{v: b.v, typ: tInt}
	case "unchanged":
		// unchanged(e): same value as in the old state
		return svBool(e.equal(e.eval(ex.args[0]), e.oldEnv().eval(ex.args[0])))
	}
	{
		var recs []*SpecFn
		if e.con != nil {
			recs = append(recs, e.con.recs...)
		}
		for _, r := range append(recs, x.w.specs.recs...) {
			if r.name == ex.s {
				d := e.rec(r)
				nm := d.name
				if e.fuel == r.name {
					nm += "_lim"
				}
				var at []*Term
				for i, a := range ex.args {
					v := e.eval(a)
					if r.params[i].typ != "" {
						v = e.coerce(v, x.w.typ(e.pkg, r.params[i].typ))
					}
					at = append(at, v.v.one())
				}
				var v Val
				for _, l := range x.ti.Leaves(d.typ) {
					v.t = append(v.t, x.Fun(nm+l.path, l.sort, at...))
				}
				return SV{v: v, typ: d.typ}
			}
		}
	}
	if f, ok := x.w.specs.fns[ex.s]; ok {
		var args []SV
		for _, a := range ex.args {
			args = append(args, e.eval(a))
		}
		if f.body == nil { // uninterpreted
			return e.ufCall(f, args)
		}
		return e.callFn(f, args)
	}
	if c, sig := x.w.ufContract(ex.s); c != nil {
		var args []Val
		pts := sig.ptypes
		if len(ex.args) != len(pts) {
			e.fail("%s takes %d arguments", ex.s, len(pts))
		}
		for i, a := range ex.args {
			args = append(args, e.coerce(e.eval(a), pts[i]).v)
		}
		rt := sig.res.At(0).Type()
		v := x.ufResult(c, 0, sig.res.Len(), args, rt)
		e.facts(rt, v)
		return SV{v: v, typ: rt}
	}
	e.fail("unknown function %s", ex.s)
	return SV{}
}

// ufCall applies an uninterpreted specification function (a fn without a body).
func (e *SEnv) ufCall(f *SpecFn, args []SV) SV {
	pkg := e.x.w.pkgOf(f.pkg)
	var at []*Term
	for i, p := range f.params {
		a := e.coerce(args[i], e.x.w.typ(pkg, p.typ))
		at = append(at, a.v.t...)
	}
	t := types.Type(tBool)
	if f.typ != "" {
		t = e.x.w.typ(pkg, f.typ)
	}
	var v Val
	for _, l := range e.x.ti.Leaves(t) {
		v.t = append(v.t, e.x.Fun("fn:"+f.name+l.path, l.sort, at...))
	}
	e.facts(t, v)
	return SV{v: v, typ: t}
}

// constant: a package-level Go constant.
func (e *SEnv) constant(o *types.Const) SV {
	return SV{v: e.x.constVal(ssa.NewConst(o.Val(), o.Type())), typ: o.Type()}
}
