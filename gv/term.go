package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SAny  Sort = "Any"
	SFlt  Sort = "Flt"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits "(Array K V)".
func arrParts(s Sort) (Sort, Sort, bool) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		return "", "", false
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:]), true
			}
		}
	}
	return "", "", false
}

// ---------------------------------------------------------------- terms

// Term is a hash-consed SMT term.
type Term struct {
	op    string // "const", "int", "bv" (bound variable), "forall", "exists", or an SMT operator / function name
	name  string // const / bv name; for quantifiers the binder list is in binds
	ival  int64
	args  []*Term
	binds []*Term   // bound variables
	trigs [][]*Term // patterns
	sort  Sort
	id    int
	bound bool // contains bound variables
}

type Ctx struct {
	tab       map[string]*Term
	n         int
	decls     map[string]string // function/constant declarations: name -> "(declare-fun ...)"
	fresh     map[string]int
	bounds    map[*Term]refBound // upper bounds of references, see refs
	wmUp      map[*Term]refBound // watermark constant -> at least this
	axioms    map[string][]*Axiom
	bvn       int
	implFacts func(syms map[string]bool) []string
}

type Axiom struct {
	text  string
	term  *Term
	needs []string
}

type refBound struct {
	base *Term
	off  int64
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, decls: map[string]string{}, fresh: map[string]int{}, bounds: map[*Term]refBound{}, wmUp: map[*Term]refBound{}, axioms: map[string][]*Axiom{}}
}

func (c *Ctx) mk(op, name string, ival int64, args []*Term, sort Sort) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(ival, 10))
	b.WriteByte('|')
	b.WriteString(string(sort))
	bound := op == "bv"
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		bound = bound || a.bound
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, name: name, ival: ival, args: args, sort: sort, id: c.n, bound: bound}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(n int64) *Term { return c.mk("int", "", n, nil, SInt) }

var smtReserved = strings.NewReplacer("|", "!", "\\", "!")

func sym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' || r == '%' || r == '@') {
			return "|" + smtReserved.Replace(s) + "|"
		}
	}
	return s
}

func (c *Ctx) Const(name string, sort Sort) *Term {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = fmt.Sprintf("(declare-fun %s () %s)", sym(name), sort)
	}
	return c.mk("const", name, 0, nil, sort)
}

func (c *Ctx) Fresh(prefix string, sort Sort) *Term {
	c.fresh[prefix]++
	return c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), sort)
}

func (c *Ctx) BV(prefix string, sort Sort) *Term {
	c.bvn++
	return c.mk("bv", fmt.Sprintf("%s?%d", prefix, c.bvn), 0, nil, sort)
}

func (c *Ctx) True() *Term  { return c.mk("true", "", 0, nil, SBool) }
func (c *Ctx) False() *Term { return c.mk("false", "", 0, nil, SBool) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}

// Fun applies an uninterpreted (declared on the fly) function.
func (c *Ctx) Fun(name string, sort Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Const(name, sort)
	}
	if _, ok := c.decls[name]; !ok {
		var b strings.Builder
		fmt.Fprintf(&b, "(declare-fun %s (", sym(name))
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a.sort))
		}
		fmt.Fprintf(&b, ") %s)", sort)
		c.decls[name] = b.String()
	}
	return c.mk("uf", name, 0, args, sort)
}

func isTrue(t *Term) bool  { return t.op == "true" }
func isFalse(t *Term) bool { return t.op == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", "", 0, []*Term{a}, SBool)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.op == "true" || seen[a] {
			continue
		}
		if a.op == "false" {
			return a
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", 0, out, SBool)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.op == "false" || seen[a] {
			continue
		}
		if a.op == "true" {
			return a
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return c.True()
		}
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", 0, out, SBool)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return c.True()
	}
	if isFalse(b) {
		return c.Not(a)
	}
	if a == b {
		return c.True()
	}
	return c.mk("=>", "", 0, []*Term{a, b}, SBool)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if isTrue(cond) {
		return a
	}
	if isFalse(cond) {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if isTrue(a) && isFalse(b) {
			return cond
		}
		if isFalse(a) && isTrue(b) {
			return c.Not(cond)
		}
	}
	return c.mk("ite", "", 0, []*Term{cond, a, b}, a.sort)
}

// ---- linear integer arithmetic in normal form

type lin struct {
	k int64
	m map[*Term]int64
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{k: t.ival, m: map[*Term]int64{}}
	case "+":
		r := lin{m: map[*Term]int64{}}
		for _, a := range t.args {
			l := toLin(a)
			r.k += l.k
			for x, cf := range l.m {
				r.m[x] += cf
			}
		}
		return r
	case "*":
		if t.args[0].op == "int" {
			l := toLin(t.args[1])
			r := lin{k: l.k * t.args[0].ival, m: map[*Term]int64{}}
			for x, cf := range l.m {
				r.m[x] = cf * t.args[0].ival
			}
			return r
		}
	}
	return lin{m: map[*Term]int64{t: 1}}
}

func (c *Ctx) fromLin(l lin) *Term {
	var ts []*Term
	for x, cf := range l.m {
		if cf != 0 {
			ts = append(ts, x)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, x := range ts {
		cf := l.m[x]
		if cf == 1 {
			args = append(args, x)
		} else {
			args = append(args, c.mk("*", "", 0, []*Term{c.Int(cf), x}, SInt))
		}
	}
	if l.k != 0 || len(args) == 0 {
		args = append(args, c.Int(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "", 0, args, SInt)
}

func (c *Ctx) Add(as ...*Term) *Term {
	r := lin{m: map[*Term]int64{}}
	for _, a := range as {
		l := toLin(a)
		r.k += l.k
		for x, cf := range l.m {
			r.m[x] += cf
		}
	}
	return c.fromLin(r)
}

func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Scale(-1, b)) }
func (c *Ctx) Scale(k int64, b *Term) *Term {
	l := toLin(b)
	r := lin{k: l.k * k, m: map[*Term]int64{}}
	for x, cf := range l.m {
		r.m[x] = cf * k
	}
	return c.fromLin(r)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" {
		return c.Scale(a.ival, b)
	}
	if b.op == "int" {
		return c.Scale(b.ival, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", "", 0, []*Term{a, b}, SInt)
}

// diffConst reports whether a-b is a constant.
func (c *Ctx) diffConst(a, b *Term) (int64, bool) {
	if a == b {
		return 0, true
	}
	d := c.Sub(a, b)
	if d.op == "int" {
		return d.ival, true
	}
	return 0, false
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.op == "int" {
		return c.Bool(d.ival <= 0)
	}
	return c.mk("<=", "", 0, []*Term{a, b}, SBool)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.op == "int" {
		return c.Bool(d.ival < 0)
	}
	return c.Not(c.Le(b, a))
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", c.Str(a), a.sort, c.Str(b), b.sort))
	}
	switch a.sort {
	case SInt:
		if d, ok := c.diffConst(a, b); ok {
			return c.Bool(d == 0)
		}
		if c.distinctRefs(a, b) {
			return c.False()
		}
	case SBool:
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return c.Not(b)
		}
		if isFalse(b) {
			return c.Not(a)
		}
	case SStr:
		if a.op == "uf" && b.op == "uf" && a.name == "$lit" && b.name == "$lit" {
			return c.False()
		}
		if a.op == "const" && b.op == "const" && strings.HasPrefix(a.name, "lit:") && strings.HasPrefix(b.name, "lit:") {
			return c.False()
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.Fun("sEq", SBool, a, b)
	case SAny:
		ac, bc := isCtor(a), isCtor(b)
		if ac && bc {
			if a.name != b.name {
				return c.False()
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", 0, []*Term{a, b}, SBool)
}

func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// ---- Any datatype

func isCtor(t *Term) bool { return t.op == "ctor" }

func (c *Ctx) ANil() *Term { return c.mk("ctor", "anil", 0, nil, SAny) }
func (c *Ctx) ARef(tag, p *Term) *Term {
	return c.mk("ctor", "aref", 0, []*Term{tag, p}, SAny)
}
func (c *Ctx) AStr(tag, s *Term) *Term { return c.mk("ctor", "astr", 0, []*Term{tag, s}, SAny) }
func (c *Ctx) AInt(tag, i *Term) *Term { return c.mk("ctor", "aint", 0, []*Term{tag, i}, SAny) }
func (c *Ctx) ABox(tag, i *Term) *Term { return c.mk("ctor", "abox", 0, []*Term{tag, i}, SAny) }

func (c *Ctx) Is(ctor string, a *Term) *Term {
	if isCtor(a) {
		return c.Bool(a.name == ctor)
	}
	if a.op == "ite" {
		x, y := c.Is(ctor, a.args[1]), c.Is(ctor, a.args[2])
		if (isTrue(x) || isFalse(x)) && (isTrue(y) || isFalse(y)) {
			return c.Ite(a.args[0], x, y)
		}
	}
	return c.mk("is", ctor, 0, []*Term{a}, SBool)
}

var selInfo = map[string]struct {
	ctor string
	i    int
	sort Sort
}{
	"rtag": {"aref", 0, SInt}, "rptr": {"aref", 1, SInt},
	"stag": {"astr", 0, SInt}, "sval": {"astr", 1, SStr},
	"itag": {"aint", 0, SInt}, "ival": {"aint", 1, SInt},
	"btag": {"abox", 0, SInt}, "bval": {"abox", 1, SInt},
}

func (c *Ctx) Sel(sel string, a *Term) *Term {
	si := selInfo[sel]
	if isCtor(a) && a.name == si.ctor {
		return a.args[si.i]
	}
	return c.mk("sel", sel, 0, []*Term{a}, si.sort)
}

// ---- arrays

func (c *Ctx) Select(a, i *Term) *Term {
	_, v, ok := arrParts(a.sort)
	if !ok {
		panic("select on " + string(a.sort))
	}
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.surelyDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return c.mk("select", "", 0, []*Term{a, i}, v)
}

func (c *Ctx) ConstArr(sort Sort, v *Term) *Term {
	return c.mk("constarr", string(sort), 0, []*Term{v}, sort)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	_, vs, _ := arrParts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	return c.mk("store", "", 0, []*Term{a, i, v}, a.sort)
}

func (c *Ctx) surelyDistinct(a, b *Term) bool {
	e := c.Eq(a, b)
	return isFalse(e)
}

// distinctRefs uses the allocation watermark to separate fresh from older references.
func (c *Ctx) distinctRefs(a, b *Term) bool { return c.freshOver(a, b) || c.freshOver(b, a) }

// freshOver: a is W+k (k>0) and b <= W' + j with W' + j < W + k.
func (c *Ctx) freshOver(a, b *Term) bool {
	base, k, ok := c.asWm(a)
	if !ok || k <= 0 {
		return false
	}
	ub, ok := c.bounds[b]
	if !ok {
		if bb, bk, ok2 := c.asWm(b); ok2 {
			ub = refBound{bb, bk}
		} else if b.op == "int" {
			return b.ival <= 0
		} else {
			return false
		}
	}
	// walk down from base
	for {
		if ub.base == base {
			return ub.off < k
		}
		up, ok := c.wmUp[base]
		if !ok {
			return false
		}
		// base >= up.base + up.off  => a = base + k >= up.base + up.off + k
		base, k = up.base, up.off+k
	}
}

// asWm decomposes W or W+k where W is a watermark constant.
func (c *Ctx) asWm(t *Term) (*Term, int64, bool) {
	if t.op == "const" && strings.HasPrefix(t.name, "wm!") {
		return t, 0, true
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" && t.args[0].op == "const" && strings.HasPrefix(t.args[0].name, "wm!") {
		return t.args[0], t.args[1].ival, true
	}
	return nil, 0, false
}

// ---- quantifiers

func (c *Ctx) Quant(op string, binds []*Term, body *Term, trigs [][]*Term) *Term {
	if isTrue(body) || isFalse(body) {
		return body
	}
	// hash-cons key includes binders and triggers through args
	args := []*Term{body}
	args = append(args, binds...)
	var sb strings.Builder
	for _, tg := range trigs {
		sb.WriteString("[")
		for _, t := range tg {
			sb.WriteString(strconv.Itoa(t.id))
			sb.WriteString(",")
		}
		sb.WriteString("]")
	}
	t := c.mk(op, sb.String(), int64(len(binds)), args, SBool)
	t.binds = binds
	t.trigs = trigs
	// free bound variables?
	fv := map[*Term]bool{}
	freeBVs(body, map[*Term]bool{}, fv, map[*Term]bool{})
	for _, b := range binds {
		delete(fv, b)
	}
	t.bound = len(fv) > 0
	return t
}

func freeBVs(t *Term, inner map[*Term]bool, out map[*Term]bool, seen map[*Term]bool) {
	if !t.bound {
		return
	}
	if t.op == "bv" {
		if !inner[t] {
			out[t] = true
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in2 := map[*Term]bool{}
		for k := range inner {
			in2[k] = true
		}
		for _, b := range t.binds {
			in2[b] = true
		}
		freeBVs(t.args[0], in2, out, map[*Term]bool{})
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		freeBVs(a, inner, out, seen)
	}
}

func (c *Ctx) Forall(binds []*Term, body *Term, trigs ...[]*Term) *Term {
	return c.Quant("forall", binds, body, trigs)
}
func (c *Ctx) Exists(binds []*Term, body *Term, trigs ...[]*Term) *Term {
	return c.Quant("exists", binds, body, trigs)
}

// Subst replaces terms (memoised), rebuilding with simplification.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	return c.subst(t, m, map[*Term]*Term{})
}

func (c *Ctx) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == "forall" || t.op == "exists" {
		body := c.subst(t.args[0], m, memo)
		var trigs [][]*Term
		for _, tg := range t.trigs {
			var n []*Term
			for _, x := range tg {
				n = append(n, c.subst(x, m, memo))
			}
			trigs = append(trigs, n)
		}
		r = c.Quant(t.op, t.binds, body, trigs)
	} else {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = c.subst(a, m, memo)
			ch = ch || args[i] != a
		}
		if !ch {
			r = t
		} else {
			r = c.rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Implies(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		return c.Add(a...)
	case "*":
		return c.Mul(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "is":
		return c.Is(t.name, a[0])
	case "sel":
		return c.Sel(t.name, a[0])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "uf":
		if t.name == "sEq" {
			return c.Eq(a[0], a[1])
		}
	}
	return c.mk(t.op, t.name, t.ival, a, t.sort)
}

// ---------------------------------------------------------------- printing

func (c *Ctx) Str(t *Term) string {
	var b strings.Builder
	c.write(&b, t, nil)
	return b.String()
}

func intLit(n int64) string {
	if n < 0 {
		if n == -n {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -n)
	}
	return strconv.FormatInt(n, 10)
}

func (c *Ctx) write(b *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case "int":
		b.WriteString(intLit(t.ival))
		return
	case "const":
		b.WriteString(sym(t.name))
		return
	case "bv":
		b.WriteString(sym(t.name))
		return
	case "true", "false":
		b.WriteString(t.op)
		return
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.binds {
			b.WriteString("(" + sym(v.name) + " " + string(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.trigs) > 0 {
			b.WriteString("(! ")
		}
		c.write(b, t.args[0], names)
		if len(t.trigs) > 0 {
			for _, tg := range t.trigs {
				b.WriteString(" :pattern (")
				for i, x := range tg {
					if i > 0 {
						b.WriteByte(' ')
					}
					c.write(b, x, names)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	case "ctor":
		if len(t.args) == 0 {
			b.WriteString(t.name)
			return
		}
		b.WriteString("(" + t.name)
	case "is":
		b.WriteString("((_ is " + t.name + ")")
	case "sel":
		b.WriteString("(" + t.name)
	case "uf":
		b.WriteString("(" + sym(t.name))
	case "constarr":
		b.WriteString("((as const " + t.name + ")")
	default:
		b.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		c.write(b, a, names)
	}
	b.WriteByte(')')
}

// collect walks terms and gathers symbols used and sharing counts.
func collect(t *Term, cnt map[*Term]int, syms map[string]bool) {
	cnt[t]++
	if cnt[t] > 1 {
		return
	}
	switch t.op {
	case "const", "uf":
		syms[t.name] = true
	case "is", "sel", "ctor":
		syms["Any"] = true
	}
	if len(t.args) > 0 {
		for _, a := range t.args {
			collect(a, cnt, syms)
		}
		for _, tg := range t.trigs {
			for _, x := range tg {
				collect(x, cnt, syms)
			}
		}
	}
}
