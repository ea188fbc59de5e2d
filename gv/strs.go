package main

import (
	"encoding/hex"
	"fmt"
	"strings"
)

func (c *Ctx) litText(t *Term) (string, bool) {
	if t.op == "const" && strings.HasPrefix(t.name, "lit:") {
		b, err := hex.DecodeString(t.name[4:])
		if err == nil {
			return string(b), true
		}
	}
	return "", false
}

func (c *Ctx) StrLit(v string) *Term {
	name := "lit:" + hex.EncodeToString([]byte(v))
	_, have := c.decls[name]
	t := c.Const(name, SStr)
	if !have {
		c.axioms[name] = nil
		var b strings.Builder
		fmt.Fprintf(&b, "(assert (= (slen %s) %d))", sym(name), len(v))
		for i := 0; i < len(v) && i < 80; i++ {
			fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))", sym(name), i, v[i])
		}
		c.addAxiom([]string{name}, []string{"slen", "sat"}, b.String())
	}
	return t
}

func (c *Ctx) SLen(s *Term) *Term {
	if v, ok := c.litText(s); ok {
		return c.Int(int64(len(v)))
	}
	if s.op == "uf" && s.name == "scat" {
		return c.Add(c.SLen(s.args[0]), c.SLen(s.args[1]))
	}
	return c.Fun("slen", SInt, s)
}

func (c *Ctx) SAt(s, i *Term) *Term {
	if v, ok := c.litText(s); ok && i.op == "int" && i.ival >= 0 && i.ival < int64(len(v)) {
		return c.Int(int64(v[i.ival]))
	}
	return c.Fun("sat", SInt, s, i)
}

func (c *Ctx) SSub(s, a, b *Term) *Term {
	if v, ok := c.litText(s); ok && a.op == "int" && b.op == "int" && 0 <= a.ival && a.ival <= b.ival && b.ival <= int64(len(v)) {
		return c.StrLit(v[a.ival:b.ival])
	}
	if a.op == "int" && a.ival == 0 && b == c.SLen(s) {
		return s
	}
	return c.Fun("ssub", SStr, s, a, b)
}

func (c *Ctx) SCat(a, b *Term) *Term {
	va, oka := c.litText(a)
	vb, okb := c.litText(b)
	if oka && okb {
		return c.StrLit(va + vb)
	}
	if oka && va == "" {
		return b
	}
	if okb && vb == "" {
		return a
	}
	if b.op == "uf" && b.name == "scat" {
		return c.SCat(c.SCat(a, b.args[0]), b.args[1])
	}
	if okb && a.op == "uf" && a.name == "scat" {
		if v1, ok := c.litText(a.args[1]); ok {
			return c.Fun("scat", SStr, a.args[0], c.StrLit(v1+vb))
		}
	}
	return c.Fun("scat", SStr, a, b)
}

// startsWith: s begins with p. Concatenations are compared piece by piece as far as they go along.
func (c *Ctx) startsWith(s, p *Term) *Term {
	var parts func(t *Term) []*Term
	parts = func(t *Term) []*Term {
		if t.op == "uf" && t.name == "scat" {
			return append(parts(t.args[0]), t.args[1])
		}
		return []*Term{t}
	}
	sp, pp := parts(s), parts(p)
	var eqs []*Term
	for len(pp) > 0 && len(sp) > 0 {
		ls, oks := c.litText(sp[0])
		lp, okp := c.litText(pp[0])
		switch {
		case oks && okp && strings.HasPrefix(ls, lp):
			if rest := ls[len(lp):]; rest == "" {
				sp = sp[1:]
			} else {
				sp = append([]*Term{c.StrLit(rest)}, sp[1:]...)
			}
			pp = pp[1:]
			continue
		case oks && okp && strings.HasPrefix(lp, ls):
			sp = sp[1:]
			pp = append([]*Term{c.StrLit(lp[len(ls):])}, pp[1:]...)
			continue
		case oks && okp:
			return c.False()
		case oks || okp:
		case sp[0] == pp[0], sp[0].op == "uf" && pp[0].op == "uf" && sp[0].name == "itoa" && pp[0].name == "itoa":
			eqs = append(eqs, c.Eq(sp[0], pp[0]))
			sp, pp = sp[1:], pp[1:]
			continue
		}
		break
	}
	if len(pp) == 0 {
		return c.And(eqs...)
	}
	n := c.SLen(p)
	return c.And(c.Le(n, c.SLen(s)), c.Eq(c.SSub(s, c.Int(0), n), p))
}

// strAxioms declares the string theory (total functions on an abstract sort; every axiom is true of
// Go strings as byte sequences with ssub meaningful only within bounds).
func (c *Ctx) strAxioms() {
	d := func(n, sig string) { c.decls[n] = "(declare-fun " + n + " " + sig + ")" }
	d("slen", "(Str) Int")
	d("sat", "(Str Int) Int")
	d("ssub", "(Str Int Int) Str")
	d("scat", "(Str Str) Str")
	d("sEq", "(Str Str) Bool")
	d("sdiff", "(Str Str) Int")
	d("rw", "(Str Int) Int")
	d("rv", "(Str Int) Int")
	d("lrw", "(Str) Int")
	d("lrv", "(Str) Int")
	d("srune", "(Int) Str")
	d("sIndex", "(Str Str) Int")
	d("sLt", "(Str Str) Bool")
	d("sRepeat", "(Str Int) Str")
	d("goquo", "(Int Int) Int")
	d("gorem", "(Int Int) Int")
	c.decls["tagof"] = "(define-fun tagof ((a Any)) Int (ite ((_ is aref) a) (rtag a) (ite ((_ is astr) a) (stag a) (ite ((_ is aint) a) (itag a) (ite ((_ is abox) a) (btag a) 0)))))"
	A := c.addAxiom
	c.StrLit("")
	A([]string{"slen"}, []string{"lit:"}, `(assert (forall ((s Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s |lit:|))) :pattern ((slen s)))))`)
	A([]string{"ssub"}, []string{"slen"}, `(assert (forall ((s Str)(a Int)(b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (ssub s a b)) (- b a))) :pattern ((ssub s a b)))))
(assert (forall ((s Str)(a Int)(b Int)) (! (=> (and (= 0 a) (= b (slen s))) (= (ssub s a b) s)) :pattern ((ssub s a b)))))
(assert (forall ((s Str)(a Int)(b Int)(i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (< i (- b a))) (= (sat (ssub s a b) i) (sat s (+ a i)))) :pattern ((sat (ssub s a b) i)))))
(assert (forall ((s Str)(a Int)(b Int)(p Int)(q Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 p) (<= p q) (<= q (- b a))) (= (ssub (ssub s a b) p q) (ssub s (+ a p) (+ a q)))) :pattern ((ssub (ssub s a b) p q)))))`)
	c.axioms["ssub"][len(c.axioms["ssub"])-1].needs = append(c.axioms["ssub"][len(c.axioms["ssub"])-1].needs, "sat")
	A([]string{"scat"}, []string{"slen", "sat"}, `(assert (forall ((a Str)(b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str)(b Str)(i Int)) (! (=> (and (<= 0 i) (< i (slen a))) (= (sat (scat a b) i) (sat a i))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a Str)(b Str)(i Int)) (! (=> (and (<= (slen a) i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))`)
	A([]string{"sEq"}, []string{"slen", "sat", "sdiff"}, `(assert (forall ((a Str)(b Str)) (! (= (sEq a b) (= a b)) :pattern ((sEq a b)))))
(assert (forall ((a Str)(b Str)) (! (=> (and (not (sEq a b)) (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((sEq a b)))))`)
	A([]string{"sat"}, []string{"slen"}, `(assert (forall ((s Str)(i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (and (<= 0 (sat s i)) (<= (sat s i) 255))) :pattern ((sat s i)))))`)
	A([]string{"rw", "rv"}, []string{"slen", "sat", "ssub", "rw", "rv"}, `(assert (forall ((s Str)(i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (and (<= 1 (rw s i)) (<= (rw s i) 4) (<= (+ i (rw s i)) (slen s)) (=> (< (sat s i) 128) (and (= (rw s i) 1) (= (rv s i) (sat s i)))) (=> (>= (sat s i) 128) (>= (rv s i) 128)))) :pattern ((rw s i)))))
(assert (forall ((s Str)(i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (and (=> (< (sat s i) 128) (= (rv s i) (sat s i))) (=> (>= (sat s i) 128) (>= (rv s i) 128)))) :pattern ((rv s i)))))
(assert (forall ((s Str)(i Int)(j Int)) (! (=> (and (<= 0 i) (< i j) (< j (+ i (rw s i))) (< i (slen s))) (>= (sat s j) 128)) :pattern ((rw s i) (sat s j)))))
(assert (forall ((s Str)(a Int)(b Int)(i Int)) (! (=> (and (<= 0 a) (<= a b) (= b (slen s)) (<= 0 i) (< i (- b a))) (and (= (rw (ssub s a b) i) (rw s (+ a i))) (= (rv (ssub s a b) i) (rv s (+ a i))))) :pattern ((rw (ssub s a b) i)) :pattern ((rv (ssub s a b) i)))))`)
	A([]string{"lrw"}, []string{"slen"}, `(assert (forall ((s Str)) (! (ite (= (slen s) 0) (= (lrw s) 0) (and (<= 1 (lrw s)) (<= (lrw s) 4) (<= (lrw s) (slen s)))) :pattern ((lrw s)))))`)
	A([]string{"srune"}, []string{"slen"}, `(assert (forall ((r Int)) (! (and (<= 1 (slen (srune r))) (<= (slen (srune r)) 4)) :pattern ((srune r)))))`)
	// strings.Index: first occurrence
	A([]string{"sLt"}, []string{"sEq"}, `(assert (forall ((a Str)(b Str)) (! (and (not (and (sLt a b) (sLt b a))) (not (and (sLt a b) (sEq a b))) (or (sLt a b) (sLt b a) (sEq a b))) :pattern ((sLt a b)))))
(assert (forall ((a Str)(b Str)(c Str)) (! (=> (and (sLt a b) (sLt b c)) (sLt a c)) :pattern ((sLt a b) (sLt b c)))))`)
	A([]string{"sIndex"}, []string{"slen", "sat", "ssub", "sEq"}, `(assert (forall ((s Str)(t Str)) (! (let ((k (sIndex s t))) (and (<= (- 1) k) (=> (>= k 0) (and (<= (+ k (slen t)) (slen s)) (sEq (ssub s k (+ k (slen t))) t))))) :pattern ((sIndex s t)))))
(assert (forall ((s Str)(t Str)(j Int)) (! (=> (and (<= 0 j) (<= (+ j (slen t)) (slen s)) (or (= (sIndex s t) (- 1)) (< j (sIndex s t)))) (not (sEq (ssub s j (+ j (slen t))) t))) :pattern ((sIndex s t) (ssub s j (+ j (slen t)))))))`)
	A([]string{"sRepeat"}, []string{"slen", "sat"}, `(assert (forall ((s Str)(n Int)) (! (=> (and (>= n 0) (= (slen s) 1)) (= (slen (sRepeat s n)) n)) :pattern ((sRepeat s n)))))
(assert (forall ((s Str)(n Int)(i Int)) (! (=> (and (= (slen s) 1) (<= 0 i) (< i n)) (= (sat (sRepeat s n) i) (sat s 0))) :pattern ((sat (sRepeat s n) i)))))`)
	A([]string{"goquo", "gorem"}, []string{"goquo", "gorem"}, `(assert (forall ((a Int)(b Int)) (! (=> (> b 0) (= (goquo a b) (ite (>= a 0) (div a b) (- (div (- a) b))))) :pattern ((goquo a b)))))
(assert (forall ((a Int)(b Int)) (! (=> (> b 0) (= (gorem a b) (- a (* b (ite (>= a 0) (div a b) (- (div (- a) b))))))) :pattern ((gorem a b)))))`)
}
