package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model gives library functions their meaning. Each is an assumption on the Go library, listed as trusted.
func (x *Exec) model(fr *Frame, st *State, f *ssa.Function, args []Val, where string, k kont) bool {
	if x.w.inRepo(f) {
		return false
	}
	one := func(t ...*Term) Val { return Val{t: t} }
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	trust := func(s string) { x.trusted["library model "+name+": "+s] = true }
	switch name {
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte":
		r := args[0].one()
		b := x.read(st, "SB:buf", ArrSort(SInt, SStr))
		var s *Term
		if strings.HasSuffix(name, "WriteString") {
			s = args[1].one()
		} else {
			s = x.Fun("srune", SStr, args[1].one())
		}
		trust("appends the text")
		x.write(st, "SB:buf", x.Store(b, r, x.SCat(x.Select(b, r), s)))
		if strings.HasSuffix(name, "WriteByte") {
			k(st, one(x.ANil()))
		} else {
			k(st, one(x.SLen(s), x.ANil()))
		}
		return true
	case "(*strings.Builder).String":
		k(st, one(x.Select(x.read(st, "SB:buf", ArrSort(SInt, SStr)), args[0].one())))
		return true
	case "(*strings.Builder).Len":
		k(st, one(x.SLen(x.Select(x.read(st, "SB:buf", ArrSort(SInt, SStr)), args[0].one()))))
		return true
	case "(*strings.Builder).Grow":
		k(st, Val{})
		return true
	case "(*strings.Builder).Reset":
		x.write(st, "SB:buf", x.Store(x.read(st, "SB:buf", ArrSort(SInt, SStr)), args[0].one(), x.StrLit("")))
		k(st, Val{})
		return true
	case "strings.Index":
		trust("offset of the first occurrence or -1")
		k(st, one(x.Fun("sIndex", SInt, args[0].one(), args[1].one())))
		return true
	case "strings.HasPrefix":
		trust("byte-wise prefix test")
		s, p := args[0].one(), args[1].one()
		n := x.SLen(p)
		k(st, one(x.And(x.Le(n, x.SLen(s)), x.Eq(x.SSub(s, x.Int(0), n), p))))
		return true
	case "strings.HasSuffix":
		trust("byte-wise suffix test")
		s, p := args[0].one(), args[1].one()
		n := x.SLen(p)
		k(st, one(x.And(x.Le(n, x.SLen(s)), x.Eq(x.SSub(s, x.Sub(x.SLen(s), n), x.SLen(s)), p))))
		return true
	case "strings.TrimPrefix", "strings.TrimSuffix":
		trust("removes the prefix or suffix when present")
		s, p := args[0].one(), args[1].one()
		n, l := x.SLen(p), x.SLen(s)
		if strings.HasSuffix(name, "Prefix") {
			k(st, one(x.Ite(x.And(x.Le(n, l), x.Eq(x.SSub(s, x.Int(0), n), p)), x.SSub(s, n, l), s)))
		} else {
			k(st, one(x.Ite(x.And(x.Le(n, l), x.Eq(x.SSub(s, x.Sub(l, n), l), p)), x.SSub(s, x.Int(0), x.Sub(l, n)), s)))
		}
		return true
	case "strings.Contains":
		trust("occurrence test")
		k(st, one(x.Le(x.Int(0), x.Fun("sIndex", SInt, args[0].one(), args[1].one()))))
		return true
	case "strings.Repeat":
		trust("n copies")
		x.mustHold(fr, st, x.Le(x.Int(0), args[1].one()), "negative Repeat count at "+where)
		if !st.dead {
			k(st, one(x.Fun("sRepeat", SStr, args[0].one(), args[1].one())))
		}
		return true
	case "unicode/utf8.DecodeLastRuneInString":
		trust("width of the last rune: 1 to 4 within the string, 0 for the empty string")
		k(st, one(x.Fun("lrv", SInt, args[0].one()), x.Fun("lrw", SInt, args[0].one())))
		return true
	case "unicode/utf8.DecodeRuneInString":
		trust("first rune and its width as in a range loop; (RuneError, 0) for the empty string")
		s := args[0].one()
		e := x.Eq(x.SLen(s), x.Int(0))
		k(st, one(x.Ite(e, x.Int(65533), x.Fun("rv", SInt, s, x.Int(0))), x.Ite(e, x.Int(0), x.Fun("rw", SInt, s, x.Int(0)))))
		return true
	case "unicode/utf8.RuneCountInString":
		trust("number of runes")
		k(st, one(x.Fun("runeCount", SInt, args[0].one())))
		return true
	case "(*regexp.Regexp).FindStringIndex":
		trust("a function of the expression and the text: nil, or the bounds of one match within the text")
		re := x.load(st, x.toAddr(args[0], f.Signature.Recv().Type())).one()
		s := args[1].one()
		x.branch(fr, st, x.Fun("reFound", SBool, re, s), "", func(fr *Frame, st *State) {
			r := x.alloc(st)
			b, e := x.Fun("reBeg", SInt, re, s), x.Fun("reEnd", SInt, re, s)
			x.assume(st, x.And(x.Le(x.Int(0), b), x.Le(b, e), x.Le(e, x.SLen(s))))
			cn, cs := x.ti.elemComp(types.Typ[types.Int], 0)
			E := x.read(st, cn, cs)
			x.write(st, cn, x.Store(E, r, x.Store(x.Store(x.Select(E, r), x.Int(0), b), x.Int(1), e)))
			k(st, one(r, x.Int(0), x.Int(2), x.Int(2)))
		}, func(fr *Frame, st *State) {
			k(st, one(x.Int(0), x.Int(0), x.Int(0), x.Int(0)))
		})
		return true
	case "strconv.Itoa":
		trust("decimal representation, inverse of Atoi")
		k(st, one(x.Fun("itoa", SStr, args[0].one())))
		return true
	case "strconv.Atoi":
		trust("a partial function of the text")
		s := args[0].one()
		err := x.Fresh("atoierr", SAny)
		x.assume(st, x.Eq(x.Is("anil", err), x.Fun("atoiOk", SBool, s)))
		n := x.Fresh("atoin", SInt)
		x.assume(st, x.Implies(x.Fun("atoiOk", SBool, s), x.Eq(n, x.Fun("atoi", SInt, s))))
		k(st, one(n, err))
		return true
	case "fmt.Sprintf":
		if t := x.sprintf(st, args); t != nil {
			trust("%d prints an integer in decimal, %s and %v a string as it is")
			k(st, one(t))
			return true
		}
		return false
	case "errors.New", "fmt.Errorf":
		trust("a non-nil error")
		e := x.Fresh("err", SAny)
		x.assume(st, x.Not(x.Is("anil", e)))
		k(st, one(e))
		return true
	case "sort.Search":
		trust("the result r is in [0,n], f(r) holds if r<n and f(r-1) fails if r>0")
		n := args[0].one()
		r := x.Fresh("search", SInt)
		x.assume(st, x.Le(x.Int(0), r))
		// for n <= 0 the result is 0
		x.assume(st, x.Ite(x.Le(n, x.Int(0)), x.Eq(r, x.Int(0)), x.Le(r, n)))
		ft := f.Signature.Params().At(1).Type()
		g1 := x.And(x.Le(x.Int(0), r), x.Lt(r, n))
		t1 := x.evalBool(fr, st, args[1], ft, r, g1, true)
		g2 := x.And(x.Lt(x.Int(0), r), x.Le(r, n))
		t2 := x.evalBool(fr, st, args[1], ft, x.Sub(r, x.Int(1)), g2, false)
		x.assume(st, x.Implies(g1, t1))
		x.assume(st, x.Implies(g2, t2))
		k(st, one(r))
		return true
	case "sort.SearchInts":
		trust("sort.Search with a[i] >= x")
		s, v := args[0], args[1].one()
		r := x.Fresh("search", SInt)
		n := s.t[2]
		cn, cs := x.ti.elemComp(types.Typ[types.Int], 0)
		A := x.Select(x.read(st, cn, cs), s.t[0])
		x.assume(st, x.And(x.Le(x.Int(0), r), x.Le(r, n)))
		x.assume(st, x.Implies(x.Lt(r, n), x.Le(v, x.Select(A, x.Add(s.t[1], r)))))
		x.assume(st, x.Implies(x.Lt(x.Int(0), r), x.Lt(x.Select(A, x.Add(s.t[1], r, x.Int(-1))), v)))
		k(st, one(r))
		return true
	case "sort.Strings", "sort.Ints":
		trust("rearranges the slice into ascending order")
		et := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		s := args[0]
		cn, cs := x.ti.elemComp(et, 0)
		E := x.read(st, cn, cs)
		A := x.Select(E, s.t[0])
		N := x.Fresh("sorted", A.sort)
		id := x.Fresh("perm", SInt)
		j := x.BV("j", SInt)
		in := x.And(x.Le(s.t[1], j), x.Lt(j, x.Add(s.t[1], s.t[2])))
		pj := x.Fun("perm", SInt, id, j)
		qj := x.Fun("permInv", SInt, id, j)
		inp := func(t *Term) *Term { return x.And(x.Le(s.t[1], t), x.Lt(t, x.Add(s.t[1], s.t[2]))) }
		x.assume(st, x.Forall([]*Term{j}, x.Ite(in, x.And(x.Eq(x.Select(N, j), x.Select(A, pj)), inp(pj), x.Eq(x.Fun("permInv", SInt, id, pj), j)), x.Eq(x.Select(N, j), x.Select(A, j))), []*Term{x.Select(N, j)}))
		x.assume(st, x.Forall([]*Term{j}, x.Implies(in, x.And(x.Eq(x.Select(N, qj), x.Select(A, j)), inp(qj), x.Eq(x.Fun("perm", SInt, id, qj), j))), []*Term{x.Select(A, j)}))
		j2 := x.BV("j", SInt)
		var le *Term
		if f.Name() == "Ints" {
			le = x.Le(x.Select(N, j), x.Select(N, j2))
		} else {
			le = x.Not(x.Fun("sLt", SBool, x.Select(N, j2), x.Select(N, j)))
		}
		x.assume(st, x.Forall([]*Term{j, j2}, x.Implies(x.And(in, inp(j2), x.Le(j, j2)), le), []*Term{x.Select(N, j), x.Select(N, j2)}))
		x.write(st, cn, x.Store(E, s.t[0], N))
		k(st, Val{})
		return true
	}
	return false
}

// sprintf: the text, when the format is constant and only prints plain integers and strings.
func (x *Exec) sprintf(st *State, args []Val) *Term {
	format, ok := x.litText(args[0].one())
	if !ok || len(args) != 2 || len(args[1].t) != 4 || args[1].t[2].op != "int" {
		return nil
	}
	n := args[1].t[2].ival
	cn, cs := x.ti.elemComp(types.NewInterfaceType(nil, nil), 0)
	A := x.Select(x.read(st, cn, cs), args[1].t[0])
	out := x.StrLit("")
	next := int64(0)
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = x.SCat(out, x.StrLit(format[i:j]))
			i = j - 1
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			out = x.SCat(out, x.StrLit("%"))
			continue
		}
		if i >= len(format) || next >= n {
			return nil
		}
		a := x.Select(A, x.Add(args[1].t[1], x.Int(next)))
		next++
		is := func(b types.BasicKind) bool {
			return len(a.args) > 0 && a.op == "ctor" && a.args[0] == x.Int(x.ti.tag(types.Typ[b]))
		}
		switch {
		case (format[i] == 'd' || format[i] == 'v') && is(types.Int):
			out = x.SCat(out, x.Fun("itoa", SStr, a.args[1]))
		case (format[i] == 's' || format[i] == 'v') && is(types.String):
			out = x.SCat(out, a.args[1])
		default:
			return nil
		}
	}
	if next != n {
		return nil
	}
	return out
}

func (c *Ctx) libAxioms() {
	c.decls["itoa"] = "(declare-fun itoa (Int) Str)"
	c.decls["atoi"] = "(declare-fun atoi (Str) Int)"
	c.decls["atoiOk"] = "(declare-fun atoiOk (Str) Bool)"
	c.addAxiom([]string{"itoa"}, []string{"atoi", "atoiOk", "slen"}, `(assert (forall ((n Int)) (! (and (atoiOk (itoa n)) (= (atoi (itoa n)) n) (> (slen (itoa n)) 0)) :pattern ((itoa n)))))`)
}
