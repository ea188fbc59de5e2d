package main

import (
	"fmt"
	"go/types"
	"maps"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(st *State, v Val)

func (x *Exec) call(fr *Frame, st *State, in *ssa.Call, k kont) {
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, x.val(fr, st, a))
	}
	fn := x.val(fr, st, in.Call.Value)
	x.callCommon(fr, st, &in.Call, fn, args, in.Call.Signature(), x.pos(in), k)
}

func tupleVal(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	var v Val
	for _, a := range vs {
		if a.addr != nil {
			unsup("interior pointer in a result tuple")
		}
		v.t = append(v.t, a.t...)
	}
	return v
}

func (x *Exec) callCommon(fr *Frame, st *State, cc *ssa.CallCommon, fv Val, args []Val, sig *types.Signature, where string, k kont) {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		x.builtin(fr, st, b, cc, args, where, k)
		return
	}
	if cc.IsInvoke() {
		x.invoke(fr, st, fv.one(), cc.Value.Type(), cc.Method, args, where, k)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if bv, ok := fr.env[b]; ok {
					binds = append(binds, bv)
				} else {
					binds = append(binds, x.val(fr, st, b))
				}
			}
		}
		x.callFn(fr, st, f, args, binds, where, k)
		return
	}
	x.callValue(fr, st, fv, cc.Value.Type(), args, where, k)
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, st *State, fv Val, ft types.Type, args []Val, where string, k kont) {
	t := fv.one()
	if t.op == "ite" {
		x.branch(fr, st, t.args[0], "", func(fr *Frame, st *State) {
			x.callValue(fr, st, Val{t: []*Term{t.args[1]}}, ft, args, where, k)
		}, func(fr *Frame, st *State) {
			x.callValue(fr, st, Val{t: []*Term{t.args[2]}}, ft, args, where, k)
		})
		return
	}
	if c, ok := x.closures[t]; ok {
		if c.con != nil {
			all := append(append([]Val{}, c.binds...), args...)
			sig := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
			var pts []types.Type
			for _, p := range c.fn.Params {
				pts = append(pts, p.Type())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				pts = append(pts, sig.Params().At(i).Type())
			}
			x.applyContract(fr, st, c.con.uncurried(), all, pts, sig.Results(), where, k)
			return
		}
		if c.core != nil { // identity-wrapped operator body
			a := append([]Val{}, args...)
			a = append(a, *c.node)
			x.callValue(fr, st, *c.core, nil, a, where, k)
			return
		}
		x.callFn(fr, st, c.fn, args, c.binds, where, k)
		return
	}
	x.mustHold(fr, st, x.Neq(t, x.Int(0)), "call of a nil function at "+where)
	if st.dead {
		return
	}
	if ft != nil {
		if con := x.w.funcTypeContract(ft, x.aspect()); con != nil {
			sig := ft.Underlying().(*types.Signature)
			all := append([]Val{fv}, args...)
			var ptypes []types.Type
			ptypes = append(ptypes, ft)
			for i := 0; i < sig.Params().Len(); i++ {
				ptypes = append(ptypes, sig.Params().At(i).Type())
			}
			x.applyContract(fr, st, con, all, ptypes, sig.Results(), where, k)
			return
		}
	}
	unsup("call of an unknown function value of type %s at %s", ft, where)
}

// sigParams: the types of the receiver and the parameters.
func sigParams(s *types.Signature) []types.Type {
	var r []types.Type
	if s.Recv() != nil {
		r = append(r, s.Recv().Type())
	}
	for i := 0; i < s.Params().Len(); i++ {
		r = append(r, s.Params().At(i).Type())
	}
	return r
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, args, binds []Val, where string, k kont) {
	name := f.String()
	short := f.Name()
	if x.tgt != nil && x.tgt.con.core[short] && f.Signature.Recv() == nil {
		// wrap(f, node): the identity core of the combinator; node must be the receiver of the target
		if len(args) != 2 {
			unsup("core combinator %s with %d arguments", short, len(args))
		}
		if x.tgt.recv != nil {
			x.prove(st, x.Eq(args[1].one(), x.tgt.recvTerm), "core-node: the node given to "+short+" is the receiver")
		}
		r := x.alloc(st)
		c := args[0]
		n := args[1]
		x.closures[r] = &Closure{core: &c, node: &n}
		k(st, Val{t: []*Term{r}})
		return
	}
	if con := x.w.funcContract(f, x.aspect()); con != nil && !con.noCall && !(x.tgt != nil && x.tgt.con.inline[short]) && len(con.curry) == 0 {
		pts := sigParams(f.Signature)
		x.applyContract(fr, st, con, args, pts, f.Signature.Results(), where, k)
		return
	}
	if con := x.w.funcContract(f, x.aspect()); con != nil && !con.noCall && !x.tgt.con.inline[short] && len(con.curry) == 1 && con != x.tgt.con && onlyCloses(f) {
		r := x.alloc(st)
		x.closures[r] = &Closure{fn: f, con: con, binds: args}
		k(st, Val{t: []*Term{r}})
		return
	}
	if g := x.w.stub(f); g != nil {
		x.trusted["library model in Go: contracts/models.go "+g.Name()+" stands for "+name] = true
		x.callFn(fr, st, g, args, nil, where, k)
		return
	}
	if x.model(fr, st, f, args, where, k) {
		return
	}
	if len(f.Blocks) == 0 || !x.w.inRepo(f) {
		x.external(fr, st, f, args, where, k)
		return
	}
	for _, s := range fr.stack {
		if s == name && f.Parent() == nil {
			unsup("recursive call of %s without a contract at %s", name, where)
		}
	}
	cnt := 0
	for _, s := range fr.stack {
		if s == name {
			cnt++
		}
	}
	if cnt > 3 {
		unsup("recursive call of %s at %s", name, where)
	}
	x.inlined[strings.ReplaceAll(name, x.ti.repo, "~")] = true
	d := len(st.trace)
	_ = d
	x.enter(f, args, binds, st, fr.depth+1, fr.stack, fr.visible(), func(st *State, vs []Val) {
		k(st, tupleVal(vs))
	}, func(st *State, msg string) {
		x.unwind(fr.clone(), st, msg)
	})
}

// external: a function outside the repository without a model.
func (x *Exec) external(fr *Frame, st *State, f *ssa.Function, args []Val, where string, k kont) {
	n := strings.ReplaceAll(f.String(), x.ti.repo, "~")
	if x.w.inRepo(f) {
		unsup("no body for %s", n)
	}
	// result types must carry no repository state
	x.trusted["external "+n+": arbitrary result, no effect on the program state"] = true
	v := Val{}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v.t = append(v.t, x.freshVal(st, "ext."+f.Name(), res.At(i).Type()).t...)
	}
	k(st, v)
}

// invoke: dynamic dispatch.
func (x *Exec) invoke(fr *Frame, st *State, recv *Term, it types.Type, m *types.Func, args []Val, where string, k kont) {
	if recv.op == "ite" {
		x.branch(fr, st, recv.args[0], "", func(fr *Frame, st *State) {
			x.invoke(fr, st, recv.args[1], it, m, args, where, k)
		}, func(fr *Frame, st *State) {
			x.invoke(fr, st, recv.args[2], it, m, args, where, k)
		})
		return
	}
	x.mustHold(fr, st, x.Not(x.Is("anil", recv)), "method "+m.Name()+" of a nil interface at "+where)
	if st.dead {
		return
	}
	tag := x.tagOf(recv)
	if tag.op != "int" {
		tag = x.knownTag(st, recv, tag)
	}
	if tag.op == "int" {
		if ct, ok := x.ti.tagT[tag.ival]; ok {
			f := x.w.method(ct, m)
			if f == nil {
				unsup("method %s of %s", m.Name(), ct)
			}
			rv := x.unIface(st, recv, ct)
			x.callFn(fr, st, f, append([]Val{rv}, args...), nil, where, k)
			return
		}
	}
	if con := x.w.ifaceContract(it, m, x.aspect()); con != nil {
		sig := m.Type().(*types.Signature)
		pts := []types.Type{it}
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		x.applyContract(fr, st, con, append([]Val{{t: []*Term{recv}}}, args...), pts, sig.Results(), where, k)
		return
	}
	if m.Pkg() == nil && m.Name() == "Error" {
		x.trusted["error.Error: arbitrary text, no effect on the program state"] = true
		k(st, x.freshVal(st, "errtext", types.Typ[types.String]))
		return
	}
	unsup("dynamic call of %s.%s without a contract at %s", it, m.Name(), where)
}

// knownTag: is the dynamic type fixed by the path condition?
func (x *Exec) knownTag(st *State, recv, tag *Term) *Term {
	for f := range st.facts {
		if f.op == "=" {
			a, b := f.args[0], f.args[1]
			if b.op == "sel" {
				a, b = b, a
			}
			if a.op == "sel" && a.args[0] == recv && b.op == "int" {
				switch a.name {
				case "rtag", "stag", "itag", "btag":
					ctor := selInfo[a.name].ctor
					if st.facts[x.Is(ctor, recv)] {
						return b
					}
				}
			}
			if b == recv {
				a, b = b, a
			}
			if a == recv && isCtor(b) && len(b.args) > 0 && b.args[0].op == "int" {
				return b.args[0]
			}
		}
	}
	return tag
}

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) bindParams(con *Contract, args []Val, pts []types.Type) map[string]SV {
	vars := map[string]SV{}
	for i, p := range con.params {
		if i >= len(args) {
			panic(specErr{fmt.Sprintf("%s:%d: contract of %s has %d parameters, the function %d", con.file, con.line, con.name, len(con.params), len(args))})
		}
		if p == "_" {
			continue
		}
		vars[p] = SV{v: args[i], typ: pts[i]}
	}
	if len(con.params) != len(args) {
		panic(specErr{fmt.Sprintf("%s:%d: contract of %s has %d parameters, the function %d", con.file, con.line, con.name, len(con.params), len(args))})
	}
	return vars
}

func (x *Exec) applyContract(fr *Frame, st *State, con *Contract, args []Val, pts []types.Type, res *types.Tuple, where string, k kont) {
	x.called[con.id] = true
	env := &SEnv{x: x, st: st, vars: x.bindParams(con, args, pts), pkg: x.w.pkgOf(con.pkg), con: con}
	env.old = st
	for _, cl := range con.get("let") {
		env.vars[cl.label] = env.eval(cl.ex)
	}
	for _, cl := range con.get("requires") {
		x.prove(st, env.formula(cl.ex), fmt.Sprintf("call %s requires %s", con.name, cl.name()))
		x.assume(st, env.formula(cl.ex))
	}
	if st.dead {
		return
	}
	if pw := con.get("panics_when"); len(pw) > 0 {
		var cs []*Term
		for _, cl := range pw {
			cs = append(cs, env.formula(cl.ex))
		}
		x.mustHold(fr, st, x.Not(x.Or(cs...)), "panic of "+con.name+" at "+where)
		if st.dead {
			return
		}
	}
	x.eachCall(fr, st, env, con, args, pts, where)
	old := st.clone()
	env.old = old
	if con.ufname == "" || con.has("modifies") {
		x.applyModifies(st, env, con)
	}
	if (con.mayPanic || !con.has("panics_when") && con.ufname == "") && x.tgt.panicsMatter() {
		f2, s2 := fr.clone(), st.clone()
		x.doPanic(f2, s2, "panic propagated from "+con.name+" at "+where)
	}
	var out Val
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		var v Val
		if con.ufname != "" {
			v = x.ufResult(con, i, res.Len(), args, rt)
			x.typeFacts(st, rt, v)
		} else {
			n := "r"
			if i < len(con.results) {
				n = con.results[i]
			}
			v = x.freshVal(st, con.shortName()+"."+n, rt)
		}
		if i < len(con.results) {
			env.vars[con.results[i]] = SV{v: v, typ: rt}
		}
		out.t = append(out.t, v.t...)
	}
	if con.kind == "func" && con.trusted {
		x.trusted["contract of "+con.id+" is assumed, its body is not verified"] = true
	}
	for _, cl := range con.get("ensures") {
		// what a function says about its own log says nothing to its callers, whose log does not change
		if con.writesGhosts() && x.w.specs.mentionsGhost(cl.ex, con, map[string]bool{}) {
			continue
		}
		x.assume(st, env.formula(cl.ex))
	}
	for _, cl := range con.get("assume") {
		x.trusted[fmt.Sprintf("assumed of %s: %s", con.name, cl.text)] = true
		x.assume(st, env.formula(cl.ex))
	}
	x.ghostSets(st, env, con)
	if st.dead {
		return
	}
	x.saneCall(old, st, con)
	st.trace = append(st.trace, con.name+" at "+where)
	k(st, out)
}

// eachCall: what the target says of the function it hands to a callee. The function is run once, on arbitrary
// arguments, in an arbitrary state the callee can have reached.
func (x *Exec) eachCall(fr *Frame, st *State, env *SEnv, con *Contract, args []Val, pts []types.Type, where string) {
	if x.tgt == nil {
		return
	}
	for _, cl := range x.tgt.con.get("each") {
		name, rest, _ := strings.Cut(cl.text, "(")
		if strings.TrimSpace(name) != con.shortName() {
			continue
		}
		ps, rs, _ := strings.Cut(rest, ")")
		for i, pt := range pts {
			sig, ok := pt.Underlying().(*types.Signature)
			if !ok || i >= len(args) {
				continue
			}
			x.hintUsed[cl.text]++
			st2, fr2 := st.clone(), fr.clone()
			e2 := *env
			e2.st, e2.old = st2, st
			x.applyModifies(st2, &e2, con)
			te := x.tgt.env(x, st2)
			te.old = st2.clone()
			var as []Val
			for j, n := range strings.Split(ps, ",") {
				if j < sig.Params().Len() {
					v := x.freshVal(st2, strings.TrimSpace(n), sig.Params().At(j).Type())
					te.vars[strings.TrimSpace(n)] = SV{v: v, typ: sig.Params().At(j).Type()}
					as = append(as, v)
				}
			}
			te.old = st2.clone()
			fr2.joins = nil
			x.callValue(fr2, st2, args[i], pt, as, where, func(s3 *State, v Val) {
				te := *te
				te.vars = maps.Clone(te.vars)
				te.st = s3
				o := 0
				for j, n := range strings.Split(rs, ",") {
					if j < sig.Results().Len() {
						k := len(x.ti.Leaves(sig.Results().At(j).Type()))
						te.vars[strings.TrimSpace(n)] = SV{v: Val{t: v.t[o : o+k]}, typ: sig.Results().At(j).Type()}
						o += k
					}
				}
				x.proveC(s3, te.formula(cl.ex), cl.label, cl)
			})
		}
	}
}

// saneCall notes whether the promises of con can be kept at all: somewhere the state after a call must be
// possible when the one before is.
func (x *Exec) saneCall(pre, post *State, con *Contract) {
	if x.sane == nil {
		x.sane = map[string]int{}
	}
	if n := x.sane[con.id]; n < 0 || n > 4 || x.quiet > 0 || x.discovering > 0 {
		return
	}
	if x.query(post.pc, 300) != "unsat" {
		x.sane[con.id] = -1
	} else if x.query(pre.pc, 300) != "unsat" {
		x.sane[con.id]++
	}
}

func (c *Contract) writesGhosts() bool { return c.has("set") || c.has("ghostwrites") }

// written: some contract changes ghost g.
func (s *Specs) written(g string) bool {
	s.writtenOnce.Do(func() {
		s.writtenG = map[string]bool{}
		for _, c := range s.contracts {
			for _, cl := range c.get("set") {
				n, _, _ := strings.Cut(cl.text, "=")
				n, _, _ = strings.Cut(n, "[")
				s.writtenG[strings.TrimSpace(n)] = true
			}
		}
	})
	return s.writtenG[g]
}

func (s *Specs) mentionsGhost(ex *Ex, con *Contract, seen map[string]bool) bool {
	if ex == nil {
		return false
	}
	if (ex.op == "ident" || ex.op == "call") && !seen[ex.s] {
		if _, ok := s.ghosts[ex.s]; ok && s.written(ex.s) {
			return true
		}
		seen[ex.s] = true
		if f, ok := s.fns[ex.s]; ok && ex.op == "call" && !seen["fn:"+ex.s] {
			// the body of a named formula knows its parameters and the ghosts only
			in := map[string]bool{"fn:" + ex.s: true}
			for k := range seen {
				if strings.HasPrefix(k, "fn:") {
					in[k] = true
				}
			}
			for _, p := range f.params {
				in[p.name] = true
			}
			if s.mentionsGhost(f.body, nil, in) {
				return true
			}
		}
		for _, kw := range []string{"let", "let2", "rec"} {
			if con == nil {
				break
			}
			for _, cl := range con.get(kw) {
				if cl.label == ex.s && s.mentionsGhost(cl.ex, con, seen) {
					return true
				}
			}
		}
	}
	for _, a := range ex.args {
		if s.mentionsGhost(a, con, seen) {
			return true
		}
	}
	return false
}

func (x *Exec) ghostSets(st *State, env *SEnv, con *Contract) {
	for _, cl := range con.get("set") {
		lhs, rhs, _ := strings.Cut(cl.text, "=")
		lhs = strings.TrimSpace(lhs)
		loc := fmt.Sprintf("%s:%d", con.file, cl.line)
		r := env.eval(parseEx(strings.TrimSpace(rhs), loc))
		if i := strings.IndexByte(lhs, '['); i > 0 {
			g := strings.TrimSpace(lhs[:i])
			idx := env.eval(parseEx(lhs[i+1:len(lhs)-1], loc)).v.one()
			elem := x.w.ghostElem(g)
			rv := env.coerce(r, elem)
			for j, l := range x.ti.Leaves(elem) {
				n, s := "G:"+g+l.path, ArrSort(SInt, l.sort)
				x.write(st, n, x.Store(x.read(st, n, s), idx, rv.v.t[j]))
			}
			continue
		}
		if _, ok := x.w.specs.ghosts[lhs]; !ok {
			panic(specErr{loc + ": unknown ghost " + lhs})
		}
		gt := x.w.ghostType(lhs)
		rv := env.coerce(r, gt)
		for j, l := range x.ti.Leaves(gt) {
			x.write(st, "G:"+lhs+l.path, rv.v.t[j])
		}
	}
}

func (c *Contract) shortName() string {
	n := c.name
	if i := strings.LastIndexAny(n, ".)"); i >= 0 && i+1 < len(n) {
		n = n[i+1:]
	}
	return n
}

func (cl *Clause) name() string {
	if cl.label != "" {
		return cl.label
	}
	t := strings.Join(strings.Fields(cl.text), " ")
	if len(t) > 60 {
		t = t[:60] + "…"
	}
	return t
}

func (x *Exec) ufResult(con *Contract, i, n int, args []Val, rt types.Type) Val {
	var at []*Term
	for _, a := range args {
		at = append(at, a.t...)
	}
	var v Val
	for _, l := range x.ti.Leaves(rt) {
		nm := con.ufname + l.path
		if n > 1 {
			nm += fmt.Sprintf("#%d", i)
		}
		v.t = append(v.t, x.Fun(nm, l.sort, at...))
	}
	return v
}

// modItem is one entry of a modifies/preserves list.
type modItem struct {
	all    bool
	ghost  string
	match  func(comp string) bool
	at     *Ex // single object
	text   string
	arrays bool
}

func (x *Exec) modItems(con *Contract, kind string) []modItem {
	var out []modItem
	for _, cl := range con.get(kind) {
		for _, it := range splitTop(cl.text) {
			it = strings.TrimSpace(it)
			if it == "" || it == "nothing" {
				continue
			}
			m := modItem{text: it}
			if h, a, ok := strings.Cut(it, "@"); ok {
				m.at = parseEx(strings.TrimSpace(a), fmt.Sprintf("%s:%d", con.file, cl.line))
				it = strings.TrimSpace(h)
			}
			kw, rest, _ := strings.Cut(it, " ")
			rest = strings.TrimSpace(rest)
			pkg := x.w.pkgOf(con.pkg)
			switch {
			case it == "all":
				m.all = true
				m.match = func(string) bool { return true }
			case kw == "ghost":
				p := "G:" + rest
				m.match = func(c string) bool { return c == p || strings.HasPrefix(c, p+"#") || strings.HasPrefix(c, p+".") }
			case kw == "elems":
				p := "E:" + x.ti.key(x.w.typ(pkg, rest))
				m.arrays = true
				m.match = func(c string) bool {
					return c == p || strings.HasPrefix(c, p+"#") || strings.HasPrefix(c, p+".")
				}
			case kw == "map":
				p := "M:" + x.ti.key(x.w.typ(pkg, rest)) + "."
				m.match = func(c string) bool { return strings.HasPrefix(c, p) }
			case kw == "cell":
				p := "O:" + x.ti.key(x.w.typ(pkg, rest))
				m.match = func(c string) bool { return c == p || strings.HasPrefix(c, p+"#") }
			case kw == "global":
				p := "O:global:~." + rest
				m.match = func(c string) bool { return c == p || strings.HasPrefix(c, p+"#") || strings.HasPrefix(c, p+".") }
			case it == "builders":
				m.match = func(c string) bool { return c == "SB:buf" }
			case it == "iterators":
				m.match = func(c string) bool { return strings.HasPrefix(c, "IT:") }
			default:
				tn, f, ok := cutLast(it, ".")
				if !ok {
					panic(specErr{fmt.Sprintf("%s:%d: modifies item %q", con.file, cl.line, it)})
				}
				p := "O:" + x.ti.key(x.w.typ(pkg, tn)) + "."
				if f == "*" {
					m.match = func(c string) bool { return strings.HasPrefix(c, p) }
				} else {
					p += f
					m.match = func(c string) bool {
						return c == p || strings.HasPrefix(c, p+"#") || strings.HasPrefix(c, p+".")
					}
				}
			}
			out = append(out, m)
		}
	}
	return out
}

func cutLast(s, sep string) (string, string, bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

// implicitly volatile components: contents of iterators and builders local to callees
func localComp(c string) bool { return strings.HasPrefix(c, "IT:") || c == "SB:buf" }

func (x *Exec) applyModifies(st *State, env *SEnv, con *Contract) {
	mods := x.modItems(con, "modifies")
	keep := x.modItems(con, "preserves")
	all := false
	for _, m := range mods {
		all = all || m.all
	}
	x.nwmBump(st)
	if all {
		x.havoc(st, func(c string) bool {
			for _, k := range keep {
				if k.match(c) {
					return true
				}
			}
			if strings.HasPrefix(c, "G:") || localComp(c) {
				return true // ghost state changes only by set clauses
			}
			return false
		})
		return
	}
	for _, m := range mods {
		if m.at != nil {
			o := env.oldEnv().eval(m.at)
			ref := o.v.t[0]
			if o.v.addr != nil {
				unsup("modifies @ interior pointer")
			}
			for _, c := range x.compsMatching(con, m) {
				srt := x.comps[c]
				arr := x.read(st, c, srt)
				_, vs, _ := arrParts(srt)
				x.write(st, c, x.Store(arr, ref, x.Fresh("mod."+c, vs)))
			}
			continue
		}
		mm := m
		x.havoc(st, func(c string) bool { return !mm.match(c) })
	}
}

// compsMatching enumerates the components a single-object item names.
func (x *Exec) compsMatching(con *Contract, m modItem) []string {
	pkg := x.w.pkgOf(con.pkg)
	it := strings.TrimSpace(strings.SplitN(m.text, "@", 2)[0])
	kw, rest, _ := strings.Cut(it, " ")
	rest = strings.TrimSpace(rest)
	var all []string
	switch {
	case kw == "elems":
		t := x.w.typ(pkg, rest)
		for i := range x.ti.Leaves(t) {
			n, s := x.ti.elemComp(t, i)
			x.comp(n, s)
			all = append(all, n)
		}
	case kw == "map":
		mt := x.w.typ(pkg, rest).Underlying().(*types.Map)
		n, s := x.ti.mapDom(mt)
		x.comp(n, s)
		all = append(all, n)
		n, s = x.ti.mapLen(mt)
		x.comp(n, s)
		all = append(all, n)
		for i := range x.ti.Leaves(mt.Elem()) {
			n, s := x.ti.mapVal(mt, i)
			x.comp(n, s)
			all = append(all, n)
		}
	case kw == "cell":
		t := x.w.typ(pkg, rest)
		for i := range x.ti.Leaves(t) {
			n, s := x.ti.objComp(t, i)
			x.comp(n, s)
			all = append(all, n)
		}
	default:
		tn, _, _ := cutLast(it, ".")
		t := x.w.typ(pkg, tn)
		for i := range x.ti.Leaves(t) {
			n, s := x.ti.objComp(t, i)
			if m.match(n) {
				x.comp(n, s)
				all = append(all, n)
			}
		}
	}
	return all
}

func (x *Exec) nwmBump(st *State) { x.newWm(st) }

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, where string, k kont) {
	one := func(t *Term) Val { return Val{t: []*Term{t}} }
	switch b.Name() {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			k(st, one(x.SLen(args[0].one())))
		case *types.Slice:
			k(st, one(args[0].t[2]))
		case *types.Map:
			k(st, one(x.mapLenOf(st, u, args[0].one())))
		default:
			unsup("len of %s", u)
		}
	case "cap":
		k(st, one(args[0].t[3]))
	case "append":
		x.appendOp(fr, st, cc, args, k)
	case "copy":
		x.copyOp(fr, st, cc, args, k)
	case "delete":
		m := cc.Args[0].Type().Underlying().(*types.Map)
		ref, key := args[0].one(), args[1].one()
		dn, ds := x.ti.mapDom(m)
		dom := x.read(st, dn, ds)
		d := x.Select(dom, ref)
		ln, ls := x.ti.mapLen(m)
		la := x.read(st, ln, ls)
		x.write(st, ln, x.Store(la, ref, x.Sub(x.Select(la, ref), x.Ite(x.Select(d, key), x.Int(1), x.Int(0)))))
		x.write(st, dn, x.Store(dom, ref, x.Store(d, key, x.False())))
		k(st, Val{})
	case "min", "max":
		r := args[0].one()
		for _, a := range args[1:] {
			c := x.Le(r, a.one())
			if b.Name() == "max" {
				c = x.Le(a.one(), r)
			}
			r = x.Ite(c, r, a.one())
		}
		k(st, one(r))
	case "print", "println":
		k(st, Val{})
	case "recover":
		unsup("recover at %s", where)
	case "ssa:wrapnilchk":
		x.mustHold(fr, st, x.Neq(args[0].one(), x.Int(0)), "nil receiver at "+where)
		if !st.dead {
			k(st, args[0])
		}
	default:
		unsup("builtin %s at %s", b.Name(), where)
	}
}

func (x *Exec) appendOp(fr *Frame, st *State, cc *ssa.CallCommon, args []Val, k kont) {
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if _, isStr := cc.Args[1].Type().Underlying().(*types.Basic); isStr {
		unsup("append of a string")
	}
	s, t := args[0], args[1]
	n, m := s.t[2], t.t[2]
	if m.op == "int" && m.ival == 0 {
		k(st, s)
		return
	}
	nl := x.Add(n, m)
	lit := m.op == "int" && m.ival <= 8
	fits := x.Le(nl, s.t[3])
	x.branch(fr, st, fits, "", func(fr *Frame, st *State) {
		// in place
		for i := range x.ti.Leaves(et) {
			cn, cs := x.ti.elemComp(et, i)
			E := x.read(st, cn, cs)
			A := x.Select(E, s.t[0])
			B := x.Select(E, t.t[0])
			var N *Term
			if lit {
				N = A
				for j := int64(0); j < m.ival; j++ {
					N = x.Store(N, x.Add(s.t[1], n, x.Int(j)), x.Select(B, x.Add(t.t[1], x.Int(j))))
				}
			} else {
				N = x.copyArr(st, A, x.Add(s.t[1], n), B, t.t[1], m)
			}
			x.write(st, cn, x.Store(E, s.t[0], N))
		}
		k(st, Val{t: []*Term{s.t[0], s.t[1], nl, s.t[3]}})
	}, func(fr *Frame, st *State) {
		r := x.alloc(st)
		cp := x.Fresh("cap", SInt)
		x.assume(st, x.Le(nl, cp))
		off := x.Int(0)
		for i := range x.ti.Leaves(et) {
			cn, cs := x.ti.elemComp(et, i)
			E := x.read(st, cn, cs)
			A := x.Select(E, s.t[0])
			B := x.Select(E, t.t[0])
			var N *Term
			if z := s.t[1]; z.op == "int" && z.ival == 0 {
				N = A
			} else if n.op == "int" && n.ival == 0 {
				N = A
			} else {
				_, inner, _ := arrParts(cs)
				N = x.copyArr(st, x.Fresh("arr", inner), x.Int(0), A, s.t[1], n)
			}
			if lit {
				for j := int64(0); j < m.ival; j++ {
					N = x.Store(N, x.Add(n, x.Int(j)), x.Select(B, x.Add(t.t[1], x.Int(j))))
				}
			} else {
				N = x.copyArr(st, N, n, B, t.t[1], m)
			}
			x.write(st, cn, x.Store(E, r, N))
		}
		k(st, Val{t: []*Term{r, off, nl, cp}})
	})
}

// copyArr: A with [at, at+n) replaced by B[from, from+n).
func (x *Exec) copyArr(st *State, A, at, B, from, n *Term) *Term {
	N := x.Fresh("arr", A.sort)
	j := x.BV("j", SInt)
	in := x.And(x.Le(at, j), x.Lt(j, x.Add(at, n)))
	x.assume(st, x.Forall([]*Term{j}, x.Eq(x.Select(N, j), x.Ite(in, x.Select(B, x.Add(x.Sub(j, at), from)), x.Select(A, j))), []*Term{x.Select(N, j)}))
	inB := x.And(x.Le(from, j), x.Lt(j, x.Add(from, n)))
	x.assume(st, x.Forall([]*Term{j}, x.Implies(inB, x.Eq(x.Select(N, x.Add(x.Sub(j, from), at)), x.Select(B, j))), []*Term{x.Select(B, j)}))
	return N
}

func (x *Exec) copyOp(fr *Frame, st *State, cc *ssa.CallCommon, args []Val, k kont) {
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if _, isStr := cc.Args[1].Type().Underlying().(*types.Basic); isStr {
		unsup("copy from a string")
	}
	d, s := args[0], args[1]
	n := x.Ite(x.Le(d.t[2], s.t[2]), d.t[2], s.t[2])
	nn := x.Fresh("copied", SInt)
	x.assume(st, x.Eq(nn, n))
	for i := range x.ti.Leaves(et) {
		cn, cs := x.ti.elemComp(et, i)
		E := x.read(st, cn, cs)
		N := x.copyArr(st, x.Select(E, d.t[0]), d.t[1], x.Select(E, s.t[0]), s.t[1], nn)
		x.write(st, cn, x.Store(E, d.t[0], N))
	}
	k(st, Val{t: []*Term{nn}})
}

// evalClosure runs a closure for its value only (used by models of higher-order library functions).
// It yields the path-guarded value of the single boolean result.
func (x *Exec) evalBool(fr *Frame, st *State, fv Val, ft types.Type, arg *Term, guard *Term, want bool) *Term {
	s2 := st.clone()
	x.assume(s2, guard)
	if s2.dead {
		return x.True()
	}
	base := len(s2.pc)
	var alts []*Term
	x.quiet++
	save := x.tgt.noPanicExplore
	x.tgt.noPanicExplore = true
	x.callValue(fr.clone(), s2, fv, ft, []Val{{t: []*Term{arg}}}, "callback", func(s3 *State, v Val) {
		r := v.one()
		if !want {
			r = x.Not(r)
		}
		alts = append(alts, x.And(append(append([]*Term(nil), s3.pc[base:]...), r)...))
	})
	x.tgt.noPanicExplore = save
	x.quiet--
	return x.Or(alts...)
}

func (x *Exec) aspect() string {
	if x.tgt == nil {
		return ""
	}
	return x.tgt.con.aspect
}

// uncurried: the contract of the function returned, over all parameters.
func (c *Contract) uncurried() *Contract {
	n := *c
	n.params = append(append([]string(nil), c.params...), c.curry[0]...)
	n.curry = nil
	n.clauses = nil
	for _, cl := range c.clauses {
		switch cl.kind {
		case "requires2":
			d := *cl
			d.kind = "requires"
			cl = &d
		case "let2":
			d := *cl
			d.kind = "let"
			cl = &d
		}
		n.clauses = append(n.clauses, cl)
	}
	return &n
}

// onlyCloses: f does nothing but build the closure it returns.
func onlyCloses(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch i := in.(type) {
		case *ssa.Alloc, *ssa.MakeClosure, *ssa.ChangeType, *ssa.Return, *ssa.DebugRef:
		case *ssa.Store:
			if _, ok := i.Addr.(*ssa.Alloc); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}
