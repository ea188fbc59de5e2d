package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Target is one function verified against one contract.
type Target struct {
	con            *Contract
	fn             *ssa.Function
	recv           *Val
	recvTerm       *Term
	noPanicExplore bool
	vars           map[string]SV
	refine         []*Contract // interface contracts the function must also satisfy
	refVars        []map[string]SV
	x              *Exec
}

func (t *Target) candMs() int { return 1500 * timeScale }

func (t *Target) panicsMatter() bool {
	if t.noPanicExplore {
		return false
	}
	if t.con.has("panics_when") || t.con.has("on_panic") {
		return true
	}
	for _, r := range t.refine {
		if r.has("panics_when") || r.has("on_panic") {
			return true
		}
	}
	return false
}

// env: specification environment over the target's parameters.
func (t *Target) env(x *Exec, st *State) *SEnv {
	e := &SEnv{x: x, st: st, old: x.entry, vars: map[string]SV{}, pkg: x.w.pkgOf(t.con.pkg), con: t.con, recs: x.rootRecs}
	for k, v := range t.vars {
		e.vars[k] = v
	}
	return e
}

type Result struct {
	id          string
	con         *Contract
	vcs         []*VC
	err         string
	trusted     []string
	inlined     []string
	called      []string
	normal      int
	panics      int
	loops       int
	paths       int
	steps       int
	dur         time.Duration
	solver      time.Duration
	calls       int64
	failed      []*VC
	backends    map[string]int
	unusedHints []string
}

func newExec(w *World, pool *Pool) *Exec {
	x := &Exec{Ctx: NewCtx(), w: w, ti: NewTypeInfo(repoModule), pool: pool, comps: map[string]Sort{}, closures: map[*Term]*Closure{}, feasMemo: map[string]string{}, trusted: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, ghosts: map[string]Sort{}, hintUsed: map[string]int{}, rootRecs: map[string]*recDef{}, dead: map[string]bool{}, globRecs: map[string]*recDef{}}
	x.strAxioms()
	x.libAxioms()
	x.implFacts = x.implAxioms
	return x
}

// implAxioms: for every interface test used, which known types satisfy it.
func (x *Exec) implAxioms(syms map[string]bool) []string {
	var out []string
	for _, s := range sortedKeys(syms) {
		if !strings.HasPrefix(s, "impl:") {
			continue
		}
		it := x.ifaceByKey[s[5:]]
		if it == nil {
			continue
		}
		for _, k := range sortedKeys(x.ti.tags) {
			n := x.ti.tags[k]
			t := x.ti.tagT[n]
			v := "false"
			if types.Implements(t, it) {
				v = "true"
			}
			out = append(out, fmt.Sprintf("(assert (= (%s %d) %s))", sym(s), n, v))
		}
	}
	return out
}

func (w *World) verify(con *Contract, pool *Pool, limit time.Duration, verbose bool) (res *Result) {
	res = &Result{id: con.id, con: con, backends: map[string]int{}}
	t0 := time.Now()
	x := newExec(w, pool)
	x.verbose = verbose
	x.t0 = time.Now()
	x.deadline = time.Now().Add(limit)
	defer func() {
		res.dur = time.Since(t0)
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.err = "outside the verified subset: " + e.msg
			case specErr:
				res.err = "contract does not fit the code: " + e.msg
			default:
				res.err = fmt.Sprintf("internal: %v", r)
				if verbose || os.Getenv("GVDEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", con.id, r, debug.Stack())
				}
			}
		}
	}()
	if e, bad := w.errs[con.id]; bad {
		res.err = "the function under contract is missing: " + e
		return
	}
	fn, err := w.findFunc(con)
	if err != nil {
		res.err = err.Error()
		return
	}
	x.execTarget(fn, con, res)
	res.vcs = x.vcs
	res.trusted = sortedKeys(x.trusted)
	res.inlined = sortedKeys(x.inlined)
	res.called = sortedKeys(x.called)
	res.normal, res.panics, res.loops, res.paths, res.steps = x.normalRet, x.panRet, x.loopsN, x.paths, x.steps
	for _, cl := range con.get("hint") {
		if x.hintUsed[cl.text] == 0 {
			res.unusedHints = append(res.unusedHints, cl.name())
		}
	}
	x.discharge(res)
	return
}

func (x *Exec) execTarget(fn *ssa.Function, con *Contract, res *Result) {
	st := &State{facts: map[*Term]bool{}, heap: map[string]*Term{}, epochs: []epoch{{id: 0}}}
	x.newWm(st)
	tgt := &Target{con: con, fn: fn, vars: map[string]SV{}, x: x}
	x.tgt = tgt
	var args []Val
	if len(con.params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s:%d: contract of %s has %d parameters, the function %d", con.file, con.line, con.name, len(con.params), len(fn.Params))})
	}
	for i, p := range fn.Params {
		v := x.freshVal(st, "p."+con.params[i], p.Type())
		args = append(args, v)
		if con.params[i] != "_" {
			tgt.vars[con.params[i]] = SV{v: v, typ: p.Type()}
		}
	}
	if fn.Signature.Recv() != nil {
		tgt.recv = &args[0]
		if _, isPtr := fn.Params[0].Type().Underlying().(*types.Pointer); isPtr {
			x.assume(st, x.Neq(args[0].one(), x.Int(0)))
		}
		rt := x.makeIface(st, fn.Params[0].Type(), args[0])
		tgt.recvTerm = rt
	}
	// free function values: opaque closures
	st.clone()
	x.entry = st.clone()
	// interface contracts to refine
	for _, cl := range con.get("implements") {
		ic := pickContract(x.w.ifCon, strings.TrimSpace(cl.text), con.aspect)
		if ic == nil {
			panic(specErr{"unknown interface contract " + cl.text})
		}
		vs := map[string]SV{}
		for i, p := range ic.params {
			if p == "_" {
				continue
			}
			if i == 0 && tgt.recvTerm != nil {
				it := x.w.sigOf(ic).ptypes[0]
				vs[p] = SV{v: Val{t: []*Term{tgt.recvTerm}}, typ: it}
				continue
			}
			if i < len(args) {
				vs[p] = SV{v: args[i], typ: fn.Params[i].Type()}
			}
		}
		tgt.refine = append(tgt.refine, ic)
		tgt.refVars = append(tgt.refVars, vs)
	}
	env := tgt.env(x, st)
	env.old = st
	for _, cl := range con.get("let") {
		env.vars[cl.label] = env.eval(cl.ex)
		tgt.vars[cl.label] = env.vars[cl.label]
	}
	st0 := st.clone()
	for _, cl := range con.get("requires") {
		x.assume(st, env.formula(cl.ex))
	}
	// the precondition of an implemented interface contract implies the function's own
	for i, ic := range tgt.refine {
		s2 := st0
		re := tgt.refEnv(i, s2, s2)
		s2 = s2.clone()
		re.st, re.old = s2, s2
		for _, cl := range ic.get("requires") {
			x.assume(s2, re.formula(cl.ex))
		}
		e2 := tgt.env(x, s2)
		e2.old = s2
		for _, cl := range con.get("requires") {
			x.proveC(s2, e2.formula(cl.ex), "implements "+ic.name+": requires "+cl.name(), cl)
		}
	}
	for _, cl := range con.get("assume") {
		if cl.label == "entry" {
			x.trusted[fmt.Sprintf("assumed at entry of %s: %s", con.name, cl.text)] = true
			x.assume(st, env.formula(cl.ex))
		}
	}
	x.entry = st.clone()
	if st.dead || x.query(st.pc, 3000*timeScale) == "unsat" {
		x.vcs = append(x.vcs, &VC{name: "vacuity: the precondition is satisfiable", goal: x.False(), asserts: nil})
		return
	}
	var ret func(st *State, vs []Val)
	pan := func(st *State, msg string) {
		if st.dead {
			return
		}
		x.panRet++
		e := tgt.env(x, st)
		pw := con.get("panics_when")
		st.trace = append(st.trace, msg)
		if len(pw) > 0 {
			var cs []*Term
			n := e.oldEnv()
			for _, cl := range pw {
				cs = append(cs, n.formula(cl.ex))
			}
			x.prove(st, x.Or(cs...), "panics only when specified ("+stripPos(msg)+")")
		}
		for i, ic := range tgt.refine {
			if pw := ic.get("panics_when"); len(pw) > 0 {
				s2 := st.clone()
				pre := tgt.refEnv(i, x.entry, x.entry)
				for _, cl := range ic.get("requires") {
					x.assume(s2, pre.formula(cl.ex))
				}
				var cs []*Term
				for _, cl := range pw {
					cs = append(cs, pre.formula(cl.ex))
				}
				x.prove(s2, x.Or(cs...), "implements "+ic.name+": panics only when specified ("+stripPos(msg)+")")
			}
		}
		for _, cl := range con.get("on_panic") {
			x.proveC(st, e.formula(cl.ex), "on panic: "+cl.name(), cl)
		}
	}
	final := func(st *State, vs []Val, rts []types.Type) {
		if st.dead {
			return
		}
		x.normalRet++
		e := tgt.env(x, st)
		for i, r := range con.results {
			if i < len(vs) && r != "_" {
				if vs[i].addr != nil {
					unsup("interior pointer returned by %s", fn)
				}
				e.vars[r] = SV{v: vs[i], typ: rts[i]}
			}
		}
		for _, cl := range con.get("panics_when") {
			x.proveC(st, x.Not(e.oldEnv().formula(cl.ex)), "panics when specified: "+cl.name(), cl)
		}
		for _, cl := range con.get("lemma") {
			f := e.formula(cl.ex)
			x.proveC(st, f, "lemma: "+cl.name(), cl)
			x.assume(st, f)
		}
		if con.ufname != "" {
			return // the result function is defined by the code (see assumptions)
		}
		for _, cl := range con.get("ensures") {
			x.proveC(st, e.formula(cl.ex), "ensures "+cl.name(), cl)
		}
		for _, cl := range con.get("proves") { // not told to the callers
			x.proveC(st, e.formula(cl.ex), "ensures "+cl.name(), cl)
		}
		for i, ic := range tgt.refine {
			st := st.clone()
			pre := tgt.refEnv(i, x.entry, x.entry)
			for _, cl := range ic.get("requires") {
				x.assume(st, pre.formula(cl.ex))
			}
			re := tgt.refEnv(i, st, x.entry)
			for j, r := range ic.results {
				if j < len(vs) {
					re.vars[r] = SV{v: vs[j], typ: rts[j]}
				}
			}
			for _, cl := range ic.get("panics_when") {
				x.prove(st, x.Not(pre.formula(cl.ex)), "implements "+ic.name+": panics when specified")
			}
			for _, cl := range ic.get("ensures") {
				x.prove(st, re.formula(cl.ex), "implements "+ic.name+": "+cl.name())
			}
			x.checkFrame(st, re, ic)
		}
		x.checkFrame(st, e, con)
	}
	rtypes := func(sig *types.Signature) []types.Type {
		var ts []types.Type
		for i := 0; i < sig.Results().Len(); i++ {
			ts = append(ts, sig.Results().At(i).Type())
		}
		return ts
	}
	ret = func(st *State, vs []Val) { final(st, vs, rtypes(fn.Signature)) }
	if len(con.curry) > 0 {
		// the contract describes the function returned
		ret = func(st *State, vs []Val) {
			if st.dead {
				return
			}
			rt := fn.Signature.Results().At(0).Type()
			sig := rt.Underlying().(*types.Signature)
			var cargs []Val
			for i, p := range con.curry[0] {
				v := x.freshVal(st, "p."+p, sig.Params().At(i).Type())
				cargs = append(cargs, v)
				tgt.vars[p] = SV{v: v, typ: sig.Params().At(i).Type()}
			}
			e := tgt.env(x, st)
			e.old = st
			for _, cl := range con.get("let2") {
				tgt.vars[cl.label] = e.eval(cl.ex)
				e.vars[cl.label] = tgt.vars[cl.label]
			}
			for _, cl := range con.get("requires2") {
				x.assume(st, e.formula(cl.ex))
			}
			x.entry = st.clone()
			fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, ret: nil, pan: pan, stack: []string{}}
			x.callValue(fr, st, vs[0], rt, cargs, "closure", func(st *State, v Val) {
				var outs []Val
				lo := 0
				for i := 0; i < sig.Results().Len(); i++ {
					n := len(x.ti.Leaves(sig.Results().At(i).Type()))
					outs = append(outs, Val{t: v.t[lo : lo+n]})
					lo += n
				}
				final(st, outs, rtypes(sig))
			})
		}
	}
	x.enter(fn, args, nil, st, 0, nil, nil, ret, pan)
	if x.normalRet == 0 && !con.has("neverreturns") {
		x.vcs = append(x.vcs, &VC{name: "vacuity: some path returns", goal: x.False()})
	}
	for _, cl := range con.get("each") {
		if x.hintUsed[cl.text] == 0 {
			x.vcs = append(x.vcs, &VC{name: "vacuity: " + cl.label + " is called", goal: x.False(), props: cl.props})
		}
	}
	for _, id := range sortedKeys(x.sane) {
		if x.sane[id] > 0 {
			x.vcs = append(x.vcs, &VC{name: "vacuity: the promises of " + id + " can be kept", goal: x.False()})
		}
	}
}

func (t *Target) refEnv(i int, st, old *State) *SEnv {
	ic := t.refine[i]
	e := &SEnv{x: t.x, st: st, old: old, vars: map[string]SV{}, pkg: t.x.w.pkgOf(ic.pkg), con: ic}
	for k, v := range t.refVars[i] {
		e.vars[k] = v
	}
	for _, cl := range ic.get("let") {
		o := *e
		o.st, o.old = old, old
		e.vars[cl.label] = o.eval(cl.ex)
	}
	return e
}

func stripPos(s string) string {
	if i := strings.LastIndex(s, " at "); i > 0 {
		return s[:i]
	}
	return s
}

func (x *Exec) proveC(st *State, g *Term, name string, cl *Clause) {
	n := len(x.vcs)
	x.prove(st, g, name)
	for _, v := range x.vcs[n:] {
		v.props = cl.props
	}
}

// checkFrame: everything outside the modifies clause is unchanged (for objects existing at entry).
func (x *Exec) checkFrame(st *State, e *SEnv, con *Contract) {
	mods := x.modItems(con, "modifies")
	keep := x.modItems(con, "preserves")
	for _, m := range x.modItems(con, "unframed") {
		x.trusted["effects of "+con.name+" on "+m.text+" are not framed"] = true
		mods = append(mods, m)
	}
	all := false
	for _, m := range mods {
		all = all || m.all
	}
	for _, k := range keep {
		if !k.all && k.ghost == "" && !strings.HasPrefix(k.text, "ghost") && !strings.HasPrefix(k.text, "global") && k.text != "builders" && k.text != "iterators" {
			x.compsMatching(con, k)
		}
	}
	setGhost := map[string]bool{}
	for _, cl := range con.get("set") {
		n, _, _ := strings.Cut(cl.text, "=")
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		setGhost[strings.TrimSpace(n)] = true
	}
	if !all {
		for _, ep := range st.epochs[len(x.entry.epochs):] {
			bad := false
			for c := range x.comps {
				if ep.keeps == nil || !ep.keeps(c) {
					ok := false
					for _, m := range mods {
						if m.at == nil && m.match(c) {
							ok = true
						}
					}
					if !ok && !localComp(c) {
						bad = true
					}
				}
			}
			_ = bad // the per-component comparison below decides
		}
	}
	for _, c := range sortedKeys(x.comps) {
		if localComp(c) {
			continue
		}
		srt := x.comps[c]
		allowed := false
		var ats []*Term
		for _, m := range mods {
			if m.all && !strings.HasPrefix(c, "G:") {
				ok := true
				for _, k := range keep {
					if k.match(c) {
						ok = false
					}
				}
				allowed = allowed || ok
				continue
			}
			if m.match == nil || !m.match(c) || m.all {
				continue
			}
			if m.at == nil {
				allowed = true
			} else {
				ats = append(ats, e.oldEnv().eval(m.at).v.t[0])
			}
		}
		if strings.HasPrefix(c, "G:") {
			g := c[2:]
			if i := strings.IndexAny(g, "#."); i > 0 {
				g = g[:i]
			}
			if setGhost[g] || con.has("set") || con.has("ghostwrites") {
				continue
			}
		}
		if allowed {
			continue
		}
		a0, a1 := x.read(x.entry, c, srt), x.read(st, c, srt)
		if a0 == a1 {
			continue
		}
		if _, _, isArr := arrParts(srt); !isArr {
			x.prove(st, x.Eq(a0, a1), "frame: "+c+" is unchanged")
			continue
		}
		b := x.BV("r", SInt)
		g := []*Term{x.Lt(x.Int(0), b), x.Le(b, x.entry.wm)} // nothing is stored at nil
		if strings.HasPrefix(c, "G:") {
			g = nil
		}
		for _, r := range ats {
			g = append(g, x.Neq(b, r))
		}
		x.prove(st, x.Forall([]*Term{b}, x.Implies(x.And(g...), x.Eq(x.Select(a0, b), x.Select(a1, b)))), "frame: "+c+" is unchanged")
	}
}

// ---------------------------------------------------------------- discharge

func (x *Exec) discharge(res *Result) {
	// identical obligations once
	type job struct {
		vc     *VC
		script string
	}
	seen := map[string]*VC{}
	var jobs []job
	for _, v := range x.vcs {
		if isTrue(v.goal) {
			v.res, v.by = "unsat", "syntactic"
			continue
		}
		if len(v.asserts) == 0 && isFalse(v.goal) {
			v.res, v.by = "sat", "syntactic"
			continue
		}
		inPc := false
		for _, a := range v.asserts {
			if a == v.goal {
				inPc = true
				break
			}
		}
		if inPc {
			v.res, v.by = "unsat", "syntactic"
			continue
		}
		var kb strings.Builder
		for _, a := range v.asserts {
			fmt.Fprintf(&kb, "%d,", a.id)
		}
		fmt.Fprintf(&kb, "|%d", v.goal.id)
		if o, ok := seen[kb.String()]; ok {
			v.same = o
			continue
		}
		seen[kb.String()] = v
		as := append(append([]*Term(nil), v.asserts...), x.negGoal(v.goal))
		jobs = append(jobs, job{v, x.script(as)})
	}
	if os.Getenv("GVTIME") != "" {
		fmt.Fprintf(os.Stderr, "symbolic execution done %v, %d jobs\n", time.Since(x.t0), len(jobs))
	}
	// obligations at the same point, several at a time; what is not settled so is tried alone
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	groups := map[string][]int{}
	var order []string
	for i, j := range jobs {
		var kb strings.Builder
		for _, a := range j.vc.asserts {
			fmt.Fprintf(&kb, "%d,", a.id)
		}
		if groups[kb.String()] == nil {
			order = append(order, kb.String())
		}
		groups[kb.String()] = append(groups[kb.String()], i)
	}
	for _, k := range order {
		g := groups[k]
		for len(g) > 1 {
			n := min(len(g), 12)
			part := g[:n]
			g = g[n:]
			var gs []*Term
			for _, i := range part {
				gs = append(gs, jobs[i].vc.goal)
			}
			sc := x.script(append(append([]*Term(nil), jobs[part[0]].vc.asserts...), x.negGoal(x.And(gs...))))
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				if x.pool.Check(sc, 2500*timeScale) == "unsat" {
					for _, i := range part {
						jobs[i].vc.res, jobs[i].vc.by = "unsat", "z3"
					}
				}
			}()
		}
	}
	wg.Wait()
	if os.Getenv("GVTIME") != "" {
		fmt.Fprintf(os.Stderr, "symbolic execution + groups done %v, %d groups\n", time.Since(x.t0), len(groups))
	}
	var hard int32
	for _, j := range jobs {
		if j.vc.res == "unsat" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			t := time.Now()
			r := x.pool.Check(j.script, 1200*timeScale)
			j.vc.res, j.vc.by = r, "z3"
			if r != "unsat" {
				if x.pool.Cvc5(j.script, 4000*timeScale) == "unsat" {
					r, j.vc.res, j.vc.by = "unsat", "unsat", "cvc5"
				} else if r = x.pool.Check(j.script, 4000*timeScale); r == "unsat" {
					j.vc.res = r
				}
				for mode := 1; mode <= 2 && r != "unsat"; mode++ {
					if r = x.pool.CheckOpt(j.script, 3000*timeScale, mode); r == "unsat" {
						j.vc.res = r
					}
				}
			}
			// a target with several undecided obligations is not worth the portfolio for each
			if r != "unsat" && atomic.AddInt32(&hard, 1) <= 6 && time.Now().Before(x.deadline) {
				r, by, _ := Portfolio(j.script, portfolioSec, nil)
				if r == "unsat" {
					j.vc.res, j.vc.by = r, by
				} else if r == "sat" {
					j.vc.res, j.vc.by = r, by
				}
			}
			if j.vc.res != "unsat" {
				j.vc.script = j.script
			}
			j.vc.ms = time.Since(t).Milliseconds()
			if j.vc.ms > 1500 && os.Getenv("GVTIME") != "" {
				fmt.Fprintf(os.Stderr, "slow %d ms %s %s %s\n", j.vc.ms, j.vc.name, j.vc.res, j.vc.by)
			}
		}(j)
	}
	wg.Wait()
	for _, v := range x.vcs {
		if v.same != nil {
			v.res, v.by, v.script = v.same.res, v.same.by, v.same.script
		}
		res.backends[v.by]++
		if v.res != "unsat" {
			res.failed = append(res.failed, v)
		}
	}
	sort.SliceStable(res.failed, func(i, j int) bool { return res.failed[i].name < res.failed[j].name })
}

var portfolioSec = 20

// negGoal: the negated goal, skolemised.
func (x *Exec) negGoal(g *Term) *Term {
	switch g.op {
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range g.binds {
			m[b] = x.Fresh("sk."+strings.SplitN(b.name, "?", 2)[0], b.sort)
		}
		return x.negGoal(x.Subst(g.args[0], m))
	case "=>":
		return x.And(g.args[0], x.negGoal(g.args[1]))
	case "or":
		var cs []*Term
		for _, a := range g.args {
			cs = append(cs, x.negGoal(a))
		}
		return x.And(cs...)
	case "and":
		var cs []*Term
		for _, a := range g.args {
			cs = append(cs, x.negGoal(a))
		}
		return x.Or(cs...)
	}
	return x.Not(g)
}
