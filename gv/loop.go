package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops are cut at their header. The values and heap parts a loop can change are found by running the
// body; everything found to change is replaced by fresh unknowns and constrained only by invariants that
// are proved to hold on entry and to be preserved by the body (Houdini: guess, then drop what fails).

type leafKey struct {
	phi  *ssa.Phi
	leaf int
}

type loopInfo struct {
	leaf            map[leafKey]bool
	whole           map[string]bool    // component written at places unknown before the loop
	refs            map[string][]*Term // component written only at these (known before the loop) places
	epochs          []func(string) bool
	cmps            map[[2]*Term]bool
	extra, extra0   int
	lastVars        map[string]*Term // header constants of the last discovery pass
	snap, snapEpoch int
}

func (li *loopInfo) size() int {
	n := len(li.leaf) + 2*len(li.whole) + 3*len(li.epochs)
	for _, r := range li.refs {
		n += len(r)
	}
	return n
}

func (x *Exec) phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (x *Exec) edgeVals(fr *Frame, b, pred *ssa.BasicBlock, st *State) []Val {
	var vs []Val
	k := predIndex(b, pred)
	for _, p := range x.phisOf(b) {
		v := x.val(fr, st, p.Edges[k])
		if v.addr != nil {
			unsup("interior pointer merged at a loop header in %s", fr.fn)
		}
		vs = append(vs, v)
	}
	return vs
}

// stable: the term denotes a value fixed before snapshot snap.
func (x *Exec) stable(t *Term, snap int, snapEpoch int, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := true
	if t.op == "const" {
		if i := strings.LastIndexByte(t.name, '@'); i >= 0 && !strings.HasPrefix(t.name, "lit:") {
			var n int
			if _, err := fmt.Sscanf(t.name[i+1:], "%d", &n); err == nil {
				r = n <= snapEpoch
			}
		} else if strings.Contains(t.name, "!") {
			r = t.id <= snap
		}
	}
	for _, a := range t.args {
		r = r && x.stable(a, snap, snapEpoch, memo)
	}
	memo[t] = r
	return r
}

type header struct {
	fr    *Frame
	st    *State
	vals  []Val // header values of the phis
	inits []Val // values on entry
	st0   *State
	phis  []*ssa.Phi
	lp    *Loop
	info  *loopInfo
}

// makeHeader builds the state at the loop header for the modified parts in info.
func (x *Exec) makeHeader(fr *Frame, st0 *State, lp *Loop, inits []Val, info *loopInfo) *header {
	h := &header{fr: fr.clone(), st: st0.clone(), inits: inits, st0: st0, phis: x.phisOf(lp.header), lp: lp, info: info}
	st := h.st
	x.newWm(st)
	for _, k := range info.epochs {
		x.havoc(st, k)
	}
	if len(info.whole) > 0 {
		ks := x.saveKept(st, func(c string) bool { return !info.whole[c] })
		for _, c := range sortedKeys(info.whole) {
			x.havocComp(st, c, x.comps[c])
		}
		x.restoreKept(st, ks)
	}
	for _, c := range sortedKeys(info.refs) {
		if info.whole[c] || !keptBy(info.epochs, c) {
			continue
		}
		srt := x.comps[c]
		if info.refs[c] == nil { // scalar ghost
			x.nepoch++
			x.write(st, c, x.Const(fmt.Sprintf("%s@%d", c, x.nepoch), srt))
			continue
		}
		arr := x.read(st0, c, srt)
		_, vs, _ := arrParts(srt)
		for _, r := range info.refs[c] {
			arr = x.Store(arr, r, x.Fresh("loop."+c, vs))
		}
		x.write(st, c, arr)
	}
	for i, p := range h.phis {
		v := Val{t: append([]*Term(nil), inits[i].t...)}
		ls := x.ti.Leaves(p.Type())
		ch := false
		for j := range v.t {
			if info.leaf[leafKey{p, j}] {
				v.t[j] = x.Fresh("phi."+phiName(p)+ls[j].path, ls[j].sort)
				ch = true
			}
		}
		if ch {
			x.typeFacts(st, p.Type(), v)
		}
		h.vals = append(h.vals, v)
		h.fr.env[p] = v
	}
	// typing facts of single cells
	for _, c := range sortedKeys(info.refs) {
		if info.refs[c] == nil {
			continue
		}
		x.cellFacts(st, c, info.refs[c])
	}
	return h
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func keptBy(es []func(string) bool, c string) bool {
	for _, k := range es {
		if !k(c) {
			return false
		}
	}
	return true
}

// cellFacts: typing facts for cells O:T.path[ref] after a havoc.
func (x *Exec) cellFacts(st *State, comp string, refs []*Term) {
	ty, leaf, ok := x.compType(comp)
	if !ok {
		return
	}
	l := x.ti.Leaves(ty)[leaf]
	for _, r := range refs {
		v := x.Select(x.read(st, comp, x.comps[comp]), r)
		switch l.part {
		case "arr":
			x.refFact(st, v)
			// slice group
			var g Val
			for j := 0; j < 4; j++ {
				n, s := x.compName(comp, ty, leaf+j)
				g.t = append(g.t, x.Select(x.read(st, n, s), r))
			}
			x.assume(st, x.Le(x.Int(0), g.t[1]))
			x.assume(st, x.Le(x.Int(0), g.t[2]))
			x.assume(st, x.Le(g.t[2], g.t[3]))
			x.assume(st, x.Implies(x.Eq(g.t[0], x.Int(0)), x.Eq(g.t[3], x.Int(0))))
		case "":
			switch u := l.typ.Underlying().(type) {
			case *types.Pointer, *types.Map:
				x.refFact(st, v)
			case *types.Basic:
				if u.Kind() == types.Uint8 {
					x.rangeFact(st, v, 0, 255)
				}
			case *types.Interface:
				x.anyRefFact(st, v)
			}
		}
	}
}

// compType maps an object component back to its Go type and leaf.
func (x *Exec) compType(comp string) (types.Type, int, bool) {
	if !strings.HasPrefix(comp, "O:") {
		return nil, 0, false
	}
	key := comp[2:]
	for i := len(key); i > 0; i-- {
		if i < len(key) && key[i] != '.' && key[i] != '#' {
			continue
		}
		if t, ok := x.ti.byKeyType[key[:i]]; ok {
			for j, l := range x.ti.Leaves(t) {
				if l.path == key[i:] {
					return t, j, true
				}
			}
		}
	}
	return nil, 0, false
}

func (x *Exec) compName(comp string, ty types.Type, leaf int) (string, Sort) {
	return x.ti.objComp(ty, leaf)
}

// loopPass runs the body once from h and calls back at every back edge.
func (x *Exec) loopPass(h *header, houdini bool, onBack func(fr *Frame, vals []Val, st *State)) {
	nd := len(h.fr.defers)
	fr := h.fr.clone()
	fr.loops = append(fr.loops, &LoopCtx{fr: fr, header: h.lp.header, body: h.lp.body, houdini: houdini, onBack: func(fr *Frame, pred *ssa.BasicBlock, st *State) {
		if st.dead {
			return
		}
		if len(fr.defers) != nd {
			unsup("defer inside a loop in %s", fr.fn)
		}
		onBack(fr, x.edgeVals(fr, h.lp.header, pred, st), st)
	}})
	x.instrs(fr, h.lp.header, 0, h.st.clone())
}

// discover finds what the loop modifies.
func (x *Exec) discover(fr *Frame, st0 *State, lp *Loop, inits []Val) *loopInfo {
	info := &loopInfo{leaf: map[leafKey]bool{}, whole: map[string]bool{}, refs: map[string][]*Term{}, cmps: map[[2]*Term]bool{}}
	snap, snapEpoch := x.n, x.nepoch
	info.snap, info.snapEpoch = snap, snapEpoch
	x.quiet++
	x.discovering++
	defer func() { x.quiet--; x.discovering-- }()
	for round := 0; ; round++ {
		if round > 40 {
			unsup("loop analysis does not converge in %s", fr.fn)
		}
		before := info.size()
		h := x.makeHeader(fr, st0, lp, inits, info)
		nEp := len(h.st.epochs)
		info.cmps = map[[2]*Term]bool{}
		saveCmp := x.cmpLog
		x.cmpLog = info.cmps
		memo := map[*Term]bool{}
		x.loopPass(h, true, func(_ *Frame, vals []Val, st *State) {
			for i, p := range h.phis {
				for j := range vals[i].t {
					if vals[i].t[j] != h.vals[i].t[j] {
						info.leaf[leafKey{p, j}] = true
					}
				}
				// slices change as a group except for what stays equal
			}
			for _, e := range st.epochs[nEp:] {
				k := e.keeps
				dup := false
				for _, o := range info.epochs {
					if sameKeeps(o, k, x.comps) {
						dup = true
					}
				}
				if !dup {
					info.epochs = append(info.epochs, k)
				}
			}
			names := map[string]bool{}
			for c := range st.heap {
				names[c] = true
			}
			for c := range h.st.heap {
				names[c] = true
			}
			for _, c := range sortedKeys(names) {
				srt := x.comps[c]
				a, b := x.read(h.st, c, srt), x.read(st, c, srt)
				if a == b {
					continue
				}
				if !keptBy(info.epochs, c) {
					continue
				}
				if _, _, isArr := arrParts(srt); !isArr {
					if _, ok := info.refs[c]; !ok {
						info.refs[c] = nil
						info.extra++
					}
					continue
				}
				var rs []*Term
				t := b
				ok := true
				for t != a {
					if t.op != "store" {
						ok = false
						break
					}
					rs = append(rs, t.args[1])
					t = t.args[0]
				}
				if !ok {
					info.whole[c] = true
					continue
				}
				for _, r := range rs {
					if x.isFreshIn(r, h.st) {
						info.whole[c] = true
						continue
					}
					if !x.stable(r, snap, snapEpoch, memo) {
						info.whole[c] = true
						continue
					}
					have := false
					for _, o := range info.refs[c] {
						have = have || o == r
					}
					if !have {
						info.refs[c] = append(info.refs[c], r)
					}
				}
			}
		})
		x.cmpLog = saveCmp
		if info.size()+info.extra == before+info.extra0 {
			info.lastVars = map[string]*Term{}
			vars, _ := x.loopVars(h)
			for _, v := range vars {
				info.lastVars[v.name] = v.get(h.vals, h.st)
			}
			if saveCmp != nil {
				for k := range info.cmps {
					saveCmp[k] = true
				}
			}
			return info
		}
		info.extra0 = info.extra
	}
}

// isFreshIn: r was allocated after the header state.
func (x *Exec) isFreshIn(r *Term, st *State) bool {
	base, k, ok := x.asWm(r)
	if !ok {
		return false
	}
	hb, hk, _ := x.asWm(st.wm)
	if base == hb {
		return k > hk
	}
	return base.id > hb.id
}

func sameKeeps(a, b func(string) bool, comps map[string]Sort) bool {
	for c := range comps {
		if a(c) != b(c) {
			return false
		}
	}
	return true
}

// cand is an invariant candidate: a formula over the header values and state.
type cand struct {
	name string
	f    func(vals []Val, st *State) *Term
	hint *Clause
	key  string
}

// alive leaves out the candidates known to fail here.
func (x *Exec) alive(cs []cand) []cand {
	var out []cand
	for _, c := range cs {
		if !x.dead[c.key] {
			out = append(out, c)
		}
	}
	return out
}

func (x *Exec) loop(fr *Frame, lp *Loop, pred *ssa.BasicBlock, st0 *State) {
	inits := x.edgeVals(fr, lp.header, pred, st0)
	lap := time.Now()
	tell := func(what string) {
		if x.discovering == 0 && os.Getenv("GVTIME") != "" {
			fmt.Fprintf(os.Stderr, "loop %s: %s %.1fs, %d paths\n", x.blockPos(lp.header), what, time.Since(lap).Seconds(), x.paths)
		}
		lap = time.Now()
	}
	info := x.discover(fr, st0, lp, inits)
	tell("discovered")
	if x.discovering > 0 {
		h := x.makeHeader(fr, st0, lp, inits, info)
		x.loopPass(h, false, func(*Frame, []Val, *State) {})
		return
	}
	h0 := x.makeHeader(fr, st0, lp, inits, info)
	cands := x.candidates(h0)
	// what failed in an earlier round of the enclosing loop, with more assumptions, fails again
	times := map[string]int{}
	for i := range cands {
		n := cands[i].name
		cands[i].key = fmt.Sprintf("%p|%s|%s#%d", lp.header, strings.Join(st0.trace, ";"), n, times[n])
		times[n]++
	}
	cands = x.alive(cands)
	// on entry
	before := cands
	cands = x.filter(cands, func(c cand) (*State, *Term) { return st0, x.candAt(c, inits, st0) })
	tell("entry filtered")
	kept := map[string]bool{}
	for _, c := range cands {
		kept[c.key] = true
	}
	for _, c := range before {
		if !kept[c.key] {
			x.dead[c.key] = true
		}
	}
	if x.verbose {
		for _, c := range before {
			if !kept[c.key] && (c.hint != nil && os.Getenv("GVHINT") != "" || os.Getenv("GVHINT") == "2") {
				fmt.Printf("  not on entry: %s\n", c.name)
			}
		}
	}
	// preserved
	for round := 0; ; round++ {
		if round > 60 {
			unsup("invariant inference does not converge in %s", fr.fn)
		}
		h := x.makeHeader(fr, st0, lp, inits, info)
		for _, c := range cands {
			x.assume(h.st, x.candAt(c, h.vals, h.st))
		}
		dropped := map[int]bool{}
		x.quiet++
		x.loopPass(h, true, func(_ *Frame, vals []Val, st *State) {
			var live []int
			var goals []*Term
			var hints []*Clause
			for i, c := range cands {
				if dropped[i] {
					continue
				}
				g := x.candAt(c, vals, st)
				if v, ok := x.known(st, g); ok && v {
					continue
				}
				live = append(live, i)
				goals = append(goals, g)
				if c.hint == nil && strings.HasSuffix(c.name, "older than the function entry") {
					hints = append(hints, frameHint)
				} else {
					hints = append(hints, c.hint)
				}
			}
			for j, bad := range x.failing(st, goals, hints) {
				if bad {
					dropped[live[j]] = true
					x.dead[cands[live[j]].key] = true
					if c := cands[live[j]]; x.verbose && (c.hint != nil && os.Getenv("GVHINT") != "" || os.Getenv("GVHINT") == "2") {
						fmt.Printf("  round %d not preserved: %s\n     %s\n", round, c.name, strings.Join(st.trace, " ; "))
						if d := os.Getenv("GVHINTDIR"); d != "" {
							as := append(append([]*Term(nil), st.pc...), x.negGoal(goals[j]))
							os.WriteFile(fmt.Sprintf(d+"/%d-%s.smt2", x.paths, strings.ReplaceAll(strings.ReplaceAll(c.name, " ", "_"), "/", "_")), []byte(x.script(as)+"(check-sat)\n"), 0o644)
						}
					}
				}
			}
		})
		x.quiet--
		tell(fmt.Sprintf("round %d, %d of %d dropped", round, len(dropped), len(cands)))
		if len(dropped) == 0 {
			break
		}
		var keep []cand
		for i, c := range cands {
			if !dropped[i] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	// final pass with obligations
	for _, c := range cands {
		x.prove(st0, x.candAt(c, inits, st0), "loop invariant holds on entry: "+c.name)
	}
	h := x.makeHeader(fr, st0, lp, inits, info)
	for _, c := range cands {
		x.assume(h.st, x.candAt(c, h.vals, h.st))
		if c.hint != nil {
			x.hintUsed[c.hint.text]++
		}
	}
	if x.verbose {
		fmt.Printf("  loop in %s at %s: %d invariants\n", fr.fn.Name(), x.blockPos(lp.header), len(cands))
		for _, c := range cands {
			fmt.Printf("      %s\n", c.name)
		}
		fmt.Printf("      variant: whole=%v refs=%v epochs=%d leaves=%d\n", sortedKeys(info.whole), sortedKeys(info.refs), len(info.epochs), len(info.leaf))
	}
	x.loopsN++
	meas := x.measures(h)
	type edge struct {
		vals []Val
		st   *State
	}
	var edges []edge
	x.loopPass(h, false, func(_ *Frame, vals []Val, st *State) {
		for _, c := range cands {
			x.prove(st, x.candAt(c, vals, st), "loop invariant is preserved: "+c.name)
		}
		if meas != nil {
			edges = append(edges, edge{append([]Val(nil), vals...), st.clone()})
		}
	})
	if meas == nil || x.quiet > 0 || len(edges) == 0 {
		return
	}
	// one measure must decrease on every way back to the header
	goal := func(m measure, e edge) *Term {
		return x.And(x.Le(x.Int(0), m.f(h.vals, h.st)), x.Lt(m.f(e.vals, e.st), m.f(h.vals, h.st)))
	}
	best, bestN := -1, -1
	for i, m := range meas {
		n := 0
		for _, e := range edges {
			if !x.entails(e.st, goal(m, e), 3000*timeScale) {
				break
			}
			n++
		}
		if n > bestN {
			best, bestN = i, n
		}
		if n == len(edges) {
			break
		}
	}
	if best < 0 {
		x.prove(edges[0].st, x.False(), "loop terminates: no measure")
		return
	}
	for _, e := range edges {
		x.prove(e.st, goal(meas[best], e), "loop measure decreases: "+meas[best].name)
	}
}

func (x *Exec) blockPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in)
		}
	}
	return fmt.Sprintf("block %d", b.Index)
}

type measure struct {
	name string
	f    func(vals []Val, st *State) *Term
}

func (x *Exec) candAt(c cand, vals []Val, st *State) (t *Term) {
	return c.f(vals, st)
}

// failing reports which goals are not entailed.
// frameHint marks the frame candidates that get a second attempt.
var frameHint = &Clause{kind: "frame"}

func (x *Exec) failing(st *State, goals []*Term, hints []*Clause) []bool {
	out := make([]bool, len(goals))
	defer func() {
		// hints get a second attempt
		t0 := time.Now()
		nh := 0
		passed := map[*Clause]bool{}
		for i := range goals {
			if !out[i] {
				passed[hints[i]] = true
			}
		}
		defer func() {
			if nh > 0 && os.Getenv("GVTIME") != "" {
				fmt.Printf("   retry of %d hints: %.1fs\n", nh, time.Since(t0).Seconds())
			}
		}()
		var wg sync.WaitGroup
		for i := range goals {
			if out[i] && hints[i] != nil {
				as := append(append([]*Term(nil), st.pc...), x.negGoal(goals[i]))
				sc := x.script(as)
				nh++
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					if hints[i] == frameHint {
						out[i] = x.pool.Old(sc, 1500*timeScale) != "unsat"
						return
					}
					if passed[hints[i]] { // another instance of the hint holds
						out[i] = x.pool.Cvc5(sc, 500*timeScale) != "unsat"
						return
					}
					switch x.pool.CheckOpt(sc, x.tgt.candMs()/2, 2) {
					case "unsat":
						out[i] = false
					case "sat":
					default:
						out[i] = x.pool.Cvc5(sc, 2*x.tgt.candMs()) != "unsat" && x.pool.CheckOpt(sc, x.tgt.candMs(), 1) != "unsat"
					}
				}(i)
			}
		}
		wg.Wait()
	}()
	if len(goals) == 0 {
		return out
	}
	// chunks: try conjunctions first
	var rec func(idx []int)
	rec = func(idx []int) {
		if len(idx) == 0 {
			return
		}
		if len(idx) == 1 {
			out[idx[0]] = !x.entails(st, goals[idx[0]], x.tgt.candMs())
			return
		}
		var gs []*Term
		for _, i := range idx {
			gs = append(gs, goals[i])
		}
		if x.entails(st, x.And(gs...), x.tgt.candMs()/2) {
			return
		}
		x.failPar(st, goals, hints, idx, out)
	}
	var all []int
	for i := range goals {
		all = append(all, i)
	}
	rec(all)
	return out
}

func (x *Exec) failPar(st *State, goals []*Term, hints []*Clause, idx []int, out []bool) {
	type job struct {
		i      int
		script string
	}
	var jobs []job
	for _, i := range idx {
		if v, ok := x.known(st, goals[i]); ok && v {
			continue
		}
		as := append(append([]*Term(nil), st.pc...), x.Not(goals[i]))
		jobs = append(jobs, job{i, x.script(as)})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			ms := x.tgt.candMs()
			if hints[j.i] == nil {
				ms /= 3
			}
			out[j.i] = x.pool.Check(j.script, ms) != "unsat"
		}(j)
	}
	wg.Wait()
}

func (x *Exec) filter(cs []cand, at func(cand) (*State, *Term)) []cand {
	var goals []*Term
	var hints []*Clause
	var st *State
	for _, c := range cs {
		hints = append(hints, c.hint)
		s, g := at(c)
		st = s
		goals = append(goals, g)
	}
	if st == nil {
		return nil
	}
	bad := x.failing(st, goals, hints)
	var out []cand
	for i, c := range cs {
		if !bad[i] {
			out = append(out, c)
		}
	}
	return out
}

// ---------------------------------------------------------------- candidates

// lvar is a scalar observed at the loop header.
type lvar struct {
	name    string
	sort    Sort
	variant bool
	ref     bool // holds a reference
	get     func(vals []Val, st *State) *Term
}

// lval is a typed Go value observed at the loop header (for hints).
type lval struct {
	name string
	typ  types.Type
	get  func(vals []Val, st *State) Val
}

func (x *Exec) loopVars(h *header) (vars []lvar, vals []lval) {
	for i, p := range h.phis {
		i := i
		ls := x.ti.Leaves(p.Type())
		for j, l := range ls {
			j := j
			isRef := false
			switch l.typ.Underlying().(type) {
			case *types.Pointer, *types.Map:
				isRef = true
			}
			if l.part == "arr" {
				isRef = true
			}
			if !h.info.leaf[leafKey{p, j}] {
				continue
			}
			vars = append(vars, lvar{phiName(p) + l.path, l.sort, true, isRef, func(v []Val, st *State) *Term { return v[i].t[j] }})
		}
		vals = append(vals, lval{phiName(p), p.Type(), func(v []Val, st *State) Val { return v[i] }})
	}
	// single cells and ghosts
	for _, c := range sortedKeys(h.info.refs) {
		if h.info.whole[c] || !keptBy(h.info.epochs, c) {
			continue
		}
		c := c
		srt := x.comps[c]
		if h.info.refs[c] == nil {
			vars = append(vars, lvar{c, srt, true, false, func(_ []Val, st *State) *Term { return x.read(st, c, srt) }})
			continue
		}
		_, vs, _ := arrParts(srt)
		if _, _, nested := arrParts(vs); nested {
			continue
		}
		for _, r := range h.info.refs[c] {
			r := r
			isRef := strings.HasSuffix(c, "#arr")
			if ty, leaf, ok := x.compType(c); ok {
				switch x.ti.Leaves(ty)[leaf].typ.Underlying().(type) {
				case *types.Pointer, *types.Map:
					isRef = true
				}
			}
			vars = append(vars, lvar{c + "[" + x.short(r) + "]", vs, true, isRef, func(_ []Val, st *State) *Term { return x.Select(x.read(st, c, srt), r) }})
		}
	}
	// whole components: cells of local variables
	for _, a := range h.fr.alloc {
		v, ok := h.fr.env[a]
		if !ok || v.addr != nil {
			continue
		}
		et := a.Type().Underlying().(*types.Pointer).Elem()
		if _, isArr := et.Underlying().(*types.Array); isArr {
			continue
		}
		ref := v.one()
		if isBuilder(et) {
			vals = append(vals, lval{a.Comment, types.Typ[types.String], func(_ []Val, st *State) Val {
				return Val{t: []*Term{x.Select(x.read(st, "SB:buf", ArrSort(SInt, SStr)), ref)}}
			}})
			continue
		}
		ls := x.ti.Leaves(et)
		vals = append(vals, lval{a.Comment, et, func(_ []Val, st *State) Val {
			var r Val
			for j := range ls {
				n, s := x.ti.objComp(et, j)
				r.t = append(r.t, x.Select(x.read(st, n, s), ref))
			}
			return r
		}})
		for j, l := range ls {
			n, s := x.ti.objComp(et, j)
			if h.info.whole[n] || !keptBy(h.info.epochs, n) {
				vars = append(vars, lvar{a.Comment + l.path, l.sort, true, l.part == "arr", func(_ []Val, st *State) *Term { return x.Select(x.read(st, n, s), ref) }})
			}
		}
	}
	// cells of the callers that the loop writes
	for _, a := range h.fr.cells {
		if _, isArr := a.typ.Underlying().(*types.Array); isArr || isBuilder(a.typ) {
			continue
		}
		ls := x.ti.Leaves(a.typ)
		touched := false
		for j := range ls {
			n, _ := x.ti.objComp(a.typ, j)
			touched = touched || h.info.whole[n] || len(h.info.refs[n]) > 0 || !keptBy(h.info.epochs, n)
		}
		if !touched {
			continue
		}
		vals = append(vals, lval{a.name, a.typ, func(_ []Val, st *State) Val {
			var r Val
			for j := range ls {
				n, s := x.ti.objComp(a.typ, j)
				r.t = append(r.t, x.Select(x.read(st, n, s), a.ref))
			}
			return r
		}})
	}
	// positions of string iterators
	for _, b := range h.fr.fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Range)
			if !ok {
				continue
			}
			v, ok := h.fr.env[r]
			if !ok {
				continue
			}
			if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
				vals = append(vals, lval{"range", tIter, func(_ []Val, st *State) Val { return Val{t: []*Term{v.t[0]}} }})
			}
			if _, isStr := r.X.Type().Underlying().(*types.Basic); !isStr {
				continue
			}
			if h.info.whole["IT:pos"] || len(h.info.refs["IT:pos"]) > 0 || !keptBy(h.info.epochs, "IT:pos") {
				vars = append(vars, lvar{"range position", SInt, true, false, func(_ []Val, st *State) *Term {
					return x.Select(x.read(st, "IT:pos", ArrSort(SInt, SInt)), v.t[0])
				}})
			}
			vals = append(vals, lval{"range position", types.Typ[types.Int], func(_ []Val, st *State) Val {
				return Val{t: []*Term{x.Select(x.read(st, "IT:pos", ArrSort(SInt, SInt)), v.t[0])}}
			}})
		}
	}
	// free variables of closures hold cells
	for i, b := range h.fr.fn.FreeVars {
		if i >= len(h.fr.binds) {
			break
		}
		bv := h.fr.binds[i]
		pt, ok := b.Type().Underlying().(*types.Pointer)
		if !ok || bv.addr != nil {
			continue
		}
		et := pt.Elem()
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			continue
		}
		ref := bv.one()
		ls := x.ti.Leaves(et)
		vals = append(vals, lval{b.Name(), et, func(_ []Val, st *State) Val {
			var r Val
			for j := range ls {
				n, s := x.ti.objComp(et, j)
				r.t = append(r.t, x.Select(x.read(st, n, s), ref))
			}
			return r
		}})
	}
	// objects and maps computed before the loop and used in it
	done := map[ssa.Value]bool{}
	for _, b := range h.fr.fn.Blocks {
		if !h.lp.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil || done[*op] {
					continue
				}
				done[*op] = true
				switch d := (*op).(type) {
				case *ssa.Parameter:
				case ssa.Instruction:
					if h.lp.body[d.Block()] {
						continue
					}
				default:
					continue
				}
				if _, isCell := (*op).(*ssa.Alloc); isCell {
					continue
				}
				switch (*op).Type().Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice:
				default:
					continue
				}
				v, ok := h.fr.env[*op]
				if !ok || v.addr != nil {
					continue
				}
				vals = append(vals, lval{(*op).Name(), (*op).Type(), func(_ []Val, st *State) Val { return v }})
			}
		}
	}
	return
}

func (x *Exec) short(t *Term) string {
	s := x.Str(t)
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func (x *Exec) candidates(h *header) []cand {
	var out []cand
	add := func(name string, f func(vals []Val, st *State) *Term) { out = append(out, cand{name: name, f: f}) }
	vars, vals := x.loopVars(h)
	var entryWm = h.st0.wm
	// candidates on scalars
	var ints []lvar
	for _, v := range vars {
		v := v
		i0 := v.get(h.inits, h.st0)
		switch v.sort {
		case SInt:
			if v.ref {
				add(v.name+" is as before or new", func(vs []Val, st *State) *Term {
					t := v.get(vs, st)
					return x.Or(x.Eq(t, i0), x.Lt(entryWm, t))
				})
				add(v.name+" is new", func(vs []Val, st *State) *Term { return x.Lt(entryWm, v.get(vs, st)) })
				add(v.name+" is newer than the function entry", func(vs []Val, st *State) *Term { return x.Lt(x.entry.wm, v.get(vs, st)) })
				add(v.name+" != nil", func(vs []Val, st *State) *Term { return x.Neq(v.get(vs, st), x.Int(0)) })
				continue
			}
			ints = append(ints, v)
			add(v.name+" >= initial", func(vs []Val, st *State) *Term { return x.Le(i0, v.get(vs, st)) })
			add(v.name+" <= initial", func(vs []Val, st *State) *Term { return x.Le(v.get(vs, st), i0) })
			add(v.name+" >= 0", func(vs []Val, st *State) *Term { return x.Le(x.Int(0), v.get(vs, st)) })
			add(v.name+" >= -1", func(vs []Val, st *State) *Term { return x.Le(x.Int(-1), v.get(vs, st)) })
		case SBool:
			add(v.name+" == initial", func(vs []Val, st *State) *Term { return x.Eq(v.get(vs, st), i0) })
		case SAny:
			add(v.name+" == initial", func(vs []Val, st *State) *Term { return x.Eq(v.get(vs, st), i0) })
			add(v.name+" == nil", func(vs []Val, st *State) *Term { return x.Is("anil", v.get(vs, st)) })
			add(v.name+" != nil", func(vs []Val, st *State) *Term { return x.Not(x.Is("anil", v.get(vs, st))) })
		case SStr:
			add(v.name+" longer than initial", func(vs []Val, st *State) *Term { return x.Le(x.SLen(i0), x.SLen(v.get(vs, st))) })
		}
	}
	if len(ints) <= 14 {
		for i, v := range ints {
			for _, w := range ints[i+1:] {
				v, w := v, w
				d := x.Sub(v.get(h.inits, h.st0), w.get(h.inits, h.st0))
				add(v.name+" - "+w.name+" constant", func(vs []Val, st *State) *Term {
					return x.Eq(x.Sub(v.get(vs, st), w.get(vs, st)), d)
				})
				add(v.name+" + "+w.name+" constant", func(vs []Val, st *State) *Term {
					return x.Eq(x.Add(v.get(vs, st), w.get(vs, st)), x.Add(v.get(h.inits, h.st0), w.get(h.inits, h.st0)))
				})
				add(v.name+" <= "+w.name, func(vs []Val, st *State) *Term { return x.Le(v.get(vs, st), w.get(vs, st)) })
				add(w.name+" <= "+v.name, func(vs []Val, st *State) *Term { return x.Le(w.get(vs, st), v.get(vs, st)) })
			}
		}
	}
	// comparisons made by the body, rewritten over the header values
	seen := map[string]bool{}
	for _, pr := range x.sortedCmps(h.info.cmps) {
		for k := 0; k < 2; k++ {
			a, b := pr[k], pr[1-k]
			fa, va := x.overHeader(h, a, vars)
			fb, vb := x.overHeader(h, b, vars)
			if fa == nil || fb == nil || (!va && !vb) {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				d := d
				nm := fmt.Sprintf("%s <= %s + %d", x.shortCmp(a), x.shortCmp(b), d)
				if seen[nm] {
					continue
				}
				seen[nm] = true
				add(nm, func(vs []Val, st *State) *Term { return x.Le(fa(vs, st), x.Add(fb(vs, st), x.Int(d))) })
			}
		}
	}
	// frames
	names := map[string]bool{}
	for c := range h.info.whole {
		names[c] = true
	}
	for c := range h.st0.heap {
		if !keptBy(h.info.epochs, c) {
			names[c] = true
		}
	}
	for _, c := range sortedKeys(names) {
		c := c
		srt := x.comps[c]
		if strings.HasPrefix(c, "G:") {
			if _, _, ok := arrParts(srt); !ok {
				continue
			}
			for _, v := range ints {
				if !strings.HasPrefix(v.name, "G:") {
					continue
				}
				i0 := v.get(h.inits, h.st0)
				a0 := x.read(h.st0, c, srt)
				add(c+" unchanged below the initial "+v.name, func(_ []Val, st *State) *Term {
					a := x.read(st, c, srt)
					if a == a0 {
						return x.True()
					}
					b := x.BV("k", SInt)
					return x.Forall([]*Term{b}, x.Implies(x.Lt(b, i0), x.Eq(x.Select(a, b), x.Select(a0, b))), []*Term{x.Select(a, b)})
				})
			}
			continue
		}
		if !strings.HasPrefix(c, "O:") && !strings.HasPrefix(c, "E:") && !strings.HasPrefix(c, "M:") && c != "SB:buf" && !strings.HasPrefix(c, "IT:") {
			continue
		}
		a0 := x.read(h.st0, c, srt)
		excl := map[*Term]bool{}
		for _, v := range vars {
			if v.ref {
				excl[v.get(h.inits, h.st0)] = true
			}
		}
		for _, r := range h.info.refs[c] {
			excl[r] = true
		}
		var ex []*Term
		for r := range excl {
			ex = append(ex, r)
		}
		sortTerms(ex)
		mk := func(ex []*Term) func([]Val, *State) *Term {
			return func(_ []Val, st *State) *Term {
				a := x.read(st, c, srt)
				if a == a0 {
					return x.True()
				}
				b := x.BV("r", SInt)
				g := []*Term{x.Le(b, entryWm)}
				if c[1] == ':' { // nothing is stored at nil
					g = append(g, x.Neq(b, x.Int(0)))
				}
				for _, r := range ex {
					g = append(g, x.Neq(b, r))
				}
				return x.Forall([]*Term{b}, x.Implies(x.And(g...), x.Eq(x.Select(a, b), x.Select(a0, b))), []*Term{x.Select(a, b)})
			}
		}
		add("frame "+c, mk(nil))
		if len(ex) > 0 {
			add("frame "+c+" except written places", mk(ex))
		}
		if c != "SB:buf" && !strings.HasPrefix(c, "IT:") {
			add("frame "+c+" for objects older than the function entry", func(_ []Val, st *State) *Term {
				a := x.read(st, c, srt)
				ae := x.read(x.entry, c, srt)
				if a == ae {
					return x.True()
				}
				b := x.BV("r", SInt)
				g := x.Le(b, x.entry.wm)
				if c[1] == ':' {
					g = x.And(g, x.Neq(b, x.Int(0)))
				}
				return x.Forall([]*Term{b}, x.Implies(g, x.Eq(x.Select(a, b), x.Select(ae, b))), []*Term{x.Select(a, b)})
			})
			if ats := x.modPlaces(c); len(ats) > 0 {
				add("frame "+c+" for objects older than the function entry, except the places the contract names", func(_ []Val, st *State) *Term {
					a := x.read(st, c, srt)
					ae := x.read(x.entry, c, srt)
					if a == ae {
						return x.True()
					}
					b := x.BV("r", SInt)
					g := []*Term{x.Le(b, x.entry.wm), x.Neq(b, x.Int(0))}
					for _, t := range ats {
						g = append(g, x.Neq(b, t))
					}
					return x.Forall([]*Term{b}, x.Implies(x.And(g...), x.Eq(x.Select(a, b), x.Select(ae, b))), []*Term{x.Select(a, b)})
				})
			}
		}
	}
	// hints
	out = append(out, x.hintCands(h, vals)...)
	return out
}

func (x *Exec) shortCmp(t *Term) string {
	s := x.Str(t)
	if len(s) > 90 {
		s = s[:90] + fmt.Sprintf("~%d", t.id)
	}
	return s
}

func (x *Exec) sortedCmps(m map[[2]*Term]bool) [][2]*Term {
	var ks [][2]*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i][0].id != ks[j][0].id {
			return ks[i][0].id < ks[j][0].id
		}
		return ks[i][1].id < ks[j][1].id
	})
	if len(ks) > 60 {
		ks = ks[:60]
	}
	return ks
}

// overHeader rewrites a term logged in the last discovery pass into a function of the header.
func (x *Exec) overHeader(h *header, t *Term, vars []lvar) (func([]Val, *State) *Term, bool) {
	// constants of the last discovery header, by variable
	m := map[*Term]func([]Val, *State) *Term{}
	for i := range vars {
		if d, ok := h.info.lastVars[vars[i].name]; ok {
			m[d] = vars[i].get
		}
	}
	memo := map[*Term]bool{}
	uses := false
	okAll := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if memo[t] {
			return
		}
		memo[t] = true
		if _, ok := m[t]; ok {
			uses = true
			return
		}
		if t.op == "const" && !x.stable(t, h.info.snap, h.info.snapEpoch, map[*Term]bool{}) {
			okAll = false
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	if !okAll {
		return nil, false
	}
	return func(vs []Val, st *State) *Term {
		sub := map[*Term]*Term{}
		for d, g := range m {
			sub[d] = g(vs, st)
		}
		return x.Subst(t, sub)
	}, uses
}

// modPlaces lists the places of component c in the modifies clause of the contract.
func (x *Exec) modPlaces(c string) []*Term {
	con := x.tgt.con
	if con == nil {
		return nil
	}
	var ats []*Term
	for _, m := range x.modItems(con, "modifies") {
		if m.all || m.match == nil || !m.match(c) {
			continue
		}
		if m.at == nil {
			return nil
		}
		ats = append(ats, x.tgt.env(x, x.entry).oldEnv().eval(m.at).v.t[0])
	}
	return ats
}

// hintCands instantiates the contract's hints over the loop's values.
func (x *Exec) hintCands(h *header, vals []lval) []cand {
	con := x.tgt.con
	if con == nil {
		return nil
	}
	var out []cand
	for _, cl := range con.get("hint") {
		ms := map[string]string{}
		cl.ex.metas(ms)
		x.instantiate(cl, ms, vals, h, func(desc string, f func(vals []Val, st *State) *Term) {
			out = append(out, cand{name: "hint " + cl.name() + desc, f: f, hint: cl})
		})
	}
	return out
}

func (x *Exec) instantiate(cl *Clause, ms map[string]string, vals []lval, h *header, emit func(desc string, f func([]Val, *State) *Term)) {
	names := sortedKeys(ms)
	pkg := x.w.pkgOf(x.tgt.con.pkg)
	type choice struct {
		lv  lval
		off int64
	}
	var opts [][]choice
	for _, n := range names {
		t := types.Type(tInt)
		if ms[n] != "" && ms[n] != "int" {
			t = x.w.metaTyp(pkg, ms[n])
		}
		var cs []choice
		for _, lv := range vals {
			if x.ti.key(lv.typ) != x.ti.key(t) {
				continue
			}
			if x.ti.key(t) == "int" {
				cs = append(cs, choice{lv, 0}, choice{lv, 1})
			} else {
				cs = append(cs, choice{lv, 0})
			}
		}
		if len(cs) == 0 {
			return
		}
		opts = append(opts, cs)
	}
	n := 1
	for _, o := range opts {
		n *= len(o)
	}
	if n > 300 {
		n = 300
	}
	for k := 0; k < n; k++ {
		pick := make([]choice, len(opts))
		r := k
		desc := ""
		for i, o := range opts {
			pick[i] = o[r%len(o)]
			r /= len(o)
			desc += fmt.Sprintf(" ?%s=%s", names[i], pick[i].lv.name)
			if pick[i].off != 0 {
				desc += fmt.Sprintf("+%d", pick[i].off)
			}
		}
		pick2 := pick
		emit(desc, func(vs []Val, st *State) *Term {
			env := x.tgt.env(x, st)
			env.metas = map[string]SV{}
			for i, c := range pick2 {
				v := c.lv.get(vs, st)
				if c.off != 0 {
					v = Val{t: []*Term{x.Add(v.one(), x.Int(c.off))}}
				}
				env.metas[names[i]] = SV{v: v, typ: c.lv.typ}
			}
			return env.formula(cl.ex)
		})
	}
}

// measures: nil when termination is not asked for.
func (x *Exec) measures(h *header) []measure {
	con := x.tgt.con
	if con == nil || !con.has("decreases") {
		return nil
	}
	out := []measure{}
	_, vals := x.loopVars(h)
	for _, cl := range con.get("decreases") {
		ms := map[string]string{}
		cl.ex.metas(ms)
		cl := cl
		x.instantiateInt(cl, ms, vals, h, func(desc string, f func([]Val, *State) *Term) {
			out = append(out, measure{cl.name() + desc, f})
		})
	}
	// counting loops
	vars, _ := x.loopVars(h)
	for _, pr := range x.sortedCmps(h.info.cmps) {
		for k := 0; k < 2; k++ {
			fa, va := x.overHeader(h, pr[k], vars)
			fb, vb := x.overHeader(h, pr[1-k], vars)
			if fa == nil || fb == nil || (!va && !vb) {
				continue
			}
			out = append(out, measure{"difference of the compared values", func(vs []Val, st *State) *Term {
				return x.Add(x.Sub(fa(vs, st), fb(vs, st)), x.Int(1))
			}})
		}
	}
	return out
}

func (x *Exec) instantiateInt(cl *Clause, ms map[string]string, vals []lval, h *header, emit func(string, func([]Val, *State) *Term)) {
	x.instantiateTerm(cl, ms, vals, h, emit)
}

func (x *Exec) instantiateTerm(cl *Clause, ms map[string]string, vals []lval, h *header, emit func(string, func([]Val, *State) *Term)) {
	names := sortedKeys(ms)
	pkg := x.w.pkgOf(x.tgt.con.pkg)
	var opts [][]lval
	for _, n := range names {
		t := types.Type(tInt)
		if ms[n] != "" && ms[n] != "int" {
			t = x.w.metaTyp(pkg, ms[n])
		}
		var cs []lval
		for _, lv := range vals {
			if x.ti.key(lv.typ) == x.ti.key(t) {
				cs = append(cs, lv)
			}
		}
		if len(cs) == 0 {
			return
		}
		opts = append(opts, cs)
	}
	n := 1
	for _, o := range opts {
		n *= len(o)
	}
	for k := 0; k < n && k < 100; k++ {
		pick := make([]lval, len(opts))
		r := k
		desc := ""
		for i, o := range opts {
			pick[i] = o[r%len(o)]
			r /= len(o)
			desc += " ?" + names[i] + "=" + pick[i].name
		}
		emit(desc, func(vs []Val, st *State) *Term {
			env := x.tgt.env(x, st)
			env.metas = map[string]SV{}
			for i, c := range pick {
				env.metas[names[i]] = SV{v: c.get(vs, st), typ: c.typ}
			}
			return env.int(cl.ex)
		})
	}
}
