package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- state

type epoch struct {
	id    int
	keeps func(comp string) bool // nil: keeps nothing
}

type State struct {
	pc     []*Term
	facts  map[*Term]bool
	heap   map[string]*Term
	epochs []epoch
	wm     *Term
	trace  []string
	dead   bool
	consts []keepRef // cells of variables assigned once
	keep   []keepRef // arrays only the functions being executed can reach
}

func (s *State) clone() *State {
	n := *s
	n.pc = append([]*Term(nil), s.pc...)
	n.facts = make(map[*Term]bool, len(s.facts)+8)
	for k := range s.facts {
		n.facts[k] = true
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.epochs = append([]epoch(nil), s.epochs...)
	n.trace = append([]string(nil), s.trace...)
	return &n
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type LoopCtx struct {
	fr      *Frame
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	houdini bool
	onBack  func(fr *Frame, pred *ssa.BasicBlock, st *State)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	binds  []Val
	defers []deferred
	loops  []*LoopCtx
	depth  int
	ret    func(st *State, vals []Val)
	pan    func(st *State, msg string)
	alloc  []*ssa.Alloc
	stack  []string
	joins  []*joinPoint
	cells  []outerCell // the cells of the frames this one is inlined into
}

// outerCell is a local variable of a calling frame.
type outerCell struct {
	name string
	typ  types.Type
	ref  *Term
}

// visible: the cells a frame called from f can see.
func (f *Frame) visible() []outerCell {
	out := append([]outerCell(nil), f.cells...)
	for _, a := range f.alloc {
		if v, ok := f.env[a]; ok && v.addr == nil {
			out = append(out, outerCell{a.Comment, a.Type().Underlying().(*types.Pointer).Elem(), v.one()})
		}
	}
	return out
}

// joinPoint collects the paths of a branch whose two sides meet again at a block.
type joinPoint struct {
	block *ssa.BasicBlock
	got   []arrival
}

type arrival struct {
	fr   *Frame
	pred *ssa.BasicBlock
	st   *State
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = append([]*LoopCtx(nil), f.loops...)
	n.alloc = append([]*ssa.Alloc(nil), f.alloc...)
	n.joins = append([]*joinPoint(nil), f.joins...)
	return &n
}

// ---------------------------------------------------------------- executor

type VC struct {
	name    string
	asserts []*Term // path condition
	goal    *Term
	trace   []string
	res     string
	by      string
	ms      int64
	props   []string
	same    *VC
	script  string
}

type Exec struct {
	*Ctx
	w           *World
	ti          *TypeInfo
	tgt         *Target
	pool        *Pool
	comps       map[string]Sort
	nepoch      int
	lazyFeas    bool // inside a branch that will probably be merged: paths are not tested
	nwm         int
	closures    map[*Term]*Closure
	quiet       int
	sane        map[string]int // contracts applied: -1 when once a possible state was left
	vcs         []*VC
	paths       int
	steps       int
	feasMemo    map[string]string
	entry       *State
	trusted     map[string]bool
	inlined     map[string]bool
	called      map[string]bool // contracts relied upon
	loopsN      int
	deadline    time.Time
	t0          time.Time
	normalRet   int
	panRet      int
	ghosts      map[string]Sort
	recN        int
	invTexts    []string
	itN         int
	hintUsed    map[string]int
	verbose     bool
	discovering int
	cmpLog      map[[2]*Term]bool
	rootRecs    map[string]*recDef
	dead        map[string]bool
	globRecs    map[string]*recDef
	ifaceByKey  map[string]*types.Interface
}

func (x *Exec) comp(name string, sort Sort) { x.comps[name] = sort }

func (x *Exec) read(st *State, name string, sort Sort) *Term {
	if _, ok := x.comps[name]; !ok {
		x.comps[name] = sort
	}
	if t, ok := st.heap[name]; ok {
		return t
	}
	for i := len(st.epochs) - 1; i >= 0; i-- {
		e := st.epochs[i]
		if e.keeps == nil || !e.keeps(name) {
			return x.Const(fmt.Sprintf("%s@%d", name, e.id), sort)
		}
	}
	panic("no epoch")
}

func (x *Exec) write(st *State, name string, v *Term) {
	if _, ok := x.comps[name]; !ok {
		x.comps[name] = v.sort
	}
	st.heap[name] = v
}

// havoc replaces every component not kept by fresh contents.
func (x *Exec) havoc(st *State, keeps func(string) bool) {
	ks := x.saveKept(st, keeps)
	x.nepoch++
	for k := range st.heap {
		if !keeps(k) {
			delete(st.heap, k)
		}
	}
	st.epochs = append(st.epochs, epoch{x.nepoch, keeps})
	x.restoreKept(st, ks)
}

// havocComp gives one component fresh contents.
func (x *Exec) havocComp(st *State, name string, sort Sort) *Term {
	x.nepoch++
	t := x.Const(fmt.Sprintf("%s@%d", name, x.nepoch), sort)
	x.comps[name] = sort
	st.heap[name] = t
	return t
}

func (x *Exec) newWm(st *State) {
	old := st.wm
	x.nwm++
	w := x.Const(fmt.Sprintf("wm!%d", x.nwm), SInt)
	if old != nil {
		base, k, ok := x.asWm(old)
		if ok {
			x.wmUp[w] = refBound{base, k}
		}
		st.wm = w
		x.assume(st, x.Le(old, w))
	} else {
		st.wm = w
		x.assume(st, x.Le(x.Int(1000), w))
	}
}

func (x *Exec) alloc(st *State) *Term {
	st.wm = x.Add(st.wm, x.Int(1))
	return st.wm
}

func (x *Exec) assume(st *State, t *Term) {
	if st.dead || isTrue(t) {
		return
	}
	if isFalse(t) {
		st.dead = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	if st.facts[t] {
		return
	}
	if st.facts[x.Not(t)] {
		st.dead = true
		return
	}
	st.facts[t] = true
	st.pc = append(st.pc, t)
}

// knownTrue: syntactic entailment.
func (x *Exec) known(st *State, t *Term) (bool, bool) {
	if isTrue(t) || st.facts[t] {
		return true, true
	}
	if isFalse(t) || st.facts[x.Not(t)] {
		return false, true
	}
	return false, false
}

func (x *Exec) query(asserts []*Term, ms int) string {
	var kb strings.Builder
	for _, a := range asserts {
		fmt.Fprintf(&kb, "%d,", a.id)
	}
	k := kb.String()
	if r, ok := x.feasMemo[k]; ok {
		return r
	}
	r := x.pool.Check(x.script(asserts), ms)
	x.feasMemo[k] = r
	return r
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if v, ok := x.known(st, c); ok {
		return v
	}
	if x.lazyFeas {
		return true
	}
	as := append(append([]*Term(nil), st.pc...), c)
	t0 := time.Now()
	r := x.query(as, 150)
	if os.Getenv("GVFEAS") != "" {
		fmt.Fprintf(os.Stderr, "feasible %v %s disc=%d %s\n", time.Since(t0), r, x.discovering, x.short(c))
	}
	return r != "unsat"
}

// entails: solver entailment used by inference (not recorded as an obligation).
func (x *Exec) entails(st *State, g *Term, ms int) bool {
	if v, ok := x.known(st, g); ok && v {
		return true
	}
	as := append(append([]*Term(nil), st.pc...), x.Not(g))
	return x.query(as, ms) == "unsat"
}

// prove records an obligation.
func (x *Exec) prove(st *State, g *Term, name string) {
	if x.quiet > 0 || st.dead {
		return
	}
	if g.op == "and" {
		for i, a := range g.args {
			_ = i
			x.prove(st, a, name)
		}
		return
	}
	x.vcs = append(x.vcs, &VC{name: name, asserts: append([]*Term(nil), st.pc...), goal: g, trace: append([]string(nil), st.trace...)})
}

func (x *Exec) tick() {
	x.steps++
	if x.steps%64 == 0 && time.Now().After(x.deadline) {
		unsup("time limit of the symbolic execution reached (%d paths)", x.paths)
	}
	if x.steps > 4000000 {
		unsup("step limit")
	}
}

// ---------------------------------------------------------------- values

func (x *Exec) zero(t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var v Val
		for i := 0; i < tu.Len(); i++ {
			v.t = append(v.t, x.zero(tu.At(i).Type()).t...)
		}
		return v
	}
	var v Val
	for _, l := range x.ti.Leaves(t) {
		v.t = append(v.t, x.zeroLeaf(l))
	}
	return v
}

func (x *Exec) zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SInt:
		return x.Int(0)
	case SBool:
		return x.False()
	case SStr:
		return x.StrLit("")
	case SAny:
		return x.ANil()
	case SFlt:
		return x.Const("flt:0", SFlt)
	}
	panic("zeroLeaf")
}

// freshVal makes an unconstrained value of type t with its typing facts.
func (x *Exec) freshVal(st *State, prefix string, t types.Type) Val {
	var v Val
	for _, l := range x.ti.Leaves(t) {
		v.t = append(v.t, x.Fresh(prefix+l.path, l.sort))
	}
	x.typeFacts(st, t, v)
	return v
}

// typeFacts assumes what the Go type guarantees about the leaves.
func (x *Exec) typeFacts(st *State, t types.Type, v Val) {
	ls := x.ti.Leaves(t)
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		a := v.t[i]
		switch l.part {
		case "arr":
			x.refFact(st, v.t[i])
			off, ln, cp := v.t[i+1], v.t[i+2], v.t[i+3]
			x.assume(st, x.Le(x.Int(0), off))
			x.assume(st, x.Le(x.Int(0), ln))
			x.assume(st, x.Le(ln, cp))
			x.assume(st, x.Implies(x.Eq(a, x.Int(0)), x.Eq(cp, x.Int(0))))
			i += 3
			continue
		}
		switch u := l.typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			x.refFact(st, a)
		case *types.Basic:
			if l.sort == SInt {
				switch u.Kind() {
				case types.Uint8:
					x.rangeFact(st, a, 0, 255)
				case types.Uint, types.Uint64, types.Uintptr:
					x.assume(st, x.Le(x.Int(0), a))
				case types.Uint16:
					x.rangeFact(st, a, 0, 65535)
				case types.Uint32:
					x.rangeFact(st, a, 0, 1<<32-1)
				case types.Int8:
					x.rangeFact(st, a, -128, 127)
				case types.Int16:
					x.rangeFact(st, a, -32768, 32767)
				}
			}
		case *types.Interface:
			if u.NumMethods() > 0 {
				x.ifaceFact(st, a, l.typ)
			}
			x.anyRefFact(st, a)
		}
	}
}

func (x *Exec) rangeFact(st *State, a *Term, lo, hi int64) {
	x.assume(st, x.Le(x.Int(lo), a))
	x.assume(st, x.Le(a, x.Int(hi)))
}

func (x *Exec) refFact(st *State, a *Term) {
	if a.op == "int" {
		return
	}
	if _, _, ok := x.asWm(a); ok {
		return
	}
	if _, ok := x.bounds[a]; ok {
		// already bounded by an earlier (smaller) watermark
		x.assume(st, x.Le(x.Int(0), a))
		b := x.bounds[a]
		x.assume(st, x.Le(a, x.Add(b.base, x.Int(b.off))))
		return
	}
	if a.op == "ite" {
		x.refFact(st, a.args[1])
		x.refFact(st, a.args[2])
		return
	}
	base, k, ok := x.asWm(st.wm)
	if ok && (a.op == "const" || a.op == "select" || a.op == "sel" || a.op == "uf") {
		// a heap load through a havoced component may be compared only with this watermark
		x.bounds[a] = refBound{base, k}
	}
	x.assume(st, x.Le(x.Int(0), a))
	x.assume(st, x.Le(a, st.wm))
}

func (x *Exec) anyRefFact(st *State, a *Term) {
	if isCtor(a) {
		return
	}
	p := x.Sel("rptr", a)
	x.assume(st, x.Le(p, st.wm))
	x.assume(st, x.Le(x.Int(0), p))
	if _, ok := x.bounds[p]; !ok {
		if base, k, ok := x.asWm(st.wm); ok {
			x.bounds[p] = refBound{base, k}
		}
	}
}

func (x *Exec) ifaceFact(st *State, a *Term, t types.Type) {
	if isCtor(a) {
		return
	}
	x.assume(st, x.Or(x.Is("anil", a), x.implTerm(x.tagOf(a), t)))
}

// tagOf yields the dynamic type tag of a non-nil interface value.
func (x *Exec) tagOf(a *Term) *Term {
	if isCtor(a) && a.name != "anil" {
		return a.args[0]
	}
	return x.Fun("tagof", SInt, a)
}

// implTerm: the type numbered tag implements interface t.
func (x *Exec) implTerm(tag *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return x.True()
	}
	if tag.op == "int" {
		if ct, ok := x.ti.tagT[tag.ival]; ok {
			return x.Bool(types.Implements(ct, it))
		}
	}
	k := x.ti.key(t)
	if x.ifaceByKey == nil {
		x.ifaceByKey = map[string]*types.Interface{}
	}
	x.ifaceByKey[k] = it
	return x.Fun("impl:"+k, SBool, tag)
}

// ---- boxing

func (x *Exec) makeIface(st *State, t types.Type, v Val) *Term {
	if types.IsInterface(t) {
		return v.one()
	}
	tag := x.Int(x.ti.tag(t))
	ls := x.ti.Leaves(t)
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if v.addr != nil {
			unsup("interior pointer stored in an interface")
		}
		return x.ARef(tag, v.one())
	case *types.Basic:
		if len(ls) == 1 {
			switch ls[0].sort {
			case SStr:
				return x.AStr(tag, v.one())
			case SInt:
				return x.AInt(tag, v.one())
			case SBool:
				return x.AInt(tag, x.Ite(v.one(), x.Int(1), x.Int(0)))
			}
		}
	}
	// boxed
	b := x.Fun("box:"+x.ti.key(t), SInt, v.t...)
	for i, l := range ls {
		u := x.Fun(fmt.Sprintf("unbox:%s%s", x.ti.key(t), l.path), l.sort, b)
		x.assume(st, x.Eq(u, v.t[i]))
	}
	return x.ABox(tag, b)
}

func (x *Exec) isType(a *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return x.And(x.Not(x.Is("anil", a)), x.implTerm(x.tagOf(a), t))
	}
	tag := x.Int(x.ti.tag(t))
	ctor, sel := x.ctorFor(t)
	return x.And(x.Is(ctor, a), x.Eq(x.Sel(sel, a), tag))
}

func (x *Exec) ctorFor(t types.Type) (ctor, tagsel string) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "aref", "rtag"
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "astr", "stag"
		}
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return "aint", "itag"
		}
	}
	return "abox", "btag"
}

// unIface extracts the concrete value (valid when isType holds).
func (x *Exec) unIface(st *State, a *Term, t types.Type) Val {
	if types.IsInterface(t) {
		return Val{t: []*Term{a}}
	}
	ls := x.ti.Leaves(t)
	ctor, _ := x.ctorFor(t)
	var v Val
	switch ctor {
	case "aref":
		v = Val{t: []*Term{x.Sel("rptr", a)}}
	case "astr":
		v = Val{t: []*Term{x.Sel("sval", a)}}
	case "aint":
		r := x.Sel("ival", a)
		if ls[0].sort == SBool {
			r = x.Neq(r, x.Int(0))
		}
		v = Val{t: []*Term{r}}
	default:
		b := x.Sel("bval", a)
		if b.op == "uf" && b.name == "box:"+x.ti.key(t) {
			return Val{t: append([]*Term(nil), b.args...)}
		}
		for _, l := range ls {
			v.t = append(v.t, x.Fun(fmt.Sprintf("unbox:%s%s", x.ti.key(t), l.path), l.sort, b))
		}
	}
	if st != nil {
		x.typeFacts(st, t, v)
	}
	return v
}

// ---------------------------------------------------------------- memory

func (x *Exec) addrComp(a *Addr, i int) (string, Sort) {
	l := x.ti.Leaves(a.typ)[a.lo+i]
	key := a.key
	if key == "" {
		key = x.ti.key(a.typ)
	}
	if a.kind == "E" {
		return "E:" + key + l.path, ArrSort(SInt, ArrSort(SInt, l.sort))
	}
	return "O:" + key + l.path, ArrSort(SInt, l.sort)
}

func (x *Exec) load(st *State, a *Addr) Val {
	var v Val
	for i := 0; i < a.n; i++ {
		name, srt := x.addrComp(a, i)
		arr := x.read(st, name, srt)
		t := x.Select(arr, a.ref)
		if a.kind == "E" {
			t = x.Select(t, a.idx)
		}
		v.t = append(v.t, t)
	}
	x.typeFacts(st, a.vt, v)
	return v
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	if len(v.t) != a.n {
		unsup("store of a value with %d leaves into %d", len(v.t), a.n)
	}
	for i := 0; i < a.n; i++ {
		name, srt := x.addrComp(a, i)
		arr := x.read(st, name, srt)
		if a.kind == "E" {
			inner := x.Store(x.Select(arr, a.ref), a.idx, v.t[i])
			x.write(st, name, x.Store(arr, a.ref, inner))
		} else {
			x.write(st, name, x.Store(arr, a.ref, v.t[i]))
		}
	}
}

// toAddr views a pointer value of static type *T as an lvalue.
func (x *Exec) toAddr(v Val, ptr types.Type) *Addr {
	if v.addr != nil {
		return v.addr
	}
	et := ptr.Underlying().(*types.Pointer).Elem()
	return &Addr{kind: "O", typ: et, ref: v.one(), lo: 0, n: len(x.ti.Leaves(et)), vt: et}
}

// ---------------------------------------------------------------- operands

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{t: []*Term{x.funcTerm(v)}}
	case *ssa.Global:
		et := v.Type().Underlying().(*types.Pointer).Elem()
		return Val{addr: &Addr{kind: "O", typ: et, key: "global:" + strings.ReplaceAll(v.String(), x.ti.repo, "~"), ref: x.Int(0), n: len(x.ti.Leaves(et)), vt: et}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return Val{t: []*Term{x.Int(0)}}
	}
	unsup("operand %s (%T) in %s", v, v, fr.fn)
	return Val{}
}

func (x *Exec) funcTerm(f *ssa.Function) *Term {
	t := x.Const("func:"+f.String(), SInt)
	if _, ok := x.closures[t]; !ok {
		x.closures[t] = &Closure{fn: f}
	}
	return t
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{t: []*Term{x.Bool(constant.BoolVal(c.Value))}}
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Val{t: []*Term{x.Int(n)}}
			}
		case u.Info()&types.IsString != 0:
			return Val{t: []*Term{x.StrLit(constant.StringVal(c.Value))}}
		case u.Info()&types.IsFloat != 0:
			return Val{t: []*Term{x.Const("flt:"+c.Value.ExactString(), SFlt)}}
		}
	}
	unsup("constant %s", c)
	return Val{}
}

// ---------------------------------------------------------------- main loop

func (x *Exec) pos(i ssa.Instruction) string {
	p := x.w.fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().Name()
	}
	f := p.Filename
	if k := strings.LastIndexByte(f, '/'); k >= 0 {
		f = f[k+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// enter executes fn with arguments.
func (x *Exec) enter(fn *ssa.Function, args []Val, binds []Val, st *State, depth int, stk []string, cells []outerCell, ret func(*State, []Val), pan func(*State, string)) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if depth > 60 {
		unsup("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds, depth: depth, ret: ret, pan: pan, cells: cells, stack: append(append([]string(nil), stk...), fn.String())}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	x.block(fr, fn.Blocks[0], nil, st)
}

// block handles control arriving at b from pred.
func (x *Exec) block(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if st.dead {
		return
	}
	// leave loops that do not contain b
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if top.body[b] {
			break
		}
		if top.houdini {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if n := len(fr.joins); n > 0 && fr.joins[n-1].block == b {
		j := fr.joins[n-1]
		j.got = append(j.got, arrival{fr, pred, st})
		return
	}
	if lp := x.w.loopAt(fr.fn, b); lp != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == b {
			fr.loops[len(fr.loops)-1].onBack(fr, pred, st)
			return
		}
		x.loop(fr, lp, pred, st)
		return
	}
	x.phis(fr, b, pred, st)
	x.instrs(fr, b, 0, st)
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	panic("pred")
}

func (x *Exec) phis(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if pred == nil {
		return
	}
	k := predIndex(b, pred)
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var vs []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{p, x.val(fr, st, p.Edges[k])})
	}
	for _, e := range vs {
		fr.env[e.p] = e.v
	}
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, from int, st *State) {
	for i := from; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.tick()
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			x.block(fr, b.Succs[0], b, st)
			return
		case *ssa.If:
			c := x.val(fr, st, in.Cond).one()
			arms := func(fr *Frame, st *State) {
				x.branch(fr, st, c, x.pos(in),
					func(fr *Frame, st *State) { x.block(fr, b.Succs[0], b, st) },
					func(fr *Frame, st *State) { x.block(fr, b.Succs[1], b, st) })
			}
			_, decided := x.known(st, c)
			var jb *ssa.BasicBlock
			lookOnly := false
			if !decided {
				var body map[*ssa.BasicBlock]bool
				if len(fr.loops) > 0 {
					body = fr.loops[len(fr.loops)-1].body
				}
				jb, lookOnly = x.w.joinOf(fr.fn, b, body)
			}
			if n := len(fr.joins); jb == nil || n > 0 && fr.joins[n-1].block == jb {
				arms(fr, st)
				return
			}
			x.merging(fr, st, jb, lookOnly, arms)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, st, r))
			}
			fr.ret(st, vs)
			return
		case *ssa.Panic:
			x.doPanic(fr, st, "panic at "+x.pos(in))
			return
		case *ssa.RunDefers:
			k := i + 1
			x.runDefers(fr, st, func(fr *Frame, st *State) { x.instrs(fr, b, k, st) })
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call}
			if in.Call.IsInvoke() {
				d.fn = x.val(fr, st, in.Call.Value)
			} else {
				d.fn = x.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			k := i + 1
			save := st.keep
			if _, bi := in.Call.Value.(*ssa.Builtin); !bi {
				if ks := x.privateArrays(fr, in); len(ks) > 0 {
					st.keep = append(append([]keepRef(nil), save...), ks...)
				}
			}
			x.call(fr, st, in, func(st *State, v Val) {
				st.keep = save
				f2 := fr.clone()
				f2.env[in] = v
				x.instrs(f2, b, k, st)
			})
			return
		case *ssa.TypeAssert:
			if !in.CommaOk {
				a := x.val(fr, st, in.X).one()
				x.mustHold(fr, st, x.isType(a, in.AssertedType), "type assertion at "+x.pos(in))
				if st.dead {
					return
				}
				fr.env[in] = x.unIface(st, a, in.AssertedType)
			} else {
				k := i + 1
				a := x.val(fr, st, in.X).one()
				if pt := in.X.Type(); types.IsInterface(pt) {
					x.ifaceFact(st, a, pt)
				}
				c := x.isType(a, in.AssertedType)
				x.branch(fr, st, c, "",
					func(fr *Frame, st *State) {
						v := x.unIface(st, a, in.AssertedType)
						fr.env[in] = Val{t: append(append([]*Term(nil), v.t...), x.True())}
						x.instrs(fr, b, k, st)
					},
					func(fr *Frame, st *State) {
						v := x.zero(in.AssertedType)
						fr.env[in] = Val{t: append(append([]*Term(nil), v.t...), x.False())}
						x.instrs(fr, b, k, st)
					})
				return
			}
		case *ssa.Slice:
			// bounds may need branching only for panics
			fr.env[in] = x.sliceInstr(fr, st, in)
		default:
			x.simple(fr, st, b.Instrs[i])
		}
	}
}

// merging runs a branch up to the block where its sides meet. Where every path arrives with the heap and
// the values it started with (the sides only looked at things), execution goes on once, from the state
// before the branch; otherwise once per path.
func (x *Exec) merging(fr *Frame, st *State, jb *ssa.BasicBlock, lookOnly bool, arms func(*Frame, *State)) {
	j := &joinPoint{block: jb}
	fr0, st0 := fr.clone(), st.clone()
	fr.joins = append(fr.joins, j)
	lazy := lookOnly && !x.lazyFeas
	if lazy {
		x.lazyFeas = true
	}
	arms(fr, st)
	if lazy {
		x.lazyFeas = false
	}
	same := len(j.got) > 1
	n0 := len(st0.pc)
	for _, a := range j.got {
		a.fr.joins = a.fr.joins[:len(a.fr.joins)-1]
		same = same && len(a.fr.defers) == len(fr0.defers)
	}
	cells := map[string]mergedCell{}
	if same {
		for _, a := range j.got {
			same = same && x.sameHeap(st0, a.st)
		}
		if !same && len(j.got) == 2 {
			cells, same = x.oneCell(st0, j.got[0].st, j.got[1].st)
		}
	}
	vals := map[*ssa.Phi][]*Term{}
	if same {
		for _, p := range x.phisOf(jb) {
			v0 := x.val(j.got[0].fr, j.got[0].st, p.Edges[predIndex(jb, j.got[0].pred)])
			b, isBool := p.Type().Underlying().(*types.Basic)
			scalars := x.tgt != nil && x.tgt.con != nil && x.tgt.con.merge
			isBool = isBool && (b.Info()&types.IsBoolean != 0 || scalars && b.Info()&(types.IsString|types.IsInteger) != 0)
			for _, a := range j.got {
				v := x.val(a.fr, a.st, p.Edges[predIndex(jb, a.pred)])
				if v0.addr != nil || v.addr != nil || len(v.t) != len(v0.t) {
					same = false
					break
				}
				if isBool {
					vals[p] = append(vals[p], v.one())
					continue
				}
				for i := range v.t {
					same = same && v.t[i] == v0.t[i]
				}
			}
		}
	}
	if os.Getenv("GVJOIN") != "" {
		for _, a := range j.got {
			fmt.Fprintln(os.Stderr, "  join heap", x.sameHeap(st0, a.st), a.pred.Index)
		}
		for _, p := range x.phisOf(jb) {
			fmt.Fprintln(os.Stderr, "  join phi", p.Comment, p.Type(), vals[p])
		}
		fmt.Fprintf(os.Stderr, "join %s b%d lazy=%v same=%v n=%d\n", fr0.fn, jb.Index, lazy, same, len(j.got))
	}
	if same && len(j.got) <= 24 {
		// what is known of the paths taken
		cs := make([][]*Term, len(j.got))
		for k, a := range j.got {
			for _, t := range a.st.pc[n0:] {
				if len(cs[k]) < 40 {
					cs[k] = append(cs[k], t)
				}
			}
		}
		a := j.got[0]
		x.newWm(st0)
		for name, c := range cells {
			old := x.read(st0, name, x.comps[name])
			v := x.Fresh("merged", c.vals[0].sort)
			x.write(st0, name, x.Store(old, c.at, v))
			for k := range j.got {
				cs[k] = append(cs[k], x.Eq(v, c.vals[k]))
			}
		}
		for _, p := range x.phisOf(jb) {
			if vs := vals[p]; vs != nil {
				one := true
				for _, v := range vs {
					one = one && v == vs[0]
				}
				if !one {
					b := x.Fresh("phi."+phiName(p), vs[0].sort)
					fr0.env[p] = Val{t: []*Term{b}}
					for k := range j.got {
						cs[k] = append(cs[k], x.Eq(b, vs[k]))
					}
					continue
				}
			}
			fr0.env[p] = x.val(a.fr, a.st, p.Edges[predIndex(jb, a.pred)])
		}
		var ds []*Term
		for k := range cs {
			ds = append(ds, x.And(cs[k]...))
		}
		x.assume(st0, x.Or(ds...))
		x.instrs(fr0, jb, 0, st0)
		return
	}
	if lazy {
		for _, a := range j.got {
			if x.query(a.st.pc, 150) != "unsat" {
				x.block(a.fr, jb, a.pred, a.st)
			}
		}
		return
	}
	for _, a := range j.got {
		x.block(a.fr, jb, a.pred, a.st)
	}
}

func (x *Exec) sameHeap(a, b *State) bool {
	if len(a.epochs) != len(b.epochs) {
		return false
	}
	for _, h := range []map[string]*Term{a.heap, b.heap} {
		for k := range h {
			srt, ok := x.comps[k]
			if !ok {
				if a.heap[k] != b.heap[k] {
					return false
				}
				continue
			}
			if x.read(a, k, srt) != x.read(b, k, srt) {
				return false
			}
		}
	}
	return true
}

type mergedCell struct {
	at   *Term
	vals []*Term
}

// oneCell: the components in which a or b differ from st0, when that is at most two and each differs in the
// contents of one and the same place.
func (x *Exec) oneCell(st0, a, b *State) (map[string]mergedCell, bool) {
	if len(a.epochs) != len(st0.epochs) || len(b.epochs) != len(st0.epochs) {
		return nil, false
	}
	out := map[string]mergedCell{}
	for _, h := range []map[string]*Term{st0.heap, a.heap, b.heap} {
		for k := range h {
			if _, done := out[k]; done {
				continue
			}
			srt, ok := x.comps[k]
			if !ok {
				return nil, false
			}
			v0, va, vb := x.read(st0, k, srt), x.read(a, k, srt), x.read(b, k, srt)
			if v0 == va && v0 == vb {
				continue
			}
			var at *Term
			for _, v := range []*Term{va, vb} {
				if v != v0 {
					if v.op != "store" || v.args[0] != v0 || at != nil && at != v.args[1] {
						return nil, false
					}
					at = v.args[1]
				}
			}
			var vals []*Term
			for _, v := range []*Term{va, vb} {
				e := x.Select(v0, at)
				if v != v0 {
					e = v.args[2]
				}
				if e.sort != SBool && e.sort != SInt {
					return nil, false
				}
				vals = append(vals, e)
			}
			out[k] = mergedCell{at, vals}
		}
	}
	return out, len(out) <= 2
}

// joinOf: the block at which the two sides of the branch at b meet, when no loop lies in between.
func (w *World) joinOf(fn *ssa.Function, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (*ssa.BasicBlock, bool) {
	in := func(c *ssa.BasicBlock) bool {
		return c != b && (body == nil || body[c]) && w.loopAt(fn, c) == nil
	}
	reach := func(from, cut *ssa.BasicBlock) (map[*ssa.BasicBlock]bool, bool) {
		m := map[*ssa.BasicBlock]bool{}
		inner := false
		var go1 func(c *ssa.BasicBlock)
		go1 = func(c *ssa.BasicBlock) {
			if c == cut || m[c] {
				return
			}
			if !in(c) {
				inner = inner || w.loopAt(fn, c) != nil && (body == nil || body[c])
				return
			}
			m[c] = true
			for _, s := range c.Succs {
				go1(s)
			}
		}
		go1(from)
		return m, inner
	}
	r1, _ := reach(b.Succs[0], nil)
	r2, _ := reach(b.Succs[1], nil)
	for _, c := range fn.Blocks {
		if !r1[c] || !r2[c] {
			continue
		}
		m1, _ := reach(b.Succs[0], c)
		m2, _ := reach(b.Succs[1], c)
		ok := true
		for d := range m1 {
			if m2[d] {
				ok = false
			}
		}
		if ok {
			look := true
			for _, m := range []map[*ssa.BasicBlock]bool{m1, m2} {
				for d := range m {
					for _, in := range d.Instrs {
						switch in.(type) {
						case *ssa.Return, *ssa.Panic, *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send:
							look = false
						}
					}
					for _, s := range d.Succs {
						if s != c && !m[s] {
							look = false
						}
					}
				}
			}
			return c, look
		}
	}
	return nil, false
}

// branch explores both outcomes of c when feasible.
func (x *Exec) branch(fr *Frame, st *State, c *Term, note string, yes, no func(*Frame, *State)) {
	if st.dead {
		return
	}
	if v, ok := x.known(st, c); ok {
		if v {
			yes(fr, st)
		} else {
			no(fr, st)
		}
		return
	}
	ft := x.feasible(st, c)
	ff := true
	if ft {
		ff = x.feasible(st, x.Not(c))
	}
	if ft && ff {
		x.paths++
		if x.paths > 60000 {
			unsup("too many paths")
		}
		f2, s2 := fr.clone(), st.clone()
		x.assume(st, c)
		if note != "" {
			st.trace = append(st.trace, note+" true")
		}
		yes(fr, st)
		x.assume(s2, x.Not(c))
		if note != "" {
			s2.trace = append(s2.trace, note+" false")
		}
		no(f2, s2)
		return
	}
	if ft {
		x.assume(st, c)
		yes(fr, st)
	} else {
		x.assume(st, x.Not(c))
		no(fr, st)
	}
}

// mustHold: the operation panics unless c; the panicking path is explored when panics matter.
func (x *Exec) mustHold(fr *Frame, st *State, c *Term, what string) {
	if st.dead {
		return
	}
	if v, ok := x.known(st, c); ok && v {
		return
	}
	if x.tgt.panicsMatter() {
		if x.feasible(st, x.Not(c)) {
			f2, s2 := fr.clone(), st.clone()
			x.assume(s2, x.Not(c))
			x.doPanic(f2, s2, what)
		}
	}
	x.assume(st, c)
}

func (x *Exec) doPanic(fr *Frame, st *State, msg string) {
	if st.dead {
		return
	}
	if !x.tgt.panicsMatter() {
		return // diverges
	}
	x.unwind(fr.clone(), st, msg)
}

// unwind leaves the frame by a panic.
func (x *Exec) unwind(fr *Frame, st *State, msg string) {
	for _, l := range fr.loops {
		if l.houdini {
			return
		}
	}
	x.runDefers(fr, st, func(fr *Frame, st *State) { fr.pan(st, msg) })
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.callCommon(fr, st, d.call, d.fn, d.args, d.call.Signature(), "deferred call", func(st *State, _ Val) {
		f2 := fr.clone()
		x.runDefers(f2, st, k)
	})
}

// ---------------------------------------------------------------- simple instructions

func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		fr.env[in] = x.allocInstr(st, in.Type().Underlying().(*types.Pointer).Elem())
		fr.alloc = append(fr.alloc, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(fr, st, in)
	case *ssa.UnOp:
		fr.env[in] = x.unop(fr, st, in)
	case *ssa.ChangeInterface:
		a := x.val(fr, st, in.X)
		x.ifaceFact(st, a.one(), in.X.Type())
		fr.env[in] = a
	case *ssa.ChangeType:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.Convert:
		fr.env[in] = x.convert(fr, st, in)
	case *ssa.MakeInterface:
		fr.env[in] = Val{t: []*Term{x.makeIface(st, in.X.Type(), x.val(fr, st, in.X))}}
	case *ssa.Extract:
		v := x.val(fr, st, in.Tuple)
		lo, n := x.ti.tupleRange(in.Tuple.Type().(*types.Tuple), in.Index)
		fr.env[in] = Val{t: v.t[lo : lo+n]}
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		lo, n, _ := x.ti.fieldRange(in.X.Type(), in.Field)
		fr.env[in] = Val{t: v.t[lo : lo+n]}
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		a := x.toAddr(p, in.X.Type())
		if p.addr == nil {
			x.mustHold(fr, st, x.Neq(p.one(), x.Int(0)), "nil dereference at "+x.pos(in))
		}
		st0 := in.X.Type().Underlying().(*types.Pointer).Elem()
		lo, n, ft := x.ti.fieldRange(st0, in.Field)
		na := *a
		na.lo, na.n, na.vt = a.lo+lo, n, ft
		fr.env[in] = Val{addr: &na}
	case *ssa.IndexAddr:
		v := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index).one()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.mustHold(fr, st, x.And(x.Le(x.Int(0), idx), x.Lt(idx, v.t[2])), "index out of range at "+x.pos(in))
			fr.env[in] = Val{addr: x.elemAddr(u.Elem(), v.t[0], x.Add(v.t[1], idx))}
		case *types.Pointer: // pointer to array
			at := u.Elem().Underlying().(*types.Array)
			x.mustHold(fr, st, x.And(x.Le(x.Int(0), idx), x.Lt(idx, x.Int(at.Len()))), "index out of range at "+x.pos(in))
			fr.env[in] = Val{addr: x.elemAddr(at.Elem(), v.one(), idx)}
		default:
			unsup("IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		idx := x.val(fr, st, in.Index).one()
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.mustHold(fr, st, x.And(x.Le(x.Int(0), idx), x.Lt(idx, x.SLen(v.one()))), "index out of range at "+x.pos(in))
			r := x.SAt(v.one(), idx)
			x.rangeFact(st, r, 0, 255)
			fr.env[in] = Val{t: []*Term{r}}
			return
		}
		unsup("Index on %s", in.X.Type())
	case *ssa.Lookup:
		x.lookup(fr, st, in)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		fr.env[in] = Val{t: []*Term{x.newClosure(st, &Closure{fn: f, binds: bs})}}
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		r := x.alloc(st)
		dn, ds := x.ti.mapDom(m)
		_, inner, _ := arrParts(ds)
		x.write(st, dn, x.Store(x.read(st, dn, ds), r, x.ConstArr(inner, x.False())))
		ln, lsrt := x.ti.mapLen(m)
		x.write(st, ln, x.Store(x.read(st, ln, lsrt), r, x.Int(0)))
		fr.env[in] = Val{t: []*Term{r}}
	case *ssa.MakeSlice:
		n := x.val(fr, st, in.Len).one()
		cp := x.val(fr, st, in.Cap).one()
		x.mustHold(fr, st, x.And(x.Le(x.Int(0), n), x.Le(n, cp)), "makeslice: len out of range at "+x.pos(in))
		et := in.Type().Underlying().(*types.Slice).Elem()
		r := x.alloc(st)
		x.zeroArray(st, et, r)
		fr.env[in] = Val{t: []*Term{r, x.Int(0), n, cp}}
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		ref := x.val(fr, st, in.Map).one()
		x.mustHold(fr, st, x.Neq(ref, x.Int(0)), "assignment to a nil map at "+x.pos(in))
		x.mapSet(st, m, ref, x.val(fr, st, in.Key).one(), x.val(fr, st, in.Value))
	case *ssa.Range:
		x.itN++
		r := x.alloc(st)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic:
			x.write(st, "IT:pos", x.Store(x.read(st, "IT:pos", ArrSort(SInt, SInt)), r, x.Int(0)))
		case *types.Map:
			ks := x.ti.mapKeySort(u)
			n, s := "IT:seen:"+string(ks), ArrSort(SInt, ArrSort(ks, SBool))
			x.write(st, n, x.Store(x.read(st, n, s), r, x.ConstArr(ArrSort(ks, SBool), x.False())))
		default:
			unsup("range over %s", in.X.Type())
		}
		v := x.val(fr, st, in.X)
		fr.env[in] = Val{t: []*Term{r, v.one()}}
	case *ssa.Next:
		x.next(fr, st, in)
	case *ssa.Store:
		p := x.val(fr, st, in.Addr)
		a := x.toAddr(p, in.Addr.Type())
		if p.addr == nil {
			x.mustHold(fr, st, x.Neq(p.one(), x.Int(0)), "nil dereference at "+x.pos(in))
		}
		v := x.val(fr, st, in.Val)
		if v.addr != nil && v.t == nil {
			unsup("interior pointer stored at %s", x.pos(in))
		}
		x.store(st, a, v)
		if al, ok := in.Addr.(*ssa.Alloc); ok && p.addr == nil && constCell(al) {
			et := al.Type().Underlying().(*types.Pointer).Elem()
			st.consts = append(append([]keepRef(nil), st.consts...), keepRef{ref: p.one(), typ: et})
		}
	default:
		unsup("instruction %T (%s) at %s", in, in, x.pos(in))
	}
}

func (x *Exec) newClosure(st *State, c *Closure) *Term {
	r := x.alloc(st)
	// identity of the closure: a fresh reference
	x.closures[r] = c
	return r
}

func (x *Exec) elemAddr(et types.Type, arr, idx *Term) *Addr {
	return &Addr{kind: "E", typ: et, ref: arr, idx: idx, n: len(x.ti.Leaves(et)), vt: et}
}

func (x *Exec) zeroArray(st *State, et types.Type, r *Term) {
	for i, l := range x.ti.Leaves(et) {
		n, s := x.ti.elemComp(et, i)
		_, inner, _ := arrParts(s)
		x.write(st, n, x.Store(x.read(st, n, s), r, x.ConstArr(inner, x.zeroLeaf(l))))
	}
}

func (x *Exec) allocInstr(st *State, t types.Type) Val {
	r := x.alloc(st)
	if at, ok := t.Underlying().(*types.Array); ok {
		x.zeroArray(st, at.Elem(), r)
		return Val{t: []*Term{r}}
	}
	if isBuilder(t) {
		x.write(st, "SB:buf", x.Store(x.read(st, "SB:buf", ArrSort(SInt, SStr)), r, x.StrLit("")))
		return Val{t: []*Term{r}}
	}
	a := x.toAddr(Val{t: []*Term{r}}, types.NewPointer(t))
	x.store(st, a, x.zero(t))
	return Val{t: []*Term{r}}
}

func isBuilder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

func (x *Exec) mapSet(st *State, m *types.Map, ref, k *Term, v Val) {
	dn, ds := x.ti.mapDom(m)
	dom := x.read(st, dn, ds)
	d := x.Select(dom, ref)
	ln, lsrt := x.ti.mapLen(m)
	la := x.read(st, ln, lsrt)
	x.write(st, ln, x.Store(la, ref, x.Add(x.Select(la, ref), x.Ite(x.Select(d, k), x.Int(0), x.Int(1)))))
	x.write(st, dn, x.Store(dom, ref, x.Store(d, k, x.True())))
	for i := range v.t {
		vn, vs := x.ti.mapVal(m, i)
		va := x.read(st, vn, vs)
		x.write(st, vn, x.Store(va, ref, x.Store(x.Select(va, ref), k, v.t[i])))
	}
}

func (x *Exec) mapGet(st *State, m *types.Map, ref, k *Term) (Val, *Term) {
	dn, ds := x.ti.mapDom(m)
	has := x.And(x.Neq(ref, x.Int(0)), x.Select(x.Select(x.read(st, dn, ds), ref), k))
	var v Val
	for i := range x.ti.Leaves(m.Elem()) {
		vn, vs := x.ti.mapVal(m, i)
		v.t = append(v.t, x.Select(x.Select(x.read(st, vn, vs), ref), k))
	}
	return v, has
}

// mapLenOf: number of keys, with the fact that it is zero exactly when there is none.
func (x *Exec) mapLenOf(st *State, m *types.Map, ref *Term) *Term {
	ln, lsrt := x.ti.mapLen(m)
	l := x.Ite(x.Eq(ref, x.Int(0)), x.Int(0), x.Select(x.read(st, ln, lsrt), ref))
	dn, ds := x.ti.mapDom(m)
	d := x.Select(x.read(st, dn, ds), ref)
	x.assume(st, x.Le(x.Int(0), l))
	k := x.BV("k", x.ti.mapKeySort(m))
	x.assume(st, x.Implies(x.Eq(l, x.Int(0)), x.Forall([]*Term{k}, x.Or(x.Eq(ref, x.Int(0)), x.Not(x.Select(d, k))), []*Term{x.Select(d, k)})))
	w := x.Fresh("mapwit", x.ti.mapKeySort(m))
	x.assume(st, x.Implies(x.Lt(x.Int(0), l), x.And(x.Neq(ref, x.Int(0)), x.Select(d, w))))
	return l
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	m, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		// string index
		s := x.val(fr, st, in.X).one()
		idx := x.val(fr, st, in.Index).one()
		x.mustHold(fr, st, x.And(x.Le(x.Int(0), idx), x.Lt(idx, x.SLen(s))), "index out of range at "+x.pos(in))
		r := x.SAt(s, idx)
		x.rangeFact(st, r, 0, 255)
		fr.env[in] = Val{t: []*Term{r}}
		return
	}
	ref := x.val(fr, st, in.X).one()
	k := x.val(fr, st, in.Index).one()
	v, has := x.mapGet(st, m, ref, k)
	z := x.zero(m.Elem())
	var out Val
	for i := range v.t {
		out.t = append(out.t, x.Ite(has, v.t[i], z.t[i]))
	}
	// typing facts for the stored value
	s2 := st
	x.typeFacts(s2, m.Elem(), out)
	if in.CommaOk {
		out.t = append(out.t, has)
	}
	fr.env[in] = out
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) {
	it := x.val(fr, st, in.Iter)
	r := it.t[0]
	if in.IsString {
		s := it.t[1]
		pa := x.read(st, "IT:pos", ArrSort(SInt, SInt))
		p := x.Select(pa, r)
		ok := x.Lt(p, x.SLen(s))
		x.logCmp(p, x.SLen(s))
		w := x.Fun("rw", SInt, s, p)
		rv := x.Fun("rv", SInt, s, p)
		x.write(st, "IT:pos", x.Store(pa, r, x.Ite(ok, x.Add(p, w), p)))
		fr.env[in] = Val{t: []*Term{ok, p, rv}}
		return
	}
	rng := in.Iter.(*ssa.Range)
	m := rng.X.Type().Underlying().(*types.Map)
	ks := x.ti.mapKeySort(m)
	n, srt := "IT:seen:"+string(ks), ArrSort(SInt, ArrSort(ks, SBool))
	sa := x.read(st, n, srt)
	seen := x.Select(sa, r)
	ref := it.t[1]
	dn, ds := x.ti.mapDom(m)
	d := x.Select(x.read(st, dn, ds), ref)
	ok := x.Fresh("more", SBool)
	k := x.Fresh("key", ks)
	x.assume(st, x.Implies(ok, x.And(x.Neq(ref, x.Int(0)), x.Select(d, k), x.Not(x.Select(seen, k)))))
	bk := x.BV("k", ks)
	x.assume(st, x.Implies(x.Not(ok), x.Or(x.Eq(ref, x.Int(0)), x.Forall([]*Term{bk}, x.Implies(x.Select(d, bk), x.Select(seen, bk)), []*Term{x.Select(d, bk)}))))
	x.write(st, n, x.Store(sa, r, x.Ite(ok, x.Store(seen, k, x.True()), seen)))
	v, _ := x.mapGet(st, m, ref, k)
	tu := in.Type().(*types.Tuple)
	out := Val{t: []*Term{ok, k}}
	if len(x.ti.Leaves(tu.At(2).Type())) == len(v.t) {
		if b, isB := tu.At(2).Type().(*types.Basic); !isB || b.Kind() != types.Invalid {
			x.typeFacts(st, m.Elem(), v)
			out.t = append(out.t, v.t...)
		} else {
			out.t = append(out.t, x.Int(0))
		}
	} else {
		for range x.ti.Leaves(tu.At(2).Type()) {
			out.t = append(out.t, x.Int(0))
		}
	}
	fr.env[in] = out
}

func (x *Exec) sliceInstr(fr *Frame, st *State, in *ssa.Slice) Val {
	v := x.val(fr, st, in.X)
	var lo, hi *Term
	lo = x.Int(0)
	if in.Low != nil {
		lo = x.val(fr, st, in.Low).one()
	}
	if in.High != nil {
		hi = x.val(fr, st, in.High).one()
	}
	if in.Max != nil {
		unsup("3-index slice at %s", x.pos(in))
	}
	what := "slice bounds out of range at " + x.pos(in)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := v.one()
		n := x.SLen(s)
		if hi == nil {
			hi = n
		}
		x.mustHold(fr, st, x.And(x.Le(x.Int(0), lo), x.Le(lo, hi), x.Le(hi, n)), what)
		return Val{t: []*Term{x.SSub(s, lo, hi)}}
	case *types.Slice:
		if hi == nil {
			hi = v.t[2]
		}
		x.mustHold(fr, st, x.And(x.Le(x.Int(0), lo), x.Le(lo, hi), x.Le(hi, v.t[3])), what)
		return Val{t: []*Term{v.t[0], x.Add(v.t[1], lo), x.Sub(hi, lo), x.Sub(v.t[3], lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := x.Int(at.Len())
		if hi == nil {
			hi = n
		}
		x.mustHold(fr, st, x.And(x.Le(x.Int(0), lo), x.Le(lo, hi), x.Le(hi, n)), what)
		return Val{t: []*Term{v.one(), lo, x.Sub(hi, lo), x.Sub(n, lo)}}
	}
	unsup("slice of %s", in.X.Type())
	return Val{}
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		if v.addr == nil {
			x.mustHold(fr, st, x.Neq(v.one(), x.Int(0)), "nil dereference at "+x.pos(in))
		}
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		if _, isArr := et.Underlying().(*types.Array); isArr {
			unsup("array value at %s", x.pos(in))
		}
		return x.load(st, x.toAddr(v, in.X.Type()))
	case token.NOT:
		return Val{t: []*Term{x.Not(v.one())}}
	case token.SUB:
		if v.one().sort == SInt {
			return Val{t: []*Term{x.Scale(-1, v.one())}}
		}
		return Val{t: []*Term{x.Fun("fltneg", SFlt, v.one())}}
	}
	unsup("unary %s at %s", in.Op, x.pos(in))
	return Val{}
}

func (x *Exec) eqVals(t types.Type, a, b Val) *Term {
	var cs []*Term
	for i := range a.t {
		cs = append(cs, x.Eq(a.t[i], b.t[i]))
	}
	return x.And(cs...)
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if a.addr != nil || b.addr != nil {
			unsup("interior pointer comparison at %s", x.pos(in))
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			e = x.Eq(a.t[0], b.t[0]) // comparison with nil
		} else if types.IsInterface(in.X.Type()) != types.IsInterface(in.Y.Type()) {
			at, bt := a, b
			if !types.IsInterface(in.X.Type()) {
				at = Val{t: []*Term{x.makeIface(st, in.X.Type(), a)}}
			}
			if !types.IsInterface(in.Y.Type()) {
				bt = Val{t: []*Term{x.makeIface(st, in.Y.Type(), b)}}
			}
			e = x.Eq(at.one(), bt.one())
		} else {
			e = x.eqVals(in.X.Type(), a, b)
			if len(a.t) == 1 {
				x.logCmp(a.t[0], b.t[0])
			}
		}
		if in.Op == token.NEQ {
			e = x.Not(e)
		}
		return Val{t: []*Term{e}}
	}
	p, q := a.one(), b.one()
	one := func(t *Term) Val { return Val{t: []*Term{t}} }
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		x.logCmp(p, q)
	}
	switch p.sort {
	case SInt:
		switch in.Op {
		case token.ADD:
			return one(x.Add(p, q))
		case token.SUB:
			return one(x.Sub(p, q))
		case token.MUL:
			return one(x.Mul(p, q))
		case token.LSS:
			return one(x.Lt(p, q))
		case token.LEQ:
			return one(x.Le(p, q))
		case token.GTR:
			return one(x.Gt(p, q))
		case token.GEQ:
			return one(x.Ge(p, q))
		case token.QUO:
			x.mustHold(fr, st, x.Neq(q, x.Int(0)), "division by zero at "+x.pos(in))
			return one(x.Fun("goquo", SInt, p, q))
		case token.REM:
			x.mustHold(fr, st, x.Neq(q, x.Int(0)), "division by zero at "+x.pos(in))
			return one(x.Fun("gorem", SInt, p, q))
		case token.SHR, token.SHL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return one(x.Fun("goint"+in.Op.String(), SInt, p, q))
		}
	case SBool:
		switch in.Op {
		case token.AND:
			return one(x.And(p, q))
		case token.OR:
			return one(x.Or(p, q))
		}
	case SStr:
		switch in.Op {
		case token.ADD:
			return one(x.SCat(p, q))
		case token.LSS:
			return one(x.Fun("sLt", SBool, p, q))
		case token.GTR:
			return one(x.Fun("sLt", SBool, q, p))
		case token.LEQ:
			return one(x.Not(x.Fun("sLt", SBool, q, p)))
		case token.GEQ:
			return one(x.Not(x.Fun("sLt", SBool, p, q)))
		}
	case SFlt:
		switch in.Op {
		case token.LSS:
			return one(x.Fun("fLt", SBool, p, q))
		case token.GTR:
			return one(x.Fun("fLt", SBool, q, p))
		case token.LEQ:
			return one(x.Fun("fLe", SBool, p, q))
		case token.GEQ:
			return one(x.Fun("fLe", SBool, q, p))
		default:
			return one(x.Fun("flt"+in.Op.String(), SFlt, p, q))
		}
	}
	unsup("binary %s on %s at %s", in.Op, in.X.Type(), x.pos(in))
	return Val{}
}

func (x *Exec) logCmp(a, b *Term) {
	if x.cmpLog != nil && a.sort == SInt && !(a.op == "int" && b.op == "int") {
		x.cmpLog[[2]*Term{a, b}] = true
	}
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) Val {
	v := x.val(fr, st, in.X)
	from, to := x.ti.Leaves(in.X.Type()), x.ti.Leaves(in.Type())
	if len(from) == 1 && len(to) == 1 {
		if from[0].sort == to[0].sort {
			return v // integers are mathematical
		}
		if from[0].sort == SInt && to[0].sort == SStr {
			return Val{t: []*Term{x.Fun("srune", SStr, v.one())}}
		}
		if from[0].sort == SInt && to[0].sort == SFlt {
			return Val{t: []*Term{x.Fun("int2flt", SFlt, v.one())}}
		}
		if from[0].sort == SFlt && to[0].sort == SInt {
			return Val{t: []*Term{x.Fun("flt2int", SInt, v.one())}}
		}
	}
	if len(to) == 4 && len(from) == 1 && from[0].sort == SStr { // []byte(s)
		r := x.alloc(st)
		et := in.Type().Underlying().(*types.Slice).Elem()
		n, s := x.ti.elemComp(et, 0)
		arr := x.Fun("bytesOf:"+x.ti.key(et), ArrSort(SInt, SInt), v.one())
		x.write(st, n, x.Store(x.read(st, n, s), r, arr))
		return Val{t: []*Term{r, x.Int(0), x.SLen(v.one()), x.SLen(v.one())}}
	}
	unsup("conversion %s -> %s at %s", in.X.Type(), in.Type(), x.pos(in))
	return Val{}
}

// ---------------------------------------------------------------- misc helpers

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
