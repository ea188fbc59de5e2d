package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Memory that code outside the function at hand cannot reach: cells of captured variables that are
// assigned once, and arrays of local slices that have not escaped. A callee's "modifies" leaves it alone.

type keepRef struct {
	ref   *Term
	typ   types.Type
	isMap bool
	elem  bool // array of typ elements, otherwise an object of type typ
}

type kept struct {
	n   string
	s   Sort
	ref *Term
	val *Term
}

func (x *Exec) saveKept(st *State, keeps func(string) bool) []kept {
	var out []kept
	one := func(k keepRef) {
		if mt, ok := k.typ.Underlying().(*types.Map); ok && k.isMap {
			add := func(n string, s Sort) {
				if keeps == nil || !keeps(n) {
					out = append(out, kept{n, s, k.ref, x.Select(x.read(st, n, s), k.ref)})
				}
			}
			add(x.ti.mapDom(mt))
			add(x.ti.mapLen(mt))
			for j := range x.ti.Leaves(mt.Elem()) {
				add(x.ti.mapVal(mt, j))
			}
			return
		}
		for j := range x.ti.Leaves(k.typ) {
			var n string
			var s Sort
			if k.elem {
				n, s = x.ti.elemComp(k.typ, j)
			} else {
				n, s = x.ti.objComp(k.typ, j)
			}
			if keeps != nil && keeps(n) {
				continue
			}
			out = append(out, kept{n, s, k.ref, x.Select(x.read(st, n, s), k.ref)})
		}
	}
	for _, k := range st.consts {
		one(k)
	}
	for _, k := range st.keep {
		one(k)
	}
	return out
}

func (x *Exec) restoreKept(st *State, ks []kept) {
	for _, k := range ks {
		x.write(st, k.n, x.Store(x.read(st, k.n, k.s), k.ref, k.val))
	}
}

var privMu sync.Mutex
var constCells = map[*ssa.Alloc]bool{}

// constCell: the variable is assigned exactly once, where it is declared.
func constCell(a *ssa.Alloc) bool {
	privMu.Lock()
	defer privMu.Unlock()
	if v, ok := constCells[a]; ok {
		return v
	}
	v := onlyRead(a, true)
	constCells[a] = v
	return v
}

func onlyRead(v ssa.Value, root bool) bool {
	stores := 0
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v || r.Val == v || !root {
				return false
			}
			stores++
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(r, false) {
				return false
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !onlyRead(f.FreeVars[i], false) {
					return false
				}
			}
		default:
			return false
		}
	}
	if !root {
		return true
	}
	if stores != 1 {
		return false
	}
	// the store is in the block of the declaration, so it runs once per variable
	a := v.(*ssa.Alloc)
	for _, r := range *v.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Block() != a.Block() {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- local slices

type sliceGroup struct {
	vals    []ssa.Value
	elem    types.Type
	escapes []ssa.Instruction
}

var groupMemo = map[*ssa.Function][]*sliceGroup{}

func sliceGroups(f *ssa.Function) []*sliceGroup {
	privMu.Lock()
	defer privMu.Unlock()
	if g, ok := groupMemo[f]; ok {
		return g
	}
	parent := map[ssa.Value]ssa.Value{}
	var find func(v ssa.Value) ssa.Value
	find = func(v ssa.Value) ssa.Value {
		p, ok := parent[v]
		if !ok {
			parent[v] = v
			return v
		}
		if p == v {
			return v
		}
		r := find(p)
		parent[v] = r
		return r
	}
	union := func(a, b ssa.Value) {
		if _, c := b.(*ssa.Const); c {
			return
		}
		parent[find(a)] = find(b)
	}
	isSlice := func(v ssa.Value) bool { _, ok := v.Type().Underlying().(*types.Slice); return ok }
	bad := map[ssa.Value]bool{}
	var all []ssa.Value
	localArray := func(a *ssa.Alloc) bool {
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				if !elemAccess(r) {
					return false
				}
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	for _, p := range f.Params {
		if isSlice(p) {
			all, bad[p] = append(all, p), true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !isSlice(v) {
				continue
			}
			all = append(all, v)
			find(v)
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					union(v, e)
				}
			case *ssa.ChangeType:
				union(v, in.X)
			case *ssa.Slice:
				if isSlice(in.X) {
					union(v, in.X)
				} else if a, ok := in.X.(*ssa.Alloc); !ok || !localArray(a) {
					bad[v] = true
				}
			case *ssa.MakeSlice:
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					union(v, in.Call.Args[0])
				} else {
					bad[v] = true
				}
			default:
				bad[v] = true
			}
		}
	}
	gs := map[ssa.Value]*sliceGroup{}
	var order []*sliceGroup
	badRoot := map[ssa.Value]bool{}
	for _, v := range all {
		if bad[v] {
			badRoot[find(v)] = true
		}
	}
	for v := range parent { // group members that are not values of this function (free variables)
		known := false
		for _, w := range all {
			known = known || w == v
		}
		if !known {
			badRoot[find(v)] = true
		}
	}
	for _, v := range all {
		r := find(v)
		if badRoot[r] {
			continue
		}
		g := gs[r]
		if g == nil {
			g = &sliceGroup{elem: v.Type().Underlying().(*types.Slice).Elem()}
			gs[r] = g
			order = append(order, g)
		}
		g.vals = append(g.vals, v)
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.ChangeType, *ssa.Slice:
			case *ssa.IndexAddr:
				if u.X != v || !elemAccess(u) {
					g.escapes = append(g.escapes, u)
				}
			case *ssa.Call:
				if bi, ok := u.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "copy") {
					continue
				}
				g.escapes = append(g.escapes, u)
			default:
				g.escapes = append(g.escapes, u)
			}
		}
	}
	groupMemo[f] = order
	return order
}

// elemAccess: the address is only read from or written to.
func elemAccess(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != ia {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// reaches: control can go from just after instruction a to instruction b.
func reaches(a, b ssa.Instruction) bool {
	ab, bb := a.Block(), b.Block()
	if ab == bb {
		for _, in := range ab.Instrs {
			if in == b {
				break
			}
			if in == a {
				return true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), ab.Succs...)
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		if seen[c] {
			continue
		}
		seen[c] = true
		if c == bb {
			return true
		}
		work = append(work, c.Succs...)
	}
	return false
}

// privateArrays: arrays of local slices nobody else can reach while instruction in runs.
func (x *Exec) privateArrays(fr *Frame, in ssa.Instruction) []keepRef {
	var out []keepRef
	seen := map[*Term]bool{}
	for _, g := range sliceGroups(fr.fn) {
		ok := true
		for _, e := range g.escapes {
			if e == in || reaches(e, in) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, v := range g.vals {
			val, have := fr.env[v]
			if !have || val.addr != nil || len(val.t) == 0 || seen[val.t[0]] || (val.t[0].op == "int") {
				continue
			}
			seen[val.t[0]] = true
			out = append(out, keepRef{ref: val.t[0], typ: g.elem, elem: true})
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, i := range b.Instrs {
			m, ok := i.(*ssa.MakeMap)
			if !ok {
				continue
			}
			if val, have := fr.env[m]; have && !mapEscapes(m, in) {
				out = append(out, keepRef{ref: val.t[0], typ: m.Type(), isMap: true})
			}
		}
	}
	return out
}

// mapEscapes: someone else may hold the map when instruction at runs.
func mapEscapes(m *ssa.MakeMap, at ssa.Instruction) bool {
	for _, u := range *m.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			if u.Map == m && u.Value != m && u.Key != m {
				continue
			}
		case *ssa.Lookup:
			if u.X == m && u.Index != m {
				continue
			}
		case *ssa.Range, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if bi, ok := u.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "delete") {
				continue
			}
		}
		if u == at || reaches(u, at) {
			return true
		}
	}
	return false
}
