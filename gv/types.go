package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Leaf is one scalar component of a flattened Go value.
type Leaf struct {
	sort Sort
	path string     // e.g. ".token.Repr" or ".#len"
	typ  types.Type // Go type of the scalar (for slices: the slice type)
	part string     // "", "arr", "off", "len", "cap"
}

type TypeInfo struct {
	leaves    map[types.Type][]Leaf
	byStr     map[string][]Leaf
	tags      map[string]int64
	tagT      map[int64]types.Type
	repo      string // module path prefix
	byKeyType map[string]types.Type
}

func NewTypeInfo(repo string) *TypeInfo {
	return &TypeInfo{leaves: map[types.Type][]Leaf{}, byStr: map[string][]Leaf{}, tags: map[string]int64{}, tagT: map[int64]types.Type{}, repo: repo, byKeyType: map[string]types.Type{}}
}

func (ti *TypeInfo) key(t types.Type) string {
	if s, ok := types.Unalias(t).(*types.Signature); ok {
		// parameter names do not matter
		strip := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewParam(0, nil, "", types.Unalias(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		t = types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic())
	}
	return strings.ReplaceAll(types.TypeString(types.Unalias(t), nil), ti.repo, "~")
}

// tag numbers concrete dynamic types.
func (ti *TypeInfo) tag(t types.Type) int64 {
	k := ti.key(t)
	if n, ok := ti.tags[k]; ok {
		return n
	}
	n := int64(len(ti.tags) + 1)
	ti.tags[k] = n
	ti.tagT[n] = t
	return n
}

func (ti *TypeInfo) inRepo(t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return true
		}
		return strings.HasPrefix(t.Obj().Pkg().Path(), ti.repo)
	}
	return true
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// opaqueStruct: struct types of foreign packages are one opaque Int.
func (ti *TypeInfo) opaqueStruct(t types.Type) bool {
	_, isStruct := t.Underlying().(*types.Struct)
	return isStruct && !ti.inRepo(t) && t.String() != "go/scanner.Scanner" // counts its errors in a field
}

func (ti *TypeInfo) Leaves(t types.Type) []Leaf {
	if l, ok := ti.leaves[t]; ok {
		return l
	}
	k := ti.key(t)
	if l, ok := ti.byStr[k]; ok {
		ti.leaves[t] = l
		return l
	}
	l := ti.compute(t)
	ti.byKeyType[k] = t
	ti.leaves[t] = l
	ti.byStr[k] = l
	return l
}

func (ti *TypeInfo) compute(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{SBool, "", t, ""}}
		case u.Info()&types.IsInteger != 0 || u.Kind() == types.UntypedRune:
			return []Leaf{{SInt, "", t, ""}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{SStr, "", t, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{SFlt, "", t, ""}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{SAny, "", t, ""}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{SInt, "", t, ""}}
		case u.Kind() == types.Invalid:
			// ssa range iterators and the like
			return []Leaf{{SInt, "", t, ""}}
		}
		unsup("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return []Leaf{{SInt, "", t, ""}}
	case *types.Interface:
		if tp, ok := t.(*types.TypeParam); ok {
			unsup("type parameter %s", tp)
		}
		return []Leaf{{SAny, "", t, ""}}
	case *types.Slice:
		return []Leaf{{SInt, "#arr", t, "arr"}, {SInt, "#off", t, "off"}, {SInt, "#len", t, "len"}, {SInt, "#cap", t, "cap"}}
	case *types.Struct:
		if ti.opaqueStruct(t) {
			return []Leaf{{SInt, "", t, ""}}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range ti.Leaves(f.Type()) {
				out = append(out, Leaf{l.sort, "." + f.Name() + l.path, l.typ, l.part})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, ti.Leaves(u.At(i).Type())...)
		}
		return out
	case *types.Array:
		return []Leaf{{SInt, "#array", t, ""}} // identity of its backing store
	}
	unsup("type %s", t)
	return nil
}

// fieldRange gives the leaf range of field i of struct type t.
func (ti *TypeInfo) fieldRange(t types.Type, i int) (lo, n int, ft types.Type) {
	st := t.Underlying().(*types.Struct)
	if ti.opaqueStruct(t) {
		unsup("field of foreign struct %s", t)
	}
	for j := 0; j < i; j++ {
		lo += len(ti.Leaves(st.Field(j).Type()))
	}
	ft = st.Field(i).Type()
	return lo, len(ti.Leaves(ft)), ft
}

func (ti *TypeInfo) tupleRange(t *types.Tuple, i int) (lo, n int) {
	for j := 0; j < i; j++ {
		lo += len(ti.Leaves(t.At(j).Type()))
	}
	return lo, len(ti.Leaves(t.At(i).Type()))
}

// heap component names and sorts
func (ti *TypeInfo) objComp(t types.Type, i int) (string, Sort) {
	l := ti.Leaves(t)[i]
	return "O:" + ti.key(t) + l.path, ArrSort(SInt, l.sort)
}

func (ti *TypeInfo) elemComp(t types.Type, i int) (string, Sort) {
	l := ti.Leaves(t)[i]
	return "E:" + ti.key(t) + l.path, ArrSort(SInt, ArrSort(SInt, l.sort))
}

func (ti *TypeInfo) mapKeySort(m *types.Map) Sort {
	ls := ti.Leaves(m.Key())
	if len(ls) != 1 {
		unsup("map key type %s", m.Key())
	}
	return ls[0].sort
}

func (ti *TypeInfo) mapDom(m *types.Map) (string, Sort) {
	return "M:" + ti.key(m) + ".dom", ArrSort(SInt, ArrSort(ti.mapKeySort(m), SBool))
}
func (ti *TypeInfo) mapVal(m *types.Map, i int) (string, Sort) {
	l := ti.Leaves(m.Elem())[i]
	return "M:" + ti.key(m) + ".val" + l.path, ArrSort(SInt, ArrSort(ti.mapKeySort(m), l.sort))
}
func (ti *TypeInfo) mapLen(m *types.Map) (string, Sort) {
	return "M:" + ti.key(m) + ".len", ArrSort(SInt, SInt)
}

// ---------------------------------------------------------------- values

// Addr is an lvalue.
type Addr struct {
	kind string // "O" object at ref, "E" element of a backing array, "S" state-local scalar group
	typ  types.Type
	key  string // override of the component key (globals)
	ref  *Term
	idx  *Term
	lo   int
	n    int
	vt   types.Type // type of the value at the address
}

// Val is a flattened Go value.
type Val struct {
	t    []*Term
	addr *Addr // for pointers to parts of objects
}

func (v Val) one() *Term {
	if len(v.t) != 1 {
		panic(fmt.Sprintf("scalar expected, %d leaves", len(v.t)))
	}
	return v.t[0]
}

type Closure struct {
	con   *Contract
	fn    *ssa.Function
	binds []Val
	// bound method values
	recv   *Val
	method *types.Func
	core   *Val // identity wrap: call core with (ctx, node)
	node   *Val
}
