package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/grepsuzette/joeson"

type World struct {
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   map[string]*types.Package
	specs  *Specs
	fnCon  map[*ssa.Function]*Contract
	fnAsp  map[string]map[*ssa.Function]*Contract
	ifCon  map[string]*Contract // "Parser.parse"
	ftCon  map[string]*Contract // type string
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	mu     sync.Mutex
	errs   map[string]string // contract id -> resolution error
	tiKey  *TypeInfo
	files  map[string]string
	srcDir string
}

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	index  int
}

func loadWorld(dir, models string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports, Dir: dir, Env: env}
	// models of library functions, written in Go, are loaded as one more file of the package
	if b, err := os.ReadFile(models); err == nil {
		d, err := filepath.Abs(dir)
		if err != nil {
			return nil, err
		}
		cfg.Overlay = map[string][]byte{filepath.Join(d, "zz_verif_models.go"): b}
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w := &World{fset: prog.Fset, prog: prog, pkgs: map[string]*types.Package{}, fnCon: map[*ssa.Function]*Contract{}, fnAsp: map[string]map[*ssa.Function]*Contract{}, ifCon: map[string]*Contract{}, ftCon: map[string]*Contract{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, errs: map[string]string{}, tiKey: NewTypeInfo(repoModule), srcDir: dir}
	for _, p := range ps {
		w.pkgs[p.PkgPath] = p.Types
	}
	return w, nil
}

func (w *World) pkgOf(path string) *types.Package {
	p := w.anyPkg(path)
	if p == nil {
		panic(specErr{"package " + path + " not found"})
	}
	return p
}

func (w *World) inRepo(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	p := f.Package()
	if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), repoModule)
	}
	if p == nil {
		// synthetic wrappers, instances
		if f.Signature.Recv() != nil {
			t := f.Signature.Recv().Type()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), repoModule)
			}
		}
		if f.Parent() != nil {
			return w.inRepo(f.Parent())
		}
		return strings.Contains(f.String(), repoModule)
	}
	return strings.HasPrefix(p.Pkg.Path(), repoModule)
}

// typ resolves a Go type expression in a package's scope.
func (w *World) typ(pkg *types.Package, s string) types.Type {
	s = strings.TrimSpace(s)
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.typ0(pkg, s)
}

// tIter is the type of metavariables ranging over map iterations.
var tIter = types.NewNamed(types.NewTypeName(token.NoPos, nil, "iter", nil), types.Typ[types.Int], nil)

func (w *World) metaTyp(pkg *types.Package, s string) types.Type {
	if s == "iter" {
		return tIter
	}
	return w.typ(pkg, s)
}

func (w *World) typ0(pkg *types.Package, s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(w.typ0(pkg, s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(w.typ0(pkg, s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(w.typ0(pkg, s[4:i]), w.typ0(pkg, s[i+1:]))
				}
			}
		}
	}
	if s == "func" { // some function; functions are told apart by identity only
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	base, targs := s, ""
	if i := strings.IndexByte(s, '['); i > 0 && strings.HasSuffix(s, "]") {
		base, targs = s[:i], s[i+1:len(s)-1]
	}
	var obj types.Object
	if p, n, ok := strings.Cut(base, "."); ok {
		for _, q := range w.allPkgs() {
			if q.Name() == p {
				if o := q.Scope().Lookup(n); o != nil {
					obj = o
					break
				}
			}
		}
	} else {
		obj = pkg.Scope().Lookup(base)
		if obj == nil {
			obj = types.Universe.Lookup(base)
		}
	}
	tn, ok := obj.(*types.TypeName)
	if !ok {
		panic(specErr{"unknown type " + s + " in " + pkg.Path()})
	}
	t := tn.Type()
	if targs != "" {
		var ts []types.Type
		for _, a := range splitTop(targs) {
			ts = append(ts, w.typ0(pkg, strings.TrimSpace(a)))
		}
		r, err := types.Instantiate(nil, t, ts, false)
		if err != nil {
			panic(specErr{err.Error()})
		}
		t = r
	}
	return t
}

// anyPkg: a package of the repository or one it depends on.
func (w *World) anyPkg(path string) *types.Package {
	if p := w.pkgs[path]; p != nil {
		return p
	}
	for _, p := range w.allPkgs() {
		if p.Path() == path {
			return p
		}
	}
	return nil
}

// stub: the model in Go that stands for a library function.
func (w *World) stub(f *ssa.Function) *ssa.Function {
	n, ok := w.specs.stubs[f.String()]
	if !ok {
		return nil
	}
	p := w.prog.ImportedPackage(repoModule)
	if p == nil {
		return nil
	}
	return p.Func(n)
}

func (w *World) allPkgs() []*types.Package {
	seen := map[*types.Package]bool{}
	var out []*types.Package
	var rec func(p *types.Package)
	rec = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		out = append(out, p)
		for _, i := range p.Imports() {
			rec(i)
		}
	}
	var ks []string
	for k := range w.pkgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rec(w.pkgs[k])
	}
	return out
}

func (w *World) ghostElem(g string) types.Type {
	t, ok := w.specs.ghosts[g]
	if !ok {
		panic(specErr{"unknown ghost " + g})
	}
	if strings.HasPrefix(t, "map[int]") {
		return w.typ(w.pkgOf(w.specs.ghostPkg), t[8:])
	}
	panic(specErr{"ghost " + g + " is not a map"})
}

func (w *World) ghostType(g string) types.Type {
	return w.typ(w.pkgOf(w.specs.ghostPkg), w.specs.ghosts[g])
}

// method finds the implementation of m for a concrete type.
func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// resolve binds contracts to functions, interfaces and function types.
func (w *World) resolve(s *Specs) {
	w.specs = s
	seen := map[string]int{}
	for _, c := range s.contracts {
		if c.id == "" {
			c.id = c.name
			if strings.HasSuffix(c.pkg, "/helpers") {
				c.id = "helpers." + c.name
			} else if c.pkg != repoModule {
				c.id = filepath.Base(c.pkg) + "." + c.name
			}
			c.id += c.at()
		}
		seen[c.id]++
		if seen[c.id] > 1 {
			c.id = fmt.Sprintf("%s~%d", c.id, seen[c.id])
		}
		switch c.kind {
		case "iface":
			w.ifCon[c.name+c.at()] = c
		case "functype":
			t := func() (t types.Type) {
				defer func() { recover() }()
				return w.functypeOf(c)
			}()
			if t != nil {
				w.ftCon[w.tiKey.key(t)+c.at()] = c
			} else {
				w.ftCon[c.name+c.at()] = c
			}
		case "func":
			f, err := w.findFunc(c)
			if err != nil {
				w.errs[c.id] = err.Error()
				continue
			}
			m := w.fnCon
			if c.aspect != "" {
				if m = w.fnAsp[c.aspect]; m == nil {
					m = map[*ssa.Function]*Contract{}
					w.fnAsp[c.aspect] = m
				}
			}
			if _, dup := m[f]; !dup || m[f].noCall {
				m[f] = c
			}
		}
	}
}

func (w *World) functypeOf(c *Contract) types.Type {
	if strings.HasPrefix(c.name, "func(") {
		tv, err := types.Eval(w.fset, w.pkgOf(c.pkg), token.NoPos, c.name)
		if err != nil {
			return nil
		}
		return tv.Type
	}
	return w.typ(w.pkgOf(c.pkg), c.name)
}

func (w *World) findFunc(c *Contract) (*ssa.Function, error) {
	pkg := w.pkgs[c.pkg]
	if pkg == nil && c.trusted {
		pkg = w.anyPkg(c.pkg)
	}
	if pkg == nil {
		return nil, fmt.Errorf("package %s not found", c.pkg)
	}
	n := c.name
	if strings.HasPrefix(n, "(") {
		k := strings.Index(n, ")")
		tn, mn := n[1:k], strings.TrimPrefix(n[k+1:], ".")
		var t types.Type
		if err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%v", r)
				}
			}()
			t = w.typ(pkg, tn)
			return nil
		}(); err != nil {
			return nil, err
		}
		ms := w.prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(pkg, mn)
		if sel == nil {
			return nil, fmt.Errorf("method %s of %s not found", mn, tn)
		}
		f := w.prog.MethodValue(sel)
		if f == nil {
			return nil, fmt.Errorf("method %s of %s has no body", mn, tn)
		}
		return f, nil
	}
	if i := strings.IndexByte(n, '['); i > 0 {
		// instance of a generic function
		base, targ := n[:i], w.typ(pkg, n[i+1:len(n)-1])
		gp := pkg
		if p, q, ok := strings.Cut(base, "."); ok {
			base = q
			for _, o := range w.allPkgs() {
				if o.Name() == p {
					gp = o
				}
			}
		}
		for f := range ssautil.AllFunctions(w.prog) {
			if f.Origin() != nil && f.Origin().Pkg != nil && f.Origin().Pkg.Pkg == gp && f.Origin().Name() == base &&
				len(f.TypeArgs()) == 1 && types.Identical(f.TypeArgs()[0], targ) {
				return f, nil
			}
		}
		return nil, fmt.Errorf("instance %s not found", n)
	}
	sp := w.prog.Package(pkg)
	if sp == nil {
		return nil, fmt.Errorf("package %s not built", c.pkg)
	}
	f := sp.Func(n)
	if f == nil {
		return nil, fmt.Errorf("function %s not found", n)
	}
	return f, nil
}

// at: the suffix that names the aspect of a contract.
func (c *Contract) at() string {
	if c.aspect == "" {
		return ""
	}
	return "@" + c.aspect
}

// funcContract: the contract of f in an aspect, or else the base contract.
func (w *World) funcContract(f *ssa.Function, aspect string) *Contract {
	if c, ok := w.fnAsp[aspect][f]; ok {
		return c
	}
	return w.fnCon[f]
}

func pickContract(m map[string]*Contract, key, aspect string) *Contract {
	if aspect != "" {
		if c, ok := m[key+"@"+aspect]; ok {
			return c
		}
	}
	return m[key]
}

func (w *World) funcTypeContract(t types.Type, aspect string) *Contract {
	if c := pickContract(w.ftCon, w.tiKey.key(t), aspect); c != nil {
		return c
	}
	return pickContract(w.ftCon, w.tiKey.key(t.Underlying()), aspect)
}

func (w *World) ifaceContract(it types.Type, m *types.Func, aspect string) *Contract {
	if n, ok := types.Unalias(it).(*types.Named); ok {
		if c := pickContract(w.ifCon, n.Obj().Name()+"."+m.Name(), aspect); c != nil {
			return c
		}
	}
	// the interface that declares the method
	if sig, ok := m.Type().(*types.Signature); ok && sig.Recv() != nil {
		if n, ok := types.Unalias(sig.Recv().Type()).(*types.Named); ok {
			if c := pickContract(w.ifCon, n.Obj().Name()+"."+m.Name(), aspect); c != nil {
				return c
			}
		}
	}
	return nil
}

// loopAt: the natural loop whose header is b, if any.
func (w *World) loopAt(f *ssa.Function, b *ssa.BasicBlock) *Loop {
	w.mu.Lock()
	defer w.mu.Unlock()
	ls, ok := w.loops[f]
	if !ok {
		ls = map[*ssa.BasicBlock]*Loop{}
		for _, t := range f.Blocks {
			for _, h := range t.Succs {
				if h.Dominates(t) {
					l := ls[h]
					if l == nil {
						l = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
						ls[h] = l
					}
					var add func(b *ssa.BasicBlock)
					add = func(b *ssa.BasicBlock) {
						if l.body[b] {
							return
						}
						l.body[b] = true
						for _, p := range b.Preds {
							add(p)
						}
					}
					add(t)
				}
			}
		}
		w.loops[f] = ls
	}
	return ls[b]
}

type conSig struct {
	ptypes []types.Type
	res    *types.Tuple
}

// ufContract finds the contract introducing an uninterpreted result function.
func (w *World) ufContract(name string) (*Contract, *conSig) {
	for _, c := range w.specs.contracts {
		if c.ufname != name {
			continue
		}
		if s := w.sigOf(c); s != nil {
			return c, s
		}
	}
	return nil, nil
}

func (w *World) sigOf(c *Contract) *conSig {
	switch c.kind {
	case "func":
		f, err := w.findFunc(c)
		if err != nil {
			return nil
		}
		s := &conSig{res: f.Signature.Results(), ptypes: sigParams(f.Signature)}
		return s
	case "functype":
		t := w.functypeOf(c)
		if t == nil {
			return nil
		}
		sig := t.Underlying().(*types.Signature)
		s := &conSig{res: sig.Results(), ptypes: []types.Type{t}}
		for j := 0; j < sig.Params().Len(); j++ {
			s.ptypes = append(s.ptypes, sig.Params().At(j).Type())
		}
		return s
	case "iface":
		tn, mn, _ := strings.Cut(c.name, ".")
		it := w.typ(w.pkgOf(c.pkg), tn)
		u, ok := it.Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for i := 0; i < u.NumMethods(); i++ {
			m := u.Method(i)
			if m.Name() == mn {
				sig := m.Type().(*types.Signature)
				s := &conSig{res: sig.Results(), ptypes: []types.Type{it}}
				for j := 0; j < sig.Params().Len(); j++ {
					s.ptypes = append(s.ptypes, sig.Params().At(j).Type())
				}
				return s
			}
		}
	}
	return nil
}
