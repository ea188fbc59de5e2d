package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// ---------------------------------------------------------------- expression syntax

type Ex struct {
	op    string // ident, int, str, true, false, nil, call, field, index, slice, unary, binary, cond, forall, exists, old, as, typeis, meta, deref
	s     string
	n     int64
	args  []*Ex
	binds []Bind
	trigs [][]*Ex
	src   string
}

type Bind struct {
	name string
	typ  string
}

type lexer struct {
	src  string
	pos  int
	tok  string
	kind string // id, int, str, op, meta, eof
	file string
}

func (l *lexer) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: %s (near %q in %q)", l.file, fmt.Sprintf(f, a...), l.tok, l.src)})
}

type specErr struct{ msg string }

var ops3 = []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", ":="}

func (l *lexer) next() {
	for l.pos < len(l.src) && unicode.IsSpace(rune(l.src[l.pos])) {
		l.pos++
	}
	if l.pos >= len(l.src) {
		l.kind, l.tok = "eof", ""
		return
	}
	c := l.src[l.pos]
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	switch {
	case c >= '0' && c <= '9':
		j := l.pos
		for j < len(l.src) && isId(l.src[j]) {
			j++
		}
		l.kind, l.tok = "int", l.src[l.pos:j]
		l.pos = j
	case isId(c):
		j := l.pos
		for j < len(l.src) && isId(l.src[j]) {
			j++
		}
		l.kind, l.tok = "id", l.src[l.pos:j]
		l.pos = j
	case c == '?' && l.pos+1 < len(l.src) && l.src[l.pos+1] != ' ' && isId(l.src[l.pos+1]):
		j := l.pos + 1
		for j < len(l.src) && isId(l.src[j]) {
			j++
		}
		l.kind, l.tok = "meta", l.src[l.pos:j]
		l.pos = j
	case c == '"':
		j := l.pos + 1
		for j < len(l.src) && l.src[j] != '"' {
			if l.src[j] == '\\' {
				j++
			}
			j++
		}
		s, err := strconv.Unquote(l.src[l.pos : j+1])
		if err != nil {
			l.fail("bad string")
		}
		l.kind, l.tok = "str", s
		l.pos = j + 1
	case c == '\'':
		j := l.pos + 1
		for j < len(l.src) && l.src[j] != '\'' {
			if l.src[j] == '\\' {
				j++
			}
			j++
		}
		r, _, _, err := strconv.UnquoteChar(l.src[l.pos+1:j], '\'')
		if err != nil {
			l.fail("bad rune")
		}
		l.kind, l.tok = "int", strconv.Itoa(int(r))
		l.pos = j + 1
	default:
		for _, o := range ops3 {
			if strings.HasPrefix(l.src[l.pos:], o) {
				l.kind, l.tok = "op", o
				l.pos += len(o)
				return
			}
		}
		l.kind, l.tok = "op", string(c)
		l.pos++
	}
}

func (l *lexer) accept(t string) bool {
	if (l.kind == "op" || l.kind == "id") && l.tok == t {
		l.next()
		return true
	}
	return false
}
func (l *lexer) expect(t string) {
	if !l.accept(t) {
		l.fail("expected %q", t)
	}
}

func parseEx(src, file string) *Ex {
	l := &lexer{src: src, file: file}
	l.next()
	e := l.expr(0)
	if l.kind != "eof" {
		l.fail("trailing input")
	}
	e.src = strings.Join(strings.Fields(src), " ")
	return e
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (l *lexer) expr(min int) *Ex {
	lhs := l.unary()
	for {
		if l.kind == "op" && l.tok == "?" && min <= 3 {
			l.next()
			a := l.expr(3)
			l.expect(":")
			b := l.expr(3)
			lhs = &Ex{op: "cond", args: []*Ex{lhs, a, b}}
			continue
		}
		p, ok := prec[l.tok]
		if l.kind != "op" || !ok || p < min {
			return lhs
		}
		o := l.tok
		l.next()
		np := p + 1
		if o == "==>" {
			np = p
		}
		rhs := l.expr(np)
		// chained comparison a <= b < c
		if p == 6 && l.kind == "op" && prec[l.tok] == 6 {
			c := &Ex{op: "binary", s: o, args: []*Ex{lhs, rhs}}
			for l.kind == "op" && prec[l.tok] == 6 {
				o2 := l.tok
				l.next()
				r2 := l.expr(np)
				c = &Ex{op: "binary", s: "&&", args: []*Ex{c, {op: "binary", s: o2, args: []*Ex{rhs, r2}}}}
				rhs = r2
			}
			lhs = c
			continue
		}
		lhs = &Ex{op: "binary", s: o, args: []*Ex{lhs, rhs}}
	}
}

func (l *lexer) unary() *Ex {
	if l.kind == "op" && (l.tok == "!" || l.tok == "-" || l.tok == "*") {
		o := l.tok
		l.next()
		return &Ex{op: "unary", s: o, args: []*Ex{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(e *Ex) *Ex {
	for {
		switch {
		case l.accept("."):
			n := l.tok
			if l.kind != "id" {
				l.fail("field name")
			}
			l.next()
			if l.kind == "op" && l.tok == "(" {
				l.next()
				args := []*Ex{e}
				for !l.accept(")") {
					args = append(args, l.expr(0))
					if !l.accept(",") {
						l.expect(")")
						break
					}
				}
				e = &Ex{op: "call", s: n, args: args}
				continue
			}
			e = &Ex{op: "field", s: n, args: []*Ex{e}}
		case l.accept("["):
			var lo, hi *Ex
			if l.accept(":") {
				if !(l.kind == "op" && l.tok == "]") {
					hi = l.expr(0)
				}
				l.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, lo, hi}}
				continue
			}
			lo = l.expr(0)
			if l.accept(":") {
				if !(l.kind == "op" && l.tok == "]") {
					hi = l.expr(0)
				}
				l.expect("]")
				e = &Ex{op: "slice", args: []*Ex{e, lo, hi}}
				continue
			}
			l.expect("]")
			e = &Ex{op: "index", args: []*Ex{e, lo}}
		default:
			return e
		}
	}
}

// typeText reads a type up to one of the stop tokens at depth 0.
func (l *lexer) typeText(stops string) string {
	// rescan raw text from the start of the current token
	start := l.pos - len(l.tok)
	depth := 0
	i := start
	for i < len(l.src) {
		c := l.src[i]
		if depth == 0 && strings.IndexByte(stops, c) >= 0 && !(c == '.' && i > start && isLetter(l.src[i-1]) && i+1 < len(l.src) && isLetter(l.src[i+1])) {
			break
		}
		if c == '(' || c == '[' {
			depth++
		}
		if c == ')' || c == ']' {
			depth--
		}
		i++
	}
	t := strings.TrimSpace(l.src[start:i])
	l.pos = i
	l.next()
	return t
}

func isLetter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (l *lexer) primary() *Ex {
	switch l.kind {
	case "int":
		n, err := strconv.ParseInt(l.tok, 0, 64)
		if err != nil {
			l.fail("integer")
		}
		l.next()
		return &Ex{op: "int", n: n}
	case "str":
		s := l.tok
		l.next()
		return &Ex{op: "str", s: s}
	case "meta":
		s := l.tok
		l.next()
		typ := ""
		if l.kind == "op" && l.tok == ":" && l.pos < len(l.src) && l.src[l.pos] != ' ' {
			l.next()
			typ = l.typeText(" ,)]=<>!&|+-.;")
		}
		return &Ex{op: "meta", s: s, binds: []Bind{{s, typ}}}
	case "op":
		if l.accept("(") {
			e := l.expr(0)
			l.expect(")")
			return e
		}
	case "id":
		n := l.tok
		switch n {
		case "true", "false", "nil":
			l.next()
			return &Ex{op: n}
		case "forall", "exists":
			l.next()
			e := &Ex{op: n}
			for {
				b := Bind{name: l.tok}
				if l.kind != "id" {
					l.fail("binder")
				}
				l.next()
				if l.accept(":") {
					b.typ = l.typeText(",.{: ")
				} else {
					b.typ = "int"
				}
				e.binds = append(e.binds, b)
				if l.accept(",") {
					continue
				}
				break
			}
			for l.accept("{") {
				var tg []*Ex
				for {
					tg = append(tg, l.expr(0))
					if l.accept("}") {
						break
					}
					l.expect(",")
				}
				e.trigs = append(e.trigs, tg)
			}
			if !l.accept("::") {
				l.expect(".")
			}
			e.args = []*Ex{l.expr(0)}
			return e
		case "let":
			l.next()
			nm := l.tok
			l.next()
			l.expect("=")
			v := l.expr(0)
			l.expect(";")
			b := l.expr(0)
			return &Ex{op: "let", s: nm, args: []*Ex{v, b}}
		}
		l.next()
		if l.kind == "op" && l.tok == "(" {
			l.next()
			switch n {
			case "as", "typeis", "implements":
				a := l.expr(0)
				l.expect(",")
				t := l.typeText(")")
				l.expect(")")
				return &Ex{op: n, s: t, args: []*Ex{a}}
			case "raw": // raw(array, index, element type)
				a := l.expr(0)
				l.expect(",")
				j := l.expr(0)
				l.expect(",")
				t := l.typeText(")")
				l.expect(")")
				return &Ex{op: n, s: t, args: []*Ex{a, j}}
			case "tag", "zero":
				t := l.typeText(")")
				l.expect(")")
				return &Ex{op: n, s: t}
			}
			e := &Ex{op: "call", s: n}
			if n == "old" || n == "entry" {
				e.op = n
			}
			if l.accept(")") {
				return e
			}
			for {
				e.args = append(e.args, l.expr(0))
				if l.accept(")") {
					break
				}
				l.expect(",")
			}
			return e
		}
		return &Ex{op: "ident", s: n}
	}
	l.fail("expression expected")
	return nil
}

// metas lists the metavariables of an expression.
func (e *Ex) metas(out map[string]string) {
	if e == nil {
		return
	}
	if e.op == "meta" {
		if t := e.binds[0].typ; t != "" || out[e.s] == "" {
			out[e.s] = t
		}
	}
	for _, a := range e.args {
		a.metas(out)
	}
	for _, tg := range e.trigs {
		for _, a := range tg {
			a.metas(out)
		}
	}
}

// ---------------------------------------------------------------- contract files

type Clause struct {
	kind  string
	label string
	ex    *Ex
	text  string
	line  int
	props []string
}

type SpecFn struct {
	name   string
	params []Bind
	typ    string
	body   *Ex
	rec    bool
	global bool // independent of the target and of its state
	pkg    string
}

type Contract struct {
	aspect   string
	kind     string // func, iface, functype
	name     string // e.g. (*choice).parse
	pkg      string
	params   []string
	curry    [][]string
	results  []string
	clauses  []*Clause
	groups   map[string]string
	recs     []*SpecFn
	file     string
	line     int
	id       string // unique target id
	props    []string
	trusted  bool
	merge    bool
	pure     string
	core     map[string]bool
	inline   map[string]bool
	mayPanic bool
	bounded  bool
	hasMod   bool
	noCall   bool // not used at call sites (callers inline the body)
	ufname   string
	timeout  int
}

func (c *Contract) get(kind string) []*Clause {
	var out []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind {
			out = append(out, cl)
		}
	}
	return out
}
func (c *Contract) has(kind string) bool { return len(c.get(kind)) > 0 }

type Specs struct {
	recs        []*SpecFn
	fns         map[string]*SpecFn
	ghosts      map[string]string
	groups      map[string]string
	stubs       map[string]string
	ghostPkg    string
	contracts   []*Contract
	writtenOnce sync.Once
	writtenG    map[string]bool
	pkg         string
}

func loadSpecs(dir string) *Specs {
	s := &Specs{fns: map[string]*SpecFn{}, ghosts: map[string]string{}, groups: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		s.parseFile(filepath.Base(f), string(b))
	}
	return s
}

func indentOf(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

func (s *Specs) parseFile(file, src string) {
	lines := strings.Split(src, "\n")
	pkg := ""
	var cur *Contract
	var defprops []string
	aspect := ""
	i := 0
	// gather logical line i plus deeper-indented continuation lines
	gather := func() (string, int) {
		start := i
		ind := indentOf(lines[i])
		t := lines[i]
		i++
		for i < len(lines) {
			if strings.TrimSpace(lines[i]) == "" || strings.HasPrefix(strings.TrimSpace(lines[i]), "#") {
				i++
				continue
			}
			if indentOf(lines[i]) <= ind || (ind == 0 && indentOf(lines[i]) <= 2) {
				break
			}
			t += " " + strings.TrimSpace(lines[i])
			i++
		}
		return strings.TrimSpace(t), start + 1
	}
	for i < len(lines) {
		l := lines[i]
		if strings.TrimSpace(l) == "" || strings.HasPrefix(strings.TrimSpace(l), "#") {
			i++
			continue
		}
		top := indentOf(l) == 0
		t, ln := gather()
		where := fmt.Sprintf("%s:%d", file, ln)
		kw, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		if top {
			switch kw {
			case "package":
				pkg = rest
			case "props":
				defprops = strings.Fields(rest)
			case "aspect":
				aspect = rest
			case "fn":
				f := parseFnHead(rest, where)
				f.pkg = pkg
				s.fns[f.name] = f
				cur = nil
			case "group":
				// a named list of modifies items
				n, e, _ := strings.Cut(rest, "=")
				if s.groups == nil {
					s.groups = map[string]string{}
				}
				s.groups[strings.TrimSpace(n)] = strings.TrimSpace(e)
				cur = nil
			case "uf":
				// a function without definition
				f := parseFnHead(rest, where)
				f.pkg = pkg
				s.fns[f.name] = f
				cur = nil
			case "rec":
				f := parseFnHead(rest, where)
				f.rec, f.pkg, f.global = true, pkg, true
				s.recs = append(s.recs, f)
				cur = nil
			case "stub":
				n, e, _ := strings.Cut(rest, "=")
				if s.stubs == nil {
					s.stubs = map[string]string{}
				}
				s.stubs[strings.TrimSpace(n)] = strings.TrimSpace(e)
				cur = nil
			case "ghost":
				n, ty, _ := strings.Cut(rest, " ")
				s.ghosts[n] = strings.TrimSpace(ty)
				s.ghostPkg = pkg
			case "func", "iface", "functype":
				cur = parseHead(kw, rest, where)
				cur.pkg, cur.file, cur.line = pkg, file, ln
				cur.aspect = aspect
				cur.props = append([]string(nil), defprops...)
				s.contracts = append(s.contracts, cur)
			default:
				panic(specErr{where + ": unknown block " + kw})
			}
			continue
		}
		if cur == nil {
			panic(specErr{where + ": clause outside a contract"})
		}
		cl := &Clause{kind: kw, line: ln, text: rest}
		switch kw {
		case "prop":
			cur.props = strings.Fields(rest)
			continue
		case "id":
			cur.id = rest
			continue
		case "trusted":
			cur.trusted = true
			continue
		case "timeout":
			cur.timeout, _ = strconv.Atoi(rest)
			continue
		case "merge": // branches that yield different numbers or texts are merged too
			cur.merge = true
			continue
		case "nocall":
			cur.noCall = true
			continue
		case "maypanic":
			cur.mayPanic = true
			continue
		case "uf":
			cur.ufname = rest
			continue
		case "core":
			for _, f := range strings.Fields(rest) {
				cur.core[f] = true
			}
			continue
		case "inline":
			for _, f := range strings.Fields(rest) {
				cur.inline[f] = true
			}
			continue
		case "rec":
			f := parseFnHead(rest, where)
			f.rec, f.pkg = true, pkg
			cur.recs = append(cur.recs, f)
			continue
		case "modifies", "preserves", "unframed":
			for n, g := range s.groups {
				cl.text = strings.ReplaceAll(cl.text, "$"+n, g)
			}
			cur.hasMod = true
		case "implements", "neverreturns", "ghostwrites":
			cl.text = rest
		case "requires", "requires2", "ensures", "proves", "hint", "decreases", "panics_when", "on_panic", "assume", "nopanic", "lemma":
			body := rest
			// optional {C01 C02} and "label":
			if strings.HasPrefix(body, "[") {
				if k := strings.Index(body, "]"); k > 0 {
					cl.props = strings.Fields(body[1:k])
					body = strings.TrimSpace(body[k+1:])
				}
			}
			if k := strings.Index(body, ":"); k > 0 && isLabel(body[:k]) && !(k+1 < len(body) && body[k+1] == '=') {
				cl.label = body[:k]
				body = strings.TrimSpace(body[k+1:])
			}
			if kw == "nopanic" {
				cl.kind = "panics_when"
				body = "false"
			}
			cl.ex = parseEx(body, where)
		case "each":
			// each CALLEE(args) results :: formula
			head, body, ok := strings.Cut(rest, "::")
			if !ok {
				panic(specErr{where + ": each CALLEE(args) results :: formula"})
			}
			cl.text = strings.TrimSpace(head)
			cl.label = "each " + strings.TrimSpace(head)
			cl.ex = parseEx(strings.TrimSpace(body), where)
		case "set":
			cl.text = rest
		case "let", "let2":
			n, e, ok := strings.Cut(rest, "=")
			if !ok {
				panic(specErr{where + ": let"})
			}
			cl.label = strings.TrimSpace(n)
			cl.ex = parseEx(strings.TrimSpace(e), where)
		default:
			panic(specErr{where + ": unknown clause " + kw})
		}
		cur.clauses = append(cur.clauses, cl)
	}
}

func isLabel(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(isLetter(c) || c >= '0' && c <= '9' || c == '-') {
			return false
		}
	}
	return len(s) > 0 && s != "forall"
}

// parseFnHead: name(a: T, b: T): T = expr
func parseFnHead(t, where string) *SpecFn {
	k := strings.Index(t, "(")
	if k < 0 {
		panic(specErr{where + ": function head"})
	}
	f := &SpecFn{name: strings.TrimSpace(t[:k])}
	depth, j := 0, k
	for ; j < len(t); j++ {
		if t[j] == '(' {
			depth++
		}
		if t[j] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	for _, p := range splitTop(t[k+1 : j]) {
		if strings.TrimSpace(p) == "" {
			continue
		}
		n, ty, ok := strings.Cut(p, ":")
		if !ok {
			ty = ""
		}
		f.params = append(f.params, Bind{strings.TrimSpace(n), strings.TrimSpace(ty)})
	}
	rest := strings.TrimSpace(t[j+1:])
	if strings.HasPrefix(rest, ":") {
		e := strings.Index(rest, "=")
		if e < 0 {
			e = len(rest)
		}
		f.typ = strings.TrimSpace(rest[1:e])
		rest = rest[e:]
	}
	if strings.HasPrefix(rest, "=") {
		f.body = parseEx(strings.TrimSpace(rest[1:]), where)
	}
	return f
}

func splitTop(s string) []string {
	var out []string
	depth, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// parseHead: "(*choice).parse(ch, ctx) res"  or "stack(f, x)(ctx) res" or "func(rune) bool (r) res"
func parseHead(kind, t, where string) *Contract {
	c := &Contract{kind: kind, core: map[string]bool{}, inline: map[string]bool{}}
	// find trailing parameter groups: scan from the end
	t = strings.TrimSpace(t)
	if kind == "functype" {
		// functype TYPE :: (params) results
		n, rest, ok := strings.Cut(t, "::")
		if !ok {
			panic(specErr{where + ": functype TYPE :: (params) results"})
		}
		c.name = strings.TrimSpace(n)
		t = strings.TrimSpace(rest)
	} else {
		k := 0
		if strings.HasPrefix(t, "(") {
			k = strings.Index(t, ")") + 1
		}
		j := strings.Index(t[k:], "(")
		if j < 0 {
			panic(specErr{where + ": parameter list"})
		}
		c.name = strings.TrimSpace(t[:k+j])
		t = t[k+j:]
	}
	first := true
	for strings.HasPrefix(t, "(") {
		k := strings.Index(t, ")")
		var ps []string
		for _, p := range strings.Split(t[1:k], ",") {
			if p = strings.TrimSpace(p); p != "" {
				ps = append(ps, p)
			}
		}
		if first {
			c.params = ps
		} else {
			c.curry = append(c.curry, ps)
		}
		first = false
		t = strings.TrimSpace(t[k+1:])
	}
	for _, r := range strings.Split(t, ",") {
		if r = strings.TrimSpace(r); r != "" {
			c.results = append(c.results, r)
		}
	}
	return c
}
