package joeson_test

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// ---------------------------------------------------------------- C19 native maps

type mapCase struct {
	Init map[string]*aval `json:"init,omitempty"`
	Sets []mapSet         `json:"sets"`
}
type mapSet struct {
	K string `json:"k"`
	V *aval  `json:"v"`
}

// aval: a native value
type aval struct {
	K    string   `json:"k"` // s i a m u
	S    S        `json:"s,omitempty"`
	I    int      `json:"i,omitempty"`
	Kids []*aval  `json:"kids,omitempty"`
	Keys []string `json:"keys,omitempty"`
}

func (a *aval) ast() joeson.Ast {
	switch a.K {
	case "s":
		return joeson.NewNativeString(string(a.S))
	case "i":
		return joeson.NewNativeInt(a.I)
	case "a":
		l := []joeson.Ast{}
		for _, x := range a.Kids {
			l = append(l, x.ast())
		}
		return joeson.NewNativeArray(l)
	case "m":
		m := joeson.NewEmptyNativeMap()
		for i, x := range a.Kids {
			m.Set(a.Keys[i], x.ast())
		}
		return m
	}
	return joeson.NewNativeUndefined()
}

func (a *aval) text() string {
	switch a.K {
	case "s":
		return string(a.S)
	case "i":
		return strconv.Itoa(a.I)
	case "a", "m":
		t := ""
		for _, x := range a.Kids {
			t += x.text()
		}
		return t
	}
	return ""
}

func (a *aval) hasMapInArray(inArray bool) bool {
	if a.K == "m" && inArray {
		return true
	}
	for _, x := range a.Kids {
		if x.hasMapInArray(a.K == "a") {
			return true
		}
	}
	return false
}

func genVal(r rng, depth int) *aval {
	k := pick(r, "s", "s", "i", "u", "a", "m")
	if depth <= 0 && (k == "a" || k == "m") {
		k = "s"
	}
	a := &aval{K: k}
	switch k {
	case "s":
		a.S = S(pick(r, "", "a", "12", "-3", "世", "x\n", "007", "+4", "9223372036854775807", "9223372036854775808", "1_0", "0x1", " 1"))
	case "i":
		a.I = pick(r, 0, 1, -1, 42, -9223372036854775808, 9223372036854775807)
	case "a", "m":
		n := r.in(0, 3)
		for i := 0; i < n; i++ {
			a.Kids = append(a.Kids, genVal(r, depth-1))
			a.Keys = append(a.Keys, string(rune('c'-i)))
		}
	}
	return a
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func checkMap(raw json.RawMessage) string {
	c := dec[mapCase](raw)
	init := map[string]joeson.Ast{}
	model := map[string]joeson.Ast{}
	var order []string
	for k, v := range c.Init {
		init[k] = v.ast()
		model[k] = init[k]
		order = append(order, k)
	}
	sort.Strings(order)
	nm := joeson.NewNativeMap(init)
	probe := []string{"a", "b", "c", "d", "", "世"}
	look := func(step int) string {
		at := fmt.Sprintf("after %d assignments of %s: ", step, string(raw))
		if nm.IsEmpty() != (len(model) == 0) {
			return at + fmt.Sprintf("IsEmpty is %v with %d keys", nm.IsEmpty(), len(model))
		}
		if a, b := fmt.Sprintf("%q", nm.Keys()), fmt.Sprintf("%q", order); a != b && len(order)+len(nm.Keys()) > 0 {
			return at + "keys are " + a + ", expected " + b
		}
		for _, k := range probe {
			v, has := model[k]
			if nm.Exists(k) != has {
				return at + "Exists(" + k + ")"
			}
			g, gh := nm.GetExists(k)
			if gh != has || g != v || nm.Get(k) != v {
				return at + fmt.Sprintf("Get(%q) is %v, expected %v", k, g, v)
			}
			und := !has
			if has {
				_, und = v.(joeson.NativeUndefined)
			}
			if nm.IsUndefined(k) != und {
				return at + "IsUndefined(" + k + ")"
			}
			var gp joeson.Ast
			if p := panics(func() { gp = nm.GetOrPanic(k) }); p != !has || !p && gp != v {
				return at + "GetOrPanic(" + k + ")"
			}
		}
		for i := range probe {
			l := []string{probe[i], probe[(i+2)%len(probe)], probe[(i+3)%len(probe)]}
			var want joeson.Ast
			found := false
			for _, k := range l {
				if v, has := model[k]; has {
					want, found = v, true
					break
				}
			}
			var got joeson.Ast
			if p := panics(func() { got = nm.GetWhicheverOrPanic(l) }); p != !found || got != want {
				return at + fmt.Sprintf("GetWhicheverOrPanic(%q)", l)
			}
		}
		return ""
	}
	if m := look(0); m != "" {
		return m
	}
	for i, s := range c.Sets {
		v := s.V.ast()
		nm.Set(s.K, v)
		if _, has := model[s.K]; !has {
			order = append(order, s.K)
		}
		model[s.K] = v
		if m := look(i + 1); m != "" {
			return m
		}
	}
	return ""
}

// ---------------------------------------------------------------- C20 conversions

func checkConv(raw json.RawMessage) string {
	a := dec[*aval](raw)
	v := a.ast()
	want := a.text()
	at := fmt.Sprintf("%s: ", string(raw))
	switch x := v.(type) {
	case *joeson.NativeArray:
		if a.hasMapInArray(false) {
			return "skip"
		}
		if got := string(x.Concat()); got != want {
			return at + fmt.Sprintf("Concat is %q, expected %q", got, want)
		}
		if got := string(joeson.NewNativeStringFrom(x)); got != want {
			return at + fmt.Sprintf("NewNativeStringFrom is %q, expected %q", got, want)
		}
		if x.Length() != len(a.Kids) {
			return at + "Length"
		}
		for i := range a.Kids {
			if showAst(x.Get(i)) != showAst(a.Kids[i].ast()) {
				return at + "Get"
			}
		}
	case *joeson.NativeMap:
		if a.hasMapInArray(false) {
			return "skip"
		}
		if got := string(x.Concat()); got != want {
			return at + fmt.Sprintf("Concat is %q, expected %q", got, want)
		}
		for i, k := range a.Keys {
			kid := a.Kids[i]
			n, err := strconv.Atoi(kid.text())
			if kid.K == "i" {
				n, err = kid.I, nil
			}
			var got int
			var has bool
			p := panics(func() { got, has = x.GetIntExists(k) })
			if isIntLike := kid.K == "s" || kid.K == "i" || kid.K == "a"; isIntLike {
				if p != (err != nil) || !p && (got != n || !has) {
					return at + fmt.Sprintf("GetIntExists(%q) is %d %v, panicked %v", k, got, has, p)
				}
			} else if !p {
				return at + "GetIntExists(" + k + ") does not panic"
			}
			if kid.K == "s" || kid.K == "a" {
				s, has := x.GetStringExists(k)
				if !has || s != kid.text() {
					return at + fmt.Sprintf("GetStringExists(%q) is %q", k, s)
				}
			}
		}
		if n, has := x.GetIntExists("nokey"); has || n != 0 {
			return at + "GetIntExists of a missing key"
		}
		if s, has := x.GetStringExists("nokey"); has || s != "" {
			return at + "GetStringExists of a missing key"
		}
		return ""
	case joeson.NativeInt:
		if x.Int() != a.I || x.Bool() != (a.I != 0) || x.String() != want || string(joeson.NewNativeStringFrom(x)) != want {
			return at + "NativeInt conversions"
		}
		for _, b := range []bool{true, false} {
			if n := joeson.NewNativeIntFromBool(b); n.Bool() != b || (n.Int() != 0 && n.Int() != 1) {
				return at + "NewNativeIntFromBool"
			}
		}
	case joeson.NativeString:
		if x.String() != want || string(joeson.NewNativeStringFrom(x)) != want {
			return at + "NativeString conversions"
		}
		n, err := strconv.Atoi(want)
		var got joeson.NativeInt
		if p := panics(func() { got = joeson.NewNativeIntFromString(want) }); p != (err != nil) || !p && got.Int() != n {
			return at + "NewNativeIntFromString"
		}
	}
	if a.K == "s" || a.K == "i" || a.K == "a" {
		n, err := strconv.Atoi(want)
		var got joeson.NativeInt
		p := panics(func() { got = joeson.NewNativeIntFrom(v) })
		if p != (err != nil) || !p && got.Int() != n {
			return at + fmt.Sprintf("NewNativeIntFrom is %d, panicked: %v; expected %d, %v", got, p, n, err)
		}
	}
	return ""
}

// ---------------------------------------------------------------- C21 helpers

type helpCase struct {
	A    []int `json:"a"`
	X    int   `json:"x"`
	S    S     `json:"s"`
	I, J int
}

func checkHelp(raw json.RawMessage) string {
	c := dec[helpCase](raw)
	at := string(raw) + ": "
	a := append([]int{}, c.A...)
	sort.Ints(a)
	l, rr := 0, 0
	for _, v := range a {
		if v < c.X {
			l++
		}
		if v <= c.X {
			rr++
		}
	}
	if got := helpers.BisectLeft(a, c.X); got != l {
		return at + fmt.Sprintf("BisectLeft is %d, expected %d", got, l)
	}
	if got := helpers.BisectRight(a, c.X); got != rr {
		return at + fmt.Sprintf("BisectRight is %d, expected %d", got, rr)
	}
	want := append(append([]int{}, a...), c.X)
	sort.Ints(want)
	for i, f := range []func([]int, int) []int{helpers.InsortLeft, helpers.InsortRight} {
		in := append([]int{}, a...)
		if c.J%2 == 0 { // spare capacity
			in = append(make([]int, 0, len(a)+3), a...)
		}
		if got := f(in, c.X); fmt.Sprint(got) != fmt.Sprint(want) {
			return at + fmt.Sprintf("insort %d gives %v, expected %v", i, got, want)
		}
	}
	s := string(c.S)
	n := len(s)
	js := func() string {
		b, e := c.I, c.J
		if b < 0 {
			b += n
		}
		if b < 0 {
			b = 0
		}
		if e < 0 {
			e += n
		}
		if e < 0 {
			e = 0
		}
		if e > n {
			e = n
		}
		if b >= e {
			return ""
		}
		return s[b:e]
	}
	if got := helpers.SliceString(s, c.I, c.J); got != js() {
		return at + fmt.Sprintf("SliceString is %q, expected %q", got, js())
	}
	if got, w := helpers.LastNRunes(s, c.I), lastRunes(s, c.I); got != w {
		return at + fmt.Sprintf("LastNRunes is %q, expected %q", got, w)
	}
	if utf8.ValidString(s) && !strings.ContainsRune(s, utf8.RuneError) {
		rs := []rune(lastRunes(s, c.I))
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		_ = rs
	}
	pad := ""
	for len(pad)+n < c.I {
		pad += " "
	}
	if helpers.PadLeft(s, c.I) != s+pad || helpers.PadRight(s, c.I) != pad+s {
		return at + "padding"
	}
	mn, mx := c.I, c.J
	if mn > mx {
		mn, mx = mx, mn
	}
	if helpers.Min(c.I, c.J) != mn || helpers.Max(c.I, c.J) != mx {
		return at + "Min/Max"
	}
	if helpers.BoolToString(true) != "y" || helpers.BoolToString(false) != "n" {
		return at + "BoolToString"
	}
	h := map[string]int{}
	hi := map[int]int{}
	for i, v := range c.A {
		h[strconv.Itoa(v)] = i
		hi[v] = i
	}
	ks := helpers.SortStringKeys(h)
	ki := helpers.SortIntKeys(hi)
	if !sort.StringsAreSorted(ks) || len(ks) != len(h) || !sort.IntsAreSorted(ki) || len(ki) != len(hi) {
		return at + "sorted keys"
	}
	for _, k := range ks {
		if _, has := h[k]; !has {
			return at + "sorted keys"
		}
	}
	for _, k := range ki {
		if _, has := hi[k]; !has {
			return at + "sorted keys"
		}
	}
	return ""
}

// ---------------------------------------------------------------- C24 lazy

type lazyCase struct {
	Start string   `json:"start"`
	Ops   []string `json:"ops"`
}

func checkLazy(raw json.RawMessage) string {
	c := dec[lazyCase](raw)
	calls := 0
	next := 100
	mk := func() func() int { v := next; next += 100; return func() int { calls++; return v + calls } }
	var l *helpers.Lazy[int]
	// model
	set := false
	val := 0
	fn := 0 // base of the current function, 0 for none
	switch c.Start {
	case "value":
		l = helpers.LazyFromValue(7)
		set, val = true, 7
	case "func":
		fn = next
		l = helpers.LazyFromFunc(mk())
	default:
		l = helpers.NewLazy[int]()
	}
	for i, o := range c.Ops {
		at := fmt.Sprintf("%s, step %d (%s): ", string(raw), i, o)
		switch o {
		case "get":
			if !set && fn == 0 {
				continue // nothing to get: outside of the property
			}
			before := calls
			got := l.Get()
			if set {
				if got != val || calls != before {
					return at + fmt.Sprintf("got %d expected %d, calls %d", got, val, calls-before)
				}
			} else {
				if calls != before+1 || got != fn+calls {
					return at + fmt.Sprintf("got %d, calls %d", got, calls-before)
				}
				set, val = true, got
			}
		case "set":
			l.Set(i)
			set, val = true, i
		case "clear":
			l.Clear()
			set, fn = false, 0
		case "setlazy":
			fn = next
			l.SetLazy(mk())
		case "isset":
		}
		if l.IsSet() != set {
			return at + fmt.Sprintf("IsSet is %v", l.IsSet())
		}
	}
	return ""
}

// ---------------------------------------------------------------- C27 depth

type deepCase struct {
	Form  int  `json:"form"`
	Depth int  `json:"depth"`
	Bad   bool `json:"bad"`
}

func checkDeep(raw json.RawMessage) string {
	c := dec[deepCase](raw)
	p := func(s string) *expr { return &expr{Op: "str", S: S(s)} }
	ref := func(s string) *expr { return &expr{Op: "ref", S: S(s)} }
	var rules []*prule
	open, mid, clos := "(", "x", ")"
	switch c.Form {
	case 0:
		rules = []*prule{{Kind: "o", Name: "E", Body: &expr{Op: "choice", Kids: []*expr{{Op: "seq", Kids: []*expr{p("("), ref("E"), p(")")}}, p("x")}}}}
	case 1:
		rules = []*prule{{Kind: "o", Name: "E", Rules: []*prule{
			{Kind: "o", Body: &expr{Op: "seq", Kids: []*expr{p("("), ref("T"), p(")")}}},
			{Kind: "o", Body: p("x")},
		}}, {Kind: "i", Name: "T", Rules: []*prule{{Kind: "o", Body: ref("E")}}}}
	case 2: // right nesting, ends with the deepest one
		open, clos = "-", ""
		rules = []*prule{{Kind: "o", Name: "E", Body: &expr{Op: "choice", Kids: []*expr{{Op: "seq", Kids: []*expr{p("-"), ref("E")}}, p("x")}}}}
	case 3: // left recursion with nesting in the operand
		rules = []*prule{{Kind: "o", Name: "S", Body: ref("E")}, {Kind: "i", Name: "E", Rules: []*prule{
			{Kind: "o", Body: &expr{Op: "seq", Kids: []*expr{ref("E"), p("+"), ref("T")}}},
			{Kind: "o", Body: ref("T")},
		}}, {Kind: "i", Name: "T", Body: &expr{Op: "choice", Kids: []*expr{{Op: "seq", Kids: []*expr{p("("), ref("E"), p(")")}}, p("x")}}}}
	}
	s := &session{}
	gm := s.compile(rules, joeson.Mute())
	text := strings.Repeat(open, c.Depth) + mid + strings.Repeat(clos, c.Depth)
	if c.Bad {
		text += "!"
	}
	got := gm.ParseString(text)
	if is := got != nil && joeson.IsParseError(got); is != c.Bad {
		return fmt.Sprintf("form %d at depth %d: parse error is %v, expected %v", c.Form, c.Depth, is, c.Bad)
	}
	return ""
}

// ---------------------------------------------------------------- C28 walk

func genRulesForWalk(r rng, size int) any {
	p := profile{ops: []string{"leaf", "ref", "seq", "choice", "opt", "pat", "look", "not", "lseq"}, labels: true, ranks: true}
	c := p.gen(r, size).(*pegCase)
	c.Texts = nil
	c.Fuse = r.oneIn(2)
	return c
}

func checkWalk(raw json.RawMessage) string {
	c := dec[pegCase](raw)
	newRefGrammar(c.Rules)
	s := &session{}
	gm := s.compile(c.Rules, joeson.Mute())
	// the tree, from the rules
	type ev struct {
		post bool
		what string
	}
	var want []ev
	name := func(e *expr, rule string) string {
		return e.Op + ":" + rule
	}
	var walkE func(e *expr, rule string)
	var walkR func(r *prule)
	walkE = func(e *expr, rule string) {
		want = append(want, ev{false, name(e, rule)})
		for _, k := range e.Kids {
			walkE(k, "")
		}
		want = append(want, ev{true, name(e, rule)})
	}
	ranked := func(rs []*prule) {
		for _, k := range rs { // rules first: those of `i` lines
			if k.Kind == "i" {
				walkR(k)
			}
		}
		for _, k := range rs {
			if k.Kind == "o" {
				walkR(k)
			}
		}
	}
	walkR = func(r *prule) {
		if r.Rules == nil {
			walkE(r.Body, r.full)
			return
		}
		want = append(want, ev{false, "rank:" + r.full})
		ranked(r.Rules)
		want = append(want, ev{true, "rank:" + r.full})
	}
	// the grammar refers to all its rules (numbered after those they contain),
	// and to its rank
	want = append(want, ev{false, "grammar:G"})
	var number func(rs []*prule)
	number = func(rs []*prule) {
		for _, kind := range []string{"i", "o"} {
			for _, k := range rs {
				if k.Kind == kind {
					number(k.Rules)
					walkR(k)
				}
			}
		}
	}
	number(c.Rules)
	want = append(want, ev{false, "rank:G"})
	ranked(c.Rules)
	want = append(want, ev{true, "rank:G"})
	want = append(want, ev{true, "grammar:G"})
	typ := func(p joeson.Parser) string {
		t := fmt.Sprintf("%T", p)
		t = t[strings.LastIndex(t, ".")+1:]
		m := map[string]string{"choice": "choice", "sequence": "seq", "existential": "opt", "lookahead": "look", "not": "not", "pattern": "pat", "ref": "ref", "str": "str", "regex": "re", "rank": "rank", "Grammar": "grammar"}
		return m[t]
	}
	var got []string
	seen := map[joeson.Parser]int{}
	depth := 0
	bad := ""
	var stack []joeson.Parser
	joeson.Walk(gm, nil, joeson.WalkPrepost{
		Pre: func(n, parent joeson.Parser) string {
			if len(stack) > 0 && parent != stack[len(stack)-1] || len(stack) == 0 && parent != nil {
				bad = "wrong parent in a pre-visit"
			}
			stack = append(stack, n)
			depth++
			if typ(n) != "str" { // not a pointer: not comparable as an identity
				seen[n]++
			}
			got = append(got, "<"+typ(n))
			return ""
		},
		Post: func(n, parent joeson.Parser) string {
			if len(stack) == 0 || stack[len(stack)-1] != n {
				bad = "post-visit out of order"
			} else {
				stack = stack[:len(stack)-1]
			}
			got = append(got, ">"+typ(n))
			return ""
		},
	})
	if bad != "" || len(stack) > 0 {
		return bad + " (unbalanced: " + strconv.Itoa(len(stack)) + ")\n" + c.describe()
	}
	var exp []string
	for _, e := range want {
		op := e.what[:strings.Index(e.what, ":")]
		if op == "cls" {
			op = "re"
		}
		exp = append(exp, map[bool]string{false: "<", true: ">"}[e.post]+op)
	}
	var vis []string
	for _, x := range got { // a repetition with no join may have an undefined one
		if x != "<" && x != ">" {
			vis = append(vis, x)
		}
	}
	if strings.Join(vis, " ") != strings.Join(exp, " ") {
		return fmt.Sprintf("walk order is\n%s\nexpected\n%s\n%s", strings.Join(vis, " "), strings.Join(exp, " "), c.describe())
	}
	// stopping skips the subtree, and its post-visit
	n := 0
	joeson.Walk(gm, nil, joeson.WalkPrepost{
		Pre:  func(p, _ joeson.Parser) string { n++; return "__stop__" },
		Post: func(p, _ joeson.Parser) string { n += 100; return "" },
	})
	if n != 1 {
		return "stopping at the root visits more"
	}
	return ""
}

func checkForEach(raw json.RawMessage) string {
	c := dec[[]int](raw)
	// a list of parsers, mapped: keep, replace or drop
	s := &session{}
	mk := func(i int) joeson.Parser {
		return s.compile([]*prule{{Kind: "o", Name: "N" + strconv.Itoa(i), Body: &expr{Op: "str", S: "a"}}}, joeson.Mute())
	}
	var in []joeson.Parser
	var want []joeson.Parser
	other := mk(1000)
	for i, x := range c {
		p := mk(i)
		in = append(in, p)
		switch x {
		case 0:
			want = append(want, p)
		case 1:
			want = append(want, other)
		}
	}
	i := 0
	bad := ""
	out := joeson.ForEachChild_Array(in, func(p joeson.Parser) joeson.Parser {
		if p != in[i] {
			bad = "called out of order"
		}
		x := c[i]
		i++
		switch x {
		case 0:
			return p
		case 1:
			return other
		}
		return nil
	})
	if bad != "" {
		return bad
	}
	if i != len(in) || len(out) != len(want) {
		return fmt.Sprintf("mapped %d of %d children to %d, expected %d", i, len(in), len(out), len(want))
	}
	for j := range out {
		if out[j] != want[j] {
			return fmt.Sprintf("child %d differs", j)
		}
	}
	return ""
}

func init() {
	reg("C19", &kind{name: "native-map", check: checkMap, bounds: "maps over 6 keys, at most 10 assignments",
		gen: func(r rng, size int) any {
			c := mapCase{Init: map[string]*aval{}}
			for n := r.in(0, 3); n > 0; n-- {
				c.Init[pick(r, "a", "b", "c", "d", "", "世")] = genVal(r, 1)
			}
			for n := r.in(0, size); n > 0; n-- {
				c.Sets = append(c.Sets, mapSet{pick(r, "a", "b", "c", "d", "", "世"), genVal(r, 1)})
			}
			return c
		}})
	reg("C20", &kind{name: "native-conv", check: checkConv, bounds: "values nested at most 4 deep, at most 3 children each",
		gen: func(r rng, size int) any { return genVal(r, 1+size/3) }})
	reg("C21", &kind{name: "helpers", check: checkHelp, bounds: "lists of at most 12 numbers, strings of at most 12 characters (invalid UTF-8 included), bounds within 20 of the length",
		gen: func(r rng, size int) any {
			c := helpCase{X: r.in(-3, 3), S: S(genText(r, r.in(0, size+2), true))}
			for n := r.in(0, size+2); n > 0; n-- {
				c.A = append(c.A, r.in(-3, 3))
			}
			c.I, c.J = r.in(-len(c.S)-3, len(c.S)+3), r.in(-len(c.S)-3, len(c.S)+3)
			return c
		}})
	reg("C24", &kind{name: "lazy", check: checkLazy, bounds: "series of at most 12 operations",
		gen: func(r rng, size int) any {
			c := lazyCase{Start: pick(r, "value", "func", "none")}
			for n := r.in(1, 12); n > 0; n-- {
				c.Ops = append(c.Ops, pick(r, "get", "get", "get", "set", "clear", "setlazy", "isset"))
			}
			return c
		}})
	reg("C27", &kind{name: "deep", check: checkDeep, bounds: "4 forms of nesting, depths up to 12000",
		fixed: func() []any {
			var a []any
			for _, d := range []int{1, 2, 10, 255, 256, 257, 340, 341, 342, 511, 512, 513, 1023, 1024, 1025, 2048, 5000, 12000} {
				for f := 0; f < 4; f++ {
					a = append(a, deepCase{f, d, false})
					if f == 0 {
						a = append(a, deepCase{f, d, true})
					}
				}
			}
			return a
		},
		gen: func(r rng, size int) any { return deepCase{r.Intn(4), r.in(1, 4500), r.oneIn(3)} }})
	reg("C28", &kind{name: "walk", check: checkWalk, gen: genRulesForWalk, bounds: "compiled random grammars of at most 5 rules"})
	reg("C28", &kind{name: "foreach", check: checkForEach, bounds: "lists of at most 6 parsers",
		gen: func(r rng, size int) any {
			c := []int{}
			for n := r.in(0, 6); n > 0; n-- {
				c = append(c, r.Intn(3))
			}
			return c
		}})
}
