package joeson_test

// A reference interpreter for joeson grammars, written from the properties,
// independent of packrat, frames and contexts.

import (
	"fmt"
	"hash/fnv"
	"regexp"
	"strconv"
	"strings"
)

type expr struct {
	Op    string  `json:"op"` // str re cls choice seq opt look not pat ref
	S     S       `json:"s,omitempty"`
	Kids  []*expr `json:"k,omitempty"` // pat: value [join]
	Min   int     `json:"min,omitempty"`
	Max   int     `json:"max,omitempty"`
	Form  string  `json:"form,omitempty"` // pat: "*", "+", "*{}", "{}"
	Label string  `json:"l,omitempty"`
}

type prule struct {
	Kind    string   `json:"kind"` // "o" or "i"
	Name    string   `json:"name,omitempty"`
	Body    *expr    `json:"body,omitempty"`
	Rules   []*prule `json:"rules,omitempty"` // a rank, instead of Body
	CB      int      `json:"cb,omitempty"`    // see callback()
	CBForm  int      `json:"cbf,omitempty"`   // which of the 3 signatures
	NoCache bool     `json:"nocache,omitempty"`
	Debug   bool     `json:"debug,omitempty"`
	SkipLog bool     `json:"skiplog,omitempty"`

	full string // the final name
}

const (
	cbNone = iota
	cbWrap
	cbMaybe    // wraps, or nil for a third of the inputs
	cbIdentity // returns its input
	cbNil
	cbPanic // panics when armed, else wraps
)

// ---------------------------------------------------------------- rendering

func render(e *expr) string { return renderChoice(e) }

func renderChoice(e *expr) string {
	if e.Op == "choice" && e.Label == "" {
		var a []string
		for _, k := range e.Kids {
			a = append(a, renderSeq(k))
		}
		return strings.Join(a, " | ")
	}
	return renderSeq(e)
}

func renderSeq(e *expr) string {
	if e.Op == "seq" && e.Label == "" {
		var a []string
		for _, k := range e.Kids {
			a = append(a, renderUnit(k))
		}
		return strings.Join(a, " ")
	}
	return renderUnit(e)
}

func renderUnit(e *expr) string {
	if e.Label != "" {
		return e.Label + ":" + renderDecorated(e)
	}
	return renderDecorated(e)
}

func renderDecorated(e *expr) string {
	switch e.Op {
	case "opt":
		return renderPrimary(e.Kids[0]) + "?"
	case "not":
		return "!" + renderPrimary(e.Kids[0])
	case "look":
		return "(?" + renderChoice(e.Kids[0]) + ")"
	case "pat":
		s := renderPrimary(e.Kids[0])
		rng := func() string {
			t := "{"
			if e.Min >= 0 {
				t += strconv.Itoa(e.Min)
			}
			t += ","
			if e.Max >= 0 {
				t += strconv.Itoa(e.Max)
			}
			return t + "}"
		}
		join := ""
		if len(e.Kids) > 1 {
			join = renderPrimary(e.Kids[1])
		}
		switch e.Form {
		case "*":
			return s + "*" + join
		case "+":
			return s + "+" + join
		case "*{}":
			return s + "*" + join + rng()
		default: // {}
			return s + rng()
		}
	}
	return renderBare(e)
}

// something with no label of its own, or else between parens
func renderPrimary(e *expr) string {
	if e.Label != "" {
		return "(" + renderChoice(e) + ")"
	}
	switch e.Op {
	case "str", "re", "cls", "ref":
		return renderBare(e)
	}
	return "(" + renderChoice(e) + ")"
}

func renderBare(e *expr) string {
	switch e.Op {
	case "str":
		return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(string(e.S)) + "'"
	case "re":
		return "/" + string(e.S) + "/"
	case "cls":
		return "[" + string(e.S) + "]"
	case "ref":
		return string(e.S)
	}
	t := *e
	t.Label = ""
	return "(" + renderChoice(&t) + ")"
}

// ---------------------------------------------------------------- values

type val struct {
	k      byte // 's' 'a' 'm' 'u' 'n'(callback node)
	s      string
	kids   []*val
	keys   []string
	m      map[string]*val
	start  int
	end    int
	origin string // rule name
}

func (v *val) show() string {
	if v == nil {
		return "nil"
	}
	switch v.k {
	case 's':
		return strconv.QuoteToASCII(v.s)
	case 'a':
		var a []string
		for _, x := range v.kids {
			a = append(a, x.show())
		}
		return "[" + strings.Join(a, " ") + "]"
	case 'm':
		var a []string
		for _, k := range v.keys {
			a = append(a, k+":"+v.m[k].show())
		}
		return "{" + strings.Join(a, " ") + "}"
	case 'u':
		return "U"
	case 'n':
		return v.s + "(" + v.kids[0].show() + ")"
	}
	return "?"
}

func newMap() *val { return &val{k: 'm', m: map[string]*val{}} }
func (v *val) set(k string, x *val) {
	if _, has := v.m[k]; !has {
		v.keys = append(v.keys, k)
	}
	v.m[k] = x
}
func (v *val) copyMap() *val {
	if v == nil || v.k != 'm' {
		return v
	}
	c := newMap()
	for _, k := range v.keys {
		c.set(k, v.m[k])
	}
	return c
}

func hashOf(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}

type tooMuch struct{}
type outside struct{ why string }
type cbPanicked struct{ rule string }

// ---------------------------------------------------------------- interpreter

type refGrammar struct {
	top   *prule // a pseudo rank
	rules map[string]*prule
	count int
}

// name the rules the way the documentation says: unnamed `o` rules are called
// after their rank and their index among its `o` rules.
func newRefGrammar(rules []*prule) *refGrammar {
	g := &refGrammar{top: &prule{Name: "G", full: "G", Rules: rules}, rules: map[string]*prule{}}
	g.name(g.top)
	return g
}

func (g *refGrammar) name(rank *prule) {
	n := 0
	for _, r := range rank.Rules {
		r.full = r.Name
		if r.Kind == "o" {
			if r.full == "" {
				r.full = rank.full + "[" + strconv.Itoa(n) + "]"
			}
			n++
		}
		g.rules[r.full] = r
		g.count++
		g.name(r)
	}
}

type memoKey struct {
	r   *prule
	pos int
}
type memoEnt struct {
	v       *val
	end     int
	busy    bool
	recurse bool
	seed    *val
	seedEnd int
}

type refRun struct {
	g       *refGrammar
	text    string
	memo    map[memoKey]*memoEnt
	log     []string
	steps   int
	armed   string
	depth   int
	regexps map[string]*regexp.Regexp
}

func (g *refGrammar) run(text string, armed string) *refRun {
	return &refRun{g: g, text: text, memo: map[memoKey]*memoEnt{}, armed: armed, regexps: map[string]*regexp.Regexp{}}
}

// parse runs the entry rules; end is 0 when they all fail
func (x *refRun) parse() (v *val, end int) {
	for _, r := range x.g.top.Rules {
		if r.Kind != "o" {
			continue
		}
		if v, e := x.rule(r, 0, true); v != nil {
			return v, e
		}
	}
	return nil, 0
}

// rule evaluates a rule at pos; nil when it does not match
func (x *refRun) rule(r *prule, pos int, inRank bool) (*val, int) {
	x.steps++
	if x.steps > 60000 {
		panic(tooMuch{})
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 3000 {
		panic(tooMuch{})
	}
	if r.NoCache && r.Rules == nil { // (options given to a list of rules are not used)
		return x.ruleBody(r, pos)
	}
	key := memoKey{r, pos}
	if m := x.memo[key]; m != nil {
		if m.busy {
			m.recurse = true
			return m.seed, m.seedEnd
		}
		return m.v, m.end
	}
	m := &memoEnt{busy: true, seedEnd: pos}
	x.memo[key] = m
	before := map[memoKey]bool{}
	for k := range x.memo {
		if k.pos == pos {
			before[k] = true
		}
	}
	v, end := x.ruleBody(r, pos)
	if m.recurse && v != nil {
		for {
			m.seed, m.seedEnd = v, end
			for k := range x.memo {
				if k.pos == pos && !before[k] {
					delete(x.memo, k)
				}
			}
			v2, end2 := x.ruleBody(r, pos)
			if v2 == nil || end2 <= end {
				break
			}
			v, end = v2, end2
		}
	}
	m.busy = false
	m.v, m.end = v, end
	return v, end
}

func (x *refRun) ruleBody(r *prule, pos int) (*val, int) {
	var v *val
	end := pos
	if r.Rules != nil {
		for _, k := range r.Rules {
			if k.Kind == "o" {
				if v, end = x.rule(k, pos, true); v != nil {
					break
				}
			}
		}
	} else {
		v, end = x.eval(r.Body, pos, false)
	}
	if v == nil {
		return nil, pos
	}
	if r.CB != cbNone {
		x.log = append(x.log, fmt.Sprintf("%s@%d:%s", r.full, end, v.show()))
		v = refCallback(r, v, x.armed)
		if v == nil {
			return nil, pos
		}
	}
	v.start, v.end, v.origin = pos, end, r.full
	return v, end
}

func refCallback(r *prule, v *val, armed string) *val {
	wrap := &val{k: 'n', s: r.full, kids: []*val{v}}
	switch r.CB {
	case cbWrap:
		return wrap
	case cbMaybe:
		if hashOf(v.show())%3 == 0 {
			return nil
		}
		return wrap
	case cbIdentity:
		return v
	case cbNil:
		return nil
	case cbPanic:
		if armed == r.full {
			panic(cbPanicked{r.full})
		}
		return wrap
	}
	return v
}

// handles: the parent collects the labels of its children itself
func (x *refRun) eval(e *expr, pos int, handles bool) (*val, int) {
	v, end := x.evalBare(e, pos, handles)
	if v == nil {
		return nil, pos
	}
	if l := x.g.label(e); l != "" && !handles {
		m := newMap()
		m.set(l, v)
		v = m
	}
	return v, end
}

func (x *refRun) evalBare(e *expr, pos int, handles bool) (*val, int) {
	x.steps++
	if x.steps > 60000 {
		panic(tooMuch{})
	}
	switch e.Op {
	case "str":
		if strings.HasPrefix(x.text[pos:], string(e.S)) {
			return &val{k: 's', s: string(e.S)}, pos + len(e.S)
		}
		return nil, pos
	case "re", "cls":
		src := string(e.S)
		if e.Op == "cls" {
			src = "[" + src + "]"
		}
		re := x.regexps[src]
		if re == nil {
			re = regexp.MustCompile(`\A(?:` + src + `)`)
			x.regexps[src] = re
		}
		loc := re.FindStringIndex(x.text[pos:])
		if loc == nil {
			return nil, pos
		}
		return &val{k: 's', s: x.text[pos : pos+loc[1]]}, pos + loc[1]
	case "choice":
		for _, k := range e.Kids {
			if v, end := x.eval(k, pos, false); v != nil {
				return v, end
			}
		}
		return nil, pos
	case "opt":
		if v, end := x.eval(e.Kids[0], pos, false); v != nil {
			return v, end
		}
		return &val{k: 'u'}, pos
	case "look":
		v, _ := x.eval(e.Kids[0], pos, false)
		return v, pos
	case "not":
		if v, _ := x.eval(e.Kids[0], pos, false); v != nil {
			return nil, pos
		}
		return &val{k: 'u'}, pos
	case "ref":
		r := x.g.rules[string(e.S)]
		if r == nil {
			panic(outside{"undefined rule"})
		}
		return x.rule(r, pos, false)
	case "pat":
		return x.pattern(e, pos)
	case "seq":
		return x.sequence(e, pos)
	}
	panic("op " + e.Op)
}

func (x *refRun) pattern(e *expr, pos int) (*val, int) {
	arr := &val{k: 'a'}
	end := pos
	min, max := e.Min, e.Max
	for max < 0 || len(arr.kids) < max {
		p := end
		if len(arr.kids) > 0 && len(e.Kids) > 1 {
			j, q := x.eval(e.Kids[1], p, false)
			if j == nil {
				break
			}
			p = q
		}
		v, q := x.eval(e.Kids[0], p, false)
		if v == nil {
			break
		}
		// a match that consumes nothing ends an unbounded repetition
		if max < 0 && q == end && len(arr.kids) >= min && len(arr.kids) > 0 {
			break
		}
		arr.kids = append(arr.kids, v)
		end = q
	}
	if len(arr.kids) < min {
		return nil, pos
	}
	return arr, end
}

func (x *refRun) sequence(e *expr, pos int) (*val, int) {
	p := pos
	var vals []*val
	g := x.g
	und := &val{k: 'u'}
	object := len(g.labels(e)) > 0
	var res *val
	undef := func() bool { return res == nil || res.k == 'u' }
	merge := func(a, b *val) *val { // a extended with b
		if b.k == 'u' {
			return a
		}
		if a.k != 'm' || b.k != 'm' {
			panic(outside{"merging something else than maps"})
		}
		a = a.copyMap()
		for _, k := range b.keys {
			a.set(k, b.m[k])
		}
		return a
	}
	for _, k := range e.Kids {
		v, q := x.eval(k, p, true)
		if v == nil {
			return nil, pos
		}
		vals = append(vals, v)
		p = q
		if !object {
			continue
		}
		switch l := g.label(k); l {
		case "":
		case "&":
			if undef() {
				res = v.copyMap()
			} else {
				res = merge(v, res)
			}
		case "@":
			if undef() {
				res = v.copyMap()
			} else {
				res = merge(res, v)
			}
		default:
			if undef() {
				res = newMap()
			}
			if res.k != 'm' {
				panic(outside{"labels in something else than a map"})
			}
			res.set(l, v)
		}
	}
	if object {
		if res == nil {
			return und, p
		}
		return res, p
	}
	if g.captures(e) > 1 {
		arr := &val{k: 'a'}
		for i, k := range e.Kids {
			if g.capture(k) {
				arr.kids = append(arr.kids, vals[i])
			}
		}
		return arr, p
	}
	res = und
	for i, k := range e.Kids {
		if g.capture(k) {
			res = vals[i]
		}
	}
	return res, p
}

// ---------------------------------------------------------------- labels and captures

func (g *refGrammar) label(e *expr) string {
	if e.Label == "" && e.Op == "opt" && len(g.labels(e)) > 0 {
		return "@"
	}
	return e.Label
}

func (g *refGrammar) labels(e *expr) []string {
	switch e.Op {
	case "seq":
		var a []string
		for _, k := range e.Kids {
			a = append(a, g.labels(k)...)
		}
		return a
	case "opt":
		if e.Label != "" && e.Label != "@" && e.Label != "&" {
			return []string{e.Label}
		}
		return g.labels(e.Kids[0])
	case "ref":
		if e.Label == "@" {
			r := g.rules[string(e.S)]
			if r == nil || r.Rules != nil {
				return nil
			}
			return g.labels(r.Body)
		}
	}
	if e.Label != "" {
		return []string{e.Label}
	}
	return nil
}

// does it capture, as an element of a sequence?
func (g *refGrammar) capture(e *expr) bool {
	switch e.Op {
	case "str", "look", "not":
		return false
	case "ref":
		return !strings.HasPrefix(string(e.S), "_")
	case "choice":
		for _, k := range e.Kids {
			if !g.capture(k) {
				return false
			}
		}
		return true
	case "opt":
		return g.captures(e.Kids[0]) > 0
	case "pat":
		switch v := e.Kids[0]; v.Op {
		case "choice", "opt", "pat", "seq":
			if v.Op == "pat" {
				return g.capture(v)
			}
			return true
		default:
			return g.capture(v)
		}
	}
	return true
}

func (g *refGrammar) captures(e *expr) int {
	switch e.Op {
	case "seq":
		n := 0
		for _, k := range e.Kids {
			n += g.captures(k)
		}
		return n
	case "opt":
		return g.captures(e.Kids[0])
	}
	if g.capture(e) {
		return 1
	}
	return 0
}

func lineOf(text string, off int) int { return strings.Count(text[:off], "\n") }
func colOf(text string, off int) int  { return off - (strings.LastIndex(text[:off], "\n") + 1) }
