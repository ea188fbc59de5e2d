package joeson_test

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

type tnode struct {
	*joeson.Attr
	tag string
	it  joeson.Ast
}

func (n tnode) String() string { return n.tag + "(" + n.it.String() + ")" }

func showAst(a joeson.Ast) string {
	switch v := a.(type) {
	case nil:
		return "nil"
	case joeson.NativeString:
		return strconv.QuoteToASCII(string(v))
	case *joeson.NativeArray:
		var t []string
		for _, x := range *v {
			t = append(t, showAst(x))
		}
		return "[" + strings.Join(t, " ") + "]"
	case *joeson.NativeMap:
		var t []string
		for _, k := range v.Keys() {
			t = append(t, k+":"+showAst(v.Get(k)))
		}
		return "{" + strings.Join(t, " ") + "}"
	case joeson.NativeUndefined:
		return "U"
	case tnode:
		return v.tag + "(" + showAst(v.it) + ")"
	case joeson.ParseError:
		return "ERROR"
	default:
		return fmt.Sprintf("?%T", a)
	}
}

// what the callbacks of a grammar under test share
type session struct {
	log   []string
	armed string
}

func (s *session) call(r *prule, it joeson.Ast, ctx *joeson.ParseContext) joeson.Ast {
	s.logCall(r, it, ctx)
	wrap := tnode{joeson.NewAttr(), r.full, it}
	switch r.CB {
	case cbMaybe:
		if hashOf(showAst(it))%3 == 0 {
			return nil
		}
	case cbIdentity:
		return it
	case cbNil:
		return nil
	case cbPanic:
		if s.armed == r.full {
			panic(cbPanicked{r.full})
		}
	}
	return wrap
}

func (s *session) logCall(r *prule, it joeson.Ast, ctx *joeson.ParseContext) {
	pos := "?"
	if ctx != nil {
		pos = strconv.Itoa(ctx.Code.Pos())
	}
	s.log = append(s.log, fmt.Sprintf("%s@%s:%s", r.full, pos, showAst(it)))
}

// toLine builds the joeson rule line
func (s *session) toLine(r *prule) joeson.Line {
	var content any
	if r.Rules != nil {
		var ls []joeson.Line
		for _, k := range r.Rules {
			ls = append(ls, s.toLine(k))
		}
		content = ls
	} else {
		content = render(r.Body)
	}
	if r.Name != "" {
		content = joeson.Named(r.Name, content)
	}
	args := []any{content}
	if r.CB != cbNone {
		r := r
		switch r.CBForm {
		case 1:
			args = append(args, func(it joeson.Ast, ctx *joeson.ParseContext) joeson.Ast { return s.call(r, it, ctx) })
		case 2:
			args = append(args, func(it joeson.Ast, ctx *joeson.ParseContext, caller joeson.Ast) joeson.Ast {
				return s.call(r, it, ctx)
			})
		default:
			// no context: positions are not logged
			args = append(args, func(it joeson.Ast) joeson.Ast { return s.call(r, it, nil) })
		}
	}
	if r.NoCache {
		args = append(args, joeson.SkipCache{true})
	}
	if r.Debug {
		args = append(args, joeson.Debug{true})
	}
	if r.SkipLog {
		args = append(args, joeson.SkipLog{true})
	}
	if r.Kind == "i" {
		return joeson.I(args...)
	}
	return joeson.O(args...)
}

var sharedJoeson = helpers.LazyFromFunc(func() *joeson.Grammar { return joeson.NewJoesonWithOptions(joeson.Mute()) })

func (s *session) compile(rules []*prule, to *joeson.TraceOptions) *joeson.Grammar {
	var ls []joeson.Line
	for _, r := range rules {
		ls = append(ls, s.toLine(r))
	}
	return joeson.GrammarWithOptionsFromLines("G", joeson.GrammarOptions{TraceOptions: to, LazyGrammar: sharedJoeson}, ls)
}

// ---------------------------------------------------------------- cases

type traceCase struct {
	Stack, Loop, Grammar, SkipSetup bool
	Line                            int
	Debug, SkipLog                  bool // parse options
}

type pegCase struct {
	Rules  []*prule   `json:"rules"`
	Texts  []S        `json:"texts"`
	Armed  []string   `json:"armed,omitempty"`  // per text: rule whose callback panics
	Tokens [][]int    `json:"tokens,omitempty"` // per text: cut it into tokens of those lengths, each followed by a gap
	Trace  *traceCase `json:"trace,omitempty"`
	NoLog  bool       `json:"nolog,omitempty"` // do not compare callback histories and origins
	Fuse   bool       `json:"fuse,omitempty"`  // parse every text twice
}

func (c *pegCase) describe() string {
	var b strings.Builder
	var f func(rs []*prule, ind string)
	f = func(rs []*prule, ind string) {
		for _, r := range rs {
			b.WriteString(ind + r.Kind + "(" + r.Name + " ")
			if r.Rules != nil {
				b.WriteString("\n")
				f(r.Rules, ind+"   ")
			} else {
				b.WriteString("`" + render(r.Body) + "`")
			}
			b.WriteString(fmt.Sprintf(" cb=%d nocache=%v)\n", r.CB, r.NoCache))
		}
	}
	f(c.Rules, "   ")
	return b.String()
}

// where a text is cut into tokens: the original text is the tokens with gaps
func tokenize(text string, cuts []int) (original string, toks []joeson.Token) {
	off := 0
	i := 0
	for off < len(text) {
		n := 1
		if len(cuts) > 0 {
			n = cuts[i%len(cuts)]
		}
		if n < 1 {
			n = 1
		}
		if off+n > len(text) {
			n = len(text) - off
		}
		gap := []string{"", " ", "\n", "  \n "}[(i*7+n)%4]
		original += gap
		toks = append(toks, joeson.Token{Repr: text[off : off+n], OriginalOffset: len(original), WorkOffset: off})
		original += text[off : off+n]
		off += n
		i++
	}
	original += "\n "
	return
}

// offset of the work text -> offset of the original text, from the definition
func origOffset(toks []joeson.Token, off int) int {
	if len(toks) == 0 {
		return 0
	}
	for _, t := range toks {
		if off >= t.WorkOffset && off < t.WorkOffset+len(t.Repr) {
			return t.OriginalOffset + off - t.WorkOffset
		}
	}
	t := toks[len(toks)-1]
	return t.OriginalOffset + off - t.WorkOffset
}

var reWhere = regexp.MustCompile(`at char:(-?\d+)=\(line:(-?\d+),col:(-?\d+)\)`)

func cmpOrigin(path string, a joeson.Ast, v *val, code string, lineOfPos func(int) int) string {
	switch x := a.(type) {
	case tnode:
		o := x.GetOrigin()
		if o.Start != v.start || o.End != v.end || o.RuleName != v.origin || o.Code != code || o.Line != lineOfPos(v.end) || x.GetLine() != o.Line {
			return fmt.Sprintf("origin of %s at %s is start=%d end=%d line=%d rule=%q, expected start=%d end=%d line=%d rule=%q (code recorded correctly: %v)",
				x.tag, path, o.Start, o.End, o.Line, o.RuleName, v.start, v.end, lineOfPos(v.end), v.origin, o.Code == code)
		}
		return cmpOrigin(path+"/"+x.tag, x.it, v.kids[0], code, lineOfPos)
	case *joeson.NativeArray:
		for i, y := range *x {
			if m := cmpOrigin(path+"["+strconv.Itoa(i)+"]", y, v.kids[i], code, lineOfPos); m != "" {
				return m
			}
		}
	case *joeson.NativeMap:
		for _, k := range x.Keys() {
			if m := cmpOrigin(path+"."+k, x.Get(k), v.m[k], code, lineOfPos); m != "" {
				return m
			}
		}
	}
	return ""
}

// runRef gives the expectation; ok=false when the case is out of scope
func runRef(g *refGrammar, text, armed string) (v *val, end int, log []string, panicked bool, ok bool) {
	x := g.run(text, armed)
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case tooMuch, outside:
				ok = false
			case cbPanicked:
				panicked, ok = true, true
				log = x.log
			default:
				panic(e)
			}
		}
	}()
	v, end = x.parse()
	return v, end, x.log, false, true
}

// normalise positions away for callbacks without context
func sameLog(c *pegCase, want, got []string, g *refGrammar) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d callback calls, expected %d\n got: %q\nwant: %q", len(got), len(want), got, want)
	}
	for i := range want {
		if want[i] != got[i] {
			// "?" stands for any position
			j := strings.Index(got[i], "@?:")
			if j >= 0 {
				w := want[i]
				at := strings.Index(w, "@")
				co := strings.Index(w, ":")
				if at >= 0 && co > at && w[:at] == got[i][:j] && w[co+1:] == got[i][j+3:] {
					continue
				}
			}
			return fmt.Sprintf("callback call %d is %q, expected %q", i, got[i], want[i])
		}
	}
	return ""
}

func checkPeg(raw json.RawMessage) string {
	c := dec[pegCase](raw)
	g := newRefGrammar(c.Rules)
	s := &session{}
	to := joeson.Mute()
	var popts []joeson.ParseOption
	if c.Trace != nil {
		to = &joeson.TraceOptions{Stack: c.Trace.Stack, Loop: c.Trace.Loop, Grammar: c.Trace.Grammar, FilterLine: c.Trace.Line, SkipSetup: c.Trace.SkipSetup}
		if c.Trace.Debug {
			popts = append(popts, joeson.Debug{true})
		}
		if c.Trace.SkipLog {
			popts = append(popts, joeson.SkipLog{true})
		}
	}
	toBefore := *to
	gm := s.compile(c.Rules, to)
	if gm.CountRules() != g.count {
		return fmt.Sprintf("the grammar has %d rules, expected %d\n%s", gm.CountRules(), g.count, c.describe())
	}
	n := 0
	times := 1
	if c.Fuse {
		times = 2
	}
	for rep := 0; rep < times; rep++ {
		for i, t := range c.Texts {
			text := string(t)
			armed := ""
			if i < len(c.Armed) {
				armed = c.Armed[i]
			}
			want, end, wlog, wpanic, ok := runRef(g, text, armed)
			if !ok {
				continue
			}
			n++
			ctx := fmt.Sprintf("\ntext: %s\ngrammar:\n%s", strconv.QuoteToASCII(text), c.describe())
			s.log, s.armed = nil, armed
			var got joeson.Ast
			var panicked any
			var toks []joeson.Token
			original := text
			useTokens := i < len(c.Tokens)
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, mine := e.(cbPanicked); !mine {
							panic(e)
						}
						panicked = e
					}
				}()
				if useTokens {
					original, toks = tokenize(text, c.Tokens[i])
					got = gm.ParseTokens(joeson.NewTokenStream(original, toks), popts...)
				} else {
					got = gm.ParseString(text, popts...)
				}
			}()
			if *gm.TraceOptions != toBefore {
				return fmt.Sprintf("the grammar's options changed from %+v to %+v%s", toBefore, *gm.TraceOptions, ctx)
			}
			if wpanic != (panicked != nil) {
				return fmt.Sprintf("callback panicked: %v, expected: %v%s", panicked != nil, wpanic, ctx)
			}
			if !c.NoLog {
				if m := sameLog(&c, wlog, s.log, g); m != "" {
					return m + ctx
				}
			}
			if wpanic {
				continue
			}
			if end != len(text) {
				pe, is := got.(joeson.ParseError)
				if !is {
					return fmt.Sprintf("entry rules stop at %d of %d but the result is %s, not a parse error%s", end, len(text), showAst(got), ctx)
				}
				m := reWhere.FindStringSubmatch(pe.ErrorString)
				if m == nil {
					return "no coordinates in the error: " + pe.ErrorString + ctx
				}
				off, _ := strconv.Atoi(m[1])
				line, _ := strconv.Atoi(m[2])
				col, _ := strconv.Atoi(m[3])
				if off < end || off > len(text) {
					return fmt.Sprintf("error reported at %d, outside of [%d, %d]%s", off, end, len(text), ctx)
				}
				o := off
				if useTokens {
					o = origOffset(toks, off)
				}
				if line != lineOf(original, o) || col != colOf(original, o) {
					return fmt.Sprintf("error reported at offset %d, line %d, col %d: that offset is line %d, col %d%s", off, line, col, lineOf(original, o), colOf(original, o), ctx)
				}
				continue
			}
			if got != nil && joeson.IsParseError(got) {
				return fmt.Sprintf("parse error though the whole text is matched (as %s): %s%s", want.show(), got.String(), ctx)
			}
			if a, b := showAst(got), want.show(); a != b {
				return fmt.Sprintf("result is %s, expected %s%s", a, b, ctx)
			}
			if want != nil && !c.NoLog {
				lop := func(p int) int {
					if useTokens {
						return lineOf(original, origOffset(toks, p))
					}
					return lineOf(text, p)
				}
				if m := cmpOrigin("", got, want, original, lop); m != "" {
					return m + ctx
				}
			}
		}
	}
	if n == 0 {
		return "skip"
	}
	return ""
}

// ---------------------------------------------------------------- generation

type profile struct {
	ops       []string // operators, with repetition as weight
	cb        bool
	labels    bool
	nocache   bool
	ranks     bool
	recursion bool
	trace     bool
	panics    bool
	tokens    bool
	nullable  bool
	weird     bool // non-ASCII and invalid bytes
	rules     int
}

type pegGen struct {
	r     rng
	p     profile
	names []string
	idx   int // index of the rule being generated: refs go forward
	nlab  int
}

func (g *pegGen) lit() S {
	if g.p.nullable && g.r.oneIn(8) {
		return ""
	}
	if g.p.weird && g.r.oneIn(4) {
		return pick[S](g.r, "é", "世", "\n", "\\", "'", "é世", "a\n", "\t")
	}
	return pick[S](g.r, "a", "b", "c", "ab", "aa", "ba", "+", "a", "b", "\n")
}

func (g *pegGen) leaf() *expr {
	switch x := g.r.Intn(10); {
	case x < 5:
		return &expr{Op: "str", S: g.lit()}
	case x < 7:
		return &expr{Op: "cls", S: pick[S](g.r, "ab", "a-c", "^a", "b+", "^\\]", "a\n")}
	case x < 8:
		if g.p.nullable {
			return &expr{Op: "re", S: pick[S](g.r, "a*", "b?", "(ab)*", "^", "$")}
		}
		return &expr{Op: "re", S: pick[S](g.r, "ab|a", "[a-b]+", "a+b", "b+", "\\w", "[\\s\\S]", "^a", "a$")}
	default:
		if e := g.ref(); e != nil {
			return e
		}
		return &expr{Op: "str", S: g.lit()}
	}
}

func (g *pegGen) ref() *expr {
	if g.idx+1 >= len(g.names) {
		return nil
	}
	return &expr{Op: "ref", S: S(g.names[g.r.in(g.idx+1, len(g.names)-1)])}
}

func (g *pegGen) expr(depth int) *expr {
	if depth <= 0 {
		return g.leaf()
	}
	op := pick(g.r, g.p.ops...)
	switch op {
	case "leaf":
		return g.leaf()
	case "ref":
		if e := g.ref(); e != nil {
			return e
		}
		return g.leaf()
	case "choice":
		e := &expr{Op: "choice"}
		for i, n := 0, g.r.in(2, 4); i < n; i++ {
			e.Kids = append(e.Kids, g.expr(depth-1))
		}
		return e
	case "seq", "lseq":
		e := &expr{Op: "seq"}
		for i, n := 0, g.r.in(2, 4); i < n; i++ {
			k := g.expr(depth - 1)
			e.Kids = append(e.Kids, k)
		}
		if op == "lseq" && g.p.labels {
			for _, k := range e.Kids {
				if k.Label == "" && k.Op != "look" && k.Op != "not" && g.r.oneIn(2) {
					k.Label = pick(g.r, "x", "y", "z", "w")
				}
			}
			if g.r.oneIn(3) {
				// merge a labelled group
				sub := &expr{Op: "seq", Kids: []*expr{g.leaf(), g.leaf()}}
				sub.Kids[0].Label = pick(g.r, "x", "y", "v")
				if g.r.oneIn(2) {
					sub.Kids[1].Label = pick(g.r, "u", "w", "z")
				}
				var k *expr
				switch g.r.Intn(4) {
				case 3:
					in := g.leaf()
					in.Label = pick(g.r, "x", "y", "v")
					k = &expr{Op: "opt", Kids: []*expr{in}}
				case 0:
					sub.Label = pick(g.r, "&", "@")
					k = sub
				case 1:
					k = &expr{Op: "opt", Kids: []*expr{sub}}
				default:
					if k = g.ref(); k == nil {
						k = g.leaf()
					} else {
						k.Label = pick(g.r, "&", "@")
					}
				}
				i := g.r.Intn(len(e.Kids) + 1)
				e.Kids = append(e.Kids[:i], append([]*expr{k}, e.Kids[i:]...)...)
			}
		}
		return e
	case "opt", "look", "not":
		return &expr{Op: op, Kids: []*expr{g.expr(depth - 1)}}
	case "pat":
		e := &expr{Op: "pat", Kids: []*expr{g.expr(depth - 1)}, Min: -1, Max: -1}
		e.Form = pick(g.r, "*", "*", "+", "*{}", "{}", "*{}")
		if e.Form == "+" {
			e.Min = 1
		}
		if strings.Contains(e.Form, "{}") {
			if !g.r.oneIn(3) {
				e.Min = g.r.in(0, 3)
			}
			if !g.r.oneIn(3) {
				e.Max = g.r.in(0, 4)
			}
		}
		if e.Form != "{}" && g.r.oneIn(2) {
			e.Kids = append(e.Kids, g.expr(g.r.Intn(depth)))
		}
		return e
	}
	panic(op)
}

func (g *pegGen) addRecursion(e *expr, name string) *expr {
	// a guarded recursion: '(' name ')' or the expression
	return &expr{Op: "choice", Kids: []*expr{
		{Op: "seq", Kids: []*expr{{Op: "str", S: "("}, {Op: "ref", S: S(name)}, {Op: "str", S: ")"}}},
		e,
	}}
}

func (g *pegGen) rule(kind, name string, depth int) *prule {
	r := &prule{Kind: kind, Name: name}
	if g.p.cb && !g.r.oneIn(3) {
		r.CB = pick(g.r, cbWrap, cbWrap, cbWrap, cbMaybe, cbIdentity, cbNil)
		if g.p.panics && g.r.oneIn(2) {
			r.CB = cbPanic
		}
		r.CBForm = g.r.Intn(3)
	}
	if g.p.nocache && g.r.oneIn(3) {
		r.NoCache = true
	}
	if g.p.trace {
		r.Debug = g.r.oneIn(4)
		r.SkipLog = g.r.oneIn(4)
	}
	if g.p.ranks && name != "" && depth > 0 && g.r.oneIn(3) {
		n := g.r.in(1, 3)
		for i := 0; i < n; i++ {
			sub := ""
			if g.r.oneIn(3) {
				sub = name + "s" + strconv.Itoa(i)
			}
			r.Rules = append(r.Rules, g.rule("o", sub, depth-1))
		}
		if g.r.oneIn(2) {
			in := g.rule("i", name+"in", 0)
			at := g.r.Intn(len(r.Rules) + 1)
			r.Rules = append(r.Rules[:at], append([]*prule{in}, r.Rules[at:]...)...)
		}
		return r
	}
	r.Body = g.expr(depth)
	if g.p.recursion && name != "" && g.r.oneIn(3) {
		r.Body = g.addRecursion(r.Body, name)
	}
	return r
}

// derive produces a text the expression is likely to match
func derive(g *refGrammar, e *expr, r rng, fuel *int) string {
	*fuel--
	if *fuel < 0 {
		return ""
	}
	switch e.Op {
	case "str":
		return string(e.S)
	case "cls":
		return map[S]string{"ab": "b", "a-c": "c", "^a": "b", "b+": "+", "^\\]": "a", "a\n": "\n"}[e.S]
	case "re":
		return map[S]string{"ab|a": "ab", "[a-b]+": "aba", "a+b": "aab", "b+": "bb", "\\w": "c", "[\\s\\S]": "世", "a*": "aa", "b?": "b", "(ab)*": "abab", "^a": "a", "a$": "a"}[e.S]
	case "choice":
		return derive(g, e.Kids[r.Intn(len(e.Kids))], r, fuel)
	case "seq":
		s := ""
		for _, k := range e.Kids {
			s += derive(g, k, r, fuel)
		}
		return s
	case "opt":
		if r.oneIn(2) {
			return ""
		}
		return derive(g, e.Kids[0], r, fuel)
	case "look", "not":
		return ""
	case "ref":
		if q := g.rules[string(e.S)]; q != nil {
			return deriveRule(g, q, r, fuel)
		}
		return ""
	case "pat":
		n := r.in(0, 4)
		if e.Min > n {
			n = e.Min
		}
		if e.Max >= 0 && n > e.Max && !r.oneIn(4) {
			n = e.Max
		}
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 && len(e.Kids) > 1 {
				s += derive(g, e.Kids[1], r, fuel)
			}
			s += derive(g, e.Kids[0], r, fuel)
		}
		if len(e.Kids) > 1 && r.oneIn(6) {
			s += derive(g, e.Kids[1], r, fuel)
		}
		return s
	}
	return ""
}

func deriveRule(g *refGrammar, q *prule, r rng, fuel *int) string {
	*fuel--
	if *fuel < 0 {
		return ""
	}
	if q.Rules == nil {
		return derive(g, q.Body, r, fuel)
	}
	var os []*prule
	for _, k := range q.Rules {
		if k.Kind == "o" {
			os = append(os, k)
		}
	}
	if len(os) == 0 {
		return ""
	}
	return deriveRule(g, os[r.Intn(len(os))], r, fuel)
}

func mutate(s string, r rng, weird bool) string {
	b := []byte(s)
	for n := r.in(0, 2); n > 0; n-- {
		alpha := "abc+\n("
		switch r.Intn(4) {
		case 0:
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 1:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{alpha[r.Intn(len(alpha))]}, b[i:]...)...)
		case 2:
			if len(b) > 0 {
				b[r.Intn(len(b))] = alpha[r.Intn(len(alpha))]
			}
		case 3:
			if weird {
				i := r.Intn(len(b) + 1)
				b = append(b[:i:i], append([]byte{pick[byte](r, 0x80, 0xc3, 0xff, 0)}, b[i:]...)...)
			}
		}
	}
	return string(b)
}

func (p profile) gen(r rng, size int) any {
	g := &pegGen{r: r, p: p}
	n := r.in(1, 2+size/3)
	if p.rules > 0 && n > p.rules {
		n = p.rules
	}
	for i := 0; i < n; i++ {
		nm := "R" + strconv.Itoa(i)
		if i > 0 && r.oneIn(5) {
			nm = "_R" + strconv.Itoa(i)
		}
		g.names = append(g.names, nm)
	}
	c := &pegCase{}
	for i := 0; i < n; i++ {
		g.idx = i
		kind := "i"
		if i == 0 || (i == 1 && r.oneIn(2)) {
			kind = "o"
		}
		depth := 1 + size/4
		if depth > 3 {
			depth = 3
		}
		c.Rules = append(c.Rules, g.rule(kind, g.names[i], r.in(1, depth)))
	}
	if p.ranks && r.oneIn(3) && n > 1 { // declaration order does not matter for `i` rules
		c.Rules[0], c.Rules[n-1] = c.Rules[n-1], c.Rules[0]
	}
	ref := newRefGrammar(c.Rules)
	var entry []*prule
	for _, q := range c.Rules {
		if q.Kind == "o" {
			entry = append(entry, q)
		}
	}
	for i, k := 0, r.in(3, 6); i < k; i++ {
		fuel := 60
		t := deriveRule(ref, entry[r.Intn(len(entry))], r, &fuel)
		if len(t) > 80 {
			t = t[:80]
		}
		if !r.oneIn(3) {
			t = mutate(t, r, p.weird)
		}
		c.Texts = append(c.Texts, S(t))
		armed := ""
		if p.panics && r.oneIn(2) {
			for name, q := range ref.rules {
				if q.CB == cbPanic && (armed == "" || name < armed) && !r.oneIn(3) {
					armed = name
				}
			}
		}
		if p.panics {
			c.Armed = append(c.Armed, armed)
		}
		if p.tokens && (i == 0 || len(c.Tokens) == i) && r.oneIn(2) {
			c.Tokens = append(c.Tokens, []int{r.in(1, 4), r.in(1, 3), r.in(1, 5)})
		}
	}
	c.Fuse = r.oneIn(4) || p.panics
	if p.trace {
		c.Trace = &traceCase{
			Stack: r.oneIn(2), Loop: r.oneIn(2), Grammar: r.oneIn(3), SkipSetup: r.oneIn(2),
			Line: pick(r, -1, -1, 0, 1, 2), Debug: r.oneIn(3), SkipLog: r.oneIn(3),
		}
	}
	return c
}

// ---------------------------------------------------------------- left recursion

func genLeftRec(trace bool) func(r rng, size int) any {
	return func(r rng, size int) any {
		c := &pegCase{NoLog: true}
		levels := r.in(1, 3)
		ops := []S{"+", "-", "a", "++", "."}
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		name := func(i int) string { return "L" + strconv.Itoa(i) }
		for i := 0; i < levels; i++ {
			self := func(l string) *expr { return &expr{Op: "ref", S: S(name(i)), Label: l} }
			next := func(l string) *expr { return &expr{Op: "ref", S: S(name(i + 1)), Label: l} }
			lit := func(s S) *expr { return &expr{Op: "str", S: s} }
			la, lb := "", ""
			if r.oneIn(3) {
				la, lb = "x", "y"
			}
			var rec *expr
			switch r.Intn(6) {
			case 0: // E op E
				rec = &expr{Op: "seq", Kids: []*expr{self(la), lit(ops[i]), self(lb)}}
			case 1: // E T (juxtaposition)
				rec = &expr{Op: "seq", Kids: []*expr{self(la), next(lb)}}
			case 2: // E op (a suffix)
				rec = &expr{Op: "seq", Kids: []*expr{self(la), lit(ops[i])}}
			case 3: // E op T? - may not advance in the operand
				rec = &expr{Op: "seq", Kids: []*expr{self(la), lit(ops[i]), {Op: "opt", Kids: []*expr{next("")}}}}
			case 4: // E '' : never advances
				rec = &expr{Op: "seq", Kids: []*expr{self(la), {Op: "opt", Kids: []*expr{lit(ops[i])}}}}
			default:
				rec = &expr{Op: "seq", Kids: []*expr{self(la), lit(ops[i]), next(lb)}}
			}
			alts := []*expr{rec}
			if r.oneIn(3) {
				alts = append(alts, &expr{Op: "seq", Kids: []*expr{self(""), lit(ops[(i+1)%len(ops)]), next("")}})
			}
			base := next("")
			if r.oneIn(8) {
				base = nil // no base: the recursion fails
			}
			if base != nil {
				if r.oneIn(4) {
					alts = append([]*expr{base}, alts...)
				} else {
					alts = append(alts, base)
				}
			}
			rl := &prule{Kind: "i", Name: name(i)}
			if r.oneIn(2) && len(alts) > 1 {
				for _, a := range alts {
					sub := &prule{Kind: "o", Body: a}
					if r.oneIn(2) {
						sub.CB = cbWrap
						sub.CBForm = 1
					}
					rl.Rules = append(rl.Rules, sub)
				}
			} else if len(alts) > 1 {
				rl.Body = &expr{Op: "choice", Kids: alts}
			} else {
				rl.Body = alts[0]
			}
			if r.oneIn(2) {
				rl.CB = pick(r, cbWrap, cbWrap, cbMaybe)
				rl.CBForm = 1
			}
			c.Rules = append(c.Rules, rl)
		}
		leaf := &prule{Kind: "i", Name: name(levels), Body: &expr{Op: "choice", Kids: []*expr{
			{Op: "seq", Kids: []*expr{{Op: "str", S: "("}, {Op: "ref", S: S(name(0))}, {Op: "str", S: ")"}}},
			{Op: "cls", S: "0-9"},
		}}}
		c.Rules = append(c.Rules, leaf)
		main := &prule{Kind: "o", Name: "M", Body: &expr{Op: "ref", S: S(name(0))}}
		if r.oneIn(3) {
			main.Body = &expr{Op: "choice", Kids: []*expr{
				{Op: "seq", Kids: []*expr{{Op: "ref", S: S(name(0))}, {Op: "str", S: ";"}}},
				{Op: "ref", S: S(name(0))},
			}}
		}
		c.Rules = append([]*prule{main}, c.Rules...)
		for i, k := 0, r.in(3, 6); i < k; i++ {
			n := r.in(0, 3+size)
			t := ""
			d := 0
			for j := 0; j < n; j++ {
				switch r.Intn(7) {
				case 0, 1:
					t += pick(r, "1", "2", "3")
				case 2, 3:
					t += pick(r, "1", "2") + string(ops[r.Intn(levels+1)%len(ops)])
				case 4:
					t += string(ops[r.Intn(levels+1)%len(ops)])
				case 5:
					t += "("
					d++
				default:
					if d > 0 {
						t += "1)"
						d--
					} else {
						t += "1"
					}
				}
			}
			for ; d > 0; d-- {
				t += "2)"
			}
			if r.oneIn(3) {
				t += ";"
			}
			c.Texts = append(c.Texts, S(t))
		}
		if trace {
			c.Trace = &traceCase{
				Stack: r.oneIn(2), Loop: r.oneIn(2), Grammar: r.oneIn(3), SkipSetup: r.oneIn(2),
				Line: pick(r, -1, -1, 0, 1, 2), Debug: r.oneIn(3), SkipLog: r.oneIn(3),
			}
		}
		return c
	}
}

const pegBounds = "random grammars of at most 5 rules and expression depth 3, texts of at most 84 bytes, against a reference PEG interpreter"

func init() {
	base := []string{"leaf", "leaf", "ref", "seq", "choice"}
	w := func(extra ...string) []string { return append(append([]string{}, base...), extra...) }
	peg := func(props, name string, p profile) {
		reg(props, &kind{name: name, gen: p.gen, check: checkPeg, bounds: pegBounds})
	}
	// a small notation for fixed grammars
	str := func(x string) *expr { return &expr{Op: "str", S: S(x)} }
	ref := func(x string) *expr { return &expr{Op: "ref", S: S(x)} }
	lab := func(l string, e *expr) *expr { e.Label = l; return e }
	seq := func(k ...*expr) *expr { return &expr{Op: "seq", Kids: k} }
	cho := func(k ...*expr) *expr { return &expr{Op: "choice", Kids: k} }
	merged := func(l string) pegCase {
		return pegCase{Rules: []*prule{
			{Kind: "o", Name: "S", Body: cho(
				seq(lab("a", ref("A")), lab(l, ref("R")), str("z")),
				seq(lab(l, ref("A2")), lab("k", ref("A")), str("z")),
				seq(lab("a", ref("A")), lab("b", ref("R"))),
				seq(lab("c", ref("A2")), lab("d", str("a"))),
			)},
			{Kind: "i", Name: "A", Body: str("a")},
			{Kind: "i", Name: "R", Body: seq(lab("p", str("p")), lab("q", str("q")))},
			{Kind: "i", Name: "A2", Body: seq(lab("p", str("a")), lab("q", str("a")))},
		}, Texts: []S{"apq", "apqz", "aaa", "aaaz"}}
	}
	reg("C03 C09", &kind{name: "peg-merge", check: checkPeg, bounds: "fixed grammars where a merged map is requested again at the same position",
		fixed: func() []any { return []any{merged("&"), merged("@")} }})
	peg("C01", "peg-choice", profile{ops: []string{"leaf", "seq", "choice", "choice", "ref"}, ranks: true, cb: true})
	peg("C02", "peg-sequence", profile{ops: []string{"leaf", "seq", "seq", "choice", "ref", "opt"}, cb: true})
	peg("C03", "peg-shape", profile{ops: w("lseq", "lseq", "lseq", "opt", "look", "not", "pat"), labels: true})
	peg("C04", "peg-repetition", profile{ops: []string{"leaf", "pat", "pat", "seq", "choice", "ref"}, nullable: true})
	peg("C05", "peg-termination", profile{ops: []string{"leaf", "pat", "pat", "seq", "opt", "choice", "look", "not"}, nullable: true, cb: false})
	peg("C06", "peg-lookahead", profile{ops: w("look", "not", "look", "not", "pat")})
	peg("C07", "peg-optional", profile{ops: w("opt", "opt", "opt", "pat"), labels: true})
	peg("C08", "peg-terminals", profile{ops: []string{"leaf", "leaf", "seq", "choice", "pat"}, weird: true, nullable: true})
	peg("C09", "peg-cache", profile{ops: w("choice", "ref", "lseq", "pat", "not", "look", "opt"), labels: true, cb: true, nocache: true, recursion: true, ranks: true})
	peg("C11", "peg-complete", profile{ops: w("opt", "pat"), weird: true, tokens: true, cb: true, ranks: true})
	peg("C16", "peg-callbacks", profile{ops: w("opt", "pat", "look", "not", "lseq"), labels: true, cb: true, ranks: true, recursion: true})
	peg("C17", "peg-trace", profile{ops: w("opt", "pat", "look", "not", "lseq"), labels: true, cb: true, ranks: true, recursion: true, trace: true, weird: true, nocache: true})
	peg("C18", "peg-independence", profile{ops: w("opt", "pat"), cb: true, ranks: true, recursion: true, panics: true, trace: true})
	reg("C22", &kind{name: "peg-numbering", gen: profile{ops: w("opt", "pat"), labels: true, ranks: true, recursion: true, cb: true}.gen, bounds: "random grammars of at most 5 rules", check: func(raw json.RawMessage) string {
		c := dec[pegCase](raw)
		s := &session{}
		gm := s.compile(c.Rules, joeson.Mute())
		if m := ruleIds(gm); m != "" {
			return m + "\n" + c.describe()
		}
		return ""
	}})
	peg("C22", "peg-compile", profile{ops: w("opt", "pat", "look", "not", "lseq"), labels: true, ranks: true, recursion: true, cb: true})
	peg("C23", "peg-origin", profile{ops: w("opt", "pat", "look"), cb: true, ranks: true, recursion: true, tokens: true, weird: true})
	reg("C10", &kind{name: "peg-leftrec", gen: genLeftRec(false), check: checkPeg, bounds: "grammars of up to 3 levels of direct left recursion, texts of up to about 50 bytes, against seed growing"})
	reg("C17", &kind{name: "peg-leftrec-trace", gen: genLeftRec(true), check: checkPeg, bounds: "as peg-leftrec, with trace options"})
}
