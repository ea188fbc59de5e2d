package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// C26: the example Lisp, judged by an evaluator of its own.

type sx struct {
	Num  *int   `json:"n,omitempty"`
	Op   string `json:"o,omitempty"` // operator of a list, or a bare word when Atom
	Atom bool   `json:"a,omitempty"`
	Args []*sx  `json:"args,omitempty"` // of a list; with Op == "" the list has no operator (cond branches)
}

func (e *sx) String() string {
	if e.Num != nil {
		return strconv.Itoa(*e.Num)
	}
	if e.Atom {
		return e.Op
	}
	var a []string
	if e.Op != "" {
		a = append(a, e.Op)
	}
	for _, x := range e.Args {
		a = append(a, x.String())
	}
	return "(" + strings.Join(a, " ") + ")"
}

type sxErr struct{}  // the evaluation is an error
type sxOpen struct{} // the property leaves the outcome open

type sxVal struct {
	n     float64
	empty bool
}

func truth(b bool) sxVal {
	if b {
		return sxVal{n: 1}
	}
	return sxVal{n: 0}
}

func evalNum(e *sx) float64 {
	v := evalSx(e)
	if v.empty {
		panic(sxOpen{}) // an empty list where a number is needed
	}
	return v.n
}

// strict evaluates all arguments
func strict(as []*sx) (r []float64) {
	for _, a := range as {
		r = append(r, evalNum(a))
	}
	return
}

func evalSx(e *sx) sxVal {
	if e.Num != nil {
		return sxVal{n: float64(*e.Num)}
	}
	if e.Atom {
		panic(sxErr{})
	}
	switch e.Op {
	case "+", "add":
		r := 0.
		for _, x := range strict(e.Args) {
			r += x
		}
		return sxVal{n: r}
	case "*", "mul":
		r := 1.
		for _, x := range strict(e.Args) {
			r *= x
		}
		return sxVal{n: r}
	case "-", "sub":
		if len(e.Args) < 2 {
			panic(sxErr{})
		}
		v := strict(e.Args)
		r := v[0]
		for _, x := range v[1:] {
			r -= x
		}
		return sxVal{n: r}
	case "%":
		if len(e.Args) != 2 {
			panic(sxErr{})
		}
		v := strict(e.Args)
		return sxVal{n: math.Mod(v[0], v[1])}
	case "<", "<=", ">", ">=", "==", "!=", "lt", "le", "gt", "ge", "eq", "neq", "eq?", "neq?":
		if len(e.Args) < 2 {
			panic(sxErr{})
		}
		rel := func(x, y float64) bool {
			switch e.Op {
			case "<", "lt":
				return x < y
			case "<=", "le":
				return x <= y
			case ">", "gt":
				return x > y
			case ">=", "ge":
				return x >= y
			case "==", "eq", "eq?":
				return x == y
			}
			return x != y
		}
		ok := true
		var v []float64
		for i, a := range e.Args {
			func() {
				defer func() {
					if p := recover(); p != nil {
						if !ok {
							panic(sxOpen{}) // whether the arguments after a false pair are evaluated is open
						}
						panic(p)
					}
				}()
				v = append(v, evalNum(a))
			}()
			if i > 0 && !rel(v[i-1], v[i]) {
				ok = false
			}
		}
		return truth(ok)
	case "and":
		for _, a := range e.Args {
			if evalNum(a) == 0 {
				return truth(false)
			}
		}
		return truth(true)
	case "or":
		for _, a := range e.Args {
			if evalNum(a) != 0 {
				return truth(true)
			}
		}
		return truth(false)
	case "not":
		if len(e.Args) != 1 {
			panic(sxErr{})
		}
		if knownNot { // the known finding: (not x) is the truth value of x
			return truth(evalNum(e.Args[0]) != 0)
		}
		return truth(evalNum(e.Args[0]) == 0)
	case "if":
		if len(e.Args) != 3 {
			panic(sxErr{})
		}
		if evalNum(e.Args[0]) != 0 {
			return evalSx(e.Args[1])
		}
		return evalSx(e.Args[2])
	case "cond":
		for _, b := range e.Args {
			if b.Args[0].Atom && b.Args[0].Op == "else" || evalNum(b.Args[0]) != 0 {
				return evalSx(b.Args[1])
			}
		}
		return sxVal{empty: true}
	}
	panic(sxErr{}) // unknown function
}

func genSx(r rng, depth int) *sx {
	if depth <= 0 || r.oneIn(4) {
		n := pick(r, 0, 1, 2, 3, -1, -2, 0, 7, 10)
		return &sx{Num: &n}
	}
	kids := func(lo, hi int) (a []*sx) {
		for n := r.in(lo, hi); n > 0; n-- {
			a = append(a, genSx(r, depth-1))
		}
		return
	}
	switch r.Intn(12) {
	case 0, 1:
		return &sx{Op: pick(r, "+", "*", "add", "mul"), Args: kids(0, 4)}
	case 2:
		return &sx{Op: pick(r, "-", "sub"), Args: kids(2, 4)}
	case 3, 4:
		return &sx{Op: pick(r, "<", "<=", ">", ">=", "==", "!=", "lt", "le", "gt", "ge", "eq", "neq", "eq?"), Args: kids(2, 4)}
	case 5, 6:
		return &sx{Op: pick(r, "and", "or"), Args: kids(0, 4)}
	case 7:
		return &sx{Op: "not", Args: kids(1, 1)}
	case 8:
		return &sx{Op: "if", Args: kids(3, 3)}
	case 9:
		e := &sx{Op: "cond"}
		for n := r.in(0, 3); n > 0; n-- {
			b := &sx{Args: kids(2, 2)}
			if r.oneIn(5) {
				b.Args[0] = &sx{Atom: true, Op: "else"}
			}
			if b.Args[0].Num != nil && r.oneIn(2) {
				b.Args[0] = &sx{Op: "or", Args: []*sx{b.Args[0]}}
			}
			e.Args = append(e.Args, b)
		}
		return e
	case 10:
		return &sx{Op: "%", Args: kids(2, 2)}
	}
	// an error
	return pick(r, &sx{Op: "nosuch", Args: kids(0, 1)}, &sx{Op: "-", Args: kids(0, 1)}, &sx{Op: "not", Args: kids(2, 2)}, &sx{Op: "if", Args: kids(2, 2)})
}

var lispGrammar = grammar()

type lispCase struct {
	Exprs   []*sx `json:"exprs"`             // evaluated one after another on one machine
	Aliased bool  `json:"aliased,omitempty"` // define functions and aliases in between
}

func runSx(e *sx) (v sxVal, bad, open bool) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case sxErr:
			bad = true
		case sxOpen:
			open = true
		default:
			panic(p)
		}
	}()
	return evalSx(e), false, false
}

func runLisp(m Machine, text string) (r Expr, panicked any) {
	ast := lispGrammar.ParseString(text)
	if j.IsParseError(ast) {
		return Expr{}, "parse error"
	}
	defer func() { panicked = recover() }()
	return m.Eval(ast.(Expr)), nil
}

var knownNot bool

func init() {
	reg("C26", &kind{name: "lisp", bounds: "random programs of nesting up to 4, at most 4 operands, small integers; malformed subterms probe what is evaluated",
		gen: func(r rng, size int) any {
			c := lispCase{}
			for n := r.in(1, 3); n > 0; n-- {
				e := genSx(r, r.in(1, 4))
				for e.Num != nil {
					e = genSx(r, 3)
				}
				c.Exprs = append(c.Exprs, e)
			}
			return c
		},
		check: func(raw json.RawMessage) string {
			c := dec[lispCase](raw)
			knownNot = false
			m := checkLisp(c)
			if m != "" && m != "skip" {
				knownNot = true
				if checkLisp(c) == "" {
					return ""
				}
			}
			return m
		}})
}

func checkLisp(c lispCase) string {
	m := NewMachine()
	n := 0
	for _, e := range c.Exprs {
		k := knownNot
		knownNot = !k
		_, _, open2 := runSx(e)
		knownNot = k
		want, bad, open := runSx(e)
		if open || open2 {
			continue
		}
		n++
		got, p := runLisp(m, e.String())
		if bad {
			if p == nil {
				return fmt.Sprintf("%s yields %s; an error was expected", e, got)
			}
			continue
		}
		if p != nil {
			return fmt.Sprintf("%s fails (%v); %v was expected", e, p, want)
		}
		if want.empty {
			if got.Kind != kindList || len(got.List.List) != 0 {
				return fmt.Sprintf("%s yields %s; an empty list was expected", e, got)
			}
			continue
		}
		if got.Kind != kindNumber || !(got.Number == want.n || math.IsNaN(got.Number) && math.IsNaN(want.n)) {
			return fmt.Sprintf("%s yields %s; %v was expected", e, got, want.n)
		}
	}
	if n == 0 {
		return "skip"
	}
	return ""
}
