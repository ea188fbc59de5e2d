package joeson_test

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/grepsuzette/joeson"
)

// A series of operations on a stream, compared with the definitions.
type streamCase struct {
	Text S     `json:"text"`
	Cuts []int `json:"cuts,omitempty"` // token stream when present
	Ops  []sop `json:"ops"`
}

type sop struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
	Ns []int  `json:"ns,omitempty"`
	S  S      `json:"s,omitempty"`
}

var streamRegexps = []string{"a+", "b*", "[^\n]*", "a|ab", "世", "$", "^b", "\\n", "\\bb"}

func runePred(n int) (func(rune) bool, *int) {
	calls := 0
	return func(r rune) bool {
		calls++
		switch n {
		case 0:
			return true
		case 1:
			return false
		case 2:
			return r == 'a'
		case 3:
			return r > 127
		case 4:
			return r == '\n'
		}
		return r != 'b'
	}, &calls
}

func firstRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func lastRunes(s string, n int) string {
	i := len(s)
	for ; n > 0 && i > 0; n-- {
		_, k := utf8.DecodeLastRuneInString(s[:i])
		i -= k
	}
	return s[i:]
}

func peekLines(text string, line int, ns []int) string {
	switch len(ns) {
	case 0:
		ns = []int{0}
	case 1:
		ns = []int{ns[0], 0}
	}
	lo, hi := ns[0], ns[0]
	for _, n := range ns {
		if n < lo {
			lo = n
		}
		if n > hi {
			hi = n
		}
	}
	lines := strings.Split(text, "\n")
	lo, hi = lo+line, hi+line
	if lo < 0 {
		lo = 0
	}
	if hi > len(lines)-1 {
		hi = len(lines) - 1
	}
	if lo > hi {
		return ""
	}
	return strings.Join(lines[lo:hi+1], "\n")
}

func checkStream(raw json.RawMessage) string {
	c := dec[streamCase](raw)
	work := string(c.Text)
	original := work
	var st joeson.CodeStream
	var toks []joeson.Token
	if len(c.Cuts) > 0 {
		original, toks = tokenize(work, c.Cuts)
		st = joeson.NewTokenStream(original, toks)
	} else {
		st = joeson.NewRuneStream(work)
	}
	orig := func(p int) int {
		if len(c.Cuts) > 0 {
			return origOffset(toks, p)
		}
		return p
	}
	pos := 0
	for i, o := range c.Ops {
		what := fmt.Sprintf("op %d %s(n=%d ns=%v s=%q) on %q (tokens: %v) at %d", i, o.Op, o.N, o.Ns, string(o.S), work, len(c.Cuts) > 0, pos)
		bad := func(f string, a ...any) string { return what + ": " + fmt.Sprintf(f, a...) }
		switch o.Op {
		case "setpos":
			panicked := false
			func() {
				defer func() {
					if recover() != nil {
						panicked = true
					}
				}()
				st.SetPos(o.N)
			}()
			if out := o.N < 0 || o.N > len(work); out != panicked {
				return bad("panicked: %v", panicked)
			} else if !out {
				pos = o.N
			}
		case "str":
			want := strings.HasPrefix(work[pos:], string(o.S))
			ok, m := st.MatchString(string(o.S))
			if ok != want || ok && m != string(o.S) {
				return bad("got %v %q", ok, m)
			}
			if ok {
				pos += len(o.S)
			}
		case "re":
			src := streamRegexps[o.N%len(streamRegexps)]
			loc := regexp.MustCompile(`\A(?:` + src + `)`).FindStringIndex(work[pos:])
			ok, m := st.MatchRegexp(*regexp.MustCompile("(" + src + ")"))
			if ok != (loc != nil) || ok && m != work[pos:pos+loc[1]] {
				return bad("regexp %q: got %v %q, expected %v", src, ok, m, loc)
			}
			if ok {
				pos += loc[1]
			}
		case "rune":
			f, calls := runePred(o.N)
			ok, m := st.MatchRune(f)
			if pos == len(work) {
				if ok || *calls != 0 {
					return bad("matched at the end of the text")
				}
				break
			}
			r, n := firstRune(work[pos:])
			g, _ := runePred(o.N)
			if ok != g(r) || ok && m != r {
				return bad("got %v %q, rune is %q", ok, m, r)
			}
			if ok {
				pos += n
			}
		case "until":
			got := st.GetUntil(string(o.S))
			end := len(work)
			if k := strings.Index(work[pos:], string(o.S)); k >= 0 {
				end = pos + k + len(o.S)
			}
			if got != work[pos:end] {
				return bad("got %q, expected %q", got, work[pos:end])
			}
			pos = end
		case "peek":
			got := st.PeekRunes(o.N)
			var want string
			if o.N <= 0 {
				want = lastRunes(work[:pos], -o.N)
			} else {
				if !utf8.ValidString(work[pos:]) {
					continue
				}
				n, k := o.N, pos
				for n > 0 && k < len(work) {
					_, w := firstRune(work[k:])
					k += w
					n--
				}
				want = work[pos:k]
			}
			if got != want {
				return bad("got %q, expected %q", got, want)
			}
		case "lines":
			got := st.PeekLines(append([]int(nil), o.Ns...)...)
			if want := peekLines(original, lineOf(original, orig(pos)), o.Ns); got != want {
				return bad("got %q, expected %q", got, want)
			}
		case "where":
			n := o.N
			if n < 0 || n > len(work) {
				n = pos
			}
			w := orig(n)
			if l, c := st.PosToLine(n), st.PosToCol(n); l != lineOf(original, w) || c != colOf(original, w) {
				return bad("offset %d is reported at line %d col %d, expected line %d col %d", n, l, c, lineOf(original, w), colOf(original, w))
			}
			w = orig(pos)
			if l, c := st.Line(), st.Col(); l != lineOf(original, w) || c != colOf(original, w) {
				return bad("cursor is reported at line %d col %d, expected line %d col %d", l, c, lineOf(original, w), colOf(original, w))
			}
		case "print":
			_ = st.Print()
			if len(c.Cuts) == 0 || pos <= len(original) {
				_ = st.PrintDebug()
			}
		}
		if st.Pos() != pos {
			return bad("the position is then %d, expected %d", st.Pos(), pos)
		}
		if st.Code() != original || st.Length() != len(original) {
			return bad("the text or its length changed")
		}
	}
	return ""
}

func genText(r rng, n int, invalid bool) string {
	s := ""
	for i := 0; i < n; i++ {
		switch x := r.Intn(12); {
		case x < 5:
			s += pick(r, "a", "b", "ab", "c")
		case x < 8:
			s += "\n"
		case x < 10:
			s += pick(r, "é", "世", "\U0001F600", "\uFFFD", " ")
		case x < 11 && invalid:
			s += pick(r, "\x80", "\xff", "\xe4\xb8", "\xc3")
		default:
			s += "aa"
		}
	}
	return s
}

func genStream(ops []string, invalid bool, tokens int) func(r rng, size int) any {
	return func(r rng, size int) any {
		c := streamCase{Text: S(genText(r, r.in(0, 2+size*2), invalid))}
		if tokens == 2 || tokens == 1 && r.oneIn(2) {
			c.Cuts = []int{r.in(1, 4), r.in(1, 3), r.in(1, 6), r.in(1, 2)}
		}
		n := len(c.Text)
		for i, k := 0, r.in(2, 10); i < k; i++ {
			o := sop{Op: pick(r, ops...)}
			switch o.Op {
			case "setpos":
				o.N = r.in(-2, n+2)
				if r.oneIn(2) {
					o.N = r.in(0, n)
				}
			case "str", "until":
				if n > 0 && r.oneIn(2) {
					a := r.Intn(n + 1)
					b := r.in(a, n)
					if b > a+4 {
						b = a + 4
					}
					o.S = c.Text[a:b]
				} else {
					o.S = S(pick(r, "a", "b", "\n", "ab", "", "世", "aaaaaaaaaaaaaaaaaaaaaaaaaa"))
				}
			case "re", "rune":
				o.N = r.Intn(9)
			case "peek":
				o.N = r.in(-4, 4)
				if r.oneIn(6) {
					o.N = pick(r, -100, 100)
				}
			case "lines":
				for j := r.in(0, 3); j > 0; j-- {
					o.Ns = append(o.Ns, r.in(-4, 4))
				}
			case "where":
				o.N = r.in(0, n)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

func init() {
	all := []string{"setpos", "str", "re", "rune", "until", "peek", "lines", "where", "print"}
	bounds := "texts of at most about 25 characters (invalid UTF-8 included), series of at most 10 operations"
	k := func(props, name string, ops []string, tokens int) {
		reg(props, &kind{name: name, gen: genStream(ops, true, tokens), check: checkStream, bounds: bounds})
	}
	k("C12", "stream-lines", []string{"where", "where", "setpos", "str", "rune", "until"}, 0)
	k("C13", "stream-tokens", []string{"where", "where", "setpos", "str", "rune"}, 2)
	k("C14", "stream-cursor", all, 1)
	k("C08", "stream-match", []string{"setpos", "str", "re", "rune"}, 1)
	k("C15", "stream-peek", []string{"peek", "lines", "until", "setpos"}, 1)
}
