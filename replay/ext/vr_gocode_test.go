package joeson_test

import (
	"encoding/json"
	"fmt"
	goscanner "go/scanner"
	"go/token"
	"reflect"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// C25: tokenizing Go source, judged against go/scanner run by the oracle.

type goCase struct {
	Sources []S `json:"sources"` // tokenized one after another; every one is judged
}

type scanTok struct {
	pos  int
	repr string // without the inserted space
}

func scanGo(src string) (toks []scanTok, errs int) {
	var sc goscanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("", fset.Base(), len(src))
	sc.Init(f, []byte(src), func(token.Position, string) {}, 0)
	for {
		pos, tok, lit := sc.Scan()
		if tok == token.EOF {
			break
		}
		r := lit
		if tok == token.SEMICOLON && lit == "\n" {
			r = ";\n"
		} else if lit == "" {
			r = tok.String()
		}
		toks = append(toks, scanTok{f.Offset(pos), r})
	}
	return toks, sc.ErrorCount
}

// the tokens of a stream, read through reflection; ok is false when the
// representation has changed
func tokensOf(ts *j.TokenStream) (toks []j.Token, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f := reflect.ValueOf(ts).Elem().FieldByName("tokens")
	if !f.IsValid() || f.Kind() != reflect.Slice {
		return nil, false
	}
	for i := 0; i < f.Len(); i++ {
		e := f.Index(i)
		toks = append(toks, j.Token{Repr: e.FieldByName("Repr").String(), OriginalOffset: int(e.FieldByName("OriginalOffset").Int()), WorkOffset: int(e.FieldByName("WorkOffset").Int())})
	}
	return toks, true
}

func workText(ts *j.TokenStream) string {
	ts.SetPos(0)
	defer ts.SetPos(0)
	return ts.GetUntil("\x00\x01no such text\x01\x00")
}

func checkGo(src string) string {
	toks, errs := scanGo(src)
	ts, err := j.TokenStreamFromGoCode(src)
	if errs > 0 {
		if err == nil {
			return fmt.Sprintf("%q has %d lexical errors; no error was reported", src, errs)
		}
		if ts != nil {
			return fmt.Sprintf("%q has lexical errors; a stream was returned with the error", src)
		}
		return ""
	}
	if err != nil || ts == nil {
		return fmt.Sprintf("%q has no lexical error; got %v", src, err)
	}
	if ts.Code() != src {
		return fmt.Sprintf("Code() is %q, not the source %q", ts.Code(), src)
	}
	work := workText(ts)
	got, ok := tokensOf(ts)
	if ok {
		if len(got) != len(toks) {
			return fmt.Sprintf("%q: %d tokens, want %d: %v", src, len(got), len(toks), got)
		}
		off := 0
		for i, t := range got {
			if t.WorkOffset != off {
				return fmt.Sprintf("%q: token %d (%q) has work offset %d, want %d", src, i, t.Repr, t.WorkOffset, off)
			}
			if strings.TrimPrefix(t.Repr, " ") != toks[i].repr && t.Repr != toks[i].repr {
				return fmt.Sprintf("%q: token %d is %q, want %q", src, i, t.Repr, toks[i].repr)
			}
			if t.OriginalOffset != toks[i].pos {
				return fmt.Sprintf("%q: token %d (%q) has original offset %d, want %d", src, i, t.Repr, t.OriginalOffset, toks[i].pos)
			}
			if off+len(t.Repr) > len(work) || work[off:off+len(t.Repr)] != t.Repr {
				return fmt.Sprintf("%q: work text %q does not hold token %d (%q) at %d", src, work, i, t.Repr, off)
			}
			off += len(t.Repr)
		}
		if off != len(work) {
			return fmt.Sprintf("%q: work text %q is longer than its tokens", src, work)
		}
	}
	// through the public interface: the first byte of every token maps to its place
	off := 0
	for i, t := range toks {
		sp := 0
		if strings.HasPrefix(work[minInt(off, len(work)):], " ") {
			sp = 1
		}
		if !strings.HasPrefix(work[minInt(off+sp, len(work)):], t.repr) {
			return fmt.Sprintf("%q: work text %q does not hold token %d (%q) at %d", src, work, i, t.repr, off)
		}
		if len(t.repr)+sp > 0 {
			line := strings.Count(src[:t.pos], "\n")
			col := t.pos - (strings.LastIndex(src[:t.pos], "\n") + 1)
			if l, c := ts.PosToLine(off), ts.PosToCol(off); l != line || c != col {
				return fmt.Sprintf("%q: token %d (%q) at work offset %d is reported on line %d, column %d; it is on line %d, column %d", src, i, t.repr, off, l, c, line, col)
			}
		}
		off += sp + len(t.repr)
	}
	return ""
}

var goPieces = []string{"a", "b1", "_", "x_", "ab", "αβ", "12", "0x1f", "3.5", "1e3", "2i", "'c'", "'\\n'", "\"s\"", "\"\"", "`raw\nq`", "func", "return", "package", "for", "break", "if", "+", "-", "*", "/", "==", "=", ":=", "<<", "&^=", "...", ".", ",", ";", "(", ")", "[", "]", "{", "}", "!", "<-", "++", "--", "|", "||", "&&", "~", "\n", "\n\n", " ", "  ", "\t", "// c\n", "/* c */", "/* c\n d */", "\r\n"}
var goBad = []string{"\"", "'", "`", "@", "#", "$", "?", "0x", "09", "'ab'", "\"\\z\"", "/*", "1_", "\x00", "\xff", "''"}

func genGo(r rng, size int) string {
	var b strings.Builder
	for n := r.in(0, 2+size*2); n > 0; n-- {
		if r.oneIn(18) {
			b.WriteString(pick(r, goBad...))
		} else {
			b.WriteString(pick(r, goPieces...))
		}
		if r.oneIn(2) {
			b.WriteString(pick(r, " ", " ", "\n", "\t"))
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- C22: numbering

func ruleIds(gm *j.Grammar) (msg string) {
	defer func() {
		if recover() != nil {
			msg = "" // the representation has changed: nothing to compare
		}
	}()
	m := reflect.ValueOf(gm).Elem().FieldByName("id2rule")
	if !m.IsValid() || m.Kind() != reflect.Map {
		return ""
	}
	n := gm.CountRules()
	if m.Len() != n {
		return fmt.Sprintf("%d rules are counted, %d are numbered", n, m.Len())
	}
	for i := 0; i < n; i++ {
		v := m.MapIndex(reflect.ValueOf(i))
		if !v.IsValid() {
			return fmt.Sprintf("no rule has number %d of %d", i, n)
		}
		// the rule itself must carry that number
		e := v
		for e.Kind() == reflect.Interface || e.Kind() == reflect.Pointer {
			e = e.Elem()
		}
		rf := e.FieldByName("rule")
		if rf.IsValid() && rf.Kind() == reflect.Pointer && !rf.IsNil() {
			if id := rf.Elem().FieldByName("id"); id.IsValid() && int(id.Int()) != i {
				return fmt.Sprintf("rule number %d is registered as %d", id.Int(), i)
			}
		}
	}
	return ""
}

func init() {
	reg("C25", &kind{name: "gocode", bounds: "up to 3 sources of up to ~22 lexemes (1 in 18 malformed), tokens compared with go/scanner's",
		fixed: func() []any {
			return []any{
				goCase{[]S{"", "a", "package x\nfunc f() {}\n"}},
				goCase{[]S{"a b", "\"x", "a b"}},
				goCase{[]S{"a = 1", "a 1,b", "x == y", "return x"}},
			}
		},
		gen: func(r rng, size int) any {
			c := goCase{}
			for n := r.in(1, 3); n > 0; n-- {
				c.Sources = append(c.Sources, S(genGo(r, size)))
			}
			return c
		},
		check: func(raw json.RawMessage) string {
			for i, s := range dec[goCase](raw).Sources {
				if m := checkGo(string(s)); m != "" {
					return fmt.Sprintf("source %d: %s", i, m)
				}
			}
			return ""
		}})
	// the streams of different calls are independent of each other
	reg("C25", &kind{name: "gocode-alias", bounds: "two sources of up to ~22 lexemes tokenized in turn, the first stream judged after the second call",
		gen: func(r rng, size int) any { return goCase{[]S{S(genGo(r, size)), S(genGo(r, size))}} },
		check: func(raw json.RawMessage) string {
			c := dec[goCase](raw)
			a, err := j.TokenStreamFromGoCode(string(c.Sources[0]))
			if err != nil {
				return "skip"
			}
			was := workText(a)
			toks, ok := tokensOf(a)
			was2 := fmt.Sprint(toks)
			j.TokenStreamFromGoCode(string(c.Sources[1]))
			if w := workText(a); w != was {
				return fmt.Sprintf("tokenizing %q changed the work text of an earlier stream from %q to %q", string(c.Sources[1]), was, w)
			}
			if toks, ok2 := tokensOf(a); ok && ok2 && fmt.Sprint(toks) != was2 {
				return fmt.Sprintf("tokenizing %q changed the tokens of an earlier stream", string(c.Sources[1]))
			}
			return ""
		}})

}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
