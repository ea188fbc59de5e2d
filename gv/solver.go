package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- script

const preludeSorts = `(declare-sort Str 0)
(declare-sort Flt 0)
(declare-datatypes ((Any 0)) (((anil) (aref (rtag Int) (rptr Int)) (astr (stag Int) (sval Str)) (aint (itag Int) (ival Int)) (abox (btag Int) (bval Int)))))
`

// addAxiom registers an SMT-LIB axiom text, included whenever one of the symbols in `when` occurs in a query.
// needs: further symbols the text mentions.
func (c *Ctx) addAxiom(when []string, needs []string, text string) {
	a := &Axiom{text: text, needs: append(append([]string{}, when...), needs...)}
	for _, w := range when {
		c.axioms[w] = append(c.axioms[w], a)
	}
}

// addAxiomTerm is addAxiom for an axiom built as a term.
func (c *Ctx) addAxiomTerm(when []string, t *Term) {
	syms := map[string]bool{}
	collect(t, map[*Term]int{}, syms)
	var needs []string
	for s := range syms {
		needs = append(needs, s)
	}
	sort.Strings(needs)
	a := &Axiom{term: t, needs: needs}
	for _, w := range when {
		c.axioms[w] = append(c.axioms[w], a)
	}
}

// script renders (assert a1)...(assert an) with declarations, axioms and sharing.
func (c *Ctx) script(asserts []*Term) string {
	cnt := map[*Term]int{}
	syms := map[string]bool{}
	for _, a := range asserts {
		collect(a, cnt, syms)
	}
	// axiom closure
	var axs []*Axiom
	seenAx := map[*Axiom]bool{}
	work := []string{}
	for s := range syms {
		work = append(work, s)
	}
	sort.Strings(work)
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, a := range c.axioms[s] {
			if seenAx[a] {
				continue
			}
			seenAx[a] = true
			axs = append(axs, a)
			for _, n := range a.needs {
				if !syms[n] {
					syms[n] = true
					work = append(work, n)
				}
			}
		}
	}
	for _, a := range axs {
		if a.term != nil {
			collect(a.term, cnt, syms)
		}
	}
	var b strings.Builder
	b.WriteString(preludeSorts)
	names := []string{}
	for s := range syms {
		if _, ok := c.decls[s]; ok {
			names = append(names, s)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		b.WriteString(c.decls[s])
		b.WriteByte('\n')
	}
	if c.implFacts != nil {
		for _, f := range c.implFacts(syms) {
			b.WriteString(f)
			b.WriteByte('\n')
		}
	}
	defs := map[*Term]string{}
	for _, a := range axs {
		if a.term != nil {
			c.define(&b, a.term, cnt, defs)
			b.WriteString("(assert ")
			c.write(&b, a.term, defs)
			b.WriteString(")\n")
		} else {
			b.WriteString(a.text)
			b.WriteByte('\n')
		}
	}
	for _, a := range asserts {
		c.define(&b, a, cnt, defs)
		b.WriteString("(assert ")
		c.write(&b, a, defs)
		b.WriteString(")\n")
	}
	return b.String()
}

// define emits define-fun for shared ground subterms.
func (c *Ctx) define(b *strings.Builder, t *Term, cnt map[*Term]int, defs map[*Term]string) {
	if _, ok := defs[t]; ok || len(t.args) == 0 {
		return
	}
	for _, a := range t.args {
		c.define(b, a, cnt, defs)
	}
	for _, tg := range t.trigs {
		for _, x := range tg {
			c.define(b, x, cnt, defs)
		}
	}
	if t.bound || cnt[t] < 2 {
		return
	}
	switch t.op {
	case "sel", "is", "not", "ctor":
		if len(t.args) == 1 && len(t.args[0].args) == 0 {
			return
		}
	case "+", "*":
		return // keep visible to arithmetic patterns
	}
	n := fmt.Sprintf("$t%d", t.id)
	var e strings.Builder
	c.write(&e, t, defs)
	fmt.Fprintf(b, "(define-fun %s () %s %s)\n", n, t.sort, e.String())
	defs[t] = n
}

// ---------------------------------------------------------------- solver processes

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Pool struct {
	mu    sync.Mutex
	idle  []*proc
	sem   chan struct{}
	Calls int64
	Time  time.Duration
}

var z3New = firstExisting("/usr/local/bin/z3-new", "/usr/bin/z3")
var z3Old = firstExisting("/usr/bin/z3", "/usr/local/bin/z3-new")
var cvc5Bin = firstExisting("/usr/bin/cvc5", "/usr/local/bin/cvc5")

func firstExisting(ps ...string) string {
	for _, p := range ps {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return filepath.Base(ps[0])
}

func NewPool(n int) *Pool { return &Pool{sem: make(chan struct{}, n)} }

func (p *Pool) start() *proc {
	cmd := exec.Command(z3New, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}
}

// Check runs one query on a persistent z3; returns "unsat", "sat", "unknown".
func (p *Pool) Check(script string, ms int) string { return p.CheckOpt(script, ms, 0) }

// CheckOpt: mode 1 switches off relevancy filtering, mode 2 uses the default
// configuration (with model-based instantiation).
func (p *Pool) CheckOpt(script string, ms int, mode int) string {
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	p.mu.Lock()
	var pr *proc
	if len(p.idle) > 0 {
		pr = p.idle[len(p.idle)-1]
		p.idle = p.idle[:len(p.idle)-1]
	}
	p.Calls++
	p.mu.Unlock()
	if pr == nil {
		pr = p.start()
	}
	t0 := time.Now()
	done := make(chan string, 1)
	go func() {
		var b bytes.Buffer
		fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n(set-option :smt.auto_config %v)\n(set-option :smt.mbqi %v)\n(set-option :smt.relevancy %d)\n", ms, mode == 2, mode == 2, map[int]int{0: 2, 1: 0, 2: 2}[mode])
		b.WriteString(script)
		b.WriteString("(check-sat)\n(echo \"@@\")\n")
		if _, err := pr.in.Write(b.Bytes()); err != nil {
			done <- "error: " + err.Error()
			return
		}
		res := ""
		for {
			line, err := pr.out.ReadString('\n')
			if err != nil {
				done <- "error: " + err.Error()
				return
			}
			line = strings.TrimSpace(line)
			if line == "@@" || line == "\"@@\"" {
				break
			}
			if res == "" || strings.HasPrefix(line, "(error") {
				res = line
			}
		}
		done <- res
	}()
	var res string
	select {
	case res = <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond*2 + 3*time.Second):
		res = "unknown"
		pr.cmd.Process.Kill()
		pr.cmd.Wait()
		pr = nil
	}
	p.mu.Lock()
	p.Time += time.Since(t0)
	if pr != nil {
		if strings.HasPrefix(res, "error") {
			pr.cmd.Process.Kill()
			pr.cmd.Wait()
		} else {
			p.idle = append(p.idle, pr)
		}
	}
	p.mu.Unlock()
	if strings.HasPrefix(res, "(error") || strings.HasPrefix(res, "error") {
		f := fmt.Sprintf("/tmp/gv-solver-error-%d.smt2", os.Getpid())
		os.WriteFile(f, []byte(script), 0o644)
		if !strings.Contains(res, "timeout") && !strings.Contains(res, "canceled") {
			fmt.Fprintf(os.Stderr, "solver error: %s (script in %s)\n", res, f)
		}
		return "unknown"
	}
	return res
}

// Cvc5 asks cvc5 (one process per query).
func (p *Pool) Cvc5(script string, ms int) string {
	if cvc5Bin == "" {
		return "unknown"
	}
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cvc5Bin, "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + constArrays(script) + "(check-sat)\n")
	out, _ := cmd.Output()
	p.mu.Lock()
	p.Calls++
	p.Time += time.Since(t0)
	p.mu.Unlock()
	s, _, _ := strings.Cut(strings.TrimSpace(string(out)), "\n")
	if s == "unsat" {
		return s
	}
	return "unknown"
}

// Old asks the older z3, which instantiates differently.
func (p *Pool) Old(script string, ms int) string {
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3Old, "-in", fmt.Sprintf("-t:%d", ms))
	cmd.Stdin = strings.NewReader(script + "(check-sat)\n")
	out, _ := cmd.Output()
	p.mu.Lock()
	p.Calls++
	p.Time += time.Since(t0)
	p.mu.Unlock()
	s, _, _ := strings.Cut(strings.TrimSpace(string(out)), "\n")
	if s == "unsat" {
		return s
	}
	return "unknown"
}

func (p *Pool) Close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, pr := range p.idle {
		pr.in.Close()
		pr.cmd.Process.Kill()
		pr.cmd.Wait()
	}
	p.idle = nil
}

// one-shot back ends
type backend struct {
	name string
	args func(file string, sec int) []string
	pre  string
}

func backends() []backend {
	return []backend{
		{"z3-" + "new", func(f string, s int) []string {
			return []string{z3New, fmt.Sprintf("-T:%d", s), "smt.auto_config=false", "smt.mbqi=false", f}
		}, ""},
		{"z3-4.8", func(f string, s int) []string {
			return []string{z3Old, fmt.Sprintf("-T:%d", s), "smt.auto_config=false", "smt.mbqi=false", f}
		}, ""},
		{"z3-eager", func(f string, s int) []string {
			return []string{z3New, fmt.Sprintf("-T:%d", s), "smt.auto_config=false", "smt.mbqi=false", "smt.relevancy=0", f}
		}, ""},
		{"cvc5", func(f string, s int) []string {
			return []string{cvc5Bin, fmt.Sprintf("--tlimit=%d", s*1000), "--full-saturate-quant", f}
		}, "(set-logic ALL)\n"},
		{"z3-mbqi", func(f string, s int) []string { return []string{z3New, fmt.Sprintf("-T:%d", s), f} }, ""},
	}
}

// Portfolio runs the one-shot solvers in parallel; the first decisive answer wins.
func Portfolio(script string, sec int, only map[string]bool) (res, by string, dur time.Duration) {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "gvq")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	type ans struct{ res, by string }
	ch := make(chan ans, 8)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	n := 0
	for _, be := range backends() {
		if only != nil && !only[be.name] {
			continue
		}
		n++
		go func(be backend) {
			f := filepath.Join(dir, be.name+".smt2")
			sc := script
			if be.name == "cvc5" {
				sc = constArrays(sc)
			}
			os.WriteFile(f, []byte(be.pre+sc+"(check-sat)\n"), 0o644)
			a := be.args(f, sec)
			out, _ := exec.CommandContext(ctx, a[0], a[1:]...).Output()
			s := strings.TrimSpace(string(out))
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				s = s[:i]
			}
			ch <- ans{s, be.name}
		}(be)
	}
	res, by = "unknown", ""
	for i := 0; i < n; i++ {
		a := <-ch
		if a.res == "unsat" || (a.res == "sat") {
			res, by = a.res, a.by
			cancel()
			break
		}
	}
	return res, by, time.Since(t0)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gv: "+f+"\n", a...)
	os.Exit(3)
}

var constArr = regexp.MustCompile(`\(\(as const (\(Array Int Str\))\) (\|lit:[^|]*\|)\)`)

// constArrays names the constant arrays of uninterpreted values, which cvc5 does not read.
func constArrays(sc string) string {
	names := map[string]string{}
	var decl strings.Builder
	sc = constArr.ReplaceAllStringFunc(sc, func(m string) string {
		p := constArr.FindStringSubmatch(m)
		n, ok := names[m]
		if !ok {
			n = fmt.Sprintf("constarr%d", len(names))
			names[m] = n
			fmt.Fprintf(&decl, "(declare-const %s %s)\n(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, p[1], n, p[2], n)
		}
		return n
	})
	if i := strings.Index(sc, "\n(assert"); i >= 0 && decl.Len() > 0 {
		sc = sc[:i+1] + decl.String() + sc[i+1:]
	}
	return sc
}
