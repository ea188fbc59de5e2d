package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract files")
	only := flag.String("only", "", "verify targets whose id contains this")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "write failing scripts to this directory")
	prop := flag.String("prop", "", "verify the targets of this property")
	jsonOut := flag.String("json", "", "write the results to this file")
	limit := flag.Int("limit", 300, "seconds per target")
	again := flag.Int("again", 1, "try what failed once more, with time limits this many times longer")
	flag.Parse()
	portfolioSec = 20
	t0 := time.Now()
	w, err := loadWorld(*repo, *specs+"/models.go")
	if err != nil {
		fatal("load: %v", err)
	}
	s := func() *Specs {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(specErr); ok {
					fatal("%s", e.msg)
				}
				panic(r)
			}
		}()
		s := loadSpecs(*specs)
		w.resolve(s)
		return s
	}()
	fmt.Printf("loaded in %.1fs, %d contracts\n", time.Since(t0).Seconds(), len(s.contracts))
	pool := NewPool(8)
	defer pool.Close()
	var cons []*Contract
	for _, c := range s.contracts {
		if c.kind != "func" || c.trusted {
			continue
		}
		if *only != "" && !strings.Contains(c.id, *only) {
			continue
		}
		if *prop != "" && !c.serves(*prop) {
			continue
		}
		cons = append(cons, c)
	}
	run := func(cons []*Contract, verbose bool) []*Result {
		results := make([]*Result, len(cons))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i, c := range cons {
			wg.Add(1)
			sem <- struct{}{}
			go func(i int, c *Contract) {
				defer wg.Done()
				defer func() { <-sem }()
				results[i] = w.verify(c, pool, time.Duration(*limit)*time.Second, verbose)
			}(i, c)
		}
		wg.Wait()
		return results
	}
	results := run(cons, *verbose)
	own := map[*Result]bool{}
	for _, r := range results {
		own[r] = true
	}
	if *prop != "" {
		// the contracts these rely on are proved as well
		have := map[string]bool{}
		for _, c := range cons {
			have[c.id] = true
		}
		for next := results; len(next) > 0; {
			need := map[string]bool{}
			for _, r := range next {
				for _, n := range r.called {
					need[n] = true
				}
			}
			var more []*Contract
			for _, c := range s.contracts {
				if c.kind != "func" || c.trusted || have[c.id] {
					continue
				}
				ok := need[c.id]
				for _, cl := range c.get("implements") {
					ic := pickContract(w.ifCon, strings.TrimSpace(cl.text), c.aspect)
					ok = ok || ic != nil && need[ic.id] && cl.text != "Parser.parse"
				}
				if ok {
					have[c.id] = true
					more = append(more, c)
				}
			}
			next = run(more, *verbose)
			results = append(results, next...)
		}
	}
	for _, r := range results {
		if own[r] {
			clauseFilter(r, *prop)
		}
	}
	if *jsonOut != "" {
		writeJSON(*jsonOut, results, pool, time.Since(t0))
	}
	// what failed is tried once more with more time
	if *again > 1 {
		timeScale = *again
		var idx []int
		var redo []*Contract
		for i, r := range results {
			if r.err != "" || len(r.failed) > 0 {
				idx, redo = append(idx, i), append(redo, r.con)
			}
		}
		if len(redo) > 0 {
			fmt.Printf("%d targets once more\n", len(redo))
			for k, r := range run(redo, false) {
				if own[results[idx[k]]] {
					clauseFilter(r, *prop)
				}
				results[idx[k]] = r
			}
			if *jsonOut != "" {
				writeJSON(*jsonOut, results, pool, time.Since(t0))
			}
		}
	}
	bad := 0
	for _, r := range results {
		status := "ok"
		if r.err != "" {
			status = "ERROR " + r.err
			bad++
		} else if len(r.failed) > 0 {
			status = fmt.Sprintf("FAILED %d", len(r.failed))
			bad++
		}
		fmt.Printf("%-45s %4d obligations %3d returns %3d panics %2d loops %4d paths %.1fs %s\n", r.id, len(r.vcs), r.normal, r.panics, r.loops, r.paths, r.dur.Seconds(), status)
		for i, v := range r.failed {
			if i > 8 && !*verbose {
				break
			}
			fmt.Printf("    %s [%s]\n", v.name, v.res)
			if *verbose {
				fmt.Printf("        path: %s\n", strings.Join(v.trace, " ; "))
			}
			if *dump != "" && v.script != "" {
				os.MkdirAll(*dump, 0o755)
				os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", *dump, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(r.id), i), []byte(v.script+"(check-sat)\n"), 0o644)
			}
		}
		if *verbose {
			fmt.Printf("    inlined: %v\n    called: %v\n    unused hints: %v\n", r.inlined, r.called, r.unusedHints)
		}
	}
	fmt.Printf("total %.1fs, %d of %d targets with failures\n", time.Since(t0).Seconds(), bad, len(results))
	if bad > 0 {
		os.Exit(1)
	}
}

// clauseFilter: a clause marked with other properties does not count against this one.
func clauseFilter(r *Result, prop string) {
	if prop == "" {
		return
	}
	for _, l := range []*[]*VC{&r.vcs, &r.failed} {
		var keep []*VC
		for _, v := range *l {
			if len(v.props) == 0 || contains(v.props, prop) {
				keep = append(keep, v)
			}
		}
		*l = keep
	}
}

// timeScale lengthens the time limits of the solver queries.
var timeScale = 1

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// serves: is the contract part of the argument for this property?
func (c *Contract) serves(prop string) bool {
	if contains(c.props, prop) {
		return true
	}
	for _, cl := range c.clauses {
		if contains(cl.props, prop) {
			return true
		}
	}
	return false
}

type jsonVC struct {
	Name   string   `json:"name"`
	Answer string   `json:"answer"`
	Path   []string `json:"path,omitempty"`
	Script string   `json:"script,omitempty"`
	Ms     int64    `json:"ms"`
}

type jsonTarget struct {
	Id          string         `json:"id"`
	File        string         `json:"contract"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Backends    map[string]int `json:"backends"`
	SolverMs    int64          `json:"solver_ms"`
	Wall        float64        `json:"wall_s"`
	Error       string         `json:"error,omitempty"`
	Failed      []jsonVC       `json:"failed,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Called      []string       `json:"relied_on,omitempty"`
	Trusted     []string       `json:"assumed,omitempty"`
	Loops       int            `json:"loops"`
	Paths       int            `json:"paths"`
}

func writeJSON(file string, rs []*Result, pool *Pool, d time.Duration) {
	out := struct {
		Targets []jsonTarget `json:"targets"`
		Wall    float64      `json:"wall_s"`
		SolverS float64      `json:"solver_s"`
		Queries int64        `json:"queries"`
	}{Wall: d.Seconds(), SolverS: pool.Time.Seconds(), Queries: pool.Calls}
	for _, r := range rs {
		t := jsonTarget{Id: r.id, File: fmt.Sprintf("%s:%d", r.con.file, r.con.line), Obligations: len(r.vcs), Discharged: len(r.vcs) - len(r.failed), Error: r.err, Backends: map[string]int{}, Wall: r.dur.Seconds(), Inlined: r.inlined, Called: r.called, Trusted: r.trusted, Loops: r.loops, Paths: r.paths}
		for _, v := range r.vcs {
			t.SolverMs += v.ms
			if v.res == "unsat" {
				t.Backends[v.by]++
			}
		}
		for i, v := range r.failed {
			if i < 40 {
				j := jsonVC{Name: v.name, Answer: v.res, Path: v.trace, Ms: v.ms}
				if i < 3 && len(v.script) < 200000 {
					j.Script = v.script
				}
				t.Failed = append(t.Failed, j)
			}
		}
		out.Targets = append(out.Targets, t)
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err == nil {
		if err = os.WriteFile(file+".tmp", b, 0o644); err == nil {
			err = os.Rename(file+".tmp", file)
		}
	}
	if err != nil {
		fatal("%v", err)
	}
}
