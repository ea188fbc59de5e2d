// Package joeson_test (verification overlay): executable oracles for the
// properties in /verif/properties.jsonl. They are not proofs. They serve to
// (a) turn a failed proof obligation into a concrete failing input, and
// (b) stand in, within stated bounds, for functions out of the verifier's reach.
//
// Driven by environment variables:
//
//	VR_PROP    property id
//	VR_SEED    seed
//	VR_BUDGET  seconds
//	VR_OUT     where to write the failing case, if any
//	VR_REPLAY  replay this file instead of searching
//	VR_STATS   where to write what was explored
package joeson_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

// S is a byte string that survives JSON whatever its bytes.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	if err != nil {
		return err
	}
	*s = S(u)
	return nil
}

type rng struct{ *rand.Rand }

func (r rng) in(lo, hi int) int { return lo + r.Intn(hi-lo+1) } // inclusive
func (r rng) oneIn(n int) bool  { return r.Intn(n) == 0 }
func pick[T any](r rng, a ...T) T {
	return a[r.Intn(len(a))]
}

// kind is one oracle: a generator of cases and a decision on a case.
type kind struct {
	name string
	// fixed cases tried first (may be nil)
	fixed func() []any
	// gen returns a case (marshalled to JSON, so that replays are faithful);
	// size grows slowly from 1.
	gen func(r rng, size int) any
	// check returns "" when the property holds on this case, "skip" when the
	// case is outside the property, and else what failed.
	check func(raw json.RawMessage) string
	// bounds, in words
	bounds string
}

var registry = map[string][]*kind{}

func reg(props string, k *kind) {
	for _, p := range strings.Fields(props) {
		registry[p] = append(registry[p], k)
	}
}

// decode helper
func dec[T any](raw json.RawMessage) T {
	var t T
	if err := json.Unmarshal(raw, &t); err != nil {
		panic("bad case: " + err.Error())
	}
	return t
}

type outcome struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// runGuarded runs one decision with a watchdog against non-termination.
// A panic of the code under test that the oracle does not expect is a failure.
func runGuarded(k *kind, raw json.RawMessage) (msg string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
			}
		}()
		done <- k.check(raw)
	}()
	deadline := time.After(20 * time.Second)
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case m := <-done:
			return m
		case <-deadline:
			return "does not terminate within 20 s"
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 4<<30 {
				return "does not terminate (memory exhausted)"
			}
		}
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func TestVerifReplay(t *testing.T) {
	prop := os.Getenv("VR_PROP")
	if prop == "" && os.Getenv("VR_REPLAY") == "" {
		t.Skip("no VR_PROP")
	}
	stdout := os.Stdout
	say := func(f string, a ...any) { fmt.Fprintf(stdout, f, a...) }
	// tracing prints to stdout: keep that away
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	os.Unsetenv("TRACE")
	os.Unsetenv("trace")

	if f := os.Getenv("VR_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var o outcome
		if err := json.Unmarshal(b, &o); err != nil {
			t.Fatal(err)
		}
		for _, ks := range registry {
			for _, k := range ks {
				if k.name == o.Kind {
					if m := runGuarded(k, o.Case); m != "" && m != "skip" {
						say("REPRODUCED property=%s kind=%s\n%s\n", o.Property, o.Kind, m)
						os.Exit(1)
					}
					say("NOT-REPRODUCED property=%s kind=%s\n", o.Property, o.Kind)
					os.Exit(0)
				}
			}
		}
		t.Fatal("unknown kind " + o.Kind)
	}

	seed, _ := strconv.ParseInt(os.Getenv("VR_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VR_BUDGET"), 64)
	if budget == 0 {
		budget = 5
	}
	ks := registry[prop]
	if len(ks) == 0 {
		say("NO-ORACLE property=%s\n", prop)
		os.Exit(0)
	}
	type stat struct {
		Kind   string `json:"kind"`
		Bounds string `json:"bounds"`
		Cases  int    `json:"cases"`
		Skip   int    `json:"skipped"`
	}
	stats := []stat{}
	trace := os.Getenv("VR_TRACE") != ""
	fail := func(k *kind, raw json.RawMessage, m string) {
		b, _ := json.MarshalIndent(outcome{prop, k.name, m, raw}, "", " ")
		if f := os.Getenv("VR_OUT"); f != "" {
			os.WriteFile(f, b, 0o644)
		}
		say("FAILED property=%s kind=%s\n%s\ncase: %s\n", prop, k.name, m, string(raw))
		os.Exit(1)
	}
	// several oracles share the time
	for _, k := range ks {
		st := stat{Kind: k.name, Bounds: k.bounds}
		r := rng{rand.New(rand.NewSource(seed*7919 + int64(len(k.name))))}
		try := func(c any) {
			raw, err := json.Marshal(c)
			if err != nil {
				t.Fatal(err)
			}
			if trace {
				b, _ := json.MarshalIndent(outcome{prop, k.name, "the process died on this case", raw}, "", " ")
				os.WriteFile(os.Getenv("VR_TRACE"), b, 0o644)
			}
			m := runGuarded(k, raw)
			if m == "skip" {
				st.Skip++
				return
			}
			if m != "" {
				fail(k, raw, m)
			}
			st.Cases++
		}
		if k.fixed != nil {
			for _, c := range k.fixed() {
				try(c)
			}
		}
		if k.gen != nil {
			start := time.Now()
			share := time.Duration(budget / float64(len(ks)) * float64(time.Second))
			for n := 0; time.Since(start) < share; n++ {
				el := float64(time.Since(start)) / float64(share)
				try(k.gen(r, 1+int(el*10)))
			}
		}
		stats = append(stats, st)
	}
	sort.Slice(stats, func(i, j int) bool { return stats[i].Kind < stats[j].Kind })
	b, _ := json.Marshal(stats)
	if f := os.Getenv("VR_STATS"); f != "" {
		os.WriteFile(f, b, 0o644)
	}
	say("OK property=%s %s\n", prop, string(b))
	os.Exit(0)
}
