// Package main of verifmon: the monitors of /verif.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed breach. Sig identifies the failing call site or input
// class (compared with known_findings.json), Case reproduces it.
type Violation struct {
	Sig    string `json:"sig"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

// R collects what a monitor observed.
type R struct {
	Prop, Tier string
	Seed       int64
	OnlyCase   string
	Rule       string
	Deadline   time.Time

	mu       sync.Mutex
	evals    atomic.Int64
	distinct map[string]struct{}
	samples  []string
	counters map[string]int64
	viols    []Violation
	vseen    map[string]int
	harness  []string
}

func NewR(prop, tier string, seed int64) *R {
	return &R{Prop: prop, Tier: tier, Seed: seed, distinct: map[string]struct{}{}, counters: map[string]int64{}, vseen: map[string]int{}}
}

// Eval counts one judged execution.
func (r *R) Eval(n int) { r.evals.Add(int64(n)) }

// Distinct records a non-trivial case class.
func (r *R) Distinct(key string) {
	r.mu.Lock()
	r.distinct[key] = struct{}{}
	r.mu.Unlock()
}

// Count adds to a named observation counter.
func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (r *R) Sample(format string, a ...any) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Violate reports a breach.
func (r *R) Violate(caseID, sig, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 4000 {
		d = d[:4000] + "…"
	}
	r.mu.Lock()
	r.vseen[sig]++
	if r.vseen[sig] <= 3 {
		r.viols = append(r.viols, Violation{Sig: sig, Case: caseID, Detail: d})
	}
	r.mu.Unlock()
}

func (r *R) NViol() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viols) }

func (r *R) harnessError(format string, a ...any) {
	r.mu.Lock()
	if len(r.harness) < 20 {
		r.harness = append(r.harness, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

// Rng is the deterministic source of a case.
func (r *R) Rng(id string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%s", r.Prop, r.Seed, id)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Thorough tells the tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N scales a quick-tier case count.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Case runs one case; a panic that comes out of the system under test is a violation.
func (r *R) Case(id string, fn func(rng *rand.Rand)) {
	if r.OnlyCase != "" && r.OnlyCase != id {
		return
	}
	if r.OnlyCase == "" && time.Now().After(r.Deadline) {
		r.Count("cases_skipped_at_deadline", 1)
		return
	}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "case %s panic: %v\n%s\n", id, p, st)
			}
			if hp, ok := p.(harnessPanic); ok {
				// a step every workload needs, such as paying or deploying, did not work
				r.Violate(id, "step", "a necessary step failed: %s\n%s", hp.msg, trimStack(st))
			} else if panicFromSUT(st) {
				r.Violate(id, "panic", "panic: %v\n%s", p, trimStack(st))
			} else {
				r.harnessError("case %s: %v\n%s", id, p, trimStack(st))
			}
		}
	}()
	fn(r.Rng(id))
}

type harnessPanic struct{ msg string }

func must(err error) {
	if err != nil && os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("must:", err)
	}
	if err != nil {
		panic(harnessPanic{err.Error()})
	}
}

// panicFromSUT: the frame that panicked belongs to minievm (or code below it), not to the bench.
func panicFromSUT(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if !strings.HasPrefix(l, "github.com/initia-labs/minievm/") {
			continue
		}
		return !strings.HasPrefix(l, "github.com/initia-labs/minievm/verif")
	}
	return false
}

func trimStack(st string) string {
	if i := strings.LastIndex(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 2500 {
		st = st[:2500]
	}
	return st
}

// Par runs fn(0..n-1) on all cores.
func (r *R) Par(n int, fn func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	if r.OnlyCase != "" {
		w = 1
	}
	var wg sync.WaitGroup
	var next atomic.Int64
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				fn(i)
			}
		}()
	}
	wg.Wait()
}

// ParCase is Par over cases named prefix/i.
func (r *R) ParCase(prefix string, n int, fn func(id string, rng *rand.Rand)) {
	r.Par(n, func(i int) {
		id := fmt.Sprintf("%s/%d", prefix, i)
		r.Case(id, func(rng *rand.Rand) { fn(id, rng) })
	})
}

type result struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int              `json:"distinct_nontrivial"`
	Rule       string           `json:"rule"`
	Samples    []string         `json:"samples"`
	Counters   map[string]int64 `json:"observed"`
	Violations []Violation      `json:"violations"`
	Counts     map[string]int   `json:"violation_counts"`
	Harness    []string         `json:"harness_errors"`
}

func (r *R) write(path string) {
	sort.Slice(r.viols, func(i, j int) bool {
		if r.viols[i].Sig != r.viols[j].Sig {
			return r.viols[i].Sig < r.viols[j].Sig
		}
		return r.viols[i].Case < r.viols[j].Case
	})
	res := result{r.Prop, r.evals.Load(), len(r.distinct), r.Rule, r.samples, r.counters, r.viols, r.vseen, r.harness}
	bz, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, bz, 0o644); err != nil {
		panic(err)
	}
}
