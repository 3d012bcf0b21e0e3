// Package checks decides the properties in /verif/properties.jsonl by exhaustive enumeration.
package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of one check.
type Run struct {
	ID       string
	Thorough bool
	Seed     int64
	Level    string // model_checking, exploration or fault_enumeration
	Root     string // /verif
	Rule     string
	start    time.Time
	deadline time.Time

	States, Transitions, Evals, Nontrivial, Traces atomic.Int64

	mu         sync.Mutex
	samples    []any
	viol       []violation
	violN      int
	known      []finding
	knownHit   map[string]bool
	incomplete []string
	assume     []string
	extra      map[string]any
	replayN    int
	unconf     int
}

type violation struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Replay string `json:"-"`
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// Check is a registered decision procedure.
type Check struct {
	ID    string
	Level string
	Rule  string
	Fn    func(r *Run)
}

var registry = map[string]*Check{}

func register(id, level, rule string, fn func(r *Run)) {
	registry[id] = &Check{id, level, rule, fn}
}

// IDs lists the registered checks.
func IDs() []string {
	var s []string
	for k := range registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Expired reports whether the internal deadline has passed; the caller stops and the run is marked
// non-exhaustive.
func (r *Run) Expired() bool { return time.Now().After(r.deadline) }

// Incomplete records that part of the bounded space was not covered.
func (r *Run) Incomplete(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, w := range r.incomplete {
		if w == why {
			return
		}
	}
	if len(r.incomplete) < 20 {
		r.incomplete = append(r.incomplete, why)
	}
}

// Assume records an assumption in the evidence.
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Put adds a measured number to the evidence.
func (r *Run) Put(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Stop tells enumerations that enough violations were collected.
func (r *Run) Stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violN >= 25
}

// Violate reports a violation. key identifies the failing input, call site or history. confirm, if
// given, must reproduce it (several times) on the implementation; otherwise nothing is reported.
func (r *Run) Violate(key, what string, replay any, confirm func() bool) {
	r.mu.Lock()
	for _, f := range r.known {
		if f.Key == key {
			r.knownHit[key] = true
			r.mu.Unlock()
			return
		}
	}
	if r.violN >= 25 {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	if confirm != nil {
		for i := 0; i < 3; i++ {
			if !confirm() {
				r.mu.Lock()
				r.unconf++
				r.mu.Unlock()
				r.Incomplete("a discrepancy of the model was not confirmed on the implementation: " + key)
				return
			}
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violN++
	for _, v := range r.viol {
		if v.Key == key {
			return
		}
	}
	if len(r.viol) >= 25 {
		return
	}
	dir := filepath.Join(r.Root, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, len(r.viol)+1))
	b, _ := json.MarshalIndent(map[string]any{"property": r.ID, "key": key, "what": what, "replay": replay}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	r.viol = append(r.viol, violation{key, what, path})
}

// Par runs fn(worker, item) for items 0..n-1 on all cores; it stops at the deadline or when enough
// violations were found, and then marks the run incomplete.
func (r *Run) Par(label string, n int, mk func() func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	var panicked atomic.Value
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					panicked.CompareAndSwap(nil, fmt.Sprintf("%v\n%s", e, buf))
				}
			}()
			f := mk()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || panicked.Load() != nil {
					return
				}
				if r.Expired() || r.Stop() {
					next.Store(int64(n))
					r.Incomplete(label + ": stopped before the end of the enumeration")
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	if os.Getenv("ZKMC_VERBOSE") == "2" {
		fmt.Printf("  %s: %d items done at %.1fs\n", label, n, time.Since(r.start).Seconds())
	}
	if p := panicked.Load(); p != nil {
		r.Incomplete(label + ": internal error: " + p.(string))
	}
}

// Main runs one check and returns the exit code.
func Main(root, id string, quickBudget, thoroughBudget time.Duration) int {
	c, ok := registry[id]
	if !ok {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	r := &Run{ID: id, Level: c.Level, Rule: c.Rule, Root: root, start: time.Now(), extra: map[string]any{}, knownHit: map[string]bool{}}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.Seed = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	b := quickBudget
	if r.Thorough {
		b = thoroughBudget
	}
	r.deadline = r.start.Add(b)
	r.loadKnown()
	func() {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				r.Incomplete(fmt.Sprintf("internal error: %v\n%s", e, buf))
			}
		}()
		c.Fn(r)
	}()
	return r.finish()
}

func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.Root, "known_findings.json"))
	if err != nil {
		return
	}
	var k struct {
		Known []finding `json:"known"`
	}
	if json.Unmarshal(b, &k) != nil {
		return
	}
	for _, f := range k.Known {
		if f.Property == r.ID {
			r.known = append(r.known, f)
		}
	}
}

func (r *Run) finish() int {
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	cov := map[string]any{
		"exhaustive": len(r.incomplete) == 0 && len(r.viol) == 0,
		"samples":    r.samples,
		"rule":       r.Rule,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	ev, nt := r.Evals.Load(), r.Nontrivial.Load()
	cov["evaluations"] = ev
	cov["distinct_nontrivial"] = nt
	if r.Level == "model_checking" {
		cov["states"] = r.States.Load()
		cov["transitions"] = r.Transitions.Load()
		cov["traces_validated_against_impl"] = r.Traces.Load()
	}
	if len(r.incomplete) > 0 {
		cov["incomplete"] = r.incomplete
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	out := map[string]any{
		"property": r.ID, "tier": tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol), "assumptions": r.assume,
	}
	if r.assume == nil {
		out["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(out, "", " ")
	_ = os.WriteFile(filepath.Join(r.Root, "evidence", r.ID+".json"), append(b, '\n'), 0o644)
	for _, f := range r.known {
		// listed findings are announced whenever the check that covers them ran
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, f.What)
	}
	for _, w := range r.incomplete {
		fmt.Println("NOTE incomplete:", w)
	}
	fmt.Printf("%s %s: states=%d transitions=%d evaluations=%d nontrivial=%d traces_on_gnark=%d wall=%.1fs\n",
		r.ID, tier, r.States.Load(), r.Transitions.Load(), ev, nt, r.Traces.Load(), time.Since(r.start).Seconds())
	if len(r.viol) == 0 {
		return 0
	}
	for _, v := range r.viol {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, v.Replay)
		fmt.Printf("  %s: %s\n", v.Key, strings.ReplaceAll(v.What, "\n", " "))
	}
	return 1
}
