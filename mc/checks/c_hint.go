//go:build go1.23

package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"iter"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	_ "github.com/tumberger/zk-Location/gadget"
	_ "github.com/tumberger/zk-Location/hint"
	"zkmc/core"
	"zkmc/ref"
	"zkmc/sched"
)

func init() {
	register("C24", "model_checking", "all call histories up to length 3 and all two-thread statement-level schedules with up to 2 preemptions (thorough: 3) of pairs of hint calls, the calls being taken from circuits of the library; one case = one call in one history or one schedule; non-trivial = the schedule preempts a hint between two of its statements, or the call is not the first of its history", checkC24)
}

const repoPath = "github.com/tumberger/zk-Location"

// hcall is one hint invocation of the corpus.
type hcall struct {
	Hint   string   `json:"hint"`
	Mod    string   `json:"mod"`
	In     []string `json:"in"`
	NOut   int      `json:"nout"`
	Ref    string   `json:"ref"`
	Points int      `json:"points"`
}

func (c hcall) name() string {
	return strings.TrimPrefix(c.Hint, repoPath+"/") + "(" + strings.Join(c.In, ",") + ")"
}

type hreq struct {
	Mode   string  `json:"mode"` // ref, hist, race
	Shard  int     `json:"shard"`
	Shards int     `json:"shards"`
	Pre    int     `json:"pre"`
	Bound  int     `json:"bound"` // bound on the number of schedules of a pair
	Calls  []hcall `json:"calls"`
	Small  []int   `json:"small"` // indices used for histories of length 3
	Conc   [][2]int
}

type hviol struct{ Key, What, Hist string }

type hres struct {
	Refs      []string `json:"refs"`
	Points    []int    `json:"points"`
	Histories int64
	Calls     int64
	Schedules int64
	Steps     int64
	Preempted int64
	Viol      []hviol
	Samples   []string
	Skipped   int64
}

// ChildMain serves C24's subprocesses: histories must start from a pristine process.
func ChildMain() int {
	b, _ := io.ReadAll(os.Stdin)
	if os.Getenv("ZKMC_CHILD") == "build" {
		var q breq
		if err := json.Unmarshal(b, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		debug.SetGCPercent(1000)
		stdout := os.Stdout // gnark prints warnings
		os.Stdout = os.Stderr
		out, _ := json.Marshal(buildChild(q))
		stdout.Write(out)
		return 0
	}
	var q hreq
	if err := json.Unmarshal(b, &q); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var s hres
	h := newHrun(q.Calls, &s)
	switch q.Mode {
	case "ref":
		for i := range q.Calls {
			n := 0
			sched.Hook = func(int) { n++ }
			s.Refs = append(s.Refs, h.call(i, 0, false))
			sched.Hook = nil
			s.Points = append(s.Points, n)
		}
	case "hist":
		h.histories(&q)
	case "race":
		h.race(&q)
	}
	out, _ := json.Marshal(s)
	os.Stdout.Write(out)
	return 0
}

type hrun struct {
	calls []hcall
	fn    []solver.Hint
	mod   []*big.Int
	in    [][]*big.Int
	res   *hres
	seen  map[string]bool
}

func newHrun(c []hcall, s *hres) *hrun {
	h := &hrun{calls: c, res: s, seen: map[string]bool{}}
	byName := map[string]solver.Hint{}
	for _, f := range solver.GetRegisteredHints() {
		byName[solver.GetHintName(f)] = f
	}
	for _, k := range c {
		h.fn = append(h.fn, byName[k.Hint])
		m, _ := new(big.Int).SetString(k.Mod, 10)
		h.mod = append(h.mod, m)
		var in []*big.Int
		for _, v := range k.In {
			b, _ := new(big.Int).SetString(v, 10)
			in = append(in, b)
		}
		h.in = append(h.in, in)
	}
	return h
}

func (h *hrun) viol(key, what, hist string) {
	if h.seen[key] || len(h.res.Viol) > 20 {
		return
	}
	h.seen[key] = true
	h.res.Viol = append(h.res.Viol, hviol{key, what, hist})
}

// junk is what the solver's pool may have left in an output.
func junk(class, i int, mod *big.Int) *big.Int {
	switch class & 3 {
	case 1:
		return new(big.Int).Sub(mod, big.NewInt(int64(1+i)))
	case 2:
		return new(big.Int).Lsh(big.NewInt(int64(5+i)), 300)
	case 3:
		return big.NewInt(int64(-7 - i))
	}
	return new(big.Int)
}

func sameWords(a, b *big.Int) bool {
	x, y := a.Bits(), b.Bits()
	if cap(x) == 0 || cap(y) == 0 {
		return false
	}
	return &x[:1][0] == &y[:1][0]
}

// call runs call i on fresh copies of its inputs and returns its result; it checks the calling
// discipline on the way and finally overwrites everything it was given, as the pool's next user would.
func (h *hrun) call(i, class int, check bool) (res string) {
	in := make([]*big.Int, len(h.in[i]))
	for k, v := range h.in[i] {
		in[k] = new(big.Int).Set(v)
	}
	out := make([]*big.Int, h.calls[i].NOut)
	for k := range out {
		out[k] = junk(class, k, h.mod[i])
	}
	mod := new(big.Int).Set(h.mod[i])
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		return h.fn[i](mod, in, out)
	}()
	if err != nil {
		return "refused"
	}
	if check {
		n := strings.TrimPrefix(h.calls[i].Hint, repoPath+"/")
		if mod.Cmp(h.mod[i]) != 0 {
			h.viol(n+" modifies the field modulus", fmt.Sprintf("modulus %s became %s", h.mod[i], mod), h.calls[i].name())
		}
		for k := range in {
			if in[k].Cmp(h.in[i][k]) != 0 {
				h.viol(fmt.Sprintf("%s modifies input %d", n, k), fmt.Sprintf("input %s became %s", h.in[i][k], in[k]), h.calls[i].name())
			}
			for o := range out {
				if out[o] == in[k] || sameWords(out[o], in[k]) {
					h.viol(fmt.Sprintf("%s output %d shares storage with input %d", n, o, k), "the solver reuses both independently", h.calls[i].name())
				}
			}
		}
		for o := range out {
			if out[o] == mod || sameWords(out[o], mod) {
				h.viol(fmt.Sprintf("%s output %d shares storage with the modulus", n, o), "", h.calls[i].name())
			}
			for p := 0; p < o; p++ {
				if out[o] == out[p] || sameWords(out[o], out[p]) {
					h.viol(fmt.Sprintf("%s outputs %d and %d share storage", n, p, o), "the solver reuses both independently", h.calls[i].name())
				}
			}
		}
	}
	var b strings.Builder
	t := new(big.Int)
	for _, o := range out {
		b.WriteString(t.Mod(o, h.mod[i]).Text(36))
		b.WriteByte(',')
	}
	for _, l := range [][]*big.Int{in, out} {
		for _, v := range l {
			w := v.Bits()
			w = w[:cap(w)]
			for k := range w {
				w[k] = 0xdeadbeef
			}
		}
	}
	return b.String()
}

func (h *hrun) compare(i int, got, kind, hist string) {
	if got != h.calls[i].Ref {
		n := strings.TrimPrefix(h.calls[i].Hint, repoPath+"/")
		h.viol(n+" depends on "+kind, fmt.Sprintf("%s gives %s in a fresh process and %s in %s", h.calls[i].name(), h.calls[i].Ref, got, hist), hist)
	}
}

func (h *hrun) histories(q *hreq) {
	n := len(h.calls)
	// single calls with every initial content of the outputs, and repeated
	for i := q.Shard; i < n; i += q.Shards {
		for c := 0; c < 4; c++ {
			for rep := 0; rep < 2; rep++ {
				h.compare(i, h.call(i, c, true), "the previous content of its outputs or its own previous call", fmt.Sprintf("a call with output content class %d", c))
				h.res.Calls++
			}
		}
		h.res.Histories += 4
	}
	// every ordered pair
	for i := 0; i < n; i++ {
		for j := q.Shard; j < n; j += q.Shards {
			h.compare(i, h.call(i, i+j, true), "earlier calls", "a history of calls ending with it")
			h.compare(j, h.call(j, i+2*j+1, true), "earlier calls", "a call after "+h.calls[i].name())
			h.res.Histories++
			h.res.Calls += 2
		}
	}
	// every ordered triple of the small set
	for a := q.Shard; a < len(q.Small); a += q.Shards {
		for _, b := range q.Small {
			for _, c := range q.Small {
				i := q.Small[a]
				h.compare(i, h.call(i, 1, true), "earlier calls", "a history of calls ending with it")
				h.compare(b, h.call(b, 2, true), "earlier calls", "a call after "+h.calls[i].name())
				h.compare(c, h.call(c, 3, true), "earlier calls", "a call after "+h.calls[i].name()+" and "+h.calls[b].name())
				h.res.Histories++
				h.res.Calls += 3
			}
		}
	}
	for k := q.Shard; k < len(q.Conc); k += q.Shards {
		h.schedules(q.Conc[k][0], q.Conc[k][1], q.Pre, q.Bound)
	}
}

// thread is a hint call under the controlled scheduler.
type thread struct {
	next    func() (int, bool)
	stop    func()
	out     string
	done    bool
	blocked bool
}

func (h *hrun) spawn(i, class int, cur *func(int) bool) *thread {
	t := &thread{}
	t.next, t.stop = iter.Pull(iter.Seq[int](func(yield func(int) bool) {
		*cur = yield
		t.out = h.call(i, class, true)
	}))
	return t
}

// schedule runs a and b: plan gives the number of steps of alternating threads, starting with a; after
// the plan is used up the threads run to completion, the one whose turn it is first.
func (h *hrun) schedule(a, b int, plan []int) (ra, rb string, steps int64, dead bool) {
	var yields [2]func(int) bool
	cur := 0
	sched.Hook = func(kind int) { yields[cur](kind) }
	defer func() { sched.Hook = nil }()
	th := [2]*thread{}
	// the yield function of each thread is captured when it starts
	th[0] = h.spawn(a, 1, &yields[0])
	th[1] = h.spawn(b, 2, &yields[1])
	step := func(k int) bool { // false: finished or blocked
		t := th[k]
		if t.done {
			return false
		}
		cur = k
		kind, ok := t.next()
		steps++
		if !ok {
			t.done = true
			return false
		}
		t.blocked = kind == 1
		return !t.blocked
	}
	turn := 0
	for _, n := range plan {
		for s := 0; s < n; s++ {
			if !step(turn) {
				break
			}
		}
		turn = 1 - turn
	}
	for stuck := 0; !th[0].done || !th[1].done; {
		before := steps
		for step(turn) {
		}
		if steps-before <= 1 && th[turn].blocked && !th[turn].done {
			stuck++
		} else {
			stuck = 0
		}
		if stuck > 4 || (stuck > 0 && th[1-turn].done && stuck > 2) {
			return "", "", steps, true
		}
		turn = 1 - turn
	}
	return th[0].out, th[1].out, steps, false
}

func (h *hrun) schedules(a, b, pre, bound int) {
	na, nb := h.calls[a].Points, h.calls[b].Points
	run := func(plan ...int) {
		ra, rb, steps, dead := h.schedule(a, b, plan)
		h.res.Schedules++
		h.res.Steps += steps
		if len(plan) > 1 && plan[0] > 0 {
			h.res.Preempted++
		}
		hist := fmt.Sprintf("the schedule %v of %s || %s", plan, h.calls[a].name(), h.calls[b].name())
		if len(h.res.Samples) < 2 && len(plan) > 1 && plan[0] > 1 {
			h.res.Samples = append(h.res.Samples, hist)
		}
		if dead {
			h.viol("deadlock of "+h.calls[a].Hint+" and "+h.calls[b].Hint, hist, hist)
			return
		}
		h.compare(a, ra, "concurrent calls", hist)
		h.compare(b, rb, "concurrent calls", hist)
	}
	if na*nb > bound {
		h.res.Skipped++
		return
	}
	run(0)
	for p := 1; p <= na; p++ {
		for s := 1; s <= nb+1; s++ {
			run(p, s) // a preempted after p steps, b preempted after s (or finished)
			if pre >= 3 && s <= nb && na*nb*na <= 4*bound {
				for u := 1; u <= na-p; u++ {
					run(p, s, u)
				}
			}
		}
	}
}

// race runs pairs of calls on two goroutines without any synchronisation between them, under the race
// detector: it decides by the happens-before order, not by luck of timing.
func (h *hrun) race(q *hreq) {
	for _, p := range q.Conc {
		for rep := 0; rep < 2; rep++ {
			var wg sync.WaitGroup
			var r [2]string
			start := make(chan struct{})
			for k := 0; k < 2; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					<-start
					r[k] = h.call(p[k], k, false)
				}(k)
			}
			close(start)
			wg.Wait()
			h.res.Schedules++
		}
	}
}

func hchild(exe string, q hreq, env ...string) (hres, string, error) {
	var s hres
	b, _ := json.Marshal(q)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), append(env, "ZKMC_CHILD=1", "GOMAXPROCS=2")...)
	cmd.Stdin = bytes.NewReader(b)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return s, eb.String(), err
	}
	err = json.Unmarshal(out, &s)
	return s, eb.String(), err
}

// hintCorpus collects hint calls from honest executions of the library's circuits.
func hintCorpus(r *Run, per int) []hcall {
	type key struct{ s string }
	found := map[string]map[string]hcall{}
	addCall := func(name string, mod *big.Int, in []*big.Int, nOut int) {
		c := hcall{Hint: name, Mod: mod.String(), NOut: nOut}
		for _, v := range in {
			c.In = append(c.In, v.String())
		}
		if found[name] == nil {
			found[name] = map[string]hcall{}
		}
		found[name][c.name()] = c
	}
	var ops []string
	for n := range floatOps {
		ops = append(ops, n)
	}
	sort.Strings(ops)
	small := ref.Fmt{E: 4, M: 3}
	for _, f := range []ref.Fmt{small, {E: 8, M: 23}, {E: 11, M: 52}} {
		for _, cv := range []ecc.ID{ecc.BN254, ecc.BLS12_381} {
			menu := seqMenu(f, 14)
			for _, n := range ops {
				p, err := record(Cfg{f, 4, core.R1CS, cv}, floatOps[n], true)
				if err != nil {
					continue
				}
				ev := core.NewEvaluator(p.P)
				for i, a := range menu {
					t := ev.Run(p.Inputs([]uint64{a, menu[(i*5+3)%len(menu)], menu[(i*3+1)%len(menu)]}, uint64(i&1)))
					for k := range p.P.Hints {
						h := &p.P.Hints[k]
						if !strings.HasPrefix(h.Name, repoPath) || t.HintErr != nil {
							continue
						}
						in := make([]*big.Int, len(h.Inputs))
						for j, id := range h.Inputs {
							in[j] = p.P.F.ToBig(t.Val[id])
						}
						addCall(h.Name, p.P.F.Mod, in, len(h.Outs))
					}
				}
			}
		}
	}
	// hints no circuit of the library reaches
	mod := ecc.BN254.ScalarField()
	for _, f := range solver.GetRegisteredHints() {
		name := solver.GetHintName(f)
		switch {
		case strings.HasSuffix(name, "hint.PrecomputeHint64"):
			for _, v := range []uint64{0x3ff0000000000000, 0xbfe8000000000000, 0x3c00000000000000, 0x4008000000000000, 0x3ff921fb54442d18, 0} {
				addCall(name, mod, []*big.Int{bigU(v), big.NewInt(11), big.NewInt(52)}, 16)
				addCall(name, mod, []*big.Int{new(big.Int).Add(bigU(v), new(big.Int).Lsh(big.NewInt(3), 70)), big.NewInt(11), big.NewInt(52)}, 16)
			}
		case strings.HasSuffix(name, "hint.PrecomputeHint32"):
			for _, v := range []uint64{0x3f800000, 0xbf400000, 0x33000000, 0x40400000, 0x3fc90fdb, 0} {
				addCall(name, mod, []*big.Int{bigU(v), big.NewInt(8), big.NewInt(23)}, 16)
			}
		}
	}
	var names []string
	for n := range found {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []hcall
	for _, n := range names {
		var l []hcall
		for _, c := range found[n] {
			l = append(l, c)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].name() < l[j].name() })
		k := min(per, len(l))
		for i := 0; i < k; i++ {
			out = append(out, l[i*len(l)/k])
		}
	}
	r.Put("hints", len(names))
	return out
}

func checkC24(r *Run) {
	exe, err := os.Executable()
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	per, bound, pre := 14, 6000, 2
	if r.Thorough {
		per, bound, pre = 30, 40000, 3
	}
	calls := hintCorpus(r, per)
	registered := map[string]bool{}
	for _, f := range solver.GetRegisteredHints() {
		registered[solver.GetHintName(f)] = true
	}
	for _, c := range calls {
		if !registered[c.Hint] {
			r.Violate("registration of "+c.Hint, "circuits call this hint, but it is not registered: gnark's solver fails on every call", c.name(), nil)
			return
		}
	}
	// reference results: each call is the first of its own process
	var mu sync.Mutex
	failed := ""
	r.Par("references", len(calls), func() func(i int) {
		return func(i int) {
			s, e, err := hchild(exe, hreq{Mode: "ref", Calls: []hcall{calls[i]}})
			mu.Lock()
			defer mu.Unlock()
			if err != nil || len(s.Refs) != 1 {
				failed = fmt.Sprintf("reference process failed: %v %s", err, e)
				return
			}
			calls[i].Ref, calls[i].Points = s.Refs[0], s.Points[0]
		}
	})
	if failed != "" {
		r.Incomplete(failed)
		return
	}
	r.Transitions.Add(int64(len(calls)))
	r.Put("fresh_processes", len(calls))
	// the concurrent pairs: within a hint all pairs of its shortest calls, across hints one pair each way
	byHint := map[string][]int{}
	var order []string
	instrumented := false
	for i, c := range calls {
		if byHint[c.Hint] == nil {
			order = append(order, c.Hint)
		}
		byHint[c.Hint] = append(byHint[c.Hint], i)
		instrumented = instrumented || c.Points > 0
	}
	var small []int
	var conc [][2]int
	lim := 6
	if r.Thorough {
		lim = 14
	}
	for _, n := range order {
		l := byHint[n]
		small = append(small, l[0])
		if len(l) > 1 {
			small = append(small, l[len(l)-1])
		}
		if len(l) > 2 {
			small = append(small, l[len(l)/2])
		}
		sort.SliceStable(l, func(i, j int) bool { return calls[l[i]].Points < calls[l[j]].Points })
		for i := 0; i < min(lim, len(l)); i++ {
			for j := 0; j < min(lim, len(l)); j++ {
				conc = append(conc, [2]int{l[i], l[j]})
			}
		}
		if k := len(l) - 1; k >= lim {
			conc = append(conc, [2]int{l[k], l[0]}, [2]int{l[0], l[k]}, [2]int{l[k], l[k-1]})
		}
	}
	var cross [][2]int
	for i, a := range order {
		for j, b := range order {
			if i != j {
				la, lb := byHint[a], byHint[b]
				cross = append(cross, [2]int{la[0], lb[0]}, [2]int{la[min(len(la)-1, 3)], lb[min(len(lb)-1, 3)]})
			}
		}
	}
	if !instrumented {
		r.Incomplete("the build is not instrumented: no schedules, only histories")
	}
	shards := 4 * runtime.NumCPU()
	all := append(append([][2]int{}, conc...), cross...)
	mk := func(s int) hreq {
		return hreq{Mode: "hist", Shard: s, Shards: shards, Pre: pre, Bound: bound, Calls: calls, Small: small, Conc: all}
	}
	r.Par("histories and schedules", shards, func() func(i int) {
		return func(i int) {
			s, e, err := hchild(exe, mk(i))
			if err != nil {
				r.Incomplete(fmt.Sprintf("shard failed: %v %s", err, e))
				return
			}
			r.States.Add(s.Histories + s.Schedules)
			r.Transitions.Add(s.Calls + s.Steps)
			r.Evals.Add(s.Calls + 2*s.Schedules)
			r.Nontrivial.Add(s.Preempted + s.Histories)
			r.Traces.Add(s.Histories + s.Schedules)
			if s.Skipped > 0 {
				mu.Lock()
				n, _ := r.extra["pairs_beyond_schedule_bound"].(int64)
				r.extra["pairs_beyond_schedule_bound"] = n + s.Skipped
				mu.Unlock()
			}
			for _, v := range s.Samples {
				r.Sample(v)
			}
			for _, v := range s.Viol {
				r.Violate(v.Key, v.What, v, func() bool {
					t, _, err := hchild(exe, mk(i))
					if err != nil {
						return false
					}
					for _, w := range t.Viol {
						if w.Key == v.Key {
							return true
						}
					}
					return false
				})
			}
		}
	})
	// data races
	rexe := filepath.Join(filepath.Dir(exe), "zkcheck-race")
	if _, err := os.Stat(rexe); err != nil {
		r.Incomplete("no race-detecting build: data races that do not change results are not covered")
		return
	}
	r.Par("races", len(order), func() func(i int) {
		return func(i int) {
			q := hreq{Mode: "race", Calls: calls}
			for _, p := range conc {
				if calls[p[0]].Hint == order[i] {
					q.Conc = append(q.Conc, p)
				}
			}
			for _, p := range cross {
				if calls[p[0]].Hint == order[i] {
					q.Conc = append(q.Conc, p)
				}
			}
			race := func() (string, bool, int64) {
				s, e, err := hchild(rexe, q, "GORACE=halt_on_error=1 exitcode=66")
				if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 66 {
					return e, true, 0
				}
				if err != nil {
					r.Incomplete(fmt.Sprintf("race run failed: %v", err))
				}
				return "", false, s.Schedules
			}
			e, bad, n := race()
			r.Traces.Add(n)
			r.Evals.Add(2 * n)
			if bad {
				r.Violate("data race in concurrent calls of "+order[i], e, e, func() bool { _, b, _ := race(); return b })
			}
		}
	})
	r.Assume("interleavings are explored at statement granularity under sequential consistency; the race detector covers finer ones")
	r.Put("fresh_calls", len(calls))
}
