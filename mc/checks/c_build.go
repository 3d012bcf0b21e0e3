//go:build go1.23

package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"iter"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"
	zkmath "github.com/tumberger/zk-Location/math"
	"zkmc/core"
	"zkmc/ref"
	"zkmc/sched"
)

func init() {
	register("C46", "model_checking", "every program of up to two gadget calls (thorough: three) besides the two that make both tables necessary, over lengths, modes, table widths and power table sizes, and every pair of float operations of three formats; non-trivial = the program has a check whose length is not a multiple of the table width", checkC46)
	register("C47", "model_checking", "every program of the menu in fresh processes, every history of two builds (three over a smaller menu), and every two-thread statement-level schedule of two builds with up to two preemptions; non-trivial = the build is not the first of its process, or it is preempted between two of its statements", checkC47)
}

// ---- C46: announced lookup costs ----

type costCircuit struct {
	X   []frontend.Variable
	def func(api frontend.API, x []frontend.Variable) *gadget.IntGadget `gnark:"-"`
	n0  int                                                             `gnark:"-"`
	ann [3]uint                                                         `gnark:"-"`
}

func (c *costCircuit) Define(api frontend.API) error {
	g := c.def(api, c.X)
	c.n0 = api.(interface{ GetNbConstraints() int }).GetNbConstraints()
	c.ann = [3]uint{g.LookupEntryConstraints(), g.LookupQueryConstraints(), g.LookupFinalizeConstraints()}
	return nil
}

// cost compiles the program and returns the announced and the actual number of lookup constraints.
func cost(f *core.Field, n int, def func(api frontend.API, x []frontend.Variable) *gadget.IntGadget) (announced [3]uint, actual int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	c := &costCircuit{X: make([]frontend.Variable, n), def: def}
	cs, err := frontend.Compile(f.Mod, r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs(), frontend.WithCompressThreshold(3000))
	if err != nil {
		return announced, 0, err
	}
	return c.ann, cs.GetNbConstraints() - c.n0, nil
}

func checkC46(r *Run) {
	type item struct {
		name string
		odd  func(w uint) bool
		run  func(g *gadget.IntGadget, x frontend.Variable)
	}
	var items []item
	lens := []uint{1, 2, 3, 5, 8, 9, 12, 16, 17, 31, 64}
	for _, l := range lens {
		for md, mn := range []string{"Loose", "TightForSmallAbs", "TightForUnknownRange"} {
			items = append(items, item{fmt.Sprintf("check %d bits %s", l, mn), func(w uint) bool { return l%w != 0 },
				func(g *gadget.IntGadget, x frontend.Variable) { g.AssertBitLength(x, l, gadget.Mode(md)) }})
		}
	}
	even := func(uint) bool { return false }
	items = append(items,
		item{"power of two", even, func(g *gadget.IntGadget, x frontend.Variable) { g.QueryPowerOf2(x) }},
		item{"absolute value of 7 bits", even, func(g *gadget.IntGadget, x frontend.Variable) { g.Abs(x, 7) }},
		item{"sign of 10 bits", even, func(g *gadget.IntGadget, x frontend.Variable) { g.IsPositive(x, 10) }},
	)
	fl := fieldOf(ecc.BN254)
	type prog struct {
		name string
		odd  bool
		n    int
		def  func(api frontend.API, x []frontend.Variable) *gadget.IntGadget
	}
	var progs []prog
	widths := []uint{1, 2, 3, 4, 5, 7, 8}
	sizes := []uint{2, 5, 17, 65}
	add := func(w, s uint, is ...int) {
		name, odd := fmt.Sprintf("width %d, %d powers:", w, s), s%w != 0
		for _, i := range is {
			name += " " + items[i].name + ";"
			odd = odd || items[i].odd(w)
		}
		progs = append(progs, prog{name, odd, len(is) + 2, func(api frontend.API, x []frontend.Variable) *gadget.IntGadget {
			g := gadget.New(api, w, s)
			// both tables are in use: the announced costs include both
			g.AssertBitLength(x[0], 4, gadget.Loose)
			g.QueryPowerOf2(x[1])
			for k, i := range is {
				items[i].run(g, x[k+2])
			}
			return g
		}})
	}
	if r.Thorough {
		widths = append(widths, 6, 9, 10)
		sizes = append(sizes, 3, 9, 33)
	}
	for wi, w := range widths {
		for si, s := range sizes {
			add(w, s)
			for i := range items {
				add(w, s, i)
				if s == 17 && w == 8 {
					add(11, s, i)
				}
				for j := range items {
					if r.Thorough || (i+j+wi+si)%2 == 0 || w == 5 && s == 17 {
						add(w, s, i, j)
					}
				}
			}
		}
	}
	if r.Thorough {
		for i := range items {
			for j := range items {
				for k := range items {
					add(3, 5, i, j, k)
				}
			}
		}
	}
	// float programs: any two operations after one that needs both tables
	var names []string
	for _, n := range []string{"New", "Add", "Sub", "Mul", "Div", "Sqrt", "Trunc", "Floor", "Ceil", "ToInt", "IsLt", "IsGe", "Select", "Abs", "AssertIsEqualOrULP"} {
		if floatOps[n] != nil {
			names = append(names, n)
		}
	}
	for fi, f := range []ref.Fmt{e4m3, ref.F32, ref.F64} {
		for wi, w := range []uint{3, 8, 5, 10} {
			for i, a := range names {
				for j, b := range names {
					if !r.Thorough && ((i+j+fi+wi)%4 != 0 && i != j || w == 10 && i != j) {
						continue
					}
					progs = append(progs, prog{fmt.Sprintf("%s then %s E%dM%d width %d", a, b, f.E, f.M, w), true, 8, func(api frontend.API, x []frontend.Variable) *gadget.IntGadget {
						ctx := float.NewContext(api, w, f.E, f.M)
						ctx.NewFloat(x[6]) // uses both tables
						v := []float.FloatVar{ctx.NewFloat(x[0]), ctx.NewFloat(x[1]), ctx.NewFloat(x[2])}
						api.AssertIsBoolean(x[3])
						for _, n := range []string{a, b} {
							floatOps[n].Build(&ctx, v[:max(1, floatOps[n].Arity)], x[3])
						}
						return ctx.Gadget
					}})
				}
			}
		}
	}
	r.Par("programs", len(progs), func() func(int) {
		return func(i int) {
			p := progs[i]
			ann, act, err := cost(fl, p.n, p.def)
			r.States.Add(1)
			r.Transitions.Add(int64(act))
			r.Evals.Add(1)
			r.Traces.Add(1)
			if p.odd {
				r.Nontrivial.Add(1)
			}
			if err != nil {
				r.Violate("define "+p.name, "the circuit cannot be built: "+err.Error(), p.name, func() bool { _, _, e := cost(fl, p.n, p.def); return e != nil })
				return
			}
			if int(ann[0]+ann[1]+ann[2]) != act {
				r.Violate(p.name, fmt.Sprintf("announced: %d for entries, %d for queries, %d for the rest; the built circuit has %d lookup constraints", ann[0], ann[1], ann[2], act), p.name, func() bool {
					a, n, _ := cost(fl, p.n, p.def)
					return int(a[0]+a[1]+a[2]) != n
				})
			}
		}
	})
	r.Sample(map[string]any{"program": progs[len(progs)/3].name})
	r.Assume("the announced costs are those of R1CS with an explicit table width and both tables in use, as in the repository's cost report")
}

// ---- C47: builds are reproducible ----

type bprog struct {
	name string
	nIn  int
	in   []uint64
	fn   core.CircuitFn
}

func buildMenu() []bprog {
	var l []bprog
	op := func(n string, f ref.Fmt, w uint) {
		o := floatOps[n]
		one := f.One()
		l = append(l, bprog{fmt.Sprintf("%s E%dM%d width %d", n, f.E, f.M, w), o.nIn(true), []uint64{one + 3, one + 1<<f.M + 1, 1}[:o.nIn(true)], o.circuit(Cfg{f, w, core.R1CS, ecc.BN254}, true)})
	}
	op("Add", e4m3, 4)
	op("Add", e5m2, 4)
	op("Mul", e4m3, 4)
	op("Div", e4m3, 0)
	op("Sqrt", e4m3, 4)
	op("IsLt", e4m3, 4)
	op("Floor", e4m3, 4)
	op("ToInt", e4m3, 3)
	op("Sub", ref.F32, 8)
	op("Mul", ref.F64, 8)
	op("Div", ref.F64, 0)
	op("Trunc", ref.F32, 0)
	gad := func(name string, w, s uint, n int, f func(g *gadget.IntGadget, api frontend.API, x []frontend.Variable) []frontend.Variable) {
		l = append(l, bprog{name, n, []uint64{5, 3, 2}[:n], func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return f(gadget.New(api, w, s), api, in)
		}})
	}
	gad("checks with chosen width", 0, 9, 2, func(g *gadget.IntGadget, api frontend.API, x []frontend.Variable) []frontend.Variable {
		g.AssertBitLength(x[0], 13, gadget.TightForUnknownRange)
		g.AssertBitLength(x[1], 200, gadget.Loose)
		return []frontend.Variable{g.QueryPowerOf2(x[1])}
	})
	gad("checks with width 3", 3, 5, 2, func(g *gadget.IntGadget, api frontend.API, x []frontend.Variable) []frontend.Variable {
		g.AssertBitLength(x[0], 13, gadget.TightForSmallAbs)
		return []frontend.Variable{g.QueryPowerOf2(x[1]), g.Max(x[0], x[1], 9), g.IsEq(x[0], x[1])}
	})
	consts := func(f ref.Fmt, vals ...uint64) {
		l = append(l, bprog{fmt.Sprintf("constants %#x E%dM%d", vals, f.E, f.M), 1, []uint64{f.One() + 1}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := float.NewContext(api, 8, f.E, f.M)
			x := ctx.NewFloat(in[0])
			for _, v := range vals {
				x = ctx.Add(x, ctx.NewConstant(v))
			}
			return comps(x)
		}})
	}
	consts(e4m3, 0x38, 0x01)
	consts(e4m3, 0x01, 0xb8)
	consts(ref.F32, 0x3f800000, 0x00000001, 0x80000000)
	consts(ref.F64, 0x3f800000, 0x00000001, 0x80000000)
	l = append(l, bprog{"polynomial E8M23", 1, []uint64{0x3f000000}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := float.NewContext(api, 8, 8, 23)
		p := zkmath.Polynomial{ctx.NewF32Constant(1), ctx.NewF32Constant(-2), ctx.NewF32Constant(0.5)}
		return comps(p.Eval(&ctx, ctx.NewFloat(in[0])))
	}})
	return l
}

// heavy programs are built in histories only.
func heavyMenu() []bprog {
	mk := func(name string, f ref.Fmt, in uint64, fn func(*float.Context, float.FloatVar) float.FloatVar) bprog {
		return bprog{name, 1, []uint64{in}, func(api frontend.API, x []frontend.Variable) []frontend.Variable {
			ctx := float.NewContext(api, 8, f.E, f.M)
			return comps(fn(&ctx, ctx.NewFloat(x[0])))
		}}
	}
	return []bprog{
		mk("arctangent E8M23", ref.F32, 0x3f000000, zkmath.AtanRemez32),
		mk("arctangent E11M52", ref.F64, 0x3fe0000000000000, zkmath.AtanRemez64),
		mk("sine E8M23", ref.F32, 0x3f000000, zkmath.SinTaylor32),
		mk("sine E11M52", ref.F64, 0x3fe0000000000000, zkmath.SinTaylor64),
	}
}

func allBuilds() []bprog { return append(buildMenu(), heavyMenu()...) }

// digest is the identity of the circuit that the code asks for: nodes, hints and constraints in order.
func (b *bprog) digest(mode core.Mode) (d string) {
	defer func() {
		if e := recover(); e != nil {
			d = fmt.Sprint("panic: ", e)
		}
	}()
	p, err := core.Record(fieldOf(ecc.BN254), mode, b.nIn, b.fn)
	if err != nil {
		return "error: " + err.Error()
	}
	return p.Digest()
}

// full is the digest of the model and of the constraint system gnark builds, in both arithmetisations,
// and of an honest run.
func (b *bprog) full() (d string) {
	f := fieldOf(ecc.BN254)
	for _, m := range modes {
		d += b.digest(m) + " "
		g, err := core.CompileGnark(f, m, b.nIn, 0, b.fn)
		if err != nil {
			d += "error: " + err.Error() + " "
			continue
		}
		var buf bytes.Buffer
		if _, err := g.CS.WriteTo(&buf); err != nil {
			d += "error: " + err.Error() + " "
			continue
		}
		h := sha256.Sum256(buf.Bytes())
		d += hex.EncodeToString(h[:8]) + " "
		in := make([]*big.Int, b.nIn)
		for i := range in {
			in[i] = bigU(b.in[i])
		}
		if err := g.Solve(in, nil, nil); err != nil {
			d += "unprovable "
		}
	}
	return
}

type breq struct {
	Mode  string // fresh, hist, sched, race
	Hist  []int
	Pairs [][2]int
	Refs  []string
	Bound int
}

type bres struct {
	Digests   []string
	Points    int
	Schedules int64
	Steps     int64
	Preempted int64
	Viol      []hviol
	Sample    string
}

// BuildChild serves C47's subprocesses.
func buildChild(q breq) (s bres) {
	menu := allBuilds()
	switch q.Mode {
	case "fresh":
		n := 0
		sched.Hook = func(int) { n++ }
		d := menu[q.Hist[0]].digest(core.R1CS)
		sched.Hook = nil
		s.Points = n
		s.Digests = []string{d, menu[q.Hist[0]].full()}
	case "hist":
		for _, i := range q.Hist {
			s.Digests = append(s.Digests, menu[i].full())
		}
	case "sched":
		for _, p := range q.Pairs {
			buildSchedules(menu, p[0], p[1], &q, &s)
		}
	case "race":
		for _, p := range q.Pairs {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k := 0; k < 2; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					menu[p[k]].digest(core.R1CS)
				}()
			}
			close(start)
			wg.Wait()
			s.Schedules++
		}
	}
	return
}

// buildSchedules explores the interleavings of two builds: a is preempted after each number of its
// steps, b then runs for each number of steps or to its end, and so on.
func buildSchedules(menu []bprog, a, b int, q *breq, s *bres) {
	prog := [2]int{a, b}
	run := func(plan ...int) (out [2]string, dead bool) {
		var th [2]struct {
			next    func() (int, bool)
			yield   func(int) bool
			budget  int // points until the next preemption
			done    bool
			blocked bool
		}
		cur := 0
		sched.Hook = func(kind int) {
			t := &th[cur]
			s.Steps++
			if t.budget--; t.budget == 0 || kind == 1 {
				t.yield(kind)
			}
		}
		defer func() { sched.Hook = nil }()
		for k := range th {
			th[k].next, _ = iter.Pull(iter.Seq[int](func(yield func(int) bool) {
				th[k].yield = yield
				out[k] = menu[prog[k]].digest(core.R1CS)
			}))
		}
		// resume runs thread k for n of its steps (to its end if n is 0), unless it has to wait
		resume := func(k, n int) {
			t := &th[k]
			if t.done {
				return
			}
			cur, t.budget = k, n
			kind, ok := t.next()
			t.done, t.blocked = !ok, ok && kind == 1
		}
		turn := 0
		for _, n := range plan {
			resume(turn, n)
			turn = 1 - turn
		}
		for stuck := 0; !th[0].done || !th[1].done; turn = 1 - turn {
			before := s.Steps
			resume(turn, 0)
			if s.Steps-before <= 1 && th[turn].blocked && !th[turn].done {
				stuck++
			} else {
				stuck = 0
			}
			if stuck > 4 {
				return out, true
			}
		}
		return out, false
	}
	check := func(plan ...int) {
		out, dead := run(plan...)
		s.Schedules++
		if len(plan) > 0 {
			s.Preempted++
		}
		hist := fmt.Sprintf("schedule %v of the builds of %s and %s", plan, menu[a].name, menu[b].name)
		s.Sample = hist
		if len(s.Viol) > 10 {
			return
		}
		if dead {
			s.Viol = append(s.Viol, hviol{"deadlock of " + menu[a].name + " and " + menu[b].name, hist, hist})
			return
		}
		for k := range out {
			if out[k] != q.Refs[prog[k]] {
				s.Viol = append(s.Viol, hviol{"concurrent builds of " + menu[a].name + " and " + menu[b].name,
					fmt.Sprintf("the circuit of %s differs from the one built alone (%.100s)", menu[prog[k]].name, out[k]), hist})
				return
			}
		}
	}
	pts := func(i int) int {
		n := 0
		sched.Hook = func(int) { n++ }
		menu[i].digest(core.R1CS)
		sched.Hook = nil
		return n
	}
	na, nb := pts(a), pts(b)
	check()
	// one preemption: all; two preemptions: all, for pairs within the bound
	for p := 1; p <= na; p++ {
		check(p)
		for t := 1; na*nb <= q.Bound && t <= nb; t++ {
			check(p, t)
		}
	}
}

func bchild(exe string, q breq, env ...string) (bres, string, error) {
	var s bres
	b, _ := json.Marshal(q)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), append(env, "ZKMC_CHILD=build", "GOMAXPROCS=2")...)
	cmd.Stdin = bytes.NewReader(b)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return s, eb.String(), err
	}
	err = json.Unmarshal(out, &s)
	return s, eb.String(), err
}

func checkC47(r *Run) {
	exe, err := os.Executable()
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	menu, small := allBuilds(), len(buildMenu())
	refs, fulls, points := make([]string, len(menu)), make([]string, len(menu)), make([]int, len(menu))
	// fresh processes, several times: builds do not depend on anything random either
	r.Par("fresh processes", len(menu), func() func(int) {
		return func(i int) {
			for rep := 0; rep < 4; rep++ {
				s, e, err := bchild(exe, breq{Mode: "fresh", Hist: []int{i}})
				if err != nil || len(s.Digests) != 2 {
					r.Incomplete(fmt.Sprintf("process failed: %v %s", err, e))
					return
				}
				r.States.Add(1)
				r.Evals.Add(1)
				r.Traces.Add(1)
				if rep > 0 && (s.Digests[0] != refs[i] || s.Digests[1] != fulls[i]) {
					want := fulls[i]
					r.Violate("fresh build of "+menu[i].name, fmt.Sprintf("two fresh processes build different circuits: %s and %s", want, s.Digests[1]), menu[i].name, func() bool {
						for k := 0; k < 20; k++ {
							if s, _, err := bchild(exe, breq{Mode: "fresh", Hist: []int{i}}); err == nil && len(s.Digests) == 2 && s.Digests[1] != want {
								return true
							}
						}
						return false
					})
					return
				}
				refs[i], fulls[i], points[i] = s.Digests[0], s.Digests[1], s.Points
			}
		}
	})
	if r.Stop() || len(r.viol) > 0 {
		return
	}
	// histories: each in a process of its own
	var hists [][]int
	for i := range menu {
		for j := range menu {
			hists = append(hists, []int{i, j})
		}
	}
	lim := 8
	if r.Thorough {
		lim = small
	}
	for i := 0; i < lim; i++ {
		for j := 0; j < lim; j++ {
			for k := 0; k < lim; k++ {
				hists = append(hists, []int{i, j, k})
			}
		}
	}
	r.Par("histories", len(hists), func() func(int) {
		return func(x int) {
			h := hists[x]
			once := func() (string, string) {
				s, e, err := bchild(exe, breq{Mode: "hist", Hist: h})
				if err != nil || len(s.Digests) != len(h) {
					r.Incomplete(fmt.Sprintf("process failed: %v %s", err, e))
					return "", ""
				}
				for k, i := range h {
					if s.Digests[k] != fulls[i] {
						before := []string{}
						for _, j := range h[:k] {
							before = append(before, menu[j].name)
						}
						return fmt.Sprintf("%s after %v", menu[i].name, before), fmt.Sprintf("the circuit is %s, built in a fresh process it is %s", s.Digests[k], fulls[i])
					}
				}
				return "", ""
			}
			r.States.Add(1)
			r.Transitions.Add(int64(len(h)))
			r.Evals.Add(int64(len(h)))
			r.Nontrivial.Add(1)
			r.Traces.Add(1)
			if k, w := once(); k != "" {
				r.Violate(k, w, h, func() bool { a, _ := once(); return a != "" })
			}
		}
	})
	r.Put("histories", len(hists))
	// schedules
	instrumented := false
	for _, n := range points {
		instrumented = instrumented || n > 0
	}
	if !instrumented {
		r.Incomplete("the build is not instrumented: no schedules, only histories")
	}
	bound := 33000
	if r.Thorough {
		bound = 120000
	}
	var pairs [][2]int
	for i := 0; i < small; i++ {
		for j := 0; j < small; j++ {
			// the large builds meet themselves and their neighbours, the others meet all
			if r.Thorough || points[i] <= 450 && points[j] <= 450 || i == j || j == (i+1)%small {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	sort.SliceStable(pairs, func(a, b int) bool {
		return points[pairs[a][0]]+points[pairs[a][1]] > points[pairs[b][0]]+points[pairs[b][1]]
	})
	if instrumented {
		pp := map[string]int{}
		for i, n := range points[:small] {
			pp[menu[i].name] = n
		}
		r.Put("scheduling_points", pp)
		r.Par("schedules", len(pairs), func() func(int) {
			return func(x int) {
				q := breq{Mode: "sched", Pairs: pairs[x : x+1], Refs: refs, Bound: bound}
				s, e, err := bchild(exe, q)
				if err != nil {
					r.Incomplete(fmt.Sprintf("process failed: %v %s", err, e))
					return
				}
				r.States.Add(s.Schedules)
				r.Transitions.Add(s.Steps)
				r.Evals.Add(2 * s.Schedules)
				r.Nontrivial.Add(s.Preempted)
				r.Traces.Add(s.Schedules)
				if x%67 == 5 {
					r.Sample(s.Sample)
				}
				for _, v := range s.Viol {
					r.Violate(v.Key, v.What+": "+v.Hist, v, func() bool { s, _, err := bchild(exe, q); return err == nil && len(s.Viol) > 0 })
				}
			}
		})
	}
	rexe := filepath.Join(filepath.Dir(exe), "zkcheck-race")
	if _, err := os.Stat(rexe); err != nil {
		r.Incomplete("no race-detecting build: data races that do not change results are not covered")
		return
	}
	r.Par("races", small, func() func(int) {
		return func(i int) {
			q := breq{Mode: "race"}
			for j := 0; j < small; j++ {
				q.Pairs = append(q.Pairs, [2]int{i, j})
			}
			race := func() (string, bool, int64) {
				s, e, err := bchild(rexe, q, "GORACE=halt_on_error=1 exitcode=66")
				if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 66 {
					return e, true, 0
				}
				if err != nil {
					r.Incomplete(fmt.Sprintf("race run failed: %v", err))
				}
				return "", false, s.Schedules
			}
			e, bad, n := race()
			r.Traces.Add(n)
			r.Evals.Add(2 * n)
			if bad {
				r.Violate("data race while building "+menu[i].name, e, e, func() bool { _, b, _ := race(); return b })
			}
		}
	})
	r.Assume("interleavings are explored at statement granularity under sequential consistency; the race detector covers finer ones")
}
