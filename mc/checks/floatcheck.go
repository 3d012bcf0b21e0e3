package checks

import (
	"fmt"
	"math/big"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"zkmc/core"
	"zkmc/ref"
)

// job is one program (operation x configuration) with the operand space it is run on.
type job struct {
	cfg     Cfg
	op      *Op
	encoded bool
	cases   []Case
	adv     bool // explore prover choices; otherwise run the honest prover
	replay  int  // number of traces replayed on gnark
}

func (j *job) key(c Case) string {
	s := fmt.Sprintf("%s(", j.op.Name)
	for i := 0; i < j.op.Arity; i++ {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%#x", c.A[i])
	}
	if j.op.Cond {
		s += fmt.Sprintf(",c=%d", c.Cond)
	}
	return s + ") " + j.cfg.String()
}

// unit is a recorded circuit together with its lazily compiled gnark counterpart.
type unit struct {
	label string
	P     *core.Program
	mode  core.Mode
	fn    core.CircuitFn
	// how many cases were left to deviate
	deviated atomic.Int32

	one  sync.Once
	g    *core.Gnark
	err  error
	two  sync.Once
	g0   *core.Gnark
	err0 error
}

// newUnit records circuit code.
func newUnit(label string, f *core.Field, mode core.Mode, nIn int, fn core.CircuitFn) (*unit, error) {
	p, err := core.Record(f, mode, nIn, fn)
	if err != nil {
		return nil, err
	}
	return &unit{label: label, P: p, mode: mode, fn: fn}, nil
}

// buildUnit is newUnit that reports circuits that cannot be built (on gnark neither) as violations.
func buildUnit(r *Run, label string, f *core.Field, mode core.Mode, nIn int, fn core.CircuitFn) *unit {
	u, err := newUnit(label, f, mode, nIn, fn)
	if err != nil {
		r.Violate("define "+label, "the circuit cannot be built: "+err.Error(), label, func() bool {
			_, g := core.CompileGnark(f, mode, nIn, 0, fn)
			return g != nil
		})
		return nil
	}
	return u
}

func (g *unit) get() (*core.Gnark, error) {
	g.one.Do(func() {
		g.g, g.err = core.CompileGnark(g.P.F, g.mode, len(g.P.Inputs), len(g.P.Outputs), g.fn)
	})
	return g.g, g.err
}

func bigs(f *core.Field, e []core.El) []*big.Int {
	out := make([]*big.Int, len(e))
	for i := range e {
		out[i] = f.ToBig(e[i])
	}
	return out
}

func (g *unit) solve(in, outs []core.El, force []core.Override) error {
	gk, err := g.get()
	if err != nil {
		return err
	}
	f := g.P.F
	return gk.Solve(bigs(f, in), bigs(f, outs), force)
}

// runJobs executes all jobs of a check.
func runJobs(r *Run, jobs []*job) {
	for _, j := range jobs {
		if r.Stop() {
			return
		}
		t, a, b := time.Now(), r.States.Load(), r.Evals.Load()
		runJob(r, j)
		if os.Getenv("ZKMC_VERBOSE") != "" {
			fmt.Printf("  %-28s %-28s adv=%v cases=%d states=%d evals=%d %.2fs\n", j.op.Name, j.cfg, j.adv, len(j.cases), r.States.Load()-a, r.Evals.Load()-b, time.Since(t).Seconds())
		}
	}
}

func runJob(r *Run, j *job) {
	label := fmt.Sprintf("%s %s", j.op.Name, j.cfg)
	u := buildUnit(r, label, fieldOf(j.cfg.Curve), j.cfg.Mode, j.op.nIn(j.encoded), j.op.circuit(j.cfg, j.encoded))
	if u == nil {
		return
	}
	p := &Prog{j.cfg, j.op, j.encoded, u.P}
	const chunk = 64
	n := (len(j.cases) + chunk - 1) / chunk
	stride := 0
	if j.replay > 0 {
		stride = max(1, len(j.cases)/j.replay)
	}
	r.Par(label, n, func() func(int) {
		ev := core.NewEvaluator(p.P)
		ev.Junk = 1
		var x *core.Explorer
		if j.adv {
			x = core.NewExplorer(p.P)
			x.MaxStates = 200_000
		}
		return func(i int) {
			lo := i * chunk
			hi := min(lo+chunk, len(j.cases))
			var st, tr core.Result
			if x != nil {
				st = x.Res
			}
			calls := ev.Calls
			var evals, nt int64
			for k := lo; k < hi; k++ {
				if j.adv && r.Expired() {
					r.Incomplete(label + ": stopped before the end of the enumeration")
					break
				}
				c := j.cases[k]
				w := j.op.Want(j.cfg.Fmt, c.A[:], c.Cond)
				if w.Free {
					continue
				}
				evals++
				if nontrivial(j, c) {
					nt++
				}
				want, care := p.Expect(w)
				checkCase(r, u, ev, x, j.key(c), p.Inputs(c.A[:], c.Cond), Verdict{Out: want, Care: care, Reject: w.Reject}, stride > 0 && k%stride == 0)
			}
			r.Evals.Add(evals)
			r.Nontrivial.Add(nt)
			if x != nil {
				tr = x.Res
				r.States.Add(tr.States - st.States)
				r.Transitions.Add(tr.Transitions - st.Transitions)
			} else {
				r.States.Add(evals)
				r.Transitions.Add(ev.Calls - calls + evals*int64(len(p.P.Cons)))
			}
		}
	})
	if len(j.cases) > 0 {
		c := j.cases[len(j.cases)*2/3]
		r.Sample(map[string]any{"program": label, "operands": fmt.Sprintf("%#x", c.A[:j.op.Arity]), "cases": len(j.cases), "adversarial": j.adv,
			"model_nodes": len(p.P.Nodes), "model_constraints": len(p.P.Cons)})
	}
}

func nontrivial(j *job, c Case) bool {
	for i := 0; i < j.op.Arity; i++ {
		if !j.cfg.Fmt.IsFin(c.A[i]) || j.cfg.Fmt.IsZero(c.A[i]) {
			return false
		}
	}
	return true
}

// Verdict is what the oracle says about one input of a circuit.
type Verdict struct {
	Out    []core.El
	Care   []bool // components that are promised
	Reject bool
	Opt    bool // provability is not promised: the case may be rejected, but not proved with other outputs
}

// checkCase decides one input of a circuit: the honest prover's run when x is nil, otherwise every
// assignment of the prover-chosen wires.
func checkCase(r *Run, u *unit, ev *core.Evaluator, x *core.Explorer, key string, in []core.El, w Verdict, replay bool) {
	p, f, want, care := u.P, u.P.F, w.Out, w.Care
	t := ev.Run(in)
	good := t.OK() != w.Reject && (!t.OK() || matches(t.Outs, want, care)) || w.Opt && !t.OK()
	if !good && x == nil {
		got := "rejected"
		if t.OK() {
			got = fmt.Sprint("accepted with outputs ", show(f, t.Outs))
		} else if t.HintErr != nil {
			got = "unprovable: " + t.HintErr.Error()
		} else {
			got = fmt.Sprintf("rejected at constraint %d (%s)", t.Fail, p.Cons[t.Fail].Label)
		}
		exp := "rejection"
		if !w.Reject {
			exp = fmt.Sprint("outputs ", show(f, want))
		}
		outs := append([]core.El{}, t.Outs...)
		ok := t.OK()
		r.Violate("honest "+key, "the honest prover is "+got+", expected "+exp,
			map[string]any{"program": key, "inputs": show(f, in), "expected": exp, "got": got},
			func() bool {
				// confirm on gnark: the accepted wrong outputs are accepted, or the expected ones refused
				if ok {
					return u.solve(in, outs, nil) == nil
				}
				return u.solve(in, want, nil) != nil
			})
	}
	if x != nil {
		var honest []core.El
		if good && t.OK() {
			honest = t.Val
		}
		forged, capped := x.Explore(in, want, care, w.Reject, honest)
		if capped {
			r.Incomplete("prover choices not enumerated completely for " + u.label)
			if forged == nil && t.HintErr == nil {
				forged = deviate(r, u, ev, in, w)
			}
		}
		if forged != nil {
			ft := ev.RunWith(in, forged)
			outs := make([]core.El, len(p.Outputs))
			for i, o := range p.Outputs {
				outs[i] = ft.Val[o]
			}
			over := p.Overrides(forged)
			r.Violate("forged "+key, fmt.Sprintf("a dishonest prover can prove outputs %v, the only correct ones are %v (reject=%v)", show(f, outs), show(f, want), w.Reject),
				map[string]any{"program": key, "inputs": show(f, in), "forged_outputs": show(f, outs), "forced_hint_outputs": over},
				func() bool { return u.solve(in, outs, over) == nil })
		}
	}
	if replay {
		conform(r, u, key, in, w, t)
		if x != nil {
			perturb(r, u, ev, key, in, 12)
		}
	}
}

// deviate explores, where the complete enumeration is out of reach, the provers that lie once: one hinted
// wire gets each value of a menu, all later hints are answered honestly from what they are given then.
func deviate(r *Run, u *unit, ev *core.Evaluator, in []core.El, w Verdict) map[int32]core.El {
	if u.deviated.Add(1) > 24 {
		return nil
	}
	p, f := u.P, u.P.F
	var wires []int32
	for i := range p.Hints {
		if p.Hints[i].Seq >= 0 {
			wires = append(wires, p.Hints[i].Outs...)
		}
	}
	base := append([]core.El{}, ev.Run(in).Val...)
	half := f.Inv(f.FromUint(2))
	end := time.Now().Add(8 * time.Second)
	for _, id := range wires {
		if r.Expired() || r.Stop() || time.Now().After(end) {
			return nil
		}
		v := base[id]
		for _, x := range []core.El{f.Add(v, f.One), {}, f.Add(v, v), f.Mul(v, half), f.Sub(f.One, v), f.Sub(v, f.One), f.Neg(v), f.Add(v, f.FromUint(2)), f.Add(v, f.FromUint(1<<8))} {
			if x == v {
				continue
			}
			forged := map[int32]core.El{id: x}
			t := ev.RunWith(in, forged)
			r.Transitions.Add(1)
			if t.OK() && (w.Reject || !matches(t.Outs, w.Out, w.Care)) {
				return forged
			}
		}
	}
	return nil
}

// perturb binds the prover's choices of the model to gnark: up to n hinted wires are changed one at a time,
// the rest of the prover stays honest, and gnark's solver must accept exactly what the model accepts.
func perturb(r *Run, u *unit, ev *core.Evaluator, key string, in []core.El, n int) {
	p, f := u.P, u.P.F
	var wires []int32
	for i := range p.Hints {
		if p.Hints[i].Seq >= 0 {
			wires = append(wires, p.Hints[i].Outs...)
		}
	}
	base := append([]core.El{}, ev.Run(in).Val...)
	for k := 0; k < len(wires); k += 1 + (len(wires)-1)/n {
		id := wires[k]
		for _, v := range []core.El{f.Add(base[id], f.One), {}, f.Neg(base[id])} {
			if v == base[id] {
				continue
			}
			forged := map[int32]core.El{id: v}
			t := ev.RunWith(in, forged)
			outs := make([]core.El, len(p.Outputs))
			for i, o := range p.Outputs {
				outs[i] = t.Val[o]
			}
			if t.HintErr != nil {
				continue
			}
			ok := t.OK()
			r.Traces.Add(1)
			if err := u.solve(in, outs, p.Overrides(forged)); (err == nil) != ok {
				r.Incomplete(fmt.Sprintf("model (%v) and gnark (%v) disagree on a dishonest prover of %s", ok, err, key))
			}
		}
	}
}

// conform replays a model trace on gnark's own builder and solver, and checks gnark against the oracle.
func conform(r *Run, u *unit, key string, in []core.El, w Verdict, t core.Trace) {
	p, f, want, care := u.P, u.P.F, w.Out, w.Care
	r.Traces.Add(1)
	if w.Reject {
		outs := want
		if len(p.Outputs) > 0 && outs == nil {
			outs = make([]core.El, len(p.Outputs))
			if t.Outs != nil {
				outs = append([]core.El{}, t.Outs...)
			} else {
				for i, o := range p.Outputs {
					outs[i] = t.Val[o]
				}
			}
		}
		if u.solve(in, outs, nil) == nil {
			r.Violate("gnark "+key, "gnark's solver accepts inputs that must be rejected", map[string]any{"program": key, "inputs": show(f, in)},
				func() bool { return u.solve(in, outs, nil) == nil })
		}
		return
	}
	exp := append([]core.El{}, want...)
	for i := range exp {
		if !care[i] && t.Outs != nil {
			exp[i] = t.Outs[i]
		}
	}
	if err := u.solve(in, exp, nil); err != nil {
		if w.Opt {
			return
		}
		if !t.OK() && len(care) > 0 && !care[0] {
			return
		}
		r.Violate("gnark "+key, "gnark's solver rejects the correct outputs: "+err.Error(),
			map[string]any{"program": key, "inputs": show(f, in), "expected": show(f, exp)},
			func() bool { return u.solve(in, exp, nil) != nil })
		return
	}
	if !w.Opt && (!t.OK() || !matches(t.Outs, want, care)) {
		r.Incomplete("model and gnark disagree on " + key)
	}
	for i := range exp {
		if !care[i] {
			continue
		}
		bad := append([]core.El{}, exp...)
		bad[i] = f.Add(bad[i], f.One)
		if u.solve(in, bad, nil) == nil {
			r.Violate("gnark "+key, fmt.Sprintf("gnark's solver accepts a wrong output component %d", i), map[string]any{"program": key, "inputs": show(f, in)},
				func() bool { return u.solve(in, bad, nil) == nil })
		}
		break
	}
}

// gcase is one input of a circuit given by field elements.
type gcase struct {
	name string
	in   []core.El
	v    Verdict
	nt   bool // non-trivial
	// judge, if set, decides the outputs of the honest run instead of v: it returns what is wrong with
	// them, or "". A rejection is wrong unless v.Opt is set.
	judge func(outs []core.El) string
}

// rejected reports whether gnark's solver rejects the inputs whatever the outputs.
func (g *unit) rejected(in []core.El) bool {
	g.two.Do(func() {
		g.g0, g.err0 = core.CompileGnark(g.P.F, g.mode, len(g.P.Inputs), 0, g.fn)
	})
	if g.err0 != nil {
		return true
	}
	return g.g0.Solve(bigs(g.P.F, in), nil, nil) != nil
}

func judgeCase(r *Run, u *unit, ev *core.Evaluator, key string, c *gcase, replay bool) {
	f := u.P.F
	t := ev.Run(c.in)
	if !t.OK() {
		if c.v.Opt {
			return
		}
		got := "unprovable"
		if t.HintErr != nil {
			got += ": " + t.HintErr.Error()
		} else {
			got += ": constraint " + u.P.Cons[t.Fail].Label
		}
		in := c.in
		r.Violate("honest "+key, got, map[string]any{"program": key, "inputs": show(f, in), "got": got}, func() bool { return u.rejected(in) })
		return
	}
	if bad := c.judge(t.Outs); bad != "" {
		in, outs := c.in, append([]core.El{}, t.Outs...)
		r.Violate("honest "+key, bad, map[string]any{"program": key, "inputs": show(f, in), "outputs": show(f, outs), "wrong": bad},
			func() bool { return u.solve(in, outs, nil) == nil })
		return
	}
	if replay {
		r.Traces.Add(1)
		if err := u.solve(c.in, t.Outs, nil); err != nil {
			r.Violate("gnark "+key, "gnark's solver rejects the model's outputs: "+err.Error(), map[string]any{"program": key, "inputs": show(f, c.in)},
				func() bool { return u.rejected(c.in) })
		}
	}
}

// runUnit decides all cases of a circuit; honest and, if adv, adversarial.
func runUnit(r *Run, u *unit, cases []gcase, honest, adv bool, replay int) {
	if u == nil || len(cases) == 0 || r.Stop() {
		return
	}
	t0 := time.Now()
	stride := 0
	if replay > 0 {
		stride = max(1, len(cases)/replay)
	}
	chunk := 16
	if len(cases) < 512 {
		chunk = 1 + len(cases)/64
	}
	r.Par(u.label, (len(cases)+chunk-1)/chunk, func() func(int) {
		ev := core.NewEvaluator(u.P)
		ev.Junk = 1
		var x *core.Explorer
		if adv {
			x = core.NewExplorer(u.P)
			x.MaxStates = 200_000
		}
		return func(i int) {
			for k := i * chunk; k < min(len(cases), (i+1)*chunk); k++ {
				c := &cases[k]
				if adv && r.Expired() {
					r.Incomplete(u.label + ": stopped before the end of the enumeration")
					return
				}
				key := c.name + " " + u.label
				if c.judge != nil {
					calls := ev.Calls
					judgeCase(r, u, ev, key, c, stride > 0 && k%stride == 0)
					r.States.Add(1)
					r.Transitions.Add(ev.Calls - calls + int64(len(u.P.Cons)))
				} else if honest {
					calls := ev.Calls
					checkCase(r, u, ev, nil, key, c.in, c.v, stride > 0 && k%stride == 0)
					r.States.Add(1)
					r.Transitions.Add(ev.Calls - calls + int64(len(u.P.Cons)))
				}
				if x != nil {
					st := x.Res
					checkCase(r, u, ev, x, key, c.in, c.v, stride > 0 && k%(4*stride) == 0)
					r.States.Add(x.Res.States - st.States)
					r.Transitions.Add(x.Res.Transitions - st.Transitions)
				}
				r.Evals.Add(1)
				if c.nt {
					r.Nontrivial.Add(1)
				}
			}
		}
	})
	c := cases[len(cases)*2/3]
	r.Sample(map[string]any{"program": u.label, "case": c.name, "cases": len(cases), "adversarial": adv, "model_nodes": len(u.P.Nodes), "model_constraints": len(u.P.Cons)})
	if os.Getenv("ZKMC_VERBOSE") != "" {
		fmt.Printf("  %-60s adv=%v cases=%d %.2fs\n", u.label, adv, len(cases), time.Since(t0).Seconds())
	}
}

// stageCase gives the case of a stage input: the honest prover's outputs are the only ones allowed.
func stageCase(r *Run, u *unit, ev *core.Evaluator, name string, in []core.El) (g gcase, ok bool) {
	t := ev.Run(in)
	if !t.OK() {
		return g, false
	}
	g = gcase{name: name, in: in, nt: true}
	g.v.Out = append(g.v.Out, t.Outs...)
	for range t.Outs {
		g.v.Care = append(g.v.Care, true)
	}
	return g, true
}

// unique decides that the honest prover's outputs are the only provable ones for each of the inputs,
// and replays a few on gnark. It returns the number of inputs that are not provable at all.
func unique(r *Run, u *unit, names []string, ins [][]core.El) (skipped int) {
	if u == nil {
		return
	}
	ev := core.NewEvaluator(u.P)
	var cs []gcase
	for i := range ins {
		if g, ok := stageCase(r, u, ev, names[i], ins[i]); ok {
			cs = append(cs, g)
		} else {
			skipped++
		}
	}
	runUnit(r, u, cs, false, true, 2)
	for i := 0; i < len(cs); i += 1 + len(cs)/2 {
		conform(r, u, cs[i].name, cs[i].in, cs[i].v, ev.Run(cs[i].in))
	}
	return
}

func show(f *core.Field, e []core.El) []string {
	out := make([]string, len(e))
	for i := range e {
		out[i] = f.Centered(e[i]).String()
	}
	return out
}

var (
	e4m3 = ref.Fmt{E: 4, M: 3}
	e4m2 = ref.Fmt{E: 4, M: 2}
	e5m2 = ref.Fmt{E: 5, M: 2}
	e5m3 = ref.Fmt{E: 5, M: 3}
	e5m4 = ref.Fmt{E: 5, M: 4}
	e6m3 = ref.Fmt{E: 6, M: 3}
	bf16 = ref.Fmt{E: 8, M: 7}
)

func cfg(f ref.Fmt, rg uint, m core.Mode) Cfg { return Cfg{f, rg, m, ecc.BN254} }
