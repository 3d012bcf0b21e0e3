package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"zkmc/core"
	"zkmc/ref"
)

func init() {
	register("C01", "model_checking", "every encoding of the small formats and bf16, boundary lattices of F32/F64; a case counts when the encoded value is finite and non-zero", checkC01)
	register("C02", "model_checking", "every prover choice for every encoding of the small formats, boundary lattices of F32/F64, and field elements that are no encoding; a case counts when the encoded value is finite and non-zero, or no encoding", checkC02)
	register("C03", "model_checking", "every encoding of the small formats and bf16, boundary lattices of F32/F64, as a compile-time constant on its own and as an operand; a case counts when the constant is finite and non-zero", checkC03)
}

func checkC01(r *Run) {
	op := floatOps["New"]
	var jobs []*job
	all := []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
	for _, f := range []ref.Fmt{e4m3, e4m2, e5m2, e5m3, e6m3, e5m4} {
		for _, w := range all {
			for _, m := range modes {
				rp := 6
				if w > 8 {
					rp = 0
				}
				jobs = append(jobs, &job{cfg: cfg(f, w, m), op: op, encoded: true, cases: allUnary(f), replay: rp})
			}
		}
	}
	for i, w := range []uint{0, 0, 8, 8, 1, 5, 16} {
		jobs = append(jobs, &job{cfg: cfg(bf16, w, modes[i%2]), op: op, encoded: true, cases: allUnary(bf16), replay: 20})
	}
	lvl := 3
	for _, f := range []ref.Fmt{ref.F32, ref.F64} {
		cs := unaryOf(f.Lattice(lvl))
		if r.Thorough {
			cs = unaryCases(f, 3)
		}
		for i, w := range []uint{8, 0, 5, 3, 1, 16, 0} {
			rp := 60
			if w == 16 {
				rp = 0
			}
			jobs = append(jobs, &job{cfg: cfg(f, w, modes[i%2]), op: op, encoded: true, cases: cs, replay: rp})
		}
	}
	if r.Thorough {
		for i, f := range []ref.Fmt{{E: 6, M: 6}, {E: 8, M: 9}, {E: 7, M: 12}, {E: 11, M: 10}} {
			jobs = append(jobs, &job{cfg: cfg(f, 8, modes[i%2]), op: op, encoded: true, cases: allUnary(f), replay: 100},
				&job{cfg: cfg(f, 0, modes[1-i%2]), op: op, encoded: true, cases: allUnary(f)})
		}
	}
	runJobs(r, jobs)
	// values known when the circuit is defined, as integers of every type
	for fi, f := range []ref.Fmt{e4m3, e5m2, e6m3, ref.F32, ref.F64} {
		pats := f.All
		if fi > 2 {
			pats = func() []uint64 { return f.Lattice(1) }
		}
		n := 32
		l := pats()
		for lo := 0; lo < len(l); lo += n {
			ps := l[lo:min(len(l), lo+n)]
			c := cfg(f, []uint{8, 0, 5}[lo/n%3], modes[lo/n%2])
			fl := fieldOf(c.Curve)
			var want []core.El
			for _, b := range ps {
				if f.IsNaN(b) {
					b &= 1<<(f.E+f.M) - 1 // allocated without its sign, see below
				}
				e := compEls(fl, f.Comp(b))
				want = append(want, e[:]...)
			}
			constCase(r, fl, c.Mode, fmt.Sprintf("New of the constants %#x..%#x %s", ps[0], ps[len(ps)-1], c), true, func(api frontend.API) []frontend.Variable {
				ctx := float.NewContext(api, c.Range, f.E, f.M)
				var out []frontend.Variable
				for i, b := range ps {
					if f.IsNaN(b) {
						b &= 1<<(f.E+f.M) - 1
					}
					var v frontend.Variable = b
					switch i % 3 {
					case 1:
						v = bigU(b)
					case 2:
						if b < 1<<62 {
							v = int(b)
						}
					}
					out = append(out, comps(ctx.NewFloat(v))...)
				}
				return out
			}, want)
		}
	}
}

// notEncodings are field elements outside [0, 2^bits).
func notEncodings(fl *core.Field, f ref.Fmt, full bool) []gcase {
	var out []gcase
	put := func(v *big.Int, name string) {
		v = new(big.Int).Mod(v, fl.Mod)
		if v.BitLen() <= int(f.Bits()) {
			return
		}
		out = append(out, gcase{name: name, in: []core.El{fl.FromBig(v)}, v: Verdict{Reject: true}, nt: true})
	}
	n := new(big.Int).Lsh(big.NewInt(1), f.Bits())
	base := f.Lattice(0)
	if full {
		base = f.All()
	}
	for _, k := range []int64{1, 2, 3, 4, 7, 8, 16, 255} {
		for _, b := range base {
			v := new(big.Int).Mul(n, big.NewInt(k))
			put(v.Add(v, bigU(b)), fmt.Sprintf("New(%d*2^%d+%#x)", k, f.Bits(), b))
		}
	}
	for _, b := range base {
		if b > 0 {
			put(new(big.Int).Neg(bigU(b)), fmt.Sprintf("New(-%#x)", b))
		}
	}
	// multiples of inverse powers of two: small after scaling
	for k := uint(1); k <= 16; k++ {
		inv := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), k), fl.Mod)
		for _, m := range []int64{1, 2, 3, 5, 1 << 10, -1, -3} {
			put(new(big.Int).Mul(inv, big.NewInt(m)), fmt.Sprintf("New(%d/2^%d)", m, k))
			put(new(big.Int).Mul(inv, new(big.Int).Mul(big.NewInt(m), new(big.Int).Lsh(big.NewInt(1), f.M))), fmt.Sprintf("New(%d*2^M/2^%d)", m, k))
		}
	}
	for _, s := range []uint{0, 1, 2, f.M, f.E, f.M + f.E, 64, 128} {
		put(new(big.Int).Sub(new(big.Int).Rsh(fl.Mod, 1), bigU(uint64(s))), "New(p/2-small)")
		put(new(big.Int).Lsh(big.NewInt(1), 100+s), fmt.Sprintf("New(2^%d)", 100+s))
	}
	return out
}

func checkC02(r *Run) {
	op := floatOps["New"]
	var jobs []*job
	ws := []uint{8, 0, 2, 3, 4, 5}
	full := []ref.Fmt{e4m3, e4m2, e5m2, e5m4, e6m3}
	if r.Thorough {
		ws = append(ws, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17)
		full = append(full, e5m3, bf16)
	}
	for _, f := range full {
		for i, w := range ws {
			jobs = append(jobs, &job{cfg: cfg(f, w, modes[i%2]), op: op, encoded: true, cases: allUnary(f), adv: true, replay: 2})
		}
	}
	for _, f := range []ref.Fmt{ref.F32, ref.F64} {
		lvl := 2
		if r.Thorough {
			lvl = 3
		}
		for i, w := range []uint{8, 0, 5, 3} {
			jobs = append(jobs, &job{cfg: cfg(f, w, modes[i%2]), op: op, encoded: true, cases: unaryOf(f.Lattice(lvl)), adv: true, replay: 2})
		}
	}
	runJobs(r, jobs)
	for _, f := range append(full, ref.F32, ref.F64) {
		for i, w := range ws[:4] {
			c := cfg(f, w, modes[i%2])
			u := buildUnit(r, fmt.Sprintf("New %s", c), fieldOf(c.Curve), c.Mode, 1, op.circuit(c, true))
			if u == nil {
				continue
			}
			rp := 3
			runUnit(r, u, notEncodings(u.P.F, f, f.Bits() <= 8), true, true, rp)
		}
	}
	// the same as values known when the circuit is defined
	for fi, f := range []ref.Fmt{e4m3, e5m2, ref.F32, ref.F64} {
		for i, w := range []uint{8, 0, 3} {
			c := cfg(f, w, modes[(i+fi)%2])
			fl := fieldOf(c.Curve)
			cs := notEncodings(fl, f, false)
			for k := i; k < len(cs); k += 1 + len(cs)/60 {
				v := fl.ToBig(cs[k].in[0])
				constCase(r, fl, c.Mode, cs[k].name+" of a constant "+c.String(), false, func(api frontend.API) []frontend.Variable {
					ctx := float.NewContext(api, c.Range, f.E, f.M)
					return comps(ctx.NewFloat(v))
				}, nil)
			}
		}
	}
}

// constOp fixes one operand of an operation to a compile-time constant.
func constOp(o *Op, pos int, k uint64) *Op {
	full := func(v []uint64) []uint64 {
		if o.Arity == 1 {
			return []uint64{k}
		}
		if pos == 0 {
			return []uint64{k, v[0]}
		}
		return []uint64{v[0], k}
	}
	return &Op{
		Name: fmt.Sprintf("%s[operand %d=const %#x]", o.Name, pos, k), Arity: o.Arity - 1, Cond: o.Cond,
		Build: func(c *float.Context, x []float.FloatVar, cond frontend.Variable) []frontend.Variable {
			kv := c.NewConstant(k)
			if o.Arity == 1 {
				return o.Build(c, []float.FloatVar{kv}, cond)
			}
			if pos == 0 {
				return o.Build(c, []float.FloatVar{kv, x[0]}, cond)
			}
			return o.Build(c, []float.FloatVar{x[0], kv}, cond)
		},
		Want: func(f ref.Fmt, a []uint64, cond uint64) Want { return o.Want(f, full(a), cond) },
	}
}

func checkC03(r *Run) {
	// the constant's own components
	batch := func(f ref.Fmt, mode core.Mode, pats []uint64, typed bool) {
		const n = 128
		for lo := 0; lo < len(pats); lo += n {
			if r.Stop() || r.Expired() {
				return
			}
			ps := pats[lo:min(len(pats), lo+n)]
			fl := fieldOf(cfg(f, 8, mode).Curve)
			var fresh []float.FloatVar
			fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				ctx := float.NewContext(api, 8, f.E, f.M)
				fresh = fresh[:0]
				var out []frontend.Variable
				for _, b := range ps {
					var x float.FloatVar
					switch {
					case !typed:
						x = ctx.NewConstant(b)
					case f == ref.F32:
						x = ctx.NewF32Constant(f32(b))
					default:
						x = ctx.NewF64Constant(f64(b))
					}
					fresh = append(fresh, x)
				}
				// read all constants only after all were built: none may have changed another
				for _, x := range fresh {
					for _, v := range comps(x) {
						out = append(out, api.Add(v, 0))
					}
				}
				return out
			}
			label := fmt.Sprintf("constants %#x..%#x typed=%v E%dM%d/%s", ps[0], ps[len(ps)-1], typed, f.E, f.M, mode)
			u := buildUnit(r, label, fl, mode, 0, fn)
			if u == nil {
				continue
			}
			ev := core.NewEvaluator(u.P)
			t := ev.Run(nil)
			r.States.Add(int64(len(ps)))
			r.Transitions.Add(int64(len(u.P.Nodes)))
			r.Evals.Add(int64(len(ps)))
			for i, b := range ps {
				if f.IsFin(b) && !f.IsZero(b) {
					r.Nontrivial.Add(1)
				}
				c := compEls(fl, f.Comp(b))
				for k := 0; k < 4; k++ {
					if k == 0 && f.IsNaN(b) {
						continue
					}
					if !t.OK() || t.Outs[4*i+k] != c[k] {
						got := "unprovable"
						if t.OK() {
							got = fmt.Sprint(show(fl, t.Outs[4*i:4*i+4]))
						}
						r.Violate(fmt.Sprintf("constant %#x E%dM%d typed=%v", b, f.E, f.M, typed), fmt.Sprintf("components %s, expected %v", got, show(fl, c[:])), map[string]any{"bits": b}, nil)
						break
					}
				}
			}
			if lo == 0 && t.OK() {
				r.Traces.Add(1)
				if err := u.solve(nil, t.Outs, nil); err != nil {
					r.Incomplete("gnark and the model disagree on " + label + ": " + err.Error())
				}
			}
		}
	}
	for i, f := range []ref.Fmt{e4m3, e4m2, e5m2, e5m3, e6m3, e5m4, bf16} {
		batch(f, modes[i%2], f.All(), false)
	}
	if r.Thorough {
		for i, f := range []ref.Fmt{{E: 8, M: 9}, {E: 11, M: 8}, {E: 5, M: 14}} {
			batch(f, modes[i%2], f.All(), false)
		}
	}
	for i, f := range []ref.Fmt{ref.F32, ref.F64} {
		l := f.Lattice(3)
		if r.Thorough {
			l = nil
			for _, c := range unaryCases(f, 3) {
				l = append(l, c.A[0])
			}
		}
		batch(f, modes[i%2], l, false)
		batch(f, modes[1-i%2], l, true)
	}
	// constants as operands
	var jobs []*job
	consts := func(f ref.Fmt) []uint64 {
		b := f.One()
		n := f.Zero(1)
		l := []uint64{f.Zero(0), n, b, b | n, f.Inf(0), f.Inf(1), f.NaN(), f.MaxFin(0), 1, 1<<f.M - 1, 1 << f.M, b + 1, b + 1<<(f.M-1) | n, f.NaN() | n | 1}
		return l
	}
	names := []string{"Add", "Sub", "Mul", "Div", "IsLt", "IsLe", "AssertIsEqual", "AssertIsEqualOrULP", "Select"}
	unary := []string{"Sqrt", "Abs", "Neg", "Trunc", "Floor", "Ceil", "ToInt", "New"}
	for fi, f := range []ref.Fmt{e4m3, ref.F32, ref.F64} {
		opnds := f.All
		if fi > 0 {
			opnds = func() []uint64 { return f.Lattice(1) }
		}
		for i, k := range consts(f) {
			for _, n := range names {
				for pos := 0; pos < 2; pos++ {
					cs := unaryOf(opnds())
					if floatOps[n].Cond {
						cs = withCond(cs)
					}
					jobs = append(jobs, &job{cfg: cfg(f, 8, modes[(i+pos)%2]), op: constOp(floatOps[n], pos, k), cases: cs, replay: 1})
				}
			}
			for _, n := range unary {
				jobs = append(jobs, &job{cfg: cfg(f, 8, modes[i%2]), op: constOp(floatOps[n], 0, k), cases: []Case{{}}, replay: 1})
			}
		}
		// both operands constant
		for _, a := range consts(f) {
			for _, b := range consts(f) {
				for _, n := range names[:5] {
					jobs = append(jobs, &job{cfg: cfg(f, 8, modes[(a^b)&1]), op: constOp(constOp(floatOps[n], 0, a), 0, b), cases: []Case{{}}, replay: 0})
				}
			}
		}
	}
	runJobs(r, jobs)
}
