package checks

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"zkmc/core"
	"zkmc/ref"
)

func init() {
	register("C21", "model_checking", "each float program on each operand tuple for every (curve, arithmetisation, table width); a case counts when all operands are finite and non-zero", checkC21)
	register("C22", "model_checking", "every sequence of operations up to the depth bound over all operand tuples of the menu, checked after each step; a case counts when all operands are finite and non-zero", checkC22)
	register("C23", "model_checking", "every ordered pair of operations on shared operands and constants in one context, and every interleaving of operations of several contexts; a case counts when all operands are finite and non-zero", checkC23)
}

// stepOp is an operation used inside sequences, with its oracle on encodings.
type stepOp struct {
	name  string
	arity int
	run   func(c *float.Context, x, y float.FloatVar) float.FloatVar
	want  func(f ref.Fmt, a, b uint64) uint64
}

var steps = []stepOp{
	{"Add", 2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Add(x, y) }, ref.Fmt.Add},
	{"Sub", 2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Sub(x, y) }, ref.Fmt.Sub},
	{"Mul", 2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Mul(x, y) }, ref.Fmt.Mul},
	{"Div", 2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Div(x, y) }, ref.Fmt.Div},
	{"Min", 2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Select(c.IsLt(x, y), x, y) },
		func(f ref.Fmt, a, b uint64) uint64 {
			if f.Less(a, b) {
				return a
			}
			return b
		}},
	{"Max", 2, func(c *float.Context, x, y float.FloatVar) float.FloatVar { return c.Select(c.IsGe(x, y), x, y) },
		func(f ref.Fmt, a, b uint64) uint64 {
			if f.LessEq(b, a) {
				return a
			}
			return b
		}},
	{"Sqrt", 1, func(c *float.Context, x, _ float.FloatVar) float.FloatVar { return c.Sqrt(x) }, func(f ref.Fmt, a, _ uint64) uint64 { return f.Sqrt(a) }},
	{"Neg", 1, func(c *float.Context, x, _ float.FloatVar) float.FloatVar { return c.Neg(x) }, func(f ref.Fmt, a, _ uint64) uint64 { return f.Neg(a) }},
	{"Abs", 1, func(c *float.Context, x, _ float.FloatVar) float.FloatVar { return c.Abs(x) }, func(f ref.Fmt, a, _ uint64) uint64 { return f.AbsB(a) }},
	{"Trunc", 1, func(c *float.Context, x, _ float.FloatVar) float.FloatVar { return c.Trunc(x) }, func(f ref.Fmt, a, _ uint64) uint64 { return f.ToIntegral(a, 0) }},
	{"Floor", 1, func(c *float.Context, x, _ float.FloatVar) float.FloatVar { return c.Floor(x) }, func(f ref.Fmt, a, _ uint64) uint64 { return f.ToIntegral(a, 1) }},
	{"Ceil", 1, func(c *float.Context, x, _ float.FloatVar) float.FloatVar { return c.Ceil(x) }, func(f ref.Fmt, a, _ uint64) uint64 { return f.ToIntegral(a, 2) }},
}

// canonNaN is the NaN all NaNs are compared as: its sign is not observable.
func canonNaN(f ref.Fmt, b uint64) uint64 {
	if f.IsNaN(b) {
		return f.NaN()
	}
	return b
}

// floatVerdict lays out expected components of several numbers.
func floatVerdict(fl *core.Field, fs []ref.Fmt, bits []uint64) Verdict {
	var v Verdict
	for i, b := range bits {
		c := compEls(fl, fs[i].Comp(b))
		v.Out = append(v.Out, c[:]...)
		v.Care = append(v.Care, !fs[i].IsNaN(b), true, true, true)
	}
	return v
}

func feed(fl *core.Field, f ref.Fmt, in []core.El, b uint64) []core.El {
	c := compEls(fl, f.Comp(b))
	return append(in, c[:]...)
}

func takeFloat(api frontend.API, in []frontend.Variable, i int) float.FloatVar {
	api.Compiler().MarkBoolean(in[4*i])
	api.Compiler().MarkBoolean(in[4*i+3])
	return float.FloatVar{Sign: in[4*i], Exponent: in[4*i+1], Mantissa: in[4*i+2], IsAbnormal: in[4*i+3]}
}

// ---- C22: sequences ----

// A sequence applies its operations one after the other; pos says how the previous result is used:
// 0 op(prev, fresh), 1 op(fresh, prev), 2 op(prev, prev), 3 op(prev, first operand), 4 op(first operand, first operand),
// 5 op(prev, second operand), 6 op(second operand, prev); the second operand is the first when the sequence reads only one.
type seqStep struct {
	op  int
	pos int
}

func seqName(s []seqStep) string {
	n := ""
	for i, t := range s {
		if i > 0 {
			n += ";"
		}
		n += fmt.Sprintf("%s%d", steps[t.op].name, t.pos)
	}
	return n
}

// runSeq evaluates a sequence with the given operation function.
func runSeq[T any](s []seqStep, x []T, apply func(op int, a, b T) T) []T {
	var out []T
	prev := x[0]
	k := 1
	for _, t := range s {
		o := steps[t.op]
		a, b := prev, prev
		if o.arity == 2 {
			switch t.pos {
			case 0:
				b = x[k]
				k++
			case 1:
				a = x[k]
				k++
			case 3:
				b = x[0]
			case 5:
				b = x[min(1, len(x)-1)]
			case 6:
				a = x[min(1, len(x)-1)]
			}
		}
		if t.pos == 4 {
			a, b = x[0], x[0]
		}
		prev = apply(t.op, a, b)
		out = append(out, prev)
	}
	return out
}

func seqArity(s []seqStep) int {
	n := 1
	for _, t := range s {
		if steps[t.op].arity == 2 && t.pos < 2 {
			n++
		}
	}
	return n
}

func tuples(menu []uint64, n int, fn func(t []uint64)) {
	t := make([]uint64, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			fn(t)
			return
		}
		for _, m := range menu {
			t[i] = m
			rec(i + 1)
		}
	}
	rec(0)
}

func seqUnit(r *Run, f ref.Fmt, w uint, m core.Mode, s []seqStep, encoded bool) *unit {
	n := seqArity(s)
	nIn := 4 * n
	if encoded {
		nIn = n
	}
	fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := float.NewContext(api, w, f.E, f.M)
		x := make([]float.FloatVar, n)
		for i := range x {
			if encoded {
				x[i] = ctx.NewFloat(in[i])
			} else {
				x[i] = takeFloat(api, in, i)
			}
		}
		var out []frontend.Variable
		for _, y := range runSeq(s, x, func(op int, a, b float.FloatVar) float.FloatVar { return steps[op].run(&ctx, a, b) }) {
			out = append(out, comps(y)...)
		}
		return out
	}
	return buildUnit(r, fmt.Sprintf("sequence %s E%dM%d/width=%d/%s encoded=%v", seqName(s), f.E, f.M, w, m, encoded), fieldOf(ecc.BN254), m, nIn, fn)
}

func seqCase(fl *core.Field, f ref.Fmt, s []seqStep, x []uint64, encoded bool) gcase {
	g := gcase{nt: true, name: fmt.Sprintf("%#x", x)}
	for _, b := range x {
		if encoded {
			g.in = append(g.in, fl.FromUint(b))
		} else {
			g.in = feed(fl, f, g.in, b)
		}
		if !f.IsFin(b) || f.IsZero(b) {
			g.nt = false
		}
	}
	res := runSeq(s, x, func(op int, a, b uint64) uint64 { return canonNaN(f, steps[op].want(f, a, b)) })
	fs := make([]ref.Fmt, len(res))
	for i := range fs {
		fs[i] = f
	}
	g.v = floatVerdict(fl, fs, res)
	return g
}

// seqMenu: operands of a tiny format that reach every class and many roundings.
func seqMenu(f ref.Fmt, size int) []uint64 {
	n := f.Zero(1)
	b := f.One()
	all := []uint64{b, b | n, 0, n, f.Inf(0), f.NaN(), 1, f.MaxFin(0), b + 3, 1<<f.M - 1, 1 << f.M, (b + 5) | n, b - 1, f.Inf(1), f.MaxFin(1),
		b + 1<<f.M + 1, 1<<f.M + 1 | n, b + 2<<f.M + 5, (b + 1<<f.M + 7) | n, b - 3<<f.M + 2, 3, (1<<f.M - 2) | n, f.MaxFin(0) - 1<<f.M, b - 1<<f.M, (b - 1<<f.M + 1) | n}
	return all[:min(size, len(all))]
}

func checkC22(r *Run) {
	var seqs [][]seqStep
	var first []seqStep
	for i, o := range steps {
		if o.arity == 1 {
			first = append(first, seqStep{i, 2})
		} else {
			for p := 0; p < 4; p++ {
				if p == 3 {
					continue
				}
				first = append(first, seqStep{i, p})
			}
		}
	}
	next := append([]seqStep{}, first...)
	for i, o := range steps {
		if o.arity == 2 {
			next = append(next, seqStep{i, 3})
		}
	}
	for _, a := range first {
		if a.pos == 1 {
			continue
		}
		for _, b := range next {
			seqs = append(seqs, []seqStep{a, b})
		}
	}
	fl := fieldOf(ecc.BN254)
	do := func(f ref.Fmt, w uint, m core.Mode, s []seqStep, menu []uint64, encoded bool, rp int) {
		u := seqUnit(r, f, w, m, s, encoded)
		if u == nil {
			return
		}
		var cases []gcase
		tuples(menu, seqArity(s), func(t []uint64) { cases = append(cases, seqCase(fl, f, s, t, encoded)) })
		runUnit(r, u, cases, true, false, rp)
	}
	for i, s := range seqs {
		size := 25
		if seqArity(s) <= 2 {
			do(e4m3, 4, modes[i%2], s, thin2(e4m3.All(), seqArity(s)), false, 1)
		} else {
			do(e4m3, 4, modes[i%2], s, seqMenu(e4m3, size), false, 1)
		}
		do(ref.F32, 8, modes[(i+1)%2], s, seqMenu(ref.F32, 9), i%3 == 0, 1)
		if i%2 == 0 || r.Thorough {
			do(ref.F64, 8, modes[i%2], s, seqMenu(ref.F64, 9), i%3 == 1, 1)
		}
	}
	// an operation, then the same or another one on a value derived from the same operands: results must not be mixed up
	for i, o := range steps {
		if o.arity != 1 {
			continue
		}
		for a, oa := range steps {
			for b, ob := range steps {
				if b != a && !r.Thorough && steps[i].name != "Neg" {
					continue
				}
				for _, p := range []int{5, 6} {
					if p == 6 && ob.arity == 1 || oa.arity == 1 && b != a && !r.Thorough && (a+b+i)%2 == 0 {
						continue
					}
					s := []seqStep{{a, 0}, {i, 4}, {b, p}}
					do(e4m3, 4, modes[(a+b)%2], s, seqMenu(e4m3, 25), false, 0)
					if b == a {
						do(ref.F32, 8, modes[(a+i)%2], s, seqMenu(ref.F32, 9), false, 0)
					}
				}
			}
		}
	}
	// depth 3 and 4
	core3 := []seqStep{{0, 0}, {1, 1}, {2, 0}, {2, 2}, {3, 0}, {3, 1}, {6, 2}, {7, 2}, {10, 2}, {5, 3}}
	if r.Thorough {
		core3 = next
	}
	size := 7
	n := 0
	for _, a := range core3 {
		for _, b := range core3 {
			for _, c := range core3 {
				if a.pos == 3 {
					continue
				}
				n++
				s := []seqStep{a, b, c}
				do(e4m3, 4, modes[n%2], s, seqMenu(e4m3, size), false, 0)
				if r.Expired() {
					return
				}
			}
		}
	}
	if r.Thorough {
		c4 := []seqStep{{0, 0}, {1, 1}, {2, 2}, {3, 0}, {6, 2}, {10, 2}, {7, 2}}
		for _, a := range c4 {
			for _, b := range c4 {
				for _, c := range c4 {
					for _, d := range c4 {
						n++
						do(e5m2, 4, modes[n%2], []seqStep{a, b, c, d}, seqMenu(e5m2, 6), n%2 == 0, 0)
					}
				}
			}
		}
	}
}

func thin2(l []uint64, arity int) []uint64 {
	if arity < 2 {
		return l
	}
	var o []uint64
	for i := 0; i < len(l); i += 3 {
		o = append(o, l[i])
	}
	return o
}

// ---- C21: independence of curve, arithmetisation, width ----

func checkC21(r *Run) {
	widths := []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	if r.Thorough {
		widths = append(widths, 13, 14, 15, 16, 17)
	}
	names := []string{"Add", "Mul", "Div", "Sqrt", "IsLt", "IsLe", "Trunc", "Floor", "Ceil", "ToInt", "Select", "AssertIsEqual", "AssertIsEqualOrULP", "New"}
	for _, n := range names {
		o := floatOps[n]
		for ci, cv := range curves {
			for _, m := range modes {
				for wi, w := range widths {
					for fi, f := range []ref.Fmt{e4m3, ref.F32, ref.F64} {
						if w > 9 && fi > 0 && !r.Thorough {
							continue
						}
						var cs []Case
						if o.Arity == 2 {
							cs = thin(allPairs(e4m3), 23)
							if fi > 0 {
								l := f.Lattice(0)
								cs = thin(product(l, l), 7)
							}
						} else {
							cs = allUnary(e4m3)
							if fi > 0 {
								cs = unaryOf(f.Lattice(1))
							}
						}
						if o.Cond {
							cs = withCond(cs)
						}
						if r.Thorough && fi == 0 && o.Arity == 2 {
							cs = thin(allPairs(e4m3), 5)
						}
						rp := 0
						if w > 0 && w <= 8 && (wi+ci+fi)%2 == 0 {
							rp = 2
						}
						c := Cfg{f, w, m, cv}
						runJobs(r, []*job{{cfg: c, op: o, cases: cs, encoded: n == "New", replay: rp}})
					}
				}
			}
		}
	}
	// programs of several operations
	progs := [][]seqStep{{{2, 2}, {0, 0}, {6, 2}}, {{1, 0}, {3, 1}, {10, 2}}, {{3, 0}, {4, 3}, {1, 0}}}
	for pi, s := range progs {
		for _, f := range []ref.Fmt{e5m2, ref.F32, ref.F64} {
			for _, cv := range curves {
				fl := fieldOf(cv)
				for _, m := range modes {
					for _, w := range []uint{0, 3, 8} {
						n := seqArity(s)
						fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
							ctx := float.NewContext(api, w, f.E, f.M)
							x := make([]float.FloatVar, n)
							for i := range x {
								x[i] = ctx.NewFloat(in[i])
							}
							var out []frontend.Variable
							for _, y := range runSeq(s, x, func(op int, a, b float.FloatVar) float.FloatVar { return steps[op].run(&ctx, a, b) }) {
								out = append(out, comps(y)...)
							}
							return out
						}
						u := buildUnit(r, fmt.Sprintf("program %d %s E%dM%d/width=%d/%s/%s", pi, seqName(s), f.E, f.M, w, m, cv), fl, m, n, fn)
						if u == nil {
							continue
						}
						var cases []gcase
						tuples(seqMenu(f, 10), n, func(t []uint64) { cases = append(cases, seqCase(fl, f, s, t, true)) })
						runUnit(r, u, cases, true, false, 3)
					}
				}
			}
		}
	}
}

// ---- C23: purity and interference ----

// limitsCopy reads the shared limits of a context.
func limits(c *float.Context) [3]string {
	return [3]string{c.E_MAX.String(), c.E_NORMAL_MIN.String(), c.E_MIN.String()}
}

func checkC23(r *Run) {
	t0 := time.Now()
	fl := fieldOf(ecc.BN254)
	type opx struct {
		name string
		run  func(c *float.Context, x, y float.FloatVar) []frontend.Variable
		want func(f ref.Fmt, a, b uint64) Want
	}
	var ops []opx
	for _, n := range []string{"Add", "Sub", "Mul", "Div", "Sqrt", "Abs", "Neg", "Trunc", "Floor", "Ceil", "IsLt", "IsLe", "IsGt", "IsGe", "ToInt", "Select"} {
		o := floatOps[n]
		ops = append(ops, opx{n, func(c *float.Context, x, y float.FloatVar) []frontend.Variable {
			return o.Build(c, []float.FloatVar{x, y}, frontend.Variable(1))
		}, func(f ref.Fmt, a, b uint64) Want { return o.Want(f, []uint64{a, b}, 1) }})
	}
	layout := func(v *Verdict, f ref.Fmt, w Want) {
		switch {
		case w.Reject:
			v.Reject = true
		case w.Num:
			t := floatVerdict(fl, []ref.Fmt{f}, []uint64{w.Bits})
			v.Out, v.Care = append(v.Out, t.Out...), append(v.Care, t.Care...)
		default:
			v.Out = append(v.Out, fl.FromBig(new(big.Int).Mod(w.Int, fl.Mod)))
			v.Care = append(v.Care, true)
		}
	}
	// (a) every ordered pair of operations on the same two operands, one of them possibly a constant,
	// then the operands and the context limits are read again
	for _, f := range []ref.Fmt{e4m3, ref.F32, ref.F64} {
		menu := seqMenu(f, 11)
		if f != e4m3 {
			menu = seqMenu(f, 7)
		}
		for i, o1 := range ops {
			for j, o2 := range ops {
				for kc, kbits := range []uint64{0, f.One() + 3, f.Zero(1), f.Inf(1), 1<<f.M - 1} {
					useConst := kc > 0
					if useConst && (i+j+kc)%4 != 0 && !r.Thorough {
						continue
					}
					m := modes[(i+j+kc)%2]
					var before, after [3]string
					fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						ctx := float.NewContext(api, 8, f.E, f.M)
						before = limits(&ctx)
						x := takeFloat(api, in, 0)
						var y float.FloatVar
						if useConst {
							y = ctx.NewConstant(kbits)
						} else {
							y = takeFloat(api, in, 1)
						}
						x0, y0 := x, y
						out := o1.run(&ctx, x, y)
						out = append(append([]frontend.Variable{}, out...), o2.run(&ctx, y, x)...)
						// the caller's numbers are still the same numbers
						out = append(out, comps(x0)...)
						for _, v := range comps(y0) {
							out = append(out, api.Add(v, 0))
						}
						fresh := ctx.NewConstant(f.One() + 3)
						for _, v := range comps(fresh) {
							out = append(out, api.Add(v, 0))
						}
						after = limits(&ctx)
						return out
					}
					n := 8
					if useConst {
						n = 4
					}
					label := fmt.Sprintf("%s then %s const=%v:%#x E%dM%d/%s", o1.name, o2.name, useConst, kbits, f.E, f.M, m)
					u := buildUnit(r, label, fl, m, n, fn)
					if u == nil {
						continue
					}
					if before != after {
						r.Violate("limits "+label, fmt.Sprintf("context limits changed from %v to %v", before, after), label, nil)
					}
					var cases []gcase
					put := func(a, b uint64) {
						w1, w2 := o1.want(f, a, b), o2.want(f, b, a)
						if w1.Free || w2.Free {
							return
						}
						g := gcase{name: fmt.Sprintf("%#x,%#x", a, b), nt: f.IsFin(a) && f.IsFin(b) && !f.IsZero(a) && !f.IsZero(b)}
						g.in = feed(fl, f, nil, a)
						if !useConst {
							g.in = feed(fl, f, g.in, b)
						}
						layout(&g.v, f, w1)
						layout(&g.v, f, w2)
						for _, b := range []uint64{a, b, f.One() + 3} {
							layout(&g.v, f, num(b))
						}
						if g.v.Reject {
							g.v.Out, g.v.Care = nil, nil
						}
						cases = append(cases, g)
					}
					for _, a := range menu {
						if useConst {
							put(a, kbits)
							continue
						}
						for _, b := range menu {
							put(a, b)
						}
					}
					rp := 0
					if (i*7+j)%5 == 0 {
						rp = 1
					}
					runUnit(r, u, cases, true, false, rp)
				}
			}
		}
	}
	if os.Getenv("ZKMC_VERBOSE") != "" {
		fmt.Println("part a", time.Since(t0))
	}
	// (b) several contexts in one circuit: every interleaving of their operation lists
	type ctxSpec struct {
		f ref.Fmt
		w uint
	}
	combos := [][]ctxSpec{
		{{e4m3, 4}, {e5m2, 4}}, {{ref.F32, 8}, {ref.F64, 8}}, {{ref.F32, 8}, {ref.F32, 8}}, {{e4m3, 0}, {ref.F32, 8}}, {{ref.F64, 0}, {ref.F32, 5}}, {{e4m3, 2}, {e5m2, 0}, {ref.F32, 4}},
		// the same exponent length with different significands, and the other way round
		{{ref.F32, 8}, {bf16, 8}}, {{e4m3, 4}, {e4m2, 4}}, {{e5m3, 0}, {e5m2, 3}}, {{e4m3, 4}, {e5m3, 4}},
	}
	// besides the operations above, a product with a constant: the same value, or the same bits, in every format
	for _, same := range []bool{false, true} {
		same := same
		bits := func(f ref.Fmt) uint64 {
			if same {
				return 5
			}
			return f.One() + 3
		}
		ops = append(ops, opx{"MulConst", func(c *float.Context, x, y float.FloatVar) []frontend.Variable {
			return comps(c.Mul(x, c.NewConstant(bits(ref.Fmt{E: c.E, M: c.M}))))
		}, func(f ref.Fmt, a, b uint64) Want { return num(f.Mul(a, bits(f))) }})
	}
	lists := [][]int{{0, 3}, {2, 4}, {1, 8}, {3, 10}, {13, 2}, {16, 17}} // indices into ops
	for ci, cb := range combos {
		for li := 0; li < len(lists); li++ {
			// interleavings of one list per context
			per := make([][]int, len(cb))
			for k := range cb {
				per[k] = lists[(li+k)%len(lists)]
			}
			idx := make([]int, len(cb))
			var order []int
			var rec func()
			n := 0
			rec = func() {
				if r.Stop() || r.Expired() {
					return
				}
				done := true
				for k := range cb {
					if idx[k] < len(per[k]) {
						done = false
						idx[k]++
						order = append(order, k)
						rec()
						order = order[:len(order)-1]
						idx[k]--
					}
				}
				if !done {
					return
				}
				n++
				ord := append([]int{}, order...)
				for rev := 0; rev < 2; rev++ {
					m := modes[(n+rev)%2]
					fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						cs := make([]float.Context, len(cb))
						for q := range cb {
							k := q
							if rev == 1 {
								k = len(cb) - 1 - q
							}
							cs[k] = float.NewContext(api, cb[k].w, cb[k].f.E, cb[k].f.M)
						}
						x := make([]float.FloatVar, 2*len(cb))
						for k := range x {
							x[k] = takeFloat(api, in, k)
						}
						at := make([]int, len(cb))
						var out []frontend.Variable
						for _, k := range ord {
							out = append(out, ops[per[k][at[k]]].run(&cs[k], x[2*k], x[2*k+1])...)
							at[k]++
						}
						return out
					}
					u := buildUnit(r, fmt.Sprintf("contexts %v lists %v order %v rev=%d %s", cb, per, ord, rev, m), fl, m, 8*len(cb), fn)
					if u == nil {
						continue
					}
					var cases []gcase
					msz := 5
					if len(cb) > 2 {
						msz = 3
					}
					// operands: same index tuple in each context's own menu
					ix := make([]uint64, msz)
					for i := range ix {
						ix[i] = uint64(i)
					}
					tuples(ix, 2*len(cb), func(t []uint64) {
						if len(cb) > 2 && t[1] == t[3] && t[3] == t[5] {
							return
						}
						g := gcase{name: fmt.Sprint(t), nt: true}
						bits := make([]uint64, len(t))
						for i, v := range t {
							f := cb[i/2].f
							menu := []uint64{f.One() + 3, f.One() | f.Zero(1), 0, f.MaxFin(0), 1<<f.M - 1}
							bits[i] = menu[v]
							g.in = feed(fl, f, g.in, bits[i])
							if v == 2 {
								g.nt = false
							}
						}
						at := make([]int, len(cb))
						for _, k := range ord {
							layout(&g.v, cb[k].f, ops[per[k][at[k]]].want(cb[k].f, bits[2*k], bits[2*k+1]))
							at[k]++
						}
						cases = append(cases, g)
					})
					rp := 0
					if n%3 == 0 {
						rp = 1
					}
					runUnit(r, u, cases, true, false, rp)
				}
			}
			rec()
			_ = ci
		}
	}
}
