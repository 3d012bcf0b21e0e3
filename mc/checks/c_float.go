package checks

import (
	"fmt"
	"strings"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"zkmc/core"
	"zkmc/ref"
)

// Configurations. Every check runs its programs under both arithmetisations and several range-table
// widths; the small formats are enumerated completely.
var modes = []core.Mode{core.SCS, core.R1CS}

// exhaustive builds honest jobs over the complete operand space of small formats.
func exhaustive(ops []string, fm []ref.Fmt, widths []uint, encoded bool, rep int) []*job {
	var out []*job
	for _, f := range fm {
		for _, n := range ops {
			o := floatOps[n]
			var cs []Case
			if o.Arity == 2 {
				cs = allPairs(f)
			} else {
				cs = allUnary(f)
			}
			if o.Cond {
				cs = withCond(cs)
			}
			for i, w := range widths {
				m := modes[i%2]
				rp := rep
				if w > 10 {
					rp = 0
				}
				out = append(out, &job{cfg: cfg(f, w, m), op: o, encoded: encoded, cases: cs, replay: rp})
			}
		}
	}
	return out
}

func withCond(cs []Case) []Case {
	out := make([]Case, 0, 2*len(cs))
	for _, c := range cs {
		for b := uint64(0); b < 2; b++ {
			c.Cond = b
			out = append(out, c)
		}
	}
	return out
}

func with(f ref.Fmt, o *Op, w uint, m core.Mode, cs []Case, adv bool, rep int) *job {
	if adv && rep == 0 && w <= 10 {
		rep = 2
	}
	return &job{cfg: cfg(f, w, m), op: o, cases: cs, adv: adv, replay: rep}
}

// thin keeps every k-th case (a fixed sub-menu, used only to size adversarial menus of big formats).
func thin(cs []Case, k int) []Case {
	if k <= 1 {
		return cs
	}
	var out []Case
	for i := 0; i < len(cs); i += k {
		out = append(out, cs[i])
	}
	return out
}

var (
	tiny   = []ref.Fmt{e4m3, e5m2}
	tinyT  = []ref.Fmt{e4m3, e4m2, e5m2, e5m3, e6m3, e5m4}
	widthQ = []uint{8, 8, 0, 0, 3, 4}
	widthT = []uint{8, 8, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 16}
)

// honestCheck: complete enumeration of small formats, boundary menus of the real formats.
func honestCheck(r *Run, ops []string, menu func(f ref.Fmt, level int) []Case) {
	var jobs []*job
	if !r.Thorough {
		jobs = append(jobs, exhaustive(ops, []ref.Fmt{e4m3}, widthQ, false, 12)...)
		jobs = append(jobs, exhaustive(ops, []ref.Fmt{e5m2}, []uint{8, 1, 0}, false, 6)...)
		for _, n := range ops {
			o := floatOps[n]
			for _, f := range []ref.Fmt{ref.F32, ref.F64} {
				cs, more := menu(f, 0), menu(f, 1)
				if o.Cond {
					cs, more = withCond(cs), withCond(more)
				}
				jobs = append(jobs, with(f, o, 8, core.SCS, more, false, 40), with(f, o, 0, core.R1CS, thin(cs, 3), false, 0), with(f, o, 5, core.R1CS, thin(cs, 5), false, 20))
			}
		}
	} else {
		jobs = append(jobs, exhaustive(ops, tinyT, widthT[:4], false, 30)...)
		jobs = append(jobs, exhaustive(ops, []ref.Fmt{e4m3, e5m2}, widthT[4:], false, 10)...)
		for _, n := range ops {
			o := floatOps[n]
			for _, f := range []ref.Fmt{ref.F32, ref.F64, bf16} {
				cs := menu(f, 1)
				if o.Cond {
					cs = withCond(cs)
				}
				for i, w := range []uint{8, 8, 0, 1, 5, 16} {
					rp := 200
					if w == 0 || w > 10 {
						rp = 0
					}
					jobs = append(jobs, with(f, o, w, modes[i%2], cs, false, rp))
				}
			}
		}
	}
	for _, n := range ops {
		jobs = append(jobs, variantJobs(r, floatOps[n], menu)...)
	}
	runJobs(r, jobs)
}

// variants of an operation: how its operands come about.

// dupOp passes the same number as both operands.
func dupOp(o *Op) *Op {
	return &Op{
		Name: o.Name + "[same operand twice]", Arity: 1, Cond: o.Cond,
		Build: func(c *float.Context, x []float.FloatVar, cond frontend.Variable) []frontend.Variable {
			return o.Build(c, []float.FloatVar{x[0], x[0]}, cond)
		},
		Want: func(f ref.Fmt, a []uint64, cond uint64) Want { return o.Want(f, []uint64{a[0], a[0]}, cond) },
	}
}

// againOp applies the operation to a constant and, exchanged, to its operands first.
func againOp(o *Op, k uint64) *Op {
	return &Op{
		Name: fmt.Sprintf("%s[after itself, %#x]", o.Name, k), Arity: o.Arity, Cond: o.Cond,
		Build: func(c *float.Context, x []float.FloatVar, cond frontend.Variable) []frontend.Variable {
			kv := c.NewConstant(k)
			switch {
			case o.Name == "ToInt": // earlier uses have to be provable
				o.Build(c, []float.FloatVar{c.Trunc(kv)}, cond)
			case o.Arity == 1:
				o.Build(c, []float.FloatVar{kv}, cond)
			case strings.HasPrefix(o.Name, "Assert"):
				o.Build(c, []float.FloatVar{x[1], x[1]}, cond)
				o.Build(c, []float.FloatVar{kv, kv}, cond)
			default:
				o.Build(c, []float.FloatVar{x[1], x[0]}, cond)
				o.Build(c, []float.FloatVar{kv, x[0]}, cond)
			}
			return o.Build(c, x, cond)
		},
		Want: func(f ref.Fmt, a []uint64, cond uint64) Want { return o.Want(f, a, cond) },
	}
}

// signOp gives operands a constant or computed sign.
func signOp(o *Op, neg bool) *Op {
	name := "[|operands|]"
	if neg {
		name = "[-operands]"
	}
	sgn := func(f ref.Fmt, b uint64) uint64 {
		if neg {
			return f.Neg(b)
		}
		return f.AbsB(b)
	}
	return &Op{
		Name: o.Name + name, Arity: o.Arity, Cond: o.Cond,
		Build: func(c *float.Context, x []float.FloatVar, cond frontend.Variable) []frontend.Variable {
			y := append([]float.FloatVar{}, x...)
			for i := range y {
				if neg {
					y[i] = c.Neg(y[i])
				} else {
					y[i] = c.Abs(y[i])
				}
			}
			return o.Build(c, y, cond)
		},
		Want: func(f ref.Fmt, a []uint64, cond uint64) Want {
			b := append([]uint64{}, a...)
			for i := range b {
				b[i] = sgn(f, b[i])
			}
			return o.Want(f, b, cond)
		},
	}
}

func constMenu(f ref.Fmt) []uint64 {
	b := f.One()
	n := f.Zero(1)
	return []uint64{f.Zero(0), n, b, b | n, f.Inf(0), f.Inf(1), f.NaN(), f.MaxFin(0), 1, 1<<f.M - 1, 1 << f.M, b + 1, b + 1<<(f.M-1) | n, f.NaN() | n | 1, b + 1<<f.M, b - 1<<f.M}
}

// variantJobs runs an operation on constants, equal operands, computed signs and after other uses of
// itself: the code may treat each of them differently.
func variantJobs(r *Run, o *Op, menu func(f ref.Fmt, level int) []Case) []*job {
	var jobs []*job
	put := func(f ref.Fmt, v *Op, m int, cs []Case, rep int) {
		if v.Cond {
			cs = withCond(cs)
		}
		jobs = append(jobs, &job{cfg: cfg(f, 8, modes[m%2]), op: v, cases: cs, replay: rep})
	}
	for fi, f := range []ref.Fmt{e4m3, ref.F32, ref.F64} {
		consts, opnds := constMenu(f), f.Lattice(0)
		if fi == 0 {
			consts, opnds = f.All(), f.All()
			if !r.Thorough && o.Arity == 2 {
				consts = nil
				for i, b := range f.All() {
					if i%3 == 0 || !f.IsFin(b) || f.AbsB(b) <= 1<<f.M {
						consts = append(consts, b)
					}
				}
				consts = append(consts, constMenu(f)...)
			}
		}
		for i, k := range consts {
			if o.Arity == 1 {
				put(f, constOp(o, 0, k), i, []Case{{}}, 0)
				continue
			}
			put(f, constOp(o, 0, k), i, unaryOf(opnds), 0)
			put(f, constOp(o, 1, k), i+1, unaryOf(opnds), 0)
		}
		if o.Arity == 2 {
			for i, a := range constMenu(f) {
				for j, b := range constMenu(f) {
					put(f, constOp(constOp(o, 0, a), 0, b), i+j, []Case{{}}, 0)
				}
			}
			put(f, dupOp(o), fi, unaryOf(f.Lattice(1)), 5)
		}
		var cs []Case
		switch {
		case fi == 0 && o.Arity == 2:
			cs = allPairs(f)
		case fi == 0:
			cs = allUnary(f)
		case o.Arity == 1:
			cs = unaryCases(f, 0)
		default:
			cs = thin(menu(f, 0), 5)
		}
		put(f, signOp(o, true), fi, cs, 2)
		put(f, signOp(o, false), fi+1, thin(cs, 2), 2)
		put(f, againOp(o, f.One()+1), fi, thin(cs, 2), 2)
		put(f, againOp(o, 1), fi+1, thin(cs, 3), 2)
	}
	return jobs
}

// advPlan sizes an adversarial check.
type advPlan struct {
	ops  []string
	tiny []ref.Fmt // enumerated completely
	tw   []uint    // widths for the tiny formats; the first gets the complete space in the quick tier
	w    []uint    // widths for F32/F64
	tk   int       // quick-tier thinning of the remaining (format, width) combinations
	k    [2]int    // quick-tier thinning of the F32/F64 menus
	menu func(o *Op, f ref.Fmt, level int) []Case
	thK  int // thorough-tier thinning of the F32/F64 menus
}

// advCheck explores every prover choice, on the complete operand space of small formats and on menus
// of the real ones.
func advCheck(r *Run, p advPlan) {
	var jobs []*job
	add := func(f ref.Fmt, o *Op, w uint, m core.Mode, cs []Case) {
		if o.Cond {
			cs = withCond(cs)
		}
		if len(cs) > 0 {
			jobs = append(jobs, with(f, o, w, m, cs, true, 0))
		}
	}
	all := func(o *Op, f ref.Fmt) []Case {
		if o.Arity == 2 {
			return allPairs(f)
		}
		return allUnary(f)
	}
	for _, n := range p.ops {
		o := floatOps[n]
		for i, f := range p.tiny {
			cs := all(o, f)
			for j, w := range p.tw {
				k := p.tk
				if i == 0 && j == 0 || r.Thorough {
					k = 1
				}
				add(f, o, w, modes[j%2], thin(cs, k))
			}
		}
		for i, f := range []ref.Fmt{ref.F32, ref.F64} {
			cs := p.menu(o, f, 0)
			k := p.k[i]
			if r.Thorough {
				cs, k = p.menu(o, f, 1), p.thK
			}
			for j, w := range p.w {
				kk := k
				if j > 0 && !r.Thorough {
					kk *= 5
				}
				add(f, o, w, modes[j%2], thin(cs, kk))
			}
		}
		// constants, equal operands and computed signs
		f := p.tiny[len(p.tiny)-1]
		k := 3
		if r.Thorough {
			k = 1
		}
		l := f.Lattice(0)
		if f.Bits() <= 9 {
			l = f.All()
		}
		for i, c := range constMenu(f) {
			add(f, constOp(o, 0, c), 5, modes[i%2], thin(constCases(o, l), k))
			if o.Arity == 2 {
				add(f, constOp(o, 1, c), 5, modes[i%2], thin(constCases(o, l), k))
			}
		}
		if o.Arity == 2 {
			add(f, dupOp(o), 4, core.SCS, unaryOf(l))
		}
		add(f, signOp(o, true), 4, core.R1CS, thin(all(o, f), 7*k))
		add(f, signOp(o, false), 3, core.SCS, thin(all(o, f), 11*k))
	}
	runJobs(r, jobs)
}

func constCases(o *Op, l []uint64) []Case {
	if o.Arity == 1 {
		return []Case{{}}
	}
	return unaryOf(l)
}

func opsOf(names ...string) []*Op {
	var o []*Op
	for _, n := range names {
		o = append(o, floatOps[n])
	}
	return o
}

const (
	honestRule = "a case counts when all its operands are finite and non-zero; each (operation, format, width, arithmetisation, operands) tuple is enumerated once"
	advRule    = "a case counts when all its operands are finite and non-zero; for each case every assignment of the prover-chosen wires admitted by the constraints is enumerated"
)

func init() {
	register("C04", "model_checking", honestRule, func(r *Run) { honestCheck(r, []string{"Add", "Sub"}, addCases) })
	register("C05", "model_checking", honestRule, func(r *Run) {
		honestCheck(r, []string{"Mul"}, func(f ref.Fmt, l int) []Case { return scaleCases(f, l, false) })
	})
	register("C06", "model_checking", honestRule, func(r *Run) {
		honestCheck(r, []string{"Div"}, func(f ref.Fmt, l int) []Case { return scaleCases(f, l, true) })
	})
	register("C07", "model_checking", honestRule, func(r *Run) { honestUnary(r, []string{"Sqrt"}) })
	register("C08", "model_checking", honestRule, func(r *Run) { honestCheck(r, []string{"IsLt", "IsLe", "IsGt", "IsGe"}, cmpCases) })
	register("C09", "model_checking", honestRule, func(r *Run) { honestUnary(r, []string{"Trunc", "Floor", "Ceil"}) })
	register("C10", "model_checking", honestRule, func(r *Run) { honestUnary(r, []string{"ToInt"}) })
	register("C11", "model_checking", honestRule, func(r *Run) {
		honestUnary(r, []string{"Abs", "Neg"})
		honestCheck(r, []string{"Select"}, func(f ref.Fmt, l int) []Case {
			x := f.Lattice(l)
			return product(x, x)
		})
	})
	register("C12", "model_checking", honestRule, func(r *Run) { honestCheck(r, []string{"AssertIsEqual"}, cmpCases) })
	register("C13", "model_checking", honestRule, checkC13)
	register("C14", "model_checking", advRule, func(r *Run) {
		advCheck(r, advPlan{ops: []string{"Add"}, tiny: []ref.Fmt{e4m3, e5m2}, tw: []uint{4, 3, 5, 2, 8}, w: []uint{8, 0, 5, 3}, tk: 7, k: [2]int{13, 29}, thK: 1,
			menu: func(o *Op, f ref.Fmt, l int) []Case { return addCases(f, l) }})
		advCheck(r, advPlan{ops: []string{"Sub"}, tiny: []ref.Fmt{e4m2, e4m3, e5m2}, tw: []uint{4, 3, 5, 2, 8}, w: []uint{8, 0, 5, 3}, tk: 13, k: [2]int{23, 47}, thK: 2,
			menu: func(o *Op, f ref.Fmt, l int) []Case { return addCases(f, l) }})
	})
	register("C15", "model_checking", advRule, func(r *Run) {
		advCheck(r, advPlan{ops: []string{"Mul", "Div"}, tiny: []ref.Fmt{e4m3, e5m2}, tw: []uint{4, 3, 8, 5}, w: []uint{8, 0, 5, 3}, tk: 2, k: [2]int{1, 1}, thK: 1,
			menu: func(o *Op, f ref.Fmt, l int) []Case { return scaleCases(f, l, o.Name == "Div") }})
		advCheck(r, advPlan{ops: []string{"Sqrt"}, tiny: []ref.Fmt{e5m4, bf16}, tw: []uint{4, 3, 5, 8}, w: []uint{8, 5, 0, 3}, tk: 1, k: [2]int{1, 1}, thK: 1,
			menu: func(o *Op, f ref.Fmt, l int) []Case { return unaryCases(f, l) }})
	})
	register("C16", "model_checking", advRule, checkC16)
	register("C17", "model_checking", advRule, func(r *Run) {
		advCheck(r, advPlan{ops: []string{"Trunc", "Floor", "Ceil", "ToInt"}, tiny: []ref.Fmt{bf16, e5m4, e4m3}, tw: []uint{8, 4, 3, 5, 0}, w: []uint{8, 0, 5, 3}, tk: 1, k: [2]int{1, 1}, thK: 1,
			menu: func(o *Op, f ref.Fmt, l int) []Case { return unaryCases(f, l+1) }})
	})
}

func honestUnary(r *Run, ops []string) {
	var jobs []*job
	fm := []ref.Fmt{e4m3, e4m2, e5m2, e5m3, e6m3, e5m4}
	ws := []uint{8, 8, 0, 0, 1, 3, 4, 5}
	jobs = append(jobs, exhaustive(ops, fm, ws, false, 8)...)
	jobs = append(jobs, exhaustive(ops, []ref.Fmt{bf16}, []uint{8, 8, 0, 1}, false, 40)...)
	lvl := 1
	if r.Thorough {
		lvl = 2
		jobs = append(jobs, exhaustive(ops, []ref.Fmt{{E: 6, M: 6}, {E: 8, M: 9}, {E: 7, M: 12}}, []uint{8, 8, 0}, false, 100)...)
	}
	for _, n := range ops {
		o := floatOps[n]
		for _, f := range []ref.Fmt{ref.F32, ref.F64} {
			cs := unaryCases(f, lvl)
			for i, w := range []uint{8, 0, 5, 1} {
				rp := 40
				if w == 0 {
					rp = 0
				}
				jobs = append(jobs, with(f, o, w, modes[i%2], cs, false, rp))
			}
		}
	}
	for _, n := range ops {
		jobs = append(jobs, variantJobs(r, floatOps[n], nil)...)
	}
	runJobs(r, jobs)
}

var tols32 = []uint64{0, 1, 0x33800000, 0x34000000, 0x3727c5ac, 0x3f800000, 0x00800000, 0x7f7fffff}
var tols64 = []uint64{0, 1, 0x3cb0000000000000, 0x3ca0000000000000, 0x3eb0c6f7a0b5ed8d, 0x3ff0000000000000, 0x0010000000000000, 0x7fefffffffffffff}

// tolCases: pairs whose difference is just below, at and just above the tolerance.
func tolCases(f ref.Fmt, tol uint64, level int) []Case {
	s := newCaseSet()
	n := uint64(1) << (f.E + f.M)
	var base []uint64
	for _, b := range f.Lattice(level) {
		if f.Sign(b) == 0 {
			base = append(base, b)
		}
	}
	for _, b := range base {
		cand := []uint64{b, b + 1, b + 2}
		if b > 0 {
			cand = append(cand, b-1)
		}
		if f.IsFin(b) {
			for _, t := range []uint64{tol, tol + 1, tol - 1, f.Add(tol, tol)} {
				if t >= n {
					continue
				}
				up := f.AbsB(f.Add(b, t))
				dn := f.AbsB(f.Sub(b, t))
				for d := uint64(0); d < 3; d++ {
					cand = append(cand, up+d, up-d, dn+d, dn-d)
				}
			}
		}
		for _, c := range cand {
			if c >= n {
				continue
			}
			s.add(b, c)
			s.add(c, b)
			s.add(b|n, c|n)
			s.add(b, c|n)
		}
	}
	return s.list
}

func checkC13(r *Run) {
	honestCheck(r, []string{"AssertIsEqualOrULP"}, cmpCases)
	lvl := 0
	if r.Thorough {
		lvl = 1
	}
	var jobs []*job
	for i, t := range tols32 {
		jobs = append(jobs, with(ref.F32, tolOp(ref.F32, t), 8, modes[i%2], tolCases(ref.F32, t, lvl), false, 20))
	}
	for i, t := range tols64 {
		jobs = append(jobs, with(ref.F64, tolOp(ref.F64, t), 8, modes[i%2], tolCases(ref.F64, t, lvl), false, 20))
	}
	runJobs(r, jobs)
}

func checkC16(r *Run) {
	advCheck(r, advPlan{ops: []string{"IsLt", "IsLe", "IsGt", "IsGe", "AssertIsEqual", "AssertIsEqualOrULP"}, tiny: []ref.Fmt{e4m3, e5m2}, tw: []uint{8, 4, 3, 5, 0, 6}, w: []uint{8, 0, 5, 3}, tk: 1, k: [2]int{1, 1}, thK: 1,
		menu: func(o *Op, f ref.Fmt, l int) []Case { return cmpCases(f, l) }})
	var jobs []*job
	k := 41
	if r.Thorough {
		k = 1
	}
	for i, t := range tols32 {
		jobs = append(jobs, with(ref.F32, tolOp(ref.F32, t), 8, modes[i%2], thin(tolCases(ref.F32, t, 0), k), true, 0))
	}
	for i, t := range tols64 {
		jobs = append(jobs, with(ref.F64, tolOp(ref.F64, t), 8, modes[i%2], thin(tolCases(ref.F64, t, 0), k), true, 0))
	}
	runJobs(r, jobs)
}

var _ = fmt.Sprint
