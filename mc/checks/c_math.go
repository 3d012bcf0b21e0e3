package checks

import (
	"fmt"
	"math"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	zkmath "github.com/tumberger/zk-Location/math"
	"zkmc/core"
	"zkmc/ref"
)

func init() {
	register("C25", "model_checking", "all coefficient vectors up to a length over a value menu and all points of small formats, lattices of binary32/binary64, coefficients as constants and as witnesses, both evaluators; non-trivial = at least two non-zero finite coefficients and a non-zero finite point", checkC25)
	register("C26", "model_checking", "every exponent with a mantissa lattice, neighbourhoods of one, uniform grids, infinities and NaN, both signs; non-trivial = finite non-zero argument", checkC26)
	register("C27", "model_checking", "all pairs over a lattice of magnitudes (including quotients that overflow and underflow), all sign combinations; non-trivial = both signs negative or quotient outside [1/2,2]", checkC27)
	register("C28", "model_checking", "every exponent up to pi with a mantissa lattice, neighbourhoods of pi/2 and pi, a uniform grid, both signs; non-trivial = argument above a quarter turn or below 2^-20", checkC28)
	register("C43", "model_checking", "every assignment of the prover-chosen wires of each function, for the listed arguments; non-trivial = every case", checkC43)
}

var (
	f32fmt = ref.Fmt{E: 8, M: 23}
	f64fmt = ref.Fmt{E: 11, M: 52}
)

// toBits reads components back as an encoding and reports whether they are the canonical ones.
func toBits(fl *core.Field, f ref.Fmt, o []core.El) (uint64, bool) {
	var v [4]int64
	for i := range v {
		c := fl.Centered(o[i])
		if !c.IsInt64() {
			return 0, false
		}
		v[i] = c.Int64()
	}
	s, e, m, a := uint64(v[0]), v[1], uint64(v[2]), uint64(v[3])
	if s > 1 || a > 1 {
		return 0, false
	}
	var b uint64
	switch {
	case a == 1 && m == 0:
		b = f.NaN()
	case a == 1:
		b = f.Inf(s)
	case m == 0:
		b = f.Zero(s)
	case m>>f.M != 1:
		return 0, false
	default:
		if e < f.ENorm()-int64(f.M) || e >= f.EMax() {
			return 0, false
		}
		b = f.Round(s, new(big.Int).SetUint64(m), e-int64(f.M), false)
	}
	w := f.Comp(b)
	return b, (w.S == s || f.IsNaN(b)) && w.Exp == e && w.Man == m && w.Abn == a
}

// value is the float64 an encoding of binary32 or binary64 denotes.
func value(f ref.Fmt, b uint64) float64 {
	if f.M == 23 {
		return float64(f32(b))
	}
	return f64(b)
}

func bitsOf(f ref.Fmt, v float64) uint64 {
	if f.M == 23 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(v)
}

// polynomial evaluation

func polyUnit(r *Run, f ref.Fmt, n int, w uint, m core.Mode, kfold, witness bool, coef []uint64) *unit {
	nIn := 4
	if witness {
		nIn += 4 * n
	}
	fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := float.NewContext(api, w, f.E, f.M)
		x := takeFloat(api, in, 0)
		p := make(zkmath.Polynomial, n)
		for i := range p {
			if witness {
				p[i] = takeFloat(api, in, i+1)
			} else {
				p[i] = ctx.NewConstant(coef[i])
			}
		}
		var out []frontend.Variable
		// evaluated twice: the coefficients must stay usable
		for rep := 0; rep < 2; rep++ {
			if kfold {
				out = append(out, comps(p.EvalK(&ctx, x, 1))...)
			} else {
				out = append(out, comps(p.Eval(&ctx, x))...)
			}
		}
		for i := range p {
			out = append(out, comps(p[i])...)
		}
		return append(out, comps(x)...)
	}
	name := "Eval"
	if kfold {
		name = "EvalK(1)"
	}
	l := fmt.Sprintf("%s of %d coefficients E%dM%d/width=%d/%s", name, n, f.E, f.M, w, m)
	if !witness {
		l += fmt.Sprintf(" constants %#x", coef)
	}
	return buildUnit(r, l, fieldOf(ecc.BN254), m, nIn, fn)
}

func polyCase(fl *core.Field, f ref.Fmt, kfold, witness bool, coef []uint64, x uint64) gcase {
	g := gcase{name: fmt.Sprintf("x=%#x", x)}
	g.in = feed(fl, f, nil, x)
	if witness {
		g.name += fmt.Sprintf(" coefficients %#x", coef)
		for _, c := range coef {
			g.in = feed(fl, f, g.in, c)
		}
	}
	res := f.Zero(0)
	nz := 0
	for i := range coef {
		c := coef[i]
		if !kfold {
			c = coef[len(coef)-1-i]
		}
		res = canonNaN(f, f.Add(f.Mul(res, x), c))
		if f.IsFin(c) && !f.IsZero(c) {
			nz++
		}
	}
	g.nt = nz > 1 && f.IsFin(x) && !f.IsZero(x)
	outs := []uint64{res, res}
	outs = append(outs, coef...)
	outs = append(outs, x)
	fs := make([]ref.Fmt, len(outs))
	for i := range fs {
		fs[i] = f
		outs[i] = canonNaN(f, outs[i])
	}
	g.v = floatVerdict(fl, fs, outs)
	return g
}

func checkC25(r *Run) {
	fl := fieldOf(ecc.BN254)
	for _, kfold := range []bool{false, true} {
		type sp struct {
			f      ref.Fmt
			n      int
			menu   int
			points []uint64
			w      uint
			m      core.Mode
		}
		spaces := []sp{
			{e4m3, 0, 1, e4m3.All(), 4, core.R1CS},
			{e4m3, 1, 24, e4m3.All(), 4, core.R1CS},
			{e4m3, 2, 12, e4m3.All(), 4, core.R1CS},
			{e4m3, 3, 7, seqMenu(e4m3, 24), 4, core.SCS},
			{e5m4, 2, 8, e5m4.Lattice(1), 0, core.R1CS},
			{f32fmt, 3, 6, seqMenu(f32fmt, 24), 8, core.R1CS},
			{f64fmt, 3, 6, seqMenu(f64fmt, 24), 8, core.SCS},
		}
		if r.Thorough {
			spaces = append(spaces,
				sp{e4m3, 2, 24, e4m3.All(), 4, core.SCS},
				sp{e4m3, 3, 12, seqMenu(e4m3, 24), 4, core.R1CS},
				sp{e4m3, 4, 6, seqMenu(e4m3, 24), 4, core.R1CS},
				sp{e5m4, 3, 8, e5m4.Lattice(1), 4, core.R1CS},
				sp{bf16, 3, 8, bf16.Lattice(0), 4, core.R1CS},
				sp{f32fmt, 4, 7, seqMenu(f32fmt, 24), 12, core.SCS},
				sp{f64fmt, 4, 7, seqMenu(f64fmt, 24), 12, core.R1CS})
		}
		for _, s := range spaces {
			u := polyUnit(r, s.f, s.n, s.w, s.m, kfold, true, nil)
			var cs []gcase
			tuples(seqMenu(s.f, s.menu), s.n, func(t []uint64) {
				for _, x := range s.points {
					cs = append(cs, polyCase(fl, s.f, kfold, true, append([]uint64{}, t...), x))
				}
			})
			runUnit(r, u, cs, true, false, 10)
		}
		// constants, in both proof systems; asymmetric vectors distinguish the coefficient orders
		for _, m := range modes {
			for _, f := range []ref.Fmt{e4m3, f32fmt, f64fmt} {
				b := f.One()
				vecs := [][]uint64{{}, {b}, {b, b + 1<<f.M}, {b + 1, b + 2<<f.M, b | f.Zero(1)}, {0, b, f.Zero(1)}, {f.Inf(0), b}, {b, f.NaN(), b}, {b + 3, 1, b + 1<<f.M, b + 5}}
				for _, v := range vecs {
					u := polyUnit(r, f, len(v), 5, m, kfold, false, v)
					var cs []gcase
					for _, x := range seqMenu(f, 24) {
						cs = append(cs, polyCase(fl, f, kfold, false, v, x))
					}
					runUnit(r, u, cs, true, false, 3)
				}
			}
		}
	}
	r.Assume("EvalK is decided for k = 1, the only fold count the library uses; larger k is an accuracy experiment without a stated result")
}

// elementary functions

// within returns a judge requiring a canonical finite result close to want.
func within(fl *core.Field, f ref.Fmt, check func(got float64, bits uint64) string) func([]core.El) string {
	return func(o []core.El) string {
		b, ok := toBits(fl, f, o)
		if !ok {
			return fmt.Sprintf("the result %v is not a canonical number", show(fl, o))
		}
		return check(value(f, b), b)
	}
}

func near(got, want, abs, rel float64) string {
	if math.IsNaN(got) || math.Abs(got-want) > abs+rel*math.Abs(want) {
		return fmt.Sprintf("result %.17g, true value %.17g, allowed error %.3g", got, want, abs+rel*math.Abs(want))
	}
	return ""
}

// lat: every exponent in [lo,hi] with a few mantissas.
func lat(f ref.Fmt, lo, hi int, step int, full bool) []uint64 {
	var out []uint64
	top := uint64(1)<<f.M - 1
	ms := []uint64{0, 1, top, top / 3, top/2 + 1}
	if full {
		ms = append(ms, top/3*2, top-1, 3, top/5, top/7*6)
	}
	for e := lo; e <= hi; e += step {
		be := int64(e) + f.Bias()
		if be < 0 || be >= int64(f.ExpMask()) {
			continue
		}
		for _, m := range ms {
			if be == 0 && m == 0 {
				continue
			}
			out = append(out, uint64(be)<<f.M|m)
		}
	}
	return out
}

func around(f ref.Fmt, v float64, n int) []uint64 {
	b := bitsOf(f, v)
	var out []uint64
	for i := -n; i <= n; i++ {
		out = append(out, uint64(int64(b)+int64(i)))
	}
	return out
}

func grid(f ref.Fmt, lo, hi float64, n int) []uint64 {
	var out []uint64
	for i := 0; i < n; i++ {
		out = append(out, bitsOf(f, lo+(hi-lo)*(float64(i)+0.37)/float64(n)))
	}
	return out
}

func uniq(l []uint64) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func fnUnit(r *Run, name string, f ref.Fmt, w uint, m core.Mode, arity int, fn func(*float.Context, []float.FloatVar) float.FloatVar) *unit {
	return buildUnit(r, fmt.Sprintf("%s E%dM%d/width=%d/%s", name, f.E, f.M, w, m), fieldOf(ecc.BN254), m, 4*arity,
		func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := float.NewContext(api, w, f.E, f.M)
			x := make([]float.FloatVar, arity)
			for i := range x {
				x[i] = takeFloat(api, in, i)
			}
			return comps(fn(&ctx, x))
		})
}

// accuracy of the approximations: truncation error of the method plus a few roundings
func atanTol(f ref.Fmt) (abs, rel float64) {
	if f.M == 23 {
		return 3e-7, 0
	}
	return 1e-15, 0
}

func checkC26(r *Run) {
	fl := fieldOf(ecc.BN254)
	for _, f := range []ref.Fmt{f32fmt, f64fmt} {
		abs, rel := atanTol(f)
		fn := zkmath.AtanRemez32
		if f.M == 52 {
			fn = zkmath.AtanRemez64
		}
		k, step := 1, 1
		if f.M == 52 {
			step = 13
		}
		if r.Thorough {
			k, step = 12, 1
		}
		pts := lat(f, -int(f.Bias()), int(f.Bias()), step, r.Thorough)
		pts = append(pts, lat(f, -12, 12, 1, true)...)
		pts = append(pts, around(f, 1, 20)...)
		pts = append(pts, grid(f, 0, 1, 900*k)...)
		pts = append(pts, grid(f, 1, 10, 450*k)...)
		pts = append(pts, grid(f, 10, 1000, 150*k)...)
		for _, v := range []float64{0.1, 0.25, 0.5, 0.75, 1.5, 2, 2.5, 3, 4, 5, 7, 8, 9, 10, 16, 25, 50, 64, 100, 1000, 1e4, 1e6, 1e9, 1e12, math.Sqrt2, math.Sqrt(3), 1 / math.Sqrt2, 1 / math.Sqrt(3), math.Sqrt2 - 1, math.Sqrt2 + 1, 2 - math.Sqrt(3), 2 + math.Sqrt(3), math.Pi, math.Pi / 2, math.Pi / 4, math.E} {
			pts = append(pts, around(f, v, 2)...)
		}
		pts = append(pts, 0, 1, 2, f.MaxFin(0), f.Inf(0), 1<<f.M, 1<<f.M-1)
		pts = uniq(pts)
		top := math.Pi / 2
		for _, m := range modes {
			u := fnUnit(r, "Atan", f, 8, m, 1, func(c *float.Context, x []float.FloatVar) float.FloatVar { return fn(c, x[0]) })
			if u == nil {
				continue
			}
			var mx maxErr
			var cs []gcase
			l := pts
			if m == core.SCS && !r.Thorough {
				l = nil
				for i := 0; i < len(pts); i += 5 {
					l = append(l, pts[i])
				}
				l = append(l, 0, f.Inf(0), f.MaxFin(0))
			}
			for _, b := range l {
				for s := uint64(0); s < 2; s++ {
					x := b | f.Zero(s)
					v := value(f, x)
					want := math.Atan(v)
					cs = append(cs, gcase{name: fmt.Sprintf("x=%#x", x), in: feed(fl, f, nil, x), nt: f.IsFin(x) && !f.IsZero(x), judge: within(fl, f, func(got float64, bits uint64) string {
						mx.put(math.Abs(got - want))
						if math.Signbit(got) != math.Signbit(v) {
							return fmt.Sprintf("atan(%g) = %g has the wrong sign", v, got)
						}
						if math.Abs(got) > value(f, bitsOf(f, top)) {
							return fmt.Sprintf("atan(%g) = %.17g exceeds a quarter turn", v, got)
						}
						if e := near(got, want, abs, rel); e != "" || math.Abs(v) > 1 {
							return e
						}
						// small arguments: relative accuracy down to the error of the approximation at zero
						if f.M == 23 {
							return near(got, want, 3e-8, 1.5e-6)
						}
						return near(got, want, 2e-18, 1e-15)
					})})
				}
			}
			cs = append(cs, gcase{name: "NaN", in: feed(fl, f, nil, f.NaN()), judge: within(fl, f, func(got float64, bits uint64) string {
				if !math.IsNaN(got) {
					return fmt.Sprintf("atan(NaN) = %g", got)
				}
				return ""
			})})
			runUnit(r, u, cs, true, false, 6)
			// oddness: bit-exact negation
			oddness(r, u, fl, f, pts)
			r.Put("max_error_"+u.label, mx.get())
		}
	}
}

// maxErr records the largest observed error for the evidence.
type maxErr struct {
	mu sync.Mutex
	v  float64
}

func (m *maxErr) put(e float64) {
	m.mu.Lock()
	if e > m.v {
		m.v = e
	}
	m.mu.Unlock()
}
func (m *maxErr) get() float64 { return m.v }

// oddness requires f(-x) = -f(x) exactly.
func oddness(r *Run, u *unit, fl *core.Field, f ref.Fmt, pts []uint64) {
	const chunk = 16
	r.Par("oddness "+u.label, (len(pts)+chunk-1)/chunk, func() func(int) {
		ev := core.NewEvaluator(u.P)
		return func(i int) {
			for k := i * chunk; k < min(len(pts), (i+1)*chunk); k++ {
				a := ev.Run(feed(fl, f, nil, pts[k]))
				if !a.OK() {
					continue
				}
				ao := append([]core.El{}, a.Outs...)
				b := ev.Run(feed(fl, f, nil, pts[k]|f.Zero(1)))
				r.Evals.Add(1)
				if !b.OK() {
					continue
				}
				bo := append([]core.El{}, b.Outs...)
				if ao[1] != bo[1] || ao[2] != bo[2] || ao[3] != bo[3] || ao[0] == bo[0] {
					x := pts[k]
					r.Violate(fmt.Sprintf("odd x=%#x %s", x, u.label), fmt.Sprintf("f(x) = %v but f(-x) = %v", show(fl, ao), show(fl, bo)), nil, func() bool {
						return u.solve(feed(fl, f, nil, x), ao, nil) == nil && u.solve(feed(fl, f, nil, x|f.Zero(1)), bo, nil) == nil
					})
				}
			}
		}
	})
}

func checkC27(r *Run) {
	f := f64fmt
	fl := fieldOf(ecc.BN254)
	var l []uint64
	step := 100
	if r.Thorough {
		step = 25
	}
	for e := -1022; e <= 1023; e += step {
		l = append(l, bitsOf(f, math.Ldexp(1.37, e)))
	}
	l = append(l, around(f, 1, 2)...)
	l = append(l, bitsOf(f, 1e-9), bitsOf(f, 0.1), bitsOf(f, 0.5), bitsOf(f, 2), bitsOf(f, math.Sqrt(2)), bitsOf(f, 3), bitsOf(f, 7.25), bitsOf(f, 1e3), bitsOf(f, 1e8),
		bitsOf(f, 0.999), bitsOf(f, 0.3), bitsOf(f, 1.7), bitsOf(f, 0.0123), 1, 2, 1<<52-1, 1<<52, f.MaxFin(0))
	if r.Thorough {
		l = append(l, grid(f, 0.01, 4, 60)...)
	}
	l = uniq(l)
	for _, m := range modes {
		u := fnUnit(r, "Atan2", f, 8, m, 2, func(c *float.Context, x []float.FloatVar) float.FloatVar { return zkmath.Atan2(c, x[0], x[1]) })
		if u == nil {
			continue
		}
		var mx maxErr
		var cs []gcase
		for i, yb := range l {
			for j, xb := range l {
				if m == core.SCS && (i*len(l)+j)%7 != 0 {
					continue
				}
				for s := uint64(0); s < 4; s++ {
					yy, xx := yb|f.Zero(s&1), xb|f.Zero(s>>1)
					y, x := value(f, yy), value(f, xx)
					// (Go's Atan2 loses the sign when the quotient underflows)
					want := math.Atan2(math.Abs(y), math.Abs(x))
					if x < 0 {
						want = math.Pi - want
					}
					want = math.Copysign(want, y)
					q := math.Abs(y / x)
					cs = append(cs, gcase{name: fmt.Sprintf("y=%#x x=%#x", yy, xx), in: feed(fl, f, feed(fl, f, nil, yy), xx), nt: s == 3 || q < 0.5 || q > 2,
						judge: within(fl, f, func(got float64, bits uint64) string {
							mx.put(math.Abs(got - want))
							if math.Signbit(got) != math.Signbit(y) {
								return fmt.Sprintf("atan2(%g, %g) = %.17g is in the wrong half plane, expected %.17g", y, x, got, want)
							}
							if math.Abs(got) > math.Pi {
								return fmt.Sprintf("atan2(%g, %g) = %.17g exceeds a half turn", y, x, got)
							}
							return near(got, want, 1e-15, 0)
						})})
				}
			}
		}
		runUnit(r, u, cs, true, false, 6)
		r.Put("max_error_"+u.label, mx.get())
	}
}

func checkC28(r *Run) {
	fl := fieldOf(ecc.BN254)
	for _, f := range []ref.Fmt{f32fmt, f64fmt} {
		abs := 1e-15
		if f.M == 23 {
			abs = 6e-7
		}
		fn := zkmath.SinTaylor32
		if f.M == 52 {
			fn = zkmath.SinTaylor64
		}
		k, step := 1, 1
		if f.M == 52 {
			step = 17
		}
		if r.Thorough {
			k, step = 12, 1
		}
		pts := lat(f, -int(f.Bias()), 1, step, r.Thorough)
		pts = append(pts, lat(f, -12, 1, 1, true)...)
		pts = append(pts, around(f, math.Pi/2, 20)...)
		pts = append(pts, around(f, math.Pi, 20)...)
		pts = append(pts, grid(f, 0, math.Pi, 1000*k)...)
		pts = append(pts, 0, 1, 2)
		for _, v := range []float64{0.01, 0.1, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3, math.Pi / 12, math.Pi / 8, math.Pi / 6, math.Pi / 5, math.Pi / 4, math.Pi / 3, 2 * math.Pi / 3, 3 * math.Pi / 4, 5 * math.Pi / 6, 7 * math.Pi / 8, math.E, math.Sqrt2} {
			pts = append(pts, around(f, v, 2)...)
		}
		var in []uint64
		for _, b := range uniq(pts) {
			// the supported interval ends at the format's pi
			if value(f, b) <= value(f, bitsOf(f, math.Pi)) {
				in = append(in, b)
			}
		}
		for _, m := range modes {
			u := fnUnit(r, "Sin", f, 8, m, 1, func(c *float.Context, x []float.FloatVar) float.FloatVar { return fn(c, x[0]) })
			if u == nil {
				continue
			}
			var mx maxErr
			var cs []gcase
			l := in
			if m == core.SCS && !r.Thorough {
				l = nil
				for i := 0; i < len(in); i += 7 {
					l = append(l, in[i])
				}
			}
			for _, b := range l {
				for s := uint64(0); s < 2; s++ {
					x := b | f.Zero(s)
					v := value(f, x)
					want := math.Sin(v)
					cs = append(cs, gcase{name: fmt.Sprintf("x=%#x", x), in: feed(fl, f, nil, x), nt: math.Abs(v) > math.Pi/2 || math.Abs(v) < 1e-6,
						judge: within(fl, f, func(got float64, bits uint64) string {
							mx.put(math.Abs(got - want))
							if math.Signbit(got) != math.Signbit(v) {
								return fmt.Sprintf("sin(%g) = %g has the wrong sign", v, got)
							}
							if math.Abs(got) > 1+abs {
								return fmt.Sprintf("sin(%g) = %g exceeds one", v, got)
							}
							if e := near(got, want, abs, 0); e != "" || math.Abs(v) > 1 {
								return e
							}
							return near(got, want, 0, math.Ldexp(6, -int(f.M)-1))
						})})
				}
			}
			runUnit(r, u, cs, true, false, 6)
			// negative arguments are not folded, so that exact oddness is promised up to a quarter turn
			var low []uint64
			for _, b := range l {
				if value(f, b) <= math.Pi/2 {
					low = append(low, b)
				}
			}
			oddness(r, u, fl, f, low)
			r.Put("max_error_"+u.label, mx.get())
		}
	}
}

// ---- C43

func checkC43(r *Run) {
	fl := fieldOf(ecc.BN254)
	skipped := 0
	for _, f := range []ref.Fmt{f32fmt, f64fmt} {
		atan, sin := zkmath.AtanRemez32, zkmath.SinTaylor32
		if f.M == 52 {
			atan, sin = zkmath.AtanRemez64, zkmath.SinTaylor64
		}
		k, step := 5, 60
		if f.M == 52 {
			step = 490
		}
		if r.Thorough {
			k, step = 150, step/20
		}
		abs := lat(f, -int(f.Bias()), int(f.Bias()), step, false)
		abs = append(abs, around(f, 1, 2)...)
		abs = append(abs, around(f, math.Pi/2, 2)...)
		abs = append(abs, around(f, math.Pi, 1)...)
		abs = append(abs, grid(f, 0, 3.2, k)...)
		abs = append(abs, 0, 1, f.MaxFin(0), f.Inf(0), f.NaN())
		abs = uniq(abs)
		var two []uint64
		for _, v := range []float64{0, 1, 1.5, 0.3, 1e-30, 1e30, math.Inf(1)} {
			two = append(two, bitsOf(f, v), bitsOf(f, -v))
		}
		two = append(two, f.NaN(), 1)
		for i, m := range modes {
			w := []uint{8, 5}[i]
			var names []string
			var ins [][]core.El
			for _, b := range abs {
				for s := uint64(0); s < 2; s++ {
					x := b | f.Zero(s)
					names = append(names, fmt.Sprintf("x=%#x", x))
					ins = append(ins, feed(fl, f, nil, x))
				}
			}
			skipped += unique(r, fnUnit(r, "Atan", f, w, m, 1, func(c *float.Context, x []float.FloatVar) float.FloatVar { return atan(c, x[0]) }), names, ins)
			if !r.Thorough { // the long Taylor sum: every third argument, with either sign
				var n2 []string
				var i2 [][]core.El
				for j := range names {
					if j/2%3 == 0 {
						n2, i2 = append(n2, names[j]), append(i2, ins[j])
					}
				}
				names, ins = n2, i2
			}
			skipped += unique(r, fnUnit(r, "Sin", f, w, m, 1, func(c *float.Context, x []float.FloatVar) float.FloatVar { return sin(c, x[0]) }), names, ins)
			names, ins = nil, nil
			for _, y := range two {
				for _, x := range two {
					names = append(names, fmt.Sprintf("y=%#x x=%#x", y, x))
					ins = append(ins, feed(fl, f, feed(fl, f, nil, y), x))
				}
			}
			if f.M == 52 { // the constants of Atan2 are those of binary64
				skipped += unique(r, fnUnit(r, "Atan2", f, w, m, 2, func(c *float.Context, x []float.FloatVar) float.FloatVar { return zkmath.Atan2(c, x[0], x[1]) }), names, ins)
			}
			// polynomials over witnesses
			for _, kfold := range []bool{false, true} {
				names, ins = nil, nil
				tuples(seqMenu(f, 5), 3, func(t []uint64) {
					g := polyCase(fl, f, kfold, true, append([]uint64{}, t...), two[len(names)%len(two)])
					names, ins = append(names, g.name), append(ins, g.in)
				})
				skipped += unique(r, polyUnit(r, f, 3, w, m, kfold, true, nil), names, ins)
			}
		}
	}
	r.Put("inputs_not_provable_at_all", skipped)
	r.Assume("the correct output of a function is the one of the honest prover, whose values C25-C28 decide; each function is explored for the listed arguments only")
}
