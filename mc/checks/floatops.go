package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	"zkmc/core"
	"zkmc/ref"
)

// Cfg is one configuration of the float library.
type Cfg struct {
	Fmt   ref.Fmt
	Range uint
	Mode  core.Mode
	Curve ecc.ID
}

func (c Cfg) String() string {
	return fmt.Sprintf("E%dM%d/range=%d/%s/%s", c.Fmt.E, c.Fmt.M, c.Range, c.Mode, c.Curve)
}

var fields = map[ecc.ID]*core.Field{}

func fieldOf(id ecc.ID) *core.Field {
	f, ok := fields[id]
	if !ok {
		f = core.NewField(id.String(), id.ScalarField())
		fields[id] = f
	}
	return f
}

func init() {
	for _, id := range []ecc.ID{ecc.BN254, ecc.BLS12_377, ecc.BLS12_381} {
		fieldOf(id)
	}
}

// Op is one operation of the float library under test.
type Op struct {
	Name  string
	Arity int
	Cond  bool // takes an extra boolean input
	// Build runs the circuit code; result components (4 per number) or a single wire; nil for assertions.
	Build func(c *float.Context, x []float.FloatVar, cond frontend.Variable) []frontend.Variable
	// Want computes the oracle result.
	Want func(f ref.Fmt, a []uint64, cond uint64) Want
}

// Want is an oracle verdict.
type Want struct {
	Reject bool // the circuit must be unprovable
	Free   bool // nothing is promised (neither outcome is an error)
	Num    bool
	Bits   uint64   // when Num: encoded result
	Int    *big.Int // otherwise: single-wire value (signed); nil for assertions
}

func num(b uint64) Want { return Want{Num: true, Bits: b} }
func boolean(b bool) Want {
	if b {
		return Want{Int: big.NewInt(1)}
	}
	return Want{Int: new(big.Int)}
}

func comps(x float.FloatVar) []frontend.Variable {
	return []frontend.Variable{x.Sign, x.Exponent, x.Mantissa, x.IsAbnormal}
}
func one(v frontend.Variable) []frontend.Variable { return []frontend.Variable{v} }

var floatOps = map[string]*Op{}

func reg(o *Op) { floatOps[o.Name] = o }

func init() {
	type C = *float.Context
	type X = []float.FloatVar
	type V = frontend.Variable
	bin := func(name string, g func(c C, x, y float.FloatVar) float.FloatVar, w func(f ref.Fmt, a, b uint64) uint64) {
		reg(&Op{Name: name, Arity: 2,
			Build: func(c C, x X, _ V) []V { return comps(g(c, x[0], x[1])) },
			Want:  func(f ref.Fmt, a []uint64, _ uint64) Want { return num(w(f, a[0], a[1])) }})
	}
	bin("Add", func(c C, x, y float.FloatVar) float.FloatVar { return c.Add(x, y) }, ref.Fmt.Add)
	bin("Sub", func(c C, x, y float.FloatVar) float.FloatVar { return c.Sub(x, y) }, ref.Fmt.Sub)
	bin("Mul", func(c C, x, y float.FloatVar) float.FloatVar { return c.Mul(x, y) }, ref.Fmt.Mul)
	bin("Div", func(c C, x, y float.FloatVar) float.FloatVar { return c.Div(x, y) }, ref.Fmt.Div)
	un := func(name string, g func(c C, x float.FloatVar) float.FloatVar, w func(f ref.Fmt, a uint64) uint64) {
		reg(&Op{Name: name, Arity: 1,
			Build: func(c C, x X, _ V) []V { return comps(g(c, x[0])) },
			Want:  func(f ref.Fmt, a []uint64, _ uint64) Want { return num(w(f, a[0])) }})
	}
	un("Sqrt", func(c C, x float.FloatVar) float.FloatVar { return c.Sqrt(x) }, ref.Fmt.Sqrt)
	un("Abs", func(c C, x float.FloatVar) float.FloatVar { return c.Abs(x) }, ref.Fmt.AbsB)
	un("Neg", func(c C, x float.FloatVar) float.FloatVar { return c.Neg(x) }, ref.Fmt.Neg)
	for i, n := range []string{"Trunc", "Floor", "Ceil"} {
		i, n := i, n
		un(n, func(c C, x float.FloatVar) float.FloatVar {
			switch i {
			case 0:
				return c.Trunc(x)
			case 1:
				return c.Floor(x)
			}
			return c.Ceil(x)
		}, func(f ref.Fmt, a uint64) uint64 { return f.ToIntegral(a, i) })
	}
	cmp := func(name string, g func(c C, x, y float.FloatVar) V, w func(f ref.Fmt, a, b uint64) bool) {
		reg(&Op{Name: name, Arity: 2,
			Build: func(c C, x X, _ V) []V { return one(g(c, x[0], x[1])) },
			Want:  func(f ref.Fmt, a []uint64, _ uint64) Want { return boolean(w(f, a[0], a[1])) }})
	}
	cmp("IsLt", func(c C, x, y float.FloatVar) V { return c.IsLt(x, y) }, ref.Fmt.Less)
	cmp("IsLe", func(c C, x, y float.FloatVar) V { return c.IsLe(x, y) }, ref.Fmt.LessEq)
	cmp("IsGt", func(c C, x, y float.FloatVar) V { return c.IsGt(x, y) }, func(f ref.Fmt, a, b uint64) bool { return f.Less(b, a) })
	cmp("IsGe", func(c C, x, y float.FloatVar) V { return c.IsGe(x, y) }, func(f ref.Fmt, a, b uint64) bool { return f.LessEq(b, a) })

	reg(&Op{Name: "Select", Arity: 2, Cond: true,
		Build: func(c C, x X, b V) []V { return comps(c.Select(b, x[0], x[1])) },
		Want: func(f ref.Fmt, a []uint64, cond uint64) Want {
			if cond == 1 {
				return num(a[0])
			}
			return num(a[1])
		}})
	reg(&Op{Name: "New", Arity: 1,
		Build: func(c C, x X, _ V) []V { return comps(x[0]) },
		Want:  func(f ref.Fmt, a []uint64, _ uint64) Want { return num(a[0]) }})
	reg(&Op{Name: "ToInt", Arity: 1,
		Build: func(c C, x X, _ V) []V { return one(c.ToInt(x[0])) },
		Want: func(f ref.Fmt, a []uint64, _ uint64) Want {
			v, ok := f.Int(a[0])
			if !f.IsFin(a[0]) {
				// the exponent code of NaN/infinity may fall inside the table of very small formats
				return Want{Reject: true, Free: f.EMax() <= int64(f.M+f.E)}
			}
			if !ok {
				m := f.Rat(a[0])
				if m.Num().CmpAbs(m.Denom()) >= 0 {
					// a non-integer of magnitude above one is outside the documented domain
					return Want{Free: true}
				}
				return Want{Reject: true}
			}
			if v.BitLen() > int(f.M+f.E+1) {
				return Want{Reject: true}
			}
			return Want{Int: v}
		}})
	reg(&Op{Name: "AssertIsEqual", Arity: 2,
		Build: func(c C, x X, _ V) []V { c.AssertIsEqual(x[0], x[1]); return nil },
		Want: func(f ref.Fmt, a []uint64, _ uint64) Want {
			return Want{Reject: !f.Same(a[0], a[1])}
		}})
	reg(&Op{Name: "AssertIsEqualOrULP", Arity: 2,
		Build: func(c C, x X, _ V) []V { c.AssertIsEqualOrULP(x[0], x[1]); return nil },
		Want: func(f ref.Fmt, a []uint64, _ uint64) Want {
			x, y := a[0], a[1]
			if f.Same(x, y) {
				return Want{}
			}
			if f.IsNaN(x) || f.IsNaN(y) || f.Sign(x) != f.Sign(y) {
				return Want{Reject: true}
			}
			if f.Dist(x, y) > 1 {
				return Want{Reject: true}
			}
			// neighbours: promised for normal finite values only
			normal := func(b uint64) bool { return f.IsFin(b) && f.AbsB(b)>>f.M != 0 }
			if normal(x) && normal(y) {
				return Want{}
			}
			return Want{Free: true}
		}})
}

// tolOp builds the tolerance assertion with a given tolerance constant.
func tolOp(f ref.Fmt, tol uint64) *Op {
	return &Op{Name: fmt.Sprintf("AssertIsEqualOrCustomULP(%#x)", tol), Arity: 2,
		Build: func(c *float.Context, x []float.FloatVar, _ frontend.Variable) []frontend.Variable {
			if f == ref.F32 {
				c.AssertIsEqualOrCustomULP32(x[0], x[1], f32(tol))
			} else {
				c.AssertIsEqualOrCustomULP64(x[0], x[1], f64(tol))
			}
			return nil
		},
		Want: func(f ref.Fmt, a []uint64, _ uint64) Want {
			x, y := a[0], a[1]
			if f.Same(x, y) {
				return Want{}
			}
			if f.IsNaN(x) || f.IsNaN(y) || f.Sign(x) != f.Sign(y) {
				return Want{Reject: true}
			}
			d := f.AbsB(f.Sub(x, y))
			return Want{Reject: !f.LessEq(d, tol)}
		}}
}

// Prog is a recorded operation.
type Prog struct {
	Cfg     Cfg
	Op      *Op
	Encoded bool // operands come in as encodings through NewFloat
	P       *core.Program
}

// inputs: encodings (1 per operand) or components (4 per operand), then the condition.
func (o *Op) nIn(encoded bool) int {
	n := 4 * o.Arity
	if encoded {
		n = o.Arity
	}
	if o.Cond {
		n++
	}
	return n
}

func (o *Op) circuit(cfg Cfg, encoded bool) core.CircuitFn {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		ctx := float.NewContext(api, cfg.Range, cfg.Fmt.E, cfg.Fmt.M)
		x := make([]float.FloatVar, o.Arity)
		k := 0
		for i := range x {
			if encoded {
				x[i] = ctx.NewFloat(in[k])
				k++
			} else {
				api.Compiler().MarkBoolean(in[k])
				api.Compiler().MarkBoolean(in[k+3])
				x[i] = float.FloatVar{Sign: in[k], Exponent: in[k+1], Mantissa: in[k+2], IsAbnormal: in[k+3]}
				k += 4
			}
		}
		var cond frontend.Variable
		if o.Cond {
			cond = in[k]
		}
		return o.Build(&ctx, x, cond)
	}
}

func record(cfg Cfg, o *Op, encoded bool) (*Prog, error) {
	p, err := core.Record(fieldOf(cfg.Curve), cfg.Mode, o.nIn(encoded), o.circuit(cfg, encoded))
	if err != nil {
		return nil, fmt.Errorf("%s %s: %w", o.Name, cfg, err)
	}
	return &Prog{cfg, o, encoded, p}, nil
}

func compEls(f *core.Field, c ref.Comp) [4]core.El {
	return [4]core.El{f.FromUint(c.S), f.FromInt(c.Exp), f.FromUint(c.Man), f.FromUint(c.Abn)}
}

// Inputs lays out operand encodings as circuit inputs.
func (p *Prog) Inputs(a []uint64, cond uint64) []core.El {
	f := p.P.F
	in := make([]core.El, 0, p.Op.nIn(p.Encoded))
	for _, v := range a[:p.Op.Arity] {
		if p.Encoded {
			in = append(in, f.FromUint(v))
		} else {
			c := compEls(f, p.Cfg.Fmt.Comp(v))
			in = append(in, c[:]...)
		}
	}
	if p.Op.Cond {
		in = append(in, f.FromUint(cond))
	}
	return in
}

// Expect turns an oracle verdict into expected outputs; the sign of NaN is not observable.
func (p *Prog) Expect(w Want) (outs []core.El, care []bool) {
	f := p.P.F
	if w.Num {
		c := compEls(f, p.Cfg.Fmt.Comp(w.Bits))
		return c[:], []bool{!p.Cfg.Fmt.IsNaN(w.Bits), true, true, true}
	}
	if w.Int != nil {
		return []core.El{f.FromBig(new(big.Int).Mod(w.Int, f.Mod))}, []bool{true}
	}
	return nil, nil
}

func matches(outs, want []core.El, care []bool) bool {
	for i := range want {
		if care[i] && outs[i] != want[i] {
			return false
		}
	}
	return true
}
