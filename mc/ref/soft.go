// Package ref holds the reference oracles the checks compare the circuits with. Nothing here imports
// the code under test.
package ref

import (
	"math/big"
)

// Fmt is a binary interchange-like format with E exponent and M trailing significand bits.
type Fmt struct{ E, M uint }

var (
	F32 = Fmt{8, 23}
	F64 = Fmt{11, 52}
)

// Comp is the circuit-level view of a number.
type Comp struct {
	S   uint64
	Exp int64
	Man uint64
	Abn uint64
}

func (f Fmt) Bits() uint             { return f.E + f.M + 1 }
func (f Fmt) Bias() int64            { return 1<<(f.E-1) - 1 }
func (f Fmt) EMax() int64            { return 1 << (f.E - 1) } // unbiased exponent code of NaN/Inf
func (f Fmt) ENorm() int64           { return 2 - f.EMax() }
func (f Fmt) EMin() int64            { return f.ENorm() - int64(f.M) - 1 } // exponent of zero
func (f Fmt) Count() uint64          { return 1 << f.Bits() }
func (f Fmt) expMask() uint64        { return 1<<f.E - 1 }
func (f Fmt) manMask() uint64        { return 1<<f.M - 1 }
func (f Fmt) Sign(b uint64) uint64   { return b >> (f.E + f.M) & 1 }
func (f Fmt) Inf(s uint64) uint64    { return s<<(f.E+f.M) | f.expMask()<<f.M }
func (f Fmt) NaN() uint64            { return f.Inf(0) | 1<<(f.M-1) }
func (f Fmt) Zero(s uint64) uint64   { return s << (f.E + f.M) }
func (f Fmt) MaxFin(s uint64) uint64 { return f.Inf(s) - 1 }
func (f Fmt) One() uint64            { return uint64(f.Bias()) << f.M }

func (f Fmt) expField(b uint64) uint64 { return b >> f.M & f.expMask() }
func (f Fmt) manField(b uint64) uint64 { return b & f.manMask() }
func (f Fmt) IsNaN(b uint64) bool      { return f.expField(b) == f.expMask() && f.manField(b) != 0 }
func (f Fmt) IsInf(b uint64) bool      { return f.expField(b) == f.expMask() && f.manField(b) == 0 }
func (f Fmt) IsZero(b uint64) bool     { return b&^(1<<(f.E+f.M)) == 0 }
func (f Fmt) IsFin(b uint64) bool      { return f.expField(b) != f.expMask() }

// split returns man, exp with |value| = man * 2^exp for finite numbers.
func (f Fmt) split(b uint64) (uint64, int64) {
	e, m := f.expField(b), f.manField(b)
	if e == 0 {
		return m, f.ENorm() - int64(f.M)
	}
	return m | 1<<f.M, int64(e) - f.Bias() - int64(f.M)
}

// Comp gives the canonical components of an encoding.
func (f Fmt) Comp(b uint64) Comp {
	s := f.Sign(b)
	if f.IsNaN(b) {
		return Comp{s, f.EMax(), 0, 1}
	}
	if f.IsInf(b) {
		return Comp{s, f.EMax(), 1 << f.M, 1}
	}
	m, e := f.split(b)
	if m == 0 {
		return Comp{s, f.EMin(), 0, 0}
	}
	for m>>f.M == 0 {
		m <<= 1
		e--
	}
	return Comp{s, e + int64(f.M), m, 0}
}

// Round encodes (-1)^s * (man + eps) * 2^exp, where 0 < eps < 1 iff sticky, to nearest even.
func (f Fmt) Round(s uint64, man *big.Int, exp int64, sticky bool) uint64 {
	if man.Sign() == 0 {
		if sticky {
			panic("ref: sticky zero")
		}
		return f.Zero(s)
	}
	l := int64(man.BitLen())
	// target lsb exponent
	t := l + exp - int64(f.M) - 1
	if lo := f.ENorm() - int64(f.M); t < lo {
		t = lo
	}
	var q *big.Int
	if t <= exp {
		q = new(big.Int).Lsh(man, uint(exp-t))
		if sticky {
			panic("ref: sticky below lsb")
		}
	} else {
		d := uint(t - exp)
		q = new(big.Int).Rsh(man, d)
		rem := new(big.Int).Sub(man, new(big.Int).Lsh(q, d))
		half := new(big.Int).Lsh(big.NewInt(1), d-1)
		c := rem.Cmp(half)
		if c > 0 || c == 0 && (sticky || q.Bit(0) == 1) {
			q.Add(q, big.NewInt(1))
		}
	}
	m := q.Uint64()
	if m>>(f.M+1) != 0 {
		m >>= 1
		t++
	}
	if m>>f.M == 0 { // subnormal or zero
		return f.Zero(s) | m
	}
	e := t + int64(f.M) + f.Bias()
	if e >= int64(f.expMask()) {
		return f.Inf(s)
	}
	return f.Zero(s) | uint64(e)<<f.M | m&f.manMask()
}

func (f Fmt) signed(b uint64) (*big.Int, int64) {
	m, e := f.split(b)
	v := new(big.Int).SetUint64(m)
	if f.Sign(b) == 1 {
		v.Neg(v)
	}
	return v, e
}

func (f Fmt) Neg(a uint64) uint64  { return a ^ 1<<(f.E+f.M) }
func (f Fmt) AbsB(a uint64) uint64 { return a &^ (1 << (f.E + f.M)) }

func (f Fmt) Add(a, b uint64) uint64 {
	if f.IsNaN(a) || f.IsNaN(b) {
		return f.NaN()
	}
	if f.IsInf(a) {
		if f.IsInf(b) && a != b {
			return f.NaN()
		}
		return a
	}
	if f.IsInf(b) {
		return b
	}
	x, ex := f.signed(a)
	y, ey := f.signed(b)
	if ex > ey {
		x.Lsh(x, uint(ex-ey))
		ex = ey
	} else {
		y.Lsh(y, uint(ey-ex))
	}
	x.Add(x, y)
	if x.Sign() == 0 {
		if f.Sign(a) == 1 && f.Sign(b) == 1 {
			return f.Zero(1)
		}
		return f.Zero(0)
	}
	s := uint64(0)
	if x.Sign() < 0 {
		s = 1
		x.Neg(x)
	}
	return f.Round(s, x, ex, false)
}

func (f Fmt) Sub(a, b uint64) uint64 { return f.Add(a, f.Neg(b)) }

func (f Fmt) Mul(a, b uint64) uint64 {
	if f.IsNaN(a) || f.IsNaN(b) {
		return f.NaN()
	}
	s := f.Sign(a) ^ f.Sign(b)
	if f.IsInf(a) || f.IsInf(b) {
		if f.IsZero(a) || f.IsZero(b) {
			return f.NaN()
		}
		return f.Inf(s)
	}
	x, ex := f.split(a)
	y, ey := f.split(b)
	return f.Round(s, new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(y)), ex+ey, false)
}

func (f Fmt) Div(a, b uint64) uint64 {
	if f.IsNaN(a) || f.IsNaN(b) {
		return f.NaN()
	}
	s := f.Sign(a) ^ f.Sign(b)
	if f.IsInf(a) {
		if f.IsInf(b) {
			return f.NaN()
		}
		return f.Inf(s)
	}
	if f.IsInf(b) {
		return f.Zero(s)
	}
	if f.IsZero(b) {
		if f.IsZero(a) {
			return f.NaN()
		}
		return f.Inf(s)
	}
	if f.IsZero(a) {
		return f.Zero(s)
	}
	x, ex := f.split(a)
	y, ey := f.split(b)
	k := 2*f.M + 6
	n := new(big.Int).Lsh(new(big.Int).SetUint64(x), k)
	q, r := new(big.Int).QuoRem(n, new(big.Int).SetUint64(y), new(big.Int))
	return f.Round(s, q, ex-ey-int64(k), r.Sign() != 0)
}

func (f Fmt) Sqrt(a uint64) uint64 {
	if f.IsNaN(a) {
		return f.NaN()
	}
	if f.IsZero(a) {
		return a
	}
	if f.Sign(a) == 1 {
		return f.NaN()
	}
	if f.IsInf(a) {
		return a
	}
	x, ex := f.split(a)
	k := int64(2*f.M + 8)
	if (ex-k)&1 != 0 {
		k++
	}
	n := new(big.Int).Lsh(new(big.Int).SetUint64(x), uint(k))
	q := new(big.Int).Sqrt(n)
	r := new(big.Int).Sub(n, new(big.Int).Mul(q, q))
	return f.Round(0, q, (ex-k)/2, r.Sign() != 0)
}

// Less is the IEEE-754 ordering predicate.
func (f Fmt) Less(a, b uint64) bool {
	if f.IsNaN(a) || f.IsNaN(b) {
		return false
	}
	return f.key(a) < f.key(b)
}
func (f Fmt) LessEq(a, b uint64) bool {
	if f.IsNaN(a) || f.IsNaN(b) {
		return false
	}
	return f.key(a) <= f.key(b)
}

// key is order-preserving on non-NaN values and maps both zeros to 0.
func (f Fmt) key(a uint64) int64 {
	v := int64(f.AbsB(a))
	if f.Sign(a) == 1 {
		return -v
	}
	return v
}

// IntMode: 0 trunc, 1 floor, 2 ceil.
func (f Fmt) ToIntegral(a uint64, mode int) uint64 {
	if !f.IsFin(a) || f.IsZero(a) {
		if f.IsNaN(a) {
			return f.NaN()
		}
		return a
	}
	m, e := f.split(a)
	if e >= 0 {
		return a
	}
	s := f.Sign(a)
	var q, r uint64
	if -e >= 64 {
		q, r = 0, m
	} else {
		q = m >> uint(-e)
		r = m - q<<uint(-e)
	}
	if r != 0 && (mode == 1 && s == 1 || mode == 2 && s == 0) {
		q++
	}
	return f.Round(s, new(big.Int).SetUint64(q), 0, false)
}

// Int returns the exact integer value of a finite integral number.
func (f Fmt) Int(a uint64) (*big.Int, bool) {
	if !f.IsFin(a) {
		return nil, false
	}
	m, e := f.signed(a)
	if e >= 0 {
		return m.Lsh(m, uint(e)), true
	}
	d := new(big.Int).Lsh(big.NewInt(1), uint(-e))
	q, r := new(big.Int).QuoRem(m, d, new(big.Int))
	return q, r.Sign() == 0
}

// Rat is the exact value of a finite number.
func (f Fmt) Rat(a uint64) *big.Rat {
	m, e := f.signed(a)
	r := new(big.Rat).SetInt(m)
	p := new(big.Rat)
	if e >= 0 {
		p.SetInt(new(big.Int).Lsh(big.NewInt(1), uint(e)))
	} else {
		p.SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-e)))
	}
	return r.Mul(r, p)
}

// Same is bitwise identity with all NaNs identified.
func (f Fmt) Same(a, b uint64) bool {
	return a == b || f.IsNaN(a) && f.IsNaN(b)
}

// Dist is the distance in representable steps of two same-sign non-NaN numbers.
func (f Fmt) Dist(a, b uint64) uint64 {
	x, y := f.AbsB(a), f.AbsB(b)
	if x > y {
		return x - y
	}
	return y - x
}

// FromRat rounds an exact rational.
func (f Fmt) FromRat(r *big.Rat) uint64 {
	if r.Sign() == 0 {
		return f.Zero(0)
	}
	s := uint64(0)
	n, d := new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom())
	if n.Sign() < 0 {
		s = 1
		n.Neg(n)
	}
	k := int64(d.BitLen()) - int64(n.BitLen()) + int64(f.M) + 8
	var q, rem *big.Int
	if k < 0 {
		k = 0
	}
	n.Lsh(n, uint(k))
	q, rem = new(big.Int).QuoRem(n, d, new(big.Int))
	// guarantee enough bits even in the subnormal range: q always has >= M+8 bits
	return f.Round(s, q, -k, rem.Sign() != 0)
}

// ExpMask is the all-ones exponent field.
func (f Fmt) ExpMask() uint64 { return f.expMask() }
