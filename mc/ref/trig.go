package ref

import "math/big"

const trigPrec = 400

// Pi to at least prec bits (Machin's formula).
func Pi(prec uint) *big.Float {
	atanInv := func(n int64) *big.Int {
		one := new(big.Int).Lsh(big.NewInt(1), prec+32)
		t := new(big.Int).Div(one, big.NewInt(n))
		sum := new(big.Int).Set(t)
		n2 := big.NewInt(n * n)
		for k := int64(1); t.Sign() != 0; k++ {
			t.Div(t, n2)
			d := new(big.Int).Div(t, big.NewInt(2*k+1))
			if k%2 == 1 {
				sum.Sub(sum, d)
			} else {
				sum.Add(sum, d)
			}
		}
		return sum
	}
	s := atanInv(5)
	s.Mul(s, big.NewInt(4)).Sub(s, atanInv(239)).Mul(s, big.NewInt(4))
	f := new(big.Float).SetPrec(prec + 32).SetInt(s)
	return f.SetMantExp(f, -int(prec+32))
}

var pi = Pi(1600)

// SinCos of a finite float64 to a few hundred bits.
func SinCos(x float64) (sin, cos *big.Float) {
	nf := func() *big.Float { return new(big.Float).SetPrec(trigPrec) }
	wide := new(big.Float).SetPrec(1600).SetFloat64(x)
	// x = q * pi/2 + y, |y| <= pi/4
	half := new(big.Float).SetPrec(1600).SetMantExp(pi, -1)
	qf := new(big.Float).SetPrec(1600).Quo(wide, half)
	if x >= 0 {
		qf.Add(qf, big.NewFloat(0.5))
	} else {
		qf.Sub(qf, big.NewFloat(0.5))
	}
	q, _ := qf.Int(nil)
	wide.Sub(wide, new(big.Float).SetPrec(1600).Mul(half, new(big.Float).SetPrec(1600).SetInt(q)))
	y := nf().Set(wide)
	y2 := nf().Mul(y, y)
	series := func(t *big.Float, k int64) *big.Float {
		sum := nf().Set(t)
		t = nf().Set(t)
		for ; t.Sign() != 0 && t.MantExp(nil) > sum.MantExp(nil)-trigPrec; k += 2 {
			t.Mul(t, y2)
			t.Quo(t, nf().SetInt64(-(k+1)*(k+2)))
			sum.Add(sum, t)
		}
		return sum
	}
	s, c := series(y, 1), series(nf().SetInt64(1), 0)
	switch new(big.Int).And(q, big.NewInt(3)).Int64() {
	case 0:
		return s, c
	case 1:
		return c, s.Neg(s)
	case 2:
		return s.Neg(s), c.Neg(c)
	}
	return c.Neg(c), s
}
