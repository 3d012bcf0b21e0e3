package core

import (
	"math/big"
	"math/rand"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
)

func TestField(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for _, c := range []ecc.ID{ecc.BN254, ecc.BLS12_377, ecc.BLS12_381} {
		f := NewField("x", c.ScalarField())
		for i := 0; i < 20000; i++ {
			a := new(big.Int).Rand(rng, f.Mod)
			b := new(big.Int).Rand(rng, f.Mod)
			if i%7 == 0 {
				a.Sub(f.Mod, big.NewInt(int64(i%5)+1))
			}
			A, B := f.FromBig(a), f.FromBig(b)
			chk := func(n string, g El, w *big.Int) {
				w.Mod(w, f.Mod)
				if f.ToBig(g).Cmp(w) != 0 {
					t.Fatal(n, a, b)
				}
			}
			chk("id", A, new(big.Int).Set(a))
			chk("add", f.Add(A, B), new(big.Int).Add(a, b))
			chk("sub", f.Sub(A, B), new(big.Int).Sub(a, b))
			chk("mul", f.Mul(A, B), new(big.Int).Mul(a, b))
		}
	}
}

func BenchmarkMul(b *testing.B) {
	f := NewField("x", ecc.BN254.ScalarField())
	x := f.FromUint(12345)
	y := f.Neg1
	for i := 0; i < b.N; i++ {
		y = f.Mul(x, y)
	}
}
