// Package core extracts constraint models from circuits written against gnark's frontend API,
// evaluates them honestly, explores every prover choice, and replays traces on gnark itself.
package core

import (
	"math/big"
	"math/bits"
)

// El is a field element in Montgomery form.
type El [4]uint64

// Field is a prime field with modulus below 2^255.
type Field struct {
	Name string
	Mod  *big.Int
	Half *big.Int
	q    [4]uint64
	inv  uint64 // -q^-1 mod 2^64
	r2   El
	One  El
	Neg1 El
}

func NewField(name string, mod *big.Int) *Field {
	if mod.BitLen() > 255 {
		panic("field too large")
	}
	f := &Field{Name: name, Mod: new(big.Int).Set(mod), Half: new(big.Int).Rsh(mod, 1)}
	f.q = limbs(mod)
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - f.q[0]*inv
	}
	f.inv = -inv
	r := new(big.Int).Lsh(big.NewInt(1), 512)
	r.Mod(r, mod)
	f.r2 = El(limbs(r))
	f.One = f.FromBig(big.NewInt(1))
	f.Neg1 = f.Neg(f.One)
	return f
}

func limbs(b *big.Int) (l [4]uint64) {
	w := b.Bits()
	for i := 0; i < len(w) && i < 4; i++ {
		l[i] = uint64(w[i])
	}
	return
}

func (f *Field) geq(a *[4]uint64) bool {
	for i := 3; i >= 0; i-- {
		if a[i] != f.q[i] {
			return a[i] > f.q[i]
		}
	}
	return true
}

func (f *Field) Add(a, b El) El {
	var r [4]uint64
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], _ = bits.Add64(a[3], b[3], c)
	if f.geq(&r) {
		r[0], c = bits.Sub64(r[0], f.q[0], 0)
		r[1], c = bits.Sub64(r[1], f.q[1], c)
		r[2], c = bits.Sub64(r[2], f.q[2], c)
		r[3], _ = bits.Sub64(r[3], f.q[3], c)
	}
	return El(r)
}

func (f *Field) Sub(a, b El) El {
	var r [4]uint64
	var c uint64
	r[0], c = bits.Sub64(a[0], b[0], 0)
	r[1], c = bits.Sub64(a[1], b[1], c)
	r[2], c = bits.Sub64(a[2], b[2], c)
	r[3], c = bits.Sub64(a[3], b[3], c)
	if c != 0 {
		r[0], c = bits.Add64(r[0], f.q[0], 0)
		r[1], c = bits.Add64(r[1], f.q[1], c)
		r[2], c = bits.Add64(r[2], f.q[2], c)
		r[3], _ = bits.Add64(r[3], f.q[3], c)
	}
	return El(r)
}

func (f *Field) Neg(a El) El { return f.Sub(El{}, a) }

func madd1(a, b, c uint64) (hi, lo uint64) {
	hi, lo = bits.Mul64(a, b)
	var cc uint64
	lo, cc = bits.Add64(lo, c, 0)
	hi += cc
	return
}
func madd2(a, b, c, d uint64) (hi, lo uint64) {
	hi, lo = bits.Mul64(a, b)
	c, cc := bits.Add64(c, d, 0)
	hi += cc
	lo, cc = bits.Add64(lo, c, 0)
	hi += cc
	return
}

// Mul is the Montgomery product (CIOS, five-word accumulator).
func (f *Field) Mul(a, b El) El {
	var t [4]uint64
	var t4 uint64
	for i := 0; i < 4; i++ {
		var c uint64
		v := a[i]
		c, t[0] = madd1(v, b[0], t[0])
		c, t[1] = madd2(v, b[1], t[1], c)
		c, t[2] = madd2(v, b[2], t[2], c)
		c, t[3] = madd2(v, b[3], t[3], c)
		var cc uint64
		t4, cc = bits.Add64(t4, c, 0)
		m := t[0] * f.inv
		c, _ = madd1(m, f.q[0], t[0])
		c, t[0] = madd2(m, f.q[1], t[1], c)
		c, t[1] = madd2(m, f.q[2], t[2], c)
		c, t[2] = madd2(m, f.q[3], t[3], c)
		t[3], c = bits.Add64(t4, c, 0)
		t4 = cc + c
	}
	if t4 != 0 || f.geq(&t) {
		var c uint64
		t[0], c = bits.Sub64(t[0], f.q[0], 0)
		t[1], c = bits.Sub64(t[1], f.q[1], c)
		t[2], c = bits.Sub64(t[2], f.q[2], c)
		t[3], _ = bits.Sub64(t[3], f.q[3], c)
	}
	return El(t)
}

func (f *Field) FromBig(b *big.Int) El {
	if b.Sign() < 0 || b.Cmp(f.Mod) >= 0 {
		b = new(big.Int).Mod(b, f.Mod)
	}
	return f.Mul(El(limbs(b)), f.r2)
}

func (f *Field) FromUint(u uint64) El { return f.Mul(El{u}, f.r2) }
func (f *Field) FromInt(i int64) El {
	if i < 0 {
		return f.Neg(f.FromUint(uint64(-i)))
	}
	return f.FromUint(uint64(i))
}

// Plain returns the canonical (non-Montgomery) limbs.
func (f *Field) Plain(a El) [4]uint64 { return [4]uint64(f.Mul(a, El{1})) }

func (f *Field) SetBig(dst *big.Int, a El) *big.Int {
	p := f.Plain(a)
	return dst.SetBits([]big.Word{big.Word(p[0]), big.Word(p[1]), big.Word(p[2]), big.Word(p[3])})
}
func (f *Field) ToBig(a El) *big.Int {
	return f.SetBig(new(big.Int), a)
}

// Centered returns the representative in (-p/2, p/2].
func (f *Field) Centered(a El) *big.Int {
	b := f.ToBig(a)
	if b.Cmp(f.Half) > 0 {
		b.Sub(b, f.Mod)
	}
	return b
}

func (a El) IsZero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

func (f *Field) Inv(a El) El {
	if a.IsZero() {
		return El{}
	}
	b := f.ToBig(a)
	// fast path for powers of two and small constants is not needed: ModInverse is about 2us
	return f.FromBig(b.ModInverse(b, f.Mod))
}

// LessThan reports whether the canonical integer of a is below 2^bits (bits<=255) or n when big.
func (f *Field) below(a El, n *[4]uint64) bool {
	p := f.Plain(a)
	for i := 3; i >= 0; i-- {
		if p[i] != n[i] {
			return p[i] < n[i]
		}
	}
	return false
}
