package ref

import (
	"math"
	"testing"
)

func TestSoftVsHardware(t *testing.T) {
	l32 := F32.Lattice(2)
	t.Log(len(l32))
	for _, a := range l32 {
		fa := math.Float32frombits(uint32(a))
		for _, b := range l32 {
			fb := math.Float32frombits(uint32(b))
			ck := func(op string, got uint64, want float32) {
				if !F32.Same(got, uint64(math.Float32bits(want))) {
					t.Fatalf("%s %x %x: got %x want %x", op, a, b, got, math.Float32bits(want))
				}
			}
			ck("add", F32.Add(a, b), fa+fb)
			ck("sub", F32.Sub(a, b), fa-fb)
			ck("mul", F32.Mul(a, b), fa*fb)
			ck("div", F32.Div(a, b), fa/fb)
			if F32.Less(a, b) != (fa < fb) || F32.LessEq(a, b) != (fa <= fb) {
				t.Fatal("cmp")
			}
		}
		if !F32.Same(F32.Sqrt(a), uint64(math.Float32bits(float32(math.Sqrt(float64(fa)))))) {
			t.Fatal("sqrt")
		}
	}
	l := F64.Lattice(1)
	t.Log(len(l))
	for _, a := range l {
		fa := math.Float64frombits(a)
		for _, b := range l {
			fb := math.Float64frombits(b)
			ck := func(op string, got uint64, want float64) {
				if !F64.Same(got, math.Float64bits(want)) {
					t.Fatalf("%s %x %x: got %x want %x", op, a, b, got, math.Float64bits(want))
				}
			}
			ck("add", F64.Add(a, b), fa+fb)
			ck("mul", F64.Mul(a, b), fa*fb)
			ck("div", F64.Div(a, b), fa/fb)
		}
		if !F64.Same(F64.Sqrt(a), math.Float64bits(math.Sqrt(fa))) {
			t.Fatal("sqrt")
		}
		for m, g := range []func(float64) float64{math.Trunc, math.Floor, math.Ceil} {
			if !F64.Same(F64.ToIntegral(a, m), math.Float64bits(g(fa))) {
				t.Fatalf("integral %d %x", m, a)
			}
		}
	}
}
