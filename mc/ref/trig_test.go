package ref

import (
	"math"
	"testing"
)

func TestSinCos(t *testing.T) {
	for _, x := range []float64{0, 1e-300, 0.1, -0.1, 1, -2, 3, 4, 5.5, math.Pi, -math.Pi, 1e5, -1e22, 1.7e308} {
		s, c := SinCos(x)
		fs, _ := s.Float64()
		fc, _ := c.Float64()
		ws, wc := math.Sincos(x)
		if math.Abs(fs-ws) > 4e-16*math.Abs(ws)+1e-30 || math.Abs(fc-wc) > 4e-16*math.Abs(wc)+1e-30 {
			t.Errorf("%g: %g %g want %g %g", x, fs, fc, ws, wc)
		}
	}
}
