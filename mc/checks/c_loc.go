//go:build loc

package checks

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"zkmc/core"
	"zkmc/ref"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	loc32 "github.com/tumberger/zk-Location/loc2index32"
	loc64 "github.com/tumberger/zk-Location/loc2index64"
)

func init() {
	register("C29", "model_checking", "all signed triples up to a bound (including negative zeros) and a lattice of large magnitudes, both precision variants, both proof systems, honest and all prover choices; non-trivial = at least one negative coordinate", checkC29)
	register("C30", "model_checking", "grids of plane points in all quadrants, offsets on both sides of every hexagon edge, magnitudes up to the largest reachable one; non-trivial = not in the hexagon of the origin", checkC30)
	register("C31", "model_checking", "a latitude/longitude grid, all face centres and vertices, points on both sides of every face boundary; non-trivial = within a tenth of a face boundary", checkC31)
	register("C32", "model_checking", "all resolutions times a lattice of squared distances; resolutions beyond the supported width; non-trivial = resolution above zero and squared distance above zero", checkC32)
	register("C33", "model_checking", "all faces times directions times distances times resolution parities; non-trivial = odd resolution", checkC33)
	register("C34", "model_checking", "a location grid, face centres, poles, boundaries, all resolutions, against the H3 library; non-trivial = resolution above zero", checkC34)
	register("C35", "model_checking", "every assignment of the prover-chosen wires of each stage, for the listed stage inputs; non-trivial = every case", checkC35)
}

// locVariant is one precision variant of the pipeline.
type locVariant struct {
	name    string
	f       ref.Fmt
	eps     float64
	scaleR  func(*float.Context, float.FloatVar, frontend.Variable) float.FloatVar
	calcR   func(*float.Context, float.FloatVar, frontend.Variable) float.FloatVar
	closest func(f *float.Context, x2, y2, z2, lng float.FloatVar) [9]float.FloatVar
	hex2d   func(f *float.Context, a, b, c, d, e, g, h, i, j, k, l, m, r float.FloatVar, res frontend.Variable) [2]float.FloatVar
	toIJK   func(f *float.Context, x, y float.FloatVar) [3]frontend.Variable
	norm    func(f *float.Context, a, b, c, d, e, g frontend.Variable) [3]frontend.Variable
}

func locVariants() []*locVariant {
	return []*locVariant{
		{"32", f32fmt, math.Ldexp(1, -24), loc32.VerifScaleR, loc32.VerifCalculateR, loc32.VerifClosest, loc32.VerifHex2d, loc32.VerifToIJK, loc32.NormalizeIJK},
		{"64", f64fmt, math.Ldexp(1, -53), loc64.VerifScaleR, loc64.VerifCalculateR, loc64.VerifClosest, loc64.VerifHex2d, loc64.VerifToIJK, loc64.NormalizeIJK},
	}
}

func (v *locVariant) feedF(fl *core.Field, in []core.El, x float64) []core.El {
	return feed(fl, v.f, in, bitsOf(v.f, x))
}
func (v *locVariant) round(x float64) float64 { return value(v.f, bitsOf(v.f, x)) }

// missing names the stage functions that the package no longer has.
func (v *locVariant) missing(what string) bool {
	switch {
	case strings.HasPrefix(what, "calculateR"):
		return v.calcR == nil
	case strings.HasPrefix(what, "closestFaceCalculations"):
		return v.closest == nil
	case strings.HasPrefix(what, "calculateHex2d"):
		return v.hex2d == nil
	case strings.HasPrefix(what, "hex2dToCoordIJK"):
		return v.toIJK == nil
	case strings.HasPrefix(what, "NormalizeIJK"):
		return v.norm == nil
	}
	return v.calcR == nil || v.closest == nil || v.hex2d == nil || v.toIJK == nil
}

// radius is the projected radius and, where the package has it as a function of its own, the scaling alone.
func (v *locVariant) radius(c *float.Context, x float.FloatVar, res frontend.Variable) []frontend.Variable {
	out := comps(v.calcR(c, x, res))
	if v.scaleR != nil {
		out = append(out, comps(v.scaleR(c, x, res))...)
	}
	return out
}

func (v *locVariant) unit(r *Run, what string, m core.Mode, w uint, nF, nV int, fn func(c *float.Context, x []float.FloatVar, n []frontend.Variable) []frontend.Variable) *unit {
	if v.missing(what) {
		r.Incomplete("loc2index" + v.name + " has no function for " + what)
		return nil
	}
	return buildUnit(r, fmt.Sprintf("%s loc%s/width=%d/%s", what, v.name, w, m), fieldOf(ecc.BN254), m, 4*nF+nV,
		func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := float.NewContext(api, w, v.f.E, v.f.M)
			x := make([]float.FloatVar, nF)
			for i := range x {
				x[i] = takeFloat(api, in, i)
			}
			return fn(&ctx, x, in[4*nF:])
		})
}

// ---- C29

func normTriple(i, j, k int64) [3]int64 {
	m := min(i, j, k)
	return [3]int64{i - m, j - m, k - m}
}

func normUnit(r *Run, v *locVariant, m core.Mode, w uint) *unit {
	return v.unit(r, "NormalizeIJK", m, w, 0, 6, func(c *float.Context, _ []float.FloatVar, n []frontend.Variable) []frontend.Variable {
		for _, k := range []int{0, 2, 4} {
			c.Api.Compiler().MarkBoolean(n[k])
		}
		o := v.norm(c, n[0], n[1], n[2], n[3], n[4], n[5])
		return o[:]
	})
}

func normCase(fl *core.Field, s [3]bool, mag [3]int64) gcase {
	g := gcase{name: fmt.Sprintf("signs %v magnitudes %v", s, mag), nt: s[0] || s[1] || s[2]}
	var t [3]int64
	for i := range t {
		t[i] = mag[i]
		neg := int64(0)
		if s[i] {
			t[i] = -t[i]
			neg = 1
		}
		g.in = append(g.in, fl.FromInt(neg), fl.FromInt(mag[i]))
	}
	n := normTriple(t[0], t[1], t[2])
	for _, x := range n {
		g.v.Out = append(g.v.Out, fl.FromInt(x))
		g.v.Care = append(g.v.Care, true)
	}
	return g
}

func checkC29(r *Run) {
	fl := fieldOf(ecc.BN254)
	B := int64(4)
	large := []int64{0, 1, 1000, 1 << 20, 1<<29 - 1, 1 << 30}
	if r.Thorough {
		B = 9
		large = []int64{0, 1, 7, 65535, 1 << 16, 1<<24 + 1, 1<<29 - 1, 1 << 30}
	}
	var cs []gcase
	for s := 0; s < 8; s++ {
		sg := [3]bool{s&1 == 1, s&2 == 2, s&4 == 4}
		for i := int64(0); i <= B; i++ {
			for j := int64(0); j <= B; j++ {
				for k := int64(0); k <= B; k++ {
					cs = append(cs, normCase(fl, sg, [3]int64{i, j, k}))
				}
			}
		}
		for _, i := range large {
			for _, j := range large {
				for _, k := range large {
					cs = append(cs, normCase(fl, sg, [3]int64{i, j, k}))
				}
			}
		}
	}
	// the reference against H3 itself
	if h := newH3(r); h != nil {
		var b strings.Builder
		var exp []string
		for i := -B; i <= B; i++ {
			for j := -B; j <= B; j++ {
				for k := -B; k <= B; k++ {
					fmt.Fprintf(&b, "%d %d %d\n", i, j, k)
					n := normTriple(i, j, k)
					exp = append(exp, fmt.Sprintf("%d %d %d", n[0], n[1], n[2]))
				}
			}
		}
		got := h.run("ijk", b.String())
		h.close()
		for i := range exp {
			if i >= len(got) || got[i] != exp[i] {
				r.Incomplete("the reference disagrees with H3: " + exp[i])
				break
			}
		}
		r.Put("reference_checked_against_h3", len(got))
	}
	for _, v := range locVariants() {
		for _, m := range modes {
			w := uint(8)
			if m == core.SCS {
				w = 5
			}
			u := normUnit(r, v, m, w)
			runUnit(r, u, cs, true, true, 8)
		}
	}
	r.Assume("supported range: magnitudes up to 2^30, so that sums and differences stay below 2^32")
}

// ---- C30

// hexOff is how far outside the hexagon (i,j,k) the point lies (negative: inside).
func hexOff(x, y float64, i, j, k float64) float64 {
	a, b := i-k, j-k
	dx, dy := x-(a-0.5*b), y-b*math.Sqrt(3)/2
	o := math.Abs(dx)
	o = math.Max(o, math.Abs(dx/2+dy*math.Sqrt(3)/2))
	o = math.Max(o, math.Abs(dx/2-dy*math.Sqrt(3)/2))
	return o - 0.5
}

func ijkJudge(fl *core.Field, x, y, slack float64) func([]core.El) string {
	return func(o []core.El) string {
		var c [3]float64
		zero := false
		for n := range c {
			b := fl.Centered(o[n])
			if b.Sign() < 0 || !b.IsInt64() {
				return fmt.Sprintf("coordinates %v are not non-negative", show(fl, o[:3]))
			}
			zero = zero || b.Sign() == 0
			c[n] = float64(b.Int64())
		}
		if !zero {
			return fmt.Sprintf("coordinates %v are not normalised", show(fl, o[:3]))
		}
		if off := hexOff(x, y, c[0], c[1], c[2]); off > slack {
			return fmt.Sprintf("the point (%.9g, %.9g) lies %.3g outside hexagon %v (allowed: %.3g)", x, y, off, show(fl, o[:3]), slack)
		}
		return ""
	}
}

func ijkUnit(r *Run, v *locVariant, m core.Mode, w uint) *unit {
	return v.unit(r, "hex2dToCoordIJK", m, w, 2, 0, func(c *float.Context, x []float.FloatVar, _ []frontend.Variable) []frontend.Variable {
		o := v.toIJK(c, x[0], x[1])
		return o[:]
	})
}

func ijkCase(fl *core.Field, v *locVariant, x, y float64) gcase {
	x, y = v.round(x), v.round(y)
	g := gcase{name: fmt.Sprintf("x=%.17g y=%.17g", x, y), nt: hexOff(x, y, 0, 0, 0) > 0}
	g.in = v.feedF(fl, v.feedF(fl, nil, x), y)
	g.judge = ijkJudge(fl, x, y, 8*v.eps*(math.Abs(x)+math.Abs(y)+1))
	return g
}

func checkC30(r *Run) {
	fl := fieldOf(ecc.BN254)
	for _, v := range locVariants() {
		for _, m := range modes {
			u := ijkUnit(r, v, m, 8)
			if u == nil {
				continue
			}
			step := 0.11
			big := 6.0
			if r.Thorough {
				step = 0.031
			} else if m == core.SCS {
				step = 0.37
			}
			var cs []gcase
			far, end := 0, 0
			add := func(x, y float64) { cs = append(cs, ijkCase(fl, v, x, y)) }
			// a grid that does not resonate with the hexagon lattice
			for x := -big / 2; x <= big/2; x += step {
				for y := -big / 2; y <= big/2; y += step * 0.9137 {
					add(x, y)
				}
			}
			// exact axes, centres, and both signs of zero
			for _, x := range []float64{0, math.Copysign(0, -1), 0.25, -0.25, 1, -1, 2, -3, 7, -8} {
				for _, y := range []float64{0, math.Copysign(0, -1), 0.3, -0.3, math.Sqrt(3) / 2, -math.Sqrt(3) / 2, math.Sqrt(3), 1.1} {
					add(x, y)
				}
			}
			// both sides of each edge of hexagons near and far
			ctr := [][2]float64{{0, 0}, {1, 0}, {0, 1}, {-2, 1}, {3, -2}, {-3, -3}, {2, 3}, {-40, 77}, {1000, 12345}, {-12345, 777}, {65536, -1000}}
			if v.f.M == 52 {
				ctr = append(ctr, [2]float64{4400000, 1}, [2]float64{-2200000, 2500001}, [2]float64{-4400000, -4400000})
			}
			for ci, c := range ctr {
				if ci == 8 {
					far = len(cs)
				}
				cx, cy := c[0]-0.5*c[1], c[1]*math.Sqrt(3)/2
				for e := 0; e < 6; e++ {
					nx, ny := math.Cos(float64(e)*math.Pi/3), math.Sin(float64(e)*math.Pi/3)
					for _, t := range []float64{-0.27, -0.1, 0, 0.13, 0.25} {
						mg := 24 * v.eps * (math.Abs(cx) + math.Abs(cy) + 2)
						for _, d := range []float64{-0.2, -0.04, -mg, mg, 0.04, 0.2} {
							add(cx+nx*(0.5+d)-ny*t, cy+ny*(0.5+d)+nx*t)
						}
					}
				}
				add(cx, cy)
			}
			end = len(cs)
			// around the corners, where three hexagons meet, at every distance down to the rounding errors
			for _, c := range ctr[:5] {
				cx, cy := c[0]-0.5*c[1], c[1]*math.Sqrt(3)/2
				for e := 0; e < 6; e++ {
					vx := cx + math.Cos((float64(e)+0.5)*math.Pi/3)/math.Sqrt(3)
					vy := cy + math.Sin((float64(e)+0.5)*math.Pi/3)/math.Sqrt(3)
					for d := 0.1; d > 6*v.eps; d *= 0.14 {
						for a := 0; a < 12; a++ {
							t := (float64(a) + 0.37) * math.Pi / 6
							add(vx+d*math.Cos(t), vy+d*math.Sin(t))
						}
					}
				}
			}
			runUnit(r, u, cs, true, false, 8)
			// the far hexagons with tables whose limbs divide the lengths differently
			for _, w := range []uint{5, 0, 10} {
				runUnit(r, ijkUnit(r, v, m, w), cs[far:end], true, false, 1)
			}
		}
	}
	r.Assume("a result is accepted when the point lies inside the hexagon inflated by 8 rounding errors of its magnitude")
}

// ---- C31

func spherePoints(faces []h3face, n int) (pts [][3]float64, names []string) {
	add := func(name string, x, y, z float64) {
		l := math.Sqrt(x*x + y*y + z*z)
		pts = append(pts, [3]float64{x / l, y / l, z / l})
		names = append(names, name)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < 2*n; j++ {
			lat := (float64(i)+0.43)/float64(n)*math.Pi - math.Pi/2
			lng := (float64(j)+0.29)/float64(2*n)*2*math.Pi - math.Pi
			add(fmt.Sprintf("lat=%.6f lng=%.6f", lat, lng), math.Cos(lat)*math.Cos(lng), math.Cos(lat)*math.Sin(lng), math.Sin(lat))
		}
	}
	for i, a := range faces {
		add(fmt.Sprintf("centre of face %d", i), a.x, a.y, a.z)
		for j, b := range faces {
			if i == j {
				continue
			}
			d := (a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y) + (a.z-b.z)*(a.z-b.z)
			if d > 1.5 {
				continue // not neighbours
			}
			for _, t := range []float64{0.4, 0.499, 0.49999, 0.50001, 0.51} {
				for _, s := range []float64{-0.2, 0, 0.15} {
					// along the shared edge: add a multiple of the cross product
					cx, cy, cz := a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x
					add(fmt.Sprintf("between faces %d and %d at %g,%g", i, j, t, s), a.x*(1-t)+b.x*t+s*cx, a.y*(1-t)+b.y*t+s*cy, a.z*(1-t)+b.z*t+s*cz)
				}
			}
			// ever closer to the shared edge, down to the rounding errors of both precisions
			for k, d := 0, 3e-3; d > 4e-15; k, d = k+1, d/20 {
				t, s := 0.5-d, 0.05*float64(k%7-3)
				cx, cy, cz := a.y*b.z-a.z*b.y, a.z*b.x-a.x*b.z, a.x*b.y-a.y*b.x
				add(fmt.Sprintf("between faces %d and %d at 0.5-%g,%g", i, j, d, s), a.x*(1-t)+b.x*t+s*cx, a.y*(1-t)+b.y*t+s*cy, a.z*(1-t)+b.z*t+s*cz)
			}
		}
	}
	add("north pole", 0, 0, 1)
	add("south pole", 0, 0, -1)
	for i, a := range faces {
		add(fmt.Sprintf("antipode of face %d", i), -a.x, -a.y, -a.z)
	}
	for i, p := range corners(faces) {
		add(fmt.Sprintf("corner %d", i), p[0], p[1], p[2])
		for _, d := range []float64{1e-15, 1e-12, 1e-7, 1e-5, 1e-3, 0.01, 0.05} {
			for k, q := range ringAround(p, d, 7) {
				add(fmt.Sprintf("corner %d, %g in direction %d", i, d, k), q[0], q[1], q[2])
			}
		}
	}
	return
}

// corners returns the twelve corners of the icosahedron.
func corners(faces []h3face) (out [][3]float64) {
	for i, a := range faces {
		for _, b := range faces[:i] {
			if d := (a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y) + (a.z-b.z)*(a.z-b.z); d > 0.6 {
				continue // they share no edge
			}
			m := [3]float64{a.x + b.x, a.y + b.y, a.z + b.z}
			c := [3]float64{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}
			lm, lc := math.Sqrt(m[0]*m[0]+m[1]*m[1]+m[2]*m[2]), math.Sqrt(c[0]*c[0]+c[1]*c[1]+c[2]*c[2])
			// the corner is at this distance from the centres of its faces
			k := math.Sqrt((5 + 2*math.Sqrt(5)) / 15)
			cos := k / ((m[0]*a.x + m[1]*a.y + m[2]*a.z) / lm)
			sin := math.Sqrt(1 - cos*cos)
			for _, s := range []float64{sin, -sin} {
				var v [3]float64
				for k := range v {
					v[k] = cos*m[k]/lm + s*c[k]/lc
				}
				known := false
				for _, o := range out {
					known = known || math.Abs(o[0]-v[0])+math.Abs(o[1]-v[1])+math.Abs(o[2]-v[2]) < 1e-3
				}
				if !known {
					out = append(out, v)
				}
			}
		}
	}
	return
}

// ringAround returns points at a distance of p, in several directions.
func ringAround(p [3]float64, dist float64, n int) (out [][3]float64) {
	u := [3]float64{-p[1], p[0], 0}
	if math.Abs(p[2]) > 0.99 {
		u = [3]float64{p[2], 0, -p[0]}
	}
	l := math.Sqrt(u[0]*u[0] + u[1]*u[1] + u[2]*u[2])
	for k := range u {
		u[k] /= l
	}
	w := [3]float64{p[1]*u[2] - p[2]*u[1], p[2]*u[0] - p[0]*u[2], p[0]*u[1] - p[1]*u[0]}
	for i := 0; i < n; i++ {
		sin, cos := math.Sincos((float64(i) + 0.21) / float64(n) * 2 * math.Pi)
		var v [3]float64
		for k := range v {
			v[k] = p[k] + dist*(cos*u[k]+sin*w[k])
		}
		out = append(out, v)
	}
	return
}

func checkC31(r *Run) {
	fl := fieldOf(ecc.BN254)
	h := newH3(r)
	if h == nil {
		return
	}
	faces, rot, _, _, _ := h.tables()
	h.close()
	consts := make([][8]float64, 20)
	for i, f := range faces {
		consts[i] = [8]float64{math.Sin(f.lat), math.Cos(f.lat), math.Sin(f.lng), math.Cos(f.lng), math.Sin(f.az), math.Cos(f.az), math.Sin(f.az - rot), math.Cos(f.az - rot)}
	}
	n := 12
	if r.Thorough {
		n = 40
	}
	pts, names := spherePoints(faces, n)
	for _, v := range locVariants() {
		for _, m := range modes {
			u := v.unit(r, "closestFaceCalculations", m, 8, 4, 0, func(c *float.Context, x []float.FloatVar, _ []frontend.Variable) []frontend.Variable {
				var out []frontend.Variable
				for _, o := range v.closest(c, x[0], x[1], x[2], x[3]) {
					out = append(out, comps(o)...)
				}
				return out
			})
			if u == nil {
				continue
			}
			var cs []gcase
			for pi, p := range pts {
				if m == core.SCS && !r.Thorough && pi%7 != 0 {
					continue
				}
				x, y, z := v.round(p[0]), v.round(p[1]), v.round(p[2])
				lng := v.round(math.Atan2(y, x))
				g := gcase{name: names[pi]}
				for _, c := range []float64{x, y, z, lng} {
					g.in = v.feedF(fl, g.in, c)
				}
				best, second, dist := 9.0, 9.0, make([]float64, 20)
				for i, f := range faces {
					dist[i] = (f.x-x)*(f.x-x) + (f.y-y)*(f.y-y) + (f.z-z)*(f.z-z)
					if dist[i] < best {
						best, second = dist[i], best
					} else if dist[i] < second {
						second = dist[i]
					}
				}
				g.nt = second-best < 0.1
				g.judge = func(o []core.El) string {
					var val [9]float64
					for k := range val {
						b, ok := toBits(fl, v.f, o[4*k:4*k+4])
						if !ok {
							return fmt.Sprintf("output %d is not a canonical number: %v", k, show(fl, o[4*k:4*k+4]))
						}
						val[k] = value(v.f, b)
					}
					face, bad := -1, ""
					for i := range consts {
						worst := 0.0
						for k, c := range consts[i] {
							worst = math.Max(worst, math.Abs(c-val[k+1]))
						}
						if worst < 6*v.eps {
							face = i
						}
					}
					if face < 0 {
						// name the closest candidate
						bd := 99.0
						for i := range consts {
							s := 0.0
							for k, c := range consts[i] {
								s += math.Abs(c - val[k+1])
							}
							if s < bd {
								bd, face = s, i
							}
						}
						return fmt.Sprintf("the constants %v are not those of any face (nearest: face %d)", val[1:], face)
					}
					slack := 16*v.eps*math.Sqrt(best) + 16*v.eps*v.eps
					if dist[face]-best > slack+8*v.eps*best {
						return fmt.Sprintf("face %d at squared distance %.9g is chosen, the nearest is at %.9g%s", face, dist[face], best, bad)
					}
					if math.Abs(val[0]-best) > slack+8*v.eps*best {
						return fmt.Sprintf("squared distance %.17g, true value %.17g", val[0], best)
					}
					return ""
				}
				cs = append(cs, g)
			}
			runUnit(r, u, cs, true, false, 4)
		}
	}
}

// ---- C32

func checkC32(r *Run) {
	fl := fieldOf(ecc.BN254)
	var sq []float64
	for i := 0; i <= 200; i++ {
		sq = append(sq, 0.42*float64(i)/200)
	}
	for e := -120; e < -1; e++ {
		sq = append(sq, math.Ldexp(1.3, e))
	}
	sq = append(sq, 0.5, 0.75, 1, 1.5)
	if r.Thorough {
		for i := 0; i < 600; i++ {
			sq = append(sq, 0.42*(float64(i)+0.31)/600)
		}
	}
	for _, v := range locVariants() {
		for _, m := range modes {
			u := v.unit(r, "calculateR", m, 8, 1, 1, func(c *float.Context, x []float.FloatVar, n []frontend.Variable) []frontend.Variable {
				return v.radius(c, x[0], n[0])
			})
			if u == nil {
				continue
			}
			var cs []gcase
			for _, s := range sq {
				s := v.round(s)
				b := new(big.Float).SetPrec(200)
				_ = b
				for res := int64(0); res < 16; res++ {
					g := gcase{name: fmt.Sprintf("sqd=%.9g resolution=%d", s, res), nt: s > 0 && res > 0}
					g.in = append(v.feedF(fl, nil, s), fl.FromInt(res))
					sc := math.Pow(7, float64(res)/2)
					want := math.Sqrt((4-s)*s) / (2 - s) / 0.38196601125010500003 * sc
					g.judge = func(o []core.El) string {
						for k, w := range []float64{want, s * sc}[:len(o)/4] {
							b, ok := toBits(fl, v.f, o[4*k:4*k+4])
							if !ok {
								return fmt.Sprintf("%v is not a canonical number", show(fl, o[4*k:4*k+4]))
							}
							// the repeated squaring of the rounded root of seven costs up to the resolution in roundings
							if e := near(value(v.f, b), w, 0, (24+2*float64(res))*v.eps); e != "" {
								return [2]string{"projected radius: ", "scaled radius: "}[k] + e
							}
						}
						return ""
					}
					cs = append(cs, g)
				}
			}
			runUnit(r, u, cs, true, false, 4)
			var rej []gcase
			mod := u.P.F.Mod
			for _, res := range []*big.Int{big.NewInt(16), big.NewInt(17), big.NewInt(31), big.NewInt(32), big.NewInt(255), big.NewInt(1 << 40), new(big.Int).Sub(mod, bigOneC), new(big.Int).Sub(mod, big.NewInt(16)), new(big.Int).Rsh(mod, 1)} {
				g := gcase{name: "resolution " + res.String(), nt: true, v: Verdict{Reject: true}}
				g.in = append(v.feedF(fl, nil, 0.1), fl.FromBig(res))
				rej = append(rej, g)
			}
			runUnit(r, u, rej, true, false, 20)
		}
	}
}

var bigOneC = big.NewInt(1)

// ---- C33

func (v *locVariant) hexUnit(r *Run, m core.Mode, w uint) *unit {
	return v.unit(r, "calculateHex2d", m, w, 13, 1, func(c *float.Context, x []float.FloatVar, n []frontend.Variable) []frontend.Variable {
		o := v.hex2d(c, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], n[0])
		return append(comps(o[0]), comps(o[1])...)
	})
}

func checkC33(r *Run) {
	fl := fieldOf(ecc.BN254)
	h := newH3(r)
	if h == nil {
		return
	}
	faces, rot, _, _, _ := h.tables()
	h.close()
	dirs := 10
	if r.Thorough {
		dirs = 48
	}
	for _, v := range locVariants() {
		for _, m := range modes {
			u := v.hexUnit(r, m, 8)
			if u == nil {
				continue
			}
			var cs []gcase
			for fi, f := range faces {
				for d := 0; d < dirs; d++ {
					if m == core.SCS && !r.Thorough && (d+fi)%5 != 0 {
						continue
					}
					az := 2 * math.Pi * (float64(d) + 0.23) / float64(dirs)
					for ri, rho := range []float64{0.001, 0.05, 0.3, 0.6, 1e-7, 1e-6, 1e-5, 1e-4, 0.01, 1e-9, 1e-11} {
						if rho < 60*v.eps {
							continue
						}
						// destination point at azimuth az and angular distance rho
						lat := math.Asin(math.Sin(f.lat)*math.Cos(rho) + math.Cos(f.lat)*math.Sin(rho)*math.Cos(az))
						lng := f.lng + math.Atan2(math.Sin(az)*math.Sin(rho)*math.Cos(f.lat), math.Cos(rho)-math.Sin(f.lat)*math.Sin(lat))
						for res := int64(0); res < 16; res++ {
							if res > 3 && (int(res)+d+ri+fi)%4 != 0 && !r.Thorough || res < 4 && ri > 3 && (int(res)+d+ri)%2 != 0 {
								continue
							}
							theta := f.az - az
							if res&1 == 1 {
								theta -= rot
							}
							rad := v.round(1 + rho*10)
							g := gcase{name: fmt.Sprintf("face %d azimuth %.4f distance %g resolution %d", fi, az, rho, res), nt: res&1 == 1}
							for _, x := range []float64{math.Sin(lat), math.Cos(lat), math.Sin(lng), math.Cos(lng), math.Sin(f.lat), math.Cos(f.lat), math.Sin(f.lng), math.Cos(f.lng), math.Sin(f.az), math.Cos(f.az), math.Sin(f.az - rot), math.Cos(f.az - rot), rad} {
								g.in = v.feedF(fl, g.in, x)
							}
							g.in = append(g.in, fl.FromInt(res))
							slack := rad * (16*v.eps + 16*v.eps/rho + 1e-15/rho)
							wx, wy := rad*math.Cos(theta), rad*math.Sin(theta)
							g.judge = func(o []core.El) string {
								for k, w := range []float64{wx, wy} {
									b, ok := toBits(fl, v.f, o[4*k:4*k+4])
									if !ok {
										return fmt.Sprintf("%v is not a canonical number", show(fl, o[4*k:4*k+4]))
									}
									if e := near(value(v.f, b), w, slack, 0); e != "" {
										return "xy"[k:k+1] + ": " + e
									}
								}
								return ""
							}
							cs = append(cs, g)
						}
					}
				}
			}
			for fi, f := range faces {
				for res := int64(0); res < 16; res += 5 {
					g := gcase{name: fmt.Sprintf("centre of face %d resolution %d", fi, res), nt: true}
					lat, lng := v.round(f.lat), v.round(f.lng)
					for _, x := range []float64{math.Sin(lat), math.Cos(lat), math.Sin(lng), math.Cos(lng), math.Sin(lat), math.Cos(lat), math.Sin(lng), math.Cos(lng), math.Sin(f.az), math.Cos(f.az), math.Sin(f.az - rot), math.Cos(f.az - rot), 0} {
						g.in = v.feedF(fl, g.in, v.round(x))
					}
					g.in = append(g.in, fl.FromInt(res))
					g.judge = func(o []core.El) string {
						for k := 0; k < 2; k++ {
							if b, ok := toBits(fl, v.f, o[4*k:4*k+4]); !ok || value(v.f, b) != 0 {
								return "xy"[k:k+1] + ": " + fmt.Sprintf("%v is not zero", show(fl, o[4*k:4*k+4]))
							}
						}
						return ""
					}
					cs = append(cs, g)
				}
			}
			runUnit(r, u, cs, true, false, 4)
		}
	}
}

// ---- C34

// pipeline composes the stages on the sines and cosines of the location.
func (v *locVariant) pipeline(c *float.Context, x []float.FloatVar, res frontend.Variable) [3]frontend.Variable {
	sinLat, cosLat, sinLng, cosLng, lng := x[0], x[1], x[2], x[3], x[4]
	px, py := c.Mul(cosLat, cosLng), c.Mul(cosLat, sinLng)
	k := v.closest(c, px, py, sinLat, lng)
	rad := v.calcR(c, k[0], res)
	xy := v.hex2d(c, sinLat, cosLat, sinLng, cosLng, k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], rad, res)
	return v.toIJK(c, xy[0], xy[1])
}

type location struct {
	lat, lng float64
	name     string
}

func locations(faces []h3face, n int) []location {
	var l []location
	for i := 0; i < n; i++ {
		for j := 0; j < 2*n; j++ {
			l = append(l, location{(float64(i)+0.37)/float64(n)*math.Pi - math.Pi/2, (float64(j)+0.41)/float64(2*n)*2*math.Pi - math.Pi, "grid"})
		}
	}
	for _, p := range []location{{0.9073, 0.2007, "Munich"}, {0.6592, -2.1366, "San Francisco"}, {-0.5909, 2.6393, "Sydney"}, {0, 0, "null island"}, {0, 3.14, "date line"}, {1.55, 0.3, "near the pole"}, {-1.55, -2, "near the south pole"}, {0.4, -3.14159, "date line west"}, {math.Pi / 2, 0.5, "north pole"}, {-math.Pi / 2, -1.25, "south pole"}, {0.7, math.Pi, "antimeridian"}, {-0.3, -math.Pi, "antimeridian"}, {0, math.Pi / 2, "equator"}, {0.5, 0, "meridian"}, {-0.5, -math.Pi / 2, "meridian west"}} {
		l = append(l, p)
	}
	for i, f := range faces {
		l = append(l, location{f.lat, f.lng, fmt.Sprintf("centre of face %d", i)})
		l = append(l, location{f.lat + 0.01, f.lng - 0.02, fmt.Sprintf("near centre of face %d", i)})
		for d := 0; d < 6; d++ {
			l = append(l, location{f.lat + 0.25*math.Sin(float64(d)+0.3), f.lng + 0.25*math.Cos(float64(d)+0.3)/math.Max(0.3, math.Cos(f.lat)), fmt.Sprintf("face %d direction %d", i, d)})
		}
	}
	var ok []location
	for _, p := range l {
		if math.Abs(p.lat) <= math.Pi/2 && math.Abs(p.lng) <= math.Pi {
			ok = append(ok, p)
		}
	}
	return ok
}

func checkC34(r *Run) {
	fl := fieldOf(ecc.BN254)
	h := newH3(r)
	if h == nil {
		return
	}
	defer h.close()
	faces, _, _, _, _ := h.tables()
	n := 7
	if r.Thorough {
		n = 16
	}
	locs := locations(faces, n)
	add := func(name string, p [3]float64) {
		lat, lng := math.Asin(p[2]/math.Sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2])), math.Atan2(p[1], p[0])
		locs = append(locs, location{lat, lng, name})
	}
	for i, p := range corners(faces) {
		for _, d := range []float64{1e-4, 0.003, 0.03} {
			for k, q := range ringAround(p, d, 5) {
				add(fmt.Sprintf("%g from corner %d in direction %d", d, i, k), q)
			}
		}
	}
	for i, f := range faces {
		for di, d := range []float64{1e-8, 1e-6, 1e-4, 1e-2} {
			for k, q := range ringAround([3]float64{f.x, f.y, f.z}, d, 5) {
				if (i+di+k)%3 == 0 || r.Thorough {
					add(fmt.Sprintf("%g from the centre of face %d in direction %d", d, i, k), q)
				}
			}
		}
	}
	for _, v := range locVariants() {
		for _, m := range modes {
			u := v.unit(r, "pipeline", m, 8, 5, 1, func(c *float.Context, x []float.FloatVar, n []frontend.Variable) []frontend.Variable {
				o := v.pipeline(c, x, n[0])
				return o[:]
			})
			if u == nil {
				continue
			}
			var req strings.Builder
			type item struct {
				p   location
				res int
			}
			var items []item
			for i, p := range locs {
				p.lat, p.lng = v.round(p.lat), v.round(p.lng)
				for res := 0; res < 16; res++ {
					if m == core.SCS && !r.Thorough && (i+res)%9 != 0 {
						continue
					}
					items = append(items, item{p, res})
					fmt.Fprintf(&req, "%s %s %d\n", hexFloat(p.lat), hexFloat(p.lng), res)
				}
			}
			ans := h.run("hex2d", req.String())
			if len(ans) != len(items) {
				r.Incomplete("the H3 reference failed")
				return
			}
			var cs []gcase
			sharp := 0
			for i, it := range items {
				var face int
				var sqd, x, y, ci, cj, ck float64
				fmt.Sscanf(ans[i], "%d %g %g %g %g %g %g", &face, &sqd, &x, &y, &ci, &cj, &ck)
				g := gcase{name: fmt.Sprintf("%s lat=%.17g lng=%.17g resolution=%d", it.p.name, it.p.lat, it.p.lng, it.res), nt: it.res > 0}
				for _, c := range []float64{math.Sin(it.p.lat), math.Cos(it.p.lat), math.Sin(it.p.lng), math.Cos(it.p.lng), it.p.lng} {
					g.in = v.feedF(fl, g.in, c)
				}
				g.in = append(g.in, fl.FromInt(int64(it.res)))
				// a point on the boundary of two faces may be given relative to either
				px, py, pz := math.Cos(it.p.lat)*math.Cos(it.p.lng), math.Cos(it.p.lat)*math.Sin(it.p.lng), math.Sin(it.p.lat)
				near := 0
				for _, f := range faces {
					if d := (f.x-px)*(f.x-px) + (f.y-py)*(f.y-py) + (f.z-pz)*(f.z-pz); d < sqd+32*v.eps {
						near++
					}
				}
				rad := math.Hypot(x, y)
				rho := math.Sqrt(sqd)
				scale := math.Pow(7, float64(it.res)/2) / 0.38196601125010500003
				slack := scale*(24*v.eps+8*v.eps*rho) + rad*(40*v.eps+2*float64(it.res)*v.eps) + 8*v.eps
				if near > 1 {
					continue
				}
				if slack < 0.1 {
					sharp++
				}
				g.judge = ijkJudge(fl, x, y, slack)
				cs = append(cs, g)
			}
			runUnit(r, u, cs, true, false, 3)
			r.Put("cases_with_error_below_a_tenth_of_a_hexagon "+u.label, sharp)
		}
	}
	r.Assume("a result is accepted when H3's plane point lies inside the hexagon inflated by the accumulated rounding error of the precision; at high resolutions of the single precision variant this exceeds a hexagon and the check bounds the displacement instead")
}

func hexFloat(x float64) string { return fmt.Sprintf("%x", x) }

// ---- C35

// stageInputs are locations for which the stages are explored.
func stageInputs(faces []h3face, thorough bool) []location {
	n := 2
	if thorough {
		n = 5
	}
	l := locations(faces, n)
	var out []location
	for i, p := range l {
		if thorough || i < 2*n*n || i < 2*n*n+15 || i%11 == 0 {
			out = append(out, p)
		}
	}
	return out
}

func checkC35(r *Run) {
	fl := fieldOf(ecc.BN254)
	h := newH3(r)
	if h == nil {
		return
	}
	faces, rot, _, _, _ := h.tables()
	h.close()
	locs := stageInputs(faces, r.Thorough)
	skipped := 0
	for _, v := range locVariants() {
		for _, m := range modes {
			run := func(u *unit, names []string, ins [][]core.El) { skipped += unique(r, u, names, ins) }
			var names []string
			var ins [][]core.El
			add := func(name string, in []core.El) { names, ins = append(names, name), append(ins, in) }
			// radius
			sq := []float64{0, 1e-12, 1e-6, 0.01, 0.3, 0.42}
			if r.Thorough {
				for i := 1; i < 40; i++ {
					sq = append(sq, 0.42*float64(i)/40)
				}
			}
			for _, s := range sq {
				for res := int64(0); res < 16; res++ {
					add(fmt.Sprintf("sqd=%g resolution=%d", s, res), append(v.feedF(fl, nil, v.round(s)), fl.FromInt(res)))
				}
			}
			run(v.unit(r, "calculateR", m, 8, 1, 1, func(c *float.Context, x []float.FloatVar, n []frontend.Variable) []frontend.Variable {
				return v.radius(c, x[0], n[0])
			}), names, ins)
			// hexagon
			names, ins = nil, nil
			pts := [][2]float64{{0, 0}, {0.3, 0.2}, {-1.7, 0.9}, {12.3, -4.5}, {-123.4, -77.7}, {1, 0}, {0.5, 0.25}, {1.0 / 3, 0.7}, {-2.0 / 3, 1.1}, {0.49999997, -0.8660254}, {65536.25, -1000.75}, {math.Copysign(0, -1), math.Copysign(0, -1)}, {-0.1, 0}, {3, math.Sqrt(3)}}
			k := 2.9
			if r.Thorough {
				k = 0.61
			}
			for x := -6.1; x < 6; x += k {
				for y := -5.3; y < 6; y += k * 0.93 {
					pts = append(pts, [2]float64{x, y})
				}
			}
			for _, p := range pts {
				add(fmt.Sprint("point ", p), v.feedF(fl, v.feedF(fl, nil, v.round(p[0])), v.round(p[1])))
			}
			run(ijkUnit(r, v, m, 8), names, ins)
			// face choice
			names, ins = nil, nil
			for _, p := range locs {
				x, y, z := v.round(math.Cos(p.lat)*math.Cos(p.lng)), v.round(math.Cos(p.lat)*math.Sin(p.lng)), v.round(math.Sin(p.lat))
				var in []core.El
				for _, c := range []float64{x, y, z, v.round(p.lng)} {
					in = v.feedF(fl, in, c)
				}
				add(fmt.Sprintf("%s lat=%.9g lng=%.9g", p.name, p.lat, p.lng), in)
			}
			run(v.unit(r, "closestFaceCalculations", m, 8, 4, 0, func(c *float.Context, x []float.FloatVar, _ []frontend.Variable) []frontend.Variable {
				var out []frontend.Variable
				for _, o := range v.closest(c, x[0], x[1], x[2], x[3]) {
					out = append(out, comps(o)...)
				}
				return out
			}), names, ins)
			// plane coordinates
			names, ins = nil, nil
			for i, p := range locs {
				f := faces[i%20]
				var in []core.El
				rad := v.round(0.3 + float64(i)*1.7)
				for _, x := range []float64{math.Sin(p.lat), math.Cos(p.lat), math.Sin(p.lng), math.Cos(p.lng), math.Sin(f.lat), math.Cos(f.lat), math.Sin(f.lng), math.Cos(f.lng), math.Sin(f.az), math.Cos(f.az), math.Sin(f.az - rot), math.Cos(f.az - rot), rad} {
					in = v.feedF(fl, in, v.round(x))
				}
				add(fmt.Sprintf("face %d lat=%.9g lng=%.9g", i%20, p.lat, p.lng), append(in, fl.FromInt(int64(i%16))))
			}
			run(v.hexUnit(r, m, 8), names, ins)
			// the composition
			names, ins = nil, nil
			for i, p := range locs {
				if !r.Thorough && i%4 != 0 {
					continue
				}
				var in []core.El
				for _, c := range []float64{math.Sin(p.lat), math.Cos(p.lat), math.Sin(p.lng), math.Cos(p.lng), p.lng} {
					in = v.feedF(fl, in, v.round(c))
				}
				add(fmt.Sprintf("pipeline %s lat=%.9g lng=%.9g", p.name, p.lat, p.lng), append(in, fl.FromInt(int64(i*5%16))))
			}
			run(v.unit(r, "pipeline", m, 8, 5, 1, func(c *float.Context, x []float.FloatVar, n []frontend.Variable) []frontend.Variable {
				o := v.pipeline(c, x, n[0])
				return o[:]
			}), names, ins)
			// normalisation
			var ncs []gcase
			B := int64(2)
			for s := 0; s < 8; s++ {
				for i := int64(0); i <= B; i++ {
					for j := int64(0); j <= B; j++ {
						for k := int64(0); k <= B; k++ {
							ncs = append(ncs, normCase(fl, [3]bool{s&1 == 1, s&2 == 2, s&4 == 4}, [3]int64{i, j, k}))
						}
					}
				}
			}
			runUnit(r, normUnit(r, v, m, 8), ncs, false, true, 0)
		}
	}
	r.Put("inputs_not_provable_at_all", skipped)
	r.Assume("the correct output of a stage is the one of the honest prover, whose values C29-C34 decide; each stage is explored for the listed inputs only")
}
