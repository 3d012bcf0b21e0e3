package checks

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/hint"
	"github.com/tumberger/zk-Location/util"
	"zkmc/core"
	"zkmc/ref"
)

func init() {
	register("C36", "model_checking", "every angle of the lattice; non-trivial = a finite non-zero angle", checkC36)
	register("C37", "model_checking", "every encoding (all bit patterns of the small formats, lattices of binary32 and binary64) and every tuple of components around the valid ones; non-trivial = not a NaN encoding", checkC37)
	register("C38", "model_checking", "every entry of every table and every pair of faces; every case is non-trivial", checkC38)
	register("C40", "model_checking", "every string of the enumerated sets; non-trivial = a string that denotes a number", checkC40)
}

// ---- C36

func checkC36(r *Run) {
	fl := fieldOf(ecc.BN254)
	for _, f := range []ref.Fmt{f32fmt, f64fmt} {
		step := 1
		k := 400
		if f.M == 52 {
			step = 7
		}
		if r.Thorough {
			step, k = 1, 20000
		}
		pts := lat(f, -int(f.Bias()), int(f.Bias()), step, r.Thorough)
		pts = append(pts, lat(f, -60, 3, 1, true)...)
		for i := 1; i <= 16; i++ {
			pts = append(pts, around(f, float64(i)*math.Pi/4, 6)...)
		}
		pts = append(pts, grid(f, 0, 2*math.Pi, k)...)
		pts = append(pts, 0, 1, 2, f.MaxFin(0), f.Inf(0), f.NaN(), f.Inf(0)|1)
		pts = uniq(pts)
		for _, m := range modes {
			fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				h := hint.PrecomputeHint32
				if f.M == 52 {
					h = hint.PrecomputeHint64
				}
				o, err := api.Compiler().NewHint(h, 16, in[0], f.E, f.M)
				if err != nil {
					panic(err)
				}
				return o
			}
			u := buildUnit(r, fmt.Sprintf("Precompute E%dM%d/%s", f.E, f.M, m), fl, m, 1, fn)
			if u == nil {
				continue
			}
			stride := 1
			if m == core.SCS && !r.Thorough {
				stride = 8
			}
			var cs []gcase
			for i := 0; i < len(pts); i += stride {
				b := pts[i]
				for s := uint64(0); s < 2; s++ {
					x := b | f.Zero(s)
					cs = append(cs, gcase{name: fmt.Sprintf("angle %#x", x), in: []core.El{fl.FromBig(bigU(x))}, nt: f.IsFin(x) && !f.IsZero(x), judge: func(o []core.El) string { return halfAngle(fl, f, x, o) }})
				}
			}
			runUnit(r, u, cs, true, false, 4)
		}
	}
	r.Assume("the reference sine and cosine are computed to 400 bits")
}

func halfAngle(fl *core.Field, f ref.Fmt, x uint64, o []core.El) string {
	names := []string{"tan(v/2)", "sin(v)", "sin(v/2)", "cos(v/2)"}
	var got [4]uint64
	for i := range got {
		b, ok := toBits(fl, f, o[4*i:4*i+4])
		if !ok {
			return fmt.Sprintf("%s: %v is not a canonical number", names[i], show(fl, o[4*i:4*i+4]))
		}
		got[i] = b
	}
	if !f.IsFin(x) {
		for i := range got {
			if !f.IsNaN(got[i]) {
				return fmt.Sprintf("%s = %#x for an angle that is not a number", names[i], got[i])
			}
		}
		return ""
	}
	v := value(f, x)
	s, c := ref.SinCos(v / 2)
	s2, _ := ref.SinCos(v)
	nf := func() *big.Float { return new(big.Float).SetPrec(400) }
	t := nf().Quo(s, c)
	// the error of the argument reduction of the standard library, then a few roundings of binary64
	d := 1e-30 * math.Max(1, math.Abs(v))
	tf, _ := t.Float64()
	for i, w := range []*big.Float{t, s2, s, c} {
		wf, _ := w.Float64()
		angle := d
		if i == 0 {
			angle = d * (1 + tf*tf)
		}
		tol := 5e-15*math.Abs(wf) + angle // the tangent of the standard library gives up the cubic term early
		g := value(f, got[i])
		if f.M == 23 { // rounded to binary32: half a unit in the last place
			e := math.Max(-126, math.Floor(math.Log2(math.Max(math.Abs(wf), 1e-300))))
			tol += math.Exp2(e-23) * 0.5000001
			if math.Abs(wf) > math.MaxFloat32 {
				continue
			}
		} else {
			tol += 5e-324
		}
		diff := nf().Sub(nf().SetFloat64(math.Abs(g)), nf().Abs(w))
		df, _ := diff.Float64()
		if math.IsInf(g, 0) || math.Abs(df) > tol {
			return fmt.Sprintf("%s of %g is %.17g, true value %.17g", names[i], v, g, wf)
		}
		if g != 0 && math.Abs(wf) > angle && math.Signbit(g) != math.Signbit(wf) {
			return fmt.Sprintf("%s of %g is %g, true value %g", names[i], v, g, wf)
		}
	}
	return ""
}

// ---- C37

func bigComp(c ref.Comp) []*big.Int {
	return []*big.Int{bigU(c.S), big.NewInt(c.Exp), new(big.Int).SetUint64(c.Man), bigU(c.Abn)}
}

// valueOf reassembles components; refused reports a panic.
func valueOf(c []*big.Int, f ref.Fmt) (v uint64, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return util.ValueOf(c, uint64(f.E), uint64(f.M)), false
}

func componentsOf(v uint64, f ref.Fmt) (c []*big.Int, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return util.ComponentsOf(v, uint64(f.E), uint64(f.M)), false
}

func sameBig(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func checkC37(r *Run) {
	check := func(f ref.Fmt, b uint64) {
		r.States.Add(1)
		r.Transitions.Add(2)
		r.Evals.Add(1)
		key := fmt.Sprintf("E%dM%d %#x", f.E, f.M, b)
		want := bigComp(f.Comp(b))
		once := func() string {
			c, ref := componentsOf(b, f)
			if ref {
				return "splitting the encoding fails"
			}
			if f.IsNaN(b) && len(c) == 4 {
				want[0] = c[0] // the sign of a NaN is free
				if c[0].BitLen() > 1 || c[0].Sign() < 0 {
					return "the sign is not a bit"
				}
			}
			if !sameBig(c, want) {
				return fmt.Sprintf("the components are %v, canonical are %v", c, want)
			}
			keep := fmt.Sprint(c)
			v, ref := valueOf(c, f)
			if ref {
				return "reassembling the components fails"
			}
			if fmt.Sprint(c) != keep {
				return "reassembling changes the components it is given"
			}
			if f.IsNaN(b) {
				if v>>f.Bits() != 0 || !f.IsNaN(v) {
					return fmt.Sprintf("a NaN comes back as %#x", v)
				}
			} else if v != b {
				return fmt.Sprintf("comes back as %#x", v)
			}
			return ""
		}
		if !f.IsNaN(b) {
			r.Nontrivial.Add(1)
		}
		r.Traces.Add(1)
		if e := once(); e != "" {
			r.Violate(key, e, key, func() bool { return once() != "" })
		}
	}
	small := []ref.Fmt{{E: 4, M: 2}, {E: 4, M: 3}, {E: 5, M: 2}, {E: 5, M: 3}, {E: 5, M: 4}, {E: 6, M: 3}, {E: 5, M: 10}, {E: 8, M: 7}, {E: 3, M: 3}, {E: 7, M: 5}, {E: 4, M: 9}}
	for _, f := range small {
		for _, b := range f.All() {
			check(f, b)
		}
	}
	for _, f := range []ref.Fmt{f32fmt, f64fmt} {
		l := f.Lattice(3)
		l = append(l, lat(f, -int(f.Bias()), int(f.Bias()), 1, true)...)
		for i := uint(0); i < f.Bits(); i++ {
			for j := uint(0); j < f.Bits(); j++ {
				l = append(l, 1<<i|1<<j, (1<<f.Bits()-1)&^(1<<i|1<<j))
			}
		}
		l = uniq(l)
		if r.Thorough && f.M == 23 { // every binary32 exponent and sign with 2^14 significands
			for hi := uint64(0); hi < 512; hi++ {
				for m := uint64(0); m < 1<<14; m++ {
					l = append(l, hi<<23|m<<9|m>>5)
				}
			}
		}
		n := 256
		r.Par("codec", n, func() func(int) {
			return func(k int) {
				for i := k; i < len(l); i += n {
					check(f, l[i]&(1<<f.Bits()-1))
				}
			}
		})
		// the typed wrappers
		for i := 0; i < len(l); i += 1 + len(l)/20000 {
			b := l[i] & (1<<f.Bits() - 1)
			once := func() (e string) {
				defer func() {
					if x := recover(); x != nil {
						e = fmt.Sprint("panic: ", x)
					}
				}()
				var c []*big.Int
				var back uint64
				if f.M == 23 {
					c = util.F32ToComponents(float32FromBits(b))
					back = uint64(math.Float32bits(util.ComponentsToF32(c)))
				} else {
					c = util.F64ToComponents(f64(b))
					back = math.Float64bits(util.ComponentsToF64(c))
				}
				want := bigComp(f.Comp(b))
				if f.IsNaN(b) {
					want[0] = c[0]
				}
				if !sameBig(c, want) {
					return fmt.Sprintf("the components are %v, canonical are %v", c, want)
				}
				if !f.Same(b, back) {
					return fmt.Sprintf("comes back as %#x", back)
				}
				return ""
			}
			r.States.Add(1)
			r.Evals.Add(1)
			r.Nontrivial.Add(1)
			if e := once(); e != "" {
				key := fmt.Sprintf("typed wrapper E%dM%d %#x", f.E, f.M, b)
				r.Violate(key, e, key, func() bool { return once() != "" })
			}
		}
	}
	// tuples: valid ones are encoded to their bits, contradictory ones are refused
	for _, f := range small[:6] {
		valid := map[string]uint64{}
		for _, b := range f.All() {
			if f.IsNaN(b) {
				b = f.NaN() | b&f.Zero(1)
			}
			valid[fmt.Sprint(bigComp(f.Comp(b)))] = b
		}
		for s := uint64(0); s < 2; s++ {
			for e := f.EMin(); e <= f.EMax(); e++ {
				for m := uint64(0); m < 2<<f.M; m++ {
					for a := uint64(0); a < 2; a++ {
						c := bigComp(ref.Comp{S: s, Exp: e, Man: m, Abn: a})
						want, ok := valid[fmt.Sprint(c)]
						bad := ""
						switch sub := f.ENorm() - e; {
						case (e == f.EMax()) != (a == 1):
							bad = "the abnormal flag contradicts the exponent"
						case sub > 0 && sub <= int64(f.M) && m == 0, e == f.EMin() && m != 0:
							bad = "a zero with the exponent of another number"
						case sub > 0 && m&(1<<uint(sub)-1) != 0:
							bad = "bits below the smallest subnormal"
						}
						if !ok && bad == "" {
							continue
						}
						r.States.Add(1)
						r.Evals.Add(1)
						r.Nontrivial.Add(1)
						once := func() string {
							v, ref := valueOf(c, f)
							switch {
							case ok && ref:
								return "refused"
							case ok && !f.IsNaN(want) && v != want, ok && f.IsNaN(want) && (v>>f.Bits() != 0 || !f.IsNaN(v)):
								return fmt.Sprintf("encoded as %#x, not %#x", v, want)
							case !ok && !ref:
								return fmt.Sprintf("encoded as %#x although %s", v, bad)
							}
							return ""
						}
						if e := once(); e != "" {
							key := fmt.Sprintf("components %v of E%dM%d", c, f.E, f.M)
							r.Violate(key, e, key, func() bool { return once() != "" })
						}
					}
				}
			}
		}
	}
	r.Sample(map[string]any{"format": "E4M3", "encoding": 1, "components": fmt.Sprint(bigComp(small[1].Comp(1)))})
	r.Assume("components that are malformed without contradicting each other (a significand without its leading one) are outside the statement")
}

func float32FromBits(b uint64) float32 { return math.Float32frombits(uint32(b)) }

// ---- C38

func checkC38(r *Run) {
	h := newH3(r)
	if h == nil {
		return
	}
	defer h.close()
	faces, rot, res0, sqrt7, sin60 := h.tables()
	one := func(name string, got, want, tol float64) {
		r.States.Add(1)
		r.Transitions.Add(1)
		r.Evals.Add(1)
		r.Nontrivial.Add(1)
		r.Traces.Add(1)
		if !(math.Abs(got-want) <= tol) || (want == 0) != (got == 0) && tol == 0 {
			r.Violate(name, fmt.Sprintf("%s is %.17g, must be %.17g within %.1g", name, got, want, tol), name, func() bool { return true })
		}
	}
	const t64 = 2e-15
	for f := 0; f < 20; f++ {
		n := func(s string) string { return fmt.Sprintf("%s, face %d", s, f) }
		h := faces[f]
		one(n("longitude of the centre"), util.FaceCenterGeoLng_64[f], h.lng, 0)
		one(n("azimuth"), util.Azimuth[f], h.az, 0)
		for i, w := range []float64{h.x, h.y, h.z} {
			one(n("centre coordinate "+"xyz"[i:i+1]), util.FaceCenterPoint_64[3*f+i], w, 0)
			one(n("single precision centre coordinate "+"xyz"[i:i+1]), float64(util.FaceCenterPoint_32[3*f+i]), float64(float32(w)), 0)
		}
		one(n("cosine of the latitude"), util.CosFaceLat_64[f], math.Cos(h.lat), t64)
		one(n("sine of the latitude"), util.SinFaceLat[f], math.Sin(h.lat), t64)
		// every single precision entry is its double precision value rounded
		one(n("single precision longitude"), float64(util.FaceCenterGeoLng_32[f]), float64(float32(h.lng)), 0)
		one(n("single precision azimuth"), float64(util.Azimuth_32[f]), float64(float32(h.az)), 0)
		one(n("single precision cosine"), float64(util.CosFaceLat_32[f]), float64(float32(util.CosFaceLat_64[f])), 0)
		one(n("single precision sine"), float64(util.SinFaceLat_32[f]), float64(float32(util.SinFaceLat[f])), 0)
		// the tables agree with each other
		x, y, z := util.FaceCenterPoint_64[3*f], util.FaceCenterPoint_64[3*f+1], util.FaceCenterPoint_64[3*f+2]
		one(n("z against the sine of the latitude"), z, util.SinFaceLat[f], t64)
		one(n("x against latitude and longitude"), x, util.CosFaceLat_64[f]*math.Cos(util.FaceCenterGeoLng_64[f]), t64)
		one(n("y against latitude and longitude"), y, util.CosFaceLat_64[f]*math.Sin(util.FaceCenterGeoLng_64[f]), t64)
		one(n("length of the centre"), x*x+y*y+z*z, 1, t64)
		one(n("sin^2+cos^2"), util.SinFaceLat[f]*util.SinFaceLat[f]+util.CosFaceLat_64[f]*util.CosFaceLat_64[f], 1, t64)
	}
	// the centres form an icosahedron: the angles between face normals take the five possible values,
	// each face having 3, 6, 6, 3 and 1 others at them
	s5 := math.Sqrt(5) / 3
	levels := []float64{s5, 1.0 / 3, -1.0 / 3, -s5, -1}
	counts := []int{3, 6, 6, 3, 1}
	for a := 0; a < 20; a++ {
		got := make([]int, 5)
		for b := 0; b < 20; b++ {
			if a == b {
				continue
			}
			dot := 0.0
			for i := 0; i < 3; i++ {
				dot += util.FaceCenterPoint_64[3*a+i] * util.FaceCenterPoint_64[3*b+i]
			}
			best := 0
			for i, l := range levels {
				if math.Abs(dot-l) < math.Abs(dot-levels[best]) {
					best = i
				}
			}
			got[best]++
			one(fmt.Sprintf("cosine of the angle between faces %d and %d", a, b), dot, levels[best], t64)
		}
		one(fmt.Sprintf("arrangement around face %d", a), b2f(fmt.Sprint(got) == fmt.Sprint(counts)), 1, 0)
	}
	one("rotation of odd resolutions", util.Ap7rot_64, rot, 1e-16)
	one("single precision rotation of odd resolutions", float64(util.Ap7rot_32), float64(float32(rot)), 0)
	one("rotation against its definition", util.Ap7rot_64, math.Asin(math.Sqrt(3.0/28)), 1e-15)
	one("length scale of resolution 0", util.ResConst_64, res0, 1e-16)
	one("single precision length scale of resolution 0", float64(util.ResConst_32), float64(float32(res0)), 0)
	one("root of 7", util.Sqrt7_64, sqrt7, 0)
	one("root of 7 against its definition", util.Sqrt7_64, math.Sqrt(7), 0)
	one("single precision root of 7", float64(util.Sqrt7_32), float64(float32(sqrt7)), 0)
	one("sine of 60 degrees", util.Sin60_64, sin60, 0)
	one("sine of 60 degrees against its definition", util.Sin60_64, math.Sqrt(3)/2, 1.2e-16)
	one("single precision sine of 60 degrees", float64(util.Sin60_32), float64(float32(sin60)), 0)
	one("exponent width of binary32", float64(util.IEEE32ExponentBitwidth), 8, 0)
	one("precision of binary32", float64(util.IEEE32Precision), 23, 0)
	one("exponent width of binary64", float64(util.IEEE64ExponentBitwidth), 11, 0)
	one("precision of binary64", float64(util.IEEE64Precision), 52, 0)
	one("largest resolution", b2f(fmt.Sprint(util.MaxResolution) == "15"), 1, 0)
	r.Sample(map[string]any{"face": 0, "centre": util.FaceCenterPoint_64[:3], "longitude": util.FaceCenterGeoLng_64[0]})
	r.Assume("the constants of the H3 library shipped with h3-go are right; they are compared, not only used")
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// ---- C40

// hexBits is the oracle: the bits a text denotes.
func hexBits(s string, width uint) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	v := new(big.Int)
	for _, c := range []byte(s) {
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c < '0' || d < 0 || (d < 10) != (c <= '9') {
			return 0, false
		}
		v.Lsh(v, 4).Add(v, big.NewInt(int64(d)))
	}
	if uint(v.BitLen()) > width {
		return 0, false
	}
	return v.Uint64(), true
}

func checkC40(r *Run) {
	try := func(s string) {
		for _, f := range []ref.Fmt{f32fmt, f64fmt} {
			want, ok := hexBits(s, f.Bits())
			once := func() (e string) {
				defer func() {
					if x := recover(); x != nil {
						e = fmt.Sprint("panic: ", x)
					}
				}()
				var got uint64
				var err error
				if f.M == 23 {
					var v float32
					v, err = util.HexToFloat32(s)
					got = uint64(math.Float32bits(v))
				} else {
					var v float64
					v, err = util.HexToFloat(s)
					got = math.Float64bits(v)
				}
				switch {
				case ok && err != nil:
					return "refused: " + err.Error()
				case ok && !f.Same(got, want):
					return fmt.Sprintf("decoded as %#x, not %#x", got, want)
				case !ok && err == nil:
					return fmt.Sprintf("decoded as %#x although it is not a number of %d bits", got, f.Bits())
				}
				return ""
			}
			r.States.Add(1)
			r.Transitions.Add(1)
			r.Evals.Add(1)
			r.Traces.Add(1)
			if ok {
				r.Nontrivial.Add(1)
			}
			if e := once(); e != "" {
				key := fmt.Sprintf("%q as %d bits", s, f.Bits())
				r.Violate(key, e, s, func() bool { return once() != "" })
			}
		}
	}
	alpha := "0178afAFgGxX-+_. \n"
	n := 4
	if r.Thorough {
		n = 5
	}
	var rec func(p string, k int)
	rec = func(p string, k int) {
		try(p)
		if k > 0 {
			for _, c := range alpha {
				rec(p+string(c), k-1)
			}
		}
	}
	rec("", n)
	for _, f := range []ref.Fmt{f32fmt, f64fmt} {
		full := int(f.Bits() / 4)
		for _, b := range append(f.Lattice(2), 0x12345678, 0x9abcdef0, 0xfedcba9876543210, 0x0123456789abcdef) {
			try(fmt.Sprintf("%x", b))
			try(fmt.Sprintf("%0*X", full, b))
			try(fmt.Sprintf("000%0*x", full, b))
			try(fmt.Sprintf("1%0*x", full, b))
			try(fmt.Sprintf("%0*x0", full, b))
			try(fmt.Sprintf("0x%0*x", full, b))
		}
		// any single bad byte at any place
		ok := strings.Repeat("7", full)
		for i := 0; i < full; i++ {
			for c := 0; c < 256; c++ {
				try(ok[:i] + string([]byte{byte(c)}) + ok[i+1:])
			}
		}
		try(strings.Repeat("0", 70))
		try(strings.Repeat("0", 70) + "1")
		try(strings.Repeat("f", 70))
	}
	// byte strings
	bs := func(b []byte) {
		for _, hexa := range []bool{false, true} {
			for _, upper := range []bool{false, true} {
				in := string(b)
				if hexa {
					in = fmt.Sprintf("%x", b)
					if upper {
						in = strings.ToUpper(in)
					}
				} else if upper {
					continue
				}
				once := func() (e string) {
					defer func() {
						if x := recover(); x != nil {
							e = fmt.Sprint("panic: ", x)
						}
					}()
					got := util.StrToIntSlice(in, hexa)
					if len(got) != len(b) {
						return fmt.Sprintf("%d numbers for %d bytes", len(got), len(b))
					}
					for i := range b {
						if got[i] != int(b[i]) {
							return fmt.Sprintf("byte %d is %d, not %d", i, got[i], b[i])
						}
					}
					return ""
				}
				r.States.Add(1)
				r.Transitions.Add(1)
				r.Evals.Add(1)
				r.Nontrivial.Add(1)
				if e := once(); e != "" {
					key := fmt.Sprintf("bytes %x, hexadecimal=%v", b, hexa)
					r.Violate(key, e, key, func() bool { return once() != "" })
				}
			}
		}
	}
	bs(nil)
	menu := []byte{0, 1, 9, '0', 'a', 'f', 0x7f, 0x80, 0xc3, 0xa9, 0xff}
	for a := 0; a < 256; a++ {
		bs([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			bs([]byte{byte(a), byte(b)})
		}
		for _, b := range menu {
			for _, c := range menu {
				bs([]byte{byte(a), b, c})
				bs([]byte{b, c, byte(a), b})
			}
		}
	}
	for _, l := range []int{31, 32, 33, 64, 255, 256, 1000} {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(i * 37)
		}
		bs(b)
	}
	// conversions
	num := func(key string, got func() float64, want *big.Rat, ulps float64) {
		r.States.Add(1)
		r.Evals.Add(1)
		r.Nontrivial.Add(1)
		w, _ := want.Float64()
		tol := ulps*math.Abs(w)*0x1p-53 + 1e-323
		if g := got(); math.IsNaN(g) || math.Abs(g-w) > tol || w != 0 && math.Signbit(g) != math.Signbit(w) {
			r.Violate(key, fmt.Sprintf("%s is %.17g, not %.17g", key, g, w), key, func() bool { return got() == g || got() != got() })
		}
	}
	var ints []int
	for i := uint(0); i < 63; i++ {
		for d := -3; d <= 3; d++ {
			ints = append(ints, 1<<i+d, -(1<<i + d), 3<<i+d)
		}
	}
	for p := 1; p > 0 && p < 1e18; p *= 10 {
		for d := -2; d <= 2; d++ {
			for k := 1; k < 10; k++ {
				ints = append(ints, k*p+d, -k*p-d)
			}
		}
	}
	ints = append(ints, math.MaxInt64, math.MinInt64, 37338700000, -121885300000)
	for _, v := range ints {
		num(fmt.Sprintf("scaled integer %d", v), func() float64 { return util.ScaledIntToFloat64(v) }, big.NewRat(int64(v), 1e9), 4)
	}
	pi, _ := ref.Pi(200).Rat(nil)
	k := new(big.Rat).Quo(big.NewRat(180, 1), pi)
	l := lat(f64fmt, -1000, 900, 3, false)
	l = append(l, grid(f64fmt, -2*math.Pi, 2*math.Pi, 2000)...)
	l = append(l, f64fmt.Lattice(1)...)
	for _, b := range l {
		for s := uint64(0); s < 2; s++ {
			v := f64(b | f64fmt.Zero(s))
			if math.IsNaN(v) || math.Abs(v) > 1e300 || v != 0 && math.Abs(v) < 1e-300 {
				continue
			}
			num(fmt.Sprintf("radians %x", v), func() float64 { return util.RadiansToDegrees(v) }, new(big.Rat).Mul(k, new(big.Rat).SetFloat64(v)), 6)
		}
	}
	r.Sample(map[string]any{"text": "3f800000", "bits": 32, "value": 1.0})
}
