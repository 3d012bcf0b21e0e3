package checks

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/gadget"

	"zkmc/core"
)

var curves = []ecc.ID{ecc.BN254, ecc.BLS12_377, ecc.BLS12_381}

func init() {
	register("C18", "model_checking", "every (length, mode, table width, curve, arithmetisation) within bounds, with all values of short lengths, boundary values of long ones, negatives and field fractions; a case counts when the value is not inside the plain interval", checkC18)
	register("C19", "model_checking", "every pair of integers around the stated length, for each gadget, length, width, curve and arithmetisation; every prover choice; a case counts when the operands differ", checkC19)
	register("C20", "model_checking", "every exponent in and around the table for each table size, width, arithmetisation and number of lookups; every prover choice; a case counts when some exponent is outside the table or there are several lookups", checkC20)
}

type rcheck struct {
	bits int
	mode gadget.Mode
}

func (c rcheck) String() string {
	return fmt.Sprintf("%d:%s", c.bits, []string{"loose", "smallabs", "unknown"}[c.mode])
}

// rangeVerdict: +1 must be accepted, -1 must be rejected, 0 free.
func rangeVerdict(c rcheck, width int, v *big.Int, mod *big.Int) int {
	v = new(big.Int).Mod(v, mod)
	if v.BitLen() <= c.bits {
		return 1
	}
	switch c.mode {
	case gadget.TightForUnknownRange:
		return -1
	case gadget.TightForSmallAbs:
		neg := new(big.Int).Sub(mod, v)
		if v.BitLen() <= 200 || neg.BitLen() <= 200 {
			return -1
		}
		return 0
	}
	pad := c.bits + 16
	if width > 0 {
		pad = (c.bits + width - 1) / width * width
	}
	if v.BitLen() > pad {
		return -1
	}
	return 0
}

func rangeValues(f *core.Field, bits int, full int) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	put := func(v *big.Int) {
		v = new(big.Int).Mod(v, f.Mod)
		if k := v.String(); !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	one := big.NewInt(1)
	pow := func(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }
	if bits <= full {
		for i := int64(0); i < 1<<uint(bits+2); i++ {
			put(big.NewInt(i))
		}
	}
	for _, k := range []int{0, 1, bits - 1, bits, bits + 1, bits + 2, bits + 5, bits + 16, bits + 17, bits + 18, 2 * bits, 128, 199} {
		if k < 0 {
			continue
		}
		for d := int64(-1); d <= 1; d++ {
			put(new(big.Int).Add(pow(k), big.NewInt(d)))
			put(new(big.Int).Neg(new(big.Int).Add(pow(k), big.NewInt(d))))
		}
	}
	// a valid high part with an invalid low part cannot exist, but a value whose top limb alone is out
	// of range can
	for k := bits; k < bits+17; k++ {
		put(pow(k))
		put(new(big.Int).Sub(pow(k+1), one))
		put(new(big.Int).Add(pow(k), pow(bits/2)))
	}
	for i := int64(1); i <= 8; i++ {
		put(big.NewInt(-i))
	}
	// small multiples of inverse powers of two: they become small once scaled
	for d := 1; d <= 17; d++ {
		inv := new(big.Int).ModInverse(pow(d), f.Mod)
		for _, m := range []int64{1, 3, -1, 1<<uint(min(bits, 40)) + 1, 1<<uint(min(bits, 40)) - 1} {
			put(new(big.Int).Mul(inv, big.NewInt(m)))
		}
	}
	half := new(big.Int).Rsh(f.Mod, 1)
	put(half)
	put(new(big.Int).Add(half, one))
	return out
}

func rangeUnit(r *Run, cv ecc.ID, mode core.Mode, width int, cs []rcheck, same, viaGadget bool) *unit {
	f := fieldOf(cv)
	n := len(cs)
	if same {
		n = 1
	}
	fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		check := gadget.NewCommitRangechecker(api, width).Check
		if viaGadget {
			g := gadget.New(api, uint(width), 4)
			check = func(v frontend.Variable, bits int, m gadget.Mode) { g.AssertBitLength(v, uint(bits), m) }
		}
		for i, c := range cs {
			v := in[0]
			if !same {
				v = in[i]
			}
			check(v, c.bits, c.mode)
		}
		return nil
	}
	return buildUnit(r, fmt.Sprintf("range checks %v width=%d same=%v gadget=%v %s/%s", cs, width, same, viaGadget, mode, cv), f, mode, n, fn)
}

func rangeCase(f *core.Field, width int, cs []rcheck, same bool, vals []*big.Int) (gcase, bool) {
	g := gcase{name: fmt.Sprint(vals)}
	verdict := 1
	for i, c := range cs {
		v := vals[0]
		if !same {
			v = vals[i]
		}
		k := rangeVerdict(c, width, v, f.Mod)
		if k != 1 {
			g.nt = true
		}
		if k < 0 {
			verdict = -1
		} else if k == 0 && verdict > 0 {
			verdict = 0
		}
	}
	for _, v := range vals {
		g.in = append(g.in, f.FromBig(v))
	}
	g.v.Reject = verdict < 0
	return g, verdict != 0
}

func checkC18(r *Run) {
	allModes := []gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}
	lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 23, 24, 25, 32, 48, 52, 53, 64, 65, 105, 128, 160, 193}
	full := 6
	if r.Thorough {
		lens = nil
		for i := 1; i <= 199; i++ {
			lens = append(lens, i)
		}
		full = 11
	}
	for ci, cv := range curves {
		f := fieldOf(cv)
		for w := 0; w <= 17; w++ {
			if w > 12 && ci > 0 && !r.Thorough {
				continue
			}
			for li, l := range lens {
				if w > 12 && !r.Thorough && li%4 != w%4 {
					continue
				}
				vals := rangeValues(f, l, full)
				for mi, gm := range allModes {
					c := rcheck{l, gm}
					var cases []gcase
					for _, v := range vals {
						if g, ok := rangeCase(f, w, []rcheck{c}, false, []*big.Int{v}); ok {
							cases = append(cases, g)
						}
					}
					m := modes[(li+mi+w)%2]
					rp := 0
					if w <= 8 && w > 0 && li%5 == 0 {
						rp = 3
					}
					runUnit(r, rangeUnit(r, cv, m, w, []rcheck{c}, false, (li+w/2)%2 == 0), cases, true, true, rp)
					if r.Thorough {
						runUnit(r, rangeUnit(r, cv, modes[1-(li+mi+w)%2], w, []rcheck{c}, false, (li+w/2)%2 == 1), cases, true, true, rp)
					}
				}
			}
		}
	}
	// checks of constants and of multiples of a wire, next to a check of the wire
	for _, w := range []int{0, 3, 4, 8} {
		for li, l := range []int{1, 3, 4, 5, 8, 9, 12, 24} {
			for mi, gm := range allModes {
				c := rcheck{l, gm}
				f := fieldOf(ecc.BN254)
				for vi, v := range rangeValues(f, l, 3) {
					if vi%5 != (li+mi)%5 && !r.Thorough && v.BitLen() > l+1 {
						continue
					}
					k := rangeVerdict(c, w, v, f.Mod)
					if k == 0 {
						continue
					}
					constCase(r, f, modes[(vi+mi)%2], fmt.Sprintf("range check %v of the constant %v width=%d", c, v, w), k > 0, func(api frontend.API) []frontend.Variable {
						g := gadget.New(api, uint(w), 4)
						g.AssertBitLength(v, uint(c.bits), c.mode)
						return nil
					}, nil)
				}
			}
		}
	}
	gadgetsTogether(r)
	// several checks in one circuit
	menu := []rcheck{}
	for _, l := range []int{1, 3, 4, 5, 8, 9} {
		for _, gm := range allModes {
			menu = append(menu, rcheck{l, gm})
		}
	}
	f := fieldOf(ecc.BN254)
	small := func(l int) []*big.Int {
		var o []*big.Int
		for _, v := range []int64{0, 1, 1<<uint(l) - 1, 1 << uint(l), 1<<uint(l) + 1, 1 << uint(l+1), 1 << uint(l+3), -1} {
			o = append(o, new(big.Int).Mod(big.NewInt(v), f.Mod))
		}
		inv := new(big.Int).ModInverse(big.NewInt(2), f.Mod)
		return append(o, inv)
	}
	ws := []int{0, 2, 4}
	if r.Thorough {
		ws = []int{0, 1, 2, 3, 4, 5, 8}
	}
	for _, w := range ws {
		for i, a := range menu {
			for j, b := range menu {
				cs := []rcheck{a, b}
				var cases, sc []gcase
				for _, x := range small(a.bits) {
					for _, y := range small(b.bits) {
						if g, ok := rangeCase(f, w, cs, false, []*big.Int{x, y}); ok {
							cases = append(cases, g)
						}
					}
				}
				for _, x := range append(small(a.bits), small(b.bits)...) {
					if g, ok := rangeCase(f, w, cs, true, []*big.Int{x}); ok {
						sc = append(sc, g)
					}
				}
				m := modes[(i+j)%2]
				runUnit(r, rangeUnit(r, ecc.BN254, m, w, cs, false, (i+j/2)%2 == 0), cases, true, true, 0)
				runUnit(r, rangeUnit(r, ecc.BN254, m, w, cs, true, (i+j/2)%2 == 1), sc, true, true, 0)
			}
		}
		// very many checks at once: one of them fails, at the ends and around the powers of two
		for ni, n := range []int{5000, 17000, 70000} {
			if n > 5000 && w != ws[ni%len(ws)] && !r.Thorough {
				continue
			}
			cs := make([]rcheck, n)
			ok := make([]*big.Int, n)
			for i := range cs {
				cs[i] = menu[(i*7+n)%len(menu)]
				ok[i] = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(cs[i].bits)), big.NewInt(int64(i%2)+1))
			}
			at := []int{-1, 0, 1, 2, n / 3, n / 2, n - 2, n - 1}
			for k := 8; 1<<k+1 < n; k++ {
				at = append(at, 1<<k-1, 1<<k, 1<<k+1)
			}
			for k := 1000; k < n; k *= 10 {
				at = append(at, k-1, k, k+1)
			}
			var cases []gcase
			for _, i := range at {
				v := append([]*big.Int{}, ok...)
				if i >= 0 {
					v[i] = new(big.Int).Lsh(big.NewInt(1), uint(cs[i].bits+17))
				}
				if g, is := rangeCase(f, w, cs, false, v); is {
					g.name = fmt.Sprintf("check %d of %d fails", i+1, n)
					cases = append(cases, g)
				}
			}
			for mi, m := range modes {
				if n > 5000 && mi != ni%2 && !r.Thorough {
					continue
				}
				fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					g := gadget.New(api, uint(w), 4)
					for i, c := range cs {
						g.AssertBitLength(in[i], uint(c.bits), c.mode)
					}
					return nil
				}
				if u := buildUnit(r, fmt.Sprintf("%d range checks width=%d %s", n, w, m), f, m, n, fn); u != nil {
					runUnit(r, u, cases, true, false, 1)
				}
			}
		}
		// many checks at once, so that the automatic width changes
		for _, n := range []int{3, 10, 60, 400, 1100} {
			for k := 0; k < 3; k++ {
				if n > 1000 && k != 1 {
					continue
				}
				var cs []rcheck
				for i := 0; i < n; i++ {
					cs = append(cs, menu[(i*7+k*5)%len(menu)])
				}
				ok := make([]*big.Int, n)
				for i := range ok {
					ok[i] = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(cs[i].bits)), big.NewInt(int64(i%2)+1))
				}
				var cases []gcase
				g, _ := rangeCase(f, w, cs, false, ok)
				cases = append(cases, g)
				for i := 0; i < min(n, 24); i++ {
					for _, x := range small(cs[i].bits) {
						v := append([]*big.Int{}, ok...)
						v[i] = x
						if g, is := rangeCase(f, w, cs, false, v); is {
							cases = append(cases, g)
						}
					}
				}
				for i := 24; i < n; i++ { // every single check counts
					v := append([]*big.Int{}, ok...)
					v[i] = new(big.Int).Lsh(big.NewInt(1), uint(cs[i].bits+17))
					if g, is := rangeCase(f, w, cs, false, v); is {
						cases = append(cases, g)
					}
				}
				for _, m := range modes {
					runUnit(r, rangeUnit(r, ecc.BN254, m, w, cs, false, k%2 == 0), cases, true, n <= 60, 4)
				}
			}
		}
	}
}

// gadgetsTogether decides circuits with two gadgets of different sizes, whose calls take turns on the
// same and on related expressions: nothing that one of them was told holds for the other.
func gadgetsTogether(r *Run) {
	f := fieldOf(ecc.BN254)
	exprs := []struct {
		name string
		v    func(api frontend.API, in []frontend.Variable) frontend.Variable
		of   func(x, y *big.Int) *big.Int
	}{
		{"x", func(api frontend.API, in []frontend.Variable) frontend.Variable { return in[0] }, func(x, y *big.Int) *big.Int { return x }},
		{"2x", func(api frontend.API, in []frontend.Variable) frontend.Variable { return api.Add(in[0], in[0]) }, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, x) }},
		{"-x", func(api frontend.API, in []frontend.Variable) frontend.Variable { return api.Neg(in[0]) }, func(x, y *big.Int) *big.Int { return new(big.Int).Neg(x) }},
		{"x+1", func(api frontend.API, in []frontend.Variable) frontend.Variable { return api.Add(in[0], 1) }, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, big.NewInt(1)) }},
		{"x+y", func(api frontend.API, in []frontend.Variable) frontend.Variable { return api.Add(in[0], in[1]) }, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }},
	}
	type step struct {
		g, e int
		c    rcheck
	}
	var steps []step
	for g := 0; g < 2; g++ {
		for e := range exprs {
			for _, c := range []rcheck{{3, gadget.TightForUnknownRange}, {5, gadget.TightForSmallAbs}, {4, gadget.Loose}} {
				steps = append(steps, step{g, e, c})
			}
		}
	}
	widths := [][2]int{{4, 3}, {2, 5}, {3, 3}, {0, 4}, {0, 0}}
	var xs []*big.Int
	for _, x := range []int64{0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 64, 1 << 20, 1 << 25, -1, -3, -8, -32} {
		xs = append(xs, big.NewInt(x))
	}
	n := 0
	one := func(seq []step) {
		n++
		w := widths[n%len(widths)]
		m := modes[n/2%2]
		label := ""
		for _, s := range seq {
			label += fmt.Sprintf(" %s in gadget %d for %v;", exprs[s.e].name, s.g, s.c)
		}
		u := buildUnit(r, fmt.Sprintf("two gadgets of widths %v:%s %s", w, label, m), f, m, 2, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			gs := []*gadget.IntGadget{gadget.New(api, uint(w[0]), 4), gadget.New(api, uint(w[1]), 6)}
			for _, s := range seq {
				gs[s.g].AssertBitLength(exprs[s.e].v(api, in), uint(s.c.bits), s.c.mode)
			}
			return nil
		})
		if u == nil {
			return
		}
		var cases []gcase
		for _, x := range xs {
			for _, y := range []*big.Int{big.NewInt(0), big.NewInt(5), new(big.Int).Neg(x)} {
				k := 1
				for _, s := range seq {
					k = min(k, rangeVerdict(s.c, w[s.g], exprs[s.e].of(x, y), f.Mod))
				}
				if k == 0 {
					continue
				}
				cases = append(cases, gcase{name: fmt.Sprintf("x=%v y=%v", x, y), nt: true, in: []core.El{f.FromBig(new(big.Int).Mod(x, f.Mod)), f.FromBig(new(big.Int).Mod(y, f.Mod))}, v: Verdict{Reject: k < 0}})
			}
		}
		runUnit(r, u, cases, true, true, 0)
	}
	for _, a := range steps {
		for _, b := range steps {
			one([]step{a, b})
			if r.Thorough {
				for _, c := range steps {
					one([]step{a, b, c})
				}
			}
		}
	}
}

// tablesTogether is the same for lookups in tables of different sizes.
func tablesTogether(r *Run) {
	f := fieldOf(ecc.BN254)
	names := []string{"x", "x+1", "y"}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	sizes := [][2]uint{{4, 64}, {33, 8}, {12, 12}}
	menu := []int64{0, 1, 2, 3, 4, 7, 8, 11, 12, 31, 32, 33, 62, 63, 64, -1}
	var seqs [][]int
	var rec func(s []int)
	rec = func(s []int) {
		if len(s) > 1 {
			seqs = append(seqs, append([]int{}, s...))
		}
		if len(s) < depth {
			for k := 0; k < 6; k++ {
				rec(append(s, k))
			}
		}
	}
	rec(nil)
	for n, seq := range seqs {
		seq, sz, m, w := seq, sizes[n%3], modes[n/3%2], []uint{0, 4, 3, 8}[n%4]
		label := ""
		for _, k := range seq {
			label += fmt.Sprintf(" 2^(%s) in table %d;", names[k/2], k%2)
		}
		u := buildUnit(r, fmt.Sprintf("tables of %v:%s width=%d %s", sz, label, w, m), f, m, 2, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			gs := []*gadget.IntGadget{gadget.New(api, w, sz[0]), gadget.New(api, w, sz[1])}
			var out []frontend.Variable
			for _, k := range seq {
				out = append(out, gs[k%2].QueryPowerOf2([]frontend.Variable{in[0], api.Add(in[0], 1), in[1]}[k/2]))
			}
			return out
		})
		if u == nil {
			continue
		}
		var cases []gcase
		for _, x := range menu {
			for yi, y := range []int64{0, 3, int64(sz[0]) - 1, int64(sz[1]), x} {
				if yi > 0 && yi < 4 && (int(x)+yi)%3 != 0 {
					continue
				}
				g := gcase{name: fmt.Sprintf("x=%d y=%d", x, y), nt: true, in: []core.El{f.FromInt(x), f.FromInt(y)}}
				for _, k := range seq {
					e := []int64{x, x + 1, y}[k/2]
					if e < 0 || e >= int64(sz[k%2]) {
						g.v.Reject = true
					} else {
						g.v.Out = append(g.v.Out, f.FromBig(new(big.Int).Lsh(big.NewInt(1), uint(e))))
						g.v.Care = append(g.v.Care, true)
					}
				}
				if g.v.Reject {
					g.v.Out, g.v.Care = nil, nil
				}
				cases = append(cases, g)
			}
		}
		runUnit(r, u, cases, true, true, 0)
	}
}

// constCase decides a circuit whose argument is a compile-time constant: the promised outputs are the
// only ones provable, and a rejected argument may be refused when the circuit is built already.
func constCase(r *Run, f *core.Field, m core.Mode, label string, accept bool, fn func(api frontend.API) []frontend.Variable, want []core.El) {
	if r.Stop() {
		return
	}
	label += " " + m.String()
	full := func(api frontend.API, _ []frontend.Variable) []frontend.Variable {
		var out []frontend.Variable
		for _, v := range fn(api) {
			out = append(out, api.Add(v, 0))
		}
		return out
	}
	r.Evals.Add(1)
	r.Nontrivial.Add(1)
	u, err := newUnit(label, f, m, 0, full)
	if err != nil {
		if accept {
			r.Violate("define "+label, "the circuit cannot be built: "+err.Error(), label, func() bool {
				_, g := core.CompileGnark(f, m, 0, 0, full)
				return g != nil
			})
		}
		return
	}
	v := Verdict{Out: want, Reject: !accept}
	for range want {
		v.Care = append(v.Care, true)
	}
	ev := core.NewEvaluator(u.P)
	ev.Junk = 1
	x := core.NewExplorer(u.P)
	x.MaxStates = 200_000
	checkCase(r, u, ev, nil, label, nil, v, false)
	checkCase(r, u, ev, x, label, nil, v, false)
	r.States.Add(x.Res.States + 1)
	r.Transitions.Add(x.Res.Transitions + int64(len(u.P.Cons)))
}

func checkC19(r *Run) {
	type gd struct {
		name string
		n    int
		fn   func(g *gadget.IntGadget, in []frontend.Variable, l uint) []frontend.Variable
	}
	gds := []gd{
		{"Abs", 1, func(g *gadget.IntGadget, in []frontend.Variable, l uint) []frontend.Variable {
			a, p := g.Abs(in[0], l)
			return []frontend.Variable{a, p}
		}},
		{"IsPositive", 1, func(g *gadget.IntGadget, in []frontend.Variable, l uint) []frontend.Variable {
			return []frontend.Variable{g.IsPositive(in[0], l)}
		}},
		{"Max", 2, func(g *gadget.IntGadget, in []frontend.Variable, l uint) []frontend.Variable {
			return []frontend.Variable{g.Max(in[0], in[1], l)}
		}},
		{"Min", 2, func(g *gadget.IntGadget, in []frontend.Variable, l uint) []frontend.Variable {
			return []frontend.Variable{g.Min(in[0], in[1], l)}
		}},
		{"IsEq", 2, func(g *gadget.IntGadget, in []frontend.Variable, l uint) []frontend.Variable {
			return []frontend.Variable{g.IsEq(in[0], in[1])}
		}},
	}
	lens := []uint{1, 2, 3, 4, 5, 6, 8, 9, 12, 24, 53, 54, 64, 106, 128, 200, 220}
	full := uint(6)
	ws := []int{0, 1, 2, 3, 4, 5, 8, 11}
	if r.Thorough {
		full = 9
		ws = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
	}
	for ci, cv := range curves {
		f := fieldOf(cv)
		for wi, w := range ws {
			for li, l := range lens {
				for gi, g := range gds {
					if ci > 0 && !r.Thorough && (wi+li+gi)%3 != ci {
						continue
					}
					m := modes[(wi+li+gi+ci)%2]
					fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						return g.fn(gadget.New(api, uint(w), l+4), in, l)
					}
					u := buildUnit(r, fmt.Sprintf("%s length=%d width=%d %s/%s", g.name, l, w, m, cv), f, m, g.n, fn)
					if u == nil {
						continue
					}
					rp := 0
					if w > 0 && w <= 8 && li%4 == 0 {
						rp = 4
					}
					runUnit(r, u, intCases(f, g.name, l, w, full), true, true, rp)
				}
			}
		}
	}
	// constant operands, the same operand twice, and every gadget after every other in one circuit
	f := fieldOf(ecc.BN254)
	for wi, w := range []int{0, 3, 4} {
		for li, l := range []uint{1, 3, 4, 9} {
			for gi, g := range gds {
				cs := intCases(f, g.name, l, w, 3)
				for ci, c := range cs {
					if c.v.Opt {
						continue
					}
					for pos := 0; pos <= g.n; pos++ {
						// pos: the operand that is constant; g.n: all of them
						if g.n == 1 && pos == 0 || !r.Thorough && (ci+pos)%3 != (wi+li)%3 && c.nt {
							continue
						}
						if pos == g.n {
							constCase(r, f, modes[(ci+wi)%2], fmt.Sprintf("%s of constants, length=%d width=%d %s", g.name, l, w, c.name), !c.v.Reject, func(api frontend.API) []frontend.Variable {
								in := []frontend.Variable{}
								for _, e := range c.in {
									in = append(in, f.ToBig(e))
								}
								return g.fn(gadget.New(api, uint(w), l+4), in, l)
							}, c.v.Out)
							continue
						}
						if ci%4 != 0 && !r.Thorough {
							continue
						}
						fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
							args := []frontend.Variable{f.ToBig(c.in[pos]), in[0]}
							if pos == 1 {
								args[0], args[1] = args[1], args[0]
							}
							return g.fn(gadget.New(api, uint(w), l+4), args, l)
						}
						u := buildUnit(r, fmt.Sprintf("%s operand %d constant %v length=%d width=%d %s", g.name, pos, f.ToBig(c.in[pos]), l, w, modes[ci%2]), f, modes[ci%2], 1, fn)
						one := c
						one.in = []core.El{c.in[1-pos]}
						runUnit(r, u, []gcase{one}, true, true, 0)
					}
				}
				if g.n == 2 {
					fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						return g.fn(gadget.New(api, uint(w), l+4), []frontend.Variable{in[0], in[0]}, l)
					}
					u := buildUnit(r, fmt.Sprintf("%s of one operand twice length=%d width=%d", g.name, l, w), f, modes[gi%2], 1, fn)
					var eq []gcase
					for _, v := range []int64{0, 1, -1, 5, 1000} {
						e := f.FromInt(v)
						out := e
						if g.name == "IsEq" {
							out = f.One
						}
						eq = append(eq, gcase{name: fmt.Sprint("twice ", v), in: []core.El{e}, nt: true, v: Verdict{Out: []core.El{out}, Care: []bool{true}}})
					}
					runUnit(r, u, eq, true, true, 1)
				}
				for hi, h := range gds {
					ds := intCases(f, h.name, l, w, 2)
					fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						gg := gadget.New(api, uint(w), l+4)
						a := g.fn(gg, in[:g.n], l)
						return append(a, h.fn(gg, in[g.n:], l)...)
					}
					u := buildUnit(r, fmt.Sprintf("%s and %s length=%d width=%d", g.name, h.name, l, w), f, modes[(gi+hi)%2], g.n+h.n, fn)
					var both []gcase
					for i := 0; i < len(cs); i++ {
						a := cs[i]
						for j := (i * 3) % 7; j < len(ds); j += 7 {
							b := ds[j]
							if a.v.Opt || b.v.Opt || len(both) > 60 && !r.Thorough && (i+j)%5 != 0 {
								continue
							}
							c := gcase{name: a.name + " and " + b.name, nt: true, in: append(append([]core.El{}, a.in...), b.in...)}
							if a.v.Reject || b.v.Reject {
								c.v.Reject = true
							} else {
								c.v.Out = append(append([]core.El{}, a.v.Out...), b.v.Out...)
								c.v.Care = append(append([]bool{}, a.v.Care...), b.v.Care...)
							}
							both = append(both, c)
						}
					}
					runUnit(r, u, thinG(both, 1+len(both)/200), true, true, 0)
				}
			}
		}
	}
}

func thinG(c []gcase, k int) []gcase {
	var out []gcase
	for i := 0; i < len(c); i += k {
		out = append(out, c[i])
	}
	return out
}

func intCases(f *core.Field, name string, l uint, w int, full uint) []gcase {
	pad := uint(l + 16)
	if w > 0 {
		pad = (l + uint(w) - 1) / uint(w) * uint(w)
	}
	one := big.NewInt(1)
	pow := func(k uint) *big.Int { return new(big.Int).Lsh(one, k) }
	var diffs []*big.Int
	seen := map[string]bool{}
	put := func(v *big.Int) {
		for _, x := range []*big.Int{v, new(big.Int).Neg(v)} {
			if !seen[x.String()] {
				seen[x.String()] = true
				diffs = append(diffs, x)
			}
		}
	}
	if l <= full {
		for i := int64(0); i <= 1<<(l+1); i++ {
			put(big.NewInt(i))
		}
	}
	for _, k := range []uint{0, 1, l / 2, l - 1, l, l + 1, pad - 1, pad, pad + 1, pad + 2, 200} {
		for d := int64(-2); d <= 2; d++ {
			put(new(big.Int).Add(pow(k), big.NewInt(d)))
		}
	}
	put(new(big.Int))
	put(new(big.Int).Rsh(f.Mod, 1))
	bases := []*big.Int{new(big.Int), one, big.NewInt(-1), pow(l), new(big.Int).Neg(pow(l)), new(big.Int).Sub(pow(l), one), pow(l / 2)}
	el := func(v *big.Int) core.El { return f.FromBig(new(big.Int).Mod(v, f.Mod)) }
	b2i := func(b bool) core.El {
		if b {
			return f.One
		}
		return core.El{}
	}
	var out []gcase
	mk := func(d *big.Int, in []core.El, outs ...core.El) {
		g := gcase{name: fmt.Sprintf("difference %v", d), in: in, nt: d.Sign() != 0}
		care := make([]bool, len(outs))
		for i := range care {
			care[i] = true
		}
		mag := new(big.Int).Abs(d)
		g.v = Verdict{Out: outs, Care: care}
		if name != "IsEq" {
			switch {
			case mag.BitLen() <= int(l):
			case mag.Cmp(pow(pad)) > 0:
				g.v = Verdict{Reject: true}
			default:
				g.v.Opt = true
			}
		}
		out = append(out, g)
	}
	for _, d := range diffs {
		switch name {
		case "Abs":
			mk(d, []core.El{el(d)}, el(new(big.Int).Abs(d)), b2i(d.Sign() >= 0))
		case "IsPositive":
			mk(d, []core.El{el(d)}, b2i(d.Sign() >= 0))
		default:
			for bi, b := range bases {
				if bi > 2 && l <= full && d.BitLen() > 2 && d.Bit(0) == 1 {
					continue
				}
				a := new(big.Int).Add(b, d)
				in := []core.El{el(a), el(b)}
				switch name {
				case "Max":
					if d.Sign() >= 0 {
						mk(d, in, el(a))
					} else {
						mk(d, in, el(b))
					}
				case "Min":
					if d.Sign() >= 0 {
						mk(d, in, el(b))
					} else {
						mk(d, in, el(a))
					}
				case "IsEq":
					mk(d, in, b2i(d.Sign() == 0))
				}
			}
		}
	}
	return out
}

func checkC20(r *Run) {
	f := fieldOf(ecc.BN254)
	sizes := []uint{1, 2, 3, 5, 8, 12, 16, 31, 32, 33, 64}
	ws := []uint{0, 1, 2, 3, 4, 5, 8}
	maxQ := 2
	if r.Thorough {
		sizes = nil
		for i := uint(1); i <= 70; i++ {
			sizes = append(sizes, i)
		}
		ws = append(ws, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17)
		maxQ = 3
	}
	for si, size := range sizes {
		for wi, w := range ws {
			// constant exponents, next to one that is not
			for ei, e := range []int64{0, 1, int64(size) - 1, int64(size), int64(size) + 1, 2 * int64(size), 63, 64, 65, 100, -1, -int64(size)} {
				if !r.Thorough && (si+wi+ei)%2 != 0 && ei > 3 {
					continue
				}
				ok := e >= 0 && e < int64(size)
				var want []core.El
				if ok {
					want = []core.El{f.FromBig(new(big.Int).Lsh(big.NewInt(1), uint(e)))}
				}
				for _, alone := range []bool{true, false} {
					if !alone && ok {
						want = append(want, f.One)
					}
					constCase(r, f, modes[(si+wi+ei)%2], fmt.Sprintf("lookup of the constant %d in table of %d width=%d alone=%v", e, size, w, alone), ok, func(api frontend.API) []frontend.Variable {
						g := gadget.New(api, w, size)
						out := []frontend.Variable{g.QueryPowerOf2(e)}
						if !alone {
							out = append(out, g.QueryPowerOf2(0))
						}
						return out
					}, want)
				}
			}
			for q := 0; q <= maxQ; q++ {
				if q == 3 && size > 8 {
					continue
				}
				m := modes[(si+wi+q)%2]
				fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					g := gadget.New(api, w, size)
					var out []frontend.Variable
					for i := 0; i < q; i++ {
						out = append(out, g.QueryPowerOf2(in[i]))
					}
					if q == 0 {
						// the gadget is used, but no power is looked up
						out = append(out, g.IsEq(in[0], 3))
					}
					return out
				}
				u := buildUnit(r, fmt.Sprintf("%d lookups in table of %d width=%d %s", q, size, w, m), f, m, max(q, 1), fn)
				if u == nil {
					continue
				}
				if q == 0 {
					cases := []gcase{
						{name: "no lookup(3)", in: []core.El{f.FromUint(3)}, v: Verdict{Out: []core.El{f.One}, Care: []bool{true}}},
						{name: "no lookup(4)", in: []core.El{f.FromUint(4)}, v: Verdict{Out: []core.El{{}}, Care: []bool{true}}}}
					runUnit(r, u, cases, true, true, 2)
					continue
				}
				var menu []int64
				for e := int64(0); e <= int64(size)+4; e++ {
					if q > 1 && size > 12 && e > 2 && e < int64(size)-2 {
						continue
					}
					menu = append(menu, e)
				}
				menu = append(menu, -1, -2, -int64(size), 2*int64(size), 100, 1000)
				honest := func(idx []int64) gcase {
					g := gcase{name: fmt.Sprint("exponents ", idx), nt: len(idx) > 1}
					for _, e := range idx {
						g.in = append(g.in, f.FromInt(e))
						if e < 0 || e >= int64(size) {
							g.v.Reject, g.nt = true, true
						} else {
							g.v.Out = append(g.v.Out, f.FromBig(new(big.Int).Lsh(big.NewInt(1), uint(e))))
							g.v.Care = append(g.v.Care, true)
						}
					}
					if g.v.Reject {
						g.v.Out, g.v.Care = nil, nil
					}
					return g
				}
				var cases []gcase
				for _, a := range menu {
					if q == 1 {
						cases = append(cases, honest([]int64{a}))
						continue
					}
					for _, b := range menu {
						if q == 2 {
							cases = append(cases, honest([]int64{a, b}))
							continue
						}
						for _, c := range menu {
							cases = append(cases, honest([]int64{a, b, c}))
						}
					}
				}
				rp := 0
				if w > 0 && w <= 8 {
					rp = 5
				}
				runUnit(r, u, cases, true, true, rp)
			}
		}
	}
	tablesTogether(r)
	// many lookups: each of them counts
	ns := []int{3, 4, 5, 8, 15, 16, 17, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1100}
	if r.Thorough {
		ns = append(ns, 512, 1024, 2048, 4100, 5000, 10100, 16400)
	} else {
		ns = append(ns, 5000)
	}
	for ni, n := range ns {
		n := n
		for si, size := range []uint{4, 12, 33, 64} {
			if n > 300 && si != ni%4 && !r.Thorough {
				continue
			}
			w := []uint{0, 4, 8}[(ni+si)%3]
			m := modes[(ni+si/2)%2]
			e := func(i int) int64 { return int64(i*5+n) % int64(size) }
			fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				g := gadget.New(api, w, size)
				var out []frontend.Variable
				for i := 0; i < n; i++ {
					out = append(out, g.QueryPowerOf2(in[i]))
				}
				return out
			}
			u := buildUnit(r, fmt.Sprintf("%d lookups in table of %d width=%d %s", n, size, w, m), f, m, n, fn)
			if u == nil {
				continue
			}
			at := []int{-1}
			for i := 0; i < n; i++ {
				near := i < 3 || i > n-4 || i&(i-1) == 0 || i&(i+1) == 0 || i%1000 == 0 || i%100 == 0 && n < 2000
				if n <= 300 || near {
					at = append(at, i)
				}
			}
			var cases []gcase
			for k, bad := range at {
				g := gcase{name: fmt.Sprintf("exponent %d of %d is outside", bad+1, n), nt: true}
				for i := 0; i < n; i++ {
					x := e(i)
					if i == bad {
						x = []int64{int64(size), -1, int64(size) + 1, 2 * int64(size)}[k%4]
						g.v.Reject = true
					}
					g.in = append(g.in, f.FromInt(x))
					if bad < 0 {
						g.v.Out = append(g.v.Out, f.FromBig(new(big.Int).Lsh(big.NewInt(1), uint(x))))
						g.v.Care = append(g.v.Care, true)
					}
				}
				cases = append(cases, g)
			}
			runUnit(r, u, cases, true, true, 1)
		}
	}
}
