package checks

import (
	"zkmc/ref"
)

// Case is one operand tuple.
type Case struct {
	A    [2]uint64
	Cond uint64
}

// caseSet deduplicates operand tuples.
type caseSet struct {
	seen map[Case]struct{}
	list []Case
}

func newCaseSet() *caseSet { return &caseSet{seen: map[Case]struct{}{}} }
func (s *caseSet) add(a, b uint64) {
	c := Case{A: [2]uint64{a, b}}
	if _, ok := s.seen[c]; ok {
		return
	}
	s.seen[c] = struct{}{}
	s.list = append(s.list, c)
}

// allPairs is the complete operand space of a small format.
func allPairs(f ref.Fmt) []Case {
	n := f.Count()
	out := make([]Case, 0, n*n)
	for a := uint64(0); a < n; a++ {
		for b := uint64(0); b < n; b++ {
			out = append(out, Case{A: [2]uint64{a, b}})
		}
	}
	return out
}

func allUnary(f ref.Fmt) []Case {
	n := f.Count()
	out := make([]Case, 0, n)
	for a := uint64(0); a < n; a++ {
		out = append(out, Case{A: [2]uint64{a, 0}})
	}
	return out
}

func product(l, m []uint64) []Case {
	out := make([]Case, 0, len(l)*len(m))
	for _, a := range l {
		for _, b := range m {
			out = append(out, Case{A: [2]uint64{a, b}})
		}
	}
	return out
}

func unaryOf(l []uint64) []Case {
	out := make([]Case, 0, len(l))
	for _, a := range l {
		out = append(out, Case{A: [2]uint64{a, 0}})
	}
	return out
}

// mantissas is a menu of trailing significands that exercise carries, ties and sticky bits.
func mantissas(f ref.Fmt, level int) []uint64 {
	mm := uint64(1)<<f.M - 1
	s := map[uint64]bool{}
	var out []uint64
	put := func(v uint64) {
		v &= mm
		if !s[v] {
			s[v] = true
			out = append(out, v)
		}
	}
	for _, v := range []uint64{0, 1, mm, 1 << (f.M - 1), mm - 1, 2, 1<<(f.M-1) - 1, 1<<(f.M-1) + 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 3} {
		put(v)
	}
	if level >= 1 {
		for _, v := range []uint64{0x921FB54442D18 >> (52 - min(f.M, 52)), 0x6A09E667F3BCD >> (52 - min(f.M, 52)), 1 << (f.M - 2), 3 << (f.M - 2), 1 << (f.M / 2), 1<<(f.M/2) - 1, mm - 2, mm - 3, 5, 7} {
			put(v)
		}
	}
	if level >= 2 {
		for k := uint(2); k < f.M; k++ {
			put(1 << k)
			put(mm >> k)
			put(mm &^ (1<<k - 1))
		}
	}
	return out
}

func (s *caseSet) signs(f ref.Fmt, a, b uint64) {
	n := uint64(1) << (f.E + f.M)
	s.add(a, b)
	s.add(a, b|n)
	s.add(a|n, b)
	s.add(a|n, b|n)
}

// addCases: all alignment distances times significand menus, plus massive and partial cancellation.
func addCases(f ref.Fmt, level int) []Case {
	s := newCaseSet()
	top := int64(1)<<f.E - 1
	b := f.Bias()
	M := int64(f.M)
	n := uint64(1) << (f.E + f.M)
	enc := func(e int64, m uint64) uint64 { return uint64(e)<<f.M | m }
	exps := []int64{0, 1, 2, M + 2, b, top - 1, top - 2}
	ms := mantissas(f, 0)
	if level >= 1 {
		exps = append(exps, 3, M, M+1, M+3, M+4, b+1, b-1, b+M+2, top-3, top/2+5)
		ms = mantissas(f, 1)
	}
	for _, ex := range exps {
		for d := int64(0); d <= M+6; d++ {
			ey := ex - d
			if ey < 0 {
				break
			}
			for i, mx := range ms {
				for j, my := range ms {
					if level == 0 && d > 4 && d < M-1 && (i+j+int(d))%3 != 0 {
						continue
					}
					x, y := enc(ex, mx), enc(ey, my)
					s.add(x, y)
					s.add(x, y|n)
					if (i+j)%4 == 0 {
						s.add(y|n, x)
						s.add(y|n, x|n)
					}
				}
			}
		}
	}
	// cancellation down to a few units in the last place, for many exponents
	step := int64(1)
	if f.E > 8 {
		step = 13
	}
	for e := int64(0); e < top; e += step {
		for _, m := range ms {
			x := enc(e, m)
			for k := uint64(0); k < 4; k++ {
				if x >= k {
					s.add(x, (x-k)|n)
				}
				if x+k < f.Inf(0) {
					s.add(x|n, x+k)
				}
			}
			s.add(x, x)
		}
	}
	for e := top - 4; e < top; e++ {
		for _, m := range ms {
			s.add(enc(e, m), enc(e, m)|n)
			s.add(enc(e, m)|n, enc(e, m))
		}
	}
	// every single-bit pattern against one and against its neighbours
	for k := uint(0); k < f.M; k++ {
		for d := int64(0); d <= M+4; d++ {
			s.add(enc(b, 1<<k), enc(b-d, 0)|n)
			s.add(enc(b, 0), enc(b-d, 1<<k)|n)
			s.add(enc(b, 0), enc(b-d, 1<<k))
		}
	}
	l := f.Lattice(0)
	if level >= 1 {
		l = f.Lattice(1)
	}
	for _, c := range product(l, l) {
		s.add(c.A[0], c.A[1])
	}
	return s.list
}

// scaleCases: pairs for multiplication (div=false) or division with every result exponent of interest.
func scaleCases(f ref.Fmt, level int, div bool) []Case {
	s := newCaseSet()
	top := int64(1)<<f.E - 1
	b := f.Bias()
	M := int64(f.M)
	enc := func(e int64, m uint64) uint64 { return uint64(e)<<f.M | m }
	ms := mantissas(f, 0)
	if level >= 1 {
		ms = mantissas(f, 1)
	}
	var targets []int64 // biased result exponents
	for t := -(M + 5); t <= 4; t++ {
		targets = append(targets, t)
	}
	for t := top - 4; t <= top+3; t++ {
		targets = append(targets, t)
	}
	targets = append(targets, b-1, b, b+1)
	for _, t := range targets {
		var splits [][2]int64
		if div {
			// ex - ey + b = t
			for _, ey := range []int64{1, b, top - 1, b + 3, 2} {
				splits = append(splits, [2]int64{t - b + ey, ey})
			}
		} else {
			for _, ex := range []int64{1, b, top - 1, b / 2, 2} {
				splits = append(splits, [2]int64{ex, t + b - ex})
			}
		}
		cnt := 0
		for _, sp := range splits {
			if sp[0] < 1 || sp[1] < 1 || sp[0] >= top || sp[1] >= top {
				continue
			}
			cnt++
			if cnt > 2+level {
				break
			}
			for i, mx := range ms {
				for j, my := range ms {
					x, y := enc(sp[0], mx), enc(sp[1], my)
					if (i+j)%3 == 0 {
						s.signs(f, x, y)
					} else {
						s.add(x, y)
					}
				}
			}
		}
	}
	// subnormal operands with every leading-zero count
	for k := uint(0); k < f.M; k++ {
		for _, low := range []uint64{0, 1, 1<<k - 1} {
			x := uint64(1)<<k | low&(1<<k-1)
			for _, e := range []int64{0, 1, b - 1, b, b + 1, b + int64(k), b + M - int64(k), b + M, top - 1} {
				if e >= top {
					continue
				}
				for _, m := range mantissas(f, 0)[:6] {
					s.add(x, enc(e, m))
					s.add(enc(e, m), x)
				}
			}
		}
	}
	// operands around one: double rounding and ties
	all := mantissas(f, 2)
	for _, mx := range all {
		for _, my := range ms {
			s.add(enc(b, mx), enc(b, my))
			s.add(enc(b, my), enc(b, mx))
			// exact results and results just off a tie in the subnormal range
			if div {
				s.add(enc(1, mx), enc(b+1, my))
				s.add(enc(1, mx), enc(b+M/2, my))
			} else {
				s.add(enc(1, mx), enc(b-1, my))
				s.add(enc(M/2, mx), enc(b-M/2, my))
			}
		}
	}
	l := f.Lattice(0)
	if level >= 1 {
		l = f.Lattice(1)
	}
	for _, c := range product(l, l) {
		s.add(c.A[0], c.A[1])
	}
	return s.list
}

// unaryCases: every exponent times a significand menu, both signs, squares and their neighbours.
func unaryCases(f ref.Fmt, level int) []Case {
	s := newCaseSet()
	top := int64(1)<<f.E - 1
	b := f.Bias()
	M := int64(f.M)
	n := uint64(1) << (f.E + f.M)
	enc := func(e int64, m uint64) uint64 { return uint64(e)<<f.M | m }
	ms := mantissas(f, 1)
	all := mantissas(f, 2)
	step := int64(1)
	if f.E > 8 && level == 0 {
		step = 5
	}
	for e := int64(0); e <= top; e += step {
		for _, m := range ms {
			s.add(enc(e, m), 0)
			s.add(enc(e, m)|n, 0)
		}
	}
	for _, e := range []int64{0, 1, 2, top - 1, top - 2, top} {
		for _, m := range all {
			s.add(enc(e, m), 0)
			s.add(enc(e, m)|n, 0)
		}
	}
	for e := b - 4; e <= b+M+4; e++ {
		for _, m := range all {
			s.add(enc(e, m), 0)
			s.add(enc(e, m)|n, 0)
		}
		// around every integer boundary of this binade
		if d := b + M - e; d > 0 && d <= M {
			for _, m := range []uint64{0, 1, 1 << uint(d-1), 1<<uint(d) - 1, 1<<uint(d-1) - 1, 1<<uint(d-1) + 1} {
				for _, hi := range []uint64{0, 1, 2, 3, 1<<uint(M-d) - 1} {
					if d < M || hi == 0 {
						v := (hi<<uint(d) | m) & (1<<f.M - 1)
						s.add(enc(e, v), 0)
						s.add(enc(e, v)|n, 0)
					}
				}
			}
		}
	}
	// perfect squares and neighbours
	for i := uint64(1); i < 200; i++ {
		for _, k := range []uint64{i, 1<<(f.M/2) - i, 1<<(f.M/2) + i, 3<<(f.M/2-1) + i} {
			q := f.Round(0, bigU(k*k), 0, false)
			for d := uint64(0); d < 3; d++ {
				s.add(q+d, 0)
				if q > d {
					s.add(q-d, 0)
				}
			}
			if e := int64(q>>f.M) - 2*M; e > 0 {
				s.add(q-uint64(2*M)<<f.M, 0)
			}
		}
	}
	for _, v := range f.Lattice(level + 1) {
		s.add(v, 0)
	}
	return s.list
}

// cmpCases: neighbours, equal magnitudes and lattice pairs.
func cmpCases(f ref.Fmt, level int) []Case {
	s := newCaseSet()
	n := uint64(1) << (f.E + f.M)
	l := f.Lattice(level)
	for _, c := range product(l, l) {
		s.add(c.A[0], c.A[1])
	}
	for _, a := range f.Lattice(level + 1) {
		for _, d := range []uint64{0, 1, 2, 3, 1 << (f.M - 1), 1 << f.M, 1<<f.M - 1, 1<<f.M + 1, 5 << f.M} {
			m := f.AbsB(a)
			for _, b := range []uint64{m + d, m - d} {
				if b < n {
					s.add(a, b)
					s.add(a, b|n)
					s.add(b, a)
					s.add(b|n, a)
				}
			}
		}
	}
	// every single-bit difference
	for _, a := range f.Lattice(0) {
		for k := uint(0); k < f.Bits(); k++ {
			s.add(a, a^1<<k)
			s.add(a^1<<k, a)
		}
	}
	return s.list
}
