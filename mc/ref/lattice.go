package ref

import "sort"

// Lattice returns boundary encodings of a format: all combinations of boundary exponents, boundary
// significands and both signs. level 0 is small, 1 medium, 2 large, 3 very large.
func (f Fmt) Lattice(level int) []uint64 {
	set := map[uint64]struct{}{}
	top := f.expMask()
	b := uint64(f.Bias())
	M := uint64(f.M)
	exps := []uint64{0, 1, b - 1, b, b + 1, top - 1, top}
	if level >= 1 {
		exps = append(exps, 2, b-2, b+2, b-M, b+M, b+M+1, top-2, M, M+1, b/2, b+b/2)
	}
	if level >= 2 {
		exps = append(exps, 3, b-M-1, b-M-2, b-M-3, b+M-1, b+M+2, b+M+3, M-1, M+2, M+3, b/2-1, b/2+1, (b-M)/2, (b-M)/2+1, b-3, b+3, top-M, top-3, 2*M)
	}
	if level >= 3 {
		for e := uint64(0); e <= top; e += 1 + top/64 {
			exps = append(exps, e)
		}
	}
	mm := f.manMask()
	mans := []uint64{0, 1, 1 << (M - 1), mm}
	if level >= 1 {
		mans = append(mans, 2, mm-1, 1<<(M-1)-1, 1<<(M-1)+1, 0x5555555555555555&mm)
	}
	if level >= 2 {
		mans = append(mans, 3, 1<<(M-1)|1<<(M-2), 1<<(M-2), 1<<(M/2), 1<<(M/2)-1, 0xAAAAAAAAAAAAAAAA&mm, 0x6A09E667F3BCC&mm)
	}
	if level >= 3 {
		for i := uint64(2); i < M-1; i += 3 {
			mans = append(mans, 1<<i, mm>>i, mm&^(1<<i-1))
		}
	}
	for _, e := range exps {
		if e > top {
			continue
		}
		for _, m := range mans {
			if e == top && m != 0 && m != 1 && m != 1<<(M-1) && m != mm {
				continue
			}
			for s := uint64(0); s < 2; s++ {
				set[s<<(f.E+f.M)|e<<f.M|m] = struct{}{}
			}
		}
	}
	out := make([]uint64, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// All returns every encoding.
func (f Fmt) All() []uint64 {
	out := make([]uint64, f.Count())
	for i := range out {
		out[i] = uint64(i)
	}
	return out
}
