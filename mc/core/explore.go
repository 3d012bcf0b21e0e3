package core

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
)

// Explorer enumerates every assignment a prover may choose for the hinted wires of a program.
//
// A state is a partial assignment; a transition gives one more wire a value out of the *exact*
// candidate set computed from the constraints that mention it and no other open wire (or mention only
// open wires whose domains are bounded, in which case the set is a superset; superfluous candidates
// are refuted when the constraint becomes fully known). Wires are limbs of a range decomposition are
// eliminated exactly beforehand: a contiguous radix system exists iff the recomposed value lies in an
// interval.
type Explorer struct {
	P       *Program
	nodes   []Node
	cons    []Constraint
	users   [][]int32
	nodeCon [][]int32
	vars    []int32 // relevant open wires in creation order
	isVar   []bool
	near    map[int32][]int32
	dom     map[int32]domain
	limbs   int

	val   []El
	known []bool
	trail []int32
	queue []int32

	epoch int32
	memoE []int32
	memo  []*poly

	expect     []El
	care       []bool
	reject     bool // no satisfying assignment is allowed at all
	anyOut     bool
	honest     []El
	Res        Result
	MaxStates  int64
	startState int64
	Capped     bool
	MaxCand    int64
	forged     map[int32]El
	Debug      bool
	invs       map[El]El
	seen       map[[2]uint64]bool
	rel        []bool    // nodes that constraints or outputs depend on
	multi      [][]int32 // per node: constraints over several nodes that mention it
}

// inv is a memoised inversion (the same few coefficients recur).
func (x *Explorer) inv(a El) El {
	if v, ok := x.invs[a]; ok {
		return v
	}
	v := x.P.F.Inv(a)
	if len(x.invs) > 1<<14 || x.invs == nil {
		x.invs = map[El]El{}
	}
	x.invs[a] = v
	return v
}

type Result struct {
	States, Transitions, Leaves, Runs int64
	Merged                            int64 // states found to be equal to explored ones
	CappedRuns                        int64
	MaxDepth                          int64
	Outcomes                          int64
}

type domain struct {
	c El // c*var in [0,R]
	R *big.Int
}

type mono struct {
	a, b int32 // b == -1: linear
	c    El
}
type poly struct {
	ok bool
	c0 El
	m  []mono
}

func NewExplorer(p *Program) *Explorer {
	x := &Explorer{P: p, MaxStates: 2_000_000, MaxCand: 1 << 13}
	x.nodes = append([]Node{}, p.Nodes...)
	x.cons = append([]Constraint{}, p.Cons...)
	x.eliminateLimbs()
	x.index()
	return x
}

func (x *Explorer) pushNode(n Node) int32 {
	x.nodes = append(x.nodes, n)
	return int32(len(x.nodes) - 1)
}

type term struct {
	c El
	n int32
}

// flatten writes a node as a linear combination of leaf nodes.
func (x *Explorer) flatten(n int32, c El, out map[int32]El, c0 *El, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	f := x.P.F
	nd := &x.nodes[n]
	switch nd.Op {
	case OConst:
		*c0 = f.Add(*c0, f.Mul(c, nd.C))
		return true
	case OAdd:
		return x.flatten(nd.A, c, out, c0, budget) && x.flatten(nd.B, c, out, c0, budget)
	case OSub:
		return x.flatten(nd.A, c, out, c0, budget) && x.flatten(nd.B, f.Neg(c), out, c0, budget)
	case OMul:
		if x.nodes[nd.B].Op == OConst {
			return x.flatten(nd.A, f.Mul(c, x.nodes[nd.B].C), out, c0, budget)
		}
		if x.nodes[nd.A].Op == OConst {
			return x.flatten(nd.B, f.Mul(c, x.nodes[nd.A].C), out, c0, budget)
		}
	}
	out[n] = f.Add(out[n], c)
	return true
}

func (x *Explorer) buildUsers() [][]int32 {
	users := make([][]int32, len(x.nodes))
	for i := range x.nodes {
		n := &x.nodes[i]
		switch n.Op {
		case OAdd, OSub, OMul, OCmp:
			users[n.A] = append(users[n.A], int32(i))
			if n.B != n.A {
				users[n.B] = append(users[n.B], int32(i))
			}
		case OIsZero, OInv, OBit:
			users[n.A] = append(users[n.A], int32(i))
		}
	}
	return users
}

func (c *Constraint) nodeList() []int32 {
	switch c.Kind {
	case CTable:
		return c.Nodes
	case CLeq:
		return []int32{c.Node, c.B}
	}
	return []int32{c.Node}
}

func (x *Explorer) eliminateLimbs() {
	f := x.P.F
	users := x.buildUsers()
	nodeCon := make([][]int32, len(x.nodes))
	for i := range x.cons {
		for _, n := range x.cons[i].nodeList() {
			nodeCon[n] = append(nodeCon[n], int32(i))
		}
	}
	isOut := map[int32]bool{}
	for _, o := range x.P.Outputs {
		isOut[o] = true
	}
	type limb struct {
		v      int32
		ranges []int32
	}
	groups := map[int32][]limb{}
	var order []int32
	for vi := range x.nodes {
		if x.nodes[vi].Op != OVar {
			continue
		}
		v := int32(vi)
		seen := map[int32]bool{v: true}
		stack := []int32{v}
		eq := int32(-1)
		var rng []int32
		good := true
		for len(stack) > 0 && good {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if isOut[n] || len(seen) > 400 {
				good = false
				break
			}
			for _, ci := range nodeCon[n] {
				switch x.cons[ci].Kind {
				case CEq0:
					if eq >= 0 && eq != ci {
						good = false
					}
					eq = ci
				case CRange:
					rng = append(rng, ci)
				default:
					good = false
				}
			}
			for _, u := range users[n] {
				un := &x.nodes[u]
				switch un.Op {
				case OAdd, OSub:
				case OMul:
					if x.nodes[un.A].Op != OConst && x.nodes[un.B].Op != OConst {
						good = false
					}
				default:
					good = false
				}
				if !seen[u] {
					seen[u] = true
					stack = append(stack, u)
				}
			}
		}
		if !good || eq < 0 || len(rng) == 0 {
			continue
		}
		if _, ok := groups[eq]; !ok {
			order = append(order, eq)
		}
		groups[eq] = append(groups[eq], limb{v, rng})
	}
	drop := map[int32]bool{}
	for _, eq := range order {
		ls := groups[eq]
		coef := map[int32]El{}
		var c0 El
		budget := 4000
		if !x.flatten(x.cons[eq].Node, f.One, coef, &c0, &budget) {
			continue
		}
		type lt struct {
			a *big.Int // coefficient after normalisation
			R *big.Int
			k El // coefficient of t
		}
		var lts []lt
		good := true
		dropR := []int32{}
		for _, l := range ls {
			k, ok := coef[l.v]
			if !ok || k.IsZero() {
				good = false
				break
			}
			// domain of the limb
			var ivs []ival
			for _, ri := range l.ranges {
				m := map[int32]El{}
				var d0 El
				b := 50
				if !x.flatten(x.cons[ri].Node, f.One, m, &d0, &b) || len(m) != 1 || m[l.v].IsZero() || !d0.IsZero() {
					good = false
					break
				}
				ivs = append(ivs, ival{a: m[l.v], R: new(big.Int).Sub(x.cons[ri].N, big.NewInt(1))})
				dropR = append(dropR, ri)
			}
			if !good {
				break
			}
			base, rs := x.intersect(ivs)
			if len(rs) != 1 || rs[0].lo.Sign() != 0 || !x.allUsed(ivs, base) {
				good = false
				break
			}
			// l = t / a_base
			lts = append(lts, lt{R: rs[0].hi, k: f.Mul(k, x.inv(ivs[base].a))})
		}
		if !good {
			continue
		}
		// choose the scale
		ok := false
		var d El
		var reach *big.Int
		for i := range lts {
			d = lts[i].k
			di := x.inv(d)
			okk := true
			for j := range lts {
				lts[j].a = f.Centered(f.Mul(lts[j].k, di))
				if lts[j].a.Sign() <= 0 || lts[j].a.BitLen() > f.Mod.BitLen() {
					okk = false
					break
				}
			}
			if !okk {
				continue
			}
			s := append([]lt{}, lts...)
			sort.SliceStable(s, func(i, j int) bool { return s[i].a.Cmp(s[j].a) < 0 })
			reach = new(big.Int)
			for _, l := range s {
				if l.a.Cmp(new(big.Int).Add(reach, big.NewInt(1))) > 0 {
					okk = false
					break
				}
				reach.Add(reach, new(big.Int).Mul(l.a, l.R))
			}
			if okk {
				ok = true
				break
			}
		}
		if !ok {
			continue
		}
		for _, ri := range dropR {
			drop[ri] = true
		}
		drop[eq] = true
		x.limbs += len(ls)
		if new(big.Int).Add(reach, big.NewInt(1)).Cmp(f.Mod) >= 0 {
			// the limbs reach every field element: no restriction is left
			continue
		}
		// rest = -(c0 + sum of non-limb terms)/d in [0, reach]
		s := f.Neg(x.inv(d))
		for _, l := range ls {
			delete(coef, l.v)
		}
		acc := x.pushNode(Node{Op: OConst, C: f.Mul(c0, s)})
		var keys []int32
		for n := range coef {
			keys = append(keys, n)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		for _, n := range keys {
			c := x.pushNode(Node{Op: OConst, C: f.Mul(coef[n], s)})
			m := x.pushNode(Node{Op: OMul, A: n, B: c})
			acc = x.pushNode(Node{Op: OAdd, A: m, B: acc})
		}
		N := new(big.Int).Add(reach, big.NewInt(1))
		x.cons = append(x.cons, Constraint{Kind: CRange, Node: acc, N: N, n: limbs(N), Label: "limbs"})
	}
	var cs []Constraint
	for i := range x.cons {
		if !drop[int32(i)] {
			cs = append(cs, x.cons[i])
		}
	}
	x.cons = cs
}

func (x *Explorer) index() {
	n := len(x.nodes)
	x.users = x.buildUsers()
	x.nodeCon = make([][]int32, n)
	mark := make([]bool, n)
	for i := range x.cons {
		for _, nd := range x.cons[i].nodeList() {
			x.nodeCon[nd] = append(x.nodeCon[nd], int32(i))
			mark[nd] = true
		}
	}
	for _, o := range x.P.Outputs {
		mark[o] = true
	}
	x.isVar = make([]bool, n)
	for i := n - 1; i >= 0; i-- {
		if !mark[i] {
			continue
		}
		nd := &x.nodes[i]
		switch nd.Op {
		case OAdd, OSub, OMul, OCmp:
			mark[nd.A], mark[nd.B] = true, true
		case OIsZero, OInv, OBit:
			mark[nd.A] = true
		case OVar:
			x.isVar[i] = true
		}
	}
	for i := 0; i < n; i++ {
		if x.isVar[i] {
			x.vars = append(x.vars, int32(i))
		}
	}
	x.rel = mark
	x.val = make([]El, n)
	x.known = make([]bool, n)
	x.memoE = make([]int32, n)
	x.memo = make([]*poly, n)
	x.near = map[int32][]int32{}
	x.dom = map[int32]domain{}
	f := x.P.F
	for i := range x.cons {
		c := &x.cons[i]
		if c.Kind != CRange && c.Kind != CBool {
			continue
		}
		m := map[int32]El{}
		var c0 El
		b := 50
		if !x.flatten(c.Node, f.One, m, &c0, &b) || len(m) != 1 || !c0.IsZero() {
			continue
		}
		for v, k := range m {
			if !x.isVar[v] || k.IsZero() {
				continue
			}
			R := big.NewInt(1)
			if c.Kind == CRange {
				R = new(big.Int).Sub(c.N, big.NewInt(1))
			}
			if old, ok := x.dom[v]; !ok || (k == f.One && old.c != f.One) || (k == old.c && R.Cmp(old.R) < 0) {
				x.dom[v] = domain{k, R}
			}
		}
	}
	for _, v := range x.vars {
		// constraints reachable from v through polynomial nodes, nearest first
		seen := map[int32]bool{v: true}
		q := []int32{v}
		cseen := map[int32]bool{}
		for h := 0; h < len(q) && h < 300; h++ {
			for _, ci := range x.nodeCon[q[h]] {
				if !cseen[ci] && len(x.near[v]) < 40 {
					cseen[ci] = true
					x.near[v] = append(x.near[v], ci)
				}
			}
			for _, u := range x.users[q[h]] {
				switch x.nodes[u].Op {
				case OAdd, OSub, OMul:
					if !seen[u] {
						seen[u] = true
						q = append(q, u)
					}
				}
			}
		}
	}
}

// ---- propagation ----

func (x *Explorer) setKnown(n int32, v El) {
	x.val[n] = v
	x.known[n] = true
	x.trail = append(x.trail, n)
	x.queue = append(x.queue, n)
}

func (x *Explorer) propagate() bool {
	f := x.P.F
	for len(x.queue) > 0 {
		n := x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		for _, ci := range x.nodeCon[n] {
			c := &x.cons[ci]
			all := true
			for _, m := range c.nodeListFast() {
				if !x.known[m] {
					all = false
				}
			}
			if all && c.Kind == CTable && len(c.Nodes) > 1 || all && c.Kind == CLeq || (c.Kind != CTable || len(c.Nodes) == 1) && c.Kind != CLeq {
				if !x.P.check(c, x.val) {
					x.queue = x.queue[:0]
					return false
				}
			}
		}
		for _, u := range x.users[n] {
			if x.known[u] {
				continue
			}
			nd := &x.nodes[u]
			switch nd.Op {
			case OAdd, OSub, OCmp:
				if x.known[nd.A] && x.known[nd.B] {
					x.setKnown(u, x.P.evalNode(nd, x.val))
				}
			case OMul:
				ka, kb := x.known[nd.A], x.known[nd.B]
				if ka && kb {
					x.setKnown(u, f.Mul(x.val[nd.A], x.val[nd.B]))
				} else if ka && x.val[nd.A].IsZero() || kb && x.val[nd.B].IsZero() {
					x.setKnown(u, El{})
				}
			default:
				x.setKnown(u, x.P.evalNode(nd, x.val))
			}
		}
	}
	return true
}

func (c *Constraint) nodeListFast() []int32 {
	if c.Kind == CTable {
		return c.Nodes
	}
	if c.Kind == CLeq {
		return []int32{c.Node, c.B}
	}
	return nil
}

func (x *Explorer) undo(mark int) {
	for len(x.trail) > mark {
		n := x.trail[len(x.trail)-1]
		x.trail = x.trail[:len(x.trail)-1]
		x.known[n] = false
	}
	x.queue = x.queue[:0]
}

// ---- partial polynomial forms ----

const maxMono = 10

func (x *Explorer) form(n int32) *poly {
	if x.known[n] {
		return &poly{ok: true, c0: x.val[n]}
	}
	if x.memoE[n] == x.epoch && x.memo[n] != nil {
		return x.memo[n]
	}
	p := x.form0(n)
	x.memoE[n] = x.epoch
	x.memo[n] = p
	return p
}

var opaque = &poly{}

func (x *Explorer) form0(n int32) *poly {
	f := x.P.F
	nd := &x.nodes[n]
	switch nd.Op {
	case OVar:
		return &poly{ok: true, m: []mono{{n, -1, f.One}}}
	case OAdd, OSub:
		a := x.form(nd.A)
		if !a.ok {
			return opaque
		}
		b := x.form(nd.B)
		if !b.ok {
			return opaque
		}
		r := &poly{ok: true}
		r.m = append(r.m, a.m...)
		if nd.Op == OAdd {
			r.c0 = f.Add(a.c0, b.c0)
		} else {
			r.c0 = f.Sub(a.c0, b.c0)
		}
		for _, t := range b.m {
			c := t.c
			if nd.Op == OSub {
				c = f.Neg(c)
			}
			r.addMono(f, t.a, t.b, c)
		}
		if len(r.m) > maxMono {
			return opaque
		}
		return r
	case OMul:
		a := x.form(nd.A)
		if !a.ok {
			return opaque
		}
		b := x.form(nd.B)
		if !b.ok {
			return opaque
		}
		if len(a.m) > 0 && len(b.m) > 0 {
			if len(a.m)*len(b.m) > maxMono {
				return opaque
			}
			for _, s := range a.m {
				for _, t := range b.m {
					if s.b >= 0 || t.b >= 0 {
						return opaque
					}
				}
			}
		}
		r := &poly{ok: true, c0: f.Mul(a.c0, b.c0)}
		for _, s := range a.m {
			r.addMono(f, s.a, s.b, f.Mul(s.c, b.c0))
		}
		for _, t := range b.m {
			r.addMono(f, t.a, t.b, f.Mul(t.c, a.c0))
		}
		for _, s := range a.m {
			for _, t := range b.m {
				u, v := s.a, t.a
				if u > v {
					u, v = v, u
				}
				r.addMono(f, u, v, f.Mul(s.c, t.c))
			}
		}
		if len(r.m) > maxMono {
			return opaque
		}
		return r
	}
	return opaque
}

func (p *poly) addMono(f *Field, a, b int32, c El) {
	if c.IsZero() {
		return
	}
	for i := range p.m {
		if p.m[i].a == a && p.m[i].b == b {
			// copy on write is not needed: r.m is always freshly appended
			p.m[i].c = f.Add(p.m[i].c, c)
			if p.m[i].c.IsZero() {
				p.m[i] = p.m[len(p.m)-1]
				p.m = p.m[:len(p.m)-1]
			}
			return
		}
	}
	p.m = append(p.m, mono{a, b, c})
}

// ---- interval arithmetic on one wire ----

// ival: q*w^2 + a*w + b in [0,R]
type ival struct {
	q, a, b El
	R       *big.Int
}
type rng struct{ lo, hi *big.Int }

var bigOne = big.NewInt(1)

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b))
}

// usable rewrites constraint j over the integer t that parametrises the wire by constraint base; a
// multiple of the constraint is used (which only weakens it) when that makes the coefficients small.
func (x *Explorer) usable(iv []ival, base int, j int) (al, be, qu, R *big.Int, ok bool) {
	for s := uint(0); s < 3; s++ {
		if al, be, qu, R, ok = x.usableBy(iv, base, j, s); ok {
			return
		}
	}
	return
}

func (x *Explorer) usableBy(iv []ival, base int, j int, s uint) (al, be, qu, R *big.Int, ok bool) {
	f := x.P.F
	inv := x.inv(iv[base].a)
	// w = (t - b)/a = inv*t - inv*b =: u*t + v
	u := inv
	v := f.Neg(f.Mul(inv, iv[base].b))
	c := iv[j]
	Q := f.Mul(c.q, f.Mul(u, u))
	A := f.Add(f.Mul(c.a, u), f.Mul(c.q, f.Mul(f.FromUint(2), f.Mul(u, v))))
	B := f.Add(f.Add(f.Mul(c.q, f.Mul(v, v)), f.Mul(c.a, v)), c.b)
	R = c.R
	if s > 0 {
		k := f.FromUint(1 << s)
		Q, A, B = f.Mul(Q, k), f.Mul(A, k), f.Mul(B, k)
		R = new(big.Int).Lsh(R, s)
	}
	al, qu = f.Centered(A), f.Centered(Q)
	be = f.ToBig(B)
	Rb := iv[base].R
	tot := new(big.Int).Mul(new(big.Int).Abs(al), Rb)
	tot.Add(tot, new(big.Int).Mul(new(big.Int).Abs(qu), new(big.Int).Mul(Rb, Rb)))
	tot.Add(tot, R)
	return al, be, qu, R, tot.Cmp(f.Mod) < 0
}

func (x *Explorer) allUsed(iv []ival, base int) bool {
	for j := range iv {
		if j != base {
			if _, _, _, _, ok := x.usableBy(iv, base, j, 0); !ok {
				return false
			}
		}
	}
	return true
}

// intersectBase returns the set of t in [0,R_base] compatible with all usable constraints.
func (x *Explorer) intersectBase(iv []ival, base int) []rng {
	f := x.P.F
	cur := []rng{{new(big.Int), iv[base].R}}
	for j := range iv {
		if j == base {
			continue
		}
		al, be, qu, R, ok := x.usable(iv, base, j)
		if !ok {
			continue
		}
		var next []rng
		for _, r := range cur {
			for k := -1; k <= 1; k++ {
				lo := new(big.Int).Sub(new(big.Int).Mul(big.NewInt(int64(k)), f.Mod), be)
				hi := new(big.Int).Add(lo, R)
				// qu t^2 + al t in [lo,hi]
				next = append(next, solveRange(qu, al, lo, hi, r)...)
			}
		}
		cur = next
		if len(cur) == 0 {
			break
		}
	}
	return cur
}

// solveRange returns {t in r : lo <= q t^2 + a t <= hi}.
func solveRange(q, a, lo, hi *big.Int, r rng) []rng {
	if q.Sign() == 0 {
		if a.Sign() == 0 {
			if lo.Sign() <= 0 && hi.Sign() >= 0 {
				return []rng{r}
			}
			return nil
		}
		l, h := lo, hi
		aa := a
		if a.Sign() < 0 {
			aa = new(big.Int).Neg(a)
			l, h = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
		}
		tl, th := ceilDiv(l, aa), floorDiv(h, aa)
		if tl.Cmp(r.lo) < 0 {
			tl = r.lo
		}
		if th.Cmp(r.hi) > 0 {
			th = r.hi
		}
		if tl.Cmp(th) > 0 {
			return nil
		}
		return []rng{{tl, th}}
	}
	eval := func(t *big.Int) *big.Int {
		v := new(big.Int).Mul(q, t)
		v.Add(v, a)
		return v.Mul(v, t)
	}
	// split at the vertex floor(-a/2q)
	den := new(big.Int).Lsh(q, 1)
	num := new(big.Int).Neg(a)
	if den.Sign() < 0 {
		den.Neg(den)
		num.Neg(num)
	}
	vx := floorDiv(num, den)
	var segs []rng
	if vx.Cmp(r.lo) >= 0 && vx.Cmp(r.hi) < 0 {
		segs = []rng{{r.lo, vx}, {new(big.Int).Add(vx, bigOne), r.hi}}
	} else {
		segs = []rng{r}
	}
	var out []rng
	for _, s := range segs {
		inc := eval(s.hi).Cmp(eval(s.lo)) >= 0
		// first t where value >= lo (inc) / <= hi (dec); last t where value <= hi / >= lo
		ge := func(t *big.Int) bool {
			if inc {
				return eval(t).Cmp(lo) >= 0
			}
			return eval(t).Cmp(hi) <= 0
		}
		le := func(t *big.Int) bool {
			if inc {
				return eval(t).Cmp(hi) <= 0
			}
			return eval(t).Cmp(lo) >= 0
		}
		if !ge(s.hi) || !le(s.lo) {
			continue
		}
		l, h := new(big.Int).Set(s.lo), new(big.Int).Set(s.hi)
		for l.Cmp(h) < 0 {
			m := new(big.Int).Add(l, h)
			m.Rsh(m, 1)
			if ge(m) {
				h = m
			} else {
				l = m.Add(m, bigOne)
			}
		}
		tl := l
		l, h = new(big.Int).Set(s.lo), new(big.Int).Set(s.hi)
		for l.Cmp(h) < 0 {
			m := new(big.Int).Add(l, h)
			m.Add(m, bigOne)
			m.Rsh(m, 1)
			if le(m) {
				l = m
			} else {
				h = m.Sub(m, bigOne)
			}
		}
		if tl.Cmp(l) <= 0 {
			out = append(out, rng{tl, l})
		}
	}
	return out
}

func count(rs []rng) *big.Int {
	n := new(big.Int)
	for _, r := range rs {
		n.Add(n, new(big.Int).Sub(r.hi, r.lo))
		n.Add(n, bigOne)
	}
	return n
}

// intersect picks the base giving the fewest candidates.
func (x *Explorer) intersect(iv []ival) (int, []rng) {
	best := -1
	var bestR []rng
	var bestN *big.Int
	idx := make([]int, 0, len(iv))
	for i := range iv {
		if iv[i].q.IsZero() && !iv[i].a.IsZero() {
			idx = append(idx, i)
		}
	}
	sort.SliceStable(idx, func(i, j int) bool { return iv[idx[i]].R.Cmp(iv[idx[j]].R) < 0 })
	for _, b := range idx {
		rs := x.intersectBase(iv, b)
		n := count(rs)
		if best < 0 || n.Cmp(bestN) < 0 {
			best, bestR, bestN = b, rs, n
		}
		if bestN.BitLen() <= 4 {
			break
		}
	}
	return best, bestR
}

// ---- candidates ----

type cands struct {
	kind  int // 0 list, 1 ranges, 2 unbounded
	list  []El
	iv    ival // w = (t - b)/a
	rs    []rng
	n     int64
	table bool
}

func (x *Explorer) candidates(w int32) cands {
	f := x.P.F
	x.epoch++
	var list []El
	haveList := false
	var ivs []ival
	better := func(l []El) {
		if !haveList || len(l) < len(list) {
			list, haveList = l, true
		}
	}
	for _, ci := range x.near[w] {
		c := &x.cons[ci]
		if c.Kind == CTable && len(c.Nodes) > 1 || c.Kind == CLeq || c.Kind == CNonZero {
			continue
		}
		if x.known[c.Node] {
			continue
		}
		p := x.form(c.Node)
		if !p.ok {
			continue
		}
		var q, a El
		own := true
		bad := false
		has := false
		for _, m := range p.m {
			switch {
			case m.a == w && m.b == -1:
				a, has = m.c, true
			case m.a == w && m.b == w:
				q, has = m.c, true
			case m.a == w || m.b == w || m.b >= 0:
				bad = true
			default:
				own = false
			}
		}
		if bad || !has {
			continue
		}
		if own {
			switch c.Kind {
			case CEq0:
				if q.IsZero() {
					better([]El{f.Neg(f.Mul(p.c0, x.inv(a)))})
				} else {
					better(x.quadRoots(q, a, p.c0))
				}
			case CBool:
				if q.IsZero() {
					ai := x.inv(a)
					better([]El{f.Neg(f.Mul(p.c0, ai)), f.Mul(f.Sub(f.One, p.c0), ai)})
				} else {
					better(append(x.quadRoots(q, a, p.c0), x.quadRoots(q, a, f.Sub(p.c0, f.One))...))
				}
			case CTable:
				if q.IsZero() {
					ai := x.inv(a)
					l := make([]El, 0, len(c.Table.Rows))
					for _, r := range c.Table.Rows {
						l = append(l, f.Mul(f.Sub(r[0], p.c0), ai))
					}
					better(l)
				}
			case CRange:
				ivs = append(ivs, ival{q, a, p.c0, new(big.Int).Sub(c.N, bigOne)})
			}
			if haveList && len(list) <= 1 {
				break
			}
			continue
		}
		if !q.IsZero() || (c.Kind != CEq0 && c.Kind != CRange) {
			continue
		}
		if iv, ok := x.relax(p, w, a, c); ok {
			ivs = append(ivs, iv)
		}
	}
	if haveList {
		// filter by own intervals
		if len(list) > 1 && len(ivs) > 0 {
			var l []El
		next:
			for _, e := range list {
				for i := range ivs {
					v := f.Add(f.Mul(f.Add(f.Mul(ivs[i].q, e), ivs[i].a), e), ivs[i].b)
					if f.ToBig(v).Cmp(ivs[i].R) > 0 {
						continue next
					}
				}
				l = append(l, e)
			}
			list = l
		}
		list = dedup(list)
		if int64(len(list)) <= 4 || len(ivs) == 0 {
			return cands{kind: 0, list: list, n: int64(len(list))}
		}
	}
	if len(ivs) > 0 {
		ivs = x.addLinear(ivs)
		b, rs := x.intersect(ivs)
		if b >= 0 {
			n := count(rs)
			nn := int64(1) << 60
			if n.BitLen() < 60 {
				nn = n.Int64()
			}
			if !haveList || nn < int64(len(list)) {
				return cands{kind: 1, iv: ivs[b], rs: rs, n: nn}
			}
		}
	}
	if haveList {
		return cands{kind: 0, list: list, n: int64(len(list))}
	}
	return cands{kind: 2, n: 1 << 61}
}

// addLinear adds the sum of two intervals whose squares cancel when no interval is linear.
func (x *Explorer) addLinear(ivs []ival) []ival {
	f := x.P.F
	for i := range ivs {
		for j := range ivs[:i] {
			a, b := ivs[i], ivs[j]
			R := new(big.Int).Add(a.R, b.R)
			if !a.q.IsZero() && f.Add(a.q, b.q).IsZero() && R.BitLen() < f.Mod.BitLen()-2 {
				return append(ivs, ival{a: f.Add(a.a, b.a), b: f.Add(a.b, b.b), R: R})
			}
		}
	}
	return ivs
}

func dedup(l []El) []El {
	out := l[:0:0]
	for i, e := range l {
		dup := false
		for j := 0; j < i && j < 128; j++ {
			if l[j] == e {
				dup = true
				break
			}
		}
		if !dup {
			out = append(out, e)
		}
	}
	return out
}

func (x *Explorer) quadRoots(q, a, c El) []El {
	f := x.P.F
	// discriminant
	d := f.Sub(f.Mul(a, a), f.Mul(f.FromUint(4), f.Mul(q, c)))
	s := new(big.Int).ModSqrt(f.ToBig(d), f.Mod)
	if s == nil {
		return nil
	}
	S := f.FromBig(s)
	i2 := x.inv(f.Mul(f.FromUint(2), q))
	return []El{f.Mul(f.Sub(S, a), i2), f.Mul(f.Sub(f.Neg(S), a), i2)}
}

// relax turns a linear constraint over w and other open wires with bounded domains into an interval.
func (x *Explorer) relax(p *poly, w int32, a El, c *Constraint) (ival, bool) {
	f := x.P.F
	R := new(big.Int)
	if c.Kind == CRange {
		R.Sub(c.N, bigOne)
	}
	type ot struct {
		k El
		R *big.Int
	}
	var os []ot
	for _, m := range p.m {
		if m.a == w {
			continue
		}
		d, ok := x.dom[m.a]
		if !ok {
			return ival{}, false
		}
		k := m.c
		if d.c != f.One {
			k = f.Mul(k, x.inv(d.c))
		}
		os = append(os, ot{k, d.R})
	}
	try := func(s El) (ival, bool) {
		lo, hi := new(big.Int), new(big.Int).Set(R)
		for _, o := range os {
			k := o.k
			if s != f.One {
				k = f.Mul(k, s)
			}
			ci := f.Centered(k)
			ci.Mul(ci, o.R)
			if ci.BitLen() > f.Mod.BitLen()-3 {
				return ival{}, false
			}
			if ci.Sign() > 0 {
				lo.Sub(lo, ci)
			} else {
				hi.Sub(hi, ci)
			}
		}
		W := new(big.Int).Sub(hi, lo)
		if W.BitLen() > f.Mod.BitLen()-2 {
			return ival{}, false
		}
		aa, bb := a, p.c0
		if s != f.One {
			aa, bb = f.Mul(a, s), f.Mul(p.c0, s)
		}
		return ival{a: aa, b: f.Sub(bb, f.FromBig(lo)), R: W}, true
	}
	best, ok := try(f.One)
	if c.Kind == CEq0 {
		for _, o := range os {
			if iv, k := try(x.inv(o.k)); k && (!ok || iv.R.Cmp(best.R) < 0) {
				best, ok = iv, true
			}
		}
		if iv, k := try(x.inv(a)); k && (!ok || iv.R.Cmp(best.R) < 0) {
			best, ok = iv, true
		}
	}
	return best, ok
}

// ---- search ----

// Explore enumerates all prover choices for the given inputs.
// expect gives the only allowed outputs (care masks outputs that do not matter); reject means no
// assignment at all may satisfy the constraints. honest, if given, is a satisfying trace used to
// check that the enumeration never loses a known-good assignment.
// It returns a forged assignment (wire -> value) or nil.
func (x *Explorer) Explore(in []El, expect []El, care []bool, reject bool, honest []El) (forged map[int32]El, capped bool) {
	x.Res.Runs++
	x.expect, x.care, x.reject = expect, care, reject
	x.honest = honest
	for i := range x.known {
		x.known[i] = false
	}
	x.trail = x.trail[:0]
	x.queue = x.queue[:0]
	x.forged = nil
	x.Capped = false
	x.startState = x.Res.States
	x.seen = map[[2]uint64]bool{}
	if x.P.Unsat != "" {
		return nil, false
	}
	okk := true
	for i := range x.nodes {
		n := &x.nodes[i]
		switch n.Op {
		case OConst:
			x.val[i], x.known[i] = n.C, true
		case OInput:
			x.val[i], x.known[i] = in[n.Aux], true
		case OVar:
		case OMul:
			ka, kb := x.known[n.A], x.known[n.B]
			if ka && kb {
				x.val[i], x.known[i] = x.P.F.Mul(x.val[n.A], x.val[n.B]), true
			} else if ka && x.val[n.A].IsZero() || kb && x.val[n.B].IsZero() {
				x.val[i], x.known[i] = El{}, true
			}
		case OAdd, OSub, OCmp:
			if x.known[n.A] && x.known[n.B] {
				x.val[i], x.known[i] = x.P.evalNode(n, x.val), true
			}
		default:
			if x.known[n.A] {
				x.val[i], x.known[i] = x.P.evalNode(n, x.val), true
			}
		}
	}
	for i := range x.cons {
		c := &x.cons[i]
		all := true
		for _, n := range c.nodeList() {
			all = all && x.known[n]
		}
		if all && !x.P.check(c, x.val) {
			okk = false
		}
	}
	x.Res.States++
	if okk {
		x.search(0, honest != nil)
	}
	if x.Capped {
		x.Res.CappedRuns++
	}
	return x.forged, x.Capped
}

func (x *Explorer) outcome() (all, match bool) {
	all, match = true, true
	for i, o := range x.P.Outputs {
		if x.care != nil && !x.care[i] {
			continue
		}
		if !x.known[o] {
			all = false
			continue
		}
		if x.expect != nil && x.val[o] != x.expect[i] {
			match = false
		}
	}
	return
}

func (x *Explorer) search(depth int64, onHonest bool) {
	if x.forged != nil || x.Capped && x.Res.States-x.startState > x.MaxStates {
		return
	}
	if depth > x.Res.MaxDepth {
		x.Res.MaxDepth = depth
	}
	if x.Res.States-x.startState > x.MaxStates {
		x.Capped = true
		return
	}
	if !x.reject {
		if all, match := x.outcome(); all && match {
			x.Res.Leaves++
			return
		}
	}
	// choose a wire
	var best int32 = -1
	var bc cands
	scanned := 0
	for _, v := range x.vars {
		if x.known[v] {
			continue
		}
		c := x.candidates(v)
		// forced wires first, then the wire with the fewest candidates among the earliest few
		if best < 0 || c.n <= 1 || (scanned < 2 || bc.n > 4096) && c.n < bc.n {
			best, bc = v, c
		}
		if c.n <= 1 {
			break
		}
		scanned++
		if scanned >= 24 && bc.n <= x.MaxCand || scanned >= 200 {
			break
		}
	}
	if best < 0 {
		x.Res.Leaves++
		if x.reject {
			x.capture()
			return
		}
		if _, match := x.outcome(); !match {
			x.capture()
		}
		return
	}
	var list []El
	f := x.P.F
	switch bc.kind {
	case 0:
		list = bc.list
	case 1:
		u := x.inv(bc.iv.a)
		emit := func(t *big.Int) {
			list = append(list, f.Mul(f.Sub(f.FromBig(t), bc.iv.b), u))
		}
		if bc.n <= x.MaxCand {
			for _, r := range bc.rs {
				for t := new(big.Int).Set(r.lo); t.Cmp(r.hi) <= 0; t.Add(t, bigOne) {
					emit(t)
				}
			}
		} else {
			x.Capped = true
			for _, r := range bc.rs {
				for k := int64(0); k < 6; k++ {
					emit(new(big.Int).Add(r.lo, big.NewInt(k)))
					emit(new(big.Int).Sub(r.hi, big.NewInt(k)))
				}
			}
		}
	default:
		x.Capped = true
		list = []El{{}, f.One, f.Neg1, f.FromUint(2), f.FromUint(3), f.FromUint(1 << 20)}
		if x.honest != nil {
			h := x.honest[best]
			list = append(list, h, f.Add(h, f.One), f.Sub(h, f.One))
		}
		list = dedup(list)
	}
	if len(list) > 1 && !x.Capped && !onHonest {
		k := x.frontier()
		if x.seen[k] {
			x.Res.Merged++
			return
		}
		x.seen[k] = true
	}
	if x.Debug && bc.n > 1000 {
		for _, ci := range x.near[best] {
			c := &x.cons[ci]
			p := x.form(c.Node)
			fmt.Println("   con", c.Kind, c.Label, c.N, p.ok)
			for _, m := range p.m {
				fmt.Println("       ", m.a, m.b, f.Centered(m.c))
			}
		}
	}
	if x.Debug && len(list) != 1 {
		fmt.Printf("%*s wire %d %s kind=%d n=%d near=%d honest=%v\n", int(depth), "", best, x.P.Hints[x.nodes[best].A].Name, bc.kind, bc.n, len(x.near[best]), onHonest)
	}
	if onHonest && !x.Capped {
		h := x.honest[best]
		found := false
		for _, e := range list {
			if e == h {
				found = true
				break
			}
		}
		if !found {
			panic(fmt.Sprintf("explorer lost the honest value of wire %d (hint %s)", best, x.P.Hints[x.nodes[best].A].Name))
		}
	}
	for _, e := range list {
		x.Res.Transitions++
		mark := len(x.trail)
		x.setKnown(best, e)
		if x.propagate() {
			x.Res.States++
			x.search(depth+1, onHonest && e == x.honest[best])
		}
		x.undo(mark)
		if x.forged != nil {
			return
		}
	}
}

// frontier is a 128-bit fingerprint of all that the continuation of a partial assignment depends on:
// which nodes are open, and the values of the outputs and of known nodes that open nodes or undecided
// constraints use.
func (x *Explorer) frontier() [2]uint64 {
	if x.multi == nil {
		x.multi = make([][]int32, len(x.nodes))
		for ci := range x.cons {
			if l := x.cons[ci].nodeList(); len(l) > 1 {
				for _, n := range l {
					x.multi[n] = append(x.multi[n], int32(ci))
				}
			}
		}
		for _, o := range x.P.Outputs {
			x.multi[o] = append(x.multi[o], -1)
		}
	}
	h0, h1 := uint64(0x9e3779b97f4a7c15), uint64(0xc2b2ae3d27d4eb4f)
	mix := func(v uint64) {
		h0 ^= v
		h0 *= 0xff51afd7ed558ccd
		h0 ^= h0 >> 32
		h1 = (h1 ^ bits.RotateLeft64(v, 31)) * 0xc4ceb9fe1a85ec53
		h1 ^= h1 >> 29
	}
	for n := range x.nodes {
		if !x.rel[n] {
			continue
		}
		if !x.known[n] {
			mix(uint64(n)<<1 | 1)
			continue
		}
		live := false
		for _, u := range x.users[n] {
			if !x.known[u] && x.rel[u] {
				live = true
				break
			}
		}
		for i := 0; !live && i < len(x.multi[n]); i++ {
			if ci := x.multi[n][i]; ci < 0 {
				live = true
			} else {
				for _, m := range x.cons[ci].nodeList() {
					live = live || !x.known[m]
				}
			}
		}
		if live {
			mix(uint64(n) << 1)
			for _, w := range x.val[n] {
				mix(w)
			}
		}
	}
	return [2]uint64{h0, h1}
}

func (x *Explorer) capture() {
	m := map[int32]El{}
	for _, v := range x.vars {
		if x.known[v] {
			m[v] = x.val[v]
		}
	}
	x.forged = m
}

// Eliminated reports how many limb wires were removed exactly.
func (x *Explorer) Eliminated() int { return x.limbs }

// Vars is the number of open wires explored.
func (x *Explorer) Vars() int { return len(x.vars) }
