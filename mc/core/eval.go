package core

import (
	"fmt"
	"math/big"
)

// Trace is one complete assignment of a program.
type Trace struct {
	Val     []El
	HintErr error // a hint returned an error or panicked
	Fail    int   // index of the first violated constraint, -1 if none
	Outs    []El
}

func (t *Trace) OK() bool { return t.HintErr == nil && t.Fail < 0 }

// Evaluator runs a program honestly; it is not safe for concurrent use.
type Evaluator struct {
	P     *Program
	val   []El
	inB   []*big.Int
	outB  []*big.Int
	Junk  int // value class preloaded in hint outputs (the pool gives them arbitrary content)
	modC  *big.Int
	Calls int64
}

func NewEvaluator(p *Program) *Evaluator {
	return &Evaluator{P: p, val: make([]El, len(p.Nodes)), modC: new(big.Int).Set(p.F.Mod)}
}

func (e *Evaluator) bufs(nIn, nOut int) ([]*big.Int, []*big.Int) {
	for len(e.inB) < nIn {
		e.inB = append(e.inB, new(big.Int))
	}
	for len(e.outB) < nOut {
		e.outB = append(e.outB, new(big.Int))
	}
	return e.inB[:nIn], e.outB[:nOut]
}

func callHint(h *HintCall, mod *big.Int, in, out []*big.Int) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("hint %s panicked: %v", h.Name, p)
		}
	}()
	return h.Fn(mod, in, out)
}

// runHint executes hint h on current values and stores its outputs.
func (e *Evaluator) runHint(h *HintCall, val []El) error {
	f := e.P.F
	in, out := e.bufs(len(h.Inputs), len(h.Outs))
	for i, id := range h.Inputs {
		pl := f.Plain(val[id])
		// fresh words: hints may keep no alias, and must not modify inputs
		in[i] = new(big.Int).SetBits([]big.Word{big.Word(pl[0]), big.Word(pl[1]), big.Word(pl[2]), big.Word(pl[3])})
	}
	for i := range out {
		out[i] = new(big.Int)
		if e.Junk != 0 {
			out[i].Sub(f.Mod, big.NewInt(int64(e.Junk+i)))
		}
	}
	e.Calls++
	err := callHint(h, e.modC, in, out)
	if e.modC.Cmp(f.Mod) != 0 {
		e.modC.Set(f.Mod)
		return fmt.Errorf("hint %s modified the field modulus", h.Name)
	}
	if err != nil {
		return err
	}
	for i, id := range h.Outs {
		val[id] = f.FromBig(out[i])
	}
	return nil
}

func (p *Program) evalNode(n *Node, val []El) El {
	f := p.F
	switch n.Op {
	case OConst:
		return n.C
	case OAdd:
		return f.Add(val[n.A], val[n.B])
	case OSub:
		return f.Sub(val[n.A], val[n.B])
	case OMul:
		return f.Mul(val[n.A], val[n.B])
	case OIsZero:
		if val[n.A].IsZero() {
			return f.One
		}
		return El{}
	case OInv:
		return f.Inv(val[n.A])
	case OBit:
		pl := f.Plain(val[n.A])
		if n.Aux < 256 && pl[n.Aux/64]>>(uint(n.Aux)%64)&1 == 1 {
			return f.One
		}
		return El{}
	case OCmp:
		c := f.ToBig(val[n.A]).Cmp(f.ToBig(val[n.B]))
		return f.FromInt(int64(c))
	}
	panic("evalNode")
}

func (p *Program) check(c *Constraint, val []El) bool {
	f := p.F
	switch c.Kind {
	case CEq0:
		return val[c.Node].IsZero()
	case CBool:
		return val[c.Node].IsZero() || val[c.Node] == f.One
	case CNonZero:
		return !val[c.Node].IsZero()
	case CRange:
		return f.below(val[c.Node], &c.n)
	case CTable:
		if len(c.Nodes) == 1 && len(c.Table.Rows) <= 64 {
			v := val[c.Nodes[0]]
			for _, r := range c.Table.Rows {
				if r[0] == v {
					return true
				}
			}
			return false
		}
		row := make([]El, len(c.Nodes))
		for i, id := range c.Nodes {
			row[i] = val[id]
		}
		_, ok := c.Table.set[c.Table.key(row)]
		return ok
	case CLeq:
		return f.ToBig(val[c.Node]).Cmp(f.ToBig(val[c.B])) <= 0
	}
	panic("check")
}

// Run evaluates the program on the given inputs with the honest hints.
func (e *Evaluator) Run(in []El) Trace { return e.RunWith(in, nil) }

// RunWith is Run with some hint outputs forced (keyed by node id).
func (e *Evaluator) RunWith(in []El, force map[int32]El) Trace {
	p := e.P
	val := e.val
	for i := range p.Nodes {
		n := &p.Nodes[i]
		switch n.Op {
		case OInput:
			val[i] = in[n.Aux]
		case OVar:
			if n.Aux == 0 {
				h := &p.Hints[n.A]
				if err := e.runHint(h, val); err != nil {
					if force == nil {
						return Trace{Val: val, HintErr: err, Fail: -1}
					}
					for _, o := range h.Outs {
						if _, ok := force[o]; !ok {
							return Trace{Val: val, HintErr: err, Fail: -1}
						}
					}
				}
				if force != nil {
					for _, o := range h.Outs {
						if v, ok := force[o]; ok {
							val[o] = v
						}
					}
				}
			}
		default:
			val[i] = p.evalNode(n, val)
		}
	}
	t := Trace{Val: val, Fail: -1}
	if p.Unsat != "" {
		t.HintErr = fmt.Errorf("unprovable circuit: %s", p.Unsat)
		return t
	}
	for i := range p.Cons {
		if !p.check(&p.Cons[i], val) {
			t.Fail = i
			return t
		}
	}
	t.Outs = make([]El, len(p.Outputs))
	for i, o := range p.Outputs {
		t.Outs[i] = val[o]
	}
	return t
}
