package core

import (
	"fmt"
	"io"
	"math/big"
	"strings"
	"sync"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"
)

func init() {
	logger.Disable()
	logger.Set(zerolog.New(io.Discard))
}

// Gnark is a circuit compiled by the real gnark builder, used to bind the model to the implementation:
// model traces (honest and forged) are replayed on gnark's own constraint solver.
type Gnark struct {
	F     *Field
	Mode  Mode
	CS    constraint.ConstraintSystem
	hints []solver.Hint
	unreg []string // hints gnark's solver would not find
	nIn   int
	nOut  int
}

type replayCircuit struct {
	In  []frontend.Variable `gnark:",public"`
	Exp []frontend.Variable `gnark:",public"`
	fn  CircuitFn           `gnark:"-"`
}

func (c *replayCircuit) Define(api frontend.API) error {
	out := c.fn(api, c.In)
	for i := range c.Exp {
		api.AssertIsEqual(out[i], c.Exp[i])
	}
	return nil
}

// Trampoline stands for every hint of the circuit; the solver option routes it.
func Trampoline(mod *big.Int, in, out []*big.Int) error {
	return fmt.Errorf("trampoline was not overridden")
}

type store interface {
	SetKeyValue(key, value any)
	GetKeyValue(key any) any
}

type wrapBuilder struct {
	frontend.Builder
	kv store
	ft frontendtype.FrontendTyper
	cm frontend.Committer
	g  *Gnark
}

func (w *wrapBuilder) Compiler() frontend.Compiler { return w }
func (w *wrapBuilder) SetKeyValue(k, v any)        { w.kv.SetKeyValue(k, v) }
func (w *wrapBuilder) GetKeyValue(k any) any       { return w.kv.GetKeyValue(k) }
func (w *wrapBuilder) FrontendType() frontendtype.Type {
	return w.ft.FrontendType()
}
func (w *wrapBuilder) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return w.cm.Commit(v...)
}
func (w *wrapBuilder) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	if strings.Contains(solver.GetHintName(f), "logderivarg") {
		return w.Builder.NewHint(f, n, in...)
	}
	if !registered()[solver.GetHintID(f)] {
		w.g.unreg = append(w.g.unreg, solver.GetHintName(f))
	}
	w.g.hints = append(w.g.hints, f)
	return w.Builder.NewHint(Trampoline, n, append(append([]frontend.Variable{}, in...), len(w.g.hints)-1)...)
}

// registered is the set of hints that gnark's solver knows after the packages were initialised.
var registered = sync.OnceValue(func() map[solver.HintID]bool {
	m := map[solver.HintID]bool{}
	for _, f := range solver.GetRegisteredHints() {
		m[solver.GetHintID(f)] = true
	}
	return m
})

// CompileGnark compiles circuit code with a real gnark builder; outputs become public inputs when nOut>0.
func CompileGnark(f *Field, mode Mode, nIn, nOut int, fn CircuitFn) (g *Gnark, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("gnark compile panicked: %v", e)
		}
	}()
	g = &Gnark{F: f, Mode: mode, nIn: nIn, nOut: nOut}
	nb := scs.NewBuilder
	if mode == R1CS {
		nb = r1cs.NewBuilder
	}
	wrapped := func(m *big.Int, c frontend.CompileConfig) (frontend.Builder, error) {
		b, err := nb(m, c)
		if err != nil {
			return nil, err
		}
		return &wrapBuilder{Builder: b, kv: b.(store), ft: b.(frontendtype.FrontendTyper), cm: b.(frontend.Committer), g: g}, nil
	}
	c := &replayCircuit{In: make([]frontend.Variable, nIn), Exp: make([]frontend.Variable, nOut), fn: fn}
	g.CS, err = frontend.Compile(f.Mod, wrapped, c, frontend.IgnoreUnconstrainedInputs())
	return g, err
}

// Override is a forced hint output.
type Override struct {
	Seq, Out int
	Val      *big.Int
}

// Overrides lists the forced wires of a forged assignment in gnark's hint numbering.
func (p *Program) Overrides(forged map[int32]El) []Override {
	var o []Override
	for id, v := range forged {
		n := p.Nodes[id]
		h := p.Hints[n.A]
		if h.Seq < 0 {
			continue
		}
		o = append(o, Override{h.Seq, int(n.Aux), p.F.ToBig(v)})
	}
	return o
}

// Solve runs gnark's solver on inputs and claimed outputs with some hint outputs forced by a
// dishonest prover. nil means the constraint system is satisfied.
func (g *Gnark) Solve(in, exp []*big.Int, force []Override) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("gnark solver panicked: %v", e)
		}
	}()
	fm := map[[2]int]*big.Int{}
	for _, o := range force {
		fm[[2]int{o.Seq, o.Out}] = o.Val
	}
	a := &replayCircuit{In: make([]frontend.Variable, g.nIn), Exp: make([]frontend.Variable, g.nOut)}
	for i := range a.In {
		a.In[i] = new(big.Int).Mod(in[i], g.F.Mod)
	}
	for i := range a.Exp {
		a.Exp[i] = new(big.Int).Mod(exp[i], g.F.Mod)
	}
	if len(g.unreg) > 0 && len(force) == 0 {
		// the honest prover runs gnark's solver with the hints the library registered
		return fmt.Errorf("missing hint function %s: it is not registered", g.unreg[0])
	}
	w, err := frontend.NewWitness(a, g.F.Mod)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	tramp := func(mod *big.Int, hin, out []*big.Int) error {
		seq := int(hin[len(hin)-1].Int64())
		hin = hin[:len(hin)-1]
		fn := g.hints[seq]
		var e error
		if len(force) > 0 && strings.HasSuffix(solver.GetHintName(fn), "DecomposeHint") {
			// a forger decomposes the field element, not the integer product
			t := new(big.Int).Mul(hin[2], hin[3])
			t.Mod(t, mod)
			w := uint(hin[1].Uint64())
			base := new(big.Int).Lsh(bigOne, w)
			for i := range out {
				out[i].Mod(t, base)
				t.Rsh(t, w)
			}
		} else {
			e = callHint(&HintCall{Fn: fn, Name: solver.GetHintName(fn)}, mod, hin, out)
		}
		mu.Lock()
		defer mu.Unlock()
		all := true
		for i := range out {
			if v, ok := fm[[2]int{seq, i}]; ok {
				out[i].Set(v)
			} else {
				all = false
			}
		}
		if e != nil && !all {
			return e
		}
		return nil
	}
	commit := func(mod *big.Int, hin, out []*big.Int) error {
		// any non-degenerate challenge will do for deciding satisfiability of the lookup argument
		h := new(big.Int).SetInt64(0x1234567)
		for _, v := range hin {
			h.Mul(h, big.NewInt(1000003)).Add(h, v).Mod(h, mod)
		}
		h.Exp(h, big.NewInt(5), mod)
		h.Add(h, new(big.Int).Rsh(mod, 3)).Mod(h, mod)
		out[0].Set(h)
		return nil
	}
	_, err = g.CS.Solve(w,
		solver.OverrideHint(solver.GetHintID(Trampoline), tramp),
		solver.OverrideHint(solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder), commit),
		solver.WithNbTasks(1),
		solver.WithLogger(zerolog.Nop()))
	return err
}
