package core

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"strings"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
)

// Mode selects which builder's constraint-emission rules are modelled.
type Mode int

const (
	// SCS is the PLONK builder: Select does not constrain its condition to be boolean.
	SCS Mode = iota
	// R1CS is the Groth16 builder: Select, And, Or, Xor, Lookup2 all assert boolean conditions.
	R1CS
)

func (m Mode) String() string {
	if m == R1CS {
		return "r1cs"
	}
	return "scs"
}

type Op uint8

const (
	OConst Op = iota
	OInput
	OVar // hint output
	OAdd
	OSub
	OMul
	OIsZero
	OInv // 0 -> 0 (a NonZero constraint accompanies it when gnark emits one)
	OBit // bit aux of the canonical representative
	OCmp
)

type Node struct {
	Op   Op
	A, B int32
	C    El // OConst
	Aux  int32
}

type CKind uint8

const (
	CEq0 CKind = iota
	CBool
	CNonZero
	CRange // node in [0, N)
	CTable // tuple of nodes in a table of rows
	CLeq   // canonical(node) <= canonical(B)
)

type Constraint struct {
	Kind  CKind
	Node  int32
	B     int32
	N     *big.Int
	n     [4]uint64 // N as limbs
	Nodes []int32   // CTable
	Table *Table
	Label string
}

type Table struct {
	Rows [][]El
	set  map[string]struct{}
}

func (t *Table) key(r []El) string {
	b := make([]byte, 0, 32*len(r))
	for _, e := range r {
		for _, w := range e {
			for k := 0; k < 8; k++ {
				b = append(b, byte(w>>(8*k)))
			}
		}
	}
	return string(b)
}

type HintCall struct {
	Fn     solver.Hint
	Name   string
	Inputs []int32
	Outs   []int32
	Seq    int // index among recorded (non-intercepted) NewHint calls of the program, -1 for internal ones
}

// Program is a constraint model extracted by running circuit code.
type Program struct {
	F       *Field
	Mode    Mode
	Nodes   []Node
	Inputs  []int32
	Hints   []HintCall
	Cons    []Constraint
	Outputs []int32
	Unsat   string // non-empty: the builder would have rejected the circuit (or no witness can exist)
	hintOf  map[int32]int
	hintAt  map[int32]int // first output -> hint index
}

// Rec implements frontend.API, frontend.Compiler, frontend.Committer, kvstore.Store.
type Rec struct {
	P        *Program
	consed   map[Node]int32
	bools    map[int32]bool
	deferred []func(frontend.API) error
	kv       map[any]any
	zero     int32
	one      int32
	seq      int
	tables   int
}

// V is the frontend.Variable of the recorder.
type V struct{ ID int32 }

var errStopCommit = errors.New("zkmc: lookup argument is modelled, commitment callback skipped")

type CircuitFn func(api frontend.API, in []frontend.Variable) []frontend.Variable

// Record runs circuit code and returns its constraint model.
func Record(f *Field, mode Mode, nIn int, fn CircuitFn) (prog *Program, err error) {
	r := &Rec{
		P:      &Program{F: f, Mode: mode, hintOf: map[int32]int{}, hintAt: map[int32]int{}},
		consed: map[Node]int32{}, bools: map[int32]bool{}, kv: map[any]any{},
	}
	r.zero = r.constEl(El{})
	r.one = r.constEl(f.One)
	in := make([]frontend.Variable, nIn)
	for i := range in {
		r.P.Nodes = append(r.P.Nodes, Node{Op: OInput, Aux: int32(i)})
		id := int32(len(r.P.Nodes) - 1)
		r.P.Inputs = append(r.P.Inputs, id)
		in[i] = V{id}
	}
	defer func() {
		if e := recover(); e != nil {
			if p, ok := e.(recPanic); ok {
				panic(string(p))
			}
			prog, err = nil, fmt.Errorf("circuit definition panicked: %v", e)
		}
	}()
	outs := fn(r, in)
	for i := 0; i < len(r.deferred); i++ {
		if e := r.deferred[i](r); e != nil {
			if errors.Is(e, errStopCommit) {
				continue
			}
			return nil, fmt.Errorf("deferred: %w", e)
		}
	}
	for _, o := range outs {
		r.P.Outputs = append(r.P.Outputs, r.id(o))
	}
	for h := range r.P.Hints {
		for _, o := range r.P.Hints[h].Outs {
			r.P.hintOf[o] = h
		}
		r.P.hintAt[r.P.Hints[h].Outs[0]] = h
	}
	return r.P, nil
}

type recPanic string

func (r *Rec) push(n Node) int32 {
	if id, ok := r.consed[n]; ok {
		return id
	}
	r.P.Nodes = append(r.P.Nodes, n)
	id := int32(len(r.P.Nodes) - 1)
	r.consed[n] = id
	return id
}

func (r *Rec) constEl(e El) int32 { return r.push(Node{Op: OConst, C: e}) }

func toBig(v interface{}) *big.Int {
	switch x := v.(type) {
	case *big.Int:
		return x
	case big.Int:
		return &x
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic("bad numeric string " + x)
		}
		return b
	case []byte:
		return new(big.Int).SetBytes(x)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(rv.Uint())
	}
	panic(fmt.Sprintf("can't set field element from %T", v))
}

func (r *Rec) id(v frontend.Variable) int32 {
	if x, ok := v.(V); ok {
		return x.ID
	}
	return r.constEl(r.P.F.FromBig(toBig(v)))
}

func (r *Rec) isConst(id int32) (El, bool) {
	n := &r.P.Nodes[id]
	if n.Op == OConst {
		return n.C, true
	}
	return El{}, false
}

func (r *Rec) add(a, b int32) int32 {
	ca, oka := r.isConst(a)
	cb, okb := r.isConst(b)
	if oka && okb {
		return r.constEl(r.P.F.Add(ca, cb))
	}
	if oka && ca.IsZero() {
		return b
	}
	if okb && cb.IsZero() {
		return a
	}
	if a > b {
		a, b = b, a
	}
	return r.push(Node{Op: OAdd, A: a, B: b})
}

func (r *Rec) sub(a, b int32) int32 {
	ca, oka := r.isConst(a)
	cb, okb := r.isConst(b)
	if oka && okb {
		return r.constEl(r.P.F.Sub(ca, cb))
	}
	if okb && cb.IsZero() {
		return a
	}
	if a == b {
		return r.zero
	}
	return r.push(Node{Op: OSub, A: a, B: b})
}

func (r *Rec) mul(a, b int32) int32 {
	ca, oka := r.isConst(a)
	cb, okb := r.isConst(b)
	if oka && okb {
		return r.constEl(r.P.F.Mul(ca, cb))
	}
	if oka {
		a, b = b, a
		cb, okb = ca, true
	}
	if okb {
		if cb.IsZero() {
			return r.zero
		}
		if cb == r.P.F.One {
			return a
		}
	} else if a > b {
		a, b = b, a
	}
	return r.push(Node{Op: OMul, A: a, B: b})
}

func (r *Rec) cons(c Constraint) {
	if c.N != nil {
		c.n = limbs(c.N)
	}
	r.P.Cons = append(r.P.Cons, c)
}

func (r *Rec) unsat(why string) {
	if r.P.Unsat == "" {
		r.P.Unsat = why
	}
}

func (r *Rec) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x := r.add(r.id(i1), r.id(i2))
	for _, v := range in {
		x = r.add(x, r.id(v))
	}
	return V{x}
}
func (r *Rec) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	return V{r.add(r.id(a), r.mul(r.id(b), r.id(c)))}
}
func (r *Rec) Neg(i1 frontend.Variable) frontend.Variable { return V{r.sub(r.zero, r.id(i1))} }
func (r *Rec) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x := r.sub(r.id(i1), r.id(i2))
	for _, v := range in {
		x = r.sub(x, r.id(v))
	}
	return V{x}
}
func (r *Rec) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	x := r.mul(r.id(i1), r.id(i2))
	for _, v := range in {
		x = r.mul(x, r.id(v))
	}
	return V{x}
}

// DivUnchecked leaves 0/0 free, as gnark does: a fresh internal wire q with q*b == a.
func (r *Rec) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a, b := r.id(i1), r.id(i2)
	if cb, ok := r.isConst(b); ok {
		if cb.IsZero() {
			panic("div by constant(0)")
		}
		return V{r.mul(a, r.constEl(r.P.F.Inv(cb)))}
	}
	q := r.internalHint(divHint, 1, a, b)[0]
	r.cons(Constraint{Kind: CEq0, Node: r.sub(r.mul(q, b), a), Label: "DivUnchecked"})
	return V{q}
}
func divHint(m *big.Int, in, out []*big.Int) error {
	t := new(big.Int).ModInverse(in[1], m)
	if t == nil {
		out[0].SetUint64(0)
		return nil
	}
	out[0].Mul(in[0], t).Mod(out[0], m)
	return nil
}
func (r *Rec) Div(i1, i2 frontend.Variable) frontend.Variable {
	return r.Mul(i1, r.Inverse(i2))
}
func (r *Rec) Inverse(i1 frontend.Variable) frontend.Variable {
	a := r.id(i1)
	if c, ok := r.isConst(a); ok {
		if c.IsZero() {
			panic("inverse by constant(0)")
		}
		return V{r.constEl(r.P.F.Inv(c))}
	}
	r.cons(Constraint{Kind: CNonZero, Node: a, Label: "Inverse"})
	return V{r.push(Node{Op: OInv, A: a})}
}

func (r *Rec) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := r.P.F.Mod.BitLen()
	if len(n) == 1 {
		nb = n[0]
	}
	a := r.id(i1)
	if c, ok := r.isConst(a); ok {
		b := r.P.F.ToBig(c)
		out := make([]frontend.Variable, nb)
		for i := range out {
			out[i] = V{r.constEl(r.P.F.FromUint(uint64(b.Bit(i))))}
		}
		return out
	}
	if nb < r.P.F.Mod.BitLen() {
		r.cons(Constraint{Kind: CRange, Node: a, N: new(big.Int).Lsh(big.NewInt(1), uint(nb)), Label: "ToBinary"})
	}
	out := make([]frontend.Variable, nb)
	for i := range out {
		id := r.push(Node{Op: OBit, A: a, Aux: int32(i)})
		r.bools[id] = true
		out[i] = V{id}
	}
	return out
}
func (r *Rec) FromBinary(b ...frontend.Variable) frontend.Variable {
	x := r.zero
	c := r.P.F.One
	for _, v := range b {
		x = r.add(x, r.mul(r.id(v), r.constEl(c)))
		c = r.P.F.Add(c, c)
	}
	return V{x}
}

func (r *Rec) assertBool(a int32) {
	if c, ok := r.isConst(a); ok {
		if !c.IsZero() && c != r.P.F.One {
			panic("assertIsBoolean failed: constant is not 0 or 1")
		}
		return
	}
	if r.bools[a] {
		return
	}
	r.bools[a] = true
	r.cons(Constraint{Kind: CBool, Node: a, Label: "bool"})
}
func (r *Rec) Xor(a, b frontend.Variable) frontend.Variable {
	x, y := r.id(a), r.id(b)
	r.assertBool(x)
	r.assertBool(y)
	// x + y - 2xy
	t := r.sub(r.add(x, y), r.mul(r.mul(x, y), r.constEl(r.P.F.FromUint(2))))
	r.mark(t)
	return V{t}
}
func (r *Rec) Or(a, b frontend.Variable) frontend.Variable {
	x, y := r.id(a), r.id(b)
	r.assertBool(x)
	r.assertBool(y)
	t := r.sub(r.add(x, y), r.mul(x, y))
	r.mark(t)
	return V{t}
}
func (r *Rec) And(a, b frontend.Variable) frontend.Variable {
	x, y := r.id(a), r.id(b)
	r.assertBool(x)
	r.assertBool(y)
	t := r.mul(x, y)
	r.mark(t)
	return V{t}
}
func (r *Rec) mark(t int32) {
	if _, ok := r.isConst(t); !ok {
		r.bools[t] = true
	}
}
func (r *Rec) Select(b frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	c, x, y := r.id(b), r.id(i1), r.id(i2)
	if cc, ok := r.isConst(c); ok {
		if cc.IsZero() {
			return V{y}
		}
		if cc == r.P.F.One {
			return V{x}
		}
		panic("select condition is a non-boolean constant")
	}
	if r.P.Mode == R1CS {
		r.assertBool(c)
	}
	return V{r.add(r.mul(c, r.sub(x, y)), y)}
}
func (r *Rec) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	r.assertBool(r.id(b0))
	r.assertBool(r.id(b1))
	s0, s1 := r.id(b0), r.id(b1)
	lo := r.add(r.mul(s0, r.sub(r.id(i1), r.id(i0))), r.id(i0))
	hi := r.add(r.mul(s0, r.sub(r.id(i3), r.id(i2))), r.id(i2))
	return V{r.add(r.mul(s1, r.sub(hi, lo)), lo)}
}
func (r *Rec) IsZero(i1 frontend.Variable) frontend.Variable {
	a := r.id(i1)
	if c, ok := r.isConst(a); ok {
		if c.IsZero() {
			return V{r.one}
		}
		return V{r.zero}
	}
	t := r.push(Node{Op: OIsZero, A: a})
	r.bools[t] = true
	return V{t}
}
func (r *Rec) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	return V{r.push(Node{Op: OCmp, A: r.id(i1), B: r.id(i2)})}
}
func (r *Rec) AssertIsEqual(i1, i2 frontend.Variable) {
	d := r.sub(r.id(i1), r.id(i2))
	if c, ok := r.isConst(d); ok {
		if !c.IsZero() {
			r.unsat("constants asserted equal differ")
		}
		return
	}
	r.cons(Constraint{Kind: CEq0, Node: d, Label: "AssertIsEqual"})
}
func (r *Rec) AssertIsDifferent(i1, i2 frontend.Variable) {
	d := r.sub(r.id(i1), r.id(i2))
	if c, ok := r.isConst(d); ok {
		if c.IsZero() {
			panic("AssertIsDifferent(x,x) will never be satisfied")
		}
		return
	}
	r.cons(Constraint{Kind: CNonZero, Node: d, Label: "AssertIsDifferent"})
}
func (r *Rec) AssertIsBoolean(i1 frontend.Variable) { r.assertBool(r.id(i1)) }
func (r *Rec) AssertIsCrumb(i1 frontend.Variable) {
	r.cons(Constraint{Kind: CRange, Node: r.id(i1), N: big.NewInt(4), Label: "crumb"})
}
func (r *Rec) AssertIsLessOrEqual(v frontend.Variable, bound frontend.Variable) {
	a, b := r.id(v), r.id(bound)
	if cb, ok := r.isConst(b); ok {
		if ca, ok := r.isConst(a); ok {
			if r.P.F.ToBig(ca).Cmp(r.P.F.ToBig(cb)) > 0 {
				panic("AssertIsLessOrEqual: constant")
			}
			return
		}
		r.cons(Constraint{Kind: CRange, Node: a, N: new(big.Int).Add(r.P.F.ToBig(cb), big.NewInt(1)), Label: "leq"})
		return
	}
	r.cons(Constraint{Kind: CLeq, Node: a, B: b, Label: "leq"})
}
func (r *Rec) Println(a ...frontend.Variable) {}

func (r *Rec) Compiler() frontend.Compiler { return r }

func (r *Rec) internalHint(f solver.Hint, nOut int, in ...int32) []int32 {
	h := HintCall{Fn: f, Name: "internal", Inputs: in, Seq: -1}
	for i := 0; i < nOut; i++ {
		r.P.Nodes = append(r.P.Nodes, Node{Op: OVar, A: int32(len(r.P.Hints)), Aux: int32(i)})
		h.Outs = append(h.Outs, int32(len(r.P.Nodes)-1))
	}
	r.P.Hints = append(r.P.Hints, h)
	return h.Outs
}

func (r *Rec) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	name := solver.GetHintName(f)
	if strings.HasSuffix(name, "logderivarg.countHint") {
		return r.lookup(nbOutputs, inputs)
	}
	in := make([]int32, len(inputs))
	for i, v := range inputs {
		in[i] = r.id(v)
	}
	outs := r.internalHint(f, nbOutputs, in...)
	h := &r.P.Hints[len(r.P.Hints)-1]
	h.Name = name
	h.Seq = r.seq
	r.seq++
	res := make([]frontend.Variable, nbOutputs)
	for i := range res {
		res[i] = V{outs[i]}
	}
	return res, nil
}

// lookup gives the log-derivative argument its exact meaning: every query row is a table row.
func (r *Rec) lookup(nOut int, inputs []frontend.Variable) ([]frontend.Variable, error) {
	f := r.P.F
	n := int(toBig(inputs[0]).Int64())
	cols := int(toBig(inputs[1]).Int64())
	rest := inputs[2:]
	res := make([]frontend.Variable, nOut)
	for i := range res {
		res[i] = V{r.one} // multiplicities: determined, irrelevant to the model
	}
	t := &Table{set: map[string]struct{}{}}
	contiguous := cols == 1
	for i := 0; i < n; i++ {
		row := make([]El, cols)
		for j := range row {
			c, ok := r.isConst(r.id(rest[i*cols+j]))
			if !ok {
				return nil, fmt.Errorf("zkmc: variable lookup tables are not modelled")
			}
			row[j] = c
		}
		if contiguous && row[0] != f.FromUint(uint64(i)) {
			contiguous = false
		}
		if !contiguous {
			// keys are only needed for real tables
		}
		t.Rows = append(t.Rows, row)
	}
	if !contiguous {
		for _, row := range t.Rows {
			k := t.key(row)
			if _, dup := t.set[k]; dup {
				r.unsat("duplicate lookup table entries")
			}
			t.set[k] = struct{}{}
		}
	}
	q := rest[n*cols:]
	if len(q) == 0 {
		r.unsat("lookup argument without queries")
		return res, nil
	}
	r.tables++
	for i := 0; i < len(q); i += cols {
		if contiguous {
			id := r.id(q[i])
			if c, ok := r.isConst(id); ok {
				if f.ToBig(c).Cmp(big.NewInt(int64(n))) >= 0 {
					r.unsat("constant outside lookup table")
				}
				continue
			}
			r.cons(Constraint{Kind: CRange, Node: id, N: big.NewInt(int64(n)), Label: "range"})
			continue
		}
		ids := make([]int32, cols)
		for j := range ids {
			ids[j] = r.id(q[i+j])
		}
		r.cons(Constraint{Kind: CTable, Node: ids[0], Nodes: ids, Table: t, Label: "table"})
	}
	return res, nil
}

func (r *Rec) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	c, ok := r.isConst(r.id(v))
	if !ok {
		return nil, false
	}
	return r.P.F.ToBig(c), true
}
func (r *Rec) GetNbConstraints() int { return len(r.P.Cons) }

// Compiler part.
func (r *Rec) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	panic(recPanic("zkmc: blueprints are not modelled"))
}
func (r *Rec) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	panic(recPanic("zkmc: instructions are not modelled"))
}
func (r *Rec) MarkBoolean(v frontend.Variable) {
	id := r.id(v)
	if c, ok := r.isConst(id); ok {
		if !c.IsZero() && c != r.P.F.One {
			panic("MarkBoolean called a non-boolean constant")
		}
		return
	}
	r.bools[id] = true
}
func (r *Rec) IsBoolean(v frontend.Variable) bool {
	id := r.id(v)
	if c, ok := r.isConst(id); ok {
		return c.IsZero() || c == r.P.F.One
	}
	return r.bools[id]
}
func (r *Rec) Field() *big.Int                       { return new(big.Int).Set(r.P.F.Mod) }
func (r *Rec) FieldBitLen() int                      { return r.P.F.Mod.BitLen() }
func (r *Rec) Defer(cb func(api frontend.API) error) { r.deferred = append(r.deferred, cb) }
func (r *Rec) InternalVariable(w uint32) frontend.Variable {
	panic(recPanic("zkmc: InternalVariable is not modelled"))
}
func (r *Rec) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	panic(recPanic("zkmc: ToCanonicalVariable is not modelled"))
}
func (r *Rec) SetGkrInfo(constraint.GkrInfo) error { return errors.New("zkmc: gkr is not modelled") }

func (r *Rec) Commit(v ...frontend.Variable) (frontend.Variable, error) { return nil, errStopCommit }
func (r *Rec) SetKeyValue(key, value any)                               { r.kv[key] = value }
func (r *Rec) GetKeyValue(key any) any                                  { return r.kv[key] }
func (r *Rec) FrontendType() frontendtype.Type {
	if r.P.Mode == R1CS {
		return frontendtype.R1CS
	}
	return frontendtype.SCS
}

// Digest identifies the program: its nodes, hints, constraints and tables in the order they were asked for.
func (p *Program) Digest() string {
	h := fnv.New128a()
	var b [8]byte
	num := func(v ...uint64) {
		for _, x := range v {
			binary.LittleEndian.PutUint64(b[:], x)
			h.Write(b[:])
		}
	}
	ids := func(l []int32) {
		num(uint64(len(l)))
		for _, i := range l {
			num(uint64(uint32(i)))
		}
	}
	for i := range p.Nodes {
		n := &p.Nodes[i]
		num(uint64(n.Op), uint64(uint32(n.A)), uint64(uint32(n.B)), uint64(uint32(n.Aux)))
		num(n.C[:]...)
	}
	for i := range p.Hints {
		h.Write([]byte(p.Hints[i].Name))
		ids(p.Hints[i].Inputs)
		ids(p.Hints[i].Outs)
	}
	for i := range p.Cons {
		c := &p.Cons[i]
		num(uint64(c.Kind), uint64(uint32(c.Node)), uint64(uint32(c.B)))
		num(c.n[:]...)
		ids(c.Nodes)
		h.Write([]byte(c.Label))
		if c.Table != nil {
			num(uint64(len(c.Table.Rows)))
			for _, r := range c.Table.Rows {
				for _, e := range r {
					num(e[:]...)
				}
			}
		}
	}
	ids(p.Outputs)
	h.Write([]byte(p.Unsat))
	return hex.EncodeToString(h.Sum(nil))
}
