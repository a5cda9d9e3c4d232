//go:build go1.22

package main

// Explicit-state engine: executes the *real* Define methods of the repository
// on concrete values.  It wraps the engine object of gnark's own test package
// (so field arithmetic, conversions and assertions are gnark's), and makes the
// sources of nondeterminism of a proof system explicit choice points:
//   - hint answers (the prover's freedom),
//   - the order in which several verifications advance (scheduling points),
//   - the deferred checks (fast mode evaluates the range checks natively).

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/logger"
	gtest "github.com/consensys/gnark/test"
)

func init() {
	log.SetOutput(io.Discard)
	logger.Disable()
	debug.SetGCPercent(400)
}

var mcQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
var mcP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)

// ---- capture of gnark's test engine ---------------------------------------

type mcCapture struct {
	sink *frontend.API
}

func (c *mcCapture) Define(api frontend.API) error { *c.sink = api; return nil }

var mcCaptureMu sync.Mutex

func mcBaseEngine(q *big.Int) frontend.API {
	mcCaptureMu.Lock()
	defer mcCaptureMu.Unlock()
	var api frontend.API
	c := &mcCapture{sink: &api}
	if err := gtest.IsSolved(c, &mcCapture{sink: &api}, q); err != nil || api == nil {
		panic(fmt.Sprintf("harness: cannot obtain gnark test engine: %v", err))
	}
	return api
}

// ---- the engine ------------------------------------------------------------

type mcHintEv struct {
	N    int // ordinal among the hints that the policy looks at
	Name string
	In   []*big.Int
	Out  []*big.Int // honest answer, may be replaced in place
}

type mcEng struct {
	frontend.API
	base frontend.Compiler
	q    *big.Int
	kv   map[any]any
	defr []func(frontend.API) error

	lookups bool            // also run the log-derivative lookup arguments
	onHint  func(*mcHintEv) // sees the repository's own hints, may alter Out
	onStep  func(op string) // scheduling point
	nHint   int
	nOps    int64

	// chain cache for long power ladders
	chLast, chBase *big.Int
	chBaseM, chM   fr.Element
	slab           []big.Int
	words          []big.Word
}

type mcReject struct{ err error }

func (r *mcReject) Error() string { return r.err.Error() }

var mcNoise = errors.New("reject")

func newEng() *mcEng { return newEngField(mcQ) }

func newEngField(q *big.Int) *mcEng {
	b := mcBaseEngine(q)
	return &mcEng{API: b, base: b.Compiler(), q: new(big.Int).Set(q), kv: map[any]any{}}
}

// run executes f (usually a Define method) and then the deferred checks.
// It returns nil when every constraint was satisfied.
func (e *mcEng) run(f func(api frontend.API) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(mcStop); ok {
				panic(s)
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err = f(e); err != nil {
		return fmt.Errorf("define: %w", err)
	}
	for i := 0; i < len(e.defr); i++ {
		if !e.lookups {
			n := mcFuncName(e.defr[i])
			if strings.Contains(n, "logderivprecomp") {
				continue
			}
		}
		if err = e.defr[i](e); err != nil {
			return fmt.Errorf("deferred: %w", err)
		}
	}
	return nil
}

type mcStop struct{ why string }

func mcFuncName(f any) string {
	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
}

func (e *mcEng) step(op string) {
	e.nOps++
	if e.onStep != nil {
		e.onStep(op)
	}
}

func (e *mcEng) big(v frontend.Variable) *big.Int {
	switch t := v.(type) {
	case *big.Int:
		return t
	case big.Int:
		return &t
	}
	b, _ := e.base.ConstantValue(v)
	return b
}

func (e *mcEng) Compiler() frontend.Compiler { return e }

func (e *mcEng) SetKeyValue(k, v any)               { e.kv[k] = v }
func (e *mcEng) GetKeyValue(k any) any              { return e.kv[k] }
func (e *mcEng) Field() *big.Int                    { return e.q }
func (e *mcEng) FieldBitLen() int                   { return e.q.BitLen() }
func (e *mcEng) MarkBoolean(v frontend.Variable)    { e.base.MarkBoolean(v) }
func (e *mcEng) IsBoolean(v frontend.Variable) bool { return e.base.IsBoolean(v) }
func (e *mcEng) Defer(cb func(frontend.API) error) {
	e.defr = append(e.defr, cb)
}
func (e *mcEng) InternalVariable(w uint32) frontend.Variable { return e.base.InternalVariable(w) }
func (e *mcEng) ToCanonicalVariable(v frontend.Variable) frontend.CanonicalVariable {
	return e.base.ToCanonicalVariable(v)
}
func (e *mcEng) SetGkrInfo(i constraint.GkrInfo) error { return e.base.SetGkrInfo(i) }
func (e *mcEng) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	return e.base.AddBlueprint(b)
}
func (e *mcEng) AddInstruction(b constraint.BlueprintID, c []uint32) []uint32 {
	return e.base.AddInstruction(b, c)
}

// Check implements frontend.Rangechecker natively.
func (e *mcEng) Check(v frontend.Variable, bits int) {
	e.step("rangecheck")
	b := e.big(v)
	if b.Sign() < 0 {
		b = new(big.Int).Mod(b, e.q)
	}
	if b.BitLen() > bits {
		panic(fmt.Sprintf("[rangecheck] %s does not fit %d bits", b, bits))
	}
}

// Commit is a deterministic mixing of the committed values.
func (e *mcEng) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	e.step("commit")
	var a, b uint64 = 0xcbf29ce484222325, 0x9e3779b97f4a7c15
	for i := range v {
		for _, w := range e.big(v[i]).Bits() {
			a = (a ^ uint64(w)) * 0x100000001b3
			b = (b + uint64(w) + a) * 0xff51afd7ed558ccd
			b ^= b >> 29
		}
		a ^= a >> 31
		a *= 0xc4ceb9fe1a85ec53
	}
	r := new(big.Int).SetUint64(a | 1)
	r.Lsh(r, 64)
	r.Add(r, new(big.Int).SetUint64(b))
	r.Mul(r, r)
	r.Mod(r, e.q)
	if r.Sign() == 0 {
		r.SetUint64(1)
	}
	return r, nil
}

func (e *mcEng) NewHint(f solver.Hint, nout int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	e.step("hint")
	if nout <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	name := mcFuncName(f)
	own := !strings.Contains(name, "consensys/gnark")
	in := make([]*big.Int, len(inputs))
	for i := range inputs {
		in[i] = e.big(inputs[i])
	}
	if strings.HasSuffix(name, "uints.xorHint") || strings.HasSuffix(name, "uints.andHint") {
		for i := range in {
			if in[i].Sign() < 0 || in[i].BitLen() > 8 {
				panic("[lookup] operand outside the table")
			}
		}
	}
	res := make([]*big.Int, nout)
	for i := range res {
		res[i] = new(big.Int)
	}
	if err := f(e.q, in, res); err != nil {
		panic("NewHint: " + err.Error())
	}
	if own && e.onHint != nil {
		ev := &mcHintEv{N: e.nHint, Name: name[strings.LastIndex(name, ".")+1:], In: in, Out: res}
		e.nHint++
		e.onHint(ev)
	}
	out := make([]frontend.Variable, nout)
	for i := range res {
		res[i].Mod(res[i], e.q)
		out[i] = res[i]
	}
	return out, nil
}

func (e *mcEng) NewHintForId(id solver.HintID, nout int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if f := solver.GetRegisteredHint(id); f != nil {
		return e.NewHint(f, nout, inputs...)
	}
	return nil, fmt.Errorf("no hint registered with id #%d", id)
}

// ---- arithmetic (same semantics as gnark's engine; conformance is replayed) --

func (e *mcEng) Add(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.step("add")
	r := new(big.Int).Add(e.big(a), e.big(b))
	for i := range in {
		r.Add(r, e.big(in[i]))
	}
	return r.Mod(r, e.q)
}

func (e *mcEng) Sub(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.step("sub")
	r := new(big.Int).Sub(e.big(a), e.big(b))
	for i := range in {
		r.Sub(r, e.big(in[i]))
	}
	return r.Mod(r, e.q)
}

func (e *mcEng) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	e.step("mulacc")
	r := new(big.Int).Mul(e.big(b), e.big(c))
	r.Add(r, e.big(a))
	return r.Mod(r, e.q)
}

func (e *mcEng) Neg(a frontend.Variable) frontend.Variable {
	e.step("neg")
	r := new(big.Int).Neg(e.big(a))
	return r.Mod(r, e.q)
}

func (e *mcEng) Mul(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if e.onStep != nil {
		e.onStep("mul")
	}
	e.nOps++
	b2 := e.big(b)
	if len(in) == 0 && b2.IsUint64() && b2.Uint64() <= 1 {
		if b2.Uint64() == 0 {
			return 0
		}
		return a
	}
	b1 := e.big(a)
	if len(in) == 0 && b2 == e.chBase {
		if b1 == e.chLast {
			return e.chNext()
		}
	}
	r := new(big.Int).Mul(b1, b2)
	r.Mod(r, e.q)
	for i := range in {
		r.Mul(r, e.big(in[i]))
		r.Mod(r, e.q)
	}
	if len(in) == 0 && b1 == b2 {
		e.chStart(b1, r)
	}
	return r
}

// A ladder of products x*x, (x*x)*x, ... (same base object, previous result)
// is evaluated in Montgomery form; every step still yields its own big.Int.
func (e *mcEng) chStart(x, sq *big.Int) {
	if e.q.Cmp(mcQ) != 0 || x.Sign() < 0 {
		return
	}
	e.chBase, e.chLast = x, sq
	e.chBaseM.SetBigInt(x)
	e.chM.SetBigInt(sq)
}

const mcSlab = 256

func (e *mcEng) chNext() *big.Int {
	e.chM.Mul(&e.chM, &e.chBaseM)
	if len(e.slab) == 0 {
		e.slab = make([]big.Int, mcSlab)
		e.words = make([]big.Word, 4*mcSlab)
	}
	r := &e.slab[0]
	w := e.words[:4:4]
	e.slab, e.words = e.slab[1:], e.words[4:]
	b := e.chM.Bits()
	w[0], w[1], w[2], w[3] = big.Word(b[0]), big.Word(b[1]), big.Word(b[2]), big.Word(b[3])
	r.SetBits(w)
	e.chLast = r
	return r
}
