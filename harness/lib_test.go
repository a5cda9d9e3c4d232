//go:build go1.22

package main

// Helpers shared by the checks.

import (
	"crypto/sha256"
	"math/big"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	fcs "github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
)

func modQ(x *big.Int) *big.Int { return new(big.Int).Mod(x, mcQ) }

// numOf reads a result the circuit code returned.
func numOf(v frontend.Variable) *big.Int {
	switch t := v.(type) {
	case *big.Int:
		return t
	case big.Int:
		return &t
	case int:
		return big.NewInt(int64(t))
	case uint64:
		return bU(t)
	case error:
		return nil
	}
	return newEng().big(v)
}

func cp(x *big.Int) *big.Int { return new(big.Int).Set(x) }

func mcCompile(q *big.Int, plonk bool, circ frontend.Circuit) constraint.ConstraintSystem {
	b := frontend.NewBuilder(r1cs.NewBuilder)
	if plonk {
		b = scs.NewBuilder
	}
	ccs, err := frontend.Compile(q, b, circ)
	if err != nil {
		panic("compile: " + err.Error())
	}
	return ccs
}

// the commitment challenge of a compiled system, as a hash of what it commits
// to (the proving system supplies it; the solver alone has only a placeholder)
var mcCommitID = solver.GetHintID(fcs.Bsb22CommitmentComputePlaceholder)

func mcCommitHint(q *big.Int, in, out []*big.Int) error {
	h := sha256.New()
	var b [32]byte
	for _, x := range in {
		h.Write(x.FillBytes(b[:]))
	}
	out[0].SetBytes(h.Sum(nil))
	out[0].Mod(out[0], q)
	if out[0].Sign() == 0 {
		out[0].SetUint64(1)
	}
	return nil
}

// mcOverride replaces one of the repository's hints.
func mcOverride(h solver.Hint, f solver.Hint) solver.Option {
	return solver.OverrideHint(solver.GetHintID(h), f)
}

func mcSolve(ccs constraint.ConstraintSystem, q *big.Int, as frontend.Circuit, opts ...solver.Option) error {
	w, err := frontend.NewWitness(as, q)
	if err != nil {
		panic("witness: " + err.Error())
	}
	_, err = ccs.Solve(w, append(opts, solver.WithNbTasks(1), solver.OverrideHint(mcCommitID, mcCommitHint))...)
	mcTrans.Add(int64(ccs.GetNbConstraints()))
	mcExecs.Add(1)
	return err
}

// circuit builds the aggregation circuit for an input.
func (a *aggIn) circuit() *AggregatorCircuit {
	return &AggregatorCircuit{
		Proof: mcVars(a.Proof), VerifyInst: mcVars(a.verifyInst()), Aux: mcVars(a.Aux), TargetInst: mcVars(a.Target),
	}
}

func mcVars(w []*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(w))
	for i := range w {
		r[i] = new(big.Int).Set(w[i])
	}
	return r
}

// mcVerify runs the three verifier steps on given challenges.
func mcVerify(api frontend.API, proof, aux []*big.Int, ic0, ic1 *big.Int, ch []*big.Int) (buf [43]frontend.Variable, err error) {
	for i := range buf {
		buf[i] = new(big.Int)
	}
	buf[0], buf[1] = new(big.Int).Set(ic0), new(big.Int).Set(ic1)
	for i := range ch {
		buf[2+i] = new(big.Int).Set(ch[i])
	}
	pv, av := mcVars(proof), mcVars(aux)
	if buf, err = VerifyProof1(api, pv, av, buf); err != nil {
		return
	}
	if buf, err = VerifyProof2(api, pv, av, buf); err != nil {
		return
	}
	return VerifyProof3(api, pv, av, buf)
}

// chFrom is the inverse of refCh.list.
func chFrom(l []*big.Int) *refCh {
	return &refCh{frOf(l[0]), frOf(l[1]), frOf(l[2]), frOf(l[3]), frOf(l[4]), frOf(l[5]), frOf(l[6]), frOf(l[7])}
}

// mcExecFalse runs a statement that is false, first with honest hints, then
// with a lying prover: if the code asks hints of its own, each answer alone,
// and all answers together, are replaced by the values of a small alphabet.
// It returns nil when any of these executions is accepted.
func mcExecFalse(f func(api frontend.API) error) error {
	var outs []int
	honest := mcExec(f, func(ev *mcHintEv) { outs = append(outs, len(ev.Out)) })
	if honest == nil || len(outs) == 0 {
		return honest
	}
	one := bU(1)
	lies := []func(x *big.Int){
		func(x *big.Int) { x.SetInt64(0) },
		func(x *big.Int) { x.SetInt64(1) },
		func(x *big.Int) { x.Sub(one, x) },
		func(x *big.Int) { x.Add(x, one) },
		func(x *big.Int) { x.Neg(x) },
	}
	try := func(pick func(n, k int) bool) error {
		for _, l := range lies {
			if mcExec(f, func(ev *mcHintEv) {
				for k := range ev.Out {
					if pick(ev.N, k) {
						l(ev.Out[k])
					}
				}
			}) == nil {
				return nil
			}
		}
		return honest
	}
	if try(func(n, k int) bool { return true }) == nil {
		return nil
	}
	step := 1 + len(outs)/6
	for n := 0; n < len(outs); n += step {
		if len(outs) > 1 && try(func(m, k int) bool { return m == n }) == nil {
			return nil
		}
		for j := 0; outs[n] > 1 && j < outs[n] && j < 4; j++ {
			if try(func(m, k int) bool { return m == n && k == j }) == nil {
				return nil
			}
		}
	}
	return honest
}

// mcExecFor is mcExec for statements that hold, mcExecFalse for others.
func mcExecFor(holds bool, f func(api frontend.API) error) error {
	if holds {
		return mcExec(f, nil)
	}
	return mcExecFalse(f)
}

// fixAuxOf replaces the quotients by those a prover would compute for a.
func fixAuxOf(a *aggIn) bool {
	ic := refInstCommit(refInstance(a.hashIn()))
	i0, i1 := ptXY(ic)
	for i := 0; i < 104; i += 2 {
		if i >= 44 && i < 100 {
			continue
		}
		if p := ptOf(a.Proof[i], a.Proof[i+1]); !p.IsOnCurve() {
			return false
		}
	}
	out := refReduce(a.Proof, ic, refChallenges(i0, i1, a.Proof))
	a.Aux = refAuxBig(out)
	return !out.Deg
}
