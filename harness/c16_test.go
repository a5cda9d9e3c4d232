//go:build go1.22

package main

// C16: the range and non-zero gadgets, on every triple of a small prime field
// (compiled, with gnark's own solver) and on all boundary triples of the full
// field (direct evaluation and compiled).

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

type c16Range struct {
	X, Min, Max frontend.Variable
}

func (c *c16Range) Define(api frontend.API) error { return VerifyRangeCheck(api, c.X, c.Min, c.Max) }

// the same gadget with one operand a constant of the circuit
type c16RangeK struct {
	A, B frontend.Variable
	kind int
	k    int64
}

func (c *c16RangeK) Define(api frontend.API) error {
	v := [][3]frontend.Variable{{c.k, c.A, c.B}, {c.A, c.k, c.B}, {c.A, c.B, c.k}}[c.kind]
	return VerifyRangeCheck(api, v[0], v[1], v[2])
}

type c16NZ struct {
	X frontend.Variable
}

func (c *c16NZ) Define(api frontend.API) error { return VerifyNotZero(api, c.X) }

func mcDefine(c *mcCheck) {
	c.Rule = "one case per (system, x) of the small field, covering every (min, max); one per boundary x of the full field, covering every boundary (min, max); satisfied iff min <= x <= max as integers, and x != 0"
	small := big.NewInt(47)
	for _, plonk := range []bool{true, false} {
		name := map[bool]string{true: "scs", false: "r1cs"}[plonk]
		rc := mcCompile(small, plonk, &c16Range{})
		nz := mcCompile(small, plonk, &c16NZ{})
		for x := int64(0); x < 47; x++ {
			c.addConf(fmt.Sprintf("small/%s/x%d", name, x), func() mcRes {
				for lo := int64(0); lo < 47; lo++ {
					for hi := int64(0); hi < 47; hi++ {
						err := mcSolve(rc, small, &c16Range{X: x, Min: lo, Max: hi})
						mcState("s", name, x, lo, hi, err == nil)
						if r := want(err, lo <= x && x <= hi); r.Fail != "" {
							r.Fail = fmt.Sprintf("field 47, x=%d min=%d max=%d: %s", x, lo, hi, r.Fail)
							return r
						}
					}
				}
				return want(mcSolve(nz, small, &c16NZ{X: x}), x != 0)
			})
		}
	}
	for _, plonk := range []bool{true, false} {
		name := map[bool]string{true: "scs", false: "r1cs"}[plonk]
		for kind, kn := range []string{"x", "min", "max"} {
			c.addConf(fmt.Sprintf("small/%s/const-%s", name, kn), func() mcRes {
				for k := int64(0); k < 47; k++ {
					cc := mcCompile(small, plonk, &c16RangeK{kind: kind, k: k})
					for a := int64(0); a < 47; a++ {
						for b := int64(0); b < 47; b++ {
							if !c.Thorough && (a-k)*(a-k) > 4 && (b-k)*(b-k) > 4 && (a+b+k)%7 != 0 {
								continue
							}
							v := [][3]int64{{k, a, b}, {a, k, b}, {a, b, k}}[kind]
							err := mcSolve(cc, small, &c16RangeK{A: a, B: b})
							mcState("k", name, kind, k, a, b, err == nil)
							if r := want(err, v[1] <= v[0] && v[0] <= v[2]); r.Fail != "" {
								r.Fail = fmt.Sprintf("field 47, %s constant, x=%d min=%d max=%d: %s", kn, v[0], v[1], v[2], r.Fail)
								return r
							}
						}
					}
				}
				return mcRes{Outcome: "accept"}
			})
		}
	}
	c.Bounds["small_field"] = "47, all 47^3 triples, scs and r1cs"
	var al []*big.Int
	half := new(big.Int).Rsh(mcQ, 1)
	add := func(b *big.Int) {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Add(b, big.NewInt(d))
			if v.Sign() >= 0 && v.Cmp(mcQ) < 0 {
				dup := false
				for _, e := range al {
					dup = dup || e.Cmp(v) == 0
				}
				if !dup {
					al = append(al, v)
				}
			}
		}
	}
	add(bU(0))
	add(bU(18))
	add(half)
	add(mcQ)
	ks := []uint{8, 32, 64, 253}
	if c.Thorough {
		ks = []uint{2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 248, 252, 253}
		add(bU(100))
	}
	for _, k := range ks {
		add(new(big.Int).Lsh(bU(1), k))
	}
	c.Bounds["boundary_alphabet"] = len(al)
	// direct evaluation; the circuits' operands may also be Go constants
	for i, x := range al {
		c.add(fmt.Sprintf("full/x%d", i), func() mcRes {
			for _, lo := range al {
				for _, hi := range al {
					err := mcExecFor(lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0, func(api frontend.API) error { return VerifyRangeCheck(api, cp(x), cp(lo), cp(hi)) })
					mcState("f", x, lo, hi, err == nil)
					if r := want(err, lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0); r.Fail != "" {
						r.Fail = fmt.Sprintf("x=%s min=%s max=%s: %s", x, lo, hi, r.Fail)
						return r
					}
				}
			}
			r := want(mcExecFor(x.Sign() != 0, func(api frontend.API) error { return VerifyNotZero(api, cp(x)) }), x.Sign() != 0)
			if r.Fail != "" {
				r.Fail = fmt.Sprintf("VerifyNotZero(%s): %s", x, r.Fail)
			}
			return r
		})
		c.addConf(fmt.Sprintf("gnark/x%d", i), func() mcRes {
			for j := range al {
				lo, hi := al[j], al[(j*3+i)%len(al)]
				if r := want(mcReal(func(api frontend.API) error { return VerifyRangeCheck(api, cp(x), cp(lo), cp(hi)) }), lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0); r.Fail != "" {
					return r
				}
			}
			return want(mcReal(func(api frontend.API) error { return VerifyNotZero(api, cp(x)) }), x.Sign() != 0)
		})
	}
	for _, plonk := range []bool{true, false} {
		name := map[bool]string{true: "scs", false: "r1cs"}[plonk]
		rc := mcCompile(mcQ, plonk, &c16Range{})
		nz := mcCompile(mcQ, plonk, &c16NZ{})
		for i, x := range al {
			c.addConf(fmt.Sprintf("compiled/%s/x%d", name, i), func() mcRes {
				for a, lo := range al {
					for b, hi := range al {
						near := func(u, v int) bool { return u-v <= 1 && v-u <= 1 }
						if !c.Thorough && !near(a, i) && !near(b, i) && (a+b+i)%5 != 0 {
							continue
						}
						err := mcSolve(rc, mcQ, &c16Range{X: x, Min: lo, Max: hi})
						mcState("c", name, x, lo, hi, err == nil)
						if r := want(err, lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0); r.Fail != "" {
							r.Fail = fmt.Sprintf("%s x=%s min=%s max=%s: %s", name, x, lo, hi, r.Fail)
							return r
						}
					}
				}
				return want(mcSolve(nz, mcQ, &c16NZ{X: x}), x.Sign() != 0)
			})
		}
	}
	// a forged proof whose final points are not invertible: W' at infinity, W'
	// chosen so that F is at infinity, and the last hint answering (0, y),
	// (x, 0) or (0, 0) for F
	fx := refFixture()
	forge := func(id string, fn func(a *aggIn), lie func(last *mcHintEv)) {
		c.add("aggregate/"+id, func() mcRes {
			a := fx.clone()
			fn(a)
			if !fixAuxOf(a) {
				return mcRes{Outcome: "no-quotient", Trivial: true}
			}
			if lie == nil {
				return want(mcExec(a.circuit().Define, nil), false)
			}
			n, k := 0, 0
			mcExec(a.circuit().Define, func(h *mcHintEv) {
				if h.Name == "AddHint" {
					n++
				}
			})
			return want(mcExec(a.circuit().Define, func(h *mcHintEv) {
				if h.Name == "AddHint" {
					if k++; k == n {
						lie(h)
					}
				}
			}), false)
		})
	}
	forge("W'", func(a *aggIn) { a.Proof[102], a.Proof[103] = bU(0), bU(0) }, nil)
	forge("F", func(a *aggIn) {
		v := refAggregate(a)
		w, u := ptOf(a.Proof[102], a.Proof[103]), v.Ch.list()[7]
		var b, uw bn254.G1Affine
		uw.ScalarMultiplication(&w, u)
		b.Sub(&uw, &v.Out.F)
		b.ScalarMultiplication(&b, new(big.Int).ModInverse(u, mcQ))
		a.Proof[102], a.Proof[103] = ptXY(b)
	}, nil)
	for mask := 1; mask < 4; mask++ {
		forge(fmt.Sprintf("lie/%d", mask), func(a *aggIn) {}, func(h *mcHintEv) {
			for i := 0; i < 2; i++ {
				if mask>>i&1 == 1 {
					h.Out[i] = bU(0)
				}
			}
		})
	}
	c.add("notzero/powers", func() mcRes {
		for k := uint(0); k < 254; k++ {
			for _, d := range []int64{-1, 0, 1} {
				v := modQ(new(big.Int).Add(new(big.Int).Lsh(bU(1), k), big.NewInt(d)))
				if r := want(mcExecFor(v.Sign() != 0, func(api frontend.API) error { return VerifyNotZero(api, v) }), v.Sign() != 0); r.Fail != "" {
					r.Fail = "VerifyNotZero(" + v.String() + "): " + r.Fail
					return r
				}
			}
		}
		return mcRes{Outcome: "accept"}
	})
	c.Assume = []string{"gnark's constraint solver and test engine"}
}
