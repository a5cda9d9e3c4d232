//go:build go1.22

package main

// C05: the quotients are forced.  Each of the 21 positions with wrong values,
// pairs of positions with compensating wrong values, and the division gadget
// on all triples of a boundary alphabet (and of a small field, compiled).

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
)

type c05Div struct {
	A, B, Aux frontend.Variable
}

func (d *c05Div) Define(api frontend.API) error {
	api.AssertIsEqual(fr_div(api, d.A, d.B, d.Aux), d.Aux)
	return nil
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per (position, wrong value), per pair of positions with compensating values, and per numerator of the division alphabet (all denominators and quotients inside); a wrong quotient must be refused, the true ones accepted"
	// ---- division gadget, direct ----
	half := new(big.Int).Rsh(mcQ, 1)
	rnd := refRand(5)
	al := []*big.Int{bU(0), bU(1), bU(2), bU(3), new(big.Int).Sub(mcQ, bU(1)), new(big.Int).Sub(mcQ, bU(2)), half, new(big.Int).Add(half, bU(1)), new(big.Int).Lsh(bU(1), 128), rnd(), rnd()}
	if c.Thorough {
		for i := 0; i < 14; i++ {
			al = append(al, rnd())
		}
	}
	inv := func(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, mcQ) }
	for i, a := range al {
		c.add(fmt.Sprintf("div/a%d", i), func() mcRes {
			for _, b := range al {
				xs := append([]*big.Int{}, al...)
				if b.Sign() != 0 {
					t := modQ(new(big.Int).Mul(a, inv(b)))
					xs = append(xs, t, modQ(new(big.Int).Add(t, bU(1))), modQ(new(big.Int).Neg(t)), modQ(new(big.Int).Sub(t, bU(1))), modQ(new(big.Int).Lsh(t, 1)))
				}
				for _, x := range xs {
					exp := modQ(new(big.Int).Mul(b, x)).Cmp(a) == 0
					for dev := -1; dev < 4; dev++ {
						var out frontend.Variable
						var hook func(*mcHintEv)
						if dev >= 0 {
							if exp && dev > 1 {
								continue
							}
							hook = func(h *mcHintEv) {
								// the prover tries to make the product come out right
								switch dev {
								case 0:
									h.Out[len(h.Out)-1] = cp(a)
								case 1:
									if h.N == 0 {
										h.Out[len(h.Out)-1] = cp(a)
									}
								case 2:
									h.Out[len(h.Out)-1] = cp(a)
									h.Out[0] = modQ(new(big.Int).Sub(new(big.Int).Mul(b, x), a))
								case 3:
									if h.N == 0 {
										h.Out[len(h.Out)-1] = cp(a)
										h.Out[0] = modQ(new(big.Int).Mul(new(big.Int).Sub(new(big.Int).Mul(b, x), a), bU(7)))
									}
								}
							}
						}
						err := mcExec(func(api frontend.API) error { out = fr_div(api, cp(a), cp(b), cp(x)); return nil }, hook)
						mcState(a, b, x, dev, err == nil)
						if (err == nil) != exp && (dev < 0 || err == nil) {
							return mcRes{Outcome: verdict(err), Fail: fmt.Sprintf("fr_div(%s, %s, aux=%s) deviation %d: accepted=%v, expected %v", a, b, x, dev, err == nil, exp)}
						}
						if err == nil && numOf(out).Cmp(x) != 0 {
							return mcRes{Outcome: verdict(err), Fail: fmt.Sprintf("fr_div(%s, %s, aux=%s) returned %s", a, b, x, numOf(out))}
						}
					}
				}
			}
			return mcRes{Outcome: "exact"}
		})
	}
	// compiled, on gnark's solver
	for _, plonk := range []bool{true, false} {
		name := map[bool]string{true: "scs", false: "r1cs"}[plonk]
		ccs := mcCompile(mcQ, plonk, &c05Div{})
		for i, a := range al {
			c.addConf(fmt.Sprintf("div/compiled/%s/a%d", name, i), func() mcRes {
				for _, b := range al {
					xs := append([]*big.Int{}, al...)
					if b.Sign() != 0 {
						xs = append(xs, modQ(new(big.Int).Mul(a, inv(b))))
					}
					for _, x := range xs {
						if r := want(mcSolve(ccs, mcQ, &c05Div{a, b, x}), modQ(new(big.Int).Mul(b, x)).Cmp(a) == 0); r.Fail != "" {
							r.Fail = fmt.Sprintf("%s fr_div(%s, %s, aux=%s): %s", name, a, b, x, r.Fail)
							return r
						}
					}
				}
				return mcRes{Outcome: "exact"}
			})
		}
	}
	// ---- positions in the verifier ----
	fx := refFixture()
	ic := refInstCommit(refInstance(fx.hashIn()))
	i0, i1 := ptXY(ic)
	ch := refChallenges(i0, i1, fx.Proof)
	run := func(aux []*big.Int, hook func(*mcHintEv)) error {
		return mcExec(func(api frontend.API) error {
			_, e := mcVerify(api, fx.Proof, aux, i0, i1, ch.list())
			return e
		}, hook)
	}
	truth := refAuxBig(refReduce(fx.Proof, ic, ch))
	c.add("true", func() mcRes { return want(run(truth, nil), true) })
	wrong := func(t *big.Int, i int) []*big.Int {
		return []*big.Int{
			modQ(new(big.Int).Add(t, bU(1))), bU(0), modQ(new(big.Int).Neg(t)), inv(t), modQ(new(big.Int).Lsh(t, 1)), bU(1),
			cp(truth[(i+1)%21]), modQ(new(big.Int).Sub(t, bU(1))), new(big.Int).Xor(t, bU(1)), new(big.Int).Rsh(t, 1), new(big.Int).Sub(mcQ, bU(1)),
		}
	}
	nw := 4
	if c.Thorough {
		nw = 11
	}
	c.Bounds["positions"] = 21
	c.Bounds["wrong_values_per_position"] = nw
	for i := range truth {
		for k, w := range wrong(truth[i], i)[:nw] {
			if w.Cmp(truth[i]) == 0 {
				continue
			}
			c.add(fmt.Sprintf("aux%d/%d", i, k), func() mcRes {
				a := append([]*big.Int{}, truth...)
				a[i] = w
				return want(run(a, nil), false)
			})
		}
		// the reduction hint lies where the wrong quotient is used: the answer
		// for "denominator * wrong" is replaced by the numerator
		c.add(fmt.Sprintf("aux%d/lie", i), func() mcRes {
			a := append([]*big.Int{}, truth...)
			w := modQ(new(big.Int).Lsh(truth[i], 1))
			a[i] = w
			done := false
			err := run(a, func(h *mcHintEv) {
				if h.Name != "modHint" || done {
					return
				}
				n := modQ(new(big.Int).Mul(h.In[0], new(big.Int).ModInverse(bU(2), mcQ)))
				if i != 16 && n.Cmp(bU(1)) == 0 { // 1 = den*true, doubled
					h.Out[1], done = bU(1), true
				}
			})
			return want(err, false)
		})
	}
	// compensating pairs
	two := inv(bU(2))
	for i := 0; i < 21; i++ {
		for j := i + 1; j < 21; j++ {
			if !c.Thorough && i >= 9 && !(j == i+1 || j == i+2 || (i+j)%9 == 0) {
				continue
			}
			c.add(fmt.Sprintf("pair/%d-%d", i, j), func() mcRes {
				a := append([]*big.Int{}, truth...)
				a[i], a[j] = modQ(new(big.Int).Lsh(a[i], 1)), modQ(new(big.Int).Mul(a[j], two))
				if r := want(run(a, nil), false); r.Fail != "" {
					return r
				}
				if !c.Thorough && j > i+2 && (i+j)%5 != 0 {
					return mcRes{Outcome: "reject"}
				}
				// compensation in the sum of the products, of the quotients; exchanged
				for _, v := range [][2]*big.Int{{modQ(new(big.Int).Lsh(truth[i], 1)), bU(0)}, {bU(0), modQ(new(big.Int).Lsh(truth[j], 1))},
					{modQ(new(big.Int).Add(truth[i], bU(1))), modQ(new(big.Int).Sub(truth[j], bU(1)))}, {truth[j], truth[i]}} {
					a = append([]*big.Int{}, truth...)
					a[i], a[j] = v[0], v[1]
					if truth[i].Cmp(v[0]) == 0 {
						continue
					}
					if r := want(run(a, nil), false); r.Fail != "" {
						return r
					}
				}
				a = append([]*big.Int{}, truth...)
				a[i], a[j] = modQ(new(big.Int).Neg(a[i])), modQ(new(big.Int).Neg(a[j]))
				if r := want(run(a, nil), false); r.Fail != "" {
					return r
				}
				a = append([]*big.Int{}, truth...)
				a[i], a[j] = modQ(new(big.Int).Add(a[i], bU(5))), modQ(new(big.Int).Sub(a[j], bU(5)))
				if r := want(run(a, nil), false); r.Fail != "" {
					return r
				}
				a = append([]*big.Int{}, truth...)
				if a[i].Cmp(a[j]) == 0 {
					return mcRes{Outcome: "reject"}
				}
				a[i], a[j] = a[j], a[i]
				return want(run(a, nil), false)
			})
		}
	}
	// all positions wrong at once
	c.add("all/zero", func() mcRes {
		a := make([]*big.Int, 21)
		for i := range a {
			a[i] = bU(0)
		}
		return want(run(a, nil), false)
	})
	c.add("all/neg", func() mcRes {
		a := make([]*big.Int, 21)
		for i := range a {
			a[i] = modQ(new(big.Int).Neg(truth[i]))
		}
		return want(run(a, nil), false)
	})
	// conformance: gnark's engine refuses as well
	for i := 0; i < 21; i += 5 {
		c.addConf(fmt.Sprintf("gnark/aux%d", i), func() mcRes {
			a := append([]*big.Int{}, truth...)
			a[i] = modQ(new(big.Int).Add(a[i], bU(1)))
			return want(mcReal(func(api frontend.API) error { _, e := mcVerify(api, fx.Proof, a, i0, i1, ch.list()); return e }), false)
		})
	}
	// a second transcript, all positions
	p2 := fx.clone().Proof
	for i := 44; i < 100; i++ {
		p2[i] = modQ(new(big.Int).Mul(p2[i], bU(uint64(i))))
	}
	chs2 := refChallenges(i0, i1, p2)
	t2 := refAuxBig(refReduce(p2, ic, chs2))
	for i := range t2 {
		if !c.Thorough && i%3 != 0 {
			continue
		}
		c.add(fmt.Sprintf("second/aux%d", i), func() mcRes {
			a := append([]*big.Int{}, t2...)
			a[i] = modQ(new(big.Int).Add(a[i], bU(uint64(1+i))))
			return want(mcExec(func(api frontend.API) error { _, e := mcVerify(api, p2, a, i0, i1, chs2.list()); return e }, nil), false)
		})
	}
	c.Assume = []string{"denominators are nonzero (a vanishing denominator needs a challenge equal to a fixed rotation of another)"}
}
