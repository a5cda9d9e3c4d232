//go:build go1.22

package main

// C01: the whole aggregation circuit against the independent verifier, on the
// shipped proof, on every single-position change of its 130 input words (with
// stale and with recomputed quotients) and on multi-position changes.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

func c01Judge(a *aggIn, run func(func(frontend.API) error) error) mcRes {
	v := refAggregate(a)
	r := want(run(a.circuit().Define), v.Accept)
	r.State = r.Outcome + ":" + v.Why
	if r.Fail != "" {
		r.Fail += " (reference: " + v.Why + ")"
	}
	return r
}

// c01Bound follows a run up to the first group operation and tells whether it
// multiplies the instance base by the reference hash of these words.
func c01Bound(a *aggIn) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, stop := p.(mcStop); !stop {
				panic(p)
			}
		}
	}()
	h := modQ(refInstance(a.hashIn()))
	mcExec(a.circuit().Define, func(ev *mcHintEv) {
		if ev.Name == "MsmHint" {
			ok = len(ev.In) == 3 && ev.In[0].Cmp(refL0X) == 0 && ev.In[1].Cmp(refL0Y) == 0 && modQ(ev.In[2]).Cmp(h) == 0
			panic(mcStop{"bound"})
		}
	})
	return false
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per changed input word x value x (stale or recomputed quotients), per multi-word change, per lying hint; the circuit's verdict must be the independent verifier's"
	fx := refFixture()
	eng := func(f func(frontend.API) error) error { return mcExec(f, nil) }
	c.addConf("gnark/fixture", func() mcRes { return c01Judge(fx, mcReal) })
	c.add("fixture", func() mcRes { return c01Judge(fx, eng) })
	add := func(id string, f func(a *aggIn), recompute bool) {
		c.add(id, func() mcRes {
			a := fx.clone()
			f(a)
			if recompute && !fixAuxOf(a) {
				return mcRes{Outcome: "no-quotient", Trivial: true}
			}
			return c01Judge(a, eng)
		})
	}
	m1 := new(big.Int).Sub(mcQ, bU(1))
	isPt := func(i int) bool { return i < 44 || i >= 100 }
	// proof words
	for i := 0; i < 104; i++ {
		if isPt(i) {
			add(fmt.Sprintf("proof%d/off-curve", i), func(a *aggIn) { a.Proof[i] = new(big.Int).Add(a.Proof[i], bU(1)) }, false)
			if i%2 == 1 {
				continue
			}
			neg := func(a *aggIn) { a.Proof[i+1] = new(big.Int).Sub(mcP, a.Proof[i+1]) }
			oth := func(a *aggIn) { a.Proof[i], a.Proof[i+1] = ptXY(refMulG(bU(uint64(i + 9)))) }
			add(fmt.Sprintf("proof%d/neg/stale", i), neg, false)
			if c.Thorough || i%8 == 0 || i >= 100 {
				add(fmt.Sprintf("proof%d/neg", i), neg, true)
			}
			if c.Thorough {
				add(fmt.Sprintf("proof%d/other/stale", i), oth, false)
			}
			if c.Thorough || i%8 == 4 || i >= 100 {
				add(fmt.Sprintf("proof%d/other", i), oth, true)
			}
			continue
		}
		vals := []func(v *big.Int) *big.Int{
			func(v *big.Int) *big.Int { return modQ(new(big.Int).Add(v, bU(1))) },
			func(*big.Int) *big.Int { return bU(0) },
			func(v *big.Int) *big.Int { return modQ(new(big.Int).Neg(v)) },
			func(*big.Int) *big.Int { return cp(m1) },
		}
		for k, f := range vals {
			if !c.Thorough && k != i%4 {
				continue
			}
			set := func(a *aggIn) { a.Proof[i] = f(a.Proof[i]) }
			add(fmt.Sprintf("proof%d/%d/stale", i, k), set, false)
			if c.Thorough && k < 2 || i%5 == 0 {
				add(fmt.Sprintf("proof%d/%d", i, k), set, true)
			}
		}
	}
	// quotients
	for i := 0; i < 21; i++ {
		add(fmt.Sprintf("aux%d/+1", i), func(a *aggIn) { a.Aux[i] = modQ(new(big.Int).Add(a.Aux[i], bU(1))) }, false)
		if c.Thorough {
			add(fmt.Sprintf("aux%d/0", i), func(a *aggIn) { a.Aux[i] = bU(0) }, false)
			add(fmt.Sprintf("aux%d/neg", i), func(a *aggIn) { a.Aux[i] = modQ(new(big.Int).Neg(a.Aux[i])) }, false)
		}
	}
	// instances
	inst := func(i int) func(a *aggIn) **big.Int {
		return func(a *aggIn) **big.Int {
			if i < 4 {
				return &a.Target[i]
			}
			return &a.Inst
		}
	}
	for i := 0; i < 5; i++ {
		at := inst(i)
		for k, f := range []func(v *big.Int) *big.Int{
			func(v *big.Int) *big.Int { return new(big.Int).Add(v, bU(1)) },
			func(*big.Int) *big.Int { return bU(0) },
			func(v *big.Int) *big.Int { return new(big.Int).Xor(v, new(big.Int).Lsh(bU(1), 63)) },
			func(v *big.Int) *big.Int { return new(big.Int).Rsh(v, 8) },
		} {
			set := func(a *aggIn) { p := at(a); *p = f(*p) }
			if c.Thorough || k < 2 {
				add(fmt.Sprintf("instance%d/%d/stale", i, k), set, false)
			}
			if c.Thorough || k == 2 {
				add(fmt.Sprintf("instance%d/%d", i, k), set, true)
			}
		}
	}
	// every bit of every instance word: the run is followed up to the scalar
	// that commits to the instance, and to its end when that scalar is not the
	// reference's hash of these words
	for i := 0; i < 5; i++ {
		at := inst(i)
		for b0 := 0; b0 < 254; b0 += 16 {
			c.add(fmt.Sprintf("instance%d/bits%d", i, b0), func() mcRes {
				r := mcRes{Outcome: "bound"}
				for b := b0; b < b0+16 && b < 254; b++ {
					a := fx.clone()
					p := at(a)
					*p = new(big.Int).Xor(*p, new(big.Int).Lsh(bU(1), uint(b)))
					if (*p).Cmp(mcQ) >= 0 {
						continue
					}
					if c01Bound(a) {
						mcState(i, b)
						continue
					}
					if r = c01Judge(a, eng); r.Fail != "" {
						r.Fail = fmt.Sprintf("bit %d of instance word %d flipped: %s", b, i, r.Fail)
						return r
					}
				}
				return r
			})
		}
	}
	// the same five words, divided differently between target and verifier
	// instance: still the instance of the proof; and each word changed
	split := func(k int) *aggIn {
		w := fx.hashIn()
		a := fx.clone()
		a.Target = a.Target[:0]
		a.Target = append(a.Target, w[:k]...)
		if k == len(w) {
			a.NoInst = true
		} else {
			a.More, a.Inst = append([]*big.Int{}, w[k:len(w)-1]...), w[len(w)-1]
		}
		return a.clone()
	}
	bound := func(a *aggIn) mcRes {
		if c01Bound(a) {
			mcState(a.hashIn(), len(a.Target))
			return mcRes{Outcome: "bound"}
		}
		return c01Judge(a, eng)
	}
	for _, k := range []int{3, 0, 5, 1, 2} {
		if c.Thorough || k == 3 || k == 5 {
			c.add(fmt.Sprintf("split%d", k), func() mcRes { return c01Judge(split(k), eng) })
		}
		c.add(fmt.Sprintf("split%d/words", k), func() (r mcRes) {
			for w := 0; w < 5; w++ {
				for _, b := range []uint{0, 64, 200} {
					a := split(k)
					all := append(append([]*big.Int{}, a.Target...), a.verifyInst()...)
					all[w].Xor(all[w], new(big.Int).Lsh(bU(1), b))
					if r = bound(a); r.Fail != "" {
						r.Fail = fmt.Sprintf("%d target words, bit %d of word %d flipped: %s", k, b, w, r.Fail)
						return
					}
				}
			}
			return
		})
	}
	// more and fewer words
	for n := 0; n <= 12; n++ {
		c.add(fmt.Sprintf("words%d", n), func() (r mcRes) {
			for k := 0; k <= n; k += 1 + n/4 {
				a := fx.clone()
				a.Target, a.More = nil, nil
				for i := 0; i < n; i++ {
					v := bU(uint64(1000 + i))
					if i < 5 {
						v = cp(fx.hashIn()[i])
					} else if i == 5 {
						v = bU(0)
					}
					if i < k {
						a.Target = append(a.Target, v)
					} else {
						a.More = append(a.More, v)
					}
				}
				if m := len(a.More); m > 0 {
					a.More, a.Inst = a.More[:m-1], a.More[m-1]
				} else {
					a.NoInst = true
				}
				if r = bound(a); r.Fail != "" {
					r.Fail = fmt.Sprintf("%d words, %d of them target: %s", n, k, r.Fail)
					return
				}
			}
			return
		})
	}
	add("instances/swapped", func(a *aggIn) { a.Target[0], a.Target[1] = a.Target[1], a.Target[0] }, true)
	add("instances/rotated", func(a *aggIn) {
		a.Target[0], a.Target[1], a.Target[2], a.Target[3] = a.Target[1], a.Target[2], a.Target[3], a.Target[0]
	}, true)
	// target and verifier instance exchanged: same multiset of words
	add("instances/target-verifier", func(a *aggIn) { a.Target[3], a.Inst = a.Inst, a.Target[3] }, true)
	// consistent forgeries of the last step
	add("forge/W-and-W'", func(a *aggIn) {
		for _, i := range []int{100, 102} {
			a.Proof[i+1] = new(big.Int).Sub(mcP, a.Proof[i+1])
		}
	}, true)
	add("forge/W'=F-shifted", func(a *aggIn) {
		w := ptOf(a.Proof[102], a.Proof[103])
		g := refG()
		w.Add(&w, &g)
		a.Proof[102], a.Proof[103] = ptXY(w)
	}, true)
	add("forge/W'-doubled", func(a *aggIn) {
		w := ptOf(a.Proof[102], a.Proof[103])
		w.Double(&w)
		a.Proof[102], a.Proof[103] = ptXY(w)
	}, true)
	add("forge/infinity-W'", func(a *aggIn) { a.Proof[102], a.Proof[103] = bU(0), bU(0) }, true)
	add("forge/infinity-W", func(a *aggIn) { a.Proof[100], a.Proof[101] = bU(0), bU(0) }, true)
	// W' chosen (nothing is squeezed after it) so that the two final points are
	// equal, opposite, related, or one of them is fixed
	crafted := func(f func(s bn254.G1Affine, u *big.Int) (bn254.G1Affine, *big.Int)) func(a *aggIn) {
		return func(a *aggIn) {
			v := refAggregate(a)
			w, u := ptOf(a.Proof[102], a.Proof[103]), v.Ch.list()[7]
			var s, uw bn254.G1Affine
			uw.ScalarMultiplication(&w, u)
			s.Sub(&v.Out.F, &uw)
			b, d := f(s, u) // W' = b / d
			b.ScalarMultiplication(&b, new(big.Int).ModInverse(modQ(d), mcQ))
			a.Proof[102], a.Proof[103] = ptXY(b)
		}
	}
	add("forge/W'=F", crafted(func(s bn254.G1Affine, u *big.Int) (bn254.G1Affine, *big.Int) {
		return s, new(big.Int).Sub(bU(1), u)
	}), true)
	add("forge/W'=-F", crafted(func(s bn254.G1Affine, u *big.Int) (bn254.G1Affine, *big.Int) {
		s.Neg(&s)
		return s, new(big.Int).Add(bU(1), u)
	}), true)
	add("forge/F=infinity", crafted(func(s bn254.G1Affine, u *big.Int) (bn254.G1Affine, *big.Int) {
		s.Neg(&s)
		return s, u
	}), true)
	add("forge/F=G", crafted(func(s bn254.G1Affine, u *big.Int) (bn254.G1Affine, *big.Int) {
		g := refG()
		g.Sub(&g, &s)
		return g, u
	}), true)
	add("forge/F=2W'", crafted(func(s bn254.G1Affine, u *big.Int) (bn254.G1Affine, *big.Int) {
		return s, new(big.Int).Sub(bU(2), u)
	}), true)
	add("forge/swap-commitments", func(a *aggIn) {
		a.Proof[0], a.Proof[1], a.Proof[2], a.Proof[3] = a.Proof[2], a.Proof[3], a.Proof[0], a.Proof[1]
	}, true)
	add("forge/swap-evals", func(a *aggIn) { a.Proof[45], a.Proof[46] = a.Proof[46], a.Proof[45] }, true)
	// a word added and one subtracted
	for i := 44; i < 99; i += 11 {
		add(fmt.Sprintf("forge/shift%d", i), func(a *aggIn) {
			a.Proof[i], a.Proof[i+1] = modQ(new(big.Int).Add(a.Proof[i], bU(1))), modQ(new(big.Int).Sub(a.Proof[i+1], bU(1)))
		}, true)
	}
	// lying hints on a false statement: the last group operations are answered
	// with the points that would make the accepted pairing come out
	v := refAggregate(fx)
	fxp, fyp := ptXY(v.Out.F)
	for _, i := range []int{60, 99} {
		c.add(fmt.Sprintf("lie/final-point/%d", i), func() mcRes {
			a := fx.clone()
			a.Proof[i] = modQ(new(big.Int).Add(a.Proof[i], bU(1)))
			if !fixAuxOf(a) {
				return mcRes{Outcome: "no-quotient", Trivial: true}
			}
			nAdd := 0
			mcExec(a.circuit().Define, func(h *mcHintEv) {
				if h.Name == "AddHint" {
					nAdd++
				}
			})
			k := 0
			return want(mcExec(a.circuit().Define, func(h *mcHintEv) {
				if h.Name == "AddHint" {
					k++
					if k == nAdd {
						h.Out[0], h.Out[1] = cp(fxp), cp(fyp)
					}
				}
			}), false)
		})
	}
	_ = bn254.G1Affine{}
	c.Bounds["input_words"] = 104 + 21 + 5
	c.Assume = []string{
		"the independent verifier of ref_test.go (it accepts the shipped proof)",
		"honest completeness is explored on the shipped proof: further accepted proofs need the prover's SRS, which is not available",
	}
}
