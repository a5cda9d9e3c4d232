//go:build go1.22

package main

// C17: the standalone curve circuits.  Terms are multiples of the generator
// with known factors; the true result is computed with gnark-crypto from the
// definition; every claimed result of an alphabet is tried.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/secp256k1"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
)

var c17Lambda = bI("4407920970296243842393367215006156084916469457145843978461")

func c17Pt(p bn254.G1Affine) sw_emulated.AffinePoint[emparams.BN254Fp] {
	return sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](p.X), Y: emulated.ValueOf[emparams.BN254Fp](p.Y)}
}

type c17Term struct{ d, k *big.Int }

func (t c17Term) String() string { return t.k.String() + "*[" + t.d.String() + "]G" }

func c17Sum(ts []c17Term) *big.Int {
	t := new(big.Int)
	for _, x := range ts {
		t.Add(t, new(big.Int).Mul(x.d, x.k))
	}
	return modQ(t)
}

// c17Related: a = +-lambda^i b
func c17Related(a, b *big.Int) bool {
	v := cp(b)
	for i := 0; i < 3; i++ {
		if modQ(new(big.Int).Sub(a, v)).Sign() == 0 || modQ(new(big.Int).Add(a, v)).Sign() == 0 {
			return true
		}
		v = modQ(new(big.Int).Mul(v, c17Lambda))
	}
	return false
}

// c17Tiny: scalars on which the incomplete single multiplication meets an
// exceptional addition.
func c17Tiny(k *big.Int) bool {
	for a := int64(-2); a <= 2; a++ {
		for b := int64(-2); b <= 2; b++ {
			if b == 0 && a >= 1 {
				continue
			}
			v := new(big.Int).Mul(big.NewInt(b), c17Lambda)
			if modQ(v.Add(v, big.NewInt(a)).Sub(v, k)).Sign() == 0 {
				return true
			}
		}
	}
	return false
}

// c17Regular: the incomplete formulas gnark uses by default are total here.
// Terms are taken in pairs (an odd last one alone); a pair needs unrelated
// points, and the partial sums must differ up to sign and not vanish.
func c17Regular(ts []c17Term) bool {
	n := len(ts)
	for _, t := range ts {
		if modQ(t.d).Sign() == 0 || modQ(t.k).Sign() == 0 {
			return false
		}
	}
	if n == 0 {
		return true
	}
	pair := func(a, b c17Term) (*big.Int, bool) {
		s := c17Sum([]c17Term{a, b})
		return s, !c17Related(a.d, b.d) && s.Sign() != 0
	}
	var acc *big.Int
	ok := true
	if n%2 == 1 {
		acc = c17Sum(ts[n-1:])
		ok = !c17Tiny(ts[n-1].k)
	} else {
		acc, ok = pair(ts[n-2], ts[n-1])
	}
	for i := 1; i < n-1; i += 2 {
		s, o := pair(ts[i-1], ts[i])
		if !o || s.Cmp(acc) == 0 {
			ok = false
		}
		acc = modQ(new(big.Int).Add(acc, s))
		if acc.Sign() == 0 {
			ok = false
		}
	}
	return ok
}

// c17Claims: the true result and the wrong ones.
func c17Claims(true_ *big.Int, ts []c17Term) (names []string, pts []bn254.G1Affine) {
	add := func(n string, p bn254.G1Affine) { names = append(names, n); pts = append(pts, p) }
	g := refG()
	r := refMulG(true_)
	add("true", r)
	var t bn254.G1Affine
	t.Neg(&r)
	add("negated", t)
	t.Double(&r)
	add("doubled", t)
	t.Add(&r, &g)
	add("plus G", t)
	t.Sub(&r, &g)
	add("minus G", t)
	add("swapped", bn254.G1Affine{X: r.Y, Y: r.X})
	t = r
	t.Y.Add(&t.Y, &g.X)
	add("y+1", t)
	t = r
	t.X.Add(&t.X, &g.X)
	add("x+1", t)
	add("infinity", bn254.G1Affine{})
	add("endomorphism", refMulG(modQ(new(big.Int).Mul(true_, c17Lambda))))
	for i, x := range ts {
		if i < 4 {
			add(fmt.Sprintf("P%d", i), refMulG(modQ(x.d)))
			add(fmt.Sprintf("term%d", i), refMulG(c17Sum(ts[i:i+1])))
			var u bn254.G1Affine
			m := refMulG(c17Sum(ts[i : i+1]))
			u.Sub(&r, &m)
			add(fmt.Sprintf("without term%d", i), u)
		}
	}
	return
}

// c17Judge: exact on the regular domain, never wrong outside it.
func c17Judge(err error, equal, regular bool, what string) mcRes {
	r := mcRes{Outcome: verdict(err)}
	if err == nil && !equal {
		r.Fail = what + ": a wrong result is accepted"
	} else if err != nil && equal && regular {
		r.Fail = what + ": the true result is refused: " + oneLine(err)
	}
	mcState(what, err == nil)
	return r
}

func c17MSM(ts []c17Term, res bn254.G1Affine) *MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr] {
	w := &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{Res: c17Pt(res)}
	for _, t := range ts {
		w.Points = append(w.Points, c17Pt(refMulG(modQ(t.d))))
		w.Scalars = append(w.Scalars, emulated.ValueOf[emparams.BN254Fr](t.k))
	}
	return w
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per term list; the true result accepted (on the regular domain of the incomplete formulas), every other claim of the alphabet rejected always"
	c.Assume = []string{"gnark-crypto group arithmetic as reference", "regular: nonzero points and scalars, the two points of a pair unrelated by sign or the endomorphism, partial sums distinct and nonzero, single scalars not of the form a+b*lambda with |a|,|b| <= 2 except 1 and 2"}
	rnd := refRand(5)
	r1, r2, r3, r4 := rnd(), rnd(), rnd(), rnd()
	q := func(k int64) *big.Int { return modQ(big.NewInt(k)) }
	D := []*big.Int{bU(1), bU(2), q(-1), r1}
	K := []*big.Int{bU(1), bU(2), bU(3), bU(255), new(big.Int).Lsh(bU(1), 127), new(big.Int).Lsh(bU(1), 128), new(big.Int).Lsh(bU(1), 253), new(big.Int).Rsh(mcQ, 1), q(-1), q(-2), q(-3), bU(0), c17Lambda, new(big.Int).Add(c17Lambda, bU(1)), r2}
	if c.Thorough {
		D = append(D, bU(3), bU(7), q(-2), c17Lambda, r3)
		K = append(K, bU(4), bU(5), bU(256), new(big.Int).Lsh(bU(1), 64), new(big.Int).Sub(new(big.Int).Lsh(bU(1), 128), bU(1)), new(big.Int).Add(new(big.Int).Rsh(mcQ, 1), bU(1)), q(-4), new(big.Int).Sub(mcQ, c17Lambda), rnd(), rnd())
	}
	c.Bounds["points"], c.Bounds["scalars"] = len(D), len(K)

	run := func(real bool, ts []c17Term, pick func(i int) bool) mcRes {
		t := c17Sum(ts)
		names, pts := c17Claims(t, ts)
		truth := refMulG(t)
		reg := c17Regular(ts)
		var r mcRes
		for i := range names {
			if !pick(i) {
				continue
			}
			w := c17MSM(ts, pts[i])
			var err error
			if real {
				err = mcReal(w.Define)
			} else {
				err = mcExecFor(pts[i].Equal(&truth), w.Define)
			}
			if r = c17Judge(err, pts[i].Equal(&truth), reg, fmt.Sprintf("multi-scalar %v claim %s", ts, names[i])); r.Fail != "" {
				return r
			}
		}
		return r
	}
	all := func(int) bool { return true }
	// one term
	for i, d := range D {
		for j, k := range K {
			c.add(fmt.Sprintf("msm1/%d/%d", i, j), func() mcRes { return run(false, []c17Term{{d, k}}, all) })
		}
	}
	// two terms
	P2 := [][2]*big.Int{{bU(1), bU(2)}, {r1, bU(1)}, {r3, r4}, {bU(1), bU(1)}, {q(-1), bU(1)}, {r1, modQ(new(big.Int).Mul(r1, c17Lambda))}}
	K2 := []*big.Int{bU(1), bU(2), q(-1), new(big.Int).Lsh(bU(1), 128), bU(0), c17Lambda, r2}
	if c.Thorough {
		K2 = K
	}
	for i, d := range P2 {
		for j, k1 := range K2 {
			for l, k2 := range K2 {
				c.add(fmt.Sprintf("msm2/%d/%d/%d", i, j, l), func() mcRes {
					return run(false, []c17Term{{d[0], k1}, {d[1], k2}}, func(n int) bool { return n == 0 || n == 1+(i+j+l)%12 || c.Thorough && (n+i+j+l)%4 == 0 })
				})
			}
		}
	}
	// three to six terms: every term's scalar from a small alphabet
	K3 := []*big.Int{bU(1), q(-1), r2}
	base := []*big.Int{bU(5), r1, r3, bU(11), r4, bU(2)}
	for n := 3; n <= 6; n++ {
		if n > 4 && !c.Thorough {
			continue
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(K3)
		}
		for m := 0; m < total; m++ {
			var ts []c17Term
			for i, x := 0, m; i < n; i, x = i+1, x/len(K3) {
				ts = append(ts, c17Term{base[i], modQ(new(big.Int).Add(K3[x%len(K3)], bU(uint64(i)*uint64(x%len(K3)/2))))})
			}
			c.add(fmt.Sprintf("msm%d/%d", n, m), func() mcRes {
				return run(false, ts, func(k int) bool { return k == 0 || k == 1+m%21 || c.Thorough && n < 5 && k%3 == m%3 })
			})
		}
	}
	// long lists (a code path chosen by the number of terms)
	longs := []int{7, 8, 9, 10, 12, 16, 17, 33}
	if c.Thorough {
		longs = nil
		for _, n := range []int{7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 40} {
			longs = append(longs, n)
		}
	}
	for _, n := range longs {
		for m := 0; m < 2; m++ {
			rl := refRand(int64(1700 + 2*n + m))
			var ts []c17Term
			for i := 0; i < n; i++ {
				if m == 0 {
					ts = append(ts, c17Term{bU(uint64(2*i + 3)), rl()})
				} else {
					ts = append(ts, c17Term{rl(), bU(uint64(3*i + 1))})
				}
			}
			c.add(fmt.Sprintf("long/%d/%d", n, m), func() mcRes {
				return run(false, ts, func(k int) bool { return k == 0 || k == 1+(n+m)%9 })
			})
			c.add(fmt.Sprintf("long/%d/%d/dropped", n, m), func() mcRes {
				// the sum without one term, for every term
				var r mcRes
				for i := range ts {
					var rest []c17Term
					for j, t := range ts {
						if j != i {
							rest = append(rest, t)
						}
					}
					if !c.Thorough && i%5 != (n+m)%5 && i != n-1 {
						continue
					}
					w := c17MSM(ts, refMulG(c17Sum(rest)))
					if r = c17Judge(mcExecFalse(w.Define), false, true, fmt.Sprintf("%d terms, claim without term %d", n, i)); r.Fail != "" {
						return r
					}
				}
				return r
			})
		}
	}
	// repeated terms and permutations
	for m := 0; m < 8; m++ {
		c.add(fmt.Sprintf("repeat/%d", m), func() mcRes {
			a, b := c17Term{r1, r2}, c17Term{r3, r4}
			ts := [][]c17Term{{a, a}, {a, b, a}, {a, b, b}, {a, a, b}, {a, b, a, b}, {b, a, a, b}, {a, b, {q(-1), q(3)}, a}, {a, a, a}}[m]
			return run(false, ts, func(k int) bool { return k < 4 })
		})
	}
	c.add("msm0", func() mcRes {
		for _, d := range []*big.Int{bU(0), bU(1), r1} {
			p := refMulG(d)
			if r := c17Judge(mcExec(c17MSM(nil, p).Define, nil), d.Sign() == 0, true, "no terms, claim "+d.String()); r.Fail != "" {
				return r
			}
		}
		return mcRes{Outcome: "accept"}
	})
	c.add("lengths", func() mcRes {
		for n := 0; n <= 3; n++ {
			for m := 0; m <= 3; m++ {
				if n == m || n == 0 {
					continue
				}
				var ts []c17Term
				for i := 0; i < 3; i++ {
					ts = append(ts, c17Term{base[i], bU(uint64(i + 3))})
				}
				small := n
				if m < n {
					small = m
				}
				for _, l := range []int{small, n} {
					w := c17MSM(ts, refMulG(c17Sum(ts[:l])))
					w.Points, w.Scalars = w.Points[:n], w.Scalars[:m]
					if err := mcExec(w.Define, nil); err == nil {
						return mcRes{Outcome: "accept", Fail: fmt.Sprintf("%d points and %d scalars are accepted", n, m)}
					}
				}
			}
		}
		return mcRes{Outcome: "reject"}
	})
	for i, ts := range [][]c17Term{{{r1, r2}}, {{r1, r2}, {r3, r4}}, {{bU(1), bU(3)}, {bU(2), q(-1)}, {r1, r3}}} {
		c.addConf(fmt.Sprintf("gnark/msm%d", i), func() mcRes { return run(true, ts, func(k int) bool { return k < 3 }) })
	}

	// the same circuit over secp256k1
	sg := func(k *big.Int) (p secp256k1.G1Affine) {
		_, g := secp256k1.Generators()
		p.ScalarMultiplication(&g, k)
		return
	}
	for i, k := range [][2]*big.Int{{bU(3), r1}, {r1, bU(1)}, {r2, r3}, {r4, bU(255)}} {
		for n := 1; n <= 3; n++ {
			c.add(fmt.Sprintf("secp256k1/%d/%d", i, n), func() mcRes {
				type F = emparams.Secp256k1Fp
				type S = emparams.Secp256k1Fr
				pt := func(p secp256k1.G1Affine) sw_emulated.AffinePoint[F] {
					return sw_emulated.AffinePoint[F]{X: emulated.ValueOf[F](p.X), Y: emulated.ValueOf[F](p.Y)}
				}
				sum := new(big.Int)
				for claim := 0; claim < 4; claim++ {
					w := &MultiScalarMul[F, S]{}
					sum.SetInt64(0)
					for j := 0; j < n; j++ {
						d := new(big.Int).Add(bU(uint64(7*j+5)), r3)
						kk := new(big.Int).Add(k[j%2], bU(uint64(j)))
						w.Points = append(w.Points, pt(sg(d)))
						w.Scalars = append(w.Scalars, emulated.ValueOf[S](kk))
						sum.Add(sum, new(big.Int).Mul(d, kk))
					}
					res := sg(sum)
					switch claim {
					case 1:
						res.Neg(&res)
					case 2:
						res.Double(&res)
					case 3:
						res = sg(new(big.Int).Add(sum, bU(1)))
					}
					w.Res = pt(res)
					if r := c17Judge(mcExecFor(claim == 0, w.Define), claim == 0, true, fmt.Sprintf("secp256k1 %d terms %v claim %d", n, k, claim)); r.Fail != "" {
						return r
					}
				}
				return mcRes{Outcome: "accept"}
			})
		}
	}

	// scalar multiplication and addition on integers
	xy := func(p bn254.G1Affine) [2]frontend.Variable {
		x, y := ptXY(p)
		return [2]frontend.Variable{x, y}
	}
	// coordinates that a circuit variable can hold
	fits := func(ps ...bn254.G1Affine) bool {
		for _, p := range ps {
			x, y := ptXY(p)
			if x.Cmp(mcQ) >= 0 || y.Cmp(mcQ) >= 0 {
				return false
			}
		}
		return true
	}
	for i, d := range D {
		for j, k := range K {
			one := func(real bool, pick func(int) bool) mcRes {
				p := refMulG(d)
				t := modQ(new(big.Int).Mul(d, k))
				truth := refMulG(t)
				names, pts := c17Claims(t, []c17Term{{d, k}})
				var r mcRes
				for n := range names {
					if !pick(n) || !fits(p, pts[n]) {
						continue
					}
					w := &BN254ScalarMul{Point: xy(p), Scalar: cp(k), Res: xy(pts[n])}
					ex := func(f func(frontend.API) error) error { return mcExecFor(pts[n].Equal(&truth), f) }
					if real {
						ex = mcReal
					}
					if r = c17Judge(ex(w.Define), pts[n].Equal(&truth), !c17Tiny(k), fmt.Sprintf("scalar %s * %s claim %s", k, d, names[n])); r.Fail != "" {
						return r
					}
				}
				return r
			}
			c.add(fmt.Sprintf("scalarmul/%d/%d", i, j), func() mcRes { return one(false, all) })
			if (i == 0 || i == 3) && (j == 0 || j == 14) {
				c.addConf(fmt.Sprintf("gnark/scalarmul/%d/%d", i, j), func() mcRes { return one(true, func(n int) bool { return n < 3 }) })
			}
			// native-scalar circuit: complete
			c.add(fmt.Sprintf("msm256/%d/%d", i, j), func() mcRes {
				p := refMulG(d)
				t := modQ(new(big.Int).Mul(d, k))
				truth := refMulG(t)
				names, pts := c17Claims(t, []c17Term{{d, k}})
				var r mcRes
				for n := range names {
					res := pts[n]
					w := &BN256MsmCircuit{G1Point: &p, Scalar: cp(k), Res: &res}
					if r = c17Judge(mcExecFor(pts[n].Equal(&truth), w.Define), pts[n].Equal(&truth), true, fmt.Sprintf("bn256 scalar %s * %s claim %s", k, d, names[n])); r.Fail != "" {
						return r
					}
				}
				return r
			})
		}
	}
	A := append([]*big.Int{bU(0), q(-2), bU(4), r4}, D...)
	for i, d1 := range A {
		for j, d2 := range A {
			p1, p2 := refMulG(modQ(d1)), refMulG(modQ(d2))
			t := modQ(new(big.Int).Add(d1, d2))
			truth := refMulG(t)
			names, pts := c17Claims(t, []c17Term{{d1, bU(1)}, {d2, bU(1)}})
			add := func(real bool) mcRes {
				var r mcRes
				for n := range names {
					if real && n > 3 {
						break
					}
					if !fits(p1, p2, pts[n]) {
						continue
					}
					w := &BN254Add{Point1: xy(p1), Point2: xy(p2), ExpectedRes: xy(pts[n])}
					ex := func(f func(frontend.API) error) error { return mcExecFor(pts[n].Equal(&truth), f) }
					if real {
						ex = mcReal
					}
					if r = c17Judge(ex(w.Define), pts[n].Equal(&truth), true, fmt.Sprintf("add %s + %s claim %s", d1, d2, names[n])); r.Fail != "" {
						return r
					}
				}
				return r
			}
			c.add(fmt.Sprintf("add/%d/%d", i, j), func() mcRes { return add(false) })
			if i == 7 && j < 8 {
				c.addConf(fmt.Sprintf("gnark/add/%d/%d", i, j), func() mcRes { return add(true) })
			}
			c.add(fmt.Sprintf("add256/%d/%d", i, j), func() mcRes {
				var r mcRes
				for n := range names {
					a, b, res := p1, p2, pts[n]
					w := &BN256AddCircuit{G10Point: &a, G11Point: &b, Res: &res}
					if r = c17Judge(mcExecFor(pts[n].Equal(&truth), w.Define), pts[n].Equal(&truth), true, fmt.Sprintf("bn256 add %s + %s claim %s", d1, d2, names[n])); r.Fail != "" {
						return r
					}
				}
				return r
			})
		}
	}
}
