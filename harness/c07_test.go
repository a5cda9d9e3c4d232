//go:build go1.22

package main

// C07: the pairing circuit against a native pairing, on grids of multiples of
// the generators, of the accepted final pair and of the key's G2 points.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
)

func c07G2(k *big.Int) (p bn254.G2Affine) {
	_, _, _, g := bn254.Generators()
	p.ScalarMultiplication(&g, new(big.Int).Mod(k, mcQ))
	return
}

func c07Define(p [2]bn254.G1Affine, q [2]bn254.G2Affine, viaCircuit bool) func(api frontend.API) error {
	a0, a1 := sw_bn254.NewG1Affine(p[0]), sw_bn254.NewG1Affine(p[1])
	b0, b1 := sw_bn254.NewG2Affine(q[0]), sw_bn254.NewG2Affine(q[1])
	if viaCircuit {
		c := &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&a0, &a1}, G2Points: [2]*sw_bn254.G2Affine{&b0, &b1}}
		return c.Define
	}
	return func(api frontend.API) error {
		return VerifyBN256Pairing(api, []*sw_bn254.G1Affine{&a0, &a1}, []*sw_bn254.G2Affine{&b0, &b1})
	}
}

func c07Expect(p [2]bn254.G1Affine, q [2]bn254.G2Affine) bool {
	ok, err := bn254.PairingCheck(p[:], q[:])
	return ok && err == nil
}

// load runs the loading functions, which panic on bad points.
func c07Load(x1, y1, x2, y2 frontend.Variable) (c *BN256PairingCircuit, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	c = &BN256PairingCircuit{}
	c.FillVerifyCircuitsG1(x1, y1, x2, y2)
	c.FillVerifyCircuitsG2()
	return
}

var c07Lambda = bI("4407920970296243842393367215006156084916469457145843978461")

func mcDefine(c *mcCheck) {
	c.Rule = "one case per quadruple of points: the circuit is satisfied iff the native pairing product is one; loaded constants compared value by value; bad G1 coordinates must be refused"
	i64 := func(v int64) *big.Int { return big.NewInt(v) }
	rnd := refRand(7)
	k1, k2, k3 := rnd(), rnd(), rnd()
	one := func(id string, p [2]bn254.G1Affine, q [2]bn254.G2Affine) {
		exp := c07Expect(p, q)
		n := len(c.Cases)
		c.add(fmt.Sprintf("%s/%v", id, exp), func() mcRes {
			return want(mcExecFor(exp, c07Define(p, q, n%2 == 0)), exp)
		})
	}
	sc := func(id string, a, b, x, y *big.Int) { // e(aG,xH) e(bG,yH)
		one(id, [2]bn254.G1Affine{refMulG(a), refMulG(b)}, [2]bn254.G2Affine{c07G2(x), c07G2(y)})
	}
	// a*x + b*y = 0 and neighbours
	vals := []int64{1, 2, -1, -2, 3}
	if c.Thorough {
		vals = []int64{1, 2, 3, 5, -1, -2, -3, -5}
	}
	for _, a := range vals {
		for _, b := range vals {
			for _, x := range vals {
				for _, y := range vals {
					zero := a*x+b*y == 0
					if !zero && !c.Thorough && ((a*7+b*5+x*3+y)%9 != 0) {
						continue
					}
					if zero && !c.Thorough && (a+b+x+y)%2 != 0 && a != 1 {
						continue
					}
					if c.Thorough && !zero && (a*7+b*5+x*3+y)%4 != 0 {
						continue
					}
					sc(fmt.Sprintf("grid/%d,%d,%d,%d", a, b, x, y), i64(a), i64(b), i64(x), i64(y))
				}
			}
		}
	}
	neg := func(x *big.Int) *big.Int { return modQ(new(big.Int).Neg(x)) }
	mul := func(x, y *big.Int) *big.Int { return modQ(new(big.Int).Mul(x, y)) }
	sc("random/true1", k1, neg(mul(k1, k2)), k2, i64(1))
	sc("random/true2", mul(k1, k3), neg(k1), k2, mul(k2, k3))
	sc("random/sum-of-points", k1, neg(k1), k2, k3)
	sc("random/false1", k1, mul(k1, k2), k2, i64(1))
	sc("random/false2", k1, neg(k2), k2, k3)
	sc("random/off-by-one", k1, neg(new(big.Int).Add(mul(k1, k2), bU(1))), k2, i64(1))
	// the accepted final pair, its multiples, signs and swaps
	fx := refFixture()
	v := refAggregate(fx)
	w, f := v.Out.W1, v.Out.F
	g20, g21 := refG2()
	q := [2]bn254.G2Affine{g20, g21}
	m := func(p bn254.G1Affine, k *big.Int) (r bn254.G1Affine) { r.ScalarMultiplication(&p, k); return }
	n1 := func(p bn254.G1Affine) (r bn254.G1Affine) { r.Neg(&p); return }
	n2 := func(p bn254.G2Affine) (r bn254.G2Affine) { r.Neg(&p); return }
	one("final/as-is", [2]bn254.G1Affine{w, f}, q)
	one("final/double", [2]bn254.G1Affine{m(w, bU(2)), m(f, bU(2))}, q)
	one("final/scaled", [2]bn254.G1Affine{m(w, k1), m(f, k1)}, q)
	one("final/both-negated", [2]bn254.G1Affine{n1(w), n1(f)}, q)
	one("final/first-negated", [2]bn254.G1Affine{n1(w), f}, q)
	one("final/second-negated", [2]bn254.G1Affine{w, n1(f)}, q)
	one("final/swapped", [2]bn254.G1Affine{f, w}, q)
	one("final/both-swapped", [2]bn254.G1Affine{f, w}, [2]bn254.G2Affine{g21, g20})
	one("final/g2-swapped", [2]bn254.G1Affine{w, f}, [2]bn254.G2Affine{g21, g20})
	one("final/first-doubled", [2]bn254.G1Affine{m(w, bU(2)), f}, q)
	one("final/second-doubled", [2]bn254.G1Affine{w, m(f, bU(2))}, q)
	one("final/same-first", [2]bn254.G1Affine{w, w}, q)
	one("final/same-second", [2]bn254.G1Affine{f, f}, q)
	one("final/g2-first-negated", [2]bn254.G1Affine{w, f}, [2]bn254.G2Affine{n2(g20), g21})
	one("final/g2-second-negated", [2]bn254.G1Affine{w, f}, [2]bn254.G2Affine{g20, n2(g21)})
	one("final/g2-same", [2]bn254.G1Affine{w, f}, [2]bn254.G2Affine{g20, g20})
	one("final/cancel", [2]bn254.G1Affine{w, n1(w)}, [2]bn254.G2Affine{g20, g20})
	one("final/plusG", [2]bn254.G1Affine{w, func() (r bn254.G1Affine) { g := refG(); r.Add(&f, &g); return }()}, q)
	// loading
	coords := func(a, b bn254.G1Affine) [4]*big.Int {
		x1, y1 := ptXY(a)
		x2, y2 := ptXY(b)
		return [4]*big.Int{x1, y1, x2, y2}
	}
	loadEq := func(x [4]*big.Int) mcRes {
		cc, err := c07Load(cp(x[0]), cp(x[1]), cp(x[2]), cp(x[3]))
		r := mcRes{Outcome: verdict(err)}
		if err != nil {
			r.Fail = "points on the curve refused: " + oneLine(err)
			return r
		}
		e0, e1 := sw_bn254.NewG1Affine(ptOf(x[0], x[1])), sw_bn254.NewG1Affine(ptOf(x[2], x[3]))
		h0, h1 := sw_bn254.NewG2Affine(g20), sw_bn254.NewG2Affine(g21)
		same := func(a, b any) bool { return fmt.Sprintf("%v", a) == fmt.Sprintf("%v", b) }
		lim := func(p *sw_bn254.G1Affine) string { return fmt.Sprint(p.X.Limbs, p.Y.Limbs) }
		if lim(cc.G1Points[0]) != lim(&e0) || lim(cc.G1Points[1]) != lim(&e1) {
			r.Fail = fmt.Sprintf("loaded G1 points differ from the given coordinates %v", x)
		}
		l2 := func(p *sw_bn254.G2Affine) string {
			return fmt.Sprint(p.P.X.A0.Limbs, p.P.X.A1.Limbs, p.P.Y.A0.Limbs, p.P.Y.A1.Limbs)
		}
		if l2(cc.G2Points[0]) != l2(&h0) || l2(cc.G2Points[1]) != l2(&h1) {
			r.Fail = "loaded G2 points are not those of the verification key, in order"
		}
		_ = same
		r.State = lim(cc.G1Points[0])
		return r
	}
	for k := int64(1); k <= 12; k++ {
		x := coords(refMulG(i64(k)), refMulG(i64(3*k+1)))
		c.add(fmt.Sprintf("load/good%d", k), func() mcRes { return loadEq(x) })
	}
	c.add("load/final", func() mcRes { return loadEq(coords(w, f)) })
	// related pairs: equal, opposite, same y (the endomorphism), sharing one
	// coordinate's value; every ordered pair
	endo := func(p bn254.G1Affine) bn254.G1Affine { return m(p, c07Lambda) }
	rel := []bn254.G1Affine{refMulG(i64(1)), refMulG(i64(-1)), refMulG(i64(2)), w, n1(w), f, n1(f), endo(w), endo(endo(w)), n1(endo(w)), m(w, bU(2)), ptOf(bI(refFixed[0][0]), bI(refFixed[0][1]))}
	for i := range rel {
		for j := range rel {
			x := coords(rel[i], rel[j])
			c.add(fmt.Sprintf("load/pair/%d-%d", i, j), func() mcRes { return loadEq(x) })
		}
	}
	// the same coordinates as other Go values
	for k, conv := range []func(x *big.Int) any{
		func(x *big.Int) any { return x.String() },
		func(x *big.Int) any { return "0x" + x.Text(16) },
		func(x *big.Int) any { return *x },
		func(x *big.Int) any { var e fp.Element; e.SetBigInt(x); return e },
		func(x *big.Int) any { var e fp.Element; e.SetBigInt(x); return &e },
		func(x *big.Int) any { return x.FillBytes(make([]byte, 32)) },
		func(x *big.Int) any { return new(big.Int).Add(x, mcP) },
		func(x *big.Int) any { return new(big.Int).Sub(x, mcP) },
	} {
		for mask := 1; mask < 16; mask++ {
			if !c.Thorough && mask&(mask-1) != 0 && mask != 15 {
				continue
			}
			x := coords(w, f)
			c.add(fmt.Sprintf("load/as/%d/%d", k, mask), func() mcRes {
				var v [4]frontend.Variable
				for i := range v {
					v[i] = cp(x[i])
					if mask>>i&1 == 1 {
						v[i] = conv(x[i])
					}
				}
				cc, err := c07Load(v[0], v[1], v[2], v[3])
				if err != nil && k >= 6 {
					return mcRes{Outcome: "reject"} // not canonical: may be refused
				}
				if err != nil {
					return want(err, true)
				}
				e0, e1 := sw_bn254.NewG1Affine(w), sw_bn254.NewG1Affine(f)
				lim := func(p *sw_bn254.G1Affine) string { return fmt.Sprint(p.X.Limbs, p.Y.Limbs) }
				r := mcRes{Outcome: "accept"}
				if lim(cc.G1Points[0]) != lim(&e0) || lim(cc.G1Points[1]) != lim(&e1) {
					r.Fail = "loaded G1 points differ from the given coordinates"
				}
				return r
			})
		}
	}
	c.add("load/jac", func() mcRes {
		a, b := GetVerifyCircuitsG2Jac()
		var aa, bb bn254.G2Affine
		aa.FromJacobian(&a)
		bb.FromJacobian(&b)
		r := mcRes{Outcome: "constants"}
		if !aa.Equal(&g20) || !bb.Equal(&g21) {
			r.Fail = "the key's G2 points differ"
		}
		return r
	})
	base := coords(w, f)
	for pos := 0; pos < 4; pos++ {
		for k, fn := range []func(x *big.Int) *big.Int{
			func(x *big.Int) *big.Int { return new(big.Int).Add(x, bU(1)) },
			func(x *big.Int) *big.Int { return new(big.Int).Sub(x, bU(1)) },
			func(x *big.Int) *big.Int { return bU(0) },
			func(x *big.Int) *big.Int { return bU(1) },
			func(x *big.Int) *big.Int { return modQ(new(big.Int).Neg(x)) },
			func(x *big.Int) *big.Int { return new(big.Int).Xor(x, new(big.Int).Lsh(bU(1), 200)) },
		} {
			x := base
			x[pos] = fn(x[pos])
			if p0, p1 := ptOf(x[0], x[1]), ptOf(x[2], x[3]); p0.IsOnCurve() && p1.IsOnCurve() {
				continue
			}
			c.add(fmt.Sprintf("load/bad%d/%d", pos, k), func() mcRes {
				_, err := c07Load(cp(x[0]), cp(x[1]), cp(x[2]), cp(x[3]))
				return want(err, false)
			})
		}
	}
	for k, x := range [][4]*big.Int{{base[1], base[0], base[2], base[3]}, {base[0], base[3], base[2], base[1]}, {base[0], base[1], base[3], base[2]}, {bU(1), bU(1), bU(1), bU(1)}} {
		c.add(fmt.Sprintf("load/mixed/%d", k), func() mcRes {
			_, err := c07Load(cp(x[0]), cp(x[1]), cp(x[2]), cp(x[3]))
			return want(err, false)
		})
	}
	for k, x := range []any{"abc", nil, struct{}{}} {
		c.add(fmt.Sprintf("load/type/%d", k), func() mcRes {
			_, err := c07Load(x, cp(base[1]), cp(base[2]), cp(base[3]))
			if err == nil {
				_, err = c07Load(cp(base[0]), cp(base[1]), cp(base[2]), x)
			}
			return want(err, false)
		})
	}
	// loaded, then checked: the aggregation's own path
	for k, x := range [][4]*big.Int{base, coords(w, n1(f)), coords(m(w, k2), m(f, k2)), coords(f, w)} {
		exp := c07Expect([2]bn254.G1Affine{ptOf(x[0], x[1]), ptOf(x[2], x[3])}, q)
		c.add(fmt.Sprintf("path/%d/%v", k, exp), func() mcRes {
			cc, err := c07Load(cp(x[0]), cp(x[1]), cp(x[2]), cp(x[3]))
			if err != nil {
				return want(err, true)
			}
			return want(mcExecFor(exp, func(api frontend.API) error {
				return VerifyBN256Pairing(api, cc.G1Points[:], cc.G2Points[:])
			}), exp)
		})
	}
	// related points through the aggregation's path, with G2 points chosen so
	// that the product is one for the true pair
	for i, pr := range [][2]bn254.G1Affine{{w, n1(w)}, {w, w}, {refMulG(i64(1)), refMulG(i64(-1))}, {endo(w), w}, {w, m(n1(w), bU(2))}} {
		for j, qq := range [][2]bn254.G2Affine{{g20, g20}, {g20, n2(g20)}, {g21, g21}, q} {
			if !c.Thorough && (i+j)%2 == 1 && i > 1 {
				continue
			}
			x := coords(pr[0], pr[1])
			exp := c07Expect(pr, qq)
			c.add(fmt.Sprintf("path/related/%d/%d/%v", i, j, exp), func() mcRes {
				cc, err := c07Load(cp(x[0]), cp(x[1]), cp(x[2]), cp(x[3]))
				if err != nil {
					return want(err, true)
				}
				h0, h1 := sw_bn254.NewG2Affine(qq[0]), sw_bn254.NewG2Affine(qq[1])
				return want(mcExecFor(exp, func(api frontend.API) error {
					return VerifyBN256Pairing(api, cc.G1Points[:], []*sw_bn254.G2Affine{&h0, &h1})
				}), exp)
			})
		}
	}
	// one variable given twice
	objs := []bn254.G1Affine{w, f, refMulG(i64(1)), n1(w)}
	for i, o := range objs {
		for j, qq := range [][2]bn254.G2Affine{{g20, n2(g20)}, {g20, g20}, q, {g21, n2(g21)}, {n2(g20), g21}} {
			for mask := 1; mask < 4; mask++ {
				if mask >= 2 && j > 1 || !c.Thorough && mask == 3 && i > 0 {
					continue
				}
				p, g := [2]bn254.G1Affine{o, o}, qq
				if mask == 2 { // the G2 point only
					p[1] = n1(o)
				}
				if mask >= 2 {
					g[1] = g[0]
				}
				exp := c07Expect(p, g)
				c.add(fmt.Sprintf("shared/%d/%d/%d/%v", i, j, mask, exp), func() mcRes {
					a0, a1 := sw_bn254.NewG1Affine(p[0]), sw_bn254.NewG1Affine(p[1])
					b0, b1 := sw_bn254.NewG2Affine(g[0]), sw_bn254.NewG2Affine(g[1])
					g1, g2 := []*sw_bn254.G1Affine{&a0, &a1}, []*sw_bn254.G2Affine{&b0, &b1}
					if mask&1 != 0 {
						g1[1] = g1[0]
					}
					if mask&2 != 0 {
						g2[1] = g2[0]
					}
					return want(mcExecFor(exp, func(api frontend.API) error { return VerifyBN256Pairing(api, g1, g2) }), exp)
				})
			}
		}
	}
	// conformance on gnark's engine
	c.addConf("gnark/true", func() mcRes { return want(mcReal(c07Define([2]bn254.G1Affine{w, f}, q, false)), true) })
	c.addConf("gnark/false", func() mcRes {
		return want(mcReal(c07Define([2]bn254.G1Affine{w, n1(f)}, q, true)), false)
	})
	c.Assume = []string{"gnark-crypto's native pairing as the oracle", "points are in the right subgroups and none is infinity", "gnark's own pairing hints are honest"}
}
