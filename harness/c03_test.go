//go:build go1.22

package main

// C03: points off the curve.  Gadgets on coordinate grids in every accepted
// representation, and each of the 24 commitment positions of a transcript.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark/frontend"
)

func c03On(x, y *big.Int) bool {
	xm, ym := new(big.Int).Mod(x, mcP), new(big.Int).Mod(y, mcP)
	if xm.Sign() == 0 && ym.Sign() == 0 {
		return true
	}
	l := new(big.Int).Mul(ym, ym)
	r := new(big.Int).Mul(xm, xm)
	r.Mul(r, xm).Add(r, bU(3))
	return l.Sub(l, r).Mod(l, mcP).Sign() == 0
}

func c03Rep(kind int, v *big.Int) frontend.Variable {
	switch kind {
	case 0:
		return cp(v)
	case 1:
		return v.String()
	case 2:
		return *new(fp.Element).SetBigInt(v)
	case 3:
		return new(fp.Element).SetBigInt(v)
	case 4:
		return *cp(v)
	case 5:
		return v.Int64()
	case 6:
		return int(v.Int64())
	case 7:
		return v.Uint64()
	case 8:
		return uint(v.Uint64())
	}
	panic("kind")
}

// c03Near lists pairs that satisfy an equation close to the curve's.
func c03Near(root func(x *big.Int) *big.Int) (out [][2]*big.Int) {
	rhs := func(x *big.Int) *big.Int {
		v := new(big.Int).Exp(x, bU(3), mcP)
		return v.Add(v, bU(3)).Mod(v, mcP)
	}
	add := func(n int, fn func(x *big.Int) *big.Int) { // the first n solutions of y^2 = fn(x)
		for x := int64(1); n > 0 && x < 200; x++ {
			v := fn(big.NewInt(x))
			y := new(big.Int).ModSqrt(v.Mod(v, mcP), mcP)
			if y == nil || c03On(big.NewInt(x), y) {
				continue
			}
			out = append(out, [2]*big.Int{big.NewInt(x), y})
			n--
		}
	}
	shift := func(d *big.Int) {
		add(1, func(x *big.Int) *big.Int { return rhs(x).Add(rhs(x), d) })
		add(1, func(x *big.Int) *big.Int { return rhs(x).Sub(rhs(x), d) })
	}
	for k := uint(0); k < 254; k++ {
		if k < 4 || k%16 == 0 || k%64 == 63 || k > 250 {
			shift(new(big.Int).Lsh(bU(1), k))
		}
	}
	for i := 0; i < 4; i++ {
		for _, v := range []uint64{1, 1 << 20, 1 << 40, 1 << 59} {
			var e fp.Element
			e[i] = v
			shift(e.BigInt(new(big.Int)))
		}
	}
	for k := int64(-8); k <= 8; k++ { // other constants, other factors
		if k != 1 {
			add(1, func(x *big.Int) *big.Int { return new(big.Int).Mul(rhs(x), big.NewInt(k)) })
		}
		if k != 0 {
			add(1, func(x *big.Int) *big.Int { return rhs(x).Add(rhs(x), new(big.Int).Mul(x, big.NewInt(k))) })
		}
	}
	add(1, func(x *big.Int) *big.Int { return new(big.Int).Mul(rhs(x), rhs(x)) })
	for e := int64(1); e <= 6; e++ {
		if e != 3 {
			add(1, func(x *big.Int) *big.Int { v := new(big.Int).Exp(x, big.NewInt(e), mcP); return v.Add(v, bU(3)) })
		}
	}
	for x := int64(1); x < 40; x++ {
		xx := big.NewInt(x)
		// the scalar field's curve, coordinates exchanged, square root left out
		if y := new(big.Int).ModSqrt(new(big.Int).Mod(rhs(xx), mcQ), mcQ); y != nil && x < 12 && !c03On(xx, y) {
			out = append(out, [2]*big.Int{xx, y})
		}
		if y := root(xx); y != nil && x < 12 && !c03On(y, xx) {
			out = append(out, [2]*big.Int{y, xx})
		}
		if x < 4 {
			out = append(out, [2]*big.Int{xx, rhs(xx)})
		}
	}
	return
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per coordinate value x against every y of the alphabet (grids) in nine representations, and one per commitment position x off-curve pair; accepted iff y^2 = x^3+3 mod p or (0,0)"
	grid := int64(24)
	if c.Thorough {
		grid = 200
	}
	gadget := map[string]func(api frontend.API, x, y frontend.Variable) error{
		"const": func(api frontend.API, x, y frontend.Variable) error { return VerifyCheckOnCurve(api, x, y) },
		"var":   func(api frontend.API, x, y frontend.Variable) error { return VerifyCheckOnCurveVar(api, x, y) },
		"constC": func(api frontend.API, x, y frontend.Variable) error {
			return CheckOnCurveCircuit{X: x, Y: y}.Define(api)
		},
		"varC": func(api frontend.API, x, y frontend.Variable) error {
			return CheckOnCurveCircuitVar{X: x, Y: y}.Define(api)
		},
	}
	names := []string{"const", "var", "constC", "varC"}
	fits := func(kind int, v *big.Int) bool { return kind < 7 && v.IsInt64() || kind >= 7 && v.IsUint64() }
	try := func(x, y *big.Int) mcRes {
		exp := c03On(x, y)
		for _, g := range names {
			for kx := 0; kx < 9; kx++ {
				for ky := 0; ky < 9; ky++ {
					if kx >= 5 && !fits(kx, x) || ky >= 5 && !fits(ky, y) {
						continue // machine integers
					}
					if kx != ky && (g == "constC" || g == "varC") {
						continue
					}
					vx, vy := c03Rep(kx, x), c03Rep(ky, y)
					err := mcExec(func(api frontend.API) error { return gadget[g](api, vx, vy) }, nil)
					mcState(g, x, y, err == nil)
					if r := want(err, exp); r.Fail != "" {
						r.Fail = fmt.Sprintf("%s gadget, representation %d/%d, (%s, %s): %s", g, kx, ky, x, y, r.Fail)
						return r
					}
				}
			}
		}
		return mcRes{Outcome: map[bool]string{true: "accept", false: "reject"}[exp]}
	}
	for x := int64(-2); x < grid; x++ {
		c.add(fmt.Sprintf("grid/%d", x), func() mcRes {
			for y := int64(-grid); y < grid; y++ {
				if r := try(big.NewInt(x), big.NewInt(y)); r.Fail != "" {
					return r
				}
			}
			return mcRes{Outcome: "reject"}
		})
	}
	// every x of a range that has a y: both roots and their neighbours
	sq := func(x *big.Int) *big.Int {
		v := new(big.Int).Exp(x, bU(3), mcP)
		v.Add(v, bU(3)).Mod(v, mcP)
		return new(big.Int).ModSqrt(v, mcP)
	}
	nr := int64(100)
	if c.Thorough {
		nr = 4000
	}
	for b := int64(0); b < nr; b += 20 {
		c.add(fmt.Sprintf("roots/%d", b), func() mcRes {
			for x := b; x < b+20; x++ {
				for _, xx := range []*big.Int{big.NewInt(x), new(big.Int).Sub(mcP, big.NewInt(x+1)), new(big.Int).Add(new(big.Int).Rsh(mcP, 1), big.NewInt(x))} {
					y := sq(xx)
					if y == nil {
						continue
					}
					ny := new(big.Int).Sub(mcP, y)
					for _, yy := range []*big.Int{y, ny, new(big.Int).Add(y, bU(1)), new(big.Int).Sub(y, bU(1)), new(big.Int).Add(ny, bU(1)), bU(0), new(big.Int).Sub(mcQ, y)} {
						if yy.Sign() < 0 {
							continue
						}
						if r := try(xx, yy); r.Fail != "" {
							return r
						}
					}
				}
			}
			return mcRes{Outcome: "accept"}
		})
	}
	// known points and their single-bit and arithmetic perturbations
	fx := refFixture()
	for i := 0; i < 104; i += 2 {
		if !(i < 44 || i >= 100) {
			continue
		}
		x, y := fx.Proof[i], fx.Proof[i+1]
		c.add(fmt.Sprintf("perturb/%d", i), func() mcRes {
			if r := try(x, y); r.Fail != "" {
				return r
			}
			step := 16
			if c.Thorough {
				step = 1
			}
			for k := i % step; k < 254; k += step {
				bit := new(big.Int).Lsh(bU(1), uint(k))
				for _, pr := range [][2]*big.Int{{new(big.Int).Xor(x, bit), y}, {x, new(big.Int).Xor(y, bit)}} {
					if r := try(pr[0], pr[1]); r.Fail != "" {
						return r
					}
				}
			}
			return mcRes{Outcome: "reject"}
		})
	}
	// pairs of other equations: the curve's shifted, scaled or read in another
	// field, and shifted in one limb of the base field's representation
	near := c03Near(sq)
	for b := 0; b < len(near); b += 8 {
		c.add(fmt.Sprintf("near/%d", b), func() mcRes {
			for _, pr := range near[b:min(b+8, len(near))] {
				if r := try(pr[0], pr[1]); r.Fail != "" {
					return r
				}
			}
			return mcRes{Outcome: "reject"}
		})
	}
	// long numbers: a point's coordinate with further digits, bits or multiples of p
	for k, g := range [][2]*big.Int{{bU(1), bU(2)}, {fx.Proof[0], fx.Proof[1]}, {fx.Proof[102], fx.Proof[103]}} {
		c.add(fmt.Sprintf("long/%d", k), func() mcRes {
			var adds []*big.Int
			for _, e := range []int64{76, 77, 78, 79, 80, 96, 100, 128, 160, 200} {
				adds = append(adds, new(big.Int).Exp(bU(10), big.NewInt(e), nil))
			}
			for _, e := range []uint{254, 255, 256, 257, 288, 320, 384, 512} {
				adds = append(adds, new(big.Int).Lsh(bU(1), e))
			}
			for _, m := range []int64{1, 2, 5, 1 << 40} {
				adds = append(adds, new(big.Int).Mul(mcP, big.NewInt(m)), new(big.Int).Mul(mcQ, big.NewInt(m)))
			}
			for _, a := range adds {
				for side := 1; side < 4; side++ {
					for _, sg := range []int64{1, -1} {
						v, d := [2]*big.Int{g[0], g[1]}, new(big.Int).Mul(a, big.NewInt(sg))
						for i := range v {
							if side>>i&1 == 1 {
								v[i] = new(big.Int).Add(v[i], d)
							}
						}
						if r := try(v[0], v[1]); r.Fail != "" {
							return r
						}
					}
				}
			}
			return mcRes{Outcome: "reject"}
		})
	}
	// positions in the transcript
	buf := func() []frontend.Variable {
		b := make([]frontend.Variable, 43)
		for i := range b {
			b[i] = bU(uint64(5 + i))
		}
		return b
	}
	npos := 0
	for i := 0; i < 104; i += 2 {
		if !(i < 44 || i >= 100) {
			continue
		}
		npos++
		x, y := fx.Proof[i], fx.Proof[i+1]
		var bad [][2]*big.Int
		bad = append(bad, [][2]*big.Int{
			{x, new(big.Int).Add(y, bU(1))}, {new(big.Int).Add(x, bU(1)), y}, {y, x}, {x, bU(0)}, {bU(0), y}, {bU(1), bU(1)},
			{bU(0), bU(1)}, {bU(1), bU(0)}, {x, new(big.Int).Sub(mcQ, y)}, {bU(0), bU(3)}, {x, x}, {bU(5), bU(11)},
		}...)
		for k, b := range bad {
			if c03On(b[0], b[1]) {
				continue
			}
			c.add(fmt.Sprintf("transcript/%d/bad%d", i, k), func() mcRes {
				p := fx.clone().Proof
				p[i], p[i+1] = b[0], b[1]
				err := mcExec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf(), mcVars(p)) }, nil)
				return want(err, false)
			})
		}
		for k, g := range [][2]*big.Int{{x, new(big.Int).Sub(mcP, y)}, {bU(1), bU(2)}, {bU(0), bU(0)}} {
			if !c.Thorough && k != (i/2)%3 {
				continue
			}
			c.add(fmt.Sprintf("transcript/%d/good%d", i, k), func() mcRes {
				p := fx.clone().Proof
				p[i], p[i+1] = g[0], g[1]
				err := mcExec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf(), mcVars(p)) }, nil)
				return want(err, true)
			})
		}
		c.add(fmt.Sprintf("transcript/%d/near", i), func() mcRes {
			for k, pr := range near {
				if !c.Thorough && (k+i/2)%6 != 0 {
					continue
				}
				p := fx.clone().Proof
				p[i], p[i+1] = pr[0], pr[1]
				mcState("near", i, k)
				if r := want(mcExec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf(), mcVars(p)) }, nil), false); r.Fail != "" {
					r.Fail = fmt.Sprintf("commitment %d is (%s, %s): %s", i/2, pr[0], pr[1], r.Fail)
					return r
				}
			}
			return mcRes{Outcome: "reject"}
		})
		// through the whole verifier
		c.addConf(fmt.Sprintf("aggregate/%d", i), func() mcRes {
			a := fx.clone()
			a.Proof[i+1] = new(big.Int).Add(y, bU(1))
			return want(mcReal(a.circuit().Define), false)
		})
	}
	// a bad commitment made of the coordinates of another one of the proof
	for i := 0; i < 104; i += 2 {
		if !(i < 44 || i >= 100) {
			continue
		}
		c.add(fmt.Sprintf("transcript/%d/borrowed", i), func() mcRes {
			for j := 0; j < 104; j += 2 {
				if !(j < 44 || j >= 100) || j == i || !c.Thorough && (i+j)/2%4 != 0 && j != i-2 && j != i+2 && j != 0 {
					continue
				}
				for k := 0; k < 4; k++ {
					p := fx.clone().Proof
					x, y := p[i], p[i+1]
					switch k {
					case 0:
						p[i] = cp(p[j])
					case 1:
						p[i+1] = cp(p[j+1])
					case 2: // both lie, with the coordinates exchanged
						p[i], p[i+1], p[j], p[j+1] = cp(p[j]), y, x, cp(p[j+1])
					case 3: // the same bad pair twice
						p[i], p[i+1], p[j], p[j+1] = bU(1), bU(3), bU(1), bU(3)
					}
					if !c.Thorough && k != (i/2+j/2)%4 && k > 0 {
						continue
					}
					mcState(i, j, k)
					if r := want(mcExec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf(), mcVars(p)) }, nil), false); r.Fail != "" {
						r.Fail = fmt.Sprintf("commitments %d and %d, kind %d: %s", i/2, j/2, k, r.Fail)
						return r
					}
				}
			}
			return mcRes{Outcome: "reject"}
		})
	}
	// the digits of one commitment, cut elsewhere, as another commitment
	for i := 0; i < 104; i += 2 {
		if !(i < 44 || i >= 100) {
			continue
		}
		c.add(fmt.Sprintf("transcript/%d/digits", i), func() mcRes {
			n := 0
			for j := 0; j < 104; j += 2 {
				if !(j < 44 || j >= 100) || j == i {
					continue
				}
				for k, base := range []int{10, 16} {
					for d := -2; d <= 2; d++ {
						x, y := fx.Proof[j].Text(base), fx.Proof[j+1].Text(base)
						s, cut := x+y, len(x)+d
						if d == 0 || s[cut] == '0' {
							continue
						}
						nx, _ := new(big.Int).SetString(s[:cut], base)
						ny, _ := new(big.Int).SetString(s[cut:], base)
						if nx.BitLen() > 256 || ny.BitLen() > 256 || c03On(nx, ny) {
							continue
						}
						if n++; !c.Thorough && n%4 != 0 && n > 1 {
							continue
						}
						p := fx.clone().Proof
						p[i], p[i+1] = nx, ny
						mcState("digits", i, j, k, d)
						if r := want(mcExec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf(), mcVars(p)) }, nil), false); r.Fail != "" {
							r.Fail = fmt.Sprintf("commitment %d with the digits of %d cut elsewhere: %s", i/2, j/2, r.Fail)
							return r
						}
					}
				}
			}
			return mcRes{Outcome: "reject", Trivial: n == 0}
		})
	}
	// two bad commitments that would cancel in a sum of curve equations
	for i := 0; i < 40; i += 6 {
		c.add(fmt.Sprintf("transcript/pair%d", i), func() mcRes {
			p := fx.clone().Proof
			p[i+1], p[i+3] = new(big.Int).Add(p[i+1], bU(1)), new(big.Int).Sub(p[i+3], bU(1))
			return want(mcExec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf(), mcVars(p)) }, nil), false)
		})
	}
	c.Bounds["positions"] = npos
	c.Bounds["grid"] = grid
	c.Assume = []string{"coordinates are given as integers, decimal strings or base-field values (other Go types are the caller's error)"}
}
