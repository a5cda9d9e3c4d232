//go:build go1.22

package main

// C13: compiled constraint systems.  Every circuit is compiled under both
// front ends, solved for every assignment of a bounded set with the hints the
// package registers, and the verdict compared with the specification and with
// the direct run of the same Define; then the repository's own hints are
// replaced by every answer of an alphabet.

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/consensys/gnark/std/signature/ecdsa"
)

// a gadget circuit: inputs A (n of them) and claimed result C
type c13G struct {
	A []frontend.Variable
	C frontend.Variable
	f func(api frontend.API, a []frontend.Variable) frontend.Variable
}

func (g *c13G) Define(api frontend.API) error {
	api.AssertIsEqual(g.f(api, g.A), g.C)
	return nil
}

// the same with some operands constants of the circuit
type c13GK struct {
	A []frontend.Variable // the other operands
	C frontend.Variable
	k []*big.Int // nil: a variable
	f func(api frontend.API, a []frontend.Variable) frontend.Variable
}

func (g *c13GK) Define(api frontend.API) error {
	var a []frontend.Variable
	j := 0
	for _, k := range g.k {
		if k != nil {
			a = append(a, cp(k))
		} else {
			a = append(a, g.A[j])
			j++
		}
	}
	api.AssertIsEqual(g.f(api, a), g.C)
	return nil
}

type c13Gadget struct {
	name string
	n    int
	f    func(api frontend.API, a []frontend.Variable) frontend.Variable
	want func(a []*big.Int) *big.Int // nil: unsatisfiable whatever is claimed
	mod  bool
}

func c13Lazy(q *big.Int, plonk bool, mk func() frontend.Circuit) func() constraint.ConstraintSystem {
	return sync.OnceValue(func() constraint.ConstraintSystem { return mcCompile(q, plonk, mk()) })
}

func c13Err(q *big.Int, plonk bool, circ frontend.Circuit) (ccs constraint.ConstraintSystem, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	b := frontend.NewBuilder(r1cs.NewBuilder)
	if plonk {
		b = scs.NewBuilder
	}
	return frontend.Compile(q, b, circ)
}

func c13Gadgets() []c13Gadget {
	m := func(x *big.Int) *big.Int { return modQ(x) }
	gs := []c13Gadget{
		{"fr_add", 2, func(api frontend.API, a []frontend.Variable) frontend.Variable { return fr_add(api, a[0], a[1]) },
			func(a []*big.Int) *big.Int { return m(new(big.Int).Add(a[0], a[1])) }, true},
		{"fr_sub", 2, func(api frontend.API, a []frontend.Variable) frontend.Variable { return fr_sub(api, a[0], a[1]) },
			func(a []*big.Int) *big.Int { return m(new(big.Int).Sub(a[0], a[1])) }, true},
		{"fr_mul", 2, func(api frontend.API, a []frontend.Variable) frontend.Variable { return fr_mul(api, a[0], a[1]) },
			func(a []*big.Int) *big.Int { return m(new(big.Int).Mul(a[0], a[1])) }, true},
		{"fr_neg", 1, func(api frontend.API, a []frontend.Variable) frontend.Variable { return fr_neg(api, a[0]) },
			func(a []*big.Int) *big.Int { return m(new(big.Int).Neg(a[0])) }, false},
		{"mod", 1, func(api frontend.API, a []frontend.Variable) frontend.Variable { return mod(api, a[0]) },
			func(a []*big.Int) *big.Int { return a[0] }, true},
		{"fr_div", 3, func(api frontend.API, a []frontend.Variable) frontend.Variable { return fr_div(api, a[0], a[1], a[2]) },
			func(a []*big.Int) *big.Int {
				if m(new(big.Int).Mul(a[1], a[2])).Cmp(a[0]) != 0 {
					return nil
				}
				return a[2]
			}, true},
	}
	for _, k := range []uint64{0, 1, 2, 3, 5, 8, 17} {
		gs = append(gs, c13Gadget{fmt.Sprintf("fr_pow%d", k), 1, func(api frontend.API, a []frontend.Variable) frontend.Variable {
			return fr_pow(api, a[0], bU(k))
		}, func(a []*big.Int) *big.Int { return new(big.Int).Exp(a[0], bU(k), mcQ) }, k > 0})
	}
	gs = append(gs, c13Gadget{"pack", 3, func(api frontend.API, a []frontend.Variable) frontend.Variable {
		return PackUInt8Variables(api, a...)
	}, func(a []*big.Int) *big.Int {
		v := new(big.Int)
		for _, x := range a {
			v.Mul(v, bU(256))
			v.Add(v, x)
		}
		return m(v)
	}, false})
	return gs
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per (circuit, front end, slice of the assignment set): satisfiable iff the specification says so, with registered hints; direct run agrees; with replaced hints never satisfiable when false"
	c.Assume = []string{"gnark's front ends and constraint solver", "the commitment challenge of lookup arguments is replaced by a hash of the committed values, as the proving system does"}
	q := func(k int64) *big.Int { return modQ(big.NewInt(k)) }
	al := []*big.Int{bU(0), bU(1), bU(2), bU(255), new(big.Int).Lsh(bU(1), 128), new(big.Int).Rsh(mcQ, 1), q(-2), q(-1)}
	if c.Thorough {
		al = append(al, bU(3), bU(256), new(big.Int).Lsh(bU(1), 64), new(big.Int).Lsh(bU(1), 253), new(big.Int).Add(new(big.Int).Rsh(mcQ, 1), bU(1)), refRand(3)(), refRand(4)())
	}
	c.Bounds["gadget_alphabet"] = len(al)
	fe := map[bool]string{true: "scs", false: "r1cs"}

	// pairing
	pair := func(a, b int64) *BN256PairingCircuit {
		_, _, g1, g2 := bn254.Generators()
		var p, s bn254.G1Affine
		p.ScalarMultiplication(&g1, big.NewInt(a))
		s.ScalarMultiplication(&g1, big.NewInt(b))
		x, y := sw_bn254.NewG1Affine(p), sw_bn254.NewG1Affine(s)
		u, v := sw_bn254.NewG2Affine(g2), sw_bn254.NewG2Affine(g2)
		return &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&x, &y}, G2Points: [2]*sw_bn254.G2Affine{&u, &v}}
	}
	for _, plonk := range []bool{false, true} {
		if plonk && !c.Thorough {
			continue
		}
		c.addConf("pairing/"+fe[plonk], func() mcRes {
			cs := mcCompile(mcQ, plonk, pair(1, 1))
			for _, t := range [][2]int64{{1, -1}, {1, 1}, {7, -7}, {2, -1}, {3, -4}} {
				err := mcSolve(cs, mcQ, pair(t[0], t[1]))
				mcState("pair", plonk, t, err == nil)
				if r := want(err, t[0]+t[1] == 0); r.Fail != "" {
					r.Fail = fmt.Sprintf("%s pairing of %dG, %dG with one G2 point: %s", fe[plonk], t[0], t[1], r.Fail)
					return r
				}
			}
			return mcRes{Outcome: "agree"}
		})
	}

	// every circuit of the package compiles, and constrains something
	vars := func(n int) []frontend.Variable { return make([]frontend.Variable, n) }
	u8 := func(n int) []uints.U8 { return make([]uints.U8, n) }
	g := refG()
	g2 := refMulG(bU(2))
	_ = u8
	msmMk := func(n int) func() frontend.Circuit {
		return func() frontend.Circuit {
			return &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{Points: make([]sw_emulated.AffinePoint[emparams.BN254Fp], n), Scalars: make([]emulated.Element[emparams.BN254Fr], n)}
		}
	}
	for _, plonk := range []bool{true, false} {
		for _, t := range []struct {
			name string
			mk   func() frontend.Circuit
		}{
			{"AggregatorCircuit", func() frontend.Circuit {
				return &AggregatorCircuit{Proof: vars(106), VerifyInst: vars(1), Aux: vars(21), TargetInst: vars(4)}
			}},
			{"CheckOnCurveCircuit", func() frontend.Circuit { return &CheckOnCurveCircuit{} }},
			{"CheckOnCurveCircuitVar", func() frontend.Circuit { return &CheckOnCurveCircuitVar{} }},
			{"BN254ScalarMul", func() frontend.Circuit { return &BN254ScalarMul{} }},
			{"BN254Add", func() frontend.Circuit { return &BN254Add{} }},
			{"BN256MsmCircuit", func() frontend.Circuit { return &BN256MsmCircuit{&g, bU(2), &g2} }},
			{"BN256AddCircuit", func() frontend.Circuit { return &BN256AddCircuit{&g, &g, &g2} }},
		} {
			name, mk := t.name, t.mk

			c.add(fmt.Sprintf("compiles/%s/%s", fe[plonk], name), func() mcRes {
				ccs, err := c13Err(mcQ, plonk, mk())
				if err != nil {
					return mcRes{Outcome: "not compiled", Fail: name + " does not compile: " + oneLine(err)}
				}
				if name == "CheckOnCurveCircuitVar" {
					for _, p := range [][2]int64{{1, 1}, {1, 3}, {2, 2}, {0, 1}} {
						if mcSolve(ccs, mcQ, &CheckOnCurveCircuitVar{p[0], p[1]}) == nil {
							return mcRes{Outcome: "accept", Fail: fmt.Sprintf("compiled %s (%d constraints) accepts (%d,%d), not a curve point", name, ccs.GetNbConstraints(), p[0], p[1])}
						}
					}
				}
				return mcRes{Outcome: "compiled"}
			})
		}
		// constants that contradict each other must not compile
		c.add(fmt.Sprintf("false-constants/%s", fe[plonk]), func() mcRes {
			for i, mk := range []frontend.Circuit{&BN256MsmCircuit{&g, bU(3), &g2}, &BN256AddCircuit{&g, &g2, &g2}} {
				if ccs, err := c13Err(mcQ, plonk, mk); err == nil {
					if err = mcSolve(ccs, mcQ, mk); err == nil {
						return mcRes{Outcome: "accept", Fail: fmt.Sprintf("false constant statement %d is satisfiable", i)}
					}
				}
			}
			return mcRes{Outcome: "reject"}
		})
	}
	c.addConf("registered-hints", func() mcRes {
		for n, h := range map[string]solver.Hint{"MsmHint": MsmHint, "AddHint": AddHint, "Keccak256Hint": Keccak256Hint, "modHint": modHint} {
			if solver.GetRegisteredHint(solver.GetHintID(h)) == nil {
				return mcRes{Outcome: "missing", Fail: n + " is used in a circuit and not registered"}
			}
		}
		return mcRes{Outcome: "registered"}
	})

	// scalar gadgets: all operand tuples of the alphabet x claims
	for _, gd := range c13Gadgets() {
		for _, plonk := range []bool{true, false} {
			cs := c13Lazy(mcQ, plonk, func() frontend.Circuit { return &c13G{A: vars(gd.n), f: gd.f} })
			for i0 := range al {
				c.addConf(fmt.Sprintf("gadget/%s/%s/%d", fe[plonk], gd.name, i0), func() mcRes {
					idx := make([]int, gd.n)
					idx[0] = i0
					for {
						a := make([]*big.Int, gd.n)
						for i := range a {
							a[i] = al[idx[i]]
						}
						if gd.name == "pack" {
							for i := range a {
								a[i] = new(big.Int).And(a[i], bU(255))
							}
						}
						truth := gd.want(a)
						claims := []*big.Int{bU(0), a[0]}
						if truth != nil {
							claims = []*big.Int{truth, modQ(new(big.Int).Add(truth, bU(1))), modQ(new(big.Int).Neg(truth)), bU(0), a[0]}
						} else if gd.name == "fr_div" {
							claims = append(claims, a[1], a[2])
						}
						for _, cl := range claims {
							ok := truth != nil && cl.Cmp(truth) == 0
							as := &c13G{A: mcVars(a), C: cp(cl), f: gd.f}
							err := mcSolve(cs(), mcQ, as)
							mcState(gd.name, a, cl, plonk, err == nil)
							if r := want(err, ok); r.Fail != "" {
								r.Fail = fmt.Sprintf("%s %s%v = %s: %s", fe[plonk], gd.name, a, cl, r.Fail)
								return r
							}
							d := mcExec((&c13G{A: mcVars(a), C: cp(cl), f: gd.f}).Define, nil)
							if (d == nil) != (err == nil) {
								return mcRes{Outcome: "differ", Fail: fmt.Sprintf("%s%v = %s: direct run %s, compiled %s", gd.name, a, cl, verdict(d), verdict(err))}
							}
						}
						p := gd.n - 1
						for ; p > 0; p-- {
							if idx[p]++; idx[p] < len(al) {
								break
							}
							idx[p] = 0
						}
						if p == 0 {
							break
						}
					}
					return mcRes{Outcome: "agree"}
				})
			}
			if !gd.mod {
				continue
			}
			// the reduction hint answers anything
			c.add(fmt.Sprintf("modhint/%s/%s", fe[plonk], gd.name), func() mcRes {
				al2 := append([]*big.Int{}, al...)
				for i := range al {
					a := make([]*big.Int, gd.n)
					for j := range a {
						a[j] = al[(i*(j+1)+3*j)%len(al)]
					}
					truth := gd.want(a)
					for _, dv := range al2 {
						for k, rv := range al2 {
							n := 0
							adv := func(_ *big.Int, in, out []*big.Int) error {
								h := new(big.Int).Mod(in[0], mcQ)
								out[0].Set(dv)
								if n++; k%3 == 2 && n > 1 {
									out[1].Set(h) // lie in the first call only
								} else if k%3 == 1 {
									out[1].Add(h, rv)
								} else {
									out[1].Set(rv)
								}
								out[1].Mod(out[1], mcQ)
								return nil
							}
							for _, cl := range []*big.Int{rv, modQ(new(big.Int).Add(rv, a[0])), bU(0)} {
								n = 0
								err := mcSolve(cs(), mcQ, &c13G{A: mcVars(a), C: cp(cl), f: gd.f}, mcOverride(modHint, adv))
								mcState("adv", gd.name, a, dv, rv, cl, plonk, err == nil)
								if err == nil && (truth == nil || cl.Cmp(truth) != 0) {
									return mcRes{Outcome: "accept", Fail: fmt.Sprintf("%s %s%v = %s accepted when the reduction hint answers (%s, %s)", fe[plonk], gd.name, a, cl, dv, rv)}
								}
							}
						}
					}
				}
				return mcRes{Outcome: "reject"}
			})
		}
	}

	// every set of operands given as constants of the circuit
	gks := c13Gadgets()
	pk5 := gks[len(gks)-1]
	pk5.name, pk5.n = "pack5", 5
	for _, gd := range append(gks, pk5) {
		for _, plonk := range []bool{true, false} {
			for mask := 1; mask < 1<<gd.n; mask++ {
				c.addConf(fmt.Sprintf("const/%s/%s/%d", fe[plonk], gd.name, mask), func() mcRes {
					for i := range al {
						for j := range al {
							if gd.n == 1 && j > 0 || !c.Thorough && (i+j)%2 == 1 {
								continue
							}
							a := make([]*big.Int, gd.n)
							ks := make([]*big.Int, gd.n)
							var vs []*big.Int
							for x := range a {
								a[x] = al[[]int{i, j, (i + 3*j) % len(al)}[x%3]]
								if pk5.name[:4] == gd.name[:min(4, len(gd.name))] {
									a[x] = new(big.Int).And(new(big.Int).Add(a[x], bU(uint64(x))), bU(255))
								}
							}
							if gd.name == "fr_div" && (i+j)%4 == 0 {
								a[0] = modQ(new(big.Int).Mul(a[1], a[2]))
							}
							for x := range a {
								if mask>>x&1 == 1 {
									ks[x] = a[x]
								} else {
									vs = append(vs, a[x])
								}
							}
							truth := gd.want(a)
							claims := []*big.Int{bU(0), a[0]}
							if truth != nil {
								claims = append(claims, truth, modQ(new(big.Int).Add(truth, bU(1))), modQ(new(big.Int).Neg(truth)))
							} else {
								claims = append(claims, a[2])
							}
							cs, cerr := c13Err(mcQ, plonk, &c13GK{A: vars(len(vs)), k: ks, f: gd.f})
							for _, cl := range claims {
								ok := truth != nil && cl.Cmp(truth) == 0
								err := cerr
								if err == nil {
									err = mcSolve(cs, mcQ, &c13GK{A: mcVars(vs), C: cp(cl), k: ks, f: gd.f})
								}
								mcState("const", gd.name, mask, a, cl, plonk, err == nil)
								if r := want(err, ok); r.Fail != "" {
									r.Fail = fmt.Sprintf("%s %s%v = %s with constants %b: %s", fe[plonk], gd.name, a, cl, mask, r.Fail)
									return r
								}
							}
						}
					}
					return mcRes{Outcome: "agree"}
				})
			}
		}
	}

	// packing on a small field, every assignment
	small := big.NewInt(47)
	for _, plonk := range []bool{true, false} {
		gd := c13Gadgets()
		pk := gd[len(gd)-1]
		cs := c13Lazy(small, plonk, func() frontend.Circuit { return &c13G{A: vars(2), f: pk.f} })
		c.addConf("small/pack/"+fe[plonk], func() mcRes {
			for a := int64(0); a < 47; a++ {
				for b := int64(0); b < 47; b++ {
					for r := int64(0); r < 47; r++ {
						err := mcSolve(cs(), small, &c13G{A: []frontend.Variable{a, b}, C: r, f: pk.f})
						if x := want(err, (a*256+b-r)%47 == 0); x.Fail != "" {
							x.Fail = fmt.Sprintf("field 47: pack(%d,%d)=%d: %s", a, b, r, x.Fail)
							return x
						}
					}
				}
			}
			return mcRes{Outcome: "agree"}
		})
	}

	// hash circuits
	msg := func(n int) []byte {
		m := make([]byte, n)
		for i := range m {
			m[i] = byte(37*i + n)
		}
		return m
	}
	sha := func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
	type hashC struct {
		name string
		lens []int
		sum  func([]byte) []byte
		mk   func(m, h []uints.U8) frontend.Circuit
	}
	kl, sl := []int{0, 136}, []int{0, 56}
	if c.Thorough {
		kl, sl = []int{0, 1, 32, 64, 135, 136, 137, 160}, []int{0, 1, 32, 55, 56, 63, 64, 65, 119, 120}
	}
	for _, hc := range []hashC{
		{"keccak", kl, refKeccak, func(m, h []uints.U8) frontend.Circuit { return &Keccak256Circuit{m, h} }},
		{"sha256", sl, sha, func(m, h []uints.U8) frontend.Circuit { return &Sha256Circuit{m, h} }},
	} {
		for _, plonk := range []bool{true, false} {
			for _, n := range hc.lens {
				c.addConf(fmt.Sprintf("hash/%s/%s/%d", fe[plonk], hc.name, n), func() mcRes {
					cs := mcCompile(mcQ, plonk, hc.mk(u8(n), u8(32)))
					m := msg(n)
					d := hc.sum(m)
					try := func(m, d []byte, ok bool, what string) string {
						err := mcSolve(cs, mcQ, hc.mk(uints.NewU8Array(m), uints.NewU8Array(d)))
						mcState(hc.name, n, m, d, err == nil)
						if r := want(err, ok); r.Fail != "" {
							return fmt.Sprintf("%s %s length %d, %s: %s", fe[plonk], hc.name, n, what, r.Fail)
						}
						return ""
					}
					if f := try(m, d, true, "true digest"); f != "" {
						return mcRes{Outcome: "differ", Fail: f}
					}
					for i := 0; i < 32; i++ {
						if !c.Thorough && i%16 != 15 && i != 0 {
							continue
						}
						e := append([]byte{}, d...)
						e[i] ^= 1 << (i % 8)
						if f := try(m, e, false, fmt.Sprintf("digest byte %d changed", i)); f != "" {
							return mcRes{Outcome: "differ", Fail: f}
						}
					}
					for _, i := range []int{0, n / 2, n - 1} {
						if i < 0 || i >= n {
							continue
						}
						e := append([]byte{}, m...)
						e[i] ^= 0x80
						if f := try(e, d, false, fmt.Sprintf("message byte %d changed", i)); f != "" {
							return mcRes{Outcome: "differ", Fail: f}
						}
						if f := try(e, hc.sum(e), true, fmt.Sprintf("message byte %d and digest changed", i)); f != "" {
							return mcRes{Outcome: "differ", Fail: f}
						}
					}
					return mcRes{Outcome: "agree"}
				})
			}
		}
	}

	// instance hash: honest and lying hints
	ih := func(api frontend.API, a []frontend.Variable) frontend.Variable {
		h, err := VerifyInstanceHash(api, a)
		if err != nil {
			panic(err)
		}
		return mod(api, h)
	}
	words := []*big.Int{bI("7059793422771910484"), q(-1)}
	for _, plonk := range []bool{false, true} {
		cs := c13Lazy(mcQ, plonk, func() frontend.Circuit { return &c13G{A: vars(2), f: ih} })
		// answers: what the hint claims to have hashed
		raw := func(ws ...*big.Int) []byte {
			var b []byte
			for _, w := range ws {
				b = append(b, be32(w)...)
			}
			return b
		}
		honest := raw(words...)
		over := new(big.Int).Add(words[0], mcQ)
		type ans struct {
			name     string
			pre, dig []byte
			claim    *big.Int
			ok       bool
		}
		cl := func(d []byte) *big.Int { return modQ(new(big.Int).SetBytes(d)) }
		truth := cl(refKeccak(honest))
		as := []ans{{"honest", honest, refKeccak(honest), truth, true}}
		other := raw(bU(5), bU(6))
		as = append(as, ans{"other words", other, refKeccak(other), cl(refKeccak(other)), false},
			ans{"word plus modulus", raw(over, words[1]), refKeccak(raw(over, words[1])), cl(refKeccak(raw(over, words[1]))), false},
			ans{"swapped words", raw(words[1], words[0]), refKeccak(raw(words[1], words[0])), cl(refKeccak(raw(words[1], words[0]))), false},
			ans{"digest only", honest, refKeccak(other), cl(refKeccak(other)), false},
			ans{"preimage only", other, refKeccak(honest), truth, false},
			ans{"zero digest", honest, make([]byte, 32), bU(0), false})
		for _, i := range []int{0, 31, 32, 63} {
			if !c.Thorough && plonk {
				continue
			}
			e := append([]byte{}, honest...)
			e[i] ^= 1
			as = append(as, ans{fmt.Sprintf("preimage byte %d", i), e, refKeccak(e), cl(refKeccak(e)), false})
		}
		for _, a := range as {
			c.add(fmt.Sprintf("instance/%s/%s", fe[plonk], a.name), func() mcRes {
				adv := func(_ *big.Int, in, out []*big.Int) error {
					for i := range out {
						out[i].SetUint64(0)
					}
					out[0].SetBytes(a.dig)
					for i, b := range a.dig {
						out[1+i].SetUint64(uint64(b))
					}
					for i, b := range a.pre {
						out[33+i].SetUint64(uint64(b))
					}
					return nil
				}
				var opts []solver.Option
				if a.name != "honest" {
					opts = append(opts, mcOverride(Keccak256Hint, adv))
				}
				err := mcSolve(cs(), mcQ, &c13G{A: mcVars(words), C: cp(a.claim), f: ih}, opts...)
				mcState("instance", a.name, plonk, err == nil)
				r := want(err, a.ok)
				if r.Fail != "" {
					r.Fail = fmt.Sprintf("%s instance hash, hint claims %s: %s", fe[plonk], a.name, r.Fail)
				}
				return r
			})
		}
	}

	// KYC
	type E = emulated.Secp256k1Fr
	ev := func(x *big.Int) emulated.Element[E] { return emulated.ValueOf[E](x) }
	R, S, H := bI("45536044045135930417610581277973574046122438970391757925449844580498097416238"), bI("77405625560525123464152303145240770328705524946250305291099118722847750339975"), bI("65836751601596300032969389553597263219621359970931417026813124302429596772205")
	kyc := func(r, s, h *big.Int, age, lo, hi, country uint64, list ...uint64) *Circuit {
		k := &Circuit{Signature: ecdsa.Signature[E]{R: ev(r), S: ev(s)}, KycHash: ev(h),
			ConditionHash: Conditions{Age: [2]frontend.Variable{lo, hi}, Level: []frontend.Variable{3}, Time: []frontend.Variable{300}}, Kyc: KycType{age, country, 3, 200}}
		for _, x := range list {
			k.ConditionHash.Country = append(k.ConditionHash.Country, x)
		}
		return k
	}
	plus := func(x *big.Int) *big.Int { return new(big.Int).Add(x, bU(1)) }
	for _, plonk := range []bool{true, false} {
		for _, n := range []int{1, 3, 5} {
			if n == 5 && !c.Thorough {
				continue
			}
			cs := c13Lazy(mcQ, plonk, func() frontend.Circuit {
				return &Circuit{ConditionHash: Conditions{Country: vars(n), Level: vars(1), Time: vars(1)}}
			})
			list := []uint64{300, 200, 100, 400, 300}[:n]
			type kc struct {
				name string
				w    func() *Circuit
				ok   bool
			}
			ks := []kc{
				{"true", func() *Circuit { return kyc(R, S, H, 35, 18, 50, 300, list...) }, true},
				{"malleable", func() *Circuit {
					return kyc(R, new(big.Int).Sub(bI("115792089237316195423570985008687907852837564279074904382605163141518161494337"), S), H, 35, 18, 50, 300, list...)
				}, true},
				{"bad hash", func() *Circuit { return kyc(R, S, plus(H), 35, 18, 50, 300, list...) }, false},
				{"bad r", func() *Circuit { return kyc(plus(R), S, H, 35, 18, 50, 300, list...) }, false},
				{"bad s", func() *Circuit { return kyc(R, plus(S), H, 35, 18, 50, 300, list...) }, false},
				{"absent", func() *Circuit { return kyc(R, S, H, 35, 18, 50, 301, list...) }, false},
				{"zero country", func() *Circuit { return kyc(R, S, H, 35, 18, 50, 0, list...) }, false},
				{"age 17", func() *Circuit { return kyc(R, S, H, 17, 18, 50, 300, list...) }, false},
				{"age 18", func() *Circuit { return kyc(R, S, H, 18, 18, 50, 300, list...) }, true},
				{"age 50", func() *Circuit { return kyc(R, S, H, 50, 18, 50, 300, list...) }, true},
				{"age 51", func() *Circuit { return kyc(R, S, H, 51, 18, 50, 300, list...) }, false},
				{"point range", func() *Circuit { return kyc(R, S, H, 35, 35, 35, 300, list...) }, true},
				{"empty range", func() *Circuit { return kyc(R, S, H, 35, 36, 34, 300, list...) }, false},
				{"age 0", func() *Circuit { return kyc(R, S, H, 0, 0, 0, 300, list...) }, true},
			}
			for p := range list {
				ks = append(ks, kc{fmt.Sprintf("country %d", p), func() *Circuit { return kyc(R, S, H, 35, 18, 50, list[p], list...) }, true})
			}
			for _, k := range ks {
				c.addConf(fmt.Sprintf("kyc/%s/%d/%s", fe[plonk], n, k.name), func() mcRes {
					err := mcSolve(cs(), mcQ, k.w())
					mcState("kyc", plonk, n, k.name, err == nil)
					r := want(err, k.ok)
					if r.Fail == "" {
						if d := mcExec(k.w().Define, nil); (d == nil) != (err == nil) {
							r.Fail = "direct run " + verdict(d) + ", compiled " + verdict(err)
						}
					}
					if r.Fail != "" {
						r.Fail = fmt.Sprintf("%s kyc with %d countries, %s: %s", fe[plonk], n, k.name, r.Fail)
					}
					return r
				})
			}
		}
	}

	// multi-scalar multiplication
	pt := func(p bn254.G1Affine) sw_emulated.AffinePoint[emparams.BN254Fp] {
		return sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](p.X), Y: emulated.ValueOf[emparams.BN254Fp](p.Y)}
	}
	rnd := refRand(9)
	ds := []*big.Int{rnd(), bU(5), rnd()}
	kk := []*big.Int{rnd(), bU(3), q(-5)} // (-1 alone leaves the regular domain, see C17)
	for n := 1; n <= 3; n++ {
		if n == 3 && !c.Thorough {
			continue
		}
		for _, plonk := range []bool{true, false} {
			cs := c13Lazy(mcQ, plonk, msmMk(n))
			for cl := 0; cl < 6; cl++ {
				c.addConf(fmt.Sprintf("msm/%s/%d/%d", fe[plonk], n, cl), func() mcRes {
					mk := func() *MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr] {
						t := new(big.Int)
						w := &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{}
						for i := 0; i < n; i++ {
							w.Points = append(w.Points, pt(refMulG(ds[i])))
							w.Scalars = append(w.Scalars, emulated.ValueOf[emparams.BN254Fr](kk[i]))
							t.Add(t, new(big.Int).Mul(ds[i], kk[i]))
						}
						r := refMulG(modQ(t))
						switch cl {
						case 1:
							r.Neg(&r)
						case 2:
							r.Double(&r)
						case 3:
							r.Add(&r, &g)
						case 4:
							r = bn254.G1Affine{}
						case 5:
							r.X, r.Y = r.Y, r.X
						}
						w.Res = pt(r)
						return w
					}
					err := mcSolve(cs(), mcQ, mk())
					r := want(err, cl == 0)
					if d := mcExec(mk().Define, nil); r.Fail == "" && (d == nil) != (err == nil) {
						r.Fail = "direct run " + verdict(d) + ", compiled " + verdict(err)
					}
					if r.Fail != "" {
						r.Fail = fmt.Sprintf("%s multi-scalar, %d terms, claim %d: %s", fe[plonk], n, cl, r.Fail)
					}
					return r
				})
			}
		}
	}
}
