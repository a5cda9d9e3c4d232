//go:build go1.22

package main

// C10: scalar-field helpers and byte packing, against exact integer
// arithmetic, under honest and deviating reduction hints.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
)

func c10Alphabet(thorough bool) []*big.Int {
	half := new(big.Int).Rsh(mcQ, 1)
	r := refRand(10)
	a := []*big.Int{
		bU(0), bU(1), bU(2), bU(3), bU(255), bU(256),
		new(big.Int).Sub(mcQ, bU(1)), new(big.Int).Sub(mcQ, bU(2)), new(big.Int).Sub(mcQ, bU(3)),
		half, new(big.Int).Add(half, bU(1)),
		new(big.Int).Lsh(bU(1), 64), new(big.Int).Sub(new(big.Int).Lsh(bU(1), 64), bU(1)),
		new(big.Int).Lsh(bU(1), 128), new(big.Int).Lsh(bU(1), 253),
		new(big.Int).Sub(mcP, mcQ), r(), r(), r(),
	}
	n := 1
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		a = append(a, r())
	}
	for _, k := range []uint{8, 16, 32, 63, 127, 129, 192, 248, 252} {
		a = append(a, new(big.Int).Lsh(bU(1), k), new(big.Int).Sub(new(big.Int).Lsh(bU(1), k), bU(1)))
	}
	return a
}

type c10op struct {
	name string
	f    func(api frontend.API, a, b *big.Int) frontend.Variable
	ref  func(a, b *big.Int) *big.Int
	raw  bool // result is compared modulo the field (not a canonical integer)
}

func c10Ops() []c10op {
	return []c10op{
		{"add", func(api frontend.API, a, b *big.Int) frontend.Variable { return fr_add(api, a, b) }, func(a, b *big.Int) *big.Int { return modQ(new(big.Int).Add(a, b)) }, false},
		{"sub", func(api frontend.API, a, b *big.Int) frontend.Variable { return fr_sub(api, a, b) }, func(a, b *big.Int) *big.Int { return modQ(new(big.Int).Sub(a, b)) }, false},
		{"mul", func(api frontend.API, a, b *big.Int) frontend.Variable { return fr_mul(api, a, b) }, func(a, b *big.Int) *big.Int { return modQ(new(big.Int).Mul(a, b)) }, false},
		{"mulneg", func(api frontend.API, a, b *big.Int) frontend.Variable { return fr_mul_neg(api, a, b) }, func(a, b *big.Int) *big.Int { return modQ(new(big.Int).Neg(new(big.Int).Mul(a, b))) }, true},
	}
}

// judged: whatever the hint answered, an accepted run returned the exact value.
func c10Judge(err error, got frontend.Variable, exp *big.Int, raw, honest bool) mcRes {
	r := mcRes{Outcome: verdict(err)}
	if err != nil {
		r.State = "reject"
		if honest {
			r.Fail = "honest answer refused: " + oneLine(err)
		}
		return r
	}
	n := numOf(got)
	if n == nil {
		r.Fail = fmt.Sprintf("no number returned: %v", got)
		return r
	}
	r.State = n.String()
	mcState(r.State)
	if raw {
		n = modQ(n)
	}
	if n.Cmp(exp) != 0 {
		r.Fail = fmt.Sprintf("accepted result %s, exact value is %s", n, exp)
	}
	return r
}

// answers a prover could give instead of v
func c10Alter(v *big.Int) []*big.Int {
	half := new(big.Int).Rsh(mcQ, 1)
	return []*big.Int{
		new(big.Int).Add(v, bU(1)), new(big.Int).Sub(v, bU(1)), bU(0), bU(1),
		modQ(new(big.Int).Neg(v)), new(big.Int).Add(v, half), modQ(new(big.Int).Lsh(v, 1)), cp(mcQ), new(big.Int).Sub(mcQ, bU(1)),
	}
}

func mcDefine(c *mcCheck) {
	al := c10Alphabet(c.Thorough)
	c.Rule = "one case per operand tuple and helper (all pairs of the boundary alphabet are run inside it); a deviation case alters one or both outputs of the reduction hint; every accepted run must have returned the exact value"
	c.Bounds["alphabet"] = len(al)
	for _, op := range c10Ops() {
		for i, a := range al {
			c.add(fmt.Sprintf("%s/a%d", op.name, i), func() mcRes {
				last := mcRes{}
				for _, b := range al {
					a1, b1 := cp(a), cp(b)
					var out frontend.Variable
					err := mcExec(func(api frontend.API) error { out = op.f(api, a1, b1); return nil }, nil)
					last = c10Judge(err, out, op.ref(a, b), op.raw, true)
					if last.Fail != "" {
						last.Fail = fmt.Sprintf("%s(%s, %s): %s", op.name, a, b, last.Fail)
						return last
					}
				}
				return last
			})
		}
		// hint deviations
		for i := 0; i < len(al); i++ {
			if !c.Thorough && i >= 19 {
				break
			}
			a := al[i]
			c.add(fmt.Sprintf("%s/hint/a%d", op.name, i), func() mcRes {
				last := mcRes{Trivial: true}
				for j, b := range al {
					if !c.Thorough && (i+j)%3 != 0 {
						continue
					}
					for out0 := 0; out0 < 3; out0++ {
						for k := 0; k < 9; k++ {
							hit := false
							var out frontend.Variable
							err := mcExec(func(api frontend.API) error { out = op.f(api, cp(a), cp(b)); return nil }, func(h *mcHintEv) {
								for o := range h.Out {
									if out0 == o || out0 == 2 {
										h.Out[o] = c10Alter(h.Out[o])[k]
										hit = true
									}
								}
							})
							r := c10Judge(err, out, op.ref(a, b), op.raw, false)
							if r.Fail != "" {
								r.Fail = fmt.Sprintf("%s(%s, %s) with hint output %d altered (%d): %s", op.name, a, b, out0, k, r.Fail)
								return r
							}
							r.Trivial = !hit
							last = r
						}
					}
				}
				return last
			})
		}
	}
	// unary helpers
	for i, a := range al {
		c.add(fmt.Sprintf("unary/a%d", i), func() mcRes {
			type un struct {
				n   string
				f   func(frontend.API, *big.Int) frontend.Variable
				exp *big.Int
				raw bool
			}
			last := mcRes{}
			for _, u := range []un{
				{"neg", func(api frontend.API, x *big.Int) frontend.Variable { return fr_neg(api, x) }, modQ(new(big.Int).Neg(a)), true},
				{"mod", func(api frontend.API, x *big.Int) frontend.Variable { return mod(api, x) }, cp(a), false},
				{"neg2", func(api frontend.API, x *big.Int) frontend.Variable { return fr_neg(api, fr_neg(api, x)) }, cp(a), true},
				{"addneg", func(api frontend.API, x *big.Int) frontend.Variable { return fr_add(api, x, fr_neg(api, x)) }, bU(0), false},
			} {
				for dev := -1; dev < 9; dev++ {
					var out frontend.Variable
					var hook func(*mcHintEv)
					if dev >= 0 {
						hook = func(h *mcHintEv) { h.Out[len(h.Out)-1] = c10Alter(h.Out[len(h.Out)-1])[dev] }
					}
					err := mcExec(func(api frontend.API) error { out = u.f(api, cp(a)); return nil }, hook)
					last = c10Judge(err, out, u.exp, u.raw, dev < 0)
					if last.Fail != "" {
						last.Fail = fmt.Sprintf("%s(%s) dev %d: %s", u.n, a, dev, last.Fail)
						return last
					}
				}
			}
			return last
		})
	}
	// powers
	maxp := int64(130)
	if c.Thorough {
		maxp = 1100
	}
	exps := []int64{}
	for k := int64(0); k <= maxp; k++ {
		exps = append(exps, k)
	}
	for k := uint(7); k <= 16; k++ {
		exps = append(exps, int64(1)<<k-1, int64(1)<<k, int64(1)<<k+1)
	}
	if c.Thorough {
		exps = append(exps, 1<<20, 1<<22, 1<<23, 1<<23-1, 1<<23+1)
	} else {
		exps = append(exps, 1<<23)
	}
	bases := []*big.Int{bU(0), bU(1), bU(2), new(big.Int).Sub(mcQ, bU(1)), bI("8374374965308410102411073611984011876711565317741801500439755773472076597347"), al[16], al[17]}
	c.Bounds["exponents"] = len(exps)
	done := map[int64]bool{}
	for _, k := range exps {
		if done[k] {
			continue
		}
		done[k] = true
		c.add(fmt.Sprintf("pow/%d", k), func() mcRes {
			last := mcRes{}
			bs := bases
			if k > 1<<17 {
				bs = bases[4:6]
			}
			for _, b := range bs {
				for dev := -1; dev < 3; dev++ {
					if dev >= 0 && k > 300 {
						break
					}
					var out frontend.Variable
					var hook func(*mcHintEv)
					if dev >= 0 {
						hook = func(h *mcHintEv) { h.Out[len(h.Out)-1] = c10Alter(h.Out[len(h.Out)-1])[dev] }
					}
					err := mcExec(func(api frontend.API) error { out = fr_pow(api, cp(b), big.NewInt(k)); return nil }, hook)
					last = c10Judge(err, out, new(big.Int).Exp(b, big.NewInt(k), mcQ), false, dev < 0)
					if last.Fail != "" {
						last.Fail = fmt.Sprintf("pow(%s, %d) dev %d: %s", b, k, dev, last.Fail)
						return last
					}
				}
			}
			return last
		})
	}
	// decimal literals
	c.add("from_string", func() mcRes {
		for _, a := range al {
			if numOf(fr_from_string(a.String())).Cmp(a) != 0 {
				return mcRes{Outcome: "value", Fail: "fr_from_string(" + a.String() + ")"}
			}
		}
		return mcRes{Outcome: "value"}
	})
	// byte packing: lengths 1..70, patterns, and every single byte position
	maxl := 70
	for n := 1; n <= maxl; n++ {
		c.add(fmt.Sprintf("pack/len%d", n), func() mcRes {
			pats := [][]byte{}
			mk := func(f func(i int) byte) {
				b := make([]byte, n)
				for i := range b {
					b[i] = f(i)
				}
				pats = append(pats, b)
			}
			mk(func(int) byte { return 0 })
			mk(func(int) byte { return 255 })
			mk(func(i int) byte { return byte(i + 1) })
			mk(func(i int) byte { return byte(37*i + 11) })
			for p := 0; p < n; p++ {
				for _, v := range []byte{1, 127, 128, 255} {
					mk(func(i int) byte {
						if i == p {
							return v
						}
						return 0
					})
				}
				mk(func(i int) byte {
					if i == p {
						return 0
					}
					return byte(200 - i)
				})
			}
			last := mcRes{}
			for _, b := range pats {
				in := make([]frontend.Variable, n)
				for i := range b {
					in[i] = bU(uint64(b[i]))
				}
				var out frontend.Variable
				err := mcExec(func(api frontend.API) error { out = PackUInt8Variables(api, in...); return nil }, nil)
				last = c10Judge(err, out, modQ(new(big.Int).SetBytes(b)), true, true)
				if last.Fail != "" {
					last.Fail = fmt.Sprintf("pack(%x): %s", b, last.Fail)
					return last
				}
			}
			return last
		})
	}
	// replayed on gnark's own engine
	for i := 0; i < len(al); i += 4 {
		a, b := al[i], al[(i*7+3)%len(al)]
		c.addConf(fmt.Sprintf("conf/%d", i), func() mcRes {
			exp := modQ(new(big.Int).Mul(new(big.Int).Add(a, b), new(big.Int).Sub(a, b)))
			f := func(api frontend.API) error {
				s, d := fr_add(api, cp(a), cp(b)), fr_sub(api, cp(a), cp(b))
				m := fr_mul(api, s, d)
				api.AssertIsEqual(m, exp)
				p := fr_pow(api, m, big.NewInt(5))
				api.AssertIsEqual(p, new(big.Int).Exp(exp, big.NewInt(5), mcQ))
				api.AssertIsEqual(fr_neg(api, m), modQ(new(big.Int).Neg(exp)))
				return nil
			}
			e1, e2 := mcExec(f, nil), mcReal(f)
			r := want(e2, true)
			if r.Fail == "" && verdict(e1) != verdict(e2) {
				r.Fail = "engine disagrees with gnark: " + oneLine(e1)
			}
			return r
		})
	}
	c.Assume = []string{"operands are canonical field elements or byte values, as the circuits pass them"}
}
