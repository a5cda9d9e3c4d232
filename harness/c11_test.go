//go:build go1.22

package main

// C11: the KYC circuit.  Every case runs Circuit.Define on one witness and
// compares the verdict with: ECDSA verification over secp256k1 for the
// issuer's key (written here from the standard, on gnark-crypto's curve),
// min <= age <= max on integers, and membership of the country list.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/secp256k1"
	sfr "github.com/consensys/gnark-crypto/ecc/secp256k1/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/signature/ecdsa"
)

type c11In struct {
	r, s, h       *big.Int
	age, min, max *big.Int
	country       *big.Int
	list          []*big.Int
	level, time   []*big.Int
	kl, kt        *big.Int
}

var (
	c11N  = sfr.Modulus()
	c11Pk = func() secp256k1.G1Affine {
		var p secp256k1.G1Affine
		p.X.SetBigInt(bI("85997066971194522473057012223499312995837068047270353161199320975157154592866"))
		p.Y.SetBigInt(bI("40070151623224504185408656535330873345235311800089295101492157067180406840001"))
		if !p.IsOnCurve() {
			panic("harness: issuer key")
		}
		return p
	}()
)

func c11Base() *c11In {
	return &c11In{
		r:   bI("45536044045135930417610581277973574046122438970391757925449844580498097416238"),
		s:   bI("77405625560525123464152303145240770328705524946250305291099118722847750339975"),
		h:   bI("65836751601596300032969389553597263219621359970931417026813124302429596772205"),
		age: bU(35), min: bU(18), max: bU(50), country: bU(300),
		list:  []*big.Int{bU(100), bU(200), bU(300), bU(400), bU(500)},
		level: []*big.Int{bU(3)}, time: []*big.Int{bU(300)}, kl: bU(3), kt: bU(200),
	}
}

// c11Sig decides a signature from the definition.
func c11Sig(r, s, h *big.Int, pk *secp256k1.G1Affine) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c11N) >= 0 || s.Cmp(c11N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, c11N)
	u1 := new(big.Int).Mul(h, w)
	u2 := new(big.Int).Mul(r, w)
	u1.Mod(u1, c11N)
	u2.Mod(u2, c11N)
	_, g := secp256k1.Generators()
	var a, b secp256k1.G1Affine
	a.ScalarMultiplication(&g, u1)
	b.ScalarMultiplication(pk, u2)
	a.Add(&a, &b)
	if a.IsInfinity() {
		return false
	}
	x := a.X.BigInt(new(big.Int))
	return x.Mod(x, c11N).Cmp(r) == 0
}

// c11Forge makes a triple valid for pk out of two scalars.
func c11Forge(u1, u2 uint64, pk *secp256k1.G1Affine) (r, s, h *big.Int) {
	_, g := secp256k1.Generators()
	var a, b secp256k1.G1Affine
	a.ScalarMultiplication(&g, bU(u1))
	b.ScalarMultiplication(pk, bU(u2))
	a.Add(&a, &b)
	r = a.X.BigInt(new(big.Int))
	r.Mod(r, c11N)
	s = new(big.Int).Mul(r, new(big.Int).ModInverse(bU(u2), c11N))
	s.Mod(s, c11N)
	h = new(big.Int).Mul(bU(u1), s)
	h.Mod(h, c11N)
	return
}

func (w *c11In) cond() (age, country bool) {
	age = w.min.Cmp(w.age) <= 0 && w.age.Cmp(w.max) <= 0
	for _, e := range w.list {
		country = country || e.Cmp(w.country) == 0
	}
	return
}

func (w *c11In) circuit() *Circuit {
	one := func(l []*big.Int) []frontend.Variable { return mcVars(l) }
	return &Circuit{
		Signature: ecdsa.Signature[emulated.Secp256k1Fr]{R: emulated.ValueOf[emulated.Secp256k1Fr](w.r), S: emulated.ValueOf[emulated.Secp256k1Fr](w.s)},
		KycHash:   emulated.ValueOf[emulated.Secp256k1Fr](w.h),
		ConditionHash: Conditions{Age: [2]frontend.Variable{cp(w.min), cp(w.max)}, Country: one(w.list),
			Level: one(w.level), Time: one(w.time)},
		Kyc: KycType{cp(w.age), cp(w.country), cp(w.kl), cp(w.kt)},
	}
}

func (w *c11In) String() string {
	return fmt.Sprintf("r=%s s=%s h=%s age=%s in [%s,%s] country=%s in %v", w.r, w.s, w.h, w.age, w.min, w.max, w.country, w.list)
}

func (w *c11In) check(sig bool, real bool) mcRes {
	a, k := w.cond()
	var err error
	if real {
		err = mcReal(func(api frontend.API) error { return w.circuit().Define(api) })
	} else {
		err = mcExecFor(sig && a && k, func(api frontend.API) error { return w.circuit().Define(api) })
	}
	r := want(err, sig && a && k)
	mcState(w.String(), w.level, w.time, w.kl, w.kt, err == nil)
	if r.Fail != "" {
		r.Fail = fmt.Sprintf("%s (signature %v, age %v, country %v): %s", w, sig, a, k, r.Fail)
	}
	return r
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per (age, min) with every max of the alphabet; per country list; per altered signature; accepted iff signature valid, min <= age <= max and country in list"
	c.Assume = []string{"gnark's emulated secp256k1 arithmetic with its honest hints", "gnark-crypto secp256k1 as the reference curve",
		"r, s, hash given as canonical integers of the secp256k1 scalar field; hash 0 is outside the domain (no preimage)"}
	if b := c11Base(); !c11Sig(b.r, b.s, b.h, &c11Pk) {
		panic("harness: fixture signature")
	}

	// ages
	al := []*big.Int{bU(0), bU(1), bU(17), bU(18), bU(19), bU(50), bU(51), bU(256), new(big.Int).Lsh(bU(1), 64), new(big.Int).Rsh(mcQ, 1), new(big.Int).Sub(mcQ, bU(1))}
	if c.Thorough {
		h := new(big.Int).Rsh(mcQ, 1)
		al = append(al, bU(2), bU(35), bU(49), bU(127), bU(128), bU(255), bU(257), new(big.Int).Lsh(bU(1), 32), new(big.Int).Lsh(bU(1), 253), new(big.Int).Add(h, bU(1)), new(big.Int).Sub(mcQ, bU(2)))
	}
	c.Bounds["age_alphabet"] = len(al)
	for i, age := range al {
		for j, lo := range al {
			c.add(fmt.Sprintf("age/%d/%d", i, j), func() mcRes {
				var r mcRes
				for _, hi := range al {
					w := c11Base()
					w.age, w.min, w.max = age, lo, hi
					if r = w.check(true, false); r.Fail != "" {
						return r
					}
				}
				return r
			})
		}
	}

	// values that agree in their low or high bits only
	for k := uint(1); k <= 253; k++ {
		if !c.Thorough && k%32 != 0 && k%32 != 31 && k != 8 && k != 16 && k != 253 && k != 1 {
			continue
		}
		p := new(big.Int).Lsh(bU(1), k)
		up := func(v uint64) *big.Int { return modQ(new(big.Int).Add(bU(v), p)) }
		c.add(fmt.Sprintf("bits/%d", k), func() (r mcRes) {
			for i := 0; i < 12; i++ {
				w := c11Base()
				switch i {
				case 0:
					w.age = up(35)
				case 1:
					w.min = up(18)
				case 2:
					w.max = up(50)
				case 3:
					w.age, w.max = up(35), up(50)
				case 4:
					w.age, w.min, w.max = up(17), up(18), up(50)
				case 5:
					w.age, w.min, w.max = up(51), up(18), up(50)
				case 6:
					w.age, w.min = up(35), up(18)
				case 7:
					w.age, w.max = bU(51), up(50)
				case 8:
					w.country = up(300)
				case 9:
					w.list[2] = up(300)
				case 10:
					w.list[2], w.country = up(300), up(300)
				case 11:
					w.country, w.list = p, []*big.Int{bU(0), up(1)}
				}
				if r = w.check(true, false); r.Fail != "" {
					return
				}
			}
			return
		})
	}

	// country lists: all lists over a three-letter alphabet up to a length
	maxLen := 3
	if c.Thorough {
		maxLen = 5
	}
	c.Bounds["country_lists"] = fmt.Sprintf("all lists over {0,300,301} of length 0..%d; lengths to 6 (thorough: 16) with the match at every position, duplicated at every pair", maxLen)
	abc := []uint64{0, 300, 301}
	var rec func(l []*big.Int)
	rec = func(l []*big.Int) {
		list := append([]*big.Int{}, l...)
		c.add(fmt.Sprintf("country/%v", list), func() mcRes {
			var r mcRes
			for _, k := range abc {
				w := c11Base()
				w.list, w.country = list, bU(k)
				if r = w.check(true, false); r.Fail != "" {
					return r
				}
			}
			return r
		})
		if len(l) < maxLen {
			for _, k := range abc {
				rec(append(l, bU(k)))
			}
		}
	}
	rec(nil)
	for _, n := range []int{4, 5, 6, 8, 16} {
		if !c.Thorough && n > 6 {
			continue
		}
		mk := func() *c11In {
			w := c11Base()
			w.list = nil
			for i := 0; i < n; i++ {
				w.list = append(w.list, bU(uint64(100*i+7)))
			}
			return w
		}
		for p := 0; p < n; p++ {
			c.add(fmt.Sprintf("position/%d/%d", n, p), func() mcRes {
				var r mcRes
				for q := p; q < n; q++ {
					w := mk()
					w.country = cp(w.list[p])
					w.list[q] = cp(w.list[p])
					if r = w.check(true, false); r.Fail != "" {
						return r
					}
				}
				// near misses of this entry
				for _, d := range []*big.Int{bU(1), new(big.Int).Neg(bU(1)), bU(256), new(big.Int).Lsh(bU(1), 64), new(big.Int).Lsh(bU(1), 253), new(big.Int).Neg(bU(14))} {
					w := mk()
					w.country = modQ(new(big.Int).Add(w.list[p], d))
					if r = w.check(true, false); r.Fail != "" {
						return r
					}
				}
				w := mk()
				w.country = modQ(new(big.Int).Neg(w.list[p]))
				return w.check(true, false)
			})
		}
		c.add(fmt.Sprintf("position/%d/all-same", n), func() mcRes {
			w := mk()
			for i := range w.list {
				w.list[i] = bU(300)
			}
			r := w.check(true, false)
			if r.Fail == "" {
				w.country = bU(301)
				r = w.check(true, false)
			}
			return r
		})
	}

	// long lists: the match at every position (or around every multiple of a
	// batch size), and nowhere
	wide := []int{17, 33, 64, 65, 129, 200, 257}
	if c.Thorough {
		wide = append(wide, 9, 10, 12, 15, 20, 31, 32, 48, 63, 100, 127, 128, 255, 256, 300, 513, 1000)
	}
	for _, n := range wide {
		var l []*big.Int
		for i := 0; i < n; i++ {
			l = append(l, bU(uint64(100*i+7)))
		}
		for b := 0; b < n; b += 16 {
			c.add(fmt.Sprintf("wide/%d/%d", n, b), func() (r mcRes) {
				for p := b; p < b+16 && p < n; p++ {
					if !c.Thorough && n > 40 && p%16 > 1 && p%16 < 15 && p < n-1 {
						continue
					}
					w := c11Base()
					w.list, w.country = l, cp(l[p])
					if r = w.check(true, false); r.Fail != "" {
						return
					}
				}
				w := c11Base()
				w.list, w.country = l, new(big.Int).Add(l[b], bU(1))
				return w.check(true, false)
			})
		}
	}
	c.Bounds["wide_lists"] = fmt.Sprint(wide)

	// signatures
	type trip struct{ r, s, h *big.Int }
	var good []trip
	b := c11Base()
	good = append(good, trip{b.r, b.s, b.h})
	us := [][2]uint64{{1, 2}, {7, 5}, {123456789, 987654321}, {3, 1 << 40}}
	if c.Thorough {
		for i := uint64(2); i < 40; i++ {
			us = append(us, [2]uint64{i * 7919, i*104729 + 1})
		}
	}
	for _, u := range us {
		r, s, h := c11Forge(u[0], u[1], &c11Pk)
		good = append(good, trip{r, s, h})
	}
	sig := func(id string, t trip) {
		c.add(id, func() mcRes {
			w := c11Base()
			w.r, w.s, w.h = t.r, t.s, t.h
			return w.check(c11Sig(t.r, t.s, t.h, &c11Pk), false)
		})
	}
	modN := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, c11N) }
	for i, t := range good {
		sig(fmt.Sprintf("sig/valid%d", i), t)
		sig(fmt.Sprintf("sig/malleable%d", i), trip{t.r, modN(new(big.Int).Neg(t.s)), t.h})
		sig(fmt.Sprintf("sig/neg-r%d", i), trip{modN(new(big.Int).Neg(t.r)), t.s, t.h})
		sig(fmt.Sprintf("sig/neg-h%d", i), trip{t.r, t.s, modN(new(big.Int).Neg(t.h))})
		sig(fmt.Sprintf("sig/swap-rs%d", i), trip{t.s, t.r, t.h})
		sig(fmt.Sprintf("sig/swap-sh%d", i), trip{t.r, t.h, t.s})
		if i > 4 {
			continue
		}
		for j, o := range good[:4] {
			if i != j {
				sig(fmt.Sprintf("sig/mix-r/%d/%d", i, j), trip{o.r, t.s, t.h})
				sig(fmt.Sprintf("sig/mix-s/%d/%d", i, j), trip{t.r, o.s, t.h})
				sig(fmt.Sprintf("sig/mix-h/%d/%d", i, j), trip{t.r, t.s, o.h})
			}
		}
	}
	// every bit (thorough) or every limb boundary (quick) of each component
	for comp := 0; comp < 3; comp++ {
		for k := 0; k < 256; k++ {
			if !c.Thorough && k%64 != 0 && k%64 != 63 && k != 128+7 {
				continue
			}
			t := trip{cp(b.r), cp(b.s), cp(b.h)}
			v := []*big.Int{t.r, t.s, t.h}[comp]
			v.SetBit(v, k, 1-v.Bit(k))
			if v.Cmp(c11N) >= 0 {
				continue
			}
			sig(fmt.Sprintf("sig/bit/%d/%d", comp, k), t)
		}
		for j, e := range []*big.Int{bU(0), bU(1), bU(2), new(big.Int).Sub(c11N, bU(1)), new(big.Int).Sub(c11N, bU(2)), new(big.Int).Rsh(c11N, 1)} {
			t := trip{cp(b.r), cp(b.s), cp(b.h)}
			[]*big.Int{t.r, t.s, t.h}[comp].Set(e)
			sig(fmt.Sprintf("sig/edge/%d/%d", comp, j), t)
		}
	}
	for i := 0; i < 27; i++ {
		e := []*big.Int{bU(0), bU(1), new(big.Int).Sub(c11N, bU(1))}
		sig(fmt.Sprintf("sig/tiny/%d", i), trip{e[i%3], e[i/3%3], e[i/9]})
	}
	// other signers: neighbours of the key
	for i := uint64(1); i <= 4; i++ {
		_, g := secp256k1.Generators()
		var d secp256k1.G1Affine
		d.ScalarMultiplication(&g, bU(i))
		switch i {
		case 2:
			d.Neg(&c11Pk)
		case 3:
			d.Double(&c11Pk)
		case 4:
			d.Add(&c11Pk, &g)
		}
		r, s, h := c11Forge(11*i, 13*i, &d)
		if !c11Sig(r, s, h, &d) {
			panic("harness: forged signature")
		}
		sig(fmt.Sprintf("sig/other-key/%d", i), trip{r, s, h})
	}

	// every subset of the three conditions broken, in several ways
	brk := [][]func(*c11In){
		{func(w *c11In) { w.h = new(big.Int).Add(w.h, bU(1)) }, func(w *c11In) { w.s = new(big.Int).Add(w.s, bU(1)) }},
		{func(w *c11In) { w.age = bU(17) }, func(w *c11In) { w.age = bU(51) }, func(w *c11In) { w.min, w.max = w.max, w.min }},
		{func(w *c11In) { w.country = bU(301) }, func(w *c11In) { w.list = w.list[:2] }, func(w *c11In) { w.list = nil }},
	}
	for m := 0; m < 8; m++ {
		var rec func(i int, name string, fs []func(*c11In))
		rec = func(i int, name string, fs []func(*c11In)) {
			if i == 3 {
				run := func(real bool) func() mcRes {
					return func() mcRes {
						w := c11Base()
						for _, f := range fs {
							f(w)
						}
						return w.check(m&1 == 0, real)
					}
				}
				c.add("subset/"+name, run(false))
				if name == "---" || name == "0--" || name == "-0-" || name == "--0" {
					c.addConf("gnark/subset/"+name, run(true))
				}
				return
			}
			if m>>i&1 == 0 {
				rec(i+1, name+"-", fs)
				return
			}
			for k, f := range brk[i] {
				rec(i+1, fmt.Sprint(name, k), append(append([]func(*c11In){}, fs...), f))
			}
		}
		rec(0, "", nil)
	}

	// the level and time conditions are carried but not part of the verdict
	for i, e := range []*big.Int{bU(0), bU(2), bU(4), new(big.Int).Sub(mcQ, bU(1))} {
		for j := 0; j < 6; j++ {
			c.add(fmt.Sprintf("other/%d/%d", i, j), func() mcRes {
				w := c11Base()
				switch j {
				case 0:
					w.kl = e
				case 1:
					w.kt = e
				case 2:
					w.level = []*big.Int{e}
				case 3:
					w.time = []*big.Int{e}
				case 4:
					w.level, w.time = nil, []*big.Int{e, e}
				case 5:
					w.level, w.time = []*big.Int{e, e, e}, nil
				}
				return w.check(true, false)
			})
			// ... and cannot replace a condition
			c.add(fmt.Sprintf("other/%d/%d/broken", i, j), func() mcRes {
				last := mcRes{}
				for k := 0; k < 4; k++ {
					w := c11Base()
					sig := true
					switch k {
					case 0:
						w.country = e
					case 1:
						w.age = bU(51)
					case 2:
						w.age = bU(17)
					case 3:
						w.h.Add(w.h, bU(1))
						sig = false
					}
					switch j {
					case 0:
						w.kl = e
					case 1:
						w.kt = e
					case 2:
						w.level, w.kl = []*big.Int{e}, e
					case 3:
						w.time, w.kt = []*big.Int{e}, e
					case 4:
						w.level, w.time = nil, []*big.Int{w.country, w.age}
					case 5:
						w.level, w.time = []*big.Int{w.country, w.age, e}, nil
					}
					if last = w.check(sig, false); last.Fail != "" {
						return last
					}
				}
				return last
			})
		}
	}
}
