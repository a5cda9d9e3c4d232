//go:build go1.22

package main

// C08: the instance hash and its binding to the instance words.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
)

func c08Words() []*big.Int {
	return []*big.Int{
		bI(fixTarget[0]), bI(fixTarget[1]), bI(fixTarget[2]), bI(fixTarget[3]), bI(fixInst),
		bU(0), bU(1), bU(255), bU(256), new(big.Int).Sub(mcQ, bU(1)), new(big.Int).Lsh(bU(1), 248), new(big.Int).Sub(new(big.Int).Lsh(bU(1), 248), bU(1)), new(big.Int).Rsh(mcQ, 1),
	}
}

// judge: an accepted run must give exactly the digest of these words.
func c08Run(in []*big.Int, honest bool, run func(func(frontend.API) error) error) mcRes {
	var out frontend.Variable
	args := mcVars(in)
	err := run(func(api frontend.API) (e error) { out, e = VerifyInstanceHash(api, args); return })
	r := mcRes{Outcome: verdict(err)}
	exp := refInstance(in)
	if err != nil {
		r.State = "reject"
		if honest {
			r.Fail = fmt.Sprintf("honest hash of %v refused: %s", in, oneLine(err))
		}
		return r
	}
	got := modQ(numOf(out))
	r.State = got.String()
	mcState(r.State)
	if got.Cmp(exp) != 0 {
		r.Fail = fmt.Sprintf("words %v: accepted instance value %s, keccak gives %s", in, got, exp)
	}
	for i := range args {
		if numOf(args[i]).Cmp(in[i]) != 0 {
			r.Fail = fmt.Sprintf("input word %d overwritten", i)
		}
	}
	return r
}

func c08Answer(words []*big.Int, out []*big.Int) {
	var d []byte
	for _, w := range words {
		d = append(d, be32(w)...)
	}
	h := refKeccak(d)
	out[0] = new(big.Int).SetBytes(h)
	for i, b := range append(append([]byte{}, h...), d...) {
		if 1+i < len(out) {
			out[1+i] = bU(uint64(b))
		}
	}
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per instance vector (honest hint), per altered hint output x value, per whole-answer substitution; an accepted run must return Keccak-256 of exactly these words modulo r"
	ws := c08Words()
	fixed := ws[:5]
	honest := func(f func(frontend.API) error) error { return mcExec(f, nil) }
	// vectors
	maxn := 6
	for n := 1; n <= maxn; n++ {
		for p := 0; p < n; p++ {
			for wi := range ws {
				if !c.Thorough && (wi+p+n)%3 != 0 && n != 5 {
					continue
				}
				c.add(fmt.Sprintf("vector/n%d/pos%d/w%d", n, p, wi), func() mcRes {
					in := make([]*big.Int, n)
					for i := range in {
						in[i] = ws[(i+n)%len(ws)]
					}
					in[p] = ws[wi]
					return c08Run(in, true, honest)
				})
			}
		}
	}
	// longer lists: around the block size of Keccak (17 words are 4 blocks) and
	// up to what the buffer of the aggregation holds
	long := []int{7, 8, 9, 12, 16, 17, 18, 33, 34, 43}
	if c.Thorough {
		long = nil
		for n := maxn + 1; n <= 45; n++ {
			long = append(long, n)
		}
	}
	for _, n := range long {
		for k := 0; k < 2; k++ {
			c.add(fmt.Sprintf("long/n%d/%d", n, k), func() mcRes {
				in := make([]*big.Int, n)
				for i := range in {
					in[i] = ws[(i+n)%len(ws)]
					if k == 1 {
						in[i] = new(big.Int).Add(in[i], bU(uint64(i)))
						in[i].Mod(in[i], mcQ)
					}
				}
				return c08Run(in, true, honest)
			})
		}
	}
	perm := func(a []*big.Int, k int) []*big.Int {
		r := append([]*big.Int{}, a...)
		for i := len(r) - 1; i > 0; i-- {
			j := k % (i + 1)
			k /= i + 1
			r[i], r[j] = r[j], r[i]
		}
		return r
	}
	for k := 0; k < 120; k++ {
		if !c.Thorough && k%10 != 1 {
			continue
		}
		c.add(fmt.Sprintf("permutation/%d", k), func() mcRes { return c08Run(perm(fixed, k), true, honest) })
	}
	// digests with zero leading bytes, and all multiples of r below 2^256
	rnd := refRand(8)
	need := map[int]int{}
	per := 2
	if c.Thorough {
		per = 8
	}
	for t := 0; t < 3000; t++ {
		in := []*big.Int{ws[0], ws[1], ws[2], ws[3], rnd()}
		var d []byte
		for _, w := range in {
			d = append(d, be32(w)...)
		}
		h := refKeccak(d)
		kind := 10 + int(new(big.Int).Div(new(big.Int).SetBytes(h), mcQ).Int64())
		if h[0] == 0 {
			kind = 0
		} else if h[31] == 0 {
			kind = 1
		}
		if need[kind] >= per {
			continue
		}
		need[kind]++
		c.add(fmt.Sprintf("digest/kind%d/%d", kind, need[kind]), func() mcRes { return c08Run(in, true, honest) })
	}
	// every hint output altered alone
	nout := 1 + 32*(len(fixed)+1)
	c.Bounds["hint_outputs"] = nout
	alts := 3
	if c.Thorough {
		alts = 7
	}
	for o := 0; o < nout; o++ {
		for k := 0; k < alts; k++ {
			c.add(fmt.Sprintf("alter/%d/%d", o, k), func() mcRes {
				return c08Run(fixed, false, func(f func(frontend.API) error) error {
					return mcExec(f, func(h *mcHintEv) {
						if h.Name != "Keccak256Hint" || o >= len(h.Out) {
							return
						}
						v := h.Out[o]
						switch k {
						case 0:
							h.Out[o] = new(big.Int).Xor(v, bU(1))
						case 1:
							h.Out[o] = new(big.Int).Mod(new(big.Int).Add(v, bU(128)), bU(256))
						case 2:
							h.Out[o] = new(big.Int).Add(v, bU(256))
						case 3:
							h.Out[o] = bU(0)
						case 4:
							h.Out[o] = bU(255)
						case 5:
							h.Out[o] = new(big.Int).Sub(mcQ, bU(1))
						case 6:
							h.Out[o] = new(big.Int).Add(v, new(big.Int).Lsh(bU(1), 64))
						}
					})
				})
			})
		}
	}
	// a byte moved from one place to the next (weights 1 and 256)
	for o := 34; o+1 < nout; o++ {
		if !c.Thorough && o%4 != 0 {
			continue
		}
		c.add(fmt.Sprintf("carry/%d", o), func() mcRes {
			return c08Run(fixed, false, func(f func(frontend.API) error) error {
				return mcExec(f, func(h *mcHintEv) {
					if h.Name != "Keccak256Hint" || o >= len(h.Out) {
						return
					}
					h.Out[o] = new(big.Int).Add(h.Out[o], bU(256))
					h.Out[o-1] = new(big.Int).Sub(h.Out[o-1], bU(1))
				})
			})
		})
	}
	// whole-answer substitutions: consistent digest + preimage of other words
	type sub struct {
		n string
		f func(in []*big.Int) []*big.Int
	}
	subs := []sub{
		{"zero", func(in []*big.Int) []*big.Int { return make0(len(in)) }},
		{"shifted", func(in []*big.Int) []*big.Int { return append(append([]*big.Int{}, in[1:]...), in[0]) }},
		{"reversed", func(in []*big.Int) []*big.Int {
			r := []*big.Int{}
			for i := range in {
				r = append(r, in[len(in)-1-i])
			}
			return r
		}},
	}
	for i := 0; i < 5; i++ {
		subs = append(subs,
			sub{fmt.Sprintf("word%d+1", i), func(in []*big.Int) []*big.Int {
				r := append([]*big.Int{}, in...)
				r[i] = new(big.Int).Add(r[i], bU(1))
				return r
			}},
			sub{fmt.Sprintf("word%d-alias", i), func(in []*big.Int) []*big.Int {
				r := append([]*big.Int{}, in...)
				r[i] = new(big.Int).Add(r[i], mcQ) // same field element, other bytes
				return r
			}},
			sub{fmt.Sprintf("word%d-zero", i), func(in []*big.Int) []*big.Int {
				r := append([]*big.Int{}, in...)
				r[i] = bU(0)
				return r
			}},
			sub{fmt.Sprintf("word%d-high", i), func(in []*big.Int) []*big.Int {
				r := append([]*big.Int{}, in...)
				r[i] = new(big.Int).Xor(r[i], new(big.Int).Lsh(bU(1), uint(255-i)))
				return r
			}},
			sub{fmt.Sprintf("word%d-swap", i), func(in []*big.Int) []*big.Int {
				r := append([]*big.Int{}, in...)
				r[i], r[(i+1)%5] = r[(i+1)%5], r[i]
				return r
			}},
			sub{fmt.Sprintf("word%d-dup", i), func(in []*big.Int) []*big.Int {
				r := append([]*big.Int{}, in...)
				r[i] = r[(i+1)%5]
				return r
			}},
		)
	}
	vecs := [][]*big.Int{fixed, {bU(0), bU(1), bU(2), bU(3), bU(4)}, {new(big.Int).Sub(mcQ, bU(1)), ws[10], ws[11], bU(255), bU(0)}}
	for vi, v := range vecs {
		for _, s := range subs {
			c.add(fmt.Sprintf("substitute/%d/%s", vi, s.n), func() mcRes {
				alt := s.f(v)
				return c08Run(v, false, func(f func(frontend.API) error) error {
					return mcExec(f, func(h *mcHintEv) {
						if h.Name == "Keccak256Hint" {
							c08Answer(alt, h.Out)
						}
					})
				})
			})
			// only the preimage, and only the digest, of the other words
			c.add(fmt.Sprintf("substitute/%d/%s/digest", vi, s.n), func() mcRes {
				alt := s.f(v)
				return c08Run(v, false, func(f func(frontend.API) error) error {
					return mcExec(f, func(h *mcHintEv) {
						if h.Name == "Keccak256Hint" {
							c08Answer(alt, h.Out[:33])
						}
					})
				})
			})
		}
	}
	// through the whole circuit: the liar substitutes the accepted instance
	fx := refFixture()
	for i := 0; i < 5; i++ {
		if !c.Thorough && i%2 == 1 {
			continue
		}
		c.add(fmt.Sprintf("aggregate/word%d", i), func() mcRes {
			a := fx.clone()
			if i < 4 {
				a.Target[i] = new(big.Int).Add(a.Target[i], bU(1))
			} else {
				a.Inst = new(big.Int).Add(a.Inst, bU(1))
			}
			return want(mcExec(a.circuit().Define, func(h *mcHintEv) {
				if h.Name == "Keccak256Hint" {
					c08Answer(fixed, h.Out)
				}
			}), false)
		})
	}
	// the instance commitment
	hs := []*big.Int{bU(1), bU(2), bU(3), new(big.Int).Sub(mcQ, bU(3)), new(big.Int).Rsh(mcQ, 1), refInstance(fixed), rnd(), rnd(), new(big.Int).Lsh(bU(1), 128)}
	for i, h := range hs {
		c.add(fmt.Sprintf("commitment/%d", i), func() mcRes {
			buf := make([]frontend.Variable, 43)
			for j := range buf {
				buf[j] = bU(uint64(300 + j))
			}
			buf[2] = cp(h)
			err := mcExec(func(api frontend.API) error { return CalcVerifyCircuitLagrange(api, buf) }, nil)
			r := want(err, true)
			if err == nil {
				x, y := ptXY(refInstCommit(h))
				if numOf(buf[0]).Cmp(x) != 0 || numOf(buf[1]).Cmp(y) != 0 {
					r.Fail = fmt.Sprintf("instance commitment of %s is (%s, %s), expected (%s, %s)", h, numOf(buf[0]), numOf(buf[1]), x, y)
				}
				for j := 2; j < 43; j++ {
					e := bU(uint64(300 + j))
					if j == 2 {
						e = h
					}
					if numOf(buf[j]).Cmp(e) != 0 {
						r.Fail = fmt.Sprintf("buffer slot %d overwritten", j)
					}
				}
			}
			return r
		})
	}
	c.addConf("gnark/honest", func() mcRes { return c08Run(fixed, true, mcReal) })
	c.addConf("gnark/honest1", func() mcRes { return c08Run(ws[9:10], true, mcReal) })
	c.addConf("gnark/honest2", func() mcRes { return c08Run(ws[4:10], true, mcReal) })
	c.Assume = []string{"x/crypto's Keccak as the oracle", "gnark's lookup tables are sound (their operands are range-checked by the engine)"}
}

func make0(n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = new(big.Int)
	}
	return r
}
