//go:build go1.22

package main

// C04: the SHPLONK reduction.  The three verifier steps run on transcripts,
// challenges and instance commitments that differ from the accepted ones in
// one place (and on dense and sparse ones); the pairing inputs they leave must
// be those of the independent reduction.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

type c04In struct {
	proof []*big.Int
	ic    bn254.G1Affine
	ch    []*big.Int
	may   bool // a group operation may leave the domain of the EC gadgets: refusing is allowed
}

func c04Run(in *c04In, exec func(func(frontend.API) error) error) mcRes {
	out := refReduce(in.proof, in.ic, chFrom(in.ch))
	i0, i1 := ptXY(in.ic)
	var buf [43]frontend.Variable
	err := exec(func(api frontend.API) (e error) {
		buf, e = mcVerify(api, in.proof, refAuxBig(out), i0, i1, in.ch)
		return
	})
	r := mcRes{Outcome: verdict(err)}
	if out.Deg {
		// a vanishing denominator: no quotient exists, only the absence of a
		// wrong acceptance matters (decided in C05)
		r.Trivial = true
		return r
	}
	if err != nil {
		if !in.may {
			r.Fail = "the true quotients were refused: " + oneLine(err)
		}
		return r
	}
	wx, wy := ptXY(out.W1)
	fx, fy := ptXY(out.F)
	for i, e := range []*big.Int{wx, wy, fx, fy} {
		g := numOf(buf[10+i])
		r.State += g.String() + ","
		if g.Cmp(e) != 0 {
			r.Fail = fmt.Sprintf("pairing input %d (W'.x W'.y F.x F.y) is %s, the reduction gives %s", i, g, e)
			return r
		}
	}
	mcState(r.State)
	return r
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per replaced evaluation / commitment / challenge / instance commitment and per dense or sparse transcript; the points left for the pairing must equal the independent native reduction"
	fx := refFixture()
	ic := refInstCommit(refInstance(fx.hashIn()))
	i0, i1 := ptXY(ic)
	ch0 := refChallenges(i0, i1, fx.Proof).list()
	eng := func(f func(frontend.API) error) error { return mcExec(f, nil) }
	base := func() *c04In {
		b := &c04In{proof: fx.clone().Proof, ic: ic}
		for _, v := range ch0 {
			b.ch = append(b.ch, cp(v))
		}
		return b
	}
	add := func(id string, f func(b *c04In)) {
		c.add(id, func() mcRes {
			b := base()
			f(b)
			return c04Run(b, eng)
		})
	}
	rnd := refRand(4)
	pt := func(k int64) (*big.Int, *big.Int) { return ptXY(refMulG(big.NewInt(k))) }
	m1 := new(big.Int).Sub(mcQ, bU(1))
	add("fixture", func(*c04In) {})
	// dense: everything random; twice, so that nothing cancels by accident
	nd := 3
	if c.Thorough {
		nd = 24
	}
	for k := 0; k < nd; k++ {
		var ev [56]*big.Int
		var chs [8]*big.Int
		for i := range ev {
			ev[i] = rnd()
		}
		for i := range chs {
			chs[i] = rnd()
		}
		add(fmt.Sprintf("dense/%d", k), func(b *c04In) {
			for i := range b.proof {
				if i >= 44 && i < 100 {
					b.proof[i] = ev[i-44]
				} else if i%2 == 0 {
					b.proof[i], b.proof[i+1] = pt(int64(1000*k + 3*i + 7))
				}
			}
			b.ic = refMulG(bU(uint64(500 + k)))
			b.ch = chs[:]
		})
	}
	// evaluations: blocks zeroed or set to one / r-1
	for _, s := range []int{7, 11} {
		for o := 0; o < s; o++ {
			if !c.Thorough && s == 11 {
				continue
			}
			add(fmt.Sprintf("evals/zero%d+%dk", o, s), func(b *c04In) {
				for i := 44 + o; i < 100; i += s {
					b.proof[i] = bU(0)
				}
			})
			add(fmt.Sprintf("evals/one%d+%dk", o, s), func(b *c04In) {
				for i := 44 + o; i < 100; i += s {
					b.proof[i] = bU(1)
				}
			})
			if c.Thorough || o%2 == 0 {
				add(fmt.Sprintf("evals/max%d+%dk", o, s), func(b *c04In) {
					for i := 44 + o; i < 100; i += s {
						b.proof[i] = cp(m1)
					}
				})
			}
		}
	}
	add("evals/all-one", func(b *c04In) {
		for i := 44; i < 100; i++ {
			b.proof[i] = bU(1)
		}
	})
	// selector values that switch the fixed gates (58..70 are fixed columns)
	for _, v := range []uint64{0, 1, 2, 3} {
		add(fmt.Sprintf("selector/%d", v), func(b *c04In) { b.proof[70] = bU(v) })
	}
	for i := 44; i < 100; i++ {
		if !c.Thorough {
			continue
		}
		for k, v := range []*big.Int{bU(0), bU(1), m1, rnd()} {
			add(fmt.Sprintf("eval%d/%d", i, k), func(b *c04In) { b.proof[i] = cp(v) })
		}
	}
	// equal evaluations (differences vanish)
	for _, pr := range [][2]int{{51, 52}, {53, 54}, {92, 93}, {92, 94}, {97, 98}, {97, 99}, {90, 91}, {95, 96}, {79, 80}, {82, 81}, {85, 84}, {88, 87}} {
		if !c.Thorough && pr[0]%2 == 0 {
			continue
		}
		add(fmt.Sprintf("equal/%d-%d", pr[0], pr[1]), func(b *c04In) { b.proof[pr[0]] = cp(b.proof[pr[1]]) })
	}
	// commitments: replaced, several at once in the quick tier
	for i := 0; i < 104; i += 2 {
		if i >= 44 && i < 100 {
			continue
		}
		if c.Thorough {
			add(fmt.Sprintf("commitment%d", i), func(b *c04In) { b.proof[i], b.proof[i+1] = pt(int64(31 + i)) })
			add(fmt.Sprintf("commitment%d/neg", i), func(b *c04In) { b.proof[i+1] = new(big.Int).Sub(mcP, b.proof[i+1]) })
		}
	}
	for o := 0; o < 6; o += 2 {
		add(fmt.Sprintf("commitments/%d+6k", o), func(b *c04In) {
			for i := o; i < 104; i += 6 {
				if i < 44 || i >= 100 {
					b.proof[i], b.proof[i+1] = pt(int64(31 + i))
				}
			}
		})
	}
	add("commitments/equal", func(b *c04In) {
		for i := 2; i < 44; i += 2 {
			b.proof[i], b.proof[i+1] = b.proof[0], b.proof[1]
		}
	})
	// related commitments: equal or opposite pairs, points of the key
	pos := []int{}
	for i := 0; i < 104; i += 2 {
		if i < 44 || i >= 100 {
			pos = append(pos, i)
		}
	}
	for k, d := range []int{1, len(pos) / 2, 3, 7} {
		for _, neg := range []bool{false, true} {
			if !c.Thorough && k > 1 {
				continue
			}
			add(fmt.Sprintf("commitments/related/%d/%v", d, neg), func(b *c04In) {
				for i := range pos {
					if j := i + d; i/d%2 == 0 && j < len(pos) {
						b.proof[pos[j]], b.proof[pos[j]+1] = cp(b.proof[pos[i]]), cp(b.proof[pos[i]+1])
						if neg {
							b.proof[pos[j]+1].Sub(mcP, b.proof[pos[j]+1])
						}
					}
				}
			})
		}
	}
	// one point at every position, with signs that differ for every two
	// positions in one of the patterns
	for k := 0; k <= 5; k++ {
		add(fmt.Sprintf("commitments/one/%d", k), func(b *c04In) {
			for i := range pos {
				x, y := pt(int64(7 + k))
				if k < 5 && i>>k&1 == 1 {
					y.Sub(mcP, y)
				}
				b.proof[pos[i]], b.proof[pos[i]+1] = x, y
			}
		})
	}
	// every two positions alone
	for r := 0; r < 23; r++ {
		for _, neg := range []bool{false, true} {
			if !c.Thorough {
				continue
			}
			add(fmt.Sprintf("commitments/match/%d/%v", r, neg), func(b *c04In) {
				match := func(i, j int) {
					b.proof[pos[j]], b.proof[pos[j]+1] = cp(b.proof[pos[i]]), cp(b.proof[pos[i]+1])
					if neg {
						b.proof[pos[j]+1].Sub(mcP, b.proof[pos[j]+1])
					}
				}
				match(r, 23)
				for i := 1; i <= 11; i++ {
					match((r+i)%23, (r-i+23)%23)
				}
			})
		}
	}
	var key [][2]string
	key = append(append(key, refFixed[:]...), refSigma[:]...)
	for k := 0; k < 4; k++ {
		if !c.Thorough && k > 1 {
			continue
		}
		add(fmt.Sprintf("commitments/key/%d", k), func(b *c04In) {
			for i := range pos {
				v := key[(i*(k/2*2+1)+k)%len(key)]
				b.proof[pos[i]], b.proof[pos[i]+1] = bI(v[0]), bI(v[1])
				if k%2 == 1 {
					b.proof[pos[i]+1].Sub(mcP, b.proof[pos[i]+1])
				}
			}
		})
	}
	add("instance/commitment", func(b *c04In) {
		x, y := ptXY(b.ic)
		for i := 0; i < len(pos); i += 3 {
			b.proof[pos[i]], b.proof[pos[i]+1] = cp(x), cp(y)
		}
	})
	// commitments that are the generator, its negative, small multiples of it
	for k, m := range []int64{1, -1, 2, -2} {
		for o := 0; o < 10; o += 2 {
			if !c.Thorough && o != 2*k {
				continue
			}
			add(fmt.Sprintf("commitments/%dG/%d+10k", m, o), func(b *c04In) {
				for i := o; i < 104; i += 10 {
					if i < 44 || i >= 100 {
						b.proof[i], b.proof[i+1] = pt(m)
					}
				}
				b.may = m == -1 // -G = (1, p-2): a coordinate above the scalar field
			})
		}
	}
	// challenges
	nm := []string{"theta", "beta", "gamma", "y", "x", "yp", "v", "u"}
	for i := range nm {
		vals := []*big.Int{bU(1), cp(m1), bU(0), bU(2), rnd()}
		for k, v := range vals {
			if !c.Thorough && !(k < 1 || k == 2 || (k == 4 && i >= 4)) {
				continue
			}
			add(fmt.Sprintf("challenge/%s/%d", nm[i], k), func(b *c04In) {
				b.ch[i] = cp(v)
				// coefficients 0 or -1 may reach the EC gadgets
				b.may = i >= 4 && (v.Sign() == 0 || v.Cmp(m1) == 0)
			})
		}
	}
	if c.Thorough {
		for i := range nm {
			for j := i + 1; j < len(nm); j++ {
				add(fmt.Sprintf("challenge/swap/%s-%s", nm[i], nm[j]), func(b *c04In) { b.ch[i], b.ch[j] = b.ch[j], b.ch[i] })
				add(fmt.Sprintf("challenge/equal/%s-%s", nm[i], nm[j]), func(b *c04In) {
					b.ch[i] = cp(b.ch[j])
					b.may = nm[i] == "x" && nm[j] == "u" // Z(u) is zero
				})
			}
		}
	}
	// instance commitment
	add("instance/G", func(b *c04In) { b.ic = refG() })
	add("instance/neg", func(b *c04In) { b.ic.Neg(&b.ic) })
	// conformance with gnark's own engine
	c.addConf("gnark/fixture", func() mcRes { return c04Run(base(), mcReal) })
	if c.Thorough {
		c.addConf("gnark/evals", func() mcRes {
			b := base()
			for i := 45; i < 100; i += 7 {
				b.proof[i] = bU(uint64(i))
			}
			return c04Run(b, mcReal)
		})
	}
	c.Assume = []string{
		"the independent reduction in ref_test.go (it accepts the shipped proof and reproduces its 21 quotients)",
		"coefficients are not 0, -1, -2 and partial sums are not infinity: the emulated scalar multiplication is incomplete there and refuses (never answers wrongly, see C06)",
	}
}
