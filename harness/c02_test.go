//go:build go1.22

package main

// C02: the transcript.  The real GetChallengesShPlonkCircuit is run on
// transcripts that differ in one word at a time (and on dense ones); all eight
// challenges must be those of the independent transcript.

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/consensys/gnark/frontend"
)

var c02Beta = func() *big.Int {
	// a primitive cube root of unity of the base field
	e := new(big.Int).Div(new(big.Int).Sub(mcP, bU(1)), bU(3))
	for g := uint64(2); ; g++ {
		b := new(big.Int).Exp(bU(g), e, mcP)
		if b.Cmp(bU(1)) != 0 {
			return b
		}
	}
}()

// c02Run runs the transcript and compares everything it may touch.
func c02Run(ic0, ic1 *big.Int, proof []*big.Int, exec func(func(frontend.API) error) error) mcRes {
	buf := make([]frontend.Variable, 43)
	for i := range buf {
		buf[i] = bU(uint64(1000 + i))
	}
	buf[0], buf[1] = cp(ic0), cp(ic1)
	tr := mcVars(proof)
	err := exec(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf, tr) })
	r := mcRes{Outcome: verdict(err)}
	if err != nil {
		r.Fail = "transcript refused: " + oneLine(err)
		return r
	}
	names := []string{"theta", "beta", "gamma", "y", "x", "y'", "v", "u"}
	for i, e := range refChallenges(ic0, ic1, proof).list() {
		got := numOf(buf[2+i])
		r.State += got.String() + ","
		if got.Cmp(e) != 0 {
			r.Fail = fmt.Sprintf("challenge %s is %s, the transcript gives %s", names[i], got, e)
			return r
		}
	}
	mcState(r.State)
	if numOf(buf[0]).Cmp(ic0) != 0 || numOf(buf[1]).Cmp(ic1) != 0 {
		r.Fail = "instance commitment overwritten"
	}
	for i := 10; i < 43; i++ {
		if numOf(buf[i]).Cmp(bU(uint64(1000+i))) != 0 {
			r.Fail = fmt.Sprintf("unrelated buffer slot %d overwritten", i)
		}
	}
	for i := range tr {
		if numOf(tr[i]).Cmp(proof[i]) != 0 {
			r.Fail = fmt.Sprintf("transcript word %d overwritten", i)
		}
	}
	return r
}

// c02High gives n points whose x (respectively y) is a base field value of the
// scalar modulus or more.
func c02High(n int) (hx, hy [][2]*big.Int) {
	for v := cp(mcQ); len(hx) < n; v = new(big.Int).Add(v, bU(1)) {
		t := new(big.Int).Exp(v, bU(3), mcP)
		if y := new(big.Int).ModSqrt(t.Add(t, bU(3)), mcP); y != nil {
			hx = append(hx, [2]*big.Int{v, y})
		}
	}
	// p = 1 mod 3 and 9 does not divide p-1: a cube root is a power
	e := new(big.Int).Sub(mcP, bU(1))
	three := bU(3)
	for new(big.Int).Mod(e, three).Sign() == 0 {
		e.Div(e, three)
	}
	inv := new(big.Int).ModInverse(three, e)
	for v := cp(mcQ); len(hy) < n; v = new(big.Int).Add(v, bU(1)) {
		t := new(big.Int).Mul(v, v)
		t.Sub(t, three).Mod(t, mcP)
		x := new(big.Int).Exp(t, inv, mcP)
		if new(big.Int).Exp(x, three, mcP).Cmp(t) == 0 {
			hy = append(hy, [2]*big.Int{x, v})
		}
	}
	return
}

func c02IsPoint(i int) bool { return i < 44 || i >= 100 }

// c02Change gives values for word i that keep its point on the curve and
// change nothing else.
func c02Change(proof []*big.Int, i int) []*big.Int {
	if c02IsPoint(i) {
		if i%2 == 0 { // x -> beta x keeps y
			b := new(big.Int).Mod(new(big.Int).Mul(c02Beta, proof[i]), mcP)
			b2 := new(big.Int).Mod(new(big.Int).Mul(c02Beta, b), mcP)
			return []*big.Int{b, b2}
		}
		return []*big.Int{new(big.Int).Sub(mcP, proof[i])}
	}
	return []*big.Int{bU(0), bU(1), new(big.Int).Sub(mcQ, bU(1)), new(big.Int).Add(modQ(new(big.Int).Add(proof[i], bU(1))), bU(0)), new(big.Int).Sub(new(big.Int).Lsh(bU(1), 248), bU(1)), bU(200)}
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per changed transcript word and value, per dense transcript, and per squeeze length x fill pattern; all eight challenges must equal the independent SHA-256 transcript and nothing else may be written"
	fx := refFixture()
	ic0, ic1 := ptXY(refInstCommit(refInstance(fx.hashIn())))
	eng := func(f func(frontend.API) error) error { return mcExec(f, nil) }
	run := func(id string, a, b *big.Int, p []*big.Int) {
		c.add(id, func() mcRes { return c02Run(a, b, p, eng) })
	}
	run("fixture", ic0, ic1, fx.Proof)
	words := 0
	for i := range fx.Proof {
		if i >= 102 {
			continue
		}
		ch := c02Change(fx.Proof, i)
		for k, v := range ch {
			if !c.Thorough && k != i%len(ch) && !(k == 0 && !c02IsPoint(i)) {
				continue
			}
			p := fx.clone().Proof
			p[i] = v
			words++
			run(fmt.Sprintf("word%d/%d", i, k), ic0, ic1, p)
		}
	}
	for i, ch := range [][2]*big.Int{{bU(0), ic1}, {ic0, bU(0)}, {new(big.Int).Add(ic0, bU(1)), ic1}, {ic0, new(big.Int).Add(ic1, bU(1))}, {ic1, ic0}, {bU(0), bU(0)}, {bU(7), new(big.Int).Sub(mcP, bU(1))}} {
		run(fmt.Sprintf("instance/%d", i), ch[0], ch[1], fx.Proof)
	}
	// the last commitment is absorbed by no challenge
	p := fx.clone().Proof
	x, y := ptXY(refMulG(bU(77)))
	p[102], p[103] = x, y
	run("last-commitment", ic0, ic1, p)
	// the point at infinity, and another point, at every commitment
	for i := 0; i < 104; i += 2 {
		if !c02IsPoint(i) {
			continue
		}
		p := fx.clone().Proof
		if i%4 == 0 {
			p[i], p[i+1] = bU(0), bU(0)
		} else {
			p[i], p[i+1] = ptXY(refMulG(bU(uint64(i + 3))))
		}
		run(fmt.Sprintf("commitment%d", i), ic0, ic1, p)
		if c.Thorough {
			p := fx.clone().Proof
			p[i], p[i+1] = ptXY(refMulG(bU(uint64(i + 500))))
			run(fmt.Sprintf("commitment%d/b", i), ic0, ic1, p)
			if i+3 < 104 && c02IsPoint(i+2) { // swap neighbours
				p := fx.clone().Proof
				p[i], p[i+1], p[i+2], p[i+3] = p[i+2], p[i+3], p[i], p[i+1]
				run(fmt.Sprintf("swap%d", i), ic0, ic1, p)
			}
		}
	}
	// coordinates between the scalar modulus and the base modulus
	hx, hy := c02High(24)
	for n, i := 0, 0; i < 104; i += 2 {
		if !c02IsPoint(i) {
			continue
		}
		for k, h := range [][][2]*big.Int{hx, hy} {
			if !c.Thorough && k != n%2 {
				continue
			}
			p := fx.clone().Proof
			p[i], p[i+1] = h[n][0], h[n][1]
			run(fmt.Sprintf("high%d/%d", i, k), ic0, ic1, p)
		}
		n++
	}
	run("instance/high-x", hx[0][0], hx[0][1], fx.Proof)
	run("instance/high-y", hy[0][0], hy[0][1], fx.Proof)
	// dense transcripts
	fill := func(id string, ev func(i int) *big.Int, pt func(i int) (*big.Int, *big.Int)) {
		p := make([]*big.Int, 104)
		for i := range p {
			if c02IsPoint(i) {
				if i%2 == 0 {
					p[i], p[i+1] = pt(i)
				}
			} else {
				p[i] = ev(i)
			}
		}
		run(id, ic0, ic1, p)
	}
	inf := func(int) (*big.Int, *big.Int) { return bU(0), bU(0) }
	multi := func(i int) (*big.Int, *big.Int) { return ptXY(refMulG(bU(uint64(i + 2)))) }
	fill("dense/zero", func(int) *big.Int { return bU(0) }, inf)
	fill("dense/one", func(int) *big.Int { return bU(1) }, multi)
	fill("dense/max", func(int) *big.Int { return new(big.Int).Sub(mcQ, bU(1)) }, multi)
	fill("dense/index", func(i int) *big.Int { return bU(uint64(i)) }, multi)
	fill("dense/high", func(i int) *big.Int { return new(big.Int).Lsh(bU(1), uint(100+i)) }, inf)
	// challenges whose digest has a leading zero byte / is a multiple range of
	// the modulus: found natively, executed on the real code
	r := refRand(2)
	type want2 struct{ ch, kind int }
	seen := map[want2]int{}
	per := 1
	if c.Thorough {
		per = 3
	}
	found := 0
	for t := 0; t < 4000; t++ {
		a := r()
		for ci, d := range c02Digests(a, ic1, fx.Proof) {
			kind := -1
			if d[0] == 0 {
				kind = 0
			} else if d[31] == 0 {
				kind = 1
			} else if q := new(big.Int).Div(new(big.Int).SetBytes(d), mcQ).Int64(); q == 0 || q == 5 {
				kind = 2 + int(q)
			}
			w := want2{ci, kind}
			if kind < 0 || seen[w] >= per || (!c.Thorough && kind >= 2 && ci%3 != 0) {
				continue
			}
			seen[w]++
			found++
			run(fmt.Sprintf("digest/ch%d/kind%d/%d", ci, kind, seen[w]), a, ic1, fx.Proof)
			break
		}
	}
	c.Bounds["changed_words"] = words
	c.Bounds["special_digest_transcripts"] = found
	// the squeeze itself, every length
	max := 111
	pat := map[string]func(i int) *big.Int{
		"zero": func(int) *big.Int { return bU(0) }, "index": func(i int) *big.Int { return bU(uint64(i + 1)) },
		"max":  func(int) *big.Int { return new(big.Int).Sub(new(big.Int).Lsh(bU(1), 256), bU(1)) },
		"rand": func(i int) *big.Int { return refRand(int64(i))() },
	}
	squeeze := func(words []*big.Int) mcRes {
		n := len(words)
		ab := make([]frontend.Variable, n+3)
		for i := range ab {
			ab[i] = bU(uint64(900 + i))
		}
		var d []byte
		for i := range words {
			ab[i] = cp(words[i])
			d = append(d, be32(words[i])...)
		}
		h := sha256.Sum256(append(d, 0))
		hb := new(big.Int).SetBytes(h[:])
		var got frontend.Variable
		err := mcExec(func(api frontend.API) (e error) { got, e = SqueezeChallenge(api, ab, n); return }, nil)
		r := mcRes{Outcome: verdict(err), State: fmt.Sprint(got)}
		mcState(r.State)
		if err != nil {
			r.Fail = "squeeze refused: " + oneLine(err)
		} else if numOf(got).Cmp(modQ(hb)) != 0 {
			r.Fail = fmt.Sprintf("squeeze of %d words gives %s, SHA-256 mod r is %s", n, numOf(got), modQ(hb))
		} else if numOf(ab[0]).Cmp(hb) != 0 {
			r.Fail = fmt.Sprintf("running digest after %d words is %s, SHA-256 is %s", n, numOf(ab[0]), hb)
		} else {
			for i := 1; i < n; i++ {
				if numOf(ab[i]).Cmp(words[i]) != 0 {
					r.Fail = fmt.Sprintf("absorbed word %d of %d overwritten", i, n)
				}
			}
			for i := n + 1; i < len(ab); i++ {
				if numOf(ab[i]).Cmp(bU(uint64(900+i))) != 0 {
					r.Fail = fmt.Sprintf("word %d beyond the end (%d) overwritten", i, n)
				}
			}
		}
		return r
	}
	for n := 1; n <= max; n++ {
		for _, pn := range []string{"zero", "index", "max", "rand"} {
			if !c.Thorough && n > 20 && (pn == "zero" || pn == "max") && n%7 != 0 {
				continue
			}
			c.add(fmt.Sprintf("squeeze/%d/%s", n, pn), func() mcRes {
				w := make([]*big.Int, n)
				for i := range w {
					w[i] = pat[pn](i)
				}
				return squeeze(w)
			})
		}
	}
	c.Bounds["squeeze_lengths"] = max
	nshort := 0
	lim := 60
	if c.Thorough {
		lim = 1000
	}
	for k := uint64(0); nshort < lim; k++ {
		h := sha256.Sum256(append(be32(bU(k)), 0))
		q := new(big.Int).Div(new(big.Int).SetBytes(h[:]), mcQ).Int64()
		if h[0] == 0 || h[31] == 0 || k < 12 || (q == 5 && k < 300) {
			nshort++
			c.add(fmt.Sprintf("squeeze/one/%d", k), func() mcRes { return squeeze([]*big.Int{bU(k)}) })
		}
	}
	// replay on gnark's own engine with every deferred check
	c.addConf("gnark/fixture", func() mcRes { return c02Run(ic0, ic1, fx.Proof, mcReal) })
	p2 := fx.clone().Proof
	p2[60] = bU(0)
	c.addConf("gnark/word60", func() mcRes { return c02Run(ic0, ic1, p2, mcReal) })
	c.Assume = []string{"Go's crypto/sha256 as the oracle", "transcript words are integers below 2^256"}
}

// c02Digests lists the eight raw digests of a transcript.
func c02Digests(ic0, ic1 *big.Int, proof []*big.Int) [][]byte {
	var out [][]byte
	st := be32(refDigest)
	sq := func(w ...*big.Int) {
		d := append([]byte{}, st...)
		for _, x := range w {
			d = append(d, be32(x)...)
		}
		h := sha256.Sum256(append(d, 0))
		st = h[:]
		out = append(out, st)
	}
	sq(append([]*big.Int{ic0, ic1}, proof[0:16]...)...)
	sq(proof[16:24]...)
	sq()
	sq(proof[24:38]...)
	sq(proof[38:44]...)
	sq(proof[44:100]...)
	sq()
	sq(proof[100:102]...)
	return out
}
