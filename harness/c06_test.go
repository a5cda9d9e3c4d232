//go:build go1.22

package main

// C06: the elliptic-curve steps.  Grids of points and scalars with honest
// hints, and every hint of a step answering something else (one deviation, two
// deviations, and the deviations of a consistent liar).

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

// c06Regular: inside the domain of the emulated gadgets (they are incomplete
// for infinity, the scalars 0, -1, -2 and coordinates above the scalar field).
func c06Regular(pts ...bn254.G1Affine) bool {
	for _, p := range pts {
		if p.IsInfinity() {
			return false
		}
		x, y := ptXY(p)
		if x.Cmp(mcQ) >= 0 || y.Cmp(mcQ) >= 0 {
			return false
		}
	}
	return true
}

// c06BadScalar: scalars whose GLV halves are both tiny meet an exceptional
// case of the joint scalar multiplication (0, -1, -2, and a+b*lambda with
// |a|, |b| <= 2, b != 0).
func c06BadScalar(k *big.Int) bool {
	for a := int64(-2); a <= 2; a++ {
		for b := int64(-2); b <= 2; b++ {
			if b == 0 && a >= 1 {
				continue
			}
			v := new(big.Int).Mul(big.NewInt(b), c06Lambda)
			if modQ(v.Add(v, big.NewInt(a)).Sub(v, k)).Sign() == 0 {
				return true
			}
		}
	}
	return false
}

var c06Lambda = bI("4407920970296243842393367215006156084916469457145843978461")

// a step: the inputs it reads, what it must leave
type c06Case struct {
	op      string // mul, add, muladd
	acc, p  bn254.G1Affine
	k       *big.Int
	res, kp bn254.G1Affine
	regular bool
	off     int
	viaBuf  bool
}

func (s *c06Case) String() string {
	return fmt.Sprintf("%s acc=%s p=%s k=%s off=%d", s.op, s.acc.String(), s.p.String(), s.k, s.off)
}

func c06Mk(op string, acc, p bn254.G1Affine, k *big.Int, off int, viaBuf bool) *c06Case {
	s := &c06Case{op: op, acc: acc, p: p, k: k, off: off, viaBuf: viaBuf}
	switch op {
	case "mul":
		s.kp = c06Mul(p, k)
		s.res = s.kp
		s.regular = c06Regular(p, s.res) && !c06BadScalar(k)
	case "add":
		s.res.Add(&acc, &p)
		s.regular = c06Regular(acc, p, s.res)
	case "muladd":
		s.kp = c06Mul(p, k)
		s.res.Add(&acc, &s.kp)
		s.regular = c06Regular(acc, p, s.kp, s.res) && !c06BadScalar(k)
	}
	return s
}

func c06Mul(p bn254.G1Affine, k *big.Int) (r bn254.G1Affine) {
	var acc, base bn254.G1Jac
	base.FromAffine(&p)
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc.DoubleAssign()
		if k.Bit(i) == 1 {
			acc.AddAssign(&base)
		}
	}
	r.FromJacobian(&acc)
	return
}

// exec runs the step; honest says the hints were not altered.
func (s *c06Case) exec(run func(func(frontend.API) error) error, honest bool) mcRes {
	buf := make([]frontend.Variable, 43)
	for i := range buf {
		buf[i] = bU(uint64(7000 + i))
	}
	px, py := ptXY(s.p)
	ax, ay := ptXY(s.acc)
	o := s.off
	may := map[int]*big.Int{}
	rx, ry := ptXY(s.res)
	var got [2]frontend.Variable
	var f func(api frontend.API) error
	in := map[int]*big.Int{}
	switch {
	case s.op == "mul" && s.viaBuf:
		in = map[int]*big.Int{o: px, o + 1: py, o + 2: s.k}
		may[o], may[o+1] = rx, ry
		f = func(api frontend.API) error { return ecc_mul(api, buf, o) }
	case s.op == "mul":
		f = func(api frontend.API) (e error) {
			got, e = CalcVerifyBN256Msm(api, cp(px), cp(py), cp(s.k))
			return
		}
	case s.op == "add":
		f = func(api frontend.API) (e error) {
			got, e = CalcVerifyBN256Add(api, cp(ax), cp(ay), cp(px), cp(py))
			return
		}
	case s.op == "muladd":
		in = map[int]*big.Int{o: ax, o + 1: ay, o + 2: px, o + 3: py, o + 4: s.k}
		kx, ky := ptXY(s.kp)
		may[o], may[o+1], may[o+2], may[o+3] = rx, ry, kx, ky
		f = func(api frontend.API) error { return ecc_mul_add(api, buf, o) }
	}
	for i, v := range in {
		buf[i] = cp(v)
	}
	err := run(f)
	r := mcRes{Outcome: verdict(err)}
	if err != nil {
		if honest && s.regular {
			r.Fail = s.String() + ": the honest answer is refused: " + oneLine(err)
		}
		return r
	}
	if s.viaBuf {
		got = [2]frontend.Variable{buf[o], buf[o+1]}
	}
	gx, gy := numOf(got[0]), numOf(got[1])
	if gx == nil || gy == nil {
		r.Fail = s.String() + ": no result"
		return r
	}
	r.State = gx.String() + "," + gy.String()
	mcState(s.op, r.State)
	if gx.Cmp(rx) != 0 || gy.Cmp(ry) != 0 {
		r.Fail = fmt.Sprintf("%s: accepted with result (%s, %s), exact is (%s, %s)", s, gx, gy, rx, ry)
		return r
	}
	if s.viaBuf {
		for i := range buf {
			exp := in[i]
			if exp == nil {
				exp = bU(uint64(7000 + i))
			}
			if m := may[i]; m != nil {
				if numOf(buf[i]).Cmp(m) == 0 {
					continue
				}
				if i >= o+2 && numOf(buf[i]).Cmp(exp) == 0 {
					continue // scratch operand left as it was
				}
			}
			if numOf(buf[i]).Cmp(exp) != 0 {
				r.Fail = fmt.Sprintf("%s: buffer slot %d holds %s, was %s", s, i, numOf(buf[i]), exp)
				return r
			}
		}
	}
	return r
}

// the wrong answers of a prover for a point-valued hint
func c06Alter(out []*big.Int, k int) bool {
	p := ptOf(out[0], out[1])
	set := func(q bn254.G1Affine) {
		x, y := ptXY(q)
		out[0].Set(x)
		out[1].Set(y)
	}
	var q bn254.G1Affine
	switch k {
	case 0:
		out[0] = modQ(new(big.Int).Add(out[0], bU(1)))
	case 1:
		out[1] = modQ(new(big.Int).Add(out[1], bU(1)))
	case 2:
		q.Neg(&p)
		set(q)
	case 3:
		g := refG()
		q.Add(&p, &g)
		set(q)
	case 4:
		q.Double(&p)
		set(q)
	case 5:
		set(refG())
	case 6:
		out[0], out[1] = bU(0), bU(0)
	case 7:
		out[0], out[1] = out[1], out[0]
	case 8:
		out[0] = new(big.Int).Mod(new(big.Int).Mul(c02Beta(), out[0]), mcP)
	case 9:
		out[0] = bU(0)
	case 10:
		out[1] = bU(0)
	case 11:
		out[1] = modQ(new(big.Int).Neg(out[1]))
	case 12:
		out[0], out[1] = bU(1), bU(2)
	case 13:
		out[0], out[1] = bU(0), bU(1)
	default:
		return false
	}
	return true
}

const c06NAlter = 14

func c02Beta() *big.Int {
	e := new(big.Int).Div(new(big.Int).Sub(mcP, bU(1)), bU(3))
	for g := uint64(2); ; g++ {
		b := new(big.Int).Exp(bU(g), e, mcP)
		if b.Cmp(bU(1)) != 0 {
			return b
		}
	}
}

func c06Deviate(target int, kind int, second int, second2 int) func(*mcHintEv) {
	return func(h *mcHintEv) {
		do := func(k int) {
			switch {
			case h.Name == "MsmHint" || h.Name == "AddHint":
				c06Alter(h.Out, k)
			default:
				last := len(h.Out) - 1
				switch k % 7 {
				case 0:
					h.Out[last] = modQ(new(big.Int).Add(h.Out[last], bU(1)))
				case 1:
					h.Out[last] = bU(0)
				case 2:
					h.Out[last] = modQ(new(big.Int).Neg(h.Out[last]))
				case 3:
					h.Out[0] = modQ(new(big.Int).Add(h.Out[0], bU(1)))
				case 4:
					h.Out[last], h.Out[0] = modQ(new(big.Int).Add(h.Out[last], bU(1))), new(big.Int).Sub(mcQ, bU(1))
				case 5:
					h.Out[last] = modQ(new(big.Int).Lsh(h.Out[last], 1))
				case 6:
					h.Out[last] = bU(1)
				}
			}
		}
		if h.N == target {
			do(kind)
		}
		if h.N == second {
			do(second2)
		}
	}
}

func mcDefine(c *mcCheck) {
	c.Rule = "one case per point and step (all scalars / second points inside), per step x hint x wrong answer; whatever the hint answers, an accepted step leaves exactly k*P, P+Q or acc+k*P and touches no other buffer slot"
	fx := refFixture()
	var pts []bn254.G1Affine
	for _, k := range []int64{1, 2, 3, 5, 1000003} {
		pts = append(pts, refMulG(big.NewInt(k)))
	}
	pts = append(pts, refMulG(new(big.Int).Rsh(mcQ, 1)), ptOf(refL0X, refL0Y))
	for i := 0; i < 44; i += 2 {
		pts = append(pts, ptOf(fx.Proof[i], fx.Proof[i+1]))
	}
	for i := range refFixed {
		pts = append(pts, ptOf(bI(refFixed[i][0]), bI(refFixed[i][1])))
	}
	if !c.Thorough {
		pts = append(pts[:13:13], pts[33], pts[38])
	}
	lambda := c06Lambda
	var sc []*big.Int
	for d := int64(-3); d <= 3; d++ {
		sc = append(sc, modQ(big.NewInt(d)), modQ(new(big.Int).Add(lambda, big.NewInt(d))), modQ(new(big.Int).Add(new(big.Int).Rsh(mcQ, 1), big.NewInt(d))), modQ(new(big.Int).Sub(big.NewInt(d), lambda)))
	}
	ks := []uint{8, 63, 64, 65, 126, 127, 128, 129, 192, 252, 253}
	if c.Thorough {
		ks = nil
		for k := uint(2); k < 254; k++ {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		sc = append(sc, new(big.Int).Lsh(bU(1), k), new(big.Int).Sub(new(big.Int).Lsh(bU(1), k), bU(1)))
	}
	rnd := refRand(6)
	nr := 4
	if c.Thorough {
		nr = 100
	}
	for i := 0; i < nr; i++ {
		sc = append(sc, rnd())
	}
	sc = append(sc, new(big.Int).Mul(lambda, lambda), modQ(new(big.Int).Mul(bU(1<<40), lambda)))
	for i := range sc {
		sc[i] = modQ(sc[i])
	}
	c.Bounds["points"], c.Bounds["scalars"] = len(pts), len(sc)
	honest := func(f func(frontend.API) error) error { return mcExec(f, nil) }
	none := bn254.G1Affine{}
	for i, p := range pts {
		chunk := 12
		for s0 := 0; s0 < len(sc); s0 += chunk {
			if !c.Thorough && (s0/chunk+i)%3 != 0 && i > 1 {
				continue
			}
			c.add(fmt.Sprintf("mul/p%d/s%d", i, s0), func() mcRes {
				last := mcRes{}
				for s := s0; s < s0+chunk && s < len(sc); s++ {
					if last = c06Mk("mul", none, p, sc[s], (7*i+s)%40, s%2 == 0).exec(honest, true); last.Fail != "" {
						return last
					}
				}
				return last
			})
		}
		c.add(fmt.Sprintf("add/p%d", i), func() mcRes {
			last := mcRes{}
			for j, q := range pts {
				for neg := 0; neg < 2; neg++ {
					if neg == 1 {
						q.Neg(&q)
					}
					if last = c06Mk("add", p, q, bU(0), 0, false).exec(honest, true); last.Fail != "" {
						return last
					}
				}
				_ = j
			}
			return last
		})
		nm := 6
		if c.Thorough {
			nm = len(sc) / 4
		}
		c.add(fmt.Sprintf("muladd/p%d", i), func() mcRes {
			last := mcRes{}
			for t := 0; t < nm; t++ {
				acc := pts[(i*5+t*3)%len(pts)]
				k := sc[(i*11+t*7)%len(sc)]
				if last = c06Mk("muladd", acc, p, k, (3*i+5*t)%39, true).exec(honest, true); last.Fail != "" {
					return last
				}
			}
			// acc = -kP + small, acc = kP (doubling), acc = P
			for _, k := range []*big.Int{bU(5), sc[len(sc)-3]} {
				kp := c06Mul(p, k)
				for _, acc := range []bn254.G1Affine{kp, p} {
					if last = c06Mk("muladd", acc, p, k, 12, true).exec(honest, true); last.Fail != "" {
						return last
					}
				}
			}
			return last
		})
	}
	// deviations
	dp, dk := pts[9], sc[len(sc)-3]
	steps := []*c06Case{
		c06Mk("mul", none, dp, dk, 3, false), c06Mk("mul", none, refG(), bU(2), 10, true),
		c06Mk("add", pts[7], pts[8], bU(0), 0, false), c06Mk("add", pts[8], pts[8], bU(0), 0, false),
		c06Mk("muladd", pts[7], pts[8], dk, 12, true), c06Mk("muladd", refG(), pts[8], bU(1), 12, true),
	}
	// irregular inputs: refusing is allowed, a wrong answer is not
	neg := func(p bn254.G1Affine) bn254.G1Affine { p.Neg(&p); return p }
	irr := len(steps)
	steps = append(steps,
		c06Mk("mul", none, refG(), bU(0), 0, true), c06Mk("mul", none, none, bU(5), 0, false), c06Mk("mul", none, pts[7], modQ(big.NewInt(-1)), 0, false),
		c06Mk("add", pts[7], neg(pts[7]), bU(0), 0, false), c06Mk("add", none, pts[8], bU(0), 0, false), c06Mk("add", pts[8], none, bU(0), 0, false), c06Mk("add", none, none, bU(0), 0, false),
		c06Mk("muladd", neg(c06Mul(pts[8], dk)), pts[8], dk, 12, true), c06Mk("muladd", none, pts[8], dk, 12, true))
	for si, s := range steps {
		nh := 0
		mcExec(func(api frontend.API) error {
			s.exec(func(f func(frontend.API) error) error { return f(api) }, true)
			return nil
		}, func(h *mcHintEv) { nh = h.N + 1 })
		c.Bounds[fmt.Sprintf("hints_of_step_%d", si)] = nh
		for h := 0; h < nh; h++ {
			for k := 0; k < c06NAlter; k++ {
				c.add(fmt.Sprintf("lie/step%d/hint%d/%d", si, h, k), func() mcRes {
					return s.exec(func(f func(frontend.API) error) error { return mcExec(f, c06Deviate(h, k, -1, 0)) }, false)
				})
			}
			for h2 := h + 1; h2 < nh && (si < irr || c.Thorough); h2++ {
				for k := 0; k < c06NAlter; k++ {
					if !c.Thorough && (k+h+h2)%4 != 0 {
						continue
					}
					for k2 := 0; k2 < 6; k2++ {
						if !c.Thorough && (k2+k)%3 != 0 {
							continue
						}
						c.add(fmt.Sprintf("lie2/step%d/hint%d/%d/hint%d/%d", si, h, k, h2, k2), func() mcRes {
							return s.exec(func(f func(frontend.API) error) error { return mcExec(f, c06Deviate(h, k, h2, k2)) }, false)
						})
					}
				}
			}
		}
	}
	// every point-valued hint of the verifier steps deviates once; the steps
	// before it are honest.  An accepted run must end in the true points.
	ic := refInstCommit(refInstance(fx.hashIn()))
	i0, i1 := ptXY(ic)
	ch := refChallenges(i0, i1, fx.Proof)
	out := refReduce(fx.Proof, ic, ch)
	aux := refAuxBig(out)
	var b3 [43]frontend.Variable
	{
		err := mcExec(func(api frontend.API) (e error) {
			var b [43]frontend.Variable
			for i := range b {
				b[i] = new(big.Int)
			}
			b[0], b[1] = i0, i1
			for i, v := range ch.list() {
				b[2+i] = v
			}
			if b, e = VerifyProof1(api, mcVars(fx.Proof), mcVars(aux), b); e != nil {
				return
			}
			b3, e = VerifyProof2(api, mcVars(fx.Proof), mcVars(aux), b)
			return
		}, nil)
		if err != nil {
			c.add("prefix", func() mcRes { return want(err, true) })
			return
		}
	}
	var ecHints []int
	err := mcExec(func(api frontend.API) error { _, e := VerifyProof3(api, mcVars(fx.Proof), mcVars(aux), b3); return e }, func(h *mcHintEv) {
		if h.Name != "modHint" {
			ecHints = append(ecHints, h.N)
		}
	})
	c.add("step3/honest", func() mcRes { return want(err, true) })
	c.Bounds["point_hints_of_the_last_step"] = len(ecHints)
	for i, n := range ecHints {
		for k := 0; k < c06NAlter; k++ {
			if !c.Thorough && k != 2 && k != 3+(i%10) {
				continue
			}
			c.add(fmt.Sprintf("step3/hint%d/%d", i, k), func() mcRes {
				var b [43]frontend.Variable
				err := mcExec(func(api frontend.API) (e error) {
					b, e = VerifyProof3(api, mcVars(fx.Proof), mcVars(aux), b3)
					return
				}, c06Deviate(n, k, -1, 0))
				r := mcRes{Outcome: verdict(err)}
				if err == nil {
					wx, wy := ptXY(out.W1)
					fx, fy := ptXY(out.F)
					for j, e := range []*big.Int{wx, wy, fx, fy} {
						if numOf(b[10+j]).Cmp(e) != 0 {
							r.Fail = fmt.Sprintf("hint %d answered wrongly (%d) and the step accepted pairing input %d = %s", n, k, j, numOf(b[10+j]))
						}
					}
				}
				return r
			})
		}
	}
	// conformance on gnark's engine (all deferred checks)
	for i := 0; i < 4; i++ {
		s := c06Mk([]string{"mul", "muladd", "add", "mul"}[i], pts[7], pts[8+i], sc[len(sc)-3-i], 5, i == 1 || i == 3)
		c.addConf(fmt.Sprintf("gnark/%d", i), func() mcRes { return s.exec(mcReal, true) })
	}
	c.Assume = []string{
		"regular inputs: points other than infinity with coordinates below the scalar field, scalars other than a+b*lambda with |a|, |b| <= 2 (1 and 2 are regular); outside it the steps may refuse but never answer wrongly (checked)",
		"gnark's own emulated-arithmetic hints are honest; the repository's hints are the adversary",
	}
}
