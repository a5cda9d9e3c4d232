//go:build go1.22

package main

// C15: the hint functions and the point-text parsing, called directly, against
// independent curve / hash / integer arithmetic.

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	gethbn "github.com/ethereum/go-ethereum/crypto/bn256"
)

// c15Call runs a hint on private copies and reports whether it changed them.
func c15Call(f func(*big.Int, []*big.Int, []*big.Int) error, nout int, in ...*big.Int) (out []*big.Int, mutated bool, err error) {
	mcExecs.Add(1)
	args := make([]*big.Int, len(in))
	for i := range in {
		args[i] = cp(in[i])
	}
	out = make([]*big.Int, nout)
	for i := range out {
		out[i] = big.NewInt(-77) // a stale value that must be overwritten
	}
	field := cp(mcQ)
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		for i := range in {
			mutated = mutated || args[i].Cmp(in[i]) != 0
		}
		mutated = mutated || field.Cmp(mcQ) != 0
	}()
	err = f(field, args, out)
	if err != nil {
		return
	}
	// the caller (gnark's solver) reuses all these integers afterwards: an
	// answer may not live on in them
	for i := range args {
		mutated = mutated || args[i].Cmp(in[i]) != 0
	}
	first := make([]*big.Int, nout)
	for i, o := range out {
		if o != nil {
			first[i] = cp(o)
		}
	}
	for _, o := range out {
		if o != nil {
			o.SetInt64(-99)
		}
	}
	for i := range args {
		if args[i].Cmp(in[i]) != 0 {
			return first, mutated, fmt.Errorf("an output is the object of input %d: reusing one overwrites the other", i)
		}
		args[i].SetInt64(-98)
	}
	again := make([]*big.Int, nout)
	for i := range args {
		args[i] = cp(in[i])
	}
	for i := range again {
		again[i] = big.NewInt(-76)
	}
	if e := f(field, args, again); e != nil {
		return first, mutated, fmt.Errorf("refused when asked a second time: %w", e)
	}
	for i := range again {
		if (again[i] == nil) != (first[i] == nil) || again[i] != nil && again[i].Cmp(first[i]) != 0 {
			return first, mutated, fmt.Errorf("asked a second time, after its integers were reused, output %d is %v instead of %v", i, again[i], first[i])
		}
	}
	return first, mutated, nil
}

func c15Expect(what string, out []*big.Int, mutated bool, err error, exp ...*big.Int) mcRes {
	r := mcRes{Outcome: "answer", State: fmt.Sprint(out)}
	mcState(r.State)
	switch {
	case mutated:
		r.Fail = what + ": the hint modified its inputs"
	case exp == nil:
		r.Outcome = "error"
		if err == nil {
			r.Fail = fmt.Sprintf("%s: expected an error, got %v", what, out)
		}
	case err != nil:
		r.Fail = what + ": unexpected error " + err.Error()
	default:
		for i := range exp {
			if out[i] == nil || out[i].Cmp(exp[i]) != 0 {
				r.Fail = fmt.Sprintf("%s: output %d is %v, expected %s", what, i, out[i], exp[i])
			}
		}
	}
	return r
}

func c15Mul(p bn254.G1Affine, k *big.Int) bn254.G1Affine {
	// double-and-add over affine formulas, independent of the GLV code
	var acc bn254.G1Jac
	var base bn254.G1Jac
	base.FromAffine(&p)
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc.DoubleAssign()
		if k.Bit(i) == 1 {
			acc.AddAssign(&base)
		}
	}
	var r bn254.G1Affine
	r.FromJacobian(&acc)
	return r
}

// the printed form of infinity is (0, 1) in this library; C06 shows that the
// circuit never accepts it as a point.  Everything below avoids it.
func mcDefine(c *mcCheck) {
	c.Rule = "one case per block of scalars / operand pair / malformed operand / text; the answer must equal independent arithmetic, inputs must be untouched, operands off the curve must give an error"
	c.Direct = true
	nk := 4096
	if c.Thorough {
		nk = 60000
	}
	c.Bounds["consecutive_multiples"] = nk
	G := refG()
	const block = 64
	for s := 1; s <= nk; s += block {
		c.add(fmt.Sprintf("msm/kG/%d", s), func() mcRes {
			last := mcRes{}
			start := refMulG(bU(uint64(s)))
			p := start
			for k := s; k < s+block; k++ {
				px, py := ptXY(p)
				gx, gy := ptXY(G)
				// k*G
				o, m, e := c15Call(MsmHint, 2, gx, gy, bU(uint64(k)))
				if last = c15Expect(fmt.Sprintf("%d*G", k), o, m, e, px, py); last.Fail != "" {
					return last
				}
				// kG + G and kG as the point operand
				var q, d bn254.G1Affine
				q.Add(&p, &G)
				d.Double(&p)
				qx, qy := ptXY(q)
				dx, dy := ptXY(d)
				if k > 0 {
					o, m, e = c15Call(AddHint, 2, px, py, gx, gy)
					if last = c15Expect(fmt.Sprintf("%dG+G", k), o, m, e, qx, qy); last.Fail != "" {
						return last
					}
					o, m, e = c15Call(AddHint, 2, gx, gy, px, py)
					if last = c15Expect(fmt.Sprintf("G+%dG", k), o, m, e, qx, qy); last.Fail != "" {
						return last
					}
				}
				o, m, e = c15Call(AddHint, 2, px, py, px, py)
				if last = c15Expect(fmt.Sprintf("%dG+%dG", k, k), o, m, e, dx, dy); last.Fail != "" {
					return last
				}
				o, m, e = c15Call(MsmHint, 2, px, py, bU(2))
				if last = c15Expect(fmt.Sprintf("2*%dG", k), o, m, e, dx, dy); last.Fail != "" {
					return last
				}
				p = q
			}
			return last
		})
	}
	// boundary scalars x points; points with short coordinates are searched
	pts := []bn254.G1Affine{G, refMulG(bU(2)), refMulG(bU(3)), refMulG(new(big.Int).Sub(mcQ, bU(1))), ptOf(refL0X, refL0Y)}
	short := 0
	{
		p := G
		for k := 1; k < 4000 && short < 6; k++ {
			x, y := ptXY(p)
			if x.BitLen() <= 244 || y.BitLen() <= 244 {
				pts = append(pts, p)
				short++
			}
			p.Add(&p, &G)
		}
	}
	fx := refFixture()
	for i := 0; i < 44; i += 2 {
		pts = append(pts, ptOf(fx.Proof[i], fx.Proof[i+1]))
	}
	c.Bounds["points"] = len(pts)
	c.Bounds["points_with_short_coordinates"] = short
	var scal []*big.Int
	for _, k := range []uint{1, 8, 63, 64, 65, 127, 128, 129, 191, 192, 253} {
		scal = append(scal, new(big.Int).Lsh(bU(1), k), new(big.Int).Sub(new(big.Int).Lsh(bU(1), k), bU(1)))
	}
	scal = append(scal, new(big.Int).Sub(mcQ, bU(1)), new(big.Int).Sub(mcQ, bU(2)), new(big.Int).Rsh(mcQ, 1), new(big.Int).Add(new(big.Int).Rsh(mcQ, 1), bU(1)), bU(1), bU(3), bU(255))
	rnd := refRand(15)
	for i := 0; i < 6; i++ {
		scal = append(scal, rnd())
	}
	for i, p := range pts {
		c.add(fmt.Sprintf("msm/point%d", i), func() mcRes {
			last := mcRes{}
			px, py := ptXY(p)
			for _, k := range scal {
				ex, ey := ptXY(c15Mul(p, k))
				o, m, e := c15Call(MsmHint, 2, px, py, k)
				if last = c15Expect(fmt.Sprintf("%s*point%d", k, i), o, m, e, ex, ey); last.Fail != "" {
					return last
				}
			}
			return last
		})
		c.add(fmt.Sprintf("add/point%d", i), func() mcRes {
			last := mcRes{}
			px, py := ptXY(p)
			for j, q := range pts {
				var s bn254.G1Affine
				s.Add(&p, &q)
				if s.IsInfinity() {
					continue
				}
				qx, qy := ptXY(q)
				ex, ey := ptXY(s)
				o, m, e := c15Call(AddHint, 2, px, py, qx, qy)
				if last = c15Expect(fmt.Sprintf("point%d+point%d", i, j), o, m, e, ex, ey); last.Fail != "" {
					return last
				}
			}
			// infinity is the neutral element
			o, m, e := c15Call(AddHint, 2, px, py, bU(0), bU(0))
			if last = c15Expect("P+0", o, m, e, px, py); last.Fail != "" {
				return last
			}
			o, m, e = c15Call(AddHint, 2, bU(0), bU(0), px, py)
			return c15Expect("0+P", o, m, e, px, py)
		})
	}
	// sums and multiples with a zero byte in a chosen place of a coordinate
	c.add("short-results", func() mcRes {
		last := mcRes{Outcome: "answer"}
		gx, gy := ptXY(G)
		p := G
		found := 0
		lim := 30000
		if c.Thorough {
			lim = 150000
		}
		for k := 1; k < lim; k++ {
			x, y := ptXY(p)
			if x.BitLen() <= 240 || y.BitLen() <= 240 {
				found++
				o, m, e := c15Call(MsmHint, 2, gx, gy, bU(uint64(k)))
				if last = c15Expect(fmt.Sprintf("%d*G (short)", k), o, m, e, x, y); last.Fail != "" {
					return last
				}
				var q bn254.G1Affine
				q.Sub(&p, &G)
				if !q.IsInfinity() {
					qx, qy := ptXY(q)
					o, m, e = c15Call(AddHint, 2, qx, qy, gx, gy)
					if last = c15Expect(fmt.Sprintf("%dG+G (short)", k-1), o, m, e, x, y); last.Fail != "" {
						return last
					}
				}
			}
			p.Add(&p, &G)
		}
		last.Trivial = found == 0
		return last
	})
	// malformed operands
	big256 := new(big.Int).Sub(new(big.Int).Lsh(bU(1), 256), bU(1))
	L0 := ptOf(refL0X, refL0Y)
	var bad [][2]*big.Int
	for _, p := range []bn254.G1Affine{G, L0, refMulG(bU(5))} {
		x, y := ptXY(p)
		bad = append(bad, [][2]*big.Int{
			{x, new(big.Int).Add(y, bU(1))}, {new(big.Int).Add(x, bU(1)), y}, {x, bU(0)}, {bU(0), y}, {y, x},
			{new(big.Int).Add(x, mcP), y}, {x, new(big.Int).Add(y, mcP)}, {x, big256}, {big256, y}, {mcP, y}, {x, mcP},
			{x, new(big.Int).Xor(y, bU(1))}, {x, new(big.Int).Rsh(y, 8)}, {new(big.Int).Lsh(x, 256), y}, {x, new(big.Int).Lsh(y, 256)},
		}...)
	}
	bad = append(bad, [][2]*big.Int{{bU(0), bU(1)}, {bU(1), bU(0)}, {bU(1), bU(1)}, {bU(2), bU(1)}, {mcP, bU(0)}, {bU(0), mcP}, {mcQ, bU(2)}, {bU(1), mcQ}}...)
	c.Bounds["malformed_operands"] = len(bad)
	offCurve := func(b [2]*big.Int) bool {
		if b[0].Cmp(mcP) >= 0 || b[1].Cmp(mcP) >= 0 {
			return true
		}
		p := ptOf(b[0], b[1])
		return !p.IsOnCurve()
	}
	for i, b := range bad {
		if !offCurve(b) {
			continue
		}
		c.add(fmt.Sprintf("malformed/%d", i), func() mcRes {
			gx, gy := ptXY(G)
			last := mcRes{}
			for _, k := range []*big.Int{bU(0), bU(1), bU(2), new(big.Int).Sub(mcQ, bU(1)), scal[len(scal)-1]} {
				o, m, e := c15Call(MsmHint, 2, b[0], b[1], k)
				if last = c15Expect(fmt.Sprintf("MsmHint(%s,%s,%s)", b[0], b[1], k), o, m, e); last.Fail != "" {
					return last
				}
			}
			lx, ly := ptXY(L0)
			for _, q := range [][2]*big.Int{{gx, gy}, {lx, ly}, {bU(0), bU(0)}, b} {
				o, m, e := c15Call(AddHint, 2, b[0], b[1], q[0], q[1])
				if last = c15Expect(fmt.Sprintf("AddHint(bad=%v, %v)", b, q), o, m, e); last.Fail != "" {
					return last
				}
				o, m, e = c15Call(AddHint, 2, q[0], q[1], b[0], b[1])
				if last = c15Expect(fmt.Sprintf("AddHint(%v, bad=%v)", q, b), o, m, e); last.Fail != "" {
					return last
				}
			}
			return last
		})
	}
	// reduction hint
	al := []*big.Int{bU(0), bU(1), bU(2), new(big.Int).Sub(mcQ, bU(1)), cp(mcQ), new(big.Int).Add(mcQ, bU(1)), new(big.Int).Lsh(mcQ, 1), new(big.Int).Sub(new(big.Int).Lsh(mcQ, 1), bU(1)), cp(mcP), big256, new(big.Int).Mul(mcQ, mcQ), new(big.Int).Sub(new(big.Int).Mul(mcQ, mcQ), bU(1))}
	for k := int64(0); k <= 6; k++ {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(new(big.Int).Mul(mcQ, big.NewInt(k)), big.NewInt(d))
			if v.Sign() >= 0 {
				al = append(al, v)
			}
		}
	}
	for k := uint(1); k < 520; k += 7 {
		al = append(al, new(big.Int).Lsh(bU(1), k))
	}
	c.add("mod", func() mcRes {
		last := mcRes{}
		for _, a := range al {
			q, r := new(big.Int).DivMod(a, mcQ, new(big.Int))
			o, m, e := c15Call(modHint, 2, a)
			if last = c15Expect("mod "+a.String(), o, m, e, q, r); last.Fail != "" {
				return last
			}
		}
		return last
	})
	// hashing hint: word alphabets at every position, 1..6 words
	words := []*big.Int{bU(0), bU(1), bU(255), bU(256), bI(fixTarget[0]), bI(fixInst), new(big.Int).Sub(mcQ, bU(1)), new(big.Int).Lsh(bU(1), 248), new(big.Int).Sub(new(big.Int).Lsh(bU(1), 248), bU(1)), cp(mcQ)}
	kec := func(what string, in []*big.Int) mcRes {
		var d []byte
		for _, w := range in {
			d = append(d, be32(w)...)
		}
		h := refKeccak(d)
		exp := []*big.Int{new(big.Int).SetBytes(h)}
		for _, b := range append(append([]byte{}, h...), d...) {
			exp = append(exp, bU(uint64(b)))
		}
		o, m, e := c15Call(Keccak256Hint, len(exp), in...)
		return c15Expect(what, o, m, e, exp...)
	}
	for n := 1; n <= 6; n++ {
		c.add(fmt.Sprintf("keccak/words%d", n), func() mcRes {
			last := mcRes{}
			for p := 0; p < n; p++ {
				for wi, w := range words {
					for fill := 0; fill < 3; fill++ {
						in := make([]*big.Int, n)
						for i := range in {
							in[i] = words[(fill*3+i)%len(words)]
						}
						in[p] = w
						if last = kec(fmt.Sprintf("keccak n=%d pos=%d word=%d fill=%d", n, p, wi, fill), in); last.Fail != "" {
							return last
						}
					}
				}
			}
			return last
		})
	}
	c.add("keccak/short-digest", func() mcRes {
		// words whose digest starts with a zero byte / has zero bytes inside
		last := mcRes{Outcome: "answer"}
		n := 2000
		if c.Thorough {
			n = 200000
		}
		for k := 0; k < n; k++ {
			w := bU(uint64(k))
			h := refKeccak(be32(w))
			if h[0] == 0 || h[31] == 0 {
				if last = kec(fmt.Sprintf("keccak(%d)", k), []*big.Int{w}); last.Fail != "" {
					return last
				}
			}
		}
		return last
	})
	// ---- texts ----
	hx := func(x *big.Int) string { return fmt.Sprintf("%064x", x) }
	txt := func(x, y *big.Int) string { return "bn256.G1(" + hx(x) + ", " + hx(y) + ")" }
	parse := func(s string) (a, b string, err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		mcExecs.Add(1)
		a, b, err = extractAndConvert(s)
		return
	}
	good := func(x, y *big.Int) mcRes {
		a, b, err := parse(txt(x, y))
		r := mcRes{Outcome: "parsed", State: a + b}
		if err != nil || a != x.String() || b != y.String() {
			r.Fail = fmt.Sprintf("text of (%s, %s) parsed as (%s, %s) %v", x, y, a, b, err)
		}
		return r
	}
	c.add("text/widths", func() mcRes {
		last := mcRes{}
		full := new(big.Int).Sub(mcP, bU(1))
		for k := uint(0); k < 254; k++ {
			for _, d := range []int64{-1, 0, 1} {
				v := new(big.Int).Add(new(big.Int).Lsh(bU(1), k), big.NewInt(d))
				for _, pr := range [][2]*big.Int{{v, full}, {full, v}, {v, v}} {
					if last = good(pr[0], pr[1]); last.Fail != "" {
						return last
					}
				}
			}
		}
		return last
	})
	c.add("text/nibbles", func() mcRes {
		last := mcRes{}
		for pos := 0; pos < 63; pos++ {
			for d := 0; d < 16; d++ {
				s := []byte(strings.Repeat("0", 64))
				s[63-pos] = "0123456789abcdef"[d]
				v, _ := new(big.Int).SetString(string(s), 16)
				a, e := hexToDecimalString(string(s))
				a2, e2 := hexToDecimalString("0x" + string(s))
				last = mcRes{Outcome: "parsed"}
				if e != nil || a != v.String() || e2 != nil || a2 != v.String() {
					last.Fail = fmt.Sprintf("hexToDecimalString(%s) = %s (%v), %s (%v)", s, a, e, a2, e2)
					return last
				}
			}
		}
		return last
	})
	c.add("text/library", func() mcRes {
		last := mcRes{}
		n := int64(300)
		if c.Thorough {
			n = 5000
		}
		for k := int64(1); k <= n; k++ {
			p := new(gethbn.G1).ScalarBaseMult(big.NewInt(k))
			x, y := ptXY(refMulG(big.NewInt(k)))
			a, b, err := parse(p.String())
			last = mcRes{Outcome: "parsed", State: a}
			if err != nil || a != x.String() || b != y.String() {
				last.Fail = fmt.Sprintf("printed form of %d*G: (%s, %s) %v", k, a, b, err)
				return last
			}
		}
		return last
	})
	// every single-character mutation that destroys the format
	c.add("text/malformed", func() mcRes {
		x, y := bI(fixTarget[0]), refL0Y
		base := txt(x, y)
		r := mcRes{Outcome: "error"}
		refuse := func(what, s string) bool {
			a, b, err := parse(s)
			if err == nil {
				r.Fail = fmt.Sprintf("%s: %q accepted as (%s, %s)", what, s, a, b)
				return true
			}
			return false
		}
		hexStart := strings.Index(base, "(") + 1
		for i := hexStart; i < len(base)-1; i++ {
			isHex := strings.ContainsRune("0123456789abcdef", rune(base[i]))
			if isHex {
				// a non-hex digit, and a digit lost (odd length)
				for _, ch := range []string{"g", "z", "_", "G"} {
					if refuse("bad digit", base[:i]+ch+base[i+1:]) {
						return r
					}
				}
				if refuse("odd length", base[:i]+base[i+1:]) {
					return r
				}
				for _, ch := range []string{"-", "+", ".", "("} {
					if refuse("punctuation", base[:i]+ch+base[i+1:]) {
						return r
					}
				}
			} else if refuse("separator lost", base[:i]+base[i+1:]) {
				return r
			}
		}
		for i := 0; i < hexStart; i++ {
			if i != strings.Index(base, ".") && refuse("prefix", base[:i]+"#"+base[i+1:]) {
				return r
			}
			if refuse("prefix cut", base[:i]+base[i+1:]) {
				return r
			}
		}
		for cut := 0; cut < len(base); cut++ {
			if refuse("truncated", base[:cut]) {
				return r
			}
		}
		for _, s := range []string{"", "()", "bn256.G1()", "bn256.G1(, )", "bn256.G1(00, )", "bn256.G1(, 00)", "bn256.G2(00, 01)", "bn256.G1(00 01)", "bn256.G1(00,01)", "G1(00, 01)", "bn256.G1(0x, 0x0)", "bn256.G1(0, 01)", "bn256.G1(01, 0)"} {
			if refuse("literal", s) {
				return r
			}
		}
		return r
	})
	c.add("text/hex-malformed", func() mcRes {
		for _, s := range []string{"0", "abc", "0x0", "0xabc", "zz", "0xzz", "-1", "+1", " 00", "00 ", "0x 00", "00\n"} {
			if a, err := hexToDecimalString(s); err == nil {
				return mcRes{Outcome: "parsed", Fail: fmt.Sprintf("hexToDecimalString(%q) = %s", s, a)}
			}
		}
		return mcRes{Outcome: "error"}
	})
	c.Assume = []string{"gnark-crypto's bn254 affine arithmetic and x/crypto's Keccak as the oracle", "operands wider than 256 bits and wrong operand counts may be refused by panicking, as the library does"}
}
