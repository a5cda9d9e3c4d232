//go:build go1.22

package main

// Independent native model of the verified system: the halo2 (SHPLONK, bn254)
// verifier for the fixed verification key, the instance hash, the transcript
// and the final pairing.  It is written from the protocol, over native field
// and curve arithmetic, and shares no code with the repository.

import (
	"crypto/sha256"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	xsha3 "golang.org/x/crypto/sha3"
)

func bI(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("harness: bad literal " + s)
	}
	return b
}
func bU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func frOf(b *big.Int) (e fr.Element) { e.SetBigInt(b); return }
func frS(s string) fr.Element        { return frOf(bI(s)) }
func bigOf(e fr.Element) *big.Int    { return e.BigInt(new(big.Int)) }

func ptOf(x, y *big.Int) (p bn254.G1Affine) {
	p.X.SetBigInt(x)
	p.Y.SetBigInt(y)
	return
}
func ptXY(p bn254.G1Affine) (*big.Int, *big.Int) {
	return p.X.BigInt(new(big.Int)), p.Y.BigInt(new(big.Int))
}
func refG() bn254.G1Affine { _, _, g, _ := bn254.Generators(); return g }
func refMulG(k *big.Int) (p bn254.G1Affine) {
	g := refG()
	p.ScalarMultiplication(&g, new(big.Int).Mod(k, mcQ))
	return
}

// ---- the accepted instance -------------------------------------------------

type aggIn struct {
	Proof  []*big.Int // 104
	Inst   *big.Int
	Target []*big.Int // 4
	More   []*big.Int // verifier instance words before Inst, none in the accepted proof
	NoInst bool       // no verifier instance word at all
	Aux    []*big.Int // 21
}

func (a *aggIn) clone() *aggIn {
	c := &aggIn{Inst: new(big.Int).Set(a.Inst)}
	cp := func(s []*big.Int) []*big.Int {
		r := make([]*big.Int, len(s))
		for i := range s {
			r[i] = new(big.Int).Set(s[i])
		}
		return r
	}
	c.Proof, c.Target, c.Aux, c.More, c.NoInst = cp(a.Proof), cp(a.Target), cp(a.Aux), cp(a.More), a.NoInst
	return c
}

func refFixture() *aggIn {
	a := &aggIn{Inst: bI(fixInst)}
	for _, s := range fixProof {
		a.Proof = append(a.Proof, bI(s))
	}
	for _, s := range fixTarget {
		a.Target = append(a.Target, bI(s))
	}
	for _, s := range fixAux {
		a.Aux = append(a.Aux, bI(s))
	}
	return a
}

// ---- verification key ------------------------------------------------------

const refK = 23

var (
	refOmega  = frS("8374374965308410102411073611984011876711565317741801500439755773472076597347")
	refDelta  = frS("4131629893567559867359510883348571134090853742863529169391034518566172092834")
	refDigest = bI("8025805240938309707562879759498205008153592202559235423490485577859843831056")
	refL0X    = bI("13534086339230182803823178260078315691269243572458753455438283544709107378988")
	refL0Y    = bI("9053077977614827188269653632534212501565186534180282672519599630892718179094")
)

// commitments of the 13 fixed columns (evaluations 58..70) and of the 7
// permutation polynomials (evaluations 72..78)
var refFixed = [13][2]string{
	{"14938380413158645463746726818663993049411440720262319458512240364576743949172", "612698444000497655149316219443956538920213548045757527589465098726453410217"},
	{"1602442613231540506062434465510844080484629772386483161935289973450738328411", "8632200768118172237953570969696965645934378330803102067059028669153881824687"},
	{"7302810833326292183657845455542786945088085612690237136517265240120492143686", "12265020872042776853325862543934338413628778238311540007481750568301839403357"},
	{"15714457855017303792793529634633875645702708944223275612000098593544931343989", "15257349176403661815620892222123615612513039066905856829097618251943836626674"},
	{"6588502116763777047662055789514359601800459134197048587585162560883404012798", "11714447983073049655392713639630119352182916653299642193786804830268642535746"},
	{"9125246457194062079192598275178850075343678690105278369118112655547944406336", "294075161521838319967190643963225379772318561607769296285010787743709643736"},
	{"21619461572256759847460179508152708219554585855297084173283796582786124555803", "4345524860916738024637605707697977254152854672257192099656709386158566955621"},
	{"17258678549324502889708499924818360135272319280666991023610380123832805047961", "5334989116053542497869652553010890811115308152577125353854023583257775982812"},
	{"5308159394739710035241344480420553410175387652800783904684585252715061491340", "3019131547261358901530790449779825851153791728474681515444029058543922522335"},
	{"15488644080723619432119612346004359086916581306660788742559926675716559909239", "8754616038193501373921013994731307318251353370144049595366428636287857472101"},
	{"9621060932553241457331309181312468446375012848693562416915297961501104714797", "18774224011527979955178720803820949077824414817387957068075380161701868796982"},
	{"7332275780326935691999111227339181700750973508937555651107089016408829877447", "10101962784746658718602667114782992736503033294933308373536577801383886245995"},
	{"18180235640340843615912844522870848024440129915340282133294923228193557588624", "16150223963193906991297402627411591966306440109235686551266596870812093013098"},
}
var refSigma = [7][2]string{
	{"14330957265734295635487529150089503047509680887155412481838936779763595454159", "11657029790297552620042403612079612021781553164410884915460958808861335447799"},
	{"3217632689962165131030083420553195932069690674124201615821228288158667916559", "11279851209809827628209572028517900058696331891386803672043677236706605258017"},
	{"6052548824579324632823008857297151984962554125394528409163563861993455062230", "5253299219790956244634070239415866732913146545893144333850618503587190167918"},
	{"20134811260136067172423268982757475565512657205230154765724273546621797752349", "6892971650116630821526804754060441250258363920342589425839414580605638919318"},
	{"17209526517725877136177243553045588666670528061781328851527842192340596792007", "673380535462416015709313880421335139519451950072360935904307055208109203957"},
	{"9973741392326192617521393709476164203221054644042980686853312098867551316157", "9696890272060053851986158851707718469926088811173404342570425124396426957984"},
	{"14118917696035322873139367456503207319385222068825598680486765986706935215403", "18580702656451937158771044279900207779359395181895031379070145857747412641911"},
}

func refG2() (g20, g21 bn254.G2Affine) {
	g20.X.SetString("13560776910958896778309428450808722712362583089620853136731412215646945297830", "17006984783035916014836003241042945838018391379603479329912940809520477208052")
	g20.Y.SetString("18091431719069275340788954644764755415339503689597559484185985670418402491565", "12900589361605111856143562381318004229723309245412571888359653960504992734777")
	g21.X.SetString("10857046999023057135944570762232829481370756359578518086990519993285655852781", "11559732032986387107991004021392285783925812861821192530917403151452391805634")
	g21.Y.SetString("13392588948715843804641432497768002650278120570034223513918757245338268106653", "17805874995975841540914202342111839520379459829704422454583296818431106115052")
	return
}

// ---- instance and transcript -----------------------------------------------

func be32(b *big.Int) []byte { return b.FillBytes(make([]byte, 32)) }

func refKeccak(data []byte) []byte {
	h := xsha3.NewLegacyKeccak256()
	h.Write(data)
	return h.Sum(nil)
}

// refInstance is keccak(target || verifyinst) mod r.
func refInstance(inputs []*big.Int) *big.Int {
	var d []byte
	for _, v := range inputs {
		d = append(d, be32(v)...)
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(refKeccak(d)), mcQ)
}

func (a *aggIn) verifyInst() []*big.Int {
	if a.NoInst {
		return nil
	}
	return append(append([]*big.Int{}, a.More...), a.Inst)
}

func (a *aggIn) hashIn() []*big.Int {
	return append(append([]*big.Int{}, a.Target...), a.verifyInst()...)
}

func refInstCommit(h *big.Int) (p bn254.G1Affine) {
	l0 := ptOf(refL0X, refL0Y)
	p.ScalarMultiplication(&l0, h)
	return
}

type refCh struct{ theta, beta, gamma, y, x, yp, v, u fr.Element }

func (c *refCh) list() []*big.Int {
	var r []*big.Int
	for _, e := range []fr.Element{c.theta, c.beta, c.gamma, c.y, c.x, c.yp, c.v, c.u} {
		r = append(r, bigOf(e))
	}
	return r
}

// refChallenges: a SHA-256 transcript.  The running digest is absorbed first,
// followed by the new 32-byte words and a zero byte.
func refChallenges(ic0, ic1 *big.Int, proof []*big.Int) *refCh {
	st := be32(refDigest)
	squeeze := func(words ...*big.Int) fr.Element {
		d := append([]byte{}, st...)
		for _, w := range words {
			d = append(d, be32(w)...)
		}
		d = append(d, 0)
		s := sha256.Sum256(d)
		st = s[:]
		return frOf(new(big.Int).SetBytes(st))
	}
	c := &refCh{}
	c.theta = squeeze(append([]*big.Int{ic0, ic1}, proof[0:16]...)...)
	c.beta = squeeze(proof[16:24]...)
	c.gamma = squeeze()
	c.y = squeeze(proof[24:38]...)
	c.x = squeeze(proof[38:44]...)
	c.yp = squeeze(proof[44:100]...)
	c.v = squeeze()
	c.u = squeeze(proof[100:102]...)
	return c
}

// ---- constraint evaluation and multi-open ----------------------------------

func fadd(a ...fr.Element) (r fr.Element) {
	for i := range a {
		r.Add(&r, &a[i])
	}
	return
}
func fsub(a, b fr.Element) (r fr.Element) { r.Sub(&a, &b); return }
func fmul(a ...fr.Element) (r fr.Element) {
	r.SetOne()
	for i := range a {
		r.Mul(&r, &a[i])
	}
	return
}
func fneg(a fr.Element) (r fr.Element) { r.Neg(&a); return }
func finv(a fr.Element) (r fr.Element) { r.Inverse(&a); return }
func fu(v uint64) (r fr.Element)       { r.SetUint64(v); return }
func fpw(a fr.Element, k int64) (r fr.Element) {
	if k < 0 {
		a = finv(a)
		k = -k
	}
	r.Exp(a, big.NewInt(k))
	return
}
func f2(k uint) fr.Element { return frOf(new(big.Int).Lsh(big.NewInt(1), k)) }

type refOut struct {
	Aux      [21]fr.Element // the quotients a prover has to supply
	Deg      bool           // a denominator vanished
	H        fr.Element
	W1, F    bn254.G1Affine // the two G1 points of the final pairing
	EvalComb fr.Element
}

func refReduce(proof []*big.Int, ic bn254.G1Affine, c *refCh) *refOut {
	o := &refOut{}
	ev := func(i int) fr.Element { return frOf(proof[i]) }
	div := func(i int, a, b fr.Element) fr.Element {
		if b.IsZero() {
			o.Deg = true
		}
		o.Aux[i] = fmul(a, finv(b))
		return o.Aux[i]
	}
	one := fu(1)
	x := c.x
	w := refOmega
	rot := func(k int64) fr.Element { return fmul(x, fpw(w, k)) }
	xl, xn, xp, x2 := rot(-6), rot(1), rot(-1), rot(2)

	n := int64(1) << refK
	xN := fpw(x, n)
	xN1 := fsub(xN, one)
	nInv := finv(fu(uint64(n)))
	lag := func(k int64) (num, den fr.Element) { // omega^k/n (x^n-1) / (x-omega^k)
		return fmul(fpw(w, k), nInv, xN1), fsub(x, fpw(w, k))
	}
	// quotients 0..7, 17..20 are the Lagrange denominators of the openings
	div(0, one, fsub(xl, x))
	div(1, one, fsub(xl, xn))
	div(2, one, fsub(x, xl))
	div(3, one, fsub(x, xn))
	div(4, one, fsub(xn, xl))
	div(5, one, fsub(xn, x))
	div(6, one, fsub(xp, x))
	div(7, one, fsub(x, xp))
	u := c.u
	div(8, one, fmul(fsub(u, xp), fsub(u, x2)))
	lg := func(i int, k int64) fr.Element { a, b := lag(k); return div(i, a, b) }
	l0 := lg(9, 0)
	ll := lg(10, -6)
	blind := fadd(lg(11, -5), lg(12, -4), lg(13, -3), lg(14, -2), lg(15, -1))
	active := fsub(one, fadd(ll, blind))
	div(17, one, fsub(x, x2))
	div(18, one, fsub(xn, x2))
	div(19, one, fsub(x2, x))
	div(20, one, fsub(x2, xn))

	// -- the constraint expressions, combined with y --
	var ex []fr.Element
	q := func(k int) fr.Element { return ev(58 + k) } // fixed columns
	a0, a1, a2, a3, a4, a4n := ev(45), ev(46), ev(47), ev(48), ev(49), ev(50)
	ex = append(ex, fadd(q(0), fmul(a4n, q(1)), fmul(a0, q(2)), fmul(a1, q(3)), fmul(a2, q(4)), fmul(a3, q(5)), fmul(a4, q(6)), fmul(a0, a1, q(7)), fmul(a2, a3, q(8))))
	sel := q(12)
	sm := func(k uint64) fr.Element { return fsub(sel, fu(k)) }
	A := ev(51)
	ex = append(ex, fmul(fsub(A, ev(52)), sel, sm(2), sm(3)))
	ex = append(ex, fmul(fsub(A, fadd(ev(53), fmul(ev(54), f2(18)), fmul(ev(52), f2(36)), fmul(ev(55), f2(54)))), sel, sm(1), sm(3)))
	ex = append(ex, fmul(fsub(A, fadd(ev(53), fmul(ev(54), f2(18)), fmul(ev(56), f2(36)), fmul(ev(52), f2(54)), fmul(ev(55), f2(72)), fmul(ev(57), f2(90)))), sel, sm(1), sm(2)))

	z := [4]fr.Element{ev(79), ev(82), ev(85), ev(88)}
	zn := [4]fr.Element{ev(80), ev(83), ev(86), ev(89)}
	zl := [3]fr.Element{ev(81), ev(84), ev(87)}
	ex = append(ex, fmul(l0, fsub(one, z[0])))
	ex = append(ex, fmul(ll, fsub(fmul(z[3], z[3]), z[3])))
	for i := 1; i < 4; i++ {
		ex = append(ex, fmul(l0, fsub(z[i], zl[i-1])))
	}
	cols := []fr.Element{a0, a1, a2, a3, a4, A, ev(44)}
	for k := 0; k < 4; k++ {
		l, r := zn[k], z[k]
		for j := 2 * k; j < 2*k+2 && j < 7; j++ {
			l = fmul(l, fadd(cols[j], c.gamma, fmul(c.beta, ev(72+j))))
			r = fmul(r, fadd(cols[j], c.gamma, fmul(c.beta, fpw(refDelta, int64(j)), x)))
		}
		ex = append(ex, fmul(active, fsub(l, r)))
	}
	look := func(z, zn, pi, pin, pt, in, tab fr.Element) {
		ex = append(ex, fmul(l0, fsub(one, z)))
		ex = append(ex, fmul(ll, fsub(fmul(z, z), z)))
		ex = append(ex, fmul(active, fsub(
			fmul(zn, fadd(pi, c.beta), fadd(pt, c.gamma)),
			fmul(z, fadd(in, c.beta), fadd(tab, c.gamma)))))
		ex = append(ex, fmul(l0, fsub(pi, pt)))
		ex = append(ex, fmul(active, fsub(pi, pt), fsub(pi, pin)))
	}
	tab := fadd(fmul(q(10), c.theta), q(11))
	look(ev(90), ev(91), ev(92), ev(93), ev(94), fadd(fmul(q(9), c.theta), ev(52)), tab)
	look(ev(95), ev(96), ev(97), ev(98), ev(99), fadd(fmul(fu(18), c.theta), ev(53)), tab)

	var num fr.Element
	for _, e := range ex {
		num = fadd(fmul(num, c.y), e)
	}
	o.H = div(16, num, xN1)

	// -- SHPLONK multi-open --
	type query struct {
		com []bn254.G1Affine // commitment = sum coef*com
		cf  []fr.Element
		ev  []fr.Element
	}
	P := func(i int) bn254.G1Affine { return ptOf(proof[i], proof[i+1]) }
	qy := func(p bn254.G1Affine, e ...fr.Element) query {
		return query{[]bn254.G1Affine{p}, []fr.Element{one}, e}
	}
	vkP := func(s [2]string) bn254.G1Affine { return ptOf(bI(s[0]), bI(s[1])) }
	setA := []query{qy(P(24), ev(79), ev(80), ev(81)), qy(P(26), ev(82), ev(83), ev(84)), qy(P(28), ev(85), ev(86), ev(87))}
	setB := []query{qy(P(16), ev(92), ev(93)), qy(P(20), ev(97), ev(98))}
	set0 := []query{qy(ic, ev(44)), qy(P(0), ev(45)), qy(P(2), ev(46)), qy(P(4), ev(47)), qy(P(6), ev(48)), qy(P(10), ev(51)), qy(P(18), ev(94)), qy(P(22), ev(99))}
	for i := 0; i < 13; i++ {
		set0 = append(set0, qy(vkP(refFixed[i]), q(i)))
	}
	for i := 0; i < 7; i++ {
		set0 = append(set0, qy(vkP(refSigma[i]), ev(72+i)))
	}
	set0 = append(set0, query{[]bn254.G1Affine{P(38), P(40), P(42)}, []fr.Element{one, xN, fmul(xN, xN)}, []fr.Element{o.H}})
	set0 = append(set0, qy(P(36), ev(71)))
	setC := []query{qy(P(8), ev(49), ev(50)), qy(P(30), ev(88), ev(89)), qy(P(32), ev(90), ev(91)), qy(P(34), ev(95), ev(96))}
	setD := []query{qy(P(12), ev(52), ev(55), ev(57)), qy(P(14), ev(53), ev(54), ev(56))}
	sets := [][]query{setA, setB, set0, setC, setD}
	pts := [][]fr.Element{{x, xn, xl}, {x, xp}, {x}, {x, xn}, {x, xn, x2}}
	super := []fr.Element{x, xn, xp, xl, x2}

	zOf := func(s []fr.Element) fr.Element {
		r := one
		for _, p := range s {
			r = fmul(r, fsub(u, p))
		}
		return r
	}
	zT := zOf(super)
	diffInv := func(s []fr.Element) fr.Element { return fmul(zT, finv(zOf(s))) }
	d0 := finv(diffInv(pts[0]))

	var bases []bn254.G1Affine
	var scal []fr.Element
	var rsum fr.Element
	for si := range sets {
		vi := fpw(c.v, int64(len(sets)-1-si))
		di := fmul(diffInv(pts[si]), d0)
		for qi, qq := range sets[si] {
			yi := fpw(c.yp, int64(len(sets[si])-1-qi))
			k := fmul(vi, di, yi)
			for m := range qq.com {
				bases = append(bases, qq.com[m])
				scal = append(scal, fmul(k, qq.cf[m]))
			}
			// interpolate the claimed evaluations at u
			var r fr.Element
			for i, p := range pts[si] {
				t := qq.ev[i]
				for j, p2 := range pts[si] {
					if i != j {
						t = fmul(t, fsub(u, p2), finv(fsub(p, p2)))
					}
				}
				r = fadd(r, t)
			}
			rsum = fadd(rsum, fmul(k, r))
		}
	}
	o.EvalComb = rsum
	bases = append(bases, refG(), P(100), P(102))
	scal = append(scal, fneg(rsum), fneg(zOf(pts[0])), u)
	o.W1 = P(102)
	var f bn254.G1Jac
	if _, err := f.MultiExp(bases, scal, ecc.MultiExpConfig{NbTasks: 1}); err != nil {
		panic(err)
	}
	o.F.FromJacobian(&f)
	return o
}

func refAuxBig(o *refOut) []*big.Int {
	r := make([]*big.Int, 21)
	for i := range r {
		r[i] = bigOf(o.Aux[i])
	}
	return r
}

type refVerdict struct {
	Accept bool
	Why    string
	Ch     *refCh
	Out    *refOut
	Hash   *big.Int
}

// refAggregate is the whole reference verifier.
func refAggregate(a *aggIn) *refVerdict {
	v := &refVerdict{}
	v.Hash = refInstance(a.hashIn())
	ic := refInstCommit(v.Hash)
	i0, i1 := ptXY(ic)
	for i := 0; i < 104; i += 2 {
		if i >= 44 && i < 100 {
			continue
		}
		p := ptOf(a.Proof[i], a.Proof[i+1])
		if !p.IsOnCurve() {
			v.Why = "commitment off the curve"
			return v
		}
	}
	v.Ch = refChallenges(i0, i1, a.Proof)
	v.Out = refReduce(a.Proof, ic, v.Ch)
	for i, e := range refAuxBig(v.Out) {
		if e.Cmp(a.Aux[i]) != 0 {
			v.Why = "quotient"
			return v
		}
	}
	if v.Out.Deg {
		v.Why = "degenerate"
		return v
	}
	for _, p := range []bn254.G1Affine{v.Out.W1, v.Out.F} {
		if p.X.IsZero() || p.Y.IsZero() {
			v.Why = "zero coordinate"
			return v
		}
	}
	g20, g21 := refG2()
	ok, err := bn254.PairingCheck([]bn254.G1Affine{v.Out.W1, v.Out.F}, []bn254.G2Affine{g20, g21})
	v.Accept = ok && err == nil
	if !v.Accept {
		v.Why = "pairing"
	}
	return v
}

// seeded, reproducible field values for the wide alphabets
func refRand(seed int64) func() *big.Int {
	r := rand.New(rand.NewSource(seed))
	return func() *big.Int { return new(big.Int).Rand(r, mcQ) }
}
