//go:build go1.22

package main

// C14: histories and interleavings.  Every operation is first run alone in a
// fresh process (its verdict and result are the baseline), then
//   - in every operation sequence up to a depth,
//   - with every other operation run at every (or, for the large ones, at a
//     fixed set of) circuit operation of it: one preemption,
//   - for the small operations with two preemptions, all positions,
//   - next to every other operation on a second thread under a
//     happens-before monitor: a pair of operations that share no conflicting
//     access has one equivalence class of interleavings.
// All operations of a history work on the same input objects, which are
// compared with a deep snapshot after each operation.

import (
	"bufio"
	"crypto/sha256"
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/consensys/gnark/std/signature/ecdsa"
)

// ---- the world: everything a caller owns -----------------------------------

type c14W struct {
	P, N, R    map[string]*big.Int // point coordinates, numbers, rest
	G          map[string]*bn254.G1Affine
	L          map[string][]frontend.Variable
	Kec        map[string]*Keccak256Circuit
	Sha        map[string]*Sha256Circuit
	Kyc        map[string]*Circuit
	Msm        map[string]*MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]
	BMsm       map[string]*BN256MsmCircuit
	BAdd       map[string]*BN256AddCircuit
	SMul       map[string]*BN254ScalarMul
	SAdd       map[string]*BN254Add
	Agg        map[string]*AggregatorCircuit
	Str        map[string]*string
	Pair       *BN256PairingCircuit
	Fx         *aggIn
	Ch         []*big.Int
	Ic0, Ic1   *big.Int
	Inst, Buf2 []*big.Int
}

type c14Const struct {
	pt   map[string]bn254.G1Affine
	num  map[string]*big.Int
	fx   *aggIn
	ch   []*big.Int
	ic   bn254.G1Affine
	out  *refOut
	g    map[string]bn254.G1Affine
	ks   [2]*big.Int
	msg  map[string][]byte
	hash map[string][]byte
}

var c14K = sync.OnceValue(func() *c14Const {
	k := &c14Const{pt: map[string]bn254.G1Affine{}, num: map[string]*big.Int{}, msg: map[string][]byte{}}
	for n, v := range map[string]uint64{"P": 5, "Q": 11, "S": 23} {
		k.pt[n] = refMulG(bU(v * 1000003))
	}
	p := k.pt["P"]
	var np bn254.G1Affine
	np.Neg(&p)
	k.pt["nP"] = np
	q := k.pt["Q"]
	np.Neg(&q)
	k.pt["nQ"] = np
	rnd := refRand(14)
	for _, n := range []string{"k", "k2", "a", "b", "c", "d"} {
		k.num[n] = rnd()
	}
	k.num["two"], k.num["one"], k.num["zero"], k.num["five"], k.num["seven"] = bU(2), bU(1), bU(0), bU(5), bU(7)
	k.num["min"], k.num["max"], k.num["age"] = bU(18), bU(50), bU(35)
	k.num["big"] = new(big.Int).Add(new(big.Int).Lsh(bU(1), 252), bU(9))
	k.num["byte0"], k.num["byte1"], k.num["byte2"] = bU(7), bU(255), bU(128)
	k.fx = refFixture()
	v := refAggregate(k.fx)
	if !v.Accept {
		panic("harness: fixture")
	}
	k.ch, k.out = v.Ch.list(), v.Out
	k.ic = refInstCommit(v.Hash)
	k.msg["m"] = []byte("a message of 27 bytes here.")
	k.msg["m2"] = []byte("a message of 27 bytes here!")
	k.msg["m3"] = []byte("a message of 26 bytes here")
	return k
})

func c14Big(l ...*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(l))
	for i := range l {
		r[i] = cp(l[i])
	}
	return r
}

func c14World() *c14W {
	k := c14K()
	w := &c14W{P: map[string]*big.Int{}, N: map[string]*big.Int{}, G: map[string]*bn254.G1Affine{}, L: map[string][]frontend.Variable{},
		Kec: map[string]*Keccak256Circuit{}, Sha: map[string]*Sha256Circuit{}, Kyc: map[string]*Circuit{},
		Msm:  map[string]*MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{},
		BMsm: map[string]*BN256MsmCircuit{}, BAdd: map[string]*BN256AddCircuit{}, SMul: map[string]*BN254ScalarMul{}, SAdd: map[string]*BN254Add{},
		Agg: map[string]*AggregatorCircuit{}, Str: map[string]*string{}}
	for n, p := range k.pt {
		q := p
		w.G[n] = &q
		x, y := ptXY(p)
		w.P[n+"x"], w.P[n+"y"] = x, y
	}
	for n, v := range k.num {
		w.N[n] = cp(v)
	}
	// other representatives of the same values
	for _, n := range []string{"P", "Q"} {
		for _, s := range []string{"x", "y"} {
			w.P[n+"w"+s] = new(big.Int).Add(w.P[n+s], mcP)
			w.P[n+"n"+s] = new(big.Int).Sub(w.P[n+s], mcP)
		}
	}
	w.N["aw"], w.N["an"] = new(big.Int).Add(k.num["a"], mcQ), new(big.Int).Sub(k.num["a"], mcQ)
	fx := k.fx.clone()
	w.Fx = fx
	hin := fx.hashIn()
	w.L["inst"] = c14Big(hin...)
	w.L["inst-last"] = c14Big(append(append([]*big.Int{}, hin[:4]...), new(big.Int).Add(hin[4], bU(1)))...)
	w.L["inst-first"] = c14Big(append([]*big.Int{bU(77)}, hin[1:]...)...)
	w.L["inst-short"] = c14Big(hin[:2]...)
	w.L["inst-empty"] = nil
	w.L["sq"] = append(c14Big(fx.Proof[:4]...), bU(1))
	w.L["sq-mid"] = append(c14Big(fx.Proof[0], fx.Proof[5], fx.Proof[2], fx.Proof[3]), bU(1))
	w.L["sq-first"] = append(c14Big(fx.Proof[6], fx.Proof[1], fx.Proof[2], fx.Proof[3]), bU(1))
	wide := new(big.Int).Add(new(big.Int).Lsh(bU(1), 256), bU(5))
	w.N["wide"] = wide
	w.L["sq-wide"] = append(c14Big(fx.Proof[0], fx.Proof[1], wide, fx.Proof[3]), bU(1))
	w.L["inst-wide"] = c14Big(hin[0], hin[1], wide, hin[3], hin[4])
	w.L["inst-nil"] = append(append([]frontend.Variable{}, c14Big(hin[:3]...)...), nil, cp(hin[4]))
	for n, m := range k.msg {
		for v, h := range map[string][]byte{"kec": refKeccak(m), "sha": func() []byte { s := sha256.Sum256(m); return s[:] }()} {
			bad := append([]byte{}, h...)
			bad[31] ^= 1
			if v == "kec" {
				w.Kec[n] = &Keccak256Circuit{uints.NewU8Array(m), uints.NewU8Array(h)}
				w.Kec[n+"-bad"] = &Keccak256Circuit{uints.NewU8Array(m), uints.NewU8Array(bad)}
			} else {
				w.Sha[n] = &Sha256Circuit{uints.NewU8Array(m), uints.NewU8Array(h)}
				w.Sha[n+"-bad"] = &Sha256Circuit{uints.NewU8Array(m), uints.NewU8Array(bad)}
			}
		}
	}
	kyc := func(h, r string, age uint64, country uint64) *Circuit {
		return &Circuit{
			Signature: ecdsa.Signature[emulated.Secp256k1Fr]{
				R: emulated.ValueOf[emulated.Secp256k1Fr](bI(r)),
				S: emulated.ValueOf[emulated.Secp256k1Fr](bI("77405625560525123464152303145240770328705524946250305291099118722847750339975"))},
			KycHash: emulated.ValueOf[emulated.Secp256k1Fr](bI(h)),
			ConditionHash: Conditions{Age: [2]frontend.Variable{bU(18), bU(50)}, Country: c14Big(bU(100), bU(200), bU(300), bU(400), bU(500)),
				Level: c14Big(bU(3)), Time: c14Big(bU(300))},
			Kyc: KycType{bU(age), bU(country), bU(3), bU(200)},
		}
	}
	h, r := "65836751601596300032969389553597263219621359970931417026813124302429596772205", "45536044045135930417610581277973574046122438970391757925449844580498097416238"
	w.Kyc["ok"] = kyc(h, r, 35, 300)
	w.Kyc["hash"] = kyc(h[:len(h)-1]+"6", r, 35, 300)
	w.Kyc["sig"] = kyc(h, r[:len(r)-1]+"9", 35, 300)
	w.Kyc["age"] = kyc(h, r, 51, 300)
	w.Kyc["country"] = kyc(h, r, 35, 301)
	mul := func(p string, s *big.Int) *bn254.G1Affine {
		q := k.pt[p]
		var x bn254.G1Affine
		x.ScalarMultiplication(&q, s)
		return &x
	}
	sum := func(a, b string) *bn254.G1Affine {
		p, q := k.pt[a], k.pt[b]
		var x bn254.G1Affine
		x.Add(&p, &q)
		return &x
	}
	for n, x := range map[string][3]string{"Pk": {"P", "k", "k"}, "Pk2": {"P", "k2", "k2"}, "Qk": {"Q", "k", "k"}, "nPk": {"nP", "k", "k"}, "Pk-bad": {"P", "k", "k2"}} {
		res := mul(x[0], k.num[x[2]])
		g := k.pt[x[0]]
		w.BMsm[n] = &BN256MsmCircuit{&g, cp(k.num[x[1]]), res}
		px, py := ptXY(g)
		rx, ry := ptXY(*res)
		w.SMul[n] = &BN254ScalarMul{Point: [2]frontend.Variable{px, py}, Scalar: cp(k.num[x[1]]), Res: [2]frontend.Variable{rx, ry}}
		m := &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{}
		m.Points = []sw_emulated.AffinePoint[emparams.BN254Fp]{{X: emulated.ValueOf[emparams.BN254Fp](px), Y: emulated.ValueOf[emparams.BN254Fp](py)}}
		m.Scalars = []emulated.Element[emparams.BN254Fr]{emulated.ValueOf[emparams.BN254Fr](k.num[x[1]])}
		m.Res = sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](rx), Y: emulated.ValueOf[emparams.BN254Fp](ry)}
		w.Msm[n] = m
	}
	for n, x := range map[string][4]string{"PQ": {"P", "Q", "P", "Q"}, "PS": {"P", "S", "P", "S"}, "SQ": {"S", "Q", "S", "Q"}, "PnQ": {"P", "nQ", "P", "nQ"}, "PQ-bad": {"P", "Q", "P", "S"}} {
		a, b := k.pt[x[0]], k.pt[x[1]]
		res := sum(x[2], x[3])
		w.BAdd[n] = &BN256AddCircuit{&a, &b, res}
		ax, ay := ptXY(a)
		bx, by := ptXY(b)
		rx, ry := ptXY(*res)
		w.SAdd[n] = &BN254Add{[2]frontend.Variable{ax, ay}, [2]frontend.Variable{bx, by}, [2]frontend.Variable{rx, ry}}
	}
	w.Agg["ok"] = fx.circuit()
	bad := fx.clone()
	bad.Target[0].Add(bad.Target[0], bU(1))
	w.Agg["target"] = bad.circuit()
	bad = fx.clone()
	bad.Aux[20].Add(bad.Aux[20], bU(1))
	w.Agg["aux"] = bad.circuit()
	bad = fx.clone()
	bad.Proof[100], bad.Proof[101] = ptXY(refMulG(bU(3)))
	w.Agg["proof"] = bad.circuit()
	bad = fx.clone()
	bad.Proof[17].Add(bad.Proof[17], bU(1))
	w.Agg["curve"] = bad.circuit()
	bad = fx.clone()
	bad.Proof[45].Set(wide)
	w.Agg["wide"] = bad.circuit()
	w.Agg["cut"] = fx.circuit()
	w.Agg["cut"].Aux = w.Agg["cut"].Aux[:20]
	w.Kyc["nil"] = kyc(h, r, 35, 300)
	w.Kyc["nil"].ConditionHash.Country[3] = nil
	w.Kyc["nil"].Kyc.Level = nil
	for n, s := range map[string]string{"a": "bn256.G1(00ff, 1234)", "b": "bn256.G1(00ff, 1235)", "bad": "bn256.G1(00ff 1234)"} {
		t := s
		w.Str[n] = &t
	}
	for _, e := range k.ch {
		w.Ch = append(w.Ch, cp(e))
	}
	w.Ic0, w.Ic1 = ptXY(k.ic)
	w.Pair = &BN256PairingCircuit{}
	return w
}

// c14Snap hashes everything reachable from the world except the internals of
// gnark's own element types.
func c14Snap(w *c14W) uint64 {
	h := uint64(0xcbf29ce484222325)
	put := func(x uint64) { h = (h ^ x) * 0x100000001b3; h ^= h >> 29 }
	str := func(s string) {
		put(uint64(len(s)))
		for i := 0; i < len(s); i++ {
			put(uint64(s[i]))
		}
	}
	tb := reflect.TypeOf(big.Int{})
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == tb {
			if v.Field(0).Bool() {
				put(77)
			}
			a := v.Field(1)
			put(uint64(a.Len()))
			for i := 0; i < a.Len(); i++ {
				put(a.Index(i).Uint())
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				put(1)
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			put(uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			var ks []string
			for _, k := range v.MapKeys() {
				ks = append(ks, k.String())
			}
			sort.Strings(ks)
			for _, k := range ks {
				str(k)
				walk(v.MapIndex(reflect.ValueOf(k)))
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint64, reflect.Uint32:
			put(v.Uint())
		case reflect.Int, reflect.Int64:
			put(uint64(v.Int()))
		case reflect.Bool:
			if v.Bool() {
				put(3)
			} else {
				put(5)
			}
		case reflect.String:
			str(v.String())
		default:
			panic("harness: snapshot of " + v.Type().String())
		}
	}
	walk(reflect.ValueOf(w).Elem())
	return h
}

// ---- operations ------------------------------------------------------------

type c14Op struct {
	name string
	cost int // 0: below a millisecond, 1: milliseconds, 2: tens of milliseconds, 3: seconds
	want string
	run  func(api frontend.API, w *c14W) (string, error)
}

func c14S(v ...frontend.Variable) string {
	var s []string
	for _, x := range v {
		if b := numOf(x); b != nil {
			s = append(s, b.String())
		} else {
			s = append(s, "none")
		}
	}
	return strings.Join(s, ",")
}

func c14Ops() []c14Op {
	var o []c14Op
	add := func(name string, cost int, want string, f func(api frontend.API, w *c14W) (string, error)) {
		o = append(o, c14Op{name, cost, want, f})
	}
	def := func(name string, cost int, want string, f func(w *c14W) frontend.Circuit) {
		add(name, cost, want, func(api frontend.API, w *c14W) (string, error) { return "", f(w).Define(api) })
	}
	const A, X = "accept", "reject"
	for _, v := range [][3]string{{"a", "b", ""}, {"a", "c", ""}, {"c", "b", ""}, {"aw", "an", ""}} {
		x, y := v[0], v[1]
		add("fr_add/"+x+y, 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(fr_add(api, w.N[x], w.N[y])), nil })
		add("fr_sub/"+x+y, 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(fr_sub(api, w.N[x], w.N[y])), nil })
		add("fr_mul/"+x+y, 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(fr_mul(api, w.N[x], w.N[y])), nil })
	}
	add("fr_mul_neg", 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(fr_mul_neg(api, w.N["a"], w.N["b"])), nil })
	for _, x := range []string{"a", "zero", "aw", "an"} {
		add("fr_neg/"+x, 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(fr_neg(api, w.N[x])), nil })
		if x == "aw" || x == "an" {
			continue
		}
		add("mod/"+x, 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(mod(api, w.N[x])), nil })
	}
	for _, v := range [][2]string{{"a", "five"}, {"a", "seven"}, {"b", "five"}, {"a", "zero"}, {"a", "one"}, {"aw", "five"}} {
		add("fr_pow/"+v[0]+"/"+v[1], 0, A, func(api frontend.API, w *c14W) (string, error) { return c14S(fr_pow(api, w.N[v[0]], w.N[v[1]])), nil })
	}
	// the constants of the verification key as operands
	consts := func(name string, f func(api frontend.API, x func() frontend.Variable) frontend.Variable) {
		add("const/"+name, 0, A, func(api frontend.API, w *c14W) (string, error) {
			var out []frontend.Variable
			for _, s := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "16", "57", "68719476736", "18014398509481984", "4131629893567559867359510883348571134090853742863529169391034518566172092834", "9741553891420464328295280489650144566903017206473301385034033384879943874347", new(big.Int).Sub(mcQ, bU(1)).String()} {
				out = append(out, f(api, func() frontend.Variable { return fr_from_string(s) }))
			}
			return fmt.Sprintf("%x", sha256.Sum256([]byte(c14S(out...))))[:16], nil
		})
	}
	consts("read", func(api frontend.API, x func() frontend.Variable) frontend.Variable { return x() })
	consts("neg", func(api frontend.API, x func() frontend.Variable) frontend.Variable { return fr_neg(api, x()) })
	consts("add", func(api frontend.API, x func() frontend.Variable) frontend.Variable { return fr_add(api, x(), x()) })
	consts("sub", func(api frontend.API, x func() frontend.Variable) frontend.Variable {
		return fr_sub(api, x(), fr_from_string("3"))
	})
	consts("mul", func(api frontend.API, x func() frontend.Variable) frontend.Variable { return fr_mul(api, x(), x()) })
	consts("pow", func(api frontend.API, x func() frontend.Variable) frontend.Variable {
		return fr_pow(api, x(), fr_from_string("5"))
	})
	consts("div", func(api frontend.API, x func() frontend.Variable) frontend.Variable {
		return fr_div(api, x(), fr_from_string("1"), x())
	})
	consts("mod", func(api frontend.API, x func() frontend.Variable) frontend.Variable { return mod(api, x()) })
	q := func(a, b string) *big.Int {
		k := c14K()
		return modQ(new(big.Int).Mul(k.num[a], new(big.Int).ModInverse(k.num[b], mcQ)))
	}
	ab, ac := q("a", "b"), q("a", "c")
	add("fr_div/ab", 0, A, func(api frontend.API, w *c14W) (string, error) {
		return c14S(fr_div(api, w.N["a"], w.N["b"], ab)), nil
	})
	add("fr_div/ac", 0, A, func(api frontend.API, w *c14W) (string, error) {
		return c14S(fr_div(api, w.N["a"], w.N["c"], ac)), nil
	})
	add("fr_div/bad", 0, X, func(api frontend.API, w *c14W) (string, error) {
		return c14S(fr_div(api, w.N["a"], w.N["b"], ac)), nil
	})
	add("fr_div/zero", 0, X, func(api frontend.API, w *c14W) (string, error) {
		return c14S(fr_div(api, w.N["a"], w.N["zero"], ab)), nil
	})
	add("pack/1", 0, A, func(api frontend.API, w *c14W) (string, error) {
		return c14S(PackUInt8Variables(api, w.N["byte0"], w.N["byte1"], w.N["byte2"])), nil
	})
	add("pack/2", 0, A, func(api frontend.API, w *c14W) (string, error) {
		return c14S(PackUInt8Variables(api, w.N["byte0"], w.N["byte1"], w.N["byte1"])), nil
	})
	for _, v := range [][4]string{{"age", "min", "max", A}, {"min", "min", "max", A}, {"max", "min", "max", A}, {"five", "min", "max", X}, {"age", "max", "big", X}, {"a", "min", "max", X}, {"big", "min", "big", A}} {
		add("range/"+v[0]+"/"+v[1]+"/"+v[2], 0, v[3], func(api frontend.API, w *c14W) (string, error) {
			return "", VerifyRangeCheck(api, w.N[v[0]], w.N[v[1]], w.N[v[2]])
		})
	}
	for _, v := range [][2]string{{"one", A}, {"a", A}, {"zero", X}} {
		add("notzero/"+v[0], 0, v[1], func(api frontend.API, w *c14W) (string, error) { return "", VerifyNotZero(api, w.N[v[0]]) })
	}
	for _, v := range [][3]string{{"Px", "Py", A}, {"Qx", "Qy", A}, {"Px", "nPy", A}, {"Px", "Qy", X}, {"Qx", "Py", X}, {"Py", "Px", X},
		{"Pwx", "Pwy", A}, {"Pnx", "Py", A}, {"Pwx", "Qny", X}} {
		add("oncurve/"+v[0]+v[1], 0, v[2], func(api frontend.API, w *c14W) (string, error) {
			return "", VerifyCheckOnCurve(api, w.P[v[0]], w.P[v[1]])
		})
		add("oncurvevar/"+v[0]+v[1], 0, v[2], func(api frontend.API, w *c14W) (string, error) {
			return "", VerifyCheckOnCurveVar(api, w.P[v[0]], w.P[v[1]])
		})
	}
	hint := func(name string, want string, nout int, f func(*big.Int, []*big.Int, []*big.Int) error, in func(w *c14W) []*big.Int) {
		add("hint/"+name, 0, want, func(api frontend.API, w *c14W) (string, error) {
			out := make([]*big.Int, nout)
			for i := range out {
				out[i] = new(big.Int)
			}
			if err := f(mcQ, in(w), out); err != nil {
				return "", err
			}
			h := sha256.New()
			for _, x := range out {
				h.Write([]byte(x.String() + ","))
			}
			return fmt.Sprintf("%x", h.Sum(nil)[:8]), nil
		})
	}
	for _, v := range [][4]string{{"P", "P", "k", A}, {"P", "P", "k2", A}, {"Q", "Q", "k", A}, {"P", "nP", "k", A}, {"P", "Q", "k", X}, {"P", "P", "zero", A}} {
		hint("msm/"+v[0]+v[1]+v[2], v[3], 2, MsmHint, func(w *c14W) []*big.Int { return []*big.Int{w.P[v[0]+"x"], w.P[v[1]+"y"], w.N[v[2]]} })
	}
	for _, v := range [][4]string{{"P", "P", "Q", A}, {"P", "P", "S", A}, {"S", "S", "Q", A}, {"P", "P", "nQ", A}, {"P", "Q", "Q", X}, {"P", "P", "P", A}} {
		hint("add/"+v[0]+v[1]+v[2], v[3], 2, AddHint, func(w *c14W) []*big.Int {
			return []*big.Int{w.P[v[0]+"x"], w.P[v[1]+"y"], w.P[v[2]+"x"], w.P[v[2]+"y"]}
		})
	}
	for _, v := range []string{"a", "zero", "big"} {
		hint("mod/"+v, A, 2, modHint, func(w *c14W) []*big.Int { return []*big.Int{w.N[v]} })
	}
	for _, v := range []string{"inst", "inst-last", "inst-first", "inst-short", "inst-empty"} {
		hint("keccak/"+v, A, 1+32*(1+len(c14World().L[v])), Keccak256Hint, func(w *c14W) []*big.Int {
			var r []*big.Int
			for _, x := range w.L[v] {
				r = append(r, x.(*big.Int))
			}
			return r
		})
	}
	for _, v := range [][2]string{{"a", A}, {"b", A}, {"bad", X}} {
		add("text/"+v[0], 0, v[1], func(api frontend.API, w *c14W) (string, error) {
			x, y, err := extractAndConvert(*w.Str[v[0]])
			return x + "," + y, err
		})
	}
	for _, v := range [][2]string{{"Pk", A}, {"Pk2", A}, {"Qk", A}, {"nPk", A}, {"Pk-bad", X}} {
		def("bn256msm/"+v[0], 0, v[1], func(w *c14W) frontend.Circuit { return w.BMsm[v[0]] })
		def("scalarmul/"+v[0], 1, v[1], func(w *c14W) frontend.Circuit { return w.SMul[v[0]] })
		if v[0] != "nPk" {
			def("msm1/"+v[0], 1, v[1], func(w *c14W) frontend.Circuit { return w.Msm[v[0]] })
		}
	}
	for _, v := range [][2]string{{"PQ", A}, {"PS", A}, {"SQ", A}, {"PnQ", A}, {"PQ-bad", X}} {
		def("bn256add/"+v[0], 0, v[1], func(w *c14W) frontend.Circuit { return w.BAdd[v[0]] })
		def("add/"+v[0], 1, v[1], func(w *c14W) frontend.Circuit { return w.SAdd[v[0]] })
	}
	add("bn256msm/fn", 0, A, func(api frontend.API, w *c14W) (string, error) {
		return "", VerifyBN256Msm(api, w.G["P"], w.N["one"], w.G["P"])
	})
	add("bn256add/fn", 0, X, func(api frontend.API, w *c14W) (string, error) {
		return "", VerifyBN256Add(api, w.G["P"], w.G["Q"], w.G["S"])
	})
	two := func(r [2]frontend.Variable, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return c14S(r[0], r[1]), nil
	}
	for _, v := range [][4]string{{"P", "P", "k", A}, {"P", "P", "k2", A}, {"Q", "Q", "k", A}, {"P", "nP", "k", A}, {"P", "Q", "k", X}} {
		add("calcmsm/"+v[0]+v[1]+v[2], 1, v[3], func(api frontend.API, w *c14W) (string, error) {
			return two(CalcVerifyBN256Msm(api, w.P[v[0]+"x"], w.P[v[1]+"y"], w.N[v[2]]))
		})
		add("calcmsm1/"+v[0]+v[1]+v[2], 0, v[3], func(api frontend.API, w *c14W) (string, error) {
			return two(CalcVerifyBN256Msm1(api, w.P[v[0]+"x"], w.P[v[1]+"y"], w.N[v[2]]))
		})
	}
	for _, v := range [][4]string{{"P", "P", "Q", A}, {"P", "P", "S", A}, {"S", "S", "Q", A}, {"P", "P", "nQ", A}, {"P", "Q", "Q", X}} {
		add("calcadd/"+v[0]+v[1]+v[2], 1, v[3], func(api frontend.API, w *c14W) (string, error) {
			return two(CalcVerifyBN256Add(api, w.P[v[0]+"x"], w.P[v[1]+"y"], w.P[v[2]+"x"], w.P[v[2]+"y"]))
		})
		add("calcadd1/"+v[0]+v[1]+v[2], 0, v[3], func(api frontend.API, w *c14W) (string, error) {
			return two(CalcVerifyBN256Add1(api, w.P[v[0]+"x"], w.P[v[1]+"y"], w.P[v[2]+"x"], w.P[v[2]+"y"]))
		})
	}
	for _, k := range []string{"k", "k2"} {
		add("lagrange/"+k, 1, A, func(api frontend.API, w *c14W) (string, error) {
			buf := []frontend.Variable{w.N["a"], w.N["b"], w.N[k]}
			err := CalcVerifyCircuitLagrange(api, buf)
			return c14S(buf...), err
		})
	}
	for _, v := range [][4]string{{"P", "Q", "k", A}, {"P", "Q", "k2", A}, {"S", "Q", "k", A}} {
		add("ecc_mul_add/"+v[0]+v[1]+v[2], 1, v[3], func(api frontend.API, w *c14W) (string, error) {
			buf := []frontend.Variable{w.N["a"], w.P[v[0]+"x"], w.P[v[0]+"y"], w.P[v[1]+"x"], w.P[v[1]+"y"], w.N[v[2]], w.N["b"]}
			err := ecc_mul_add(api, buf, 1)
			return c14S(buf...), err
		})
		add("ecc_mul/"+v[0]+v[1]+v[2], 1, v[3], func(api frontend.API, w *c14W) (string, error) {
			buf := []frontend.Variable{w.N["a"], w.P[v[0]+"x"], w.P[v[0]+"y"], w.N[v[2]], w.N["b"]}
			err := ecc_mul(api, buf, 1)
			return c14S(buf...), err
		})
	}
	for _, v := range []string{"inst", "inst-last", "inst-first", "inst-short", "inst-empty"} {
		add("insthash/"+v, 2, A, func(api frontend.API, w *c14W) (string, error) {
			r, err := VerifyInstanceHash(api, w.L[v])
			if err != nil {
				return "", err
			}
			return c14S(r), nil
		})
	}
	for _, v := range []string{"sq", "sq-mid", "sq-first"} {
		for _, n := range []int{4, 3} {
			add(fmt.Sprintf("squeeze/%s/%d", v, n), 2, A, func(api frontend.API, w *c14W) (string, error) {
				l := append([]frontend.Variable{}, w.L[v]...) // the buffer is the callee's, the words are not
				r, err := SqueezeChallenge(api, l, n)
				if err != nil {
					return "", err
				}
				return c14S(append(l, r)...), nil
			})
		}
	}
	for _, m := range []string{"m", "m2", "m3", "m-bad", "m2-bad"} {
		want := A
		if strings.HasSuffix(m, "bad") {
			want = X
		}
		def("keccak/"+m, 2, want, func(w *c14W) frontend.Circuit { return w.Kec[m] })
		def("sha256/"+m, 2, want, func(w *c14W) frontend.Circuit { return w.Sha[m] })
	}
	for _, v := range [][2]string{{"ok", A}, {"hash", X}, {"sig", X}, {"age", X}, {"country", X}} {
		def("kyc/"+v[0], 2, v[1], func(w *c14W) frontend.Circuit { return w.Kyc[v[0]] })
	}
	for _, v := range [][2]string{{"age", A}, {"five", X}} {
		add("compile/"+v[0], 1, v[1], func(api frontend.API, w *c14W) (string, error) {
			mk := func() frontend.Circuit {
				return &c14G{A: make([]frontend.Variable, 3), f: func(api frontend.API, a []frontend.Variable) error { return VerifyRangeCheck(api, a[0], a[1], a[2]) }}
			}
			ccs := mcCompile(mcQ, true, mk())
			as := mk().(*c14G)
			as.A = []frontend.Variable{w.N[v[0]], w.N["min"], w.N["max"]}
			return strconv.Itoa(ccs.GetNbConstraints()), mcSolve(ccs, mcQ, as)
		})
	}
	// operations given up half way, by a panic as a rule
	wants := func(l [][2]string, f func(n, want string)) {
		for _, v := range l {
			f(v[0], v[1])
		}
	}
	wants([][2]string{{"add", X}, {"sub", X}, {"mul", X}, {"neg", X}, {"pow", X}, {"div", X}, {"mod", X}}, func(n, want string) {
		add("half/fr_"+n, 0, want, func(api frontend.API, w *c14W) (string, error) {
			switch n {
			case "add":
				return c14S(fr_add(api, w.N["a"], nil)), nil
			case "sub":
				return c14S(fr_sub(api, w.N["a"], nil)), nil
			case "mul":
				return c14S(fr_mul(api, w.N["a"], nil)), nil
			case "neg":
				return c14S(fr_neg(api, nil)), nil
			case "pow":
				return c14S(fr_pow(api, w.N["a"], nil)), nil
			case "div":
				return c14S(fr_div(api, nil, w.N["a"], ab)), nil
			}
			return c14S(mod(api, nil)), nil
		})
	})
	add("half/range", 0, X, func(api frontend.API, w *c14W) (string, error) {
		return "", VerifyRangeCheck(api, w.N["age"], w.N["min"], nil)
	})
	add("half/oncurve", 0, X, func(api frontend.API, w *c14W) (string, error) { return "", VerifyCheckOnCurve(api, w.P["Px"], nil) })
	add("half/msm1", 0, X, func(api frontend.API, w *c14W) (string, error) {
		return two(CalcVerifyBN256Msm1(api, w.P["Px"], nil, w.N["k"]))
	})
	add("half/add1", 0, X, func(api frontend.API, w *c14W) (string, error) {
		return two(CalcVerifyBN256Add1(api, w.P["Px"], w.P["Py"], w.P["Qx"], nil))
	})
	add("half/msm", 1, X, func(api frontend.API, w *c14W) (string, error) {
		return two(CalcVerifyBN256Msm(api, w.P["Px"], w.P["Py"], nil))
	})
	add("half/lagrange", 1, X, func(api frontend.API, w *c14W) (string, error) {
		return "", CalcVerifyCircuitLagrange(api, []frontend.Variable{w.N["a"], w.N["b"]})
	})
	add("half/ecc_mul_add", 1, X, func(api frontend.API, w *c14W) (string, error) {
		return "", ecc_mul_add(api, []frontend.Variable{w.N["a"], w.P["Px"], w.P["Py"], w.P["Qx"], w.P["Qy"], nil, w.N["b"]}, 1)
	})
	for _, v := range []struct {
		n string
		f func(*big.Int, []*big.Int, []*big.Int) error
		m int
	}{{"msm", MsmHint, 2}, {"add", AddHint, 2}, {"keccak", Keccak256Hint, 161}} {
		hint("half/"+v.n, X, v.m, v.f, func(w *c14W) []*big.Int { return []*big.Int{w.P["Px"], w.P["Py"], nil, w.P["Qy"]} })
	}
	for _, v := range []string{"inst-wide", "inst-nil"} {
		add("half/insthash/"+v, 1, X, func(api frontend.API, w *c14W) (string, error) {
			r, err := VerifyInstanceHash(api, w.L[v])
			if err != nil {
				return "", err
			}
			return c14S(r), nil
		})
	}
	for _, n := range []int{4, 9} {
		add(fmt.Sprintf("half/squeeze/%d", n), 1, X, func(api frontend.API, w *c14W) (string, error) {
			r, err := SqueezeChallenge(api, append([]frontend.Variable{}, w.L["sq-wide"]...), n)
			if err != nil {
				return "", err
			}
			return c14S(r), nil
		})
	}
	def("half/kyc", 2, X, func(w *c14W) frontend.Circuit { return w.Kyc["nil"] })
	add("half/compile", 1, X, func(api frontend.API, w *c14W) (string, error) {
		defer func() {
			if r := recover(); r != nil {
				panic(errors.New("no compilation"))
			}
		}()
		mcCompile(mcQ, true, &c14G{A: make([]frontend.Variable, 3), f: func(api frontend.API, a []frontend.Variable) error {
			if err := VerifyRangeCheck(api, a[0], a[1], a[2]); err != nil {
				return err
			}
			panic("given up")
		}})
		return "compiled", nil
	})
	add("half/challenges", 2, X, func(api frontend.API, w *c14W) (string, error) {
		buf := make([]frontend.Variable, 43)
		for i := range buf {
			buf[i] = new(big.Int)
		}
		buf[0], buf[1] = w.Ic0, w.Ic1
		err := GetChallengesShPlonkCircuit(api, buf, w.Agg["wide"].Proof)
		return c14S(buf...), err
	})
	add("challenges", 3, A, func(api frontend.API, w *c14W) (string, error) {
		buf := make([]frontend.Variable, 43)
		for i := range buf {
			buf[i] = new(big.Int)
		}
		buf[0], buf[1] = w.Ic0, w.Ic1
		err := GetChallengesShPlonkCircuit(api, buf, w.Agg["ok"].Proof)
		return c14S(buf...), err
	})
	add("challenges/curve", 3, X, func(api frontend.API, w *c14W) (string, error) {
		buf := make([]frontend.Variable, 43)
		for i := range buf {
			buf[i] = new(big.Int)
		}
		buf[0], buf[1] = w.Ic0, w.Ic1
		err := GetChallengesShPlonkCircuit(api, buf, w.Agg["curve"].Proof)
		return c14S(buf...), err
	})
	for _, v := range [][2]string{{"ok", A}, {"aux", X}} {
		add("steps/"+v[0], 3, v[1], func(api frontend.API, w *c14W) (string, error) {
			var buf [43]frontend.Variable
			for i := range buf {
				buf[i] = new(big.Int)
			}
			buf[0], buf[1] = w.Ic0, w.Ic1
			for i := range w.Ch {
				buf[2+i] = w.Ch[i]
			}
			var err error
			for _, f := range []func(frontend.API, []frontend.Variable, []frontend.Variable, [43]frontend.Variable) ([43]frontend.Variable, error){VerifyProof1, VerifyProof2, VerifyProof3} {
				if buf, err = f(api, w.Agg[v[0]].Proof, w.Agg[v[0]].Aux, buf); err != nil {
					return "", err
				}
			}
			return c14S(buf[10:14]...), nil
		})
	}
	k := c14K()
	for _, good := range []bool{true, false} {
		want, n := X, "pairing/bad"
		a, b := k.pt["P"], k.pt["Q"]
		if good {
			want, n = A, "pairing/ok"
			a, b = k.out.W1, k.out.F
		}
		add(n, 3, want, func(api frontend.API, w *c14W) (string, error) {
			x, y := ptXY(a)
			u, v := ptXY(b)
			c := &BN256PairingCircuit{}
			c.FillVerifyCircuitsG1(x, y, u, v)
			c.FillVerifyCircuitsG2()
			return "", c.Define(api)
		})
	}
	for _, v := range [][2]string{{"ok", A}, {"target", X}, {"aux", X}, {"proof", X}, {"curve", X}, {"wide", X}, {"cut", X}} {
		def("aggregate/"+v[0], 4, v[1], func(w *c14W) frontend.Circuit { return w.Agg[v[0]] })
	}
	return o
}

func c14Kind(n string) string {
	k := strings.SplitN(n, "/", 3)
	if k[0] == "hint" || k[0] == "half" {
		return k[0] + "/" + k[1]
	}
	return k[0]
}

type c14G struct {
	A []frontend.Variable
	f func(api frontend.API, a []frontend.Variable) error
}

func (g *c14G) Define(api frontend.API) error { return g.f(api, g.A) }

func c14Run(o *c14Op, w *c14W, onStep func(op string)) (string, *mcEng) {
	return c14RunOn(newEng(), o, w, onStep)
}

func c14RunOn(e *mcEng, o *c14Op, w *c14W, onStep func(op string)) (string, *mcEng) {
	e.onStep = onStep
	var res string
	err := e.run(func(api frontend.API) (err error) { res, err = o.run(api, w); return })
	if err != nil {
		return "reject", e
	}
	return "accept " + res, e
}

// ---- the fresh process -----------------------------------------------------

type c14Child struct {
	base         map[string]string
	ops          map[string]*c14Op
	list         []*c14Op
	execs, trans int64
	out          *bufio.Writer
	states       map[uint64]bool
	w            *c14W
	s0           uint64
}

// world is shared by every history of the process: the same objects again and
// again; its snapshot is taken once.
func (c *c14Child) world() (*c14W, uint64) {
	if c.w == nil {
		c.w = c14World()
		c.s0 = c14Snap(c.w)
	}
	return c.w, c.s0
}

func (c *c14Child) fail(f string, a ...any) {
	fmt.Fprintf(c.out, "\nFAIL %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
	c.done()
}

func (c *c14Child) done() {
	fmt.Fprintf(c.out, "STAT %d %d %d\n", c.execs, c.trans, len(c.states))
	c.out.Flush()
	os.Exit(0)
}

// c14Thr is an operation on a goroutine of its own, under the control of the
// explorer: it stops at the operations stop asks for.
type c14Thr struct {
	o            *c14Op
	res          string
	trans        int64
	done, parked atomic.Bool
	on           chan bool
	ev           chan bool
}

func (c *c14Child) start(ev chan bool, eng *mcEng, o *c14Op, w *c14W, stop func(n int) bool) *c14Thr {
	t := &c14Thr{o: o, on: make(chan bool, 1), ev: ev}
	var step func(string)
	if stop != nil {
		n := 0
		step = func(string) {
			if stop(n) {
				t.parked.Store(true)
				ev <- true
				<-t.on
			}
			n++
		}
	}
	go func() {
		r, e := c14RunOn(eng, o, w, step)
		t.res, t.trans = r, e.nOps
		t.done.Store(true)
		ev <- true
	}()
	return t
}

// c14Idle holds when every goroutine but the caller's waits for another one.
func c14Idle() bool {
	buf := make([]byte, 1<<17)
	buf = buf[:runtime.Stack(buf, true)]
next:
	for i, g := range strings.Split(string(buf), "\n\n") {
		h := strings.SplitN(g, "\n", 2)[0]
		if i == 0 || !strings.HasPrefix(h, "goroutine ") || strings.Contains(g, "os/signal.") {
			continue
		}
		for _, s := range []string{"[chan ", "[select", "[semacquire", "[sync.", "[finalizer wait", "[cleanup wait"} {
			if strings.Contains(h, s) {
				continue next
			}
		}
		return false
	}
	return true
}

// wait lets t run until it finishes or stops (true), or waits for something
// that another thread has to do (false).
func (c *c14Child) wait(t *c14Thr, last bool) bool {
	tick, spent, idle := 500*time.Microsecond, time.Duration(0), 0
	for !t.done.Load() && !t.parked.Load() {
		tm := time.NewTimer(tick)
		select {
		case <-t.ev:
			tm.Stop()
		case <-tm.C:
			spent += tick
			if !c14Idle() || len(t.ev) > 0 {
				idle = 0
			} else if idle++; idle == 2 {
				return false
			}
			if !last && spent > time.Minute { // it may spin
				return false
			}
			if spent > 8*time.Minute {
				c.fail("%s does not end", t.o.name)
			}
			if idle == 0 && tick < 200*time.Millisecond {
				tick *= 2
			}
		}
	}
	return true
}

func (t *c14Thr) resume() {
	if t.parked.Load() {
		t.parked.Store(false)
		t.on <- true
	}
}

// finish runs the threads to their ends, the first one as far as it gets
// before the next.
func (c *c14Child) finish(hist string, ts ...*c14Thr) {
	for {
		left, moved := 0, false
		for _, t := range ts {
			for !t.done.Load() {
				t.resume()
				if !c.wait(t, true) {
					break
				}
				moved = true
			}
			if !t.done.Load() {
				left++
			}
		}
		if left == 0 {
			break
		}
		if !moved {
			for _, t := range ts {
				if !t.done.Load() {
					c.fail("%s: %s never ends, it waits for something nobody does any more", hist, t.o.name)
				}
			}
		}
	}
	for _, t := range ts {
		c.execs++
		c.trans += t.trans
	}
}

func (c *c14Child) one(o *c14Op, w *c14W) string {
	t := c.start(make(chan bool, 4), newEng(), o, w, nil)
	c.finish(o.name, t)
	return t.res
}

func (c *c14Child) check(o *c14Op, got, hist string) {
	if b, ok := c.base[o.name]; ok && got != b {
		c.fail("%s: %s gives %q, alone in a fresh process it gives %q", hist, o.name, clip(got, 90), clip(b, 90))
	}
}

func (c *c14Child) state(w uint64, hist string) {
	h := fnv.New64a()
	fmt.Fprint(h, w, hist)
	c.states[h.Sum64()] = true
}

// seq runs one history on one world.
func (c *c14Child) seq(ops ...*c14Op) {
	w, s0 := c.world()
	hist := "sequence"
	for _, o := range ops {
		hist += " " + o.name
		r := c.one(o, w)
		c.check(o, r, hist)
		c.state(s0, hist+r)
	}
	if c14Snap(w) != s0 {
		c.fail("an input of the caller changed: %s", hist)
	}
}

// points are the scheduling points of an operation that are explored.
func (c *c14Child) points(o *c14Op, max int) []int {
	var kind []string
	c14Run(o, c14World(), func(op string) { kind = append(kind, op) })
	n := len(kind)
	if n <= max {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	set := map[int]bool{}
	for i := 0; i < max/4; i++ {
		set[i], set[n-1-i] = true, true
	}
	var change []int // where the kind of operation changes: hint after arithmetic, assertion after hint ...
	for i := 1; i < n; i++ {
		if kind[i] != kind[i-1] && (kind[i] == "hint" || kind[i-1] == "hint") {
			change = append(change, i)
		}
	}
	for i := 0; i < max/4 && len(change) > 0; i++ {
		set[change[i*len(change)/(max/4)]] = true
	}
	for i := 0; i < max/4; i++ {
		set[i*n/(max/4)] = true
	}
	var r []int
	for i := range set {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

// pre stops a at scheduling point i and runs b.  Where b has to wait for a,
// a goes on.
func (c *c14Child) pre(a, b *c14Op, i int) {
	w, s0 := c.world()
	hist := fmt.Sprintf("%s preempted at its operation %d by %s", a.name, i, b.name)
	ev := make(chan bool, 4)
	ta := c.start(ev, newEng(), a, w, func(n int) bool { return n == i })
	c.wait(ta, false)
	if !ta.parked.Load() {
		c.finish(hist, ta)
	} else {
		tb := c.start(ev, newEng(), b, w, nil)
		c.wait(tb, false)
		c.finish(hist, ta, tb)
		c.check(b, tb.res, hist)
	}
	c.check(a, ta.res, hist)
	if c14Snap(w) != s0 {
		c.fail("an input of the caller changed: %s", hist)
	}
	c.state(s0, hist+ta.res)
}

// multi runs the others one after the other at the given points of a.
func (c *c14Child) multi(a *c14Op, at []int, others []*c14Op) {
	w, s0 := c.world()
	ev := make(chan bool, 2*len(at)+4)
	k := 0
	ta := c.start(ev, newEng(), a, w, func(n int) bool { return k < len(at) && n == at[k] })
	var late []*c14Thr
	for c.wait(ta, false) && !ta.done.Load() {
		b := others[k%len(others)]
		hist := fmt.Sprintf("%s preempted at its operation %d by %s", a.name, at[k], b.name)
		tb := c.start(ev, newEng(), b, w, nil)
		if c.wait(tb, false) {
			c.finish(hist, tb)
			c.check(b, tb.res, hist)
			if c14Snap(w) != s0 {
				c.fail("an input of the caller changed: %s", hist)
			}
			c.state(s0, hist)
		} else {
			late = append(late, tb)
		}
		k++
		ta.resume()
	}
	hist := a.name + " preempted at " + fmt.Sprint(at)
	c.finish(hist, append(late, ta)...)
	for _, tb := range late {
		c.check(tb.o, tb.res, hist)
	}
	c.check(a, ta.res, hist)
	if c14Snap(w) != s0 {
		c.fail("an input of the caller changed: %s", a.name)
	}
}

// two: a runs to i, b runs to j, a finishes, b finishes.
func (c *c14Child) two(a, b *c14Op, i, j int) {
	w, s0 := c.world()
	ev := make(chan bool, 4)
	hist := fmt.Sprintf("%s up to %d, %s up to %d, then the first, then the second", a.name, i, b.name, j)
	ta := c.start(ev, newEng(), a, w, func(n int) bool { return n == i })
	c.wait(ta, false)
	if !ta.parked.Load() {
		c.finish(hist, ta)
		c.check(a, ta.res, hist)
		return
	}
	tb := c.start(ev, newEng(), b, w, func(n int) bool { return n == j })
	c.wait(tb, false)
	ta.resume()
	c.wait(ta, false)
	c.finish(hist, ta, tb)
	c.check(b, tb.res, hist)
	c.check(a, ta.res, hist)
	if c14Snap(w) != s0 {
		c.fail("an input of the caller changed: %s", hist)
	}
	c.state(s0, hist+ta.res+tb.res)
}

// par runs both at once; the process is built with the race monitor.
func (c *c14Child) par(a, b *c14Op) {
	w, s0 := c.world()
	wb := w
	if k := c14Kind(b.name); k == "msm1" || k == "kyc" {
		wb = c14World() // gnark keeps bookkeeping flags in its element objects
	}
	hist := a.name + " beside " + b.name
	evA, evB := make(chan bool, 4), make(chan bool, 4)
	ea, eb := newEng(), newEng() // making one touches a counter of gnark
	ta, tb := c.start(evA, ea, a, w, nil), c.start(evB, eb, b, wb, nil)
	c.finish(hist, ta, tb)
	c.check(a, ta.res, hist)
	c.check(b, tb.res, hist)
	if c14Snap(w) != s0 {
		c.fail("an input of the caller changed: %s", hist)
	}
	c.state(s0, hist)
}

func TestVerifC14Child(t *testing.T) {
	job := os.Getenv("VERIF_C14")
	if job == "" {
		t.Skip()
	}
	c := &c14Child{base: map[string]string{}, ops: map[string]*c14Op{}, out: bufio.NewWriter(os.Stdout), states: map[uint64]bool{}}
	ops := c14Ops()
	for i := range ops {
		c.ops[ops[i].name] = &ops[i]
		c.list = append(c.list, &ops[i])
	}
	if b, err := os.ReadFile(os.Getenv("VERIF_C14_BASE")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.SplitN(l, "\t", 2); len(f) == 2 {
				c.base[f[0]] = f[1]
			}
		}
	}
	f := strings.Split(job, "|")
	get := func(n string) *c14Op {
		if c.ops[n] == nil {
			panic("harness: no operation " + n)
		}
		return c.ops[n]
	}
	upto := func(cost int) (r []*c14Op) {
		for _, o := range c.list {
			if o.cost <= cost {
				r = append(r, o)
			}
		}
		return
	}
	names := func(s string) (r []*c14Op) {
		for _, n := range strings.Split(s, ",") {
			r = append(r, get(n))
		}
		return
	}
	num := func(s string) int { n, _ := strconv.Atoi(s); return n }
	switch f[0] {
	case "alone":
		fmt.Fprintf(c.out, "\nRESULT %s\n", c.one(get(f[1]), c14World()))
	case "seq": // explicit histories
		for _, s := range f[1:] {
			c.seq(names(s)...)
		}
	case "pairs": // A, then every B, A again in between
		a := get(f[1])
		for _, b := range upto(num(f[2])) {
			c.seq(a, b)
		}
		c.seq(a)
	case "triples":
		a := get(f[1])
		for _, b := range names(f[2]) {
			for _, d := range names(f[2]) {
				c.seq(a, b, d)
			}
		}
	case "pre": // A preempted by each B at each point
		a := get(f[1])
		pts := c.points(a, num(f[2]))
		for _, b := range names(f[3]) {
			for _, i := range pts {
				c.pre(a, b, i)
			}
		}
	case "multi": // A preempted at many points, round robin over the others
		a := get(f[1])
		pts := c.points(a, num(f[2]))
		others := names(f[3])
		k := num(f[4]) % len(others)
		c.multi(a, pts, append(append([]*c14Op{}, others[k:]...), others[:k]...))
	case "two":
		a := get(f[1])
		for _, b := range names(f[2]) {
			na, nb := len(c.points(a, 1<<30)), len(c.points(b, 1<<30))
			for i := 0; i < na; i++ {
				for j := 0; j < nb; j++ {
					c.two(a, b, i, j)
				}
			}
		}
	case "par":
		runtime.GOMAXPROCS(2)
		a := get(f[1])
		for _, b := range names(f[2]) {
			c.par(a, b)
		}
	default:
		panic("harness: job " + job)
	}
	c.done()
}

func c14Spawn(bin, basef, job string) (result string, r mcRes) {
	cmd := exec.Command(bin, "-test.run", "^TestVerifC14Child$", "-test.timeout", "0")
	cmd.Env = []string{"VERIF_C14=" + job, "VERIF_C14_BASE=" + basef, "HOME=/", "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 history_size=2"}
	out, err := cmd.CombinedOutput()
	stat := false
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "RESULT "):
			result = l[7:]
		case strings.HasPrefix(l, "FAIL "):
			r = mcRes{Outcome: "differ", Fail: l[5:]}
		case strings.HasPrefix(l, "STAT "):
			var e, t, s int64
			fmt.Sscanf(l[5:], "%d %d %d", &e, &t, &s)
			mcExecs.Add(e)
			mcTrans.Add(t)
			for i := int64(0); i < s; i++ {
				mcState(job, i)
			}
			stat = true
		}
	}
	if i := strings.Index(string(out), "WARNING: DATA RACE"); i >= 0 {
		r = mcRes{Outcome: "race", Fail: "two verifications make conflicting unsynchronised accesses: " + clip(string(out[i:]), 1500)}
		return
	}
	if !stat {
		panic(fmt.Sprintf("harness: child %s: %v %s", job, err, clip(string(out), 1500)))
	}
	if r.Fail == "" {
		r = mcRes{Outcome: "same"}
	}
	return
}

func mcDefine(c *mcCheck) {
	c.Direct = true
	c.NoRerun = true
	c.Rule = "each case is a child process that runs a block of histories (or interleavings) and compares every verdict and result with the operation alone in a fresh process, and the inputs with their snapshot"
	c.Assume = []string{"scheduling points are the circuit operations (every call of the frontend API, hint and range check); between two of them the happens-before monitor stands in for finer interleavings",
		"large operations are preempted at a fixed set of their points: the first and last, around hints, and evenly spread ones"}
	ops := c14Ops()
	basef := os.Getenv("VERIF_RESULT") + ".c14base"
	bin := os.Args[0]
	racebin := os.Getenv("VERIF_RACEBIN")

	// baselines, one fresh process each
	base := make([]string, len(ops))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			base[i], _ = c14Spawn(bin, "", "alone|"+ops[i].name)
			<-sem
		}()
	}
	wg.Wait()
	var sb strings.Builder
	for i, o := range ops {
		fmt.Fprintf(&sb, "%s\t%s\n", o.name, base[i])
		got := base[i]
		c.add("alone/"+o.name, func() mcRes {
			mcState(o.name, got)
			if strings.SplitN(got, " ", 2)[0] != o.want {
				return mcRes{Outcome: "differ", Fail: fmt.Sprintf("%s alone in a fresh process gives %q, expected %s", o.name, clip(got, 80), o.want)}
			}
			return mcRes{Outcome: o.want}
		})
	}
	if err := os.WriteFile(basef, []byte(sb.String()), 0o644); err != nil {
		panic(err)
	}
	job := func(id, b string, parts ...string) {
		j := strings.Join(parts, "|")
		c.add(id, func() mcRes { _, r := c14Spawn(b, basef, j); return r })
	}
	var by [5][]string
	for _, o := range ops {
		by[o.cost] = append(by[o.cost], o.name)
	}
	micro, light := by[0], append(append([]string{}, by[0]...), by[1]...)
	c.Bounds["operations"] = map[string]int{"micro": len(by[0]), "light": len(by[1]), "medium": len(by[2]), "heavy": len(by[3]), "aggregate": len(by[4])}
	reps := []string{"fr_mul/ab", "fr_div/bad", "calcmsm/PPk2", "calcadd/PPS", "insthash/inst-last", "squeeze/sq-mid/4", "keccak/m-bad", "sha256/m2", "scalarmul/Pk-bad", "oncurve/PxQy", "range/five/min/max", "kyc/country"}

	join := func(s ...string) string { return strings.Join(s, ",") }
	firsts := func(l []string) (r []string) { // the first operation of every kind
		seen := map[string]bool{}
		for _, b := range l {
			if !seen[c14Kind(b)] {
				seen[c14Kind(b)] = true
				r = append(r, b)
			}
		}
		return
	}
	// (d) happens-before
	if racebin != "" {
		heavy := append(append([]string{}, by[2]...), "pairing/ok", "challenges", "steps/ok")
		all := firsts(light)
		for i, a := range all {
			job("par/"+a, racebin, "par", a, join(all[i:]...))
		}
		for _, a := range []string{"fr_div/bad", "bn256msm/Pk-bad", "calcmsm/PQk", "calcadd/PQQ", "scalarmul/Pk-bad", "add/PQ-bad"} {
			job("par/"+a, racebin, "par", a, join(a, "fr_mul/ab", "calcmsm1/PPk2", "calcadd1/PPS"))
		}
		if !c.Thorough {
			heavy = firsts(heavy)
		}
		for _, a := range heavy {
			bs := append([]string{}, reps...)
			if !c.Thorough {
				bs = []string{"fr_mul/ab", "calcmsm/PPk2", "calcadd/PPS", "insthash/inst-last", "kyc/country"}
			}
			if !c.Thorough && !strings.Contains(a, "/in") && !strings.Contains(a, "/m") && c14Kind(a) != "kyc" && c14Kind(a) != "squeeze" {
				bs = []string{"calcmsm/PPk2"}
			}
			bs = append(bs, a)
			job("par/"+a, racebin, "par", a, join(bs...))
		}
	}
	// (c) heavy first
	job("seq/aggregate/1", bin, "seq", join("aggregate/ok", "aggregate/target", "aggregate/ok"))
	job("seq/aggregate/2", bin, "seq", join("aggregate/aux", "aggregate/ok"))
	job("seq/aggregate/3", bin, "seq", join("aggregate/proof", "aggregate/ok", "aggregate/curve", "aggregate/proof"))
	rounds := 2
	if c.Thorough {
		rounds = 6
	}
	for k := 0; k < rounds; k++ {
		job(fmt.Sprintf("multi/aggregate/ok/%d", k), bin, "multi", "aggregate/ok", "60", join(reps...), fmt.Sprint(k*5))
	}
	if c.Thorough {
		for _, a := range by[4] {
			for _, b := range by[4] {
				if a == by[4][0] || b == by[4][0] {
					job("seq/"+a+"/"+b, bin, "seq", join(a, b, a))
					job("pre/"+a+"/"+b, bin, "pre", a, "4", b)
				}
			}
		}
		for i, a := range by[4][1:] {
			job("multi/"+a, bin, "multi", a, "60", join(reps...), fmt.Sprint(i))
		}
	}
	for _, a := range by[3] {
		l := []string{"seq"}
		for _, b := range by[3] {
			if c.Thorough || c14Kind(a) == c14Kind(b) {
				l = append(l, join(a, b, a))
			}
		}
		job("seq/"+a, bin, l...)
		job("multi/"+a, bin, "multi", a, "40", join(reps...), "0")
		if c.Thorough {
			for k := 0; k < len(reps); k += 3 {
				job(fmt.Sprintf("multi/%s/%d", a, k), bin, "multi", a, "40", join(reps...), fmt.Sprint(k))
			}
		}
	}
	// (a) histories of depth 2 and 3
	for _, a := range by[2] {
		if c.Thorough {
			job("pairs/"+a, bin, "pairs", a, "2")
		} else {
			l := []string{"seq"}
			for i, b := range light {
				if i == 0 || c14Kind(b) != c14Kind(light[i-1]) || strings.HasPrefix(b, "hint/keccak") {
					l = append(l, join(a, b))
				}
			}
			for _, b := range by[2] {
				if c14Kind(a) == c14Kind(b) {
					l = append(l, join(a, b, a))
				}
			}
			for _, b := range reps {
				l = append(l, join(a, b))
			}
			job("kind/"+a, bin, l...)
		}
	}
	for _, a := range light {
		if c.Thorough {
			job("pairs/"+a, bin, "pairs", a, "1")
			continue
		}
		l := []string{"seq"}
		seen := map[string]bool{}
		for _, b := range append(append([]string{}, micro...), firsts(light)...) {
			if !seen[b] {
				seen[b] = true
				l = append(l, join(a, b))
			}
		}
		for _, b := range light {
			if c14Kind(a) == c14Kind(b) {
				l = append(l, join(a, b, a))
			}
		}
		job("pairs/"+a, bin, l...)
	}
	for _, a := range micro {
		bs := []string{}
		for _, b := range micro {
			if c14Kind(b) == c14Kind(a) || c.Thorough {
				bs = append(bs, b)
			}
		}
		for _, b := range []string{"fr_mul/ab", "fr_div/bad", "bn256msm/Pk", "bn256add/PQ-bad", "calcmsm1/PPk2", "calcadd1/PPS", "hint/keccak/inst", "oncurve/PxQy", "range/five/min/max", "notzero/zero", "text/a", "hint/mod/big"} {
			dup := false
			for _, x := range bs {
				dup = dup || x == b
			}
			if !dup {
				bs = append(bs, b)
			}
		}
		job("triples/"+a, bin, "triples", a, join(bs...))
		job("pre/"+a, bin, "pre", a, "60", join(light...))
	}
	// (b) one preemption at circuit operations
	for i, a := range append(append([]string{}, by[1]...), by[2]...) {
		kind := c14Kind(a)
		n := "12"
		if c.Thorough {
			n = "60"
		}
		same := []string{}
		for _, b := range append(append([]string{}, by[1]...), by[2]...) {
			if c14Kind(b) == kind && b != a {
				same = append(same, b)
			}
		}
		if !c.Thorough && i >= len(by[1]) {
			n = "12"
			if len(same) > 2 {
				same = same[:2]
			}
		}
		job("pre/"+a, bin, "pre", a, n, join(append(append([]string{}, same...), "fr_mul/ab", "calcmsm1/PPk2", "calcadd1/PPS", "hint/keccak/inst", "oncurve/PxQy", "range/five/min/max", "fr_pow/a/five")...))
	}
	for _, a := range micro {
		kind := c14Kind(a)
		bs := []string{"fr_mul/ab", "fr_div/bad", "bn256msm/Pk2"}
		for _, b := range micro {
			if c14Kind(b) == kind || c.Thorough {
				bs = append(bs, b)
			}
		}
		job("two/"+a, bin, "two", a, join(bs...))
	}
}
