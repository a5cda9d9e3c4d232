//go:build go1.22

package main

// C18: compilation.  Fresh processes (differing in environment) compile every
// circuit once and print the digest of the serialized system; this process
// then compiles each circuit with every placeholder assignment after every
// preceding operation sequence and compares the bytes.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
)

type c18G struct {
	A []frontend.Variable
	f func(api frontend.API, a []frontend.Variable) error
}

func (g *c18G) Define(api frontend.API) error { return g.f(api, g.A) }

type c18Shape struct {
	name  string
	heavy int // 0: microseconds, 1: about a second, 2: many seconds
	mk    func() frontend.Circuit
	fails bool // does not compile (known finding of C13): the refusal is compared
}

func c18Shapes() []c18Shape {
	vars := func(n int) []frontend.Variable { return make([]frontend.Variable, n) }
	u8 := func(n int) []uints.U8 { return make([]uints.U8, n) }
	gd := func(n int, f func(api frontend.API, a []frontend.Variable) error) func() frontend.Circuit {
		return func() frontend.Circuit { return &c18G{A: vars(n), f: f} }
	}
	eq := func(api frontend.API, v frontend.Variable, w frontend.Variable) error {
		api.AssertIsEqual(v, w)
		return nil
	}
	s := []c18Shape{
		{"range", 0, gd(3, func(api frontend.API, a []frontend.Variable) error { return VerifyRangeCheck(api, a[0], a[1], a[2]) }), false},
		{"range-const", 0, gd(2, func(api frontend.API, a []frontend.Variable) error { return VerifyRangeCheck(api, a[0], 18, a[1]) }), false},
		{"notzero", 0, gd(1, func(api frontend.API, a []frontend.Variable) error { return VerifyNotZero(api, a[0]) }), false},
		{"fr_add", 0, gd(3, func(api frontend.API, a []frontend.Variable) error { return eq(api, fr_add(api, a[0], a[1]), a[2]) }), false},
		{"fr_sub", 0, gd(3, func(api frontend.API, a []frontend.Variable) error { return eq(api, fr_sub(api, a[0], a[1]), a[2]) }), false},
		{"fr_mul", 0, gd(3, func(api frontend.API, a []frontend.Variable) error { return eq(api, fr_mul(api, a[0], a[1]), a[2]) }), false},
		{"fr_div", 0, gd(3, func(api frontend.API, a []frontend.Variable) error {
			return eq(api, fr_div(api, a[0], a[1], a[2]), a[2])
		}), false},
		{"fr_neg", 0, gd(2, func(api frontend.API, a []frontend.Variable) error { return eq(api, fr_neg(api, a[0]), a[1]) }), false},
		{"fr_pow", 0, gd(2, func(api frontend.API, a []frontend.Variable) error { return eq(api, fr_pow(api, a[0], bU(9)), a[1]) }), false},
		{"pack", 0, gd(5, func(api frontend.API, a []frontend.Variable) error {
			return eq(api, PackUInt8Variables(api, a[:4]...), a[4])
		}), false},
		{"oncurvevar", 0, func() frontend.Circuit { return &CheckOnCurveCircuitVar{} }, false},
		{"instance", 1, gd(2, func(api frontend.API, a []frontend.Variable) error {
			h, err := VerifyInstanceHash(api, a[:1])
			if err != nil {
				return err
			}
			return eq(api, mod(api, h), a[1])
		}), false},
		{"keccak5", 1, func() frontend.Circuit { return &Keccak256Circuit{u8(5), u8(32)} }, false},
		{"keccak136", 2, func() frontend.Circuit { return &Keccak256Circuit{u8(136), u8(32)} }, false},
		{"sha5", 1, func() frontend.Circuit { return &Sha256Circuit{u8(5), u8(32)} }, false},
		{"sha64", 1, func() frontend.Circuit { return &Sha256Circuit{u8(64), u8(32)} }, false},
	}
	for _, n := range []int{1, 2, 3} {
		s = append(s, c18Shape{fmt.Sprintf("msm%d", n), 1, func() frontend.Circuit {
			return &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{Points: make([]sw_emulated.AffinePoint[emparams.BN254Fp], n), Scalars: make([]emulated.Element[emparams.BN254Fr], n)}
		}, false})
	}
	for _, n := range [][3]int{{1, 0, 0}, {5, 1, 1}, {2, 3, 1}} {
		s = append(s, c18Shape{fmt.Sprintf("kyc%d%d%d", n[0], n[1], n[2]), 1, func() frontend.Circuit {
			return &Circuit{ConditionHash: Conditions{Country: vars(n[0]), Level: vars(n[1]), Time: vars(n[2])}}
		}, false})
	}
	s = append(s, c18Shape{"pairing", 2, func() frontend.Circuit {
		_, _, g1, g2 := bn254.Generators()
		a, b := sw_bn254.NewG1Affine(g1), sw_bn254.NewG1Affine(g1)
		x, y := sw_bn254.NewG2Affine(g2), sw_bn254.NewG2Affine(g2)
		return &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&a, &b}, G2Points: [2]*sw_bn254.G2Affine{&x, &y}}
	}, false})
	for n, mk := range map[string]func() frontend.Circuit{
		"aggregator": func() frontend.Circuit {
			return &AggregatorCircuit{Proof: vars(106), VerifyInst: vars(1), Aux: vars(21), TargetInst: vars(4)}
		},
		"scalarmul": func() frontend.Circuit { return &BN254ScalarMul{} },
		"add":       func() frontend.Circuit { return &BN254Add{} },
	} {
		h := 0
		if n == "aggregator" {
			h = 1
		}
		s = append(s, c18Shape{n, h, mk, true})
	}
	sort.SliceStable(s, func(i, j int) bool {
		return s[i].heavy > s[j].heavy || s[i].heavy == s[j].heavy && s[i].name < s[j].name
	})
	return s
}

// c18Digest compiles and serializes; a refusal is a digest too.
func c18Digest(plonk bool, circ frontend.Circuit) (d string) {
	defer func() {
		if p := recover(); p != nil {
			d = fmt.Sprintf("refused: %T", p)
		}
	}()
	b := frontend.NewBuilder(r1cs.NewBuilder)
	if plonk {
		b = scs.NewBuilder
	}
	ccs, err := frontend.Compile(mcQ, b, circ)
	if err != nil {
		return "refused: " + oneLine(err)
	}
	h := sha256.New()
	w := bufio.NewWriterSize(h, 1<<16)
	if _, err = ccs.WriteTo(w); err != nil {
		panic("harness: serialize: " + err.Error())
	}
	w.Flush()
	mcTrans.Add(int64(ccs.GetNbConstraints()))
	mcExecs.Add(1)
	return fmt.Sprintf("%d constraints, %d public, %d secret, %x", ccs.GetNbConstraints(), ccs.GetNbPublicVariables(), ccs.GetNbSecretVariables(), h.Sum(nil))
}

// TestVerifC18Child is the fresh process.
func TestVerifC18Child(t *testing.T) {
	only := os.Getenv("VERIF_C18")
	if only == "" {
		t.Skip()
	}
	f := strings.Split(only, "/")
	for _, s := range c18Shapes() {
		if s.name == f[0] {
			fmt.Printf("\nDIGEST %s\n", c18Digest(f[1] == "scs", s.mk()))
		}
	}
}

func c18Child(id string, variant int) string {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifC18Child$")
	cmd.Env = append([]string{}, "VERIF_C18="+id, "HOME=/", "PATH=/usr/bin:/bin")
	if variant == 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "TZ=Asia/Tokyo", "LANG=C", "GODEBUG=", "USER=nobody")
	}
	out, err := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "DIGEST ") {
			return l[7:]
		}
	}
	panic(fmt.Sprintf("harness: child %s: %v %s", id, err, clip(string(out), 400)))
}

// c18Fill sets every leaf that exists (placeholders are ignored by a sound compilation).
func c18Fill(circ frontend.Circuit, f func(i int) frontend.Variable) {
	tv := reflect.TypeOf((*frontend.Variable)(nil)).Elem()
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == tv {
			v.Set(reflect.ValueOf(f(n)))
			n++
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(circ))
}

// c18Slices replaces every slice of the circuit's own fields (not those of
// gnark's emulated elements) by one that the callback makes of it.
func c18Slices(circ frontend.Circuit, f func(v reflect.Value)) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if strings.HasPrefix(v.Type().Name(), "Element[") {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.CanSet() {
				f(v)
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(circ))
}

type c18Fills struct {
	name string
	fill func(circ frontend.Circuit)
}

func c18Placeholders() []c18Fills {
	rnd := refRand(77)
	rs := make([]*big.Int, 64)
	for i := range rs {
		rs[i] = rnd()
	}
	c := func(x int64) func(frontend.Circuit) {
		return func(k frontend.Circuit) { c18Fill(k, func(int) frontend.Variable { return big.NewInt(x) }) }
	}
	return []c18Fills{
		{"unset", func(frontend.Circuit) {}},
		{"zero", c(0)},
		{"one", c(1)},
		{"random", func(k frontend.Circuit) { c18Fill(k, func(i int) frontend.Variable { return cp(rs[i%64]) }) }},
		{"int", func(k frontend.Circuit) { c18Fill(k, func(i int) frontend.Variable { return 300 - i%2 }) }},
		{"string", func(k frontend.Circuit) { c18Fill(k, func(i int) frontend.Variable { return fmt.Sprint(i) }) }},
		{"capacity", func(k frontend.Circuit) { // lists with spare room, empty lists that exist
			c18Slices(k, func(v reflect.Value) {
				n := reflect.MakeSlice(v.Type(), v.Len()+1, 2*v.Len()+7)
				reflect.Copy(n, v)
				if n.Type() == reflect.TypeOf([]frontend.Variable{}) {
					n.Index(v.Len()).Set(reflect.ValueOf(frontend.Variable(big.NewInt(9))))
				}
				v.Set(n.Slice(0, v.Len()))
			})
		}},
		{"kyc", func(k frontend.Circuit) {
			if y, ok := k.(*Circuit); ok { // satisfied KYC conditions
				y.Kyc = KycType{35, 300, 3, 200}
				y.ConditionHash.Age = [2]frontend.Variable{18, 50}
				for i := range y.ConditionHash.Country {
					y.ConditionHash.Country[i] = 300
				}
			}
		}},
	}
}

type c18Hist struct {
	name string
	run  func()
	cost int
}

func c18Histories(shapes []c18Shape) []c18Hist {
	by := map[string]c18Shape{}
	for _, s := range shapes {
		by[s.name] = s
	}
	comp := func(n string, plonk bool) func() { return func() { c18Digest(plonk, by[n].mk()) } }
	fx := refFixture()
	return []c18Hist{
		{"none", func() {}, 0},
		{"compile-range-scs", comp("range", true), 0},
		{"compile-mul-r1cs", comp("fr_mul", false), 0},
		{"refused-compile", func() { c18Digest(true, &CheckOnCurveCircuit{}); c18Digest(false, &BN254Add{}) }, 0},
		{"run-accept", func() {
			mcExec(func(api frontend.API) error { return VerifyRangeCheck(api, bU(35), bU(18), bU(50)) }, nil)
			g := refG()
			x, y := ptXY(g)
			mcExec(func(api frontend.API) error { _, e := CalcVerifyBN256Msm(api, x, y, bU(7)); return e }, nil)
		}, 0},
		{"run-reject", func() {
			mcExec(func(api frontend.API) error { return VerifyCheckOnCurve(api, bU(1), bU(1)) }, nil)
			mcExec(func(api frontend.API) error { fr_div(api, bU(1), bU(0), bU(5)); return nil }, nil)
			mcExec(func(api frontend.API) error { _, e := CalcVerifyBN256Add(api, bU(1), bU(1), bU(2), bU(2)); return e }, nil)
		}, 0},
		{"aggregate", func() { mcExec(fx.circuit().Define, nil) }, 2},
		{"compile-keccak", comp("keccak5", true), 1},
		{"compile-kyc", comp("kyc511", false), 1},
	}
}

func mcDefine(c *mcCheck) {
	debug.SetGCPercent(100)
	debug.SetMemoryLimit(6 << 30)
	c.Direct = true
	c.NoRerun = true
	c.Rule = "one case per (circuit, front end, placeholder, preceding operations): serialized system identical to that of a fresh process"
	c.Assume = []string{"gnark's serialization of constraint systems is injective", "emulated elements are left unset in the compiled value: gnark treats one built by ValueOf as a constant, which is another circuit", "iteration orders of Go maps and scheduling inside a compilation are not controlled: each compilation is repeated across placeholders and histories instead"}
	shapes := c18Shapes()
	base := map[string]func() string{}
	fe := map[bool]string{true: "scs", false: "r1cs"}
	for _, s := range shapes {
		for _, plonk := range []bool{true, false} {
			id := s.name + "/" + fe[plonk]
			base[id] = sync.OnceValue(func() string { return c18Child(id, 0) })
			if s.heavy == 2 && s.name == "pairing" && !c.Thorough {
				continue
			}
			c.add("fresh/"+id, func() mcRes {
				a, b := base[id](), c18Child(id, 1)
				mcState(id, a)
				if a != b {
					return mcRes{Outcome: "differ", Fail: id + ": two fresh processes compile different systems: " + a + " / " + b}
				}
				return mcRes{Outcome: strings.SplitN(a, " ", 2)[0][:1]}
			})
		}
	}
	for i := range c.Cases {
		run := c.Cases[i].Run
		c.Cases[i].Run = func() mcRes {
			r := run()
			if r.Outcome != "differ" && r.Outcome != "" {
				if r.Outcome == "r" {
					r.Outcome = "refused"
				} else {
					r.Outcome = "same"
				}
			}
			return r
		}
	}
	ph := c18Placeholders()
	hs := c18Histories(shapes)
	one := func(s c18Shape, plonk bool, p c18Fills, h ...c18Hist) mcRes {
		id := s.name + "/" + fe[plonk]
		for _, x := range h {
			x.run()
		}
		circ := s.mk()
		p.fill(circ)
		d, b := c18Digest(plonk, circ), base[id]()
		mcState(id, d, p.name)
		if s.fails && strings.HasPrefix(d, "refused") && strings.HasPrefix(b, "refused") {
			return mcRes{Outcome: "refused"}
		}
		if d != b {
			return mcRes{Outcome: "differ", Fail: fmt.Sprintf("%s with placeholders %q: %s, a fresh process gives %s", id, p.name, d, b)}
		}
		return mcRes{Outcome: "same"}
	}
	c.Bounds["circuits"], c.Bounds["placeholders"], c.Bounds["operations"] = len(shapes), len(ph), len(hs)
	c.Bounds["history_depth"] = "2 for gadget-sized circuits, 1 for the others"
	for _, s := range shapes {
		for _, plonk := range []bool{true, false} {
			id := s.name + "/" + fe[plonk]
			if s.heavy == 0 {
				for _, h := range hs {
					if h.cost == 2 && !c.Thorough {
						continue
					}
					if h.cost > 0 && !c.Thorough && s.name != "range" && s.name != "fr_mul" {
						continue
					}
					c.add("history/"+id+"/"+h.name, func() mcRes {
						var r mcRes
						if h.cost > 0 {
							h.run()
						}
						for _, p := range ph {
							if h.cost > 0 {
								r = one(s, plonk, p)
							} else {
								r = one(s, plonk, p, h)
							}
							if r.Fail != "" {
								r.Fail = "after " + h.name + ": " + r.Fail
								return r
							}
							for _, h2 := range hs {
								if h2.cost == 0 && h.cost == 0 {
									if r = one(s, plonk, p, h, h2); r.Fail != "" {
										r.Fail = "after " + h.name + ", " + h2.name + ": " + r.Fail
										return r
									}
								}
							}
						}
						return r
					})
				}
				continue
			}
			if s.name == "pairing" && (!c.Thorough || plonk) {
				continue
			}
			for i, p := range ph {
				if p.name == "kyc" && !strings.HasPrefix(s.name, "kyc") {
					continue
				}
				if !c.Thorough && (s.heavy == 2 && i%3 != 1 || s.heavy == 1 && !strings.HasPrefix(s.name, "kyc5") && !strings.HasPrefix(s.name, "msm1") && i%2 == 0) {
					continue
				}
				for j, h := range hs {
					if !c.Thorough && j != (i*2+len(s.name))%len(hs) || h.cost == 2 && i > 0 {
						continue
					}
					if c.Thorough && (s.heavy == 2 && j%8 != i%8 || s.heavy == 1 && (i+j)%4 != 1) {
						continue
					}
					c.add(fmt.Sprintf("placeholder/%s/%s/%s", id, p.name, h.name), func() mcRes {
						r := one(s, plonk, p, h)
						if r.Fail != "" {
							r.Fail = "after " + h.name + ": " + r.Fail
						}
						return r
					})
				}
			}
		}
	}
}
