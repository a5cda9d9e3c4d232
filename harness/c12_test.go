//go:build go1.22

package main

// C12: the public vector of every circuit.  The leaves of the circuit values
// are enumerated by reflection (declaration order), given pairwise distinct
// values, and each is changed alone; the public vector of the witness that
// the proving system would use is compared with the declared list.

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	bfr "github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/consensys/gnark/std/signature/ecdsa"
)

// the repository's range circuit has no Define of its own
type c12Range struct {
	RangeCheckCircuit
}

func (c *c12Range) Define(api frontend.API) error { return VerifyRangeCheck(api, c.X, c.Min, c.Max) }

type c12Leaf struct {
	path string
	v    reflect.Value
}

var c12Var = reflect.TypeOf((*frontend.Variable)(nil)).Elem()

func c12Walk(v reflect.Value, path string, out *[]c12Leaf) {
	if v.Type() == c12Var {
		*out = append(*out, c12Leaf{path, v})
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		c12Walk(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			c12Walk(v.Field(i), path+"."+f.Name, out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c12Walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

func c12Vec(a frontend.Circuit, publicOnly bool) ([]*big.Int, error) {
	var opts []frontend.WitnessOption
	if publicOnly {
		opts = append(opts, frontend.PublicOnly())
	}
	w, err := frontend.NewWitness(a, mcQ, opts...)
	if err != nil {
		return nil, err
	}
	if !publicOnly {
		if w, err = w.Public(); err != nil {
			return nil, err
		}
	}
	mcExecs.Add(1)
	var r []*big.Int
	for _, e := range w.Vector().(bfr.Vector) {
		r = append(r, e.BigInt(new(big.Int)))
	}
	mcTrans.Add(int64(len(r)) + 1)
	return r, nil
}

type c12Shape struct {
	name   string
	mk     func() frontend.Circuit
	public []string // declared public leaves, in order ("x*" = every leaf with the prefix, in order)
	leaves int      // expected number of leaves
}

func c12Shapes(thorough bool) []c12Shape {
	vars := func(n int) []frontend.Variable { return make([]frontend.Variable, n) }
	u8 := func(n int) []uints.U8 { return make([]uints.U8, n) }
	var s []c12Shape
	_, _, g1, _ := bn254.Generators()
	for _, n := range []int{0, 1, 2, 3, 4, 5, 8} {
		for _, m := range []int{0, 1, 2} {
			s = append(s, c12Shape{fmt.Sprintf("aggregator/%d/%d", n, m), func() frontend.Circuit {
				return &AggregatorCircuit{Proof: vars(106), VerifyInst: vars(m), Aux: vars(21), TargetInst: vars(n)}
			}, []string{".TargetInst[*"}, 106 + 21 + n + m})
		}
	}
	max := 3
	if thorough {
		max = 6
	}
	for a := 0; a <= max; a++ {
		for b := 0; b <= max; b++ {
			for k := 0; k <= max; k++ {
				s = append(s, c12Shape{fmt.Sprintf("kyc/%d/%d/%d", a, b, k), func() frontend.Circuit {
					e := func() emulated.Element[emulated.Secp256k1Fr] { return emulated.ValueOf[emulated.Secp256k1Fr](1) }
					return &Circuit{Signature: ecdsa.Signature[emulated.Secp256k1Fr]{R: e(), S: e()}, KycHash: e(),
						ConditionHash: Conditions{Country: vars(a), Level: vars(b), Time: vars(k)}}
				}, []string{".ConditionHash.Age[*", ".ConditionHash.Country[*", ".ConditionHash.Level[*", ".ConditionHash.Time[*"}, 12 + 4 + 2 + a + b + k})
			}
		}
	}
	for _, n := range []int{0, 1, 5, 32} {
		s = append(s, c12Shape{fmt.Sprintf("keccak/%d", n), func() frontend.Circuit {
			return &Keccak256Circuit{InputValue: u8(n), HashValue: u8(32)}
		}, nil, n + 32})
		s = append(s, c12Shape{fmt.Sprintf("sha256/%d", n), func() frontend.Circuit {
			return &Sha256Circuit{InputValue: u8(n), HashValue: u8(32)}
		}, nil, n + 32})
	}
	s = append(s, c12Shape{"range", func() frontend.Circuit { return &c12Range{} }, []string{".RangeCheckCircuit.X"}, 3})
	s = append(s, c12Shape{"oncurve", func() frontend.Circuit { return &CheckOnCurveCircuit{} }, nil, 2})
	s = append(s, c12Shape{"oncurvevar", func() frontend.Circuit { return &CheckOnCurveCircuitVar{} }, nil, 2})
	s = append(s, c12Shape{"msm256", func() frontend.Circuit { return &BN256MsmCircuit{&g1, bU(2), &g1} }, nil, 0})
	s = append(s, c12Shape{"add256", func() frontend.Circuit { return &BN256AddCircuit{&g1, &g1, &g1} }, nil, 0})
	s = append(s, c12Shape{"scalarmul", func() frontend.Circuit { return &BN254ScalarMul{} }, nil, 5})
	s = append(s, c12Shape{"add", func() frontend.Circuit { return &BN254Add{} }, nil, 6})
	for n := 0; n <= 3; n++ {
		s = append(s, c12Shape{fmt.Sprintf("multiscalar/%d", n), func() frontend.Circuit {
			p := sw_emulated.AffinePoint[emparams.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](1), Y: emulated.ValueOf[emparams.BN254Fp](2)}
			q := func() sw_emulated.AffinePoint[emparams.BN254Fp] {
				x := p
				x.X.Limbs = append([]frontend.Variable{}, p.X.Limbs...)
				x.Y.Limbs = append([]frontend.Variable{}, p.Y.Limbs...)
				return x
			}
			c := &MultiScalarMul[emparams.BN254Fp, emparams.BN254Fr]{Res: q()}
			for i := 0; i < n; i++ {
				c.Points = append(c.Points, q())
				c.Scalars = append(c.Scalars, emulated.ValueOf[emparams.BN254Fr](3))
			}
			return c
		}, nil, 8 + 12*n})
	}
	s = append(s, c12Shape{"pairing", func() frontend.Circuit {
		_, _, g1, g2 := bn254.Generators()
		a, b := sw_bn254.NewG1Affine(g1), sw_bn254.NewG1Affine(g1)
		x, y := sw_bn254.NewG2Affine(g2), sw_bn254.NewG2Affine(g2)
		return &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&a, &b}, G2Points: [2]*sw_bn254.G2Affine{&x, &y}}
	}, nil, 2*8 + 2*16})
	return s
}

// c12Expect lists the declared public leaves in the declared order.
func c12Expect(sh c12Shape, ls []c12Leaf) []int {
	var idx []int
	for _, p := range sh.public {
		for i, l := range ls {
			if l.path == p || strings.HasSuffix(p, "*") && strings.HasPrefix(l.path, p[:len(p)-1]) {
				idx = append(idx, i)
			}
		}
	}
	return idx
}

func c12Set(ls []c12Leaf, i int, x *big.Int) {
	ls[i].v.Set(reflect.ValueOf(frontend.Variable(cp(x))))
}

func c12Same(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func mcDefine(c *mcCheck) {
	c.Direct = true
	c.Rule = "one case per (circuit, list sizes): with pairwise distinct values, then every leaf changed alone over an alphabet, the public vector (full witness and public-only witness) is the declared leaves in order"
	c.Assume = []string{"gnark's witness construction (frontend.NewWitness), the one the proving flow uses"}
	alpha := []*big.Int{bU(0), bU(1), bI("340282366920938463463374607431768211456"), new(big.Int).Sub(mcQ, bU(1))}
	shapes := c12Shapes(c.Thorough)
	c.Bounds["shapes"] = len(shapes)
	c.Bounds["leaf_values"] = len(alpha)
	for _, sh := range shapes {
		c.add("vector/"+sh.name, func() mcRes {
			circ := sh.mk()
			var ls []c12Leaf
			c12Walk(reflect.ValueOf(circ), "", &ls)
			if sh.leaves >= 0 && len(ls) != sh.leaves {
				return mcRes{Outcome: "shape", Fail: fmt.Sprintf("the circuit has %d inputs, %d declared", len(ls), sh.leaves)}
			}
			idx := c12Expect(sh, ls)
			base := make([]*big.Int, len(ls))
			set := func(i int) {
				base[i] = bU(uint64(1000 + i))
				c12Set(ls, i, base[i])
			}
			for i := range ls {
				set(i)
			}
			check := func(what string) string {
				want := make([]*big.Int, len(idx))
				for j, i := range idx {
					want[j] = base[i]
				}
				for _, po := range []bool{false, true} {
					got, err := c12Vec(circ, po)
					if err != nil {
						return what + ": " + err.Error()
					}
					if !c12Same(got, want) {
						return fmt.Sprintf("%s: public vector %v, declared conditions give %v", what, got, want)
					}
					mcState(sh.name, got)
				}
				return ""
			}
			if f := check("distinct values"); f != "" {
				return mcRes{Outcome: "differs", Fail: f}
			}
			for i := range ls {
				al := alpha
				if len(ls) > 100 && !c.Thorough {
					al = alpha[3:]
				}
				for _, x := range al {
					base[i] = x
					c12Set(ls, i, x)
					if f := check(ls[i].path + " changed"); f != "" {
						return mcRes{Outcome: "differs", Fail: f}
					}
				}
				set(i)
			}
			return mcRes{Outcome: "same", State: sh.name}
		})
	}
	// the compiled systems expose as many public values as declared
	for _, plonk := range []bool{true, false} {
		name := map[bool]string{true: "scs", false: "r1cs"}[plonk]
		for _, sh := range shapes {
			if !strings.HasPrefix(sh.name, "range") && !strings.HasPrefix(sh.name, "keccak/5") && !strings.HasPrefix(sh.name, "sha256/5") &&
				sh.name != "multiscalar/1" && sh.name != "kyc/1/0/0" && sh.name != "kyc/3/2/1" && !(c.Thorough && sh.name == "pairing") {
				continue
			}
			c.addConf("compiled/"+name+"/"+sh.name, func() mcRes {
				circ := sh.mk()
				var ls []c12Leaf
				c12Walk(reflect.ValueOf(circ), "", &ls)
				idx := c12Expect(sh, ls)
				ccs := mcCompile(mcQ, plonk, sh.mk())
				pub := ccs.GetNbPublicVariables()
				if !plonk {
					pub-- // the constant wire
				}
				mcTrans.Add(int64(ccs.GetNbConstraints()))
				if pub != len(idx) || ccs.GetNbSecretVariables() != len(ls)-len(idx) {
					return mcRes{Outcome: "differs", Fail: fmt.Sprintf("compiled system has %d public and %d secret inputs, declared %d and %d", pub, ccs.GetNbSecretVariables(), len(idx), len(ls)-len(idx))}
				}
				return mcRes{Outcome: "same"}
			})
		}
	}
}
