From 633a196a665d2d1243d695aeb3462583343e765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 1/5] fix: bind the hashed instance bytes to the instance
 values

---
 circuit.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/circuit.go b/circuit.go
index 4e8309a..0b8989d 100644
--- a/circuit.go
+++ b/circuit.go
@@ -146,6 +146,21 @@ func VerifyInstanceHash(api frontend.API, inputs []frontend.Variable) (frontend.
 		inputU8Array = append(inputU8Array, binaryF.ByteValueOf(result[i]))
 	}
 
+	// the hashed bytes come from the hint: bind them to the inputs, each of
+	// which is hashed as a 32-byte big endian word
+	for i := range inputs {
+		inputBits := api.ToBinary(inputs[i])
+		word := result[33+32*i : 33+32*(i+1)]
+		for j := range word {
+			low := 8 * (len(word) - 1 - j)
+			high := low + 8
+			if high > len(inputBits) {
+				high = len(inputBits)
+			}
+			api.AssertIsEqual(word[j], api.FromBinary(inputBits[low:high]...))
+		}
+	}
+
 	//input := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	//hashVar := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	err = VerifyKeccak256(api, inputU8Array, hashU8Array)
-- 
2.43.0


From d783b559d5dd3a4faa6b0d929ba1541deed6bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 2/5] fix: do not overwrite the caller's point in the bn256 msm
 and add circuits

---
 aggregator_lib_circuit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index e0e9d34..d5ef847 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -55,7 +55,7 @@ func VerifyBN256Msm(
 	scalar *big.Int,
 	res *bn254.G1Affine,
 ) error {
-	g1Point = g1Point.ScalarMultiplication(g1Point, scalar)
+	g1Point = new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)
 	//log.Println("VerifyBN256Msm", g1Point.String(), res.String())
 	api.AssertIsEqual(g1Point.X, res.X)
 	api.AssertIsEqual(g1Point.Y, res.Y)
@@ -85,7 +85,7 @@ func VerifyBN256Add(
 	g11Point *bn254.G1Affine,
 	res *bn254.G1Affine,
 ) error {
-	sum := g10Point.Add(g10Point, g11Point)
+	sum := new(bn254.G1Affine).Add(g10Point, g11Point)
 	api.AssertIsEqual(sum.X, res.X)
 	api.AssertIsEqual(sum.Y, res.Y)
 	return nil
-- 
2.43.0


From a534b25d006eb237b4a52a69f3fdc29b8779cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 3/5] fix: register the modular reduction hint with the solver

---
 aggregator_lib_circuit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index d5ef847..e29541e 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -30,6 +30,7 @@ func init() {
 	solver.RegisterHint(MsmHint)
 	solver.RegisterHint(AddHint)
 	solver.RegisterHint(Keccak256Hint)
+	solver.RegisterHint(modHint)
 }
 
 // BN256MsmCircuit is the circuit that performs a bn256 pairing operation
-- 
2.43.0


From 80b399a9fa6ac92349a650692e61c2b86182c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 4/5] fix: fr_pow with exponent zero is one

---
 fr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fr.go b/fr.go
index 20aefb9..9bc68e2 100644
--- a/fr.go
+++ b/fr.go
@@ -40,6 +40,9 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 }
 
 func fr_pow(api frontend.API, a frontend.Variable, power frontend.Variable) frontend.Variable {
+	if power.(*big.Int).Sign() == 0 {
+		return new(big.Int).SetUint64(1)
+	}
 	res := a
 	for i := new(big.Int).SetUint64(1); i.Cmp(power.(*big.Int)) < 0; {
 		i = i.Add(i, big.NewInt(1))
-- 
2.43.0


From e2efe850834ffac39ab066fe90403d6166395cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 5/5] fix: range and non-zero gadgets hold for constant
 operands under R1CS

---
 aggregator_lib_circuit.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index e29541e..5db495e 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -601,7 +601,9 @@ func VerifyNotZero(api frontend.API, x frontend.Variable) error {
 	//if err != nil {
 	//	return err
 	//}
-	api.AssertIsLessOrEqual(1, x)
+	// not AssertIsLessOrEqual(1, x): with a constant left operand the R1CS
+	// front end adds no effective constraint for it
+	api.AssertIsDifferent(x, 0)
 	//api.AssertIsEqual(api.Mul(x, notZero[0]), x)
 	return nil
 }
@@ -613,7 +615,17 @@ type RangeCheckCircuit struct {
 }
 
 func VerifyRangeCheck(api frontend.API, x frontend.Variable, Min frontend.Variable, Max frontend.Variable) error {
-	api.AssertIsLessOrEqual(Min, x)
-	api.AssertIsLessOrEqual(x, Max)
+	assertLessOrEqual(api, Min, x)
+	assertLessOrEqual(api, x, Max)
 	return nil
 }
+
+// assertLessOrEqual asserts a <= b. The R1CS front end adds no effective
+// constraint for a constant left operand, so that case is mirrored:
+// a <= b if and only if -1-b <= -1-a.
+func assertLessOrEqual(api frontend.API, a frontend.Variable, b frontend.Variable) {
+	if _, isConst := api.Compiler().ConstantValue(a); isConst {
+		a, b = api.Sub(-1, b), api.Sub(-1, a)
+	}
+	api.AssertIsLessOrEqual(a, b)
+}
-- 
2.43.0

