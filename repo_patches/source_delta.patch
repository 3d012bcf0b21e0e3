From bb201352f300a70c51a7542741a1d5571781a76f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 01/18] fix: zero is not negative in IntGadget.Abs

---
 gadget/gadget.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..5afe350 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -90,7 +90,9 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 		v,
 		f.api.Neg(v),
 	)
-	f.AssertBitLength(abs, length, Loose)
+	// If `is_positive` is false, `v` must be strictly negative, i.e., `abs - 1` must be non-negative.
+	// Otherwise, both values of `is_positive` would be acceptable when `v` is zero.
+	f.AssertBitLength(f.api.Sub(abs, f.api.Sub(big.NewInt(1), is_positive)), length, Loose)
 	return abs, is_positive
 }
 
-- 
2.43.0


From 4a5e912b85f3b3baf9bc2b3f89b52dd4242689d4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 02/18] fix: power of two lookups must not borrow from the
 exponent

---
 gadget/gadget.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5afe350..5cfd7b7 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -127,8 +127,9 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 		panic(err)
 	}
 	result := outputs[0]
-	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	// Make sure the result is small. The check has to be tight, since otherwise `result` could borrow
+	// from `exponent` in `exponent || result`.
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForUnknownRange)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From a5f2fb462fbeee6a93e09eeb4d0965f7fb62272d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 03/18] fix: circuits without power of two lookups are provable

---
 gadget/gadget.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5cfd7b7..6900424 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,10 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	// The lookup argument requires at least one query
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
-- 
2.43.0


From fb435331fb809f1e50e7900971117d8a95b669eb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 04/18] fix: cancellation of numbers in the largest binade is
 zero, not infinity

---
 float/float.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index 3977898..4b12ae8 100644
--- a/float/float.go
+++ b/float/float.go
@@ -280,9 +280,15 @@ func (f *Context) fixOverflow(
 	mantissa_overflow := f.Gadget.IsEq(mantissa, new(big.Int).Lsh(big.NewInt(1), f.M+1))
 	// If mantissa overflows, we need to increment the exponent
 	exponent = f.Api.Add(exponent, mantissa_overflow)
-	// Check if exponent overflows. If so, the result is abnormal.
+	mantissa_is_not_zero := f.Api.Sub(big.NewInt(1), mantissa_is_zero)
+	f.Api.Compiler().MarkBoolean(mantissa_is_not_zero)
+	// Check if exponent overflows. If so, the result is abnormal, unless the mantissa is zero, e.g.,
+	// when adding two large numbers that cancel each other.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.Api.Or(
+		f.Api.And(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), mantissa_is_not_zero),
+		input_is_abnormal,
+	)
 
 	return f.Api.Select(
 			f.Api.Or(mantissa_overflow, is_abnormal),
-- 
2.43.0


From d279d73b6415728da9db8d6fd354514657f5f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 05/18] fix: the sign of an exact zero sum is positive

---
 float/float.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index 4b12ae8..2f0788b 100644
--- a/float/float.go
+++ b/float/float.go
@@ -575,11 +575,13 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`.
+	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`,
+	// unless the mantissa is zero, in which case `mantissa_ge_0` is not constrained and the sign of
+	// the result is positive.
 	sign := f.Api.Select(
 		f.Gadget.IsEq(x.Sign, y.Sign),
 		x.Sign,
-		mantissa_lt_0,
+		f.Api.And(mantissa_lt_0, mantissa_is_not_zero),
 	)
 
 	mantissa = f.round(
-- 
2.43.0


From d94f31a2e7e57e0e1658609b5603661f00b517c0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 06/18] fix: report proofs that do not verify

---
 util/util.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/util/util.go b/util/util.go
index bc0b627..ba63a19 100644
--- a/util/util.go
+++ b/util/util.go
@@ -516,9 +516,11 @@ func BenchProof(b *testing.B, circuit, assignment frontend.Circuit) {
 		require.NoError(b, err)
 		fmt.Println("groth16 proved", id, "in", time.Now().UnixMicro()-start, "μs")
 
-		publicWitness, _ := fullWitness.Public()
+		publicWitness, err := fullWitness.Public()
+		require.NoError(b, err)
 
-		groth16.Verify(proof, vk, publicWitness)
+		err = groth16.Verify(proof, vk, publicWitness)
+		require.NoError(b, err)
 	}
 }
 
@@ -588,7 +590,7 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		// Verifier step with time measurement
 		start = time.Now().UnixMicro()
 		publicWitness, _ := fullWitness.Public()
-		groth16.Verify(proof, vk, publicWitness)
+		err = groth16.Verify(proof, vk, publicWitness)
 		if err != nil {
 			b.Errorf("Failed in verifying: %v", err)
 			return err
@@ -744,7 +746,11 @@ func BenchProofMemoryGroth16(b *testing.B, circuit, assignment frontend.Circuit)
 	}
 
 	publicWitness, _ := fullWitness.Public()
-	groth16.Verify(proof, vk, publicWitness)
+	err = groth16.Verify(proof, vk, publicWitness)
+	if err != nil {
+		b.Errorf("Failed in verifying: %v", err)
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From 26895e965731119b03007608873b5b2bf95f79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 07/18] fix: report witnesses and setups that cannot be built

---
 util/util.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/util/util.go b/util/util.go
index ba63a19..a315d74 100644
--- a/util/util.go
+++ b/util/util.go
@@ -566,6 +566,10 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		fmt.Println("Number of constraints:", cs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// Setup step with time measurement
 		start = time.Now().UnixMicro()
@@ -651,6 +655,10 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		fmt.Println("Number of constraints:", ccs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// create srs
 		srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
@@ -770,6 +778,10 @@ func BenchProofMemoryPlonk(b *testing.B, circuit, assignment frontend.Circuit) e
 	}
 
 	srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
+	if err != nil {
+		b.Errorf("Failed to create srs: %v", err)
+		return err
+	}
 
 	pk, vk, err := plonk.Setup(ccs, srs, srsLagrange)
 	if err != nil {
-- 
2.43.0


From cad7c157183a9463ec645f15e57cb999fcfe9f14 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 08/18] fix: boundary coordinates keep their sign

---
 proximity/proximity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..57b391a 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -148,7 +148,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
-- 
2.43.0


From a42df86d1238a2c2e599ff6d1193044e932dbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 09/18] fix: disjunction with a constant must not depend on the
 proof system

---
 float/float.go | 52 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/float/float.go b/float/float.go
index 2f0788b..1b2f636 100644
--- a/float/float.go
+++ b/float/float.go
@@ -185,6 +185,22 @@ func (f *Context) NewF64Constant(v float64) FloatVar {
 	return f.NewConstant(math.Float64bits(v))
 }
 
+// Compute the disjunction of two booleans.
+// The PLONK builder evaluates `Api.Or` of a variable and the constant 1 to 0, hence constants, which
+// occur if an operand is a constant, are handled here.
+func (f *Context) or(a, b frontend.Variable) frontend.Variable {
+	if c, ok := f.Api.Compiler().ConstantValue(a); ok {
+		a, b = b, c
+	}
+	if c, ok := f.Api.Compiler().ConstantValue(b); ok {
+		if c.Sign() != 0 {
+			return 1
+		}
+		return a
+	}
+	return f.Api.Or(a, b)
+}
+
 // Round the mantissa.
 // Note that the precision for subnormal numbers should be smaller than normal numbers, but in
 // our representation, the mantissa of subnormal numbers also has `M + 1` bits, and we have to set
@@ -285,13 +301,13 @@ func (f *Context) fixOverflow(
 	// Check if exponent overflows. If so, the result is abnormal, unless the mantissa is zero, e.g.,
 	// when adding two large numbers that cancel each other.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.or(
 		f.Api.And(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), mantissa_is_not_zero),
 		input_is_abnormal,
 	)
 
 	return f.Api.Select(
-			f.Api.Or(mantissa_overflow, is_abnormal),
+			f.or(mantissa_overflow, is_abnormal),
 			// If mantissa overflows, we right shift the mantissa by 1 and obtain `2^M`.
 			// If the result is abnormal, we set the mantissa to infinity's mantissa.
 			// We can combine both cases as inifinity's mantissa is `2^M`.
@@ -314,7 +330,7 @@ func (f *Context) fixOverflow(
 
 // Enforce the equality between two numbers.
 func (f *Context) AssertIsEqual(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -334,7 +350,7 @@ func (f *Context) AssertIsEqual(x, y FloatVar) {
 
 // Enforce the equality between two numbers, relaxed to checking ULP <1 (optimized)
 func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -351,7 +367,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 	// x.e == y.e && (x.m == y.m + 1 || y.m == x.m + 1) ,
 	cmpOne := f.Api.And(
 		f.Gadget.IsEq(x.Exponent, y.Exponent),
-		f.Api.Or(
+		f.or(
 			f.Gadget.IsEq(x.Mantissa, f.Api.Add(y.Mantissa, big.NewInt(1))),
 			f.Gadget.IsEq(y.Mantissa, f.Api.Add(x.Mantissa, big.NewInt(1))),
 		),
@@ -375,7 +391,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 		),
 	)
 
-	cmp := f.Api.Or(cmpOne, f.Api.Or(cmpTwo, cmpThree))
+	cmp := f.or(cmpOne, f.or(cmpTwo, cmpThree))
 
 	condOne := f.Gadget.IsEq(cmp, 1)
 
@@ -385,12 +401,12 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -416,12 +432,12 @@ func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -447,7 +463,7 @@ func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Add two numbers.
@@ -606,7 +622,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y.IsAbnormal),
+		f.or(x.IsAbnormal, y.IsAbnormal),
 	)
 
 	y_is_not_abnormal := f.Api.Sub(big.NewInt(1), y.IsAbnormal)
@@ -626,7 +642,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 			x.IsAbnormal,
 			// If `x` is abnormal ...
 			f.Api.Select(
-				f.Api.Or(
+				f.or(
 					y_is_not_abnormal,
 					f.Gadget.IsEq(xx, yy),
 				),
@@ -739,7 +755,7 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 	)
 
 	mantissa_is_zero := f.Api.IsZero(mantissa)
-	input_is_abnormal := f.Api.Or(x.IsAbnormal, y.IsAbnormal)
+	input_is_abnormal := f.or(x.IsAbnormal, y.IsAbnormal)
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
@@ -842,13 +858,13 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 	// If `y` is NaN, the result is NaN.
 	// Since both zero and NaN have mantissa 0, we can combine both cases and set the mantissa to 0
 	// when `y` is abnormal.
-	mantissa_is_zero := f.Api.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
+	mantissa_is_zero := f.or(f.Api.IsZero(mantissa), y.IsAbnormal)
 
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y_is_zero),
+		f.or(x.IsAbnormal, y_is_zero),
 	)
 
 	return FloatVar{
@@ -936,7 +952,7 @@ func (f *Context) Sqrt(x FloatVar) FloatVar {
 	// If `x` is NaN, the result is NaN.
 	// If `x` is +infinty, the result is +infinity.
 	// Below we combine all these cases.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.or(
 		f.Api.And(x.Sign, n_is_not_zero),
 		x.IsAbnormal,
 	)
@@ -970,7 +986,7 @@ func (f *Context) less(x, y FloatVar, allow_eq uint) frontend.Variable {
 	xm_ge_ym := f.Gadget.IsPositive(f.Api.Sub(x.Mantissa, y.Mantissa), f.M+1)
 
 	b := f.Api.Select(
-		f.Api.Or(
+		f.or(
 			f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 			f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 		),
-- 
2.43.0


From 8342b39f8cb580fb5ff3d61935c127e37f19b86c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 10/18] fix: arctangents of infinities and NaN

---
 math/math.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index c928393..fc23c56 100644
--- a/math/math.go
+++ b/math/math.go
@@ -73,12 +73,13 @@ func Atan2(f *float.Context, y, x float.FloatVar) float.FloatVar {
 	atan2S := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Sign, addPi.Sign), result.Sign)
 	atan2E := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Exponent, addPi.Exponent), result.Exponent)
 	atan2M := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Mantissa, addPi.Mantissa), result.Mantissa)
+	atan2A := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.IsAbnormal, addPi.IsAbnormal), result.IsAbnormal)
 
 	ret := float.FloatVar{
 		Sign:       atan2S,
 		Exponent:   atan2E,
 		Mantissa:   atan2M,
-		IsAbnormal: 0,
+		IsAbnormal: atan2A,
 	}
 
 	// TODO: Zero handling -- see below:
@@ -136,6 +137,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -147,11 +149,12 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	resultE := f.Api.Select(greaterOne, sub.Exponent, result.Exponent)
 	resultM := f.Api.Select(greaterOne, sub.Mantissa, result.Mantissa)
+	resultA := f.Api.Select(greaterOne, sub.IsAbnormal, result.IsAbnormal)
 	res := float.FloatVar{
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: resultA,
 	}
 	return res
 }
@@ -190,6 +193,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -201,11 +205,12 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	resultE := f.Api.Select(greaterOne, sub.Exponent, result.Exponent)
 	resultM := f.Api.Select(greaterOne, sub.Mantissa, result.Mantissa)
+	resultA := f.Api.Select(greaterOne, sub.IsAbnormal, result.IsAbnormal)
 	res := float.FloatVar{
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: resultA,
 	}
 	return res
 }
-- 
2.43.0


From 3a7dcd2b05ef761bdb2fa728c95086b532c4654a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 11/18] fix: refuse hexagon coordinates that do not fit

---
 proximity/proximity.go | 19 +++++++++++++------
 util/util.go           | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 57b391a..0779319 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -91,13 +91,20 @@ func executeLatLngToIJK(executablePath string, resolution int, latitude, longitu
 		return 0, 0, 0, fmt.Errorf("failed to parse output")
 	}
 
-	return extractInt(matches[1]), extractInt(matches[2]), extractInt(matches[3]), nil
-}
+	i, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	j, err := strconv.Atoi(matches[2])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	k, err := strconv.Atoi(matches[3])
+	if err != nil {
+		return 0, 0, 0, err
+	}
 
-// extractInt is a helper function to convert a string to an int.
-func extractInt(s string) int {
-	i, _ := strconv.Atoi(s)
-	return i
+	return i, j, k, nil
 }
 
 func latLngToCell(resolution int, latitude, longitude float64) (string, error) {
diff --git a/util/util.go b/util/util.go
index a315d74..10a8ab5 100644
--- a/util/util.go
+++ b/util/util.go
@@ -438,9 +438,18 @@ func ExecuteLatLngToIJK(resolution int, latitude float64, longitude float64) (in
 	}
 
 	// Convert matched strings to integers
-	i, _ := strconv.Atoi(matches[1])
-	j, _ := strconv.Atoi(matches[2])
-	k, _ := strconv.Atoi(matches[3])
+	i, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	j, err := strconv.Atoi(matches[2])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	k, err := strconv.Atoi(matches[3])
+	if err != nil {
+		return 0, 0, 0, err
+	}
 
 	return i, j, k, nil
 }
-- 
2.43.0


From 898e538328bd2fbbc66a26f0d59cd93c15a6e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 12/18] fix: the distance of opposite points is a number

---
 proximity/proximity.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 0779319..b49eeac 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -23,6 +23,7 @@ func OldHaversine(lat1, lon1, lat2, lon2 float64) float64 {
 	dLat := degreesToRadians(lat2 - lat1)
 	dLon := degreesToRadians(lon2 - lon1)
 	a := math.Pow(math.Sin(dLat/2), 2) + math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(math.Sin(dLon/2), 2)
+	a = math.Min(a, 1) // rounding can push it past 1 for opposite points
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 	return RadiusOfEarth * c
 }
-- 
2.43.0


From 56c3c42b945f49ac77d926905e8f9aadcd59299d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 13/18] fix: the center of a face has coordinates

---
 loc2index32/loc2index32.go | 2 ++
 loc2index64/loc2index64.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/loc2index32/loc2index32.go b/loc2index32/loc2index32.go
index a9688a8..8b762e8 100644
--- a/loc2index32/loc2index32.go
+++ b/loc2index32/loc2index32.go
@@ -123,6 +123,8 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of the face there is no azimuth: `x` and `y` are both zero, and so are the coordinates
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF32Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
diff --git a/loc2index64/loc2index64.go b/loc2index64/loc2index64.go
index 74e0451..cd4debc 100644
--- a/loc2index64/loc2index64.go
+++ b/loc2index64/loc2index64.go
@@ -124,6 +124,8 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of the face there is no azimuth: `x` and `y` are both zero, and so are the coordinates
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF64Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
-- 
2.43.0


From 8623903415d1d8ecc8554b663163a8b18545ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 14/18] fix: a row that cannot be written completely leaves
 nothing in the benchmark file

---
 util/util.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/util/util.go b/util/util.go
index 10a8ab5..0925f0f 100644
--- a/util/util.go
+++ b/util/util.go
@@ -533,6 +533,19 @@ func BenchProof(b *testing.B, circuit, assignment frontend.Circuit) {
 	}
 }
 
+// appendLine appends a line to a file opened for appending. If the line cannot be written completely,
+// e.g., because the disk is full, nothing of it is left in the file.
+func appendLine(file *os.File, line string) error {
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	if _, err = file.WriteString(line + "\n"); err != nil {
+		_ = file.Truncate(info.Size())
+	}
+	return err
+}
+
 func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit, resolution int64, index int64, path string) error {
 	// Open a file to save benchmark results
 	file, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
@@ -548,7 +561,7 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		return err
 	}
 	if info.Size() == 0 {
-		_, err = fmt.Fprintln(file, "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime")
+		err = appendLine(file, "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime")
 		if err != nil {
 			b.Errorf("Failed to write headers to file: %v", err)
 			return err
@@ -611,9 +624,9 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		verifierTime = time.Now().UnixMicro() - start
 
 		// Writing the captured data to the file
-		_, err = fmt.Fprintf(file, "%d, %d, %d, %d, %d, %d, %d\n",
+		err = appendLine(file, fmt.Sprintf("%d, %d, %d, %d, %d, %d, %d",
 			resolution, index, cs.GetNbConstraints(),
-			compilationTime, setupTime, proverTime, verifierTime)
+			compilationTime, setupTime, proverTime, verifierTime))
 		if err != nil {
 			b.Errorf("Failed to write data to file: %v", err)
 			return err
@@ -637,7 +650,7 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		return err
 	}
 	if info.Size() == 0 {
-		_, err = fmt.Fprintln(file, "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime")
+		err = appendLine(file, "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime")
 		if err != nil {
 			b.Errorf("Failed to write headers to file: %v", err)
 			return err
@@ -707,9 +720,9 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		}
 
 		// Writing the captured data to the file
-		_, err = fmt.Fprintf(file, "%d, %d, %d, %d, %d, %d, %d\n",
+		err = appendLine(file, fmt.Sprintf("%d, %d, %d, %d, %d, %d, %d",
 			resolution, index, ccs.GetNbConstraints(),
-			compilationTime, setupTime, proverTime, verifierTime)
+			compilationTime, setupTime, proverTime, verifierTime))
 		if err != nil {
 			b.Errorf("Failed to write data to file: %v", err)
 			return err
-- 
2.43.0


From 79840eb6e9385f70ade3d97e7aa475f2f9d23d54 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 15/18] fix: report a cell without boundary vertices instead of
 an infinite distance

---
 proximity/proximity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index b49eeac..87c0565 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -158,6 +158,9 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 
 	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
+	if len(matches) == 0 {
+		return nil, fmt.Errorf("failed to parse boundary")
+	}
 
 	var boundary [][2]float64
 	for _, match := range matches {
-- 
2.43.0


From ba94262f4769d81e40ff299bdc3a8788b3f4ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 16/18] fix: a vertex opposite to the verifier is at a distance

---
 proximity/proximity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 87c0565..032094e 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -225,6 +225,9 @@ func main() {
 		for _, point := range boundaryPoints {
 			boundaryLocation := haversine.Coordinates{Latitude: point[0], Longitude: point[1]}
 			distance := haversine.Distance(exampleLocation, boundaryLocation).Kilometers()
+			if math.IsNaN(distance) { // rounding can push the haversine past 1 for opposite points
+				distance = Pi * RadiusOfEarth / 1000
+			}
 
 			if distance < closestDistance {
 				closestDistance = distance
-- 
2.43.0


From f9df75fe0740fbe3316729b8bf520b321d097a86 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 17/18] fix: results table ignored the outcomes of the 64-bit
 test run

---
 scripts/generate_latex_table_tests.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/generate_latex_table_tests.py b/scripts/generate_latex_table_tests.py
index a6d26ec..5980be5 100644
--- a/scripts/generate_latex_table_tests.py
+++ b/scripts/generate_latex_table_tests.py
@@ -9,7 +9,7 @@ def read_test_cases(file_path):
                 test_cases[resolution] = test_cases.get(resolution, 0) + 1
     return test_cases
 
-def read_test_results(file_path, test_cases):
+def read_test_results(file_path, test_cases, test_name):
     test_results = {res: ['green'] * count for res, count in test_cases.items()}
     current_test = 0
     current_resolution = 0
@@ -20,7 +20,7 @@ def read_test_results(file_path, test_cases):
             if skip_lines > 0:
                 skip_lines -= 1
                 continue
-            if "--- PASS: TestLoc2Index32/bn254" in line:
+            if "--- PASS: " + test_name + "/bn254" in line:
                 skip_lines = 2  # Skip the next two lines for a pass case'
                 current_test += 1
                 if current_test == test_cases[current_resolution]:
@@ -28,7 +28,7 @@ def read_test_results(file_path, test_cases):
                     current_resolution += 1
                     # continue
 
-            elif "--- FAIL: TestLoc2Index32/" in line:
+            elif "--- FAIL: " + test_name + "/" in line:
                 current_test += 1
                 test_results[current_resolution][current_test-1] = 'red'
                 if current_test == test_cases[current_resolution]:
@@ -104,11 +104,11 @@ test_casesP12 = read_test_cases('../data/f32/loc2index32.txt')
 test_P12 = read_test_results_P6('../benchmarks/tests/loc2index_P12_G16_BN254.txt', test_casesP12)
 
 test_cases32 = read_test_cases('../data/f32/loc2index32.txt')
-test_results32 = read_test_results('../benchmarks/tests/loc2index32_g16_bn254.txt', test_cases32)
+test_results32 = read_test_results('../benchmarks/tests/loc2index32_g16_bn254.txt', test_cases32, 'TestLoc2Index32')
 
 # print(test_results32)
 test_cases64 = read_test_cases('../data/f64/loc2index64.txt')
-test_results64 = read_test_results('../benchmarks/tests/loc2index64_g16_bn254.txt', test_cases32)
+test_results64 = read_test_results('../benchmarks/tests/loc2index64_g16_bn254.txt', test_cases64, 'TestLoc2Index64')
 latex_table = generate_latex_table(test_P6, test_P12, test_results32, test_results64)
 print(latex_table)
 
-- 
2.43.0


From c3cdd4c64561edecf2c91c40e726e5f98887a68c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 18/18] fix: results table counted the subtests of a failing
 case as further cases

---
 scripts/generate_latex_table_tests.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/generate_latex_table_tests.py b/scripts/generate_latex_table_tests.py
index 5980be5..a854b5e 100644
--- a/scripts/generate_latex_table_tests.py
+++ b/scripts/generate_latex_table_tests.py
@@ -1,3 +1,5 @@
+import re
+
 def read_test_cases(file_path):
     test_cases = {}
     with open(file_path, 'r') as file:
@@ -28,7 +30,8 @@ def read_test_results(file_path, test_cases, test_name):
                     current_resolution += 1
                     # continue
 
-            elif "--- FAIL: " + test_name + "/" in line:
+            # The subtests of a failing case are no test cases of their own
+            elif re.search("--- FAIL: " + test_name + r"/bn254(#\d+)? ", line):
                 current_test += 1
                 test_results[current_resolution][current_test-1] = 'red'
                 if current_test == test_cases[current_resolution]:
@@ -58,7 +61,8 @@ def read_test_results_P6(file_path, test_cases):
                     current_resolution += 1
                     # continue
 
-            elif "--- FAIL: TestLoc2IndexFromFile/" in line:
+            # The subtests of a failing case are no test cases of their own
+            elif re.search(r"--- FAIL: TestLoc2IndexFromFile/bn254(#\d+)? ", line):
                 current_test += 1
                 test_results[current_resolution][current_test-1] = 'red'
                 if current_test == test_cases[current_resolution]:
-- 
2.43.0

