From d9d15328d2b940fa32bc0ed7359768605aa5d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 01/13] fix: bind the sign of zero in IntGadget.Abs

For v = 0 the prover could choose is_positive freely, so IsPositive, Min, Max,
Trunc, Floor, Ceil and the overflow check could be bent at exactly zero.
---
 gadget/gadget.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..ba89fca 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -90,7 +90,9 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 		v,
 		f.api.Neg(v),
 	)
-	f.AssertBitLength(abs, length, Loose)
+	// If `v` is 0, both `v` and `-v` are 0 and the check on `abs` alone would leave `is_positive` to
+	// the prover. Checking `abs - 1` when `v` is claimed to be negative rules out `v == 0`.
+	f.AssertBitLength(f.api.Sub(abs, f.api.Sub(big.NewInt(1), is_positive)), length, Loose)
 	return abs, is_positive
 }
 
-- 
2.43.0


From e7325463a760df15610bbb02a8cf9e8615fd0c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 02/13] fix: make the range check of power-of-two lookups tight

With a lookup width that does not divide the table size, the loose check let
the result exceed the lower half of an entry, so that another entry could be
matched, e.g. ToInt(1) = 2^32 + 2 was provable.
---
 gadget/gadget.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index ba89fca..d1074bc 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -127,8 +127,10 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 		panic(err)
 	}
 	result := outputs[0]
-	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	// Make sure the result fits into the lower half of a table entry. The check has to be tight:
+	// otherwise, for `result >= 2^size`, `exponent || result` may equal another entry of the table.
+	// (`exponent` is small, hence so is every `result` that makes the query match an entry.)
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForSmallAbs)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From 331f360e53e3053f3ba2fc386820d721777a8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 03/13] fix: bind the sign of an exactly cancelled sum

For x + (-x) the sign of the result was taken from advice that is not
constrained when the sum is zero, so a prover could obtain -0.
---
 float/float.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/float/float.go b/float/float.go
index 3977898..b835e47 100644
--- a/float/float.go
+++ b/float/float.go
@@ -567,12 +567,12 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 	// Decrement the exponent by `shift`.
 	exponent = f.Api.Sub(exponent, shift)
 
-	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
-	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`.
+	// `mantissa_ge_0` can be directly used to determine the sign of the result, unless the mantissa is
+	// zero, in which case it is not bound by the check above. The result is then -0 if both `x` and `y`
+	// are -0, and +0 otherwise.
 	sign := f.Api.Select(
-		f.Gadget.IsEq(x.Sign, y.Sign),
-		x.Sign,
+		mantissa_is_zero,
+		f.Api.And(x.Sign, y.Sign),
 		mantissa_lt_0,
 	)
 
-- 
2.43.0


From 75eb69b140e5996c0a5cef96795ff3a88247b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 04/13] fix: x - x is zero for numbers with the largest
 exponent

The exponent before normalisation is one above the operands', so an exactly
cancelled sum of numbers with the largest finite exponent became infinity.
---
 float/float.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index b835e47..7386067 100644
--- a/float/float.go
+++ b/float/float.go
@@ -564,8 +564,13 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa_bit_length-1,
 		gadget.TightForSmallAbs,
 	)
-	// Decrement the exponent by `shift`.
-	exponent = f.Api.Sub(exponent, shift)
+	// Decrement the exponent by `shift`, or set it to 0's exponent if the mantissa is zero. The latter
+	// prevents `x - x` from being treated as an overflow when `x` has the largest exponent.
+	exponent = f.Api.Select(
+		mantissa_is_zero,
+		f.E_MIN,
+		f.Api.Sub(exponent, shift),
+	)
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, unless the mantissa is
 	// zero, in which case it is not bound by the check above. The result is then -0 if both `x` and `y`
-- 
2.43.0


From deddfa44c2e9d099bccd6889f63a86ba0a6203bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 05/13] fix: keep disjunctions with constants right under PLONK

gnark's PLONK builder computes Or(x, 1) as x*(1-1) = 0 when one operand is the
constant 1, so that e.g. Inf plus a constant became NaN.
---
 float/float.go | 54 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/float/float.go b/float/float.go
index 7386067..79f59d3 100644
--- a/float/float.go
+++ b/float/float.go
@@ -62,6 +62,24 @@ func NewContext(api frontend.API, range_size uint, E, M uint) Context {
 	}
 }
 
+// Compute the disjunction of two booleans.
+// Constants are handled here: gnark's PLONK builder drops the constant 1 from `Or(x, 1)`, so that the
+// result would be 0 for some operations where an operand is a constant.
+func (f *Context) or(a, b frontend.Variable) frontend.Variable {
+	f.Api.AssertIsBoolean(a)
+	f.Api.AssertIsBoolean(b)
+	if _, ok := f.Api.Compiler().ConstantValue(a); ok {
+		a, b = b, a
+	}
+	if c, ok := f.Api.Compiler().ConstantValue(b); ok {
+		if c.Sign() != 0 {
+			return 1
+		}
+		return a
+	}
+	return f.Api.Or(a, b)
+}
+
 // Allocate a variable in the constraint system from a value.
 // This function decomposes the value into sign, exponent, and mantissa,
 // and enforces they are well-formed.
@@ -282,10 +300,10 @@ func (f *Context) fixOverflow(
 	exponent = f.Api.Add(exponent, mantissa_overflow)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
 
 	return f.Api.Select(
-			f.Api.Or(mantissa_overflow, is_abnormal),
+			f.or(mantissa_overflow, is_abnormal),
 			// If mantissa overflows, we right shift the mantissa by 1 and obtain `2^M`.
 			// If the result is abnormal, we set the mantissa to infinity's mantissa.
 			// We can combine both cases as inifinity's mantissa is `2^M`.
@@ -308,7 +326,7 @@ func (f *Context) fixOverflow(
 
 // Enforce the equality between two numbers.
 func (f *Context) AssertIsEqual(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -328,7 +346,7 @@ func (f *Context) AssertIsEqual(x, y FloatVar) {
 
 // Enforce the equality between two numbers, relaxed to checking ULP <1 (optimized)
 func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -345,7 +363,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 	// x.e == y.e && (x.m == y.m + 1 || y.m == x.m + 1) ,
 	cmpOne := f.Api.And(
 		f.Gadget.IsEq(x.Exponent, y.Exponent),
-		f.Api.Or(
+		f.or(
 			f.Gadget.IsEq(x.Mantissa, f.Api.Add(y.Mantissa, big.NewInt(1))),
 			f.Gadget.IsEq(y.Mantissa, f.Api.Add(x.Mantissa, big.NewInt(1))),
 		),
@@ -369,7 +387,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 		),
 	)
 
-	cmp := f.Api.Or(cmpOne, f.Api.Or(cmpTwo, cmpThree))
+	cmp := f.or(cmpOne, f.or(cmpTwo, cmpThree))
 
 	condOne := f.Gadget.IsEq(cmp, 1)
 
@@ -379,12 +397,12 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -410,12 +428,12 @@ func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -441,7 +459,7 @@ func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Add two numbers.
@@ -603,7 +621,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y.IsAbnormal),
+		f.or(x.IsAbnormal, y.IsAbnormal),
 	)
 
 	y_is_not_abnormal := f.Api.Sub(big.NewInt(1), y.IsAbnormal)
@@ -623,7 +641,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 			x.IsAbnormal,
 			// If `x` is abnormal ...
 			f.Api.Select(
-				f.Api.Or(
+				f.or(
 					y_is_not_abnormal,
 					f.Gadget.IsEq(xx, yy),
 				),
@@ -736,7 +754,7 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 	)
 
 	mantissa_is_zero := f.Api.IsZero(mantissa)
-	input_is_abnormal := f.Api.Or(x.IsAbnormal, y.IsAbnormal)
+	input_is_abnormal := f.or(x.IsAbnormal, y.IsAbnormal)
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
@@ -839,13 +857,13 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 	// If `y` is NaN, the result is NaN.
 	// Since both zero and NaN have mantissa 0, we can combine both cases and set the mantissa to 0
 	// when `y` is abnormal.
-	mantissa_is_zero := f.Api.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
+	mantissa_is_zero := f.or(f.Api.IsZero(mantissa), y.IsAbnormal)
 
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y_is_zero),
+		f.or(x.IsAbnormal, y_is_zero),
 	)
 
 	return FloatVar{
@@ -933,7 +951,7 @@ func (f *Context) Sqrt(x FloatVar) FloatVar {
 	// If `x` is NaN, the result is NaN.
 	// If `x` is +infinty, the result is +infinity.
 	// Below we combine all these cases.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.or(
 		f.Api.And(x.Sign, n_is_not_zero),
 		x.IsAbnormal,
 	)
@@ -967,7 +985,7 @@ func (f *Context) less(x, y FloatVar, allow_eq uint) frontend.Variable {
 	xm_ge_ym := f.Gadget.IsPositive(f.Api.Sub(x.Mantissa, y.Mantissa), f.M+1)
 
 	b := f.Api.Select(
-		f.Api.Or(
+		f.or(
 			f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 			f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 		),
-- 
2.43.0


From 9bb80ef3ae18b4145a54a7a81ad39ba73e43f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 06/13] fix: locations at the center of a face are provable

---
 loc2index32/loc2index32.go | 3 +++
 loc2index64/loc2index64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/loc2index32/loc2index32.go b/loc2index32/loc2index32.go
index a9688a8..c42d45f 100644
--- a/loc2index32/loc2index32.go
+++ b/loc2index32/loc2index32.go
@@ -123,6 +123,9 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of a face x = y = z = 0 and the azimuth is undefined: dividing by
+	// one instead keeps `sinP` and `cosP` at zero, which yields the origin of the face
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF32Constant(1), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
diff --git a/loc2index64/loc2index64.go b/loc2index64/loc2index64.go
index 74e0451..4245d8f 100644
--- a/loc2index64/loc2index64.go
+++ b/loc2index64/loc2index64.go
@@ -124,6 +124,9 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the center of a face x = y = z = 0 and the azimuth is undefined: dividing by
+	// one instead keeps `sinP` and `cosP` at zero, which yields the origin of the face
+	z = f.Select(f.Api.IsZero(z.Mantissa), f.NewF64Constant(1), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
-- 
2.43.0


From 2e9c9b4ed1609b484ca814caf0f4bfe78a1f9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 07/13] fix: trigonometric advice satisfies the one-ULP
 identity check

---
 hint/hint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hint/hint.go b/hint/hint.go
index 89e2b82..f606ad5 100644
--- a/hint/hint.go
+++ b/hint/hint.go
@@ -32,9 +32,11 @@ func PrecomputeHint64(field *big.Int, inputs []*big.Int, outputs []*big.Int) err
 	components := util.ComponentsOf(v, uint64(E), uint64(M))
 	value := util.ComponentsToF64(components)
 
-	alpha := math.Tan(value * 0.5)
 	gamma := math.Sin(value * 0.5)
 	delta := math.Cos(value * 0.5)
+	// tan(value / 2), as the quotient: `math.Tan` may be off by more than what the
+	// check `alpha * delta == gamma` (up to one ULP) can absorb
+	alpha := gamma / delta
 	beta := 2 * gamma * delta
 
 	alpha_components := util.F64ToComponents(alpha)
-- 
2.43.0


From 385e241169f090d5f9d4ba4901888ffe022e0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 08/13] fix: read the signs of cell boundary coordinates

The pattern of cellToBoundary dropped minus signs and paired the longitude of
one point with the latitude of the next; output without any point was returned
as an empty boundary.
---
 proximity/proximity.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..35a2499 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -148,7 +148,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
@@ -169,6 +169,9 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 
 		boundary = append(boundary, [2]float64{lat, lng})
 	}
+	if len(boundary) == 0 {
+		return nil, fmt.Errorf("failed to parse cell boundary")
+	}
 
 	return boundary, nil
 }
-- 
2.43.0


From 0e133997fc04c2055a9481807781d4249b7df9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 09/13] fix: distance of antipodal points was NaN

---
 proximity/proximity.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 35a2499..49fa26d 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -23,6 +23,8 @@ func OldHaversine(lat1, lon1, lat2, lon2 float64) float64 {
 	dLat := degreesToRadians(lat2 - lat1)
 	dLon := degreesToRadians(lon2 - lon1)
 	a := math.Pow(math.Sin(dLat/2), 2) + math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(math.Sin(dLon/2), 2)
+	// rounding can take a above 1 for antipodal points
+	a = math.Min(a, 1)
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 	return RadiusOfEarth * c
 }
-- 
2.43.0


From aa023c7da067c3e40b51824ed918361e64a4273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 10/13] fix: report coordinates that do not fit an int instead
 of altering them

---
 proximity/proximity.go | 13 +++++++++----
 util/util.go           | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 49fa26d..0cb8c3a 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -93,13 +93,18 @@ func executeLatLngToIJK(executablePath string, resolution int, latitude, longitu
 		return 0, 0, 0, fmt.Errorf("failed to parse output")
 	}
 
-	return extractInt(matches[1]), extractInt(matches[2]), extractInt(matches[3]), nil
+	var ijk [3]int
+	for n := range ijk {
+		if ijk[n], err = extractInt(matches[n+1]); err != nil {
+			return 0, 0, 0, err
+		}
+	}
+	return ijk[0], ijk[1], ijk[2], nil
 }
 
 // extractInt is a helper function to convert a string to an int.
-func extractInt(s string) int {
-	i, _ := strconv.Atoi(s)
-	return i
+func extractInt(s string) (int, error) {
+	return strconv.Atoi(s)
 }
 
 func latLngToCell(resolution int, latitude, longitude float64) (string, error) {
diff --git a/util/util.go b/util/util.go
index bc0b627..3a843f9 100644
--- a/util/util.go
+++ b/util/util.go
@@ -438,9 +438,18 @@ func ExecuteLatLngToIJK(resolution int, latitude float64, longitude float64) (in
 	}
 
 	// Convert matched strings to integers
-	i, _ := strconv.Atoi(matches[1])
-	j, _ := strconv.Atoi(matches[2])
-	k, _ := strconv.Atoi(matches[3])
+	i, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	j, err := strconv.Atoi(matches[2])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	k, err := strconv.Atoi(matches[3])
+	if err != nil {
+		return 0, 0, 0, err
+	}
 
 	return i, j, k, nil
 }
-- 
2.43.0


From 890d4ac385028b7d802d1c59e059f5af9b2ff39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 11/13] fix: circuits without a query to the power-of-two table
 were unprovable

The lookup argument of an empty set of queries has no solution, so any circuit
that uses only the range checks or comparisons of gadget could not be proven.
Leave an unused table out, as the range checker does, and report the number of
constraints accordingly.
---
 gadget/gadget.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index d1074bc..572126e 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,10 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	// The lookup argument cannot be proven without any query
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
@@ -52,7 +56,15 @@ func New(api frontend.API, range_size uint, pow2_size uint) *IntGadget {
 }
 
 func (f *IntGadget) LookupEntryConstraints() uint {
-	return (1 << f.range_size) + f.pow2_size
+	// A table that is never queried is not part of the circuit
+	n := uint(0)
+	if f.num_range_chunks > 0 {
+		n += 1 << f.range_size
+	}
+	if f.num_pow2_queries > 0 {
+		n += f.pow2_size
+	}
+	return n
 }
 
 func (f *IntGadget) LookupQueryConstraints() uint {
@@ -61,7 +73,15 @@ func (f *IntGadget) LookupQueryConstraints() uint {
 
 func (f *IntGadget) LookupFinalizeConstraints() uint {
 	// 1 for rangecheck, 1 for pow2, 1 for multicommit (https://github.com/winderica/gnark/blob/17abec78e9610ecfe73d2dbf471550ac2c509785/std/multicommit/nativecommit.go#L100)
-	return 3
+	// Every query to the pow2 table comes with a rangecheck. Without such queries, rangecheck is the only table,
+	// and its commitment is used as it is.
+	if f.num_pow2_queries > 0 {
+		return 3
+	}
+	if f.num_range_chunks > 0 {
+		return 1
+	}
+	return 0
 }
 
 func (f *IntGadget) AssertBitLength(v frontend.Variable, bit_length uint, mode Mode) {
-- 
2.43.0


From fe7e26a69a6e6382496a01c382df6e7e20b0c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 12/13] fix: benchmark helpers crashed on an incomplete
 assignment

The error of NewWitness was overwritten, and the prover was given no witness.
---
 util/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/util.go b/util/util.go
index 3a843f9..35973f8 100644
--- a/util/util.go
+++ b/util/util.go
@@ -573,6 +573,10 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		fmt.Println("Number of constraints:", cs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// Setup step with time measurement
 		start = time.Now().UnixMicro()
@@ -658,6 +662,10 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		fmt.Println("Number of constraints:", ccs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// create srs
 		srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
-- 
2.43.0


From 5c9fab4b0df294a123b53c54da77eb16ea0076a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 13/13] fix: products and quotients in half precision were
 unprovable

---
 float/float.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/float/float.go b/float/float.go
index 79f59d3..b161599 100644
--- a/float/float.go
+++ b/float/float.go
@@ -284,6 +284,14 @@ func (f *Context) round(
 	return f.Api.Mul(f.Api.Add(pq, carry), two_to_shift)
 }
 
+// The number of bits of the differences between the exponent of a product or quotient before handling
+// overflow and underflow, which is in the range `[2 * E_MIN, 2 * E_MAX + 1]`, and the bounds it is compared to.
+// This is `E + 1` as long as `M` is small compared to `2^E`, but not, e.g., for half precision.
+func (f *Context) exponentBitLength() uint {
+	max := new(big.Int).Mul(f.E_MAX, big.NewInt(3))
+	return uint(max.Add(max, big.NewInt(int64(2*f.M+2))).BitLen())
+}
+
 // Fix mantissa and exponent overflow.
 func (f *Context) fixOverflow(
 	mantissa frontend.Variable,
@@ -300,7 +308,7 @@ func (f *Context) fixOverflow(
 	exponent = f.Api.Add(exponent, mantissa_overflow)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.exponentBitLength()), input_is_abnormal)
 
 	return f.Api.Select(
 			f.or(mantissa_overflow, is_abnormal),
@@ -744,10 +752,10 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 			f.Gadget.Min(
 				f.Api.Sub(f.E_NORMAL_MIN, exponent),
 				big.NewInt(int64(shift_max)),
-				f.E+1,
+				f.exponentBitLength(),
 			),
 			big.NewInt(0),
-			f.E+1,
+			f.exponentBitLength(),
 		),
 		shift_max,
 		1,
@@ -844,10 +852,10 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 			f.Gadget.Min(
 				f.Api.Sub(f.E_NORMAL_MIN, exponent),
 				big.NewInt(int64(shift_max)),
-				f.E+1,
+				f.exponentBitLength(),
 			),
 			big.NewInt(0),
-			f.E+1,
+			f.exponentBitLength(),
 		),
 		shift_max,
 		f.Api.IsZero(remainder),
-- 
2.43.0

