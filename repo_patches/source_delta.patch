From 313444ce07f530eac188db4a80e3f88ba7cd3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 01/59] fix: SubInt reports over/underflow correctly when
 subtracting the minimum value

---
 math/math.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..ba44279 100755
--- a/math/math.go
+++ b/math/math.go
@@ -453,10 +453,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
 // See AddInt.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	// The additive inverse cannot be added instead, as the minimum value has no additive inverse
+	sign1, sign2 := me >= 0, *sed >= 0
+	*sed = me - *sed
+	newSign := *sed >= 0
+
+	if (sign1 != sign2) && (sign1 != newSign) {
+		// Opposite sign subtracted, sign of result differs from minuend
+		if sign1 {
+			// Positive wrapped around to negative
+			return OverflowErr
+		}
 
-	return AddInt(me, sed)
+		// Negative wrapped around to positive
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From 642cf0559ecfd2b1b9f59b8d02d3ac34d73139ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 02/59] fix: Div rounds to the correct sign when the truncated
 quotient is zero

---
 math/math.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/math/math.go b/math/math.go
index ba44279..0074dda 100755
--- a/math/math.go
+++ b/math/math.go
@@ -28,8 +28,9 @@ func divSInt(de, dv int64, q *int64) {
 	}
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
+	// The sign of the quotient comes from the operands, as a truncated quotient of zero has lost it
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		if (de < 0) == (dv < 0) {
 			*q++
 		} else {
 			*q--
@@ -314,6 +315,9 @@ var (
 				return DivByZeroErr
 			}
 
+			// The sign of the quotient comes from the operands, as a truncated quotient of zero has lost it
+			neg := (debi.Sign() < 0) != (dvbi.Sign() < 0)
+
 			r := big.NewInt(0)
 			qbi.QuoRem(debi, dvbi, r)
 			r.Abs(r)
@@ -325,10 +329,10 @@ var (
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
-					qbi.Add(qbi, big.NewInt(1))
-				} else {
+				if neg {
 					qbi.Sub(qbi, big.NewInt(1))
+				} else {
+					qbi.Add(qbi, big.NewInt(1))
 				}
 			}
 
-- 
2.43.0


From 6b2660c57dbdb93094fa69ef332869be80550cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 03/59] fix: Div of *big.Int rounds correctly when the quotient
 is the divisor

---
 math/math.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/math/math.go b/math/math.go
index 0074dda..8e719b3 100755
--- a/math/math.go
+++ b/math/math.go
@@ -318,16 +318,18 @@ var (
 			// The sign of the quotient comes from the operands, as a truncated quotient of zero has lost it
 			neg := (debi.Sign() < 0) != (dvbi.Sign() < 0)
 
-			r := big.NewInt(0)
-			qbi.QuoRem(debi, dvbi, r)
-			r.Abs(r)
-
+			// Calculate these before the quotient, which may be the same *big.Int as the divisor
 			halfdv := big.NewInt(0).SetBytes(dvbi.Bytes())
 			halfdv.Abs(halfdv)
 			halfdv.Rsh(halfdv, 1)
 
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
+
+			r := big.NewInt(0)
+			qbi.QuoRem(debi, dvbi, r)
+			r.Abs(r)
+
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
 				if neg {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From df75980bf98d54454312997fc9c2b5301de23cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 04/59] fix: Div returns an overflow error when dividing the
 minimum integer by -1

---
 math/math.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/math/math.go b/math/math.go
index 8e719b3..0969d7a 100755
--- a/math/math.go
+++ b/math/math.go
@@ -163,6 +163,9 @@ var (
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int)), int64(dvi), &qi64)
+			if (dvi == -1) && (de.(int) == math.MinInt) {
+				return OverflowErr
+			}
 			*qi = int(qi64)
 
 			return nil
@@ -177,6 +180,9 @@ var (
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int8)), int64(dvi), &qi64)
+			if (dvi == -1) && (de.(int8) == math.MinInt8) {
+				return OverflowErr
+			}
 			*qi = int8(qi64)
 
 			return nil
@@ -191,6 +197,9 @@ var (
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int16)), int64(dvi), &qi64)
+			if (dvi == -1) && (de.(int16) == math.MinInt16) {
+				return OverflowErr
+			}
 			*qi = int16(qi64)
 
 			return nil
@@ -205,6 +214,9 @@ var (
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
 			divSInt(int64(de.(int32)), int64(dvi), &qi64)
+			if (dvi == -1) && (de.(int32) == math.MinInt32) {
+				return OverflowErr
+			}
 			*qi = int32(qi64)
 
 			return nil
@@ -217,6 +229,9 @@ var (
 			}
 
 			qi := any(q).(*int64)
+			if (dvi == -1) && (de.(int64) == math.MinInt64) {
+				return OverflowErr
+			}
 			divSInt(de.(int64), dvi, qi)
 
 			return nil
@@ -522,6 +537,8 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // Integer Examples:
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
+//
+// Returns DivByZeroErr if an integer divisor is zero, and OverflowErr if the minimum integer value is divided by -1.
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
 	// Cast args to any for functions to accept
 	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-- 
2.43.0


From 4c9fec828343e0238dbd690a13163f17622d3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 05/59] fix: Abs and Div accept named numeric types, as their
 constraint promises

---
 math/math.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/math/math.go b/math/math.go
index 0969d7a..665c9c6 100755
--- a/math/math.go
+++ b/math/math.go
@@ -7,11 +7,12 @@ import (
 	"math"
 	"math/big"
 	"math/cmplx"
-	"reflect"
+	goreflect "reflect"
 	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/conv"
+	"github.com/bantling/micro/reflect"
 )
 
 // Signed integer division, for toDiv map above
@@ -398,14 +399,16 @@ var (
 // In this special case, an error is returned, otherwise nil is returned.
 // Note that while the constraint allows unsigned ints for completeness, no operation is performed.
 func Abs[T constraint.Numeric](val *T) error {
-	typval := reflect.TypeOf(val).Elem().String()
+	// Convert a pointer to a subtype (eg type foo int) to a pointer to the base type
+	rval := reflect.ValueToBaseType(goreflect.ValueOf(val))
+	typval := rval.Type().Elem().String()
 
 	// No need to calculate absolute value of an unsigned int
 	if strings.HasPrefix(typval, "uint") {
 		return nil
 	}
 
-	return toAbs[typval](val)
+	return toAbs[typval](rval.Interface())
 }
 
 // AddInt adds two signed integers overwriting the second value, and returns an error if over/underflow occurs.
@@ -540,15 +543,21 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 //
 // Returns DivByZeroErr if an integer divisor is zero, and OverflowErr if the minimum integer value is divided by -1.
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
+	// Convert subtypes (eg type foo int) to the base type
+	var (
+		rde = reflect.ValueToBaseType(goreflect.ValueOf(dividend))
+		rdv = reflect.ValueToBaseType(goreflect.ValueOf(divisor))
+		rq  = reflect.ValueToBaseType(goreflect.ValueOf(quotient))
+	)
+
 	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-	return toDiv[typ](ade, adv, aq)
+	return toDiv[rde.Type().String()](rde.Interface(), rdv.Interface(), rq.Interface())
 }
 
 // DivBigOps is the BigOps version of Div
 func DivBigOps[T constraint.BigOps[T]](dividend T, divisor T, quotient *T) error {
 	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
+	var typ, ade, adv, aq = goreflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
 	return toDiv[typ](ade, adv, aq)
 }
 
-- 
2.43.0


From 1c9b3545591c8ee931535dc7a09ddabb3bc27fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 06/59] fix: OfRange panics if the initial value is not in the
 range, as documented

---
 math/range.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..8d80c27 100755
--- a/math/range.go
+++ b/math/range.go
@@ -53,7 +53,10 @@ func OfRange[T constraint.IntegerAndFloat](
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	r := Range[T]{min, minMode, max, maxMode, initial}
+	funcs.Must(r.SetValue(initial))
+
+	return r
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From e410f7c13c1f92c92ecb01a6656e0c8ff85bd153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 07/59] fix: StringToDecimal matches the whole string, and
 counts significant digits only

---
 math/decimal.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..1cdecd8 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"slices"
 	"strconv"
 	"strings"
 
@@ -16,7 +15,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
@@ -165,10 +164,13 @@ func MustDecimal(value int64, scale uint, normalized ...bool) Decimal {
 func StringToDecimal(value string) (d Decimal, err error) {
 	parts := decimalRegex.FindStringSubmatch(value)
 
-	// Error if string doesn't match regex
-	// Error if total number of digits > 18
+	// Error if string doesn't match regex, or has no digits
+	// Error if total number of significant digits > 18, or number of digits after decimal > 18
 	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
-	if (parts == nil) || slices.Equal(parts, []string{"", "", "", ""}) || ((len(parts[2]) + len(parts[3])) > 18) {
+	if (parts == nil) ||
+		((len(parts[2]) + len(parts[3])) == 0) ||
+		(len(parts[3]) > decimalMaxScale) ||
+		(len(strings.TrimLeft(parts[2]+parts[3], "0")) > decimalMaxScale) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
 	}
-- 
2.43.0


From cb03c151059de233baf892896263093f14cc524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 08/59] fix: AdjustDecimalScale rounds correctly when all the
 digits are dropped, and does not round a zero's counterpart

---
 math/decimal.go | 53 ++++++++++++-------------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 1cdecd8..b543991 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -280,20 +280,14 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 	    d1, d2 = d2, d1
 	}
 
-	// Convert d1 and d2 to strings of digits only, to see how many significant digits they possess
-	var str1, str2 string
-	str1 = conv.IntToString(funcs.Ternary(d1.value >= 0, d1.value, -d1.value))
-	str2 = conv.IntToString(funcs.Ternary(d2.value >= 0, d2.value, -d2.value))
-
 	var (
-		len1       = len(str1)
-		len2       = len(str2)
-		d2Capacity = decimalMaxScale - len2
-		scaleDiff  = int(d1.scale - d2.scale)
+		scaleDiff = int(d1.scale - d2.scale)
+		power10   = powersOf10[scaleDiff]
 	)
 
 	// Does d2 have enough remaining capacity for the required trailing zeroes to increase the scale?
-	if d2Capacity >= scaleDiff {
+	// A value of 0 always does.
+	if funcs.Ternary(d2.value >= 0, d2.value, -d2.value) <= decimalMaxValue/power10 {
 		// Easy solution - multiply d2 by 10 ^ scaleDiff, and set scale to match d1
 		for i := 0; i < scaleDiff; i++ {
 			d2.value *= 10
@@ -312,38 +306,17 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
-		// Round by manipulating digits directly in string as a []byte
-		dig1 := []byte(str1)
-
-		// Round by just examining first decimal place, if <= 4 round integer down, else round integer up
-		round := dig1[len1-scaleDiff] >= '5'
-
-		// throw away decimal digits
-		dig1 = dig1[:len1-scaleDiff]
-		len1 = len(dig1)
-
-		// Integer rounding affects digits of d1 we're keeping
-		// - as long as integer digit = 9, set to 0
-		// - if a digit < 9 is encountered, increment and stop
-		// - if all digits are 9, add additional 1 digit on left
-		var dig byte
-		for i := len1 - 1; round && (i >= 0); i-- {
-			dig = dig1[i]
-			round = dig == '9'
-			dig1[i] = funcs.Ternary(round, '0', dig+1)
-		}
-
-		// If final round is true, all integer digits are 9, add a leading 1
-		str1 = funcs.Ternary(round, "1"+string(dig1), string(dig1))
-
-		// Set d1 scale
+		// Divide d1 by 10 ^ scaleDiff, and set scale to match d2
+		// If the digits thrown away are at least half of 10 ^ scaleDiff, round away from 0
+		// As d1 may have fewer than scaleDiff digits, the result may be 0
+		rmdr := d1.value % power10
+		d1.value /= power10
 		d1.scale = d2.scale
 
-		// Set d1 value (preserving sign)
-		neg := d1.value < 0
-		conv.StringToInt64(str1, &d1.value)
-		if neg {
-			d1.value = -d1.value
+		if rmdr >= power10/2 {
+			d1.value++
+		} else if rmdr <= -power10/2 {
+			d1.value--
 		}
 	}
 
-- 
2.43.0


From cbc1f16a66fb8c1783cde26106cb8427bbdb87a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 09/59] fix: Decimal Mul rounds the exact product once, with
 the right scale, or overflows

---
 math/decimal.go | 139 +++++++++++++++---------------------------------
 1 file changed, 43 insertions(+), 96 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index b543991..07a9dda 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/bantling/micro/conv"
@@ -564,14 +563,12 @@ func (d Decimal) MustSub(o Decimal) Decimal {
 //
 // r = d * o is tried first
 // If r = 0, then return 0 scale 0.
-// If r / d = o, then if r > max value or < min value, we have a valid result 19 digits in length.
-//	- Round it to 18 with single divide by 10, and add 1 if remainder >= 5.
-//	- Given max int64 value starts with 92, divide by 10 and add 1 cannot go back up 19 digits.
+// If r / d = o, and r has at most 18 digits and scale, then return r.
 //
-// Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers, and get the base 10 string.
-// The resulting scale rs is d scale + o scale, and we need to round (length - 18) times:
-//  - Check that resulting scale >= length - 18. If not, the integer portion is too large, it is an overflow.
-//  - Otherwise, round length - 18 times to bring the result down to max of 18 digits.
+// Otherwise, use BigInt to multiply the two numbers, and get the base 10 string.
+// The resulting scale rs is d scale + o scale, and we need to drop enough digits to have at most 18 digits and scale:
+//  - Check that resulting scale >= number of digits to drop. If not, the integer portion is too large, it is an overflow.
+//  - Otherwise, round off the dropped digits (half up in magnitude).
 //
 // If the result is 0, return 0 scale 0, else return r scale rs.
 func (d Decimal) Mul(o Decimal) (Decimal, error) {
@@ -599,96 +596,46 @@ func (d Decimal) Mul(o Decimal) (Decimal, error) {
 		rpos = dpos == opos
 	)
 
-    // Flag to track if we have a 19 digit number that could possibly round to 18, if scale > 0
-    var round19 bool
-
-	// If result is 0, nothing more to do
-	if dval != 0 {
-		// If rval / dval != oval, the binary result overflowed, and we have to use a different technique
-		// Otherwise, it is possible we have a 19 digit value that we can try and round down to 18
-		// Since we already checked dval != 0, we cannot get division by zero
-		if round19 = rval / dval == oval; !round19 {
-		    // If the scale is 0, it is an integer value that must overflow
-            if rscale == 0 {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-			// We need a 128-bit result, so use BigInt
-            bi := big.NewInt(dval)
-            bi = bi.Mul(bi, big.NewInt(oval))
-
-            // Get result as a decimal string, converted to a slice of ascii bytes
-            base10 := []byte(bi.Text(10))
-
-            // Normalize by removing insignificant 0s at the end, as long as they are after the decimal
-            for (rscale > 0) && (base10[len(base10)-1] - '0' == 0) {
-                rscale--
-                base10 = base10[:len(base10)-1]
-            }
-
-            // The length of the string - result scale = number of integer digits
-            // It is an overflow if the number of integer digits > 18
-            if (len(base10) - int(rscale) > 18) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-
-            // While the total length > 18, round off decimal digits until it isn't
-            // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
-                rscale--
-            }
-
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
-            // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
-            rval, _ = strconv.ParseInt(string(base10), 10, 64)
-
-            // Add 1 if the final carry is 1 and final digit >= 5
-            // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
-                rval++
-
-                // It is possible we just added 1 to an 18 digit value that became a 19 digit value
-                round19 = true
-            }
+	// If result is 0, nothing more to do except limit the scale
+	if (dval == 0) || (oval == 0) {
+		rscale = MinOrdered(rscale, decimalMaxScale)
+	} else if (rval / dval != oval) || (rval > decimalMaxValue) || (rscale > decimalMaxScale) {
+		// The binary result overflowed, or it has too many digits or too large a scale, so some digits have to be dropped.
+		// We may need a 128-bit result, so use BigInt
+		var (
+			bi   = new(big.Int).Mul(big.NewInt(dval), big.NewInt(oval))
+			drop = uint(MaxOrdered(len(bi.Text(10))-decimalMaxScale, int(rscale)-decimalMaxScale))
+		)
+
+		// It is an overflow if there are more digits to drop than there are digits after the decimal point
+		if drop > rscale {
+			return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
 		}
-	}
 
-    if round19 && (rval > decimalMaxValue) {
-        // If we have no decimal digits, we cannot round
-        if rscale == 0 {
-            return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-        }
-
-        // Round one digit
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-
-            // If we have 18 9's, then adding 1 would make it 19 digits again
-            if (rval > decimalMaxValue) {
-                return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
-            }
-        }
-    }
-
-    // If rscale > 18, then we need to round off digits until it is down to 18
-    for rscale > 18 {
-        rmdr := rval % 10
-        rval /= 10
-        if rmdr >= 5 {
-            rval++
-        }
-        rscale--
-    }
+		// Drop all the digits at once, so that only one rounding occurs
+		var (
+			power10 = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(drop)), nil)
+			rmdr    = new(big.Int)
+		)
+		bi.QuoRem(bi, power10, rmdr)
+		rval = bi.Int64()
+		rscale -= drop
+
+		// Round up if remainder >= half the power of ten
+		if rmdr.Lsh(rmdr, 1).Cmp(power10) >= 0 {
+			rval++
+
+			// If we have 18 9's, then adding 1 makes it 19 digits again, with a final 0 that can be dropped if it is a decimal
+			if rval > decimalMaxValue {
+				if rscale == 0 {
+					return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
+				}
+
+				rval /= 10
+				rscale--
+			}
+		}
+	}
 
 	// Perform common final operations, regardless of which technique was used to get the result
 	if !rpos {
-- 
2.43.0


From 278420100f9d97688da092c273139da94833bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 10/59] fix: Decimal DivIntQuoRem reports divisors of 2^63 or
 more as larger than the dividend

---
 math/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index 07a9dda..7174fa6 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -673,7 +673,7 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
-- 
2.43.0


From 8bdd04d24f4014113f6f10121e2bf4e8ebcca894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 11/59] fix: Decimal DivIntAdd parts add up to the dividend
 when it is negative or the remainder has trailing zeros

---
 math/decimal.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 7174fa6..9e32e95 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -696,19 +696,24 @@ func (d Decimal) MustDivIntQuoRem(o uint) (Decimal, Decimal) {
 // EG, 100.00 / 3 = [33.34, 33.33, 33.33].
 // This method just calls DivIntQuoRem and spreads the remainder across the first remainder values returned.
 func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
-	// Get the quotient and remainder, returning (nil, error) if an error is returned
-	q, r, e := d.DivIntQuoRem(o)
+	// Get the quotient, returning (nil, error) if an error is returned
+	q, _, e := d.DivIntQuoRem(o)
 	if e != nil {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder is just a count of how many values need to be increased by 1 (decreased by 1 if d is negative)
+	// Use the remainder at the scale of d, since the decimal remainder may be normalized to a smaller scale
 	var (
-		rc  = r.value
-		res = make([]Decimal, o)
+		rc   = d.value % int64(o)
+		unit = int64(d.Sign())
+		res  = make([]Decimal, o)
 	)
+	if rc < 0 {
+		rc = -rc
+	}
 	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
+		res[i] = Decimal{scale: d.scale, value: q.value + funcs.Ternary(rc > 0, unit, 0), denormalized: d.denormalized}
 		rc--
 	}
 
-- 
2.43.0


From da06c94ec5d7902753574222ae97612b00d3b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 12/59] fix: Decimal Div reports a zero divisor, does not wrap,
 and keeps to 18 digits and scale, rounding correctly

---
 math/decimal.go | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 9e32e95..fe0cdf6 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -4,6 +4,7 @@ package math
 
 import (
 	"fmt"
+	gomath "math"
     "math/big"
 	"regexp"
 	"strings"
@@ -855,21 +856,29 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 		oval = -oval
 	}
 
+	// If o is 0, return division by zero error
+	if oval == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Start with plain old division
 	q := dval / oval
 	r := dval % oval
 
 	// Scale is dividend - divisor, could be negative
-	s := int(d.scale - o.scale)
+	s := int(d.scale) - int(o.scale)
 
 	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
+	// Move the whole part of r / oval into q each time, so that r does not exceed 64 bits unless oval is too large
 	// If the multiplications go beyond the limit of digits, we have to error out
 	for s < 0 {
+		tooLarge := (q > decimalMaxValue/10) || (r > gomath.MaxInt64/10)
 		q *= 10
 		r *= 10
 		s += 1
+		q, r = q+r/oval, r%oval
 
-		if q > decimalMaxValue {
+		if tooLarge || (q > decimalMaxValue) {
 			// Return over/underflow
 			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 		}
@@ -883,36 +892,32 @@ main_loop:
 			nq, nr, ns := q*10, r*10, s+1
 			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
 
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
+			// If quotient exceeds max value, or scale exceeds max scale, fall back on previous quotient, as most accurate
+			// result we can get
+			if (q > decimalMaxValue/10) || (ns > decimalMaxScale) {
 				// fmt.Println("ran out of digits")
 
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
-				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
+				// Is remainder at least half the divisor?
+				if r >= oval-r {
 					// fmt.Printf("Rounding up")
 					q++
+
+					// If we have 18 9's, then adding 1 makes it 19 digits, with a final 0 that can be dropped if it is a decimal
+					if q > decimalMaxValue {
+						if s == 0 {
+							return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
+						}
+
+						q /= 10
+						s--
+					}
 				}
 
 				break main_loop
 			}
 
 			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
+			if r > decimalMaxValue/10 {
 				// fmt.Println("exceeded max")
 				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 			}
-- 
2.43.0


From 4a624da614c124f3495bcd9acc79675d1d9e6fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 13/59] fix: BigFloatToBigRat lost all digits after the tenth

The conversion went through the ten digit text form of the float, so
FloatToBigRat, FloatToInt and FloatToUint returned a wrong number with no
error for floats with more than ten significant digits.
---
 conv/bigrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..9a83195 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -49,7 +49,8 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	// A finite *big.Float is always exactly representable as a ratio
+	*oval, _ = ival.Rat(big.NewRat(1, 1))
 	return nil
 }
 
-- 
2.43.0


From b0242e1026616ad9eae18128aced53bbfb8444a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 14/59] fix: UintToBigFloat rounded values of more than 53 bits

---
 conv/bigfloat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 709b853..34a6bfc 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"math/bits"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -21,7 +22,9 @@ func IntToBigFloat[T constraint.SignedInteger](ival T, oval **big.Float) {
 
 // UintToBigFloat converts any unsigned int type into a *big.Float
 func UintToBigFloat[T constraint.UnsignedInteger](ival T, oval **big.Float) {
-	*oval = big.NewFloat(0).SetUint64(uint64(ival))
+	// Use at least as much precision as a float64, and enough for every bit of the value
+	prec := uint(math.Max(53, float64(bits.Len64(uint64(ival)))))
+	*oval = big.NewFloat(0).SetPrec(prec).SetUint64(uint64(ival))
 }
 
 // FloatToBigFloat converts any float type into a *big.Float
-- 
2.43.0


From ad6a41a851d5b282c3d936c89c726963f604aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 15/59] fix: BigFloatToString dropped all digits after the
 tenth

---
 conv/string.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conv/string.go b/conv/string.go
index e6f846d..c9926b3 100755
--- a/conv/string.go
+++ b/conv/string.go
@@ -32,8 +32,9 @@ func BigIntToString(val *big.Int) string {
 }
 
 // BigFloatToString converts a *big.Float to a string
+// The string has as many digits as are needed to distinguish the value from any other value of the same precision.
 func BigFloatToString(val *big.Float) string {
-	return val.String()
+	return val.Text('f', -1)
 }
 
 // BigRatToString converts a *big.Rat to a string.
@@ -51,5 +52,5 @@ func BigRatToNormalizedString(val *big.Rat) string {
 
 	var inter *big.Float
 	BigRatToBigFloat(val, &inter)
-	return inter.String()
+	return BigFloatToString(inter)
 }
-- 
2.43.0


From 6990bf2cc9f63e8b2f2405df225a5c534620f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 16/59] fix: To rounded big values that are not exactly a
 float32

---
 conv/conv.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..1726bbe 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -697,21 +697,24 @@ var (
 			if err := BigIntToFloat64(t.(*big.Int), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			// An exact float64 may still need rounding to be a float32
+			return BigIntToFloat32(t.(*big.Int), u.(*float32))
 		},
 		"*big.Floatfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigFloatToFloat64(t.(*big.Float), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			// An exact float64 may still need rounding to be a float32
+			return BigFloatToFloat32(t.(*big.Float), u.(*float32))
 		},
 		"*big.Ratfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigRatToFloat64(t.(*big.Rat), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			// An exact float64 may still need rounding to be a float32
+			return BigRatToFloat32(t.(*big.Rat), u.(*float32))
 		},
 		"stringfloat32": func(t any, u any) error {
 			return StringToFloat32(t.(string), u.(*float32))
-- 
2.43.0


From 0a4869de6feedfbdd894e4b0098fae60a49000d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 17/59] fix: To and ToBigOps copies of big values shared digits
 with the original

---
 conv/conv.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 1726bbe..a838a59 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1012,6 +1012,19 @@ var (
 	}
 )
 
+// copyBig copies the value of a big type into another of the same type, which does not share any storage with the source.
+// Just copying the struct would share the digits.
+func copyBig(src, dst any) {
+	switch s := src.(type) {
+	case *big.Int:
+		dst.(*big.Int).Set(s)
+	case *big.Float:
+		dst.(*big.Float).Copy(s)
+	case *big.Rat:
+		dst.(*big.Rat).Set(s)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1048,7 +1061,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1143,7 +1156,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From 1156d53b6290d3ed0ab5d1fbdf6609fe78441597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 18/59] fix: ToBigOps panicked for a subtype of a numeric type

---
 conv/conv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/conv.go b/conv/conv.go
index a838a59..ef3d044 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1136,8 +1136,9 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 		return fmt.Errorf(errONonNilMsg, o)
 	}
 
+	// If i is a subtype, convert it to the base type, so we can find a conversion function
 	var (
-		ival = goreflect.ValueOf(i)
+		ival = reflect.ValueToBaseType(goreflect.ValueOf(i))
 		ityp = ival.Type()
 		oval = goreflect.ValueOf(o) // o cannot be nil, but o.Elem() can be nil
 		otyp = oval.Type().Elem()   // o.Type().Elem() cannot be nil
-- 
2.43.0


From b381aca3279dc3ee022fb1e461ac34295fafa250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 19/59] fix: AnyTo panicked for a nil input

---
 conv/conv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conv/conv.go b/conv/conv.go
index ef3d044..27377ec 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1084,6 +1084,11 @@ func MustTo[I, O constraint.Numeric | string](i I, o *O) {
 // AnyTo is a version of To that accepts input values of type any
 // The output value must still satisfy constraint.Numeric | string
 func AnyTo[O constraint.Numeric | string](i any, o *O) error {
+	// A nil input has no type to convert from
+	if i == nil {
+		return fmt.Errorf(errAnyToInvalidIMsg, "nil")
+	}
+
 	var (
 		iv   = goreflect.ValueOf(i)
 		ival = reflect.ValueToBaseType(iv).Interface()
-- 
2.43.0


From 801451e4f278309febe6aadad100382046952c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 20/59] fix: FloatToFloat did not check the range of a subtype
 of float32

---
 conv/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/float.go b/conv/float.go
index 219fd77..0997bb9 100755
--- a/conv/float.go
+++ b/conv/float.go
@@ -43,7 +43,7 @@ func FloatToFloat[I constraint.Float, O constraint.Float](ival I, oval *O) error
 		return nil
 	}
 
-	if _, isa := any(oval).(*float32); isa && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
+	if (NumBits(*oval) == 32) && (((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32)) || (math.Abs(ival64) > math.MaxFloat32)) {
 		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%g", ival64), "float32")
 	}
 
-- 
2.43.0


From 8d68d758464ee64d527c6c465927ce4e97c14dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 21/59] fix: MapIterGen panicked for a nil key or value of an
 interface type

---
 iter/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..74494c6 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,10 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// A nil value of an interface type fails an ordinary type assertion, the zero value is correct for it
+		k, _ := mi.Key().Interface().(K)
+		v, _ := mi.Value().Interface().(V)
+		return tuple.Of2(k, v), nil
 	}
 }
 
-- 
2.43.0


From cefcb584daf9d7e532cce0713a5b1420e2f238dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 22/59] fix: OfResultError panicked for an error with a nil
 value of an interface type

---
 union/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..4ce0281 100755
--- a/union/union.go
+++ b/union/union.go
@@ -177,7 +177,8 @@ func OfError[R any](err error) Result[R] {
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
 		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		// The zero value of an interface type is nil, which has no valid reflect.Value
+		if rv := goreflect.ValueOf(r); rv.IsValid() && !rv.IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From 145a0c3675d65903a54cb14ca697c494858372b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 23/59] fix: line iteration lost an empty or terminated line
 after an earlier CR

---
 iter/gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iter/gen.go b/iter/gen.go
index 74494c6..e71de72 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -391,6 +391,7 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From a5775181d58837258b54fdca8875c94d5aa86667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 24/59] fix: ReaderIterGen lost a byte read along with an
 error, added one for an empty read, and did not repeat an error

---
 iter/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index e71de72..1429f23 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -192,12 +192,13 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		// ReadFull reads again after 0 bytes, and ignores an error that occurs along with the byte until the next read
+		if _, err = goio.ReadFull(src, buf); err != nil {
 			done = true
 			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
-- 
2.43.0


From b9818b30d1527417d8525ccb1e5b65efe78e19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 25/59] fix: rune iteration failed on short reads, lost a byte
 read along with an error, and did not repeat a decoding error

---
 iter/gen.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 1429f23..f0dedd6 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -236,12 +236,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -251,12 +251,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		if _, err = goio.ReadFull(src, buf[0:1]); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -288,9 +287,11 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
+		if _, err = goio.ReadFull(src, buf[0:eb]); err != nil {
+			done = true
+
 			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
+			if (err == goio.EOF) || (err == goio.ErrUnexpectedEOF) {
 				err = InvalidUTF8EncodingError
 			}
 
@@ -302,6 +303,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -326,6 +328,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 			// Cannot exceed maximum value
 			if r > utf8.MaxRune {
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
-- 
2.43.0


From ce27f3ba0771e0ff42342c54b5c1255213d0ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 26/59] fix: rune iteration accepted surrogates and overlong
 UTF-8 encodings

---
 iter/gen.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index f0dedd6..3203a47 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -326,12 +326,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				done = true
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		}
+
+		// Cannot exceed maximum value, be a surrogate, or be encoded in more bytes than necessary
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From 57c7ecf1e1342fea587cde94155370389482fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 27/59] fix: AbsBigOps modified the elements of the source iter

---
 stream/stream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..d96acfb 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -901,7 +901,9 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		// Use a new value, so the element of the source iter is not modified
+		abs := reflect.New(reflect.TypeOf(v).Elem()).Interface().(T)
+		return abs.Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From 32dc4b8afabc2f13fda21009686d36932284f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 28/59] fix: ExpandMaps panicked for a nil key or value of an
 interface type

---
 stream/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index d96acfb..9a9143f 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -589,9 +589,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// A nil key or value of an interface type fails an ordinary type assertion, the zero value is correct for it
+		k, _ := mr.Key().Interface().(K)
+		v, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(k, v), nil
 	})
 }
 
-- 
2.43.0


From 36dc3fac8a84ea903ab74a39dc5be5d651285042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 29/59] fix: Parallel kept unprocessed elements for filtering
 transforms, and panicked for expanding transforms or two interface types

---
 stream/stream.go | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 9a9143f..1dd85f6 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1182,8 +1182,8 @@ func generateRanges(numItems uint, info []PInfo) [][]uint {
 // If the input has one item, the transforms are performed in the same thread.
 // If the input has two or more items, the above algorithm is used to perform transforms in two or more threads.
 //
-// If types T and U are the same, then a single slice is allocated to contain the input and modified in place to produce
-// the output. Otherwise, two slices are allocated, one for input and one for output.
+// The results of the threads are combined in the order of the input. The transforms may produce fewer or more elements
+// than they receive.
 func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInfo) func(iter.Iter[T]) iter.Iter[U] {
 	return func(source iter.Iter[T]) iter.Iter[U] {
 		// Get values into a slice
@@ -1209,42 +1209,29 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 		// At least two items, as required by generateRanges. Get slice ranges.
 		sliceRanges := generateRanges(numItems, info)
 
-		// Determine a slice to use for the output
+		// Create a WaitGroup that can wait for all threads to complete.
+		// Each thread has a separate output slice, as the number of elements the transforms produce may differ from the
+		// number of elements they receive.
 		var (
-			zt     T
-			zu     U
-			output []U
-		)
-		if reflect.TypeOf(zt) == reflect.TypeOf(zu) {
-			// T and U are the same type, modify input slice in place
-			output = any(input).([]U)
-		} else {
-			// Create a separate output slice
-			output = make([]U, numItems)
-		}
-
-		// Create a WaitGroup that can wait for all threads to complete
-		var (
-			wg   sync.WaitGroup
-			errs = make([]error, len(sliceRanges))
+			wg      sync.WaitGroup
+			outputs = make([][]U, len(sliceRanges))
+			errs    = make([]error, len(sliceRanges))
 		)
 
-		// The function to execute in each thread, accepting source and target subslices
-		threadFn := func(threadNum int, in []T, out []U) {
+		// The function to execute in each thread, accepting source subslice
+		threadFn := func(threadNum int, in []T) {
 			// Decrement number of threads remaining once transforms are complete
 			defer wg.Done()
 
-			// Perform transforms and copy to output
-			_, threadErr := ReduceIntoSlice(out)(transforms(iter.OfSlice(in))).Next()
-
+			// Perform transforms and populate the appropriate outputs slot
 			// In case an error occurs, populate the appropriate errs slot
-			errs[threadNum] = threadErr
+			outputs[threadNum], errs[threadNum] = ReduceToSlice(transforms(iter.OfSlice(in))).Next()
 		}
 
 		// Create the threads, passing a subslice of input to each thread for processing
 		for threadNum, sliceRange := range sliceRanges {
 			wg.Add(1)
-			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]], output[sliceRange[0]:sliceRange[1]])
+			go threadFn(threadNum, input[sliceRange[0]:sliceRange[1]])
 		}
 
 		// Wait for threads to complete
@@ -1259,6 +1246,6 @@ func Parallel[T, U any](transforms func(iter.Iter[T]) iter.Iter[U], info ...PInf
 			}
 		}
 
-		return funcs.Ternary(err == nil, iter.OfSlice(output), iter.SetError(iter.OfEmpty[U](), err))
+		return funcs.Ternary(err == nil, ExpandSlices(iter.OfSlice(outputs)), iter.SetError(iter.OfEmpty[U](), err))
 	}
 }
-- 
2.43.0


From 854c1735366e75e78565e8436232f54cbe85b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 30/59] fix: SliceFlatten panics on nil elements of an
 interface type

---
 funcs/funcs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..a99ab2a 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -127,7 +127,9 @@ func SliceFlatten[T any](value any) []T {
 			if val.Kind() == reflect.Slice {
 				f(val)
 			} else {
-				rslc = append(rslc, val.Interface().(T))
+				// If T is an interface type, a nil element is the zero value of T
+				elem, _ := val.Interface().(T)
+				rslc = append(rslc, elem)
 			}
 		}
 	}
-- 
2.43.0


From 8b917838c392d8badf2ce09ee953fd2bbc00e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 31/59] fix: OrderedTuple2SliceAdd inserts a smallest key after
 the first key

---
 funcs/funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index a99ab2a..e8828bd 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -684,6 +684,10 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		// index of matching tuple, replace tuple with new tuple that has value appended to slice
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
+	case (*mp)[index].T > key:
+		// key is smaller than every existing key, insert new tuple before all others
+		*mp = append([]tuple.Two[K, []V]{tuple.Of2(key, []V{value})}, *mp...)
+
 	default:
 		// index of tuple that a new tuple should be inserted after
 		// due to pointer used for original slice, we have to start building from an empty slice
-- 
2.43.0


From 2abf3cf16a6979e5f7a581add7f80bfa16e06409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 32/59] fix: SnakeToCamelCase panics on an empty string or
 empty word

---
 funcs/funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index e8828bd..976f53d 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -1373,6 +1373,10 @@ func TryTo(tryFn func(), panicFn func(any), closers ...func()) {
 func SnakeToCamelCase(snake string) string {
 	var sb strings.Builder
 	for _, word := range strings.Split(snake, "_") {
+		if word == "" {
+			continue
+		}
+
 		sb.WriteString(strings.ToUpper(string(word[0])))
 		sb.WriteString(string(word[1:]))
 	}
-- 
2.43.0


From b974fa65d97b9057b06365efdc7b6f6762933f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 33/59] fix: CamelCaseToSnakeCase panics on an empty string

---
 funcs/funcs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 976f53d..09388d1 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -1385,7 +1385,12 @@ func SnakeToCamelCase(snake string) string {
 }
 
 // CamelCaseToSnakeCase converts [cC]amelCase to snake_case
+// If the input is empty, the result is empty
 func CamelCaseToSnakeCase(camel string) string {
+	if camel == "" {
+		return ""
+	}
+
 	var (
 		sb       strings.Builder
 		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
-- 
2.43.0


From 14416eb87cf21d2b790d16a9f0c5326bbf82a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 34/59] fix: CamelCaseToSnakeCase drops digits

---
 funcs/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index 09388d1..d832327 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -36,7 +36,7 @@ const (
 
 var (
 	// ucaseRegexp is a regexp for uppercase chars
-	camelWordsRegexp = regexp.MustCompile("[A-Z][a-z]*")
+	camelWordsRegexp = regexp.MustCompile("[A-Z][^A-Z]*")
 )
 
 // ==== Slices
-- 
2.43.0


From a57246eaece0f1cc2a3173009fd0651ec6354950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 35/59] fix: OfResultError accepts a non-nil interface value
 that contains a zero value together with an error

---
 union/union.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/union.go b/union/union.go
index 4ce0281..faff1ff 100755
--- a/union/union.go
+++ b/union/union.go
@@ -177,8 +177,8 @@ func OfError[R any](err error) Result[R] {
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
 		// R is not comparable
-		// The zero value of an interface type is nil, which has no valid reflect.Value
-		if rv := goreflect.ValueOf(r); rv.IsValid() && !rv.IsZero() {
+		// If R is an interface type, the zero value is nil, regardless of what the value contained is
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From b370dcc92e7b2b9b171c6791ffe32aec428371b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 36/59] fix: reflective access to a Maybe panics on a non-nil
 pointer to a nil pointer

---
 union/reflect/reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 0d0e0ec..31e7769 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -36,11 +36,11 @@ func GetMaybeType(typ goreflect.Type) goreflect.Type {
 // safeMaybeAccess returns true if the given reflect.Value can safely be accessed as a Maybe value, which is true if:
 // - The reflect.Value is valid
 // - GetMaybeType(val.Type()) returns a non-nil reflect.Type
-// - The reflect.Value is a non-nil pointer or a value
+// - The reflect.Value is a value, or zero or more non-nil pointers to a value
 func safeMaybeAccess(val goreflect.Value) bool {
 	return val.IsValid() &&
 		(GetMaybeType(val.Type()) != nil) &&
-		((val.Kind() != goreflect.Pointer) || !val.IsNil())
+		reflect.DerefValue(val).IsValid()
 }
 
 // MaybeValueIsPresent indicates if the given reflect.Value wraps a present Maybe. which is true if:
-- 
2.43.0


From 3b90fbf9fbae2b435d67e0ae10022a7823d79002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 37/59] fix: SetMaybeValue panics instead of returning an error
 when the value is not a T

---
 union/reflect/reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/union/reflect/reflect.go b/union/reflect/reflect.go
index 31e7769..c763704 100755
--- a/union/reflect/reflect.go
+++ b/union/reflect/reflect.go
@@ -17,6 +17,7 @@ var (
 var (
 	errGetMaybeValueEmptyMsg         = "Cannot get the Maybe value of an empty %s"
 	errSetMaybeValueUnsafeMsg        = "Cannot set the Maybe value of type %s"
+	errSetMaybeValueTypeMsg          = "Cannot set the Maybe value of type %s to a value of type %s"
 	errSetMaybeValueUnaddressableMsg = "Cannot set the Maybe value of type %s as it is not a pointer and not addressable"
 )
 
@@ -76,6 +77,10 @@ func SetMaybeValue(dst, val goreflect.Value) error {
 		return fmt.Errorf(errSetMaybeValueUnaddressableMsg, reflect.TypeOf(dst))
 	}
 
+	if !val.IsValid() || !val.Type().AssignableTo(GetMaybeType(dst.Type())) {
+		return fmt.Errorf(errSetMaybeValueTypeMsg, reflect.TypeOf(dst), reflect.TypeOf(val))
+	}
+
 	reflect.DerefValue(dst).Addr().MethodByName("Set").Call([]goreflect.Value{val})
 	return nil
 }
-- 
2.43.0


From cd4158f9bcb3d564f764382ae949812e33fefef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 38/59] fix: a JSON string ends at an escaped quote written as
 \u0022

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..d56fd81 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,7 +199,9 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
-				val = hexVal
+				// An escaped double quote must not be taken for the closing quote
+				str = append(str, hexVal)
+				continue
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
-- 
2.43.0


From 26ea8eeb432497ce0ebcb6e163651dd19a69e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 39/59] fix: a negative JSON number with a leading zero is
 accepted

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index d56fd81..94b620d 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -262,11 +262,13 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+			// The first digit may follow a minus sign
+			leadingZero = (!haveDigit) && (val == '0')
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From 7ee4936eacc232939f08c2af9353ab48ca20df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 40/59] fix: JSON punctuation is accepted where a value is
 required

---
 encoding/json/parse/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..3887a1d 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -134,6 +134,9 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value) // Case 14
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -202,6 +205,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValueOrBracket // Case 12
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +239,9 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				return zv, errArrayRequiresValue // Case 13
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From 75ff43934b43a99f2f2b65785a5d8acfddc3c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 41/59] fix: a comma is accepted before the closing brace of a
 JSON object

---
 encoding/json/parse/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 3887a1d..8747509 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -93,7 +93,7 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 		}
 
 		// If closing brace, valid empty object
-		if key.typ == tCBrace {
+		if (key.typ == tCBrace) && (len(object) == 0) {
 			return json.MapToValue(object)
 		}
 
-- 
2.43.0


From dbd6e935d3fddfcc005eab27fc0229c205385310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 42/59] fix: a NumberString that only contains a number is
 accepted as a JSON number

---
 encoding/json/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..f7f332c 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][-+]?[0-9]+)?$")
 
 // Error constants
 var (
-- 
2.43.0


From c96283ca5001bccb7fa78ca4f572053cee9cda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 43/59] fix: infinities and NaN are accepted as JSON numbers

---
 encoding/json/value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index f7f332c..28a6d14 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -227,8 +227,9 @@ func numberToValue(val any) (nval Value, err error) {
 			return
 		}
 
-		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A NumberString could be the empty string, or "foo" or some other value that is not a number.
+		// Floating point types may contain an infinity or NaN.
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From 337a64b6d0881467c5313c77a76c5ae0fa3faf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 44/59] fix: ToValue fails for map[string]Value and []Value

---
 encoding/json/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 28a6d14..466339d 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -79,8 +79,14 @@ var (
 
 // toValue is common code for ToValue, MapToValue, and SliceToValue
 func toValue(val any) (res Value, err error) {
-	// Object
-	if mp, isa := val.(map[string]any); isa {
+	// Object or array of values
+	if mp, isa := val.(map[string]Value); isa {
+		return MapToValue(mp)
+	} else if arr, isa := val.([]Value); isa {
+		return SliceToValue(arr)
+
+		// Object
+	} else if mp, isa := val.(map[string]any); isa {
 		// recursive call
 		if res, err = MapToValue(mp); err != nil {
 			return
-- 
2.43.0


From b423c52e9c37716732d00b5997e3ac2896ff67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 45/59] fix: ToValue panics for a string of a named type

---
 encoding/json/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 466339d..00a38b2 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -116,7 +116,7 @@ func toValue(val any) (res Value, err error) {
 			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
 				res, err = numberToValue(val.(NumberString))
 			} else {
-				res = StringToValue(val.(string))
+				res = StringToValue(goreflect.ValueOf(val).String())
 			}
 
 			return
-- 
2.43.0


From c3859bebc5b491529c2820e988f9996f91e8c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 46/59] fix: strings and keys are written without escapes,
 giving invalid JSON

---
 encoding/json/write/write.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..e930afe 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -3,11 +3,31 @@ package write
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"fmt"
+
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
 )
 
+// quote encloses a string in double quotes, escaping the characters that cannot appear in a JSON string
+func quote(str string) []rune {
+	res := []rune{'"'}
+
+	for _, r := range str {
+		switch {
+		case (r == '"') || (r == '\\'):
+			res = append(res, '\\', r)
+		case r < ' ':
+			res = append(res, []rune(fmt.Sprintf("\\u%04x", r))...)
+		default:
+			res = append(res, r)
+		}
+	}
+
+	return append(res, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +36,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(quote(jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +66,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(append(data, quote(k)...), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From 1e50af4d5a077f648882c57db6b97d96511896af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 47/59] fix: ErrorReader panics when a read that is not the
 first asks for more bytes than remain

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From 384f2587bf1998dc0dfb8fea54d7c3cb70515fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 48/59] fix: registering a handler while requests are served is
 a data race

Handle is documented as callable any time, even while HTTP requests are being served, but ServeHTTP read the slice of
handlers without synchronisation.
---
 rest/rest.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..c14643a 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -43,6 +44,9 @@ func (hf HandlerFunc) Serve(w http.ResponseWriter, r *http.Request, urlParts []s
 // the URL alone like the http.ServeMux implementation.
 // The zero value is ready to use.
 type ServeMux struct {
+	// Handle can be called while requests are being served, the lock guards handlers
+	lock sync.RWMutex
+
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
@@ -74,6 +78,9 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.lock.Lock()
+	defer sm.lock.Unlock()
+
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +92,19 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	// Get the handlers added so far. The lock is not held while serving the request, as a handler may call Handle.
+	sm.lock.RLock()
+	handlers := sm.handlers
+	sm.lock.RUnlock()
+
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0


From 51f1680a18621f4876d89a001de55d5206e4960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:43 +0000
Subject: [PATCH 49/59] fix: setting the base path again removes the contents
 of the second path

It is documented to panic.
---
 code/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/api.go b/code/api.go
index 458a9be..4a3bfe7 100755
--- a/code/api.go
+++ b/code/api.go
@@ -68,7 +68,7 @@ func (bg BaseGenerator) GetBasePath() string {
 // SetBasePath panics if the base path has already been set
 func (bg *BaseGenerator) SetBasePath(bp string) {
 	// Die if base path has already been set
-	bg.basePath.SetOrError(bp)
+	funcs.Must(bg.basePath.SetOrError(bp))
 
 	// Use clean path
 	cleanPath := path.Clean(bp)
-- 
2.43.0


From e3bc5760f2f9b8f7fd37fe5a3eb6cab1b3b59b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:43 +0000
Subject: [PATCH 50/59] fix: generated directories have no permissions

Only the superuser could create anything in them.
---
 code/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/api.go b/code/api.go
index 4a3bfe7..4b23e77 100755
--- a/code/api.go
+++ b/code/api.go
@@ -78,7 +78,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 	if err != nil {
 		if os.IsNotExist(err) {
 			// Doesn't exist is ok, we'll just create all the parts that are missing for it
-			if err = os.MkdirAll(cleanPath, fs.ModeDir); err != nil {
+			if err = os.MkdirAll(cleanPath, fs.ModePerm); err != nil {
 				// Could not create some part
 				panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 			}
@@ -93,7 +93,7 @@ func (bg *BaseGenerator) SetBasePath(bp string) {
 			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
 		}
 
-		if err = os.Mkdir(cleanPath, fs.ModeDir); err != nil {
+		if err = os.Mkdir(cleanPath, fs.ModePerm); err != nil {
 			// Could not recreate path
 			panic(fmt.Errorf(errBasePathCreateMsg, cleanPath, err))
 		}
@@ -110,7 +110,7 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errDirExistsInBasePathMsg, dirPath, bg.basePath))
 	}
 
-	if err := os.MkdirAll(dirPath, fs.ModeDir); err != nil {
+	if err := os.MkdirAll(dirPath, fs.ModePerm); err != nil {
 		// Could not create dir under base path
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
-- 
2.43.0


From 0bcad6e7b0cb8dcdbdaea518ad66a5db655f0457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:43 +0000
Subject: [PATCH 51/59] fix: Dir panics and does not set the current directory

The set of directories was never allocated, and Src created its files in the root directory.
---
 code/api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/api.go b/code/api.go
index 4b23e77..3e04650 100755
--- a/code/api.go
+++ b/code/api.go
@@ -115,7 +115,12 @@ func (bg *BaseGenerator) Dir(name string) {
 		panic(fmt.Errorf(errCreateDirInBasePathMsg, dirPath, err))
 	}
 
+	if bg.dirs == nil {
+		bg.dirs = map[string]bool{}
+	}
+
 	bg.dirs[dirPath] = true
+	bg.currentDir = dirPath
 }
 
 // Src panics if the file already exists
-- 
2.43.0


From 3bac0431b1fbffc37ff0abb27edb154c46e6bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 52/59] fix: small ratios convert to zero or lose precision as
 *big.Float

---
 conv/bigfloat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 34a6bfc..559bf76 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -51,7 +51,7 @@ func BigIntToBigFloat(ival *big.Int, oval **big.Float) {
 func BigRatToBigFloat(ival *big.Rat, oval **big.Float) {
 	// Use numerator to calculate the precision, shd be accurate since denominator is basically the exponent
 	prec := int(math.Ceil(math.Max(float64(53), float64(len(ival.Num().String()))*log2Of10)))
-	*oval, _, _ = big.ParseFloat(ival.FloatString(prec), 10, uint(prec), big.ToNearestEven)
+	*oval = new(big.Float).SetPrec(uint(prec)).SetRat(ival)
 
 	// Set accuracy to exact
 	(*oval).SetMode((*oval).Mode())
-- 
2.43.0


From c000d5a639ab1da0fa535447cec81868728fd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 53/59] fix: BigRatToBigInt returned a reference to the
 numerator of its argument

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..ff5be83 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Num returns a reference to the numerator of ival
+	*oval = new(big.Int).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From 54bb02df19f6fd731e87011f02ea61ed589dcc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 54/59] fix: SliceFlatten panicked for a one dimensional slice
 of a named type

---
 funcs/funcs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index d832327..ae37c27 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -113,7 +113,8 @@ func SliceFlatten[T any](value any) []T {
 
 	// If original value is already one dimenion return it by reference
 	if numDims == 1 {
-		return value.([]T)
+		// The slice may be of a named type
+		return vslc.Convert(reflect.TypeOf(rslc)).Interface().([]T)
 	}
 
 	// Recursively iterate all dimensions of the given slice, some dimensions might be empty
-- 
2.43.0


From 9bec55f8419944236e059b531745bc7a291781cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:53 +0000
Subject: [PATCH 55/59] fix: sum and average of big floats lost the precision
 of the elements

---
 stream/stream.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index 1dd85f6..2922e7c 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -900,12 +900,17 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 	})(it)
 }
 
+// newBigOps allocates a zero value. A *big.Float allocated this way takes on the largest precision of its operands.
+func newBigOps[T constraint.BigOps[T]]() T {
+	var zv T
+	return reflect.New(reflect.TypeOf(zv).Elem()).Interface().(T)
+}
+
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
 		// Use a new value, so the element of the source iter is not modified
-		abs := reflect.New(reflect.TypeOf(v).Elem()).Interface().(T)
-		return abs.Abs(v)
+		return newBigOps[T]().Abs(v)
 	})(it)
 }
 
@@ -1004,31 +1009,29 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return iter.OfIter(
 		func() (T, error) {
 			var (
-				sum   T
-				count T
-				one   T
-				val   T
-				avg   T
-				zv    T
-				err   error
+				sum     = newBigOps[T]()
+				count   int64
+				divisor T
+				val     T
+				avg     = newBigOps[T]()
+				zv      T
+				err     error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
-					sum.Add(sum, val)
-					count.Add(count, one)
+					sum = newBigOps[T]().Add(sum, val)
+					count++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if count == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
-					math.DivBigOps(sum, count, &avg)
+					conv.ToBigOps(count, &divisor)
+					math.DivBigOps(sum, divisor, &avg)
 					break
 				} else {
 					return zv, err
@@ -1089,12 +1092,9 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
-	var sum T
-	conv.ToBigOps(0, &sum)
-
 	return Reduce(
 		func(a, b T) T {
-			return sum.Add(a, b)
+			return newBigOps[T]().Add(a, b)
 		},
 	)(it)
 }
-- 
2.43.0


From aa39a59a95e6a90855f6d4d850798c3ff7ad7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:03 +0000
Subject: [PATCH 56/59] fix: Generator keeps its state while it is applied to
 the same iterator

---
 stream/stream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 2922e7c..c1c7156 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -712,7 +712,8 @@ func Generator[T, U any](gen func() func(iter.Iter[T]) iter.Iter[U]) func(iter.I
 	)
 
 	return func(it iter.Iter[T]) iter.Iter[U] {
-		if currentIter != it {
+		if (fn == nil) || (currentIter != it) {
+			currentIter = it
 			fn = gen()
 		}
 
-- 
2.43.0


From 4eb9f3d986ec91b216f8e45b7dc977cbf1da3b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:28 +0000
Subject: [PATCH 57/59] fix: case conversion handles words that begin with a
 letter outside ASCII

---
 funcs/funcs.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index ae37c27..f814538 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/tuple"
@@ -35,8 +36,8 @@ const (
 )
 
 var (
-	// ucaseRegexp is a regexp for uppercase chars
-	camelWordsRegexp = regexp.MustCompile("[A-Z][^A-Z]*")
+	// camelWordsRegexp is a regexp for words that begin with an uppercase char
+	camelWordsRegexp = regexp.MustCompile("\\p{Lu}\\P{Lu}*")
 )
 
 // ==== Slices
@@ -1378,8 +1379,9 @@ func SnakeToCamelCase(snake string) string {
 			continue
 		}
 
-		sb.WriteString(strings.ToUpper(string(word[0])))
-		sb.WriteString(string(word[1:]))
+		first, size := utf8.DecodeRuneInString(word)
+		sb.WriteString(strings.ToUpper(string(first)))
+		sb.WriteString(word[size:])
 	}
 
 	return sb.String()
@@ -1393,14 +1395,16 @@ func CamelCaseToSnakeCase(camel string) string {
 	}
 
 	var (
-		sb       strings.Builder
-		words    = camelWordsRegexp.FindAllString(strings.ToUpper(string(camel[0]))+camel[1:], -1)
-		lastWord = len(words) - 1
+		sb          strings.Builder
+		first, size = utf8.DecodeRuneInString(camel)
+		words       = camelWordsRegexp.FindAllString(strings.ToUpper(string(first))+camel[size:], -1)
+		lastWord    = len(words) - 1
 	)
 
 	for i, word := range words {
-		sb.WriteString(strings.ToLower(string(word[0])))
-		sb.WriteString(word[1:])
+		first, size = utf8.DecodeRuneInString(word)
+		sb.WriteString(strings.ToLower(string(first)))
+		sb.WriteString(word[size:])
 		if i < lastWord {
 			sb.WriteRune('_')
 		}
-- 
2.43.0


From 92fc0ef794371822951987ebd98dd6ad30f3755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:55 +0000
Subject: [PATCH 58/59] fix: conversion of text that is an infinity to *big.Rat
 returns an error, not a nil *big.Rat

---
 conv/bigrat.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 9a83195..c03ff71 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -87,8 +87,11 @@ func FloatStringToBigRat(ival string, oval **big.Rat) error {
 		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
 	}
 
-	// If it is a float string, cannot fail to be parsed by StringToBigRat
-	StringToBigRat(ival, oval)
+	// An infinity, or a number whose exponent is too large, is a float string that cannot be a *big.Rat
+	if err = StringToBigRat(ival, oval); err != nil {
+		return fmt.Errorf("The float string value of %s cannot be converted to *big.Rat", ival)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 89d790a65d8515a7ad8b0ccbbf388ef9f28505bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:55 +0000
Subject: [PATCH 59/59] fix: conversion of text whose exponent is too large or
 small for *big.Float returns an error, not an infinity or zero

---
 conv/bigfloat.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/conv/bigfloat.go b/conv/bigfloat.go
index 559bf76..f12034b 100755
--- a/conv/bigfloat.go
+++ b/conv/bigfloat.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"math/big"
 	"math/bits"
+	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/funcs"
@@ -72,6 +73,18 @@ func StringToBigFloat(ival string, oval **big.Float) error {
 		return fmt.Errorf(errMsg, ival, ival, "*big.Float")
 	}
 
+	// A number whose exponent is too large or too small is parsed as an infinity or zero with no error
+	if (*oval).IsInf() || ((*oval).Sign() == 0) {
+		var (
+			digits   = funcs.Ternary((*oval).IsInf(), "0123456789", "123456789")
+			mantissa = strings.FieldsFunc(ival, func(r rune) bool { return strings.ContainsRune("eEpP", r) })[0]
+		)
+
+		if strings.ContainsAny(mantissa, digits) {
+			return fmt.Errorf(errMsg, ival, ival, "*big.Float")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0

