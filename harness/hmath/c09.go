package hmath

import (
	"math/big"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// cmpSpec compares v1 * 10^-s1 and v2 * 10^-s2.
func cmpSpec(v1 int64, s1 uint, v2 int64, s2 uint) int {
	a := new(big.Int).Mul(big.NewInt(v1), pow10(18-s1))
	b := new(big.Int).Mul(big.NewInt(v2), pow10(18-s2))
	return a.Cmp(b)
}

func checkCmp(s1, s2 uint, lo, hi int64) {
	d1, v1 := decimal(s1, true)
	d2, v2 := decimal(s2, true)
	sym.Assume(v1 == 0 || v1 >= lo && v1 <= hi || -v1 >= lo && -v1 <= hi)
	sym.Assume(v2 == 0 || v2 >= lo && v2 <= hi || -v2 >= lo && -v2 <= hi)
	got := d1.Cmp(d2)
	sym.Observe(got)
	sym.Assert(got == cmpSpec(v1, s1, v2, s2), "Cmp: not the numeric order")
}

// C09_CmpSmall: values of up to 3 digits (thorough 5), scales 0 to 4, both signs.
func C09_CmpSmall() {
	hi := int64(999)
	if sym.Thorough() {
		hi = 99_999
	}
	checkCmp(uint(sym.Choice(5)), uint(sym.Choice(5)), 0, hi)
}

var cmpScales = []uint{0, 2, 17, 18, 1, 9, 16}

// C09_CmpLarge: values of 15 to 18 digits, or zero, with scales 0, 2, 17 and 18 (thorough also 1, 9, 16).
func C09_CmpLarge() {
	n := 4
	if sym.Thorough() {
		n = 7
	}
	checkCmp(cmpScales[sym.Choice(n)], cmpScales[sym.Choice(n)], 100_000_000_000_000, maxDec)
}

// C09_CmpAny: any two values with scales 0, 2 and 18 (thorough also 1 and 17), in both directions for small ones.
func C09_CmpAny() {
	scales := []uint{0, 2, 18, 1, 17}
	n := 3
	if sym.Thorough() {
		n = 5
	}
	s1, s2 := scales[sym.Choice(n)], scales[sym.Choice(n)]
	d1, v1 := decimal(s1, true)
	d2, v2 := decimal(s2, true)
	got := d1.Cmp(d2)
	sym.Assert(got == cmpSpec(v1, s1, v2, s2), "Cmp: not the numeric order")
	if v2 >= -9 && v2 <= 9 {
		sym.Assert(got == -d2.Cmp(d1), "Cmp: not antisymmetric")
	}
}

// C09_Normalize: normalising, negating and the sign do not change the number.
func C09_Normalize() {
	s := uint(sym.Choice(19))
	d, v := decimal(s, true)
	n := d
	n.Normalize()
	sym.Assert(n.Scale() <= s, "Normalize: scale grew")
	sym.Assert(new(big.Int).Mul(unscaled(n), pow10(d.Scale()-n.Scale())).Cmp(unscaled(d)) == 0, "Normalize: another number")
	if n.Scale() > 0 {
		sym.Assert(new(big.Int).Rem(unscaled(n), pow10(1)).Sign() != 0, "Normalize: trailing zeros left")
	}
	g := d.Negate()
	sym.Assert(g.Scale() == d.Scale() && unscaled(g).Cmp(new(big.Int).Neg(big.NewInt(v))) == 0, "Negate: not the negation")
	sym.Assert(g.Sign() == -d.Sign(), "Negate: sign")
	sym.Assert(d.MagnitudeLessThanOne() == (big.NewInt(v).CmpAbs(pow10(d.Scale())) < 0), "MagnitudeLessThanOne: wrong")
	sym.Observe(n)
}

// C09_Zero: a zero with a scale, from text or by negation, compares as zero.
func C09_Zero() {
	z, err := math.StringToDecimal([]string{"0", "0.0", "-0", "0.000000000000000000", ".00", "-.0"}[sym.Choice(6)])
	sym.Assert(err == nil, "zero rejected")
	s := cmpScales[sym.Choice(4)]
	d, v := decimal(s, true)
	sym.Assert(z.Sign() == 0, "sign of zero")
	sym.Assert(z.Cmp(d) == cmpSpec(0, 0, v, s), "Cmp of zero: not the numeric order")
	sym.Assert(z.Cmp(z.Negate()) == 0, "zero is not its negation")
}

// C09_CmpScales: every pair of scales: values within 15 of one another (or of what is left of the other after cutting
// digits off), for several values.
func C09_CmpScales() {
	vals := []int64{7, -90_000, 123_456_789_012, -999_999_999_999_999_999, 1_000_000_000, 0, 500_000_000_000_000_000}
	n := 4
	if sym.Thorough() {
		n = 7
	}
	v2 := vals[sym.Choice(n)]
	s1, s2 := uint(sym.Choice(19)), uint(sym.Choice(19))
	d2, err := math.OfDecimal(v2, s2, false)
	sym.Assume(err == nil)
	// v2 at the scale of d1
	v1 := new(big.Int).Mul(big.NewInt(v2), pow10(s1))
	v1.Quo(v1, pow10(s2))
	if !v1.IsInt64() {
		v1.SetInt64(maxDec - 15)
	}
	delta := sym.Int64()
	sym.Assume(delta >= -15 && delta <= 15)
	v := v1.Int64() + delta
	sym.Assume(v >= -maxDec && v <= maxDec)
	d1, err := math.OfDecimal(v, s1, false)
	sym.Assume(err == nil)
	sym.Assert(d1.Cmp(d2) == cmpSpec(v, s1, v2, s2), "Cmp: not the numeric order")
	sym.Assert(d2.Cmp(d1) == cmpSpec(v2, s2, v, s1), "Cmp: not the numeric order")
}
