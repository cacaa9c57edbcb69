package hmath

import (
	"math/big"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// checkQuotient decides d / o.
func checkQuotient(d, o math.Decimal) {
	dv, ov := unscaled(d), unscaled(o)
	r, err := d.Div(o)
	sym.Observe(err != nil)
	if ov.Sign() == 0 {
		sym.Reach("zero divisor")
		sym.Assert(err != nil, "Div: no error for a zero divisor")
		return
	}
	// quotient = num / den, with a positive den
	num, den := new(big.Int).Mul(dv, pow10(o.Scale())), new(big.Int).Mul(ov, pow10(d.Scale()))
	if den.Sign() < 0 {
		num.Neg(num)
		den.Neg(den)
	}
	whole := new(big.Int).Quo(num, den)
	if whole.CmpAbs(bigMaxDec) > 0 {
		sym.Reach("out of range")
		sym.Assert(err != nil, "Div: no error for a quotient out of range")
		return
	}
	if err != nil {
		sym.Reach("refused")
		// the remainders of divisors of 18 digits may not fit, and the quotient may round up out of range
		sym.Assert(ov.CmpAbs(pow10(17)) > 0 || whole.CmpAbs(bigMaxDec) == 0, "Div: error though the quotient is in range")
		return
	}
	sym.Reach("divided")
	sym.Assert(r.Scale() <= 18, "Div: scale over 18")
	n := unscaled(r)
	sym.Assert(n.CmpAbs(bigMaxDec) <= 0, "Div: more than 18 digits")
	// n * 10^-s against num / den: n * den - num * 10^s, in units of den
	diff := new(big.Int).Mul(n, den)
	diff.Sub(diff, new(big.Int).Mul(num, pow10(r.Scale())))
	sym.Assert(diff.CmpAbs(den) <= 0, "Div: off by more than one unit of the last place")
	if diff.Sign() == 0 {
		sym.Reach("exact")
	} else {
		sym.Reach("rounded")
		sym.Assert(new(big.Int).Lsh(diff, 1).CmpAbs(den) <= 0, "Div: not rounded to nearest")
		if new(big.Int).Lsh(diff, 1).CmpAbs(den) == 0 {
			sym.Reach("half")
			sym.Assert(diff.Sign() == num.Sign(), "Div: half rounded towards zero")
		}
		// no more digits are available (a 17 digit result may come from rounding up to a power of ten)
		sym.Assert(r.Scale() == 18 || new(big.Int).Mul(n, big.NewInt(10)).CmpAbs(bigMaxDec) > 0 || n.CmpAbs(pow10(17)) == 0, "Div: rounded though more digits were available")
	}
	sym.Observe(r)
}

var divisors = []int64{1, 3, -7, 25, 9, 99, 0, 16, 11, 1_001, 999_999_937}

// C13_Divisor: any value by the values of a list, over pairs of scales.
//
//sym:opaquetext
//sym:qtimeout 3000
func C13_Divisor() {
	scales := []uint{0, 2, 18, 1, 9}
	n, k := 3, 9
	if sym.Thorough() {
		n, k = 5, len(divisors)
	}
	d, _ := decimal(scales[sym.Choice(n)], true)
	o, _ := math.OfDecimal(divisors[sym.Choice(k)], scales[sym.Choice(n)], false)
	checkQuotient(d, o)
}

// C13_Small: any value by every divisor from 1 to 12 (thorough 60), both signs of result, scales 0 and 18.
//
//sym:opaquetext
//sym:qtimeout 3000
func C13_Small() {
	n := 12
	if sym.Thorough() {
		n = 60
	}
	d, _ := decimal([]uint{0, 18}[sym.Choice(2)], true)
	o, _ := math.OfDecimal(int64(1+sym.Choice(n)), 0, false)
	checkQuotient(d, o)
}

// C13_Normalized: normalised operands.
//
//sym:opaquetext
//sym:qtimeout 3000
func C13_Normalized() {
	d, _ := decimal([]uint{2, 17}[sym.Choice(2)], false)
	o, _ := math.OfDecimal([]int64{3, -80}[sym.Choice(2)], 3)
	checkQuotient(d, o)
}

// C13_Large: values of up to 2 digits by large divisors.
//
//sym:opaquetext
//sym:qtimeout 3000
func C13_Large() {
	scales := []uint{0, 2, 18}
	d, v := decimal(scales[sym.Choice(3)], true)
	sym.Assume(v >= -99 && v <= 99)
	large := []int64{100_000_000_000_000_000, -500_000_000_000_000_000, 1_000_000_000, maxDec, 920_000_000_000_000_000}
	o, _ := math.OfDecimal(large[sym.Choice(len(large))], scales[sym.Choice(3)], false)
	checkQuotient(d, o)
}

// C13_Scales: every pair of scales: values near some values by some divisors.
//
//sym:opaquetext
func C13_Scales() {
	d := near(uint(sym.Choice(19)))
	f := []int64{-7, 16, 100_000_000_000, 33_333_333_333, 1, 990}
	n := 4
	if sym.Thorough() {
		n = 6
	}
	o, _ := math.OfDecimal(f[sym.Choice(n)], uint(sym.Choice(19)), false)
	checkQuotient(d, o)
}
