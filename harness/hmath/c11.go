package hmath

import (
	"math/big"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// digitsOver tells how many digits over 18 the magnitude of p (below 10^36) has.
func digitsOver(p *big.Int) uint {
	n := uint(0)
	for p.CmpAbs(pow10(18+n)) >= 0 {
		n++
	}
	return n
}

// checkProduct decides r, err for the operands v1 * 10^-s1 and v2 * 10^-s2.
func checkProduct(r math.Decimal, err error, p *big.Int, scale uint) {
	sym.Observe(err != nil)
	drop := digitsOver(p)
	if scale > 18+drop {
		drop = scale - 18
	}
	if p.Sign() == 0 {
		sym.Assert(err == nil && unscaled(r).Sign() == 0 && r.Scale() <= 18, "Mul: zero times anything is not zero")
		return
	}
	if drop > scale {
		sym.Reach("integer part does not fit")
		sym.Assert(err != nil, "Mul: no error though the integer part does not fit")
		return
	}
	exact := halfAway(p, pow10(drop))
	scale -= drop
	if exact.CmpAbs(bigMaxDec) > 0 {
		// rounded up to a power of ten
		if scale == 0 {
			sym.Assert(err != nil, "Mul: no error though the rounded product does not fit")
			return
		}
	}
	sym.Assert(err == nil, "Mul: error though the product fits")
	sym.Assert(valid(r), "Mul: not a valid decimal")
	sym.Assert(r.Scale() <= scale, "Mul: scale too large")
	got := unscaled(r)
	if drop == 0 {
		sym.Reach("exact")
	} else {
		sym.Reach("rounded")
	}
	sym.Assert(new(big.Int).Mul(got, pow10(scale-r.Scale())).Cmp(exact) == 0, "Mul: not the product, rounded to the digits that fit")
	sym.Observe(r)
}

func mul(d, o math.Decimal) {
	s1, s2, p := d.Scale(), o.Scale(), new(big.Int).Mul(unscaled(d), unscaled(o))
	r, err := d.Mul(o)
	checkProduct(r, err, p, s1+s2)
}

var (
	mulScales = []uint{0, 2, 18, 9, 1, 17}
	factors   = []int64{0, 1, 3, -10, 25, 922_337_203_685_477_580, 100_000_000_000_000_000, maxDec, 7, 16, -456_456, 1_000_000_007,
		500_000_000_000_000_000}
)

// C11_Factor: any value times the values of a list (up to 18 digits), both not normalised, over pairs of scales.
//
//sym:opaquetext
//sym:qtimeout 3000
func C11_Factor() {
	n, k := 3, 8
	if sym.Thorough() {
		n, k = 6, len(factors)
	}
	d, _ := decimal(mulScales[sym.Choice(n)], true)
	o, _ := math.OfDecimal(factors[sym.Choice(k)], mulScales[sym.Choice(n)], false)
	mul(d, o)
}

// C11_Reverse: the factor first, fewer scales.
//
//sym:opaquetext
//sym:qtimeout 3000
func C11_Reverse() {
	d, _ := decimal([]uint{0, 18}[sym.Choice(2)], true)
	o, _ := math.OfDecimal(factors[sym.Choice(8)], []uint{2, 17}[sym.Choice(2)], false)
	mul(o, d)
}

// C11_Normalized: the same with normalised values of scale 2, 18.
//
//sym:opaquetext
func C11_Normalized() {
	d, _ := decimal([]uint{2, 18}[sym.Choice(2)], false)
	o, _ := math.OfDecimal(factors[2+sym.Choice(3)], []uint{0, 18}[sym.Choice(2)])
	mul(d, o)
}

// C11_Small: any two values of up to 2 digits (thorough 3), scales 0, 1, 9, 17 and 18.
//
//sym:opaquetext
func C11_Small() {
	d, v1 := decimal(mulScales[sym.Choice(5)], true)
	o, v2 := decimal(mulScales[sym.Choice(5)], true)
	hi := int64(99)
	if sym.Thorough() {
		hi = 999
	}
	sym.Assume(v1 >= -hi && v1 <= hi && v2 >= -hi && v2 <= hi)
	mul(d, o)
}

// near is any value within 4 of one of several values, of the given scale.
func near(scale uint) math.Decimal {
	d, v := decimal(scale, true)
	bases := []int64{0, 999_999_995, maxDec - 4, -5_000_000_000_000_000}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	b := bases[sym.Choice(n)]
	sym.Assume(v >= b-4 && v <= b+4)
	return d
}

// C11_Scales: every pair of scales: values near some values times some others, both ways.
//
//sym:opaquetext
func C11_Scales() {
	d := near(uint(sym.Choice(19)))
	f := []int64{-7, 500_000_000_000_000_001, 1_000_000_000, maxDec, 10}
	n := 3
	if sym.Thorough() {
		n = 5
	}
	o, _ := math.OfDecimal(f[sym.Choice(n)], uint(sym.Choice(19)), false)
	if sym.Choice(2) == 0 {
		mul(d, o)
	} else {
		mul(o, d)
	}
}
