package hmath

import (
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// nearest is the quotient rounded to the nearest integer, halves away from zero.
func nearest(n, d *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(n, d, new(big.Int))
	neg := (n.Sign() < 0) != (d.Sign() < 0)
	two := new(big.Int).Lsh(new(big.Int).Abs(r), 1)
	if two.Cmp(new(big.Int).Abs(d)) >= 0 {
		if neg {
			q.Sub(q, one)
		} else {
			q.Add(q, one)
		}
	}
	return q
}

func checkDiv[T constraint.Integer](n, d T, toBig func(T) *big.Int, bits uint, signed bool, what string) {
	q := d
	err := math.Div(n, d, &q)
	bn, bd := toBig(n), toBig(d)
	if d == 0 {
		sym.Reach("zero divisor")
		sym.Assert(err == math.DivByZeroErr, "Div "+what+": division by zero not reported")
		return
	}
	exact := nearest(bn, bd)
	lo, hi := limits(bits, signed)
	if exact.Cmp(lo) < 0 || exact.Cmp(hi) > 0 {
		sym.Reach("not representable")
		sym.Assert(err != nil, "Div "+what+": no error for a quotient that does not fit")
		return
	}
	sym.Reach("representable")
	sym.Assert(err == nil, "Div "+what+": unexpected error")
	sym.Assert(toBig(q).Cmp(exact) == 0, "Div "+what+": not the quotient rounded half away from zero")
	sym.Observe(q)
}

// C02_Signed: Div on every signed type and a named one, all operand pairs.
func C02_Signed() {
	switch sym.Choice(6) {
	case 0:
		checkDiv(sym.Int8(), sym.Int8(), bigS[int8], 8, true, "int8")
	case 1:
		checkDiv(sym.Int16(), sym.Int16(), bigS[int16], 16, true, "int16")
	case 2:
		checkDiv(sym.Int32(), sym.Int32(), bigS[int32], 32, true, "int32")
	case 3:
		checkDiv(sym.Int64(), sym.Int64(), bigS[int64], 64, true, "int64")
	case 4:
		checkDiv(sym.Int(), sym.Int(), bigS[int], 64, true, "int")
	case 5:
		checkDiv(myInt8(sym.Int8()), myInt8(sym.Int8()), bigS[myInt8], 8, true, "named int8")
	}
}

// C02_Unsigned: Div on every unsigned type and a named one, all operand pairs.
func C02_Unsigned() {
	switch sym.Choice(6) {
	case 0:
		checkDiv(sym.Uint8(), sym.Uint8(), bigU[uint8], 8, false, "uint8")
	case 1:
		checkDiv(sym.Uint16(), sym.Uint16(), bigU[uint16], 16, false, "uint16")
	case 2:
		checkDiv(sym.Uint32(), sym.Uint32(), bigU[uint32], 32, false, "uint32")
	case 3:
		checkDiv(sym.Uint64(), sym.Uint64(), bigU[uint64], 64, false, "uint64")
	case 4:
		checkDiv(sym.Uint(), sym.Uint(), bigU[uint], 64, false, "uint")
	case 5:
		checkDiv(myUint8(sym.Uint8()), myUint8(sym.Uint8()), bigU[myUint8], 8, false, "named uint8")
	}
}

// C02_BigInt: DivBigOps and Div's big.Int counterpart for operands of up to 128 bits; the quotient may be nil, a fresh
// value, or the dividend or the divisor itself.
func C02_BigInt() {
	n, d := sym.BigInt(500), sym.BigInt(500)
	bn, bd := new(big.Int).Set(n), new(big.Int).Set(d)
	var q *big.Int
	what := "fresh"
	switch sym.Choice(4) {
	case 1:
		q = big.NewInt(77)
	case 2:
		q, what = n, "quotient is the dividend"
	case 3:
		q, what = d, "quotient is the divisor"
	}
	err := math.DivBigOps(n, d, &q)
	if bd.Sign() == 0 {
		sym.Reach("zero divisor")
		sym.Assert(err == math.DivByZeroErr, "DivBigOps: division by zero not reported")
		return
	}
	sym.Reach("representable")
	sym.Assert(err == nil, "DivBigOps: unexpected error")
	sym.Assert(q != nil && q.Cmp(nearest(bn, bd)) == 0, "DivBigOps ("+what+"): not the quotient rounded half away from zero")
	sym.Observe(q)
}

// C02_BigRat: DivBigOps of any ratio with a numerator of up to 64 bits by several others; the quotient may be nil, another ratio, or
// the dividend or the divisor itself.
func C02_BigRat() {
	p := sym.Int64()
	q := []int64{0, 1, -1, -6, 35, 1<<40 + 1}[sym.Choice(6)]
	m, n := []int64{1, 6, 15}[sym.Choice(3)], []int64{1, 4}[sym.Choice(2)]
	de, dv := big.NewRat(p, m), big.NewRat(q, n)
	var quo *big.Rat
	switch sym.Choice(4) {
	case 1:
		quo = big.NewRat(7, 5)
	case 2:
		quo = de
	case 3:
		quo = dv
	}
	err := math.DivBigOps(de, dv, &quo)
	if q == 0 {
		sym.Reach("zero divisor")
		sym.Assert(err == math.DivByZeroErr, "DivBigOps *big.Rat: division by zero not reported")
		return
	}
	sym.Assert(err == nil, "DivBigOps *big.Rat: unexpected error")
	num := new(big.Int).Mul(big.NewInt(p), big.NewInt(n))
	want := new(big.Rat).SetFrac(num, big.NewInt(m*q))
	sym.Assert(quo.Cmp(want) == 0, "DivBigOps *big.Rat: not the quotient")
}

// C02_BigFloat: DivBigOps of big floats: an integer of up to 60 bits divided by a power of two, positive or negative,
// zero by zero, and infinities.
func C02_BigFloat() {
	var quo *big.Float
	if sym.Choice(2) == 1 {
		quo = new(big.Float).SetPrec(100).SetInt64(9)
	}
	if sym.Choice(2) == 0 {
		k := uint(sym.Choice(4)) * 7
		n := sym.BigInt(50)
		d := new(big.Int).Lsh(big.NewInt(1), k)
		back := new(big.Int).Set(n)
		if sym.Choice(2) == 1 {
			d.Neg(d)
			back.Neg(back)
		}
		err := math.DivBigOps(new(big.Float).SetPrec(53).SetInt(n), new(big.Float).SetPrec(53).SetInt(d), &quo)
		sym.Assert(err == nil, "DivBigOps *big.Float: unexpected error")
		up := new(big.Float).SetPrec(200).SetInt(new(big.Int).Lsh(big.NewInt(1), k))
		up.Mul(up, quo)
		sym.Assert(up.Cmp(new(big.Float).SetPrec(200).SetInt(back)) == 0, "DivBigOps *big.Float: not the quotient")
		return
	}
	val := func() *big.Float {
		switch sym.Choice(4) {
		case 0:
			return new(big.Float)
		case 1:
			return new(big.Float).SetInf(true)
		case 2:
			return new(big.Float).SetInf(false)
		}
		return big.NewFloat(3)
	}
	de, dv := val(), val()
	err := math.DivBigOps(de, dv, &quo)
	if de.Sign() == 0 && dv.Sign() == 0 || de.IsInf() && dv.IsInf() {
		sym.Assert(err != nil, "DivBigOps *big.Float: no error for an undefined quotient")
		return
	}
	sym.Assert(err == nil, "DivBigOps *big.Float: unexpected error")
	sym.Assert(quo.IsInf() == (de.IsInf() || dv.Sign() == 0), "DivBigOps *big.Float: infinity")
	if de.Sign() == 0 || dv.IsInf() {
		sym.Assert(quo.Sign() == 0, "DivBigOps *big.Float: not zero")
	} else if dv.Sign() != 0 {
		sym.Assert(quo.Sign() == de.Sign()*dv.Sign(), "DivBigOps *big.Float: sign")
	}
}

// C02_Floats: Div of any two float64 or float32 is Go's quotient.
//
//sym:bv
func C02_Floats() {
	if sym.Choice(2) == 0 {
		a, b, q := sym.Float64(), sym.Float64(), 1.5
		err := math.Div(a, b, &q)
		w := a / b
		sym.Assert(err == nil && (q == w || q != q && w != w), "Div float64: not the quotient")
		return
	}
	a, b, q := sym.Float32(), sym.Float32(), float32(1.5)
	err := math.Div(a, b, &q)
	w := a / b
	sym.Assert(err == nil && (q == w || q != q && w != w), "Div float32: not the quotient")
}
