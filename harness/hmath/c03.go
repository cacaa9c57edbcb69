package hmath

import (
	gomath "math"
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verifharness/sym"
)

type (
	myFloat64 float64
	myString  string
)

func checkAbs[T constraint.SignedInteger](x T, bits uint, what string) {
	r := x
	err := math.Abs(&r)
	exact := new(big.Int).Abs(bigS(x))
	_, hi := limits(bits, true)
	if exact.Cmp(hi) > 0 {
		sym.Reach("minimum value")
		sym.Assert(err != nil, "Abs "+what+": no error for the minimum value")
		sym.Assert(r == x, "Abs "+what+": argument changed though an error is returned")
	} else {
		sym.Reach("representable")
		sym.Assert(err == nil, "Abs "+what+": unexpected error")
		sym.Assert(bigS(r).Cmp(exact) == 0, "Abs "+what+": wrong value")
	}
	sym.Observe(r)
}

func checkAbsU[T constraint.UnsignedInteger](x T, what string) {
	r := x
	err := math.Abs(&r)
	sym.Reach("unsigned")
	sym.Assert(err == nil && r == x, "Abs "+what+": changes an unsigned value")
	sym.Observe(r)
}

// C03_Ints: Abs of every value of every integer type and of named ones, and of big integers of up to 256 bits.
func C03_Ints() {
	switch sym.Choice(14) {
	case 0:
		checkAbs(sym.Int8(), 8, "int8")
	case 1:
		checkAbs(sym.Int16(), 16, "int16")
	case 2:
		checkAbs(sym.Int32(), 32, "int32")
	case 3:
		checkAbs(sym.Int64(), 64, "int64")
	case 4:
		checkAbs(sym.Int(), 64, "int")
	case 5:
		checkAbs(myInt(sym.Int()), 64, "named int")
	case 6:
		checkAbs(myInt8(sym.Int8()), 8, "named int8")
	case 7:
		checkAbsU(sym.Uint8(), "uint8")
	case 8:
		checkAbsU(sym.Uint16(), "uint16")
	case 9:
		checkAbsU(sym.Uint32(), "uint32")
	case 10:
		checkAbsU(sym.Uint64(), "uint64")
	case 11:
		checkAbsU(sym.Uint(), "uint")
	case 12:
		checkAbsU(myUint8(sym.Uint8()), "named uint8")
	case 13:
		x := sym.BigInt(256)
		r := new(big.Int).Set(x)
		err := math.Abs(&r)
		sym.Reach("big")
		sym.Assert(err == nil, "Abs *big.Int: unexpected error")
		sym.Assert(r.Sign() >= 0 && (r.Cmp(x) == 0 || r.Cmp(new(big.Int).Neg(x)) == 0), "Abs *big.Int: wrong value")
		sym.Observe(r)
	}
}

// C03_Floats: Abs of every float64 and float32, infinities, NaN and signed zeros included.
//
//sym:bv
func C03_Floats() {
	switch sym.Choice(3) {
	case 0:
		x := sym.Float64()
		r := x
		err := math.Abs(&r)
		sym.Assert(err == nil, "Abs float64: unexpected error")
		sym.Assert(gomath.Float64bits(r) == gomath.Float64bits(x)&^(1<<63) || x != x && r != r, "Abs float64: wrong value")
		sym.Observe(r)
	case 1:
		x := sym.Float32()
		r := x
		err := math.Abs(&r)
		sym.Assert(err == nil, "Abs float32: unexpected error")
		sym.Assert(gomath.Float32bits(r) == gomath.Float32bits(x)&^(1<<31) || x != x && r != r, "Abs float32: wrong value")
		sym.Observe(r)
	case 2:
		x := myFloat64(sym.Float64())
		r := x
		err := math.Abs(&r)
		sym.Assert(err == nil, "Abs named float64: unexpected error")
		sym.Assert(gomath.Float64bits(float64(r)) == gomath.Float64bits(float64(x))&^(1<<63) || x != x && r != r, "Abs named float64: wrong value")
	}
}

func bothMinMax[T constraint.Ordered](a, b T, what string) {
	lo, hi := math.MinOrdered(a, b), math.MaxOrdered(a, b)
	sym.Assert(lo == a || lo == b, "MinOrdered "+what+": neither argument")
	sym.Assert(hi == a || hi == b, "MaxOrdered "+what+": neither argument")
	sym.Assert(lo <= a && lo <= b, "MinOrdered "+what+": not a lower bound")
	sym.Assert(hi >= a && hi >= b, "MaxOrdered "+what+": not an upper bound")
	c := math.CmpOrdered(a, b)
	sym.Assert(c >= -1 && c <= 1, "CmpOrdered "+what+": not -1, 0 or 1")
	sym.Assert((c < 0) == (a < b) && (c > 0) == (a > b) && (c == 0) == (a == b), "CmpOrdered "+what+": not the order")
	sym.Assert(math.CmpOrdered(b, a) == -c, "CmpOrdered "+what+": not antisymmetric")
	sym.Observe(c)
	sym.Observe(lo)
	sym.Observe(hi)
}

// C33_Ordered: comparison, minimum and maximum of two integers of every type, and of two strings of up to 3 bytes.
func C33_Ordered() {
	switch sym.Choice(12) {
	case 0:
		bothMinMax(sym.Int8(), sym.Int8(), "int8")
	case 1:
		bothMinMax(sym.Int16(), sym.Int16(), "int16")
	case 2:
		bothMinMax(sym.Int32(), sym.Int32(), "int32")
	case 3:
		bothMinMax(sym.Int64(), sym.Int64(), "int64")
	case 4:
		bothMinMax(sym.Int(), sym.Int(), "int")
	case 5:
		bothMinMax(sym.Uint8(), sym.Uint8(), "uint8")
	case 6:
		bothMinMax(sym.Uint16(), sym.Uint16(), "uint16")
	case 7:
		bothMinMax(sym.Uint32(), sym.Uint32(), "uint32")
	case 8:
		bothMinMax(sym.Uint64(), sym.Uint64(), "uint64")
	case 9:
		bothMinMax(sym.Uint(), sym.Uint(), "uint")
	case 10:
		bothMinMax(myInt8(sym.Int8()), myInt8(sym.Int8()), "named int8")
	case 11:
		bothMinMax(myString(sym.String(sym.Choice(4))), myString(sym.String(sym.Choice(4))), "named string")
	}
}

// C33_Floats: comparison, minimum and maximum of any two float64 or float32 other than NaN.
//
//sym:bv
func C33_Floats() {
	if sym.Choice(2) == 0 {
		a, b := sym.Float64(), sym.Float64()
		sym.Assume(a == a && b == b)
		bothMinMax(a, b, "float64")
	} else {
		a, b := sym.Float32(), sym.Float32()
		sym.Assume(a == a && b == b)
		bothMinMax(a, b, "float32")
	}
}

// C33_Complex: comparison, minimum and maximum of complex values on the real or the imaginary axis, by magnitude.
//
//sym:bv
func C33_Complex() {
	x, y := sym.Float64(), sym.Float64()
	sym.Assume(x == x && y == y)
	a, b := complex(x, 0), complex(y, 0)
	switch sym.Choice(3) {
	case 1:
		a = complex(0, x)
	case 2:
		a, b = complex(0, x), complex(0, y)
	}
	ax, ay := gomath.Abs(x), gomath.Abs(y)
	c := math.CmpComplex(a, b)
	sym.Assert((c < 0) == (ax < ay) && (c > 0) == (ax > ay) && (c == 0) == (ax == ay), "CmpComplex: not the order of magnitudes")
	lo, hi := math.MinComplex(a, b), math.MaxComplex(a, b)
	sym.Assert(lo == a && ax <= ay || lo == b && ay <= ax, "MinComplex: not the argument with the smaller magnitude")
	sym.Assert(hi == a && ax >= ay || hi == b && ay >= ax, "MaxComplex: not the argument with the larger magnitude")
	sym.Observe(c)
}

// C33_Cmp: minimum and maximum by Cmp of any two big integers of up to 256 bits, and of any two ratios with numerators
// of up to 64 bits and denominators up to 9.
func C33_Cmp() {
	if sym.Choice(2) == 0 {
		a, b := sym.BigInt(256), sym.BigInt(256)
		lo, hi := math.MinCmp(a, b), math.MaxCmp(a, b)
		sym.Assert(lo == a || lo == b, "MinCmp: neither argument")
		sym.Assert(hi == a || hi == b, "MaxCmp: neither argument")
		sym.Assert(lo.Cmp(a) <= 0 && lo.Cmp(b) <= 0, "MinCmp: not a lower bound")
		sym.Assert(hi.Cmp(a) >= 0 && hi.Cmp(b) >= 0, "MaxCmp: not an upper bound")
		sym.Observe(lo)
		return
	}
	p, q := sym.Int64(), sym.Int64()
	m, n := int64(1+sym.Choice(9)), int64(1+sym.Choice(9))
	a, b := big.NewRat(p, m), big.NewRat(q, n)
	lo, hi := math.MinCmp(a, b), math.MaxCmp(a, b)
	d := new(big.Int).Sub(new(big.Int).Mul(big.NewInt(p), big.NewInt(n)), new(big.Int).Mul(big.NewInt(q), big.NewInt(m))).Sign()
	sym.Assert(lo == a && d <= 0 || lo == b && d >= 0, "MinCmp *big.Rat: not the smaller argument")
	sym.Assert(hi == a && d >= 0 || hi == b && d <= 0, "MaxCmp *big.Rat: not the larger argument")
}

// C33_Complex64: comparison, minimum and maximum of a complex64 value on the real or the imaginary axis with
// several others, by magnitude.
//
//sym:bv
func C33_Complex64() {
	x := sym.Float32()
	sym.Assume(x == x)
	y := []float32{0, -1.5, 3, gomath.MaxFloat32, gomath.SmallestNonzeroFloat32, float32(gomath.Inf(-1))}[sym.Choice(6)]
	a, b := complex(x, 0), complex(y, 0)
	if sym.Choice(2) == 1 {
		a = complex(0, x)
	}
	ax, ay := x, y
	if ax < 0 {
		ax = -ax
	}
	if ay < 0 {
		ay = -ay
	}
	c := math.CmpComplex(a, b)
	sym.Assert((c < 0) == (ax < ay) && (c > 0) == (ax > ay) && (c == 0) == (ax == ay), "CmpComplex: not the order of magnitudes")
	lo, hi := math.MinComplex(a, b), math.MaxComplex(a, b)
	sym.Assert(lo == a && ax <= ay || lo == b && ay <= ax, "MinComplex: not the argument with the smaller magnitude")
	sym.Assert(hi == a && ax >= ay || hi == b && ay >= ax, "MaxComplex: not the argument with the larger magnitude")
}

// C33_BigFloats: minimum and maximum by Cmp of any two big floats of 80 bits, one of which may have a fraction or be
// infinite.
func C33_BigFloats() {
	a := new(big.Float).SetPrec(200).SetInt(sym.BigInt(80))
	b := new(big.Float).SetPrec(200).SetInt(sym.BigInt(80))
	switch sym.Choice(4) {
	case 1:
		b.Quo(b, new(big.Float).SetInt64(1<<40))
	case 2:
		b.SetInf(true)
	case 3:
		b.SetInf(false)
	}
	lo, hi := math.MinCmp(a, b), math.MaxCmp(a, b)
	sym.Assert(lo == a || lo == b, "MinCmp *big.Float: neither argument")
	sym.Assert(hi == a || hi == b, "MaxCmp *big.Float: neither argument")
	sym.Assert(lo.Cmp(a) <= 0 && lo.Cmp(b) <= 0, "MinCmp *big.Float: not a lower bound")
	sym.Assert(hi.Cmp(a) >= 0 && hi.Cmp(b) >= 0, "MaxCmp *big.Float: not an upper bound")
}

// C03_BigRatFloat: Abs of ratios with numerators of up to 64 bits, and of big floats of 80 bits and infinities.
func C03_BigRatFloat() {
	if sym.Choice(2) == 0 {
		p, m := sym.Int64(), int64(1+sym.Choice(6))
		x := big.NewRat(p, m)
		r := new(big.Rat).Set(x)
		err := math.Abs(&r)
		sym.Assert(err == nil, "Abs *big.Rat: unexpected error")
		sym.Assert(r.Sign() >= 0 && (r.Cmp(x) == 0 || r.Cmp(new(big.Rat).Neg(x)) == 0), "Abs *big.Rat: wrong value")
		return
	}
	x := new(big.Float).SetPrec(200).SetInt(sym.BigInt(80))
	switch sym.Choice(4) {
	case 1:
		x.Quo(x, new(big.Float).SetInt64(1<<40))
	case 2:
		x.SetInf(true)
	case 3:
		x.SetInf(false)
	}
	r := new(big.Float).Copy(x)
	err := math.Abs(&r)
	sym.Assert(err == nil, "Abs *big.Float: unexpected error")
	sym.Assert(r.Sign() >= 0 && (r.Cmp(x) == 0 || r.Cmp(new(big.Float).Neg(x)) == 0), "Abs *big.Float: wrong value")
}
