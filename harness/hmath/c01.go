// Package hmath holds the harnesses for the math package.
package hmath

import (
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verifharness/sym"
)

var (
	one = big.NewInt(1)
)

// limits gives the range of an integer type as big integers, from its width alone.
func limits(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := new(big.Int).Lsh(one, bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
}

func bigS[T constraint.SignedInteger](x T) *big.Int   { return big.NewInt(int64(x)) }
func bigU[T constraint.UnsignedInteger](x T) *big.Int { return new(big.Int).SetUint64(uint64(x)) }

// decide compares the outcome of a checked operation with the exact result.
func decide(exact, got *big.Int, err error, bits uint, signed bool, what string) {
	lo, hi := limits(bits, signed)
	fits := exact.Cmp(lo) >= 0 && exact.Cmp(hi) <= 0
	if fits {
		sym.Reach("representable")
		sym.Assert(err == nil, what+": error for a representable result")
		sym.Assert(got.Cmp(exact) == 0, what+": wrong result")
	} else {
		sym.Reach("not representable")
		sym.Assert(err != nil, what+": no error for a result that does not fit")
		if exact.Sign() > 0 {
			sym.Assert(err == math.OverflowErr, what+": not the overflow error")
		} else {
			sym.Assert(err == math.UnderflowErr, what+": not the underflow error")
		}
	}
	sym.Observe(err != nil)
}

func checkSigned[T constraint.SignedInteger](x, y T, bits uint, what string) {
	bx, by := bigS(x), bigS(y)
	switch sym.Choice(3) {
	case 0:
		r := y
		err := math.AddInt(x, &r)
		sym.Observe(r)
		decide(new(big.Int).Add(bx, by), bigS(r), err, bits, true, "AddInt "+what)
	case 1:
		r := y
		err := math.SubInt(x, &r)
		sym.Observe(r)
		decide(new(big.Int).Sub(bx, by), bigS(r), err, bits, true, "SubInt "+what)
	case 2:
		r := y
		err := math.Mul(x, &r)
		decide(new(big.Int).Mul(bx, by), bigS(r), err, bits, true, "Mul "+what)
	}
}

func checkUnsigned[T constraint.UnsignedInteger](x, y T, bits uint, what string) {
	bx, by := bigU(x), bigU(y)
	switch sym.Choice(3) {
	case 0:
		r := y
		err := math.AddUint(x, &r)
		sym.Observe(r)
		decide(new(big.Int).Add(bx, by), bigU(r), err, bits, false, "AddUint "+what)
	case 1:
		r := y
		err := math.SubUint(x, &r)
		sym.Observe(r)
		decide(new(big.Int).Sub(bx, by), bigU(r), err, bits, false, "SubUint "+what)
	case 2:
		r := y
		err := math.Mul(x, &r)
		decide(new(big.Int).Mul(bx, by), bigU(r), err, bits, false, "Mul "+what)
	}
}

type (
	myInt   int
	myInt8  int8
	myUint  uint
	myUint8 uint8
)

// C01_Signed: AddInt, SubInt, Mul on every signed type, all operand pairs.
func C01_Signed() {
	switch sym.Choice(7) {
	case 0:
		checkSigned(sym.Int8(), sym.Int8(), 8, "int8")
	case 1:
		checkSigned(sym.Int16(), sym.Int16(), 16, "int16")
	case 2:
		checkSigned(sym.Int32(), sym.Int32(), 32, "int32")
	case 3:
		checkSigned(sym.Int64(), sym.Int64(), 64, "int64")
	case 4:
		checkSigned(sym.Int(), sym.Int(), 64, "int")
	case 5:
		checkSigned(myInt(sym.Int()), myInt(sym.Int()), 64, "named int")
	case 6:
		checkSigned(myInt8(sym.Int8()), myInt8(sym.Int8()), 8, "named int8")
	}
}

// C01_Unsigned: AddUint, SubUint, Mul on every unsigned type, all operand pairs.
func C01_Unsigned() {
	switch sym.Choice(7) {
	case 0:
		checkUnsigned(sym.Uint8(), sym.Uint8(), 8, "uint8")
	case 1:
		checkUnsigned(sym.Uint16(), sym.Uint16(), 16, "uint16")
	case 2:
		checkUnsigned(sym.Uint32(), sym.Uint32(), 32, "uint32")
	case 3:
		checkUnsigned(sym.Uint64(), sym.Uint64(), 64, "uint64")
	case 4:
		checkUnsigned(sym.Uint(), sym.Uint(), 64, "uint")
	case 5:
		checkUnsigned(myUint(sym.Uint()), myUint(sym.Uint()), 64, "named uint")
	case 6:
		checkUnsigned(myUint8(sym.Uint8()), myUint8(sym.Uint8()), 8, "named uint8")
	}
}
