// Package hconv holds the harnesses for the conv package.
package hconv

import (
	"math/big"
	goreflect "reflect"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verifharness/sym"
)

type (
	myInt    int
	myInt8   int8
	myInt16  int16
	myInt64  int64
	myUint   uint
	myUint8  uint8
	myUint32 uint32
	myUint64 uint64
	myF32    float32
	myF64    float64
	myStr    string
)

var one = big.NewInt(1)

// integer types by kind only, so that subtypes are covered too.
func signed[T constraint.Integer]() bool {
	var z T
	return z-1 < z
}

// big value of an integer, whatever its type.
func bigOf[T constraint.Integer](x T) *big.Int {
	if signed[T]() {
		return big.NewInt(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}

func width[T constraint.Integer]() uint {
	var z T
	return uint(goreflect.TypeOf(z).Bits())
}

// fits tells if the big integer is a value of type T.
func fits[T constraint.Integer](x *big.Int) bool {
	lo, hi := big.NewInt(0), new(big.Int).Lsh(one, width[T]())
	if signed[T]() {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return x.Cmp(lo) >= 0 && x.Cmp(hi) < 0
}

// outcome decides one conversion of the integer x to type T: o is what the conversion left in the target.
func outcome[T constraint.Integer](x *big.Int, o T, err error, what string) {
	if fits[T](x) {
		sym.Reach("representable")
		sym.Assert(err == nil, what+": error for a representable value")
		sym.Assert(bigOf(o).Cmp(x) == 0, what+": wrong value")
	} else {
		sym.Reach("not representable")
		sym.Assert(err != nil, what+": no error for a value that does not fit")
	}
	sym.Observe(err != nil)
}

func ii[S, T constraint.SignedInteger](s S, what string) {
	var o T
	err := conv.IntToInt(s, &o)
	outcome(bigOf(s), o, err, "IntToInt "+what)
}

func iu[S constraint.SignedInteger, T constraint.UnsignedInteger](s S, what string) {
	var o T
	err := conv.IntToUint(s, &o)
	outcome(bigOf(s), o, err, "IntToUint "+what)
}

func ui[S constraint.UnsignedInteger, T constraint.SignedInteger](s S, what string) {
	var o T
	err := conv.UintToInt(s, &o)
	outcome(bigOf(s), o, err, "UintToInt "+what)
}

func uu[S, T constraint.UnsignedInteger](s S, what string) {
	var o T
	err := conv.UintToUint(s, &o)
	outcome(bigOf(s), o, err, "UintToUint "+what)
}

func fromSigned[S constraint.SignedInteger](s S, what string) {
	switch sym.Choice(14) {
	case 0:
		ii[S, int](s, what+" to int")
	case 1:
		ii[S, int8](s, what+" to int8")
	case 2:
		ii[S, int16](s, what+" to int16")
	case 3:
		ii[S, int32](s, what+" to int32")
	case 4:
		ii[S, int64](s, what+" to int64")
	case 5:
		ii[S, myInt16](s, what+" to named int16")
	case 6:
		ii[S, myInt](s, what+" to named int")
	case 7:
		iu[S, uint](s, what+" to uint")
	case 8:
		iu[S, uint8](s, what+" to uint8")
	case 9:
		iu[S, uint16](s, what+" to uint16")
	case 10:
		iu[S, uint32](s, what+" to uint32")
	case 11:
		iu[S, uint64](s, what+" to uint64")
	case 12:
		iu[S, myUint8](s, what+" to named uint8")
	case 13:
		iu[S, myUint64](s, what+" to named uint64")
	}
}

func fromUnsigned[S constraint.UnsignedInteger](s S, what string) {
	switch sym.Choice(14) {
	case 0:
		ui[S, int](s, what+" to int")
	case 1:
		ui[S, int8](s, what+" to int8")
	case 2:
		ui[S, int16](s, what+" to int16")
	case 3:
		ui[S, int32](s, what+" to int32")
	case 4:
		ui[S, int64](s, what+" to int64")
	case 5:
		ui[S, myInt8](s, what+" to named int8")
	case 6:
		ui[S, myInt64](s, what+" to named int64")
	case 7:
		uu[S, uint](s, what+" to uint")
	case 8:
		uu[S, uint8](s, what+" to uint8")
	case 9:
		uu[S, uint16](s, what+" to uint16")
	case 10:
		uu[S, uint32](s, what+" to uint32")
	case 11:
		uu[S, uint64](s, what+" to uint64")
	case 12:
		uu[S, myUint32](s, what+" to named uint32")
	case 13:
		uu[S, myUint](s, what+" to named uint")
	}
}

// C05_FromSigned: every signed source type, every value, to every integer type.
func C05_FromSigned() {
	switch sym.Choice(7) {
	case 0:
		fromSigned(sym.Int(), "int")
	case 1:
		fromSigned(sym.Int8(), "int8")
	case 2:
		fromSigned(sym.Int16(), "int16")
	case 3:
		fromSigned(sym.Int32(), "int32")
	case 4:
		fromSigned(sym.Int64(), "int64")
	case 5:
		fromSigned(myInt(sym.Int()), "named int")
	case 6:
		fromSigned(myInt16(sym.Int16()), "named int16")
	}
}

// C05_FromUnsigned: every unsigned source type, every value, to every integer type.
func C05_FromUnsigned() {
	switch sym.Choice(7) {
	case 0:
		fromUnsigned(sym.Uint(), "uint")
	case 1:
		fromUnsigned(sym.Uint8(), "uint8")
	case 2:
		fromUnsigned(sym.Uint16(), "uint16")
	case 3:
		fromUnsigned(sym.Uint32(), "uint32")
	case 4:
		fromUnsigned(sym.Uint64(), "uint64")
	case 5:
		fromUnsigned(myUint32(sym.Uint32()), "named uint32")
	case 6:
		fromUnsigned(myUint64(sym.Uint64()), "named uint64")
	}
}

// to decides the run time dispatched conversion of an integer to one integer type; base is the source without its
// subtype.
func to[S, T constraint.Integer](s S, what string) {
	var (
		o   T
		err error
	)
	switch sym.Choice(2) {
	case 0:
		what = "To " + what
		err = conv.To(s, &o)
	case 1:
		what = "AnyTo " + what
		err = conv.AnyTo(any(s), &o)
	}
	outcome(bigOf(s), o, err, what)
}

func toAll[S constraint.Integer](s S, what string) {
	switch sym.Choice(12) {
	case 0:
		to[S, int](s, what+" to int")
	case 1:
		to[S, int8](s, what+" to int8")
	case 2:
		to[S, int16](s, what+" to int16")
	case 3:
		to[S, int32](s, what+" to int32")
	case 4:
		to[S, int64](s, what+" to int64")
	case 5:
		to[S, uint](s, what+" to uint")
	case 6:
		to[S, uint8](s, what+" to uint8")
	case 7:
		to[S, uint16](s, what+" to uint16")
	case 8:
		to[S, uint32](s, what+" to uint32")
	case 9:
		to[S, uint64](s, what+" to uint64")
	case 10:
		to[S, myInt8](s, what+" to named int8")
	case 11:
		to[S, myUint](s, what+" to named uint")
	}
}

// C05_To: the same through the conversion chosen at run time.
func C05_To() {
	switch sym.Choice(12) {
	case 0:
		toAll(sym.Int(), "int")
	case 1:
		toAll(sym.Int8(), "int8")
	case 2:
		toAll(sym.Int16(), "int16")
	case 3:
		toAll(sym.Int32(), "int32")
	case 4:
		toAll(sym.Int64(), "int64")
	case 5:
		toAll(sym.Uint(), "uint")
	case 6:
		toAll(sym.Uint8(), "uint8")
	case 7:
		toAll(sym.Uint16(), "uint16")
	case 8:
		toAll(sym.Uint32(), "uint32")
	case 9:
		toAll(sym.Uint64(), "uint64")
	case 10:
		toAll(myInt64(sym.Int64()), "named int64")
	case 11:
		toAll(myUint8(sym.Uint8()), "named uint8")
	}
}

func toBig[S constraint.Integer](s S, viaTyped func(S, **big.Int), what string) {
	var o *big.Int
	switch sym.Choice(4) {
	case 0:
		viaTyped(s, &o)
		what += " typed"
	case 1:
		conv.IntegerToBigInt(s, &o)
		what = "IntegerToBigInt " + what
	case 2:
		sym.Assert(conv.To(s, &o) == nil, "To big "+what+": error")
		what = "To " + what
	case 3:
		sym.Assert(conv.AnyTo(any(s), &o) == nil, "AnyTo big "+what+": error")
		what = "AnyTo " + what
	}
	sym.Assert(o != nil && o.Cmp(bigOf(s)) == 0, what+" to *big.Int: wrong value")
}

// C05_ToBigInt: integers to arbitrary precision integers.
func C05_ToBigInt() {
	switch sym.Choice(12) {
	case 0:
		toBig(sym.Int(), conv.IntToBigInt[int], "int")
	case 1:
		toBig(sym.Int8(), conv.IntToBigInt[int8], "int8")
	case 2:
		toBig(sym.Int16(), conv.IntToBigInt[int16], "int16")
	case 3:
		toBig(sym.Int32(), conv.IntToBigInt[int32], "int32")
	case 4:
		toBig(sym.Int64(), conv.IntToBigInt[int64], "int64")
	case 5:
		toBig(sym.Uint(), conv.UintToBigInt[uint], "uint")
	case 6:
		toBig(sym.Uint8(), conv.UintToBigInt[uint8], "uint8")
	case 7:
		toBig(sym.Uint16(), conv.UintToBigInt[uint16], "uint16")
	case 8:
		toBig(sym.Uint32(), conv.UintToBigInt[uint32], "uint32")
	case 9:
		toBig(sym.Uint64(), conv.UintToBigInt[uint64], "uint64")
	case 10:
		toBig(myInt(sym.Int()), conv.IntToBigInt[myInt], "named int")
	case 11:
		toBig(myUint64(sym.Uint64()), conv.UintToBigInt[myUint64], "named uint64")
	}
}

func fromBig[T constraint.Integer](b *big.Int, what string) {
	var (
		o    T
		err  error
		keep = new(big.Int).Set(b)
	)
	switch sym.Choice(2) {
	case 0:
		err = conv.To(b, &o)
	case 1:
		err = conv.AnyTo(any(b), &o)
	}
	outcome(keep, o, err, "*big.Int to "+what)
	sym.Assert(b.Cmp(keep) == 0, "*big.Int to "+what+": source changed")
}

// C05_FromBigInt: arbitrary precision integers (128 bits) to every integer type.
func C05_FromBigInt() {
	b := sym.BigInt(600)
	switch sym.Choice(14) {
	case 0:
		fromBig[int](b, "int")
	case 1:
		fromBig[int8](b, "int8")
	case 2:
		fromBig[int16](b, "int16")
	case 3:
		fromBig[int32](b, "int32")
	case 4:
		fromBig[int64](b, "int64")
	case 5:
		fromBig[uint](b, "uint")
	case 6:
		fromBig[uint8](b, "uint8")
	case 7:
		fromBig[uint16](b, "uint16")
	case 8:
		fromBig[uint32](b, "uint32")
	case 9:
		fromBig[uint64](b, "uint64")
	case 10:
		fromBig[myInt16](b, "named int16")
	case 11:
		fromBig[myUint32](b, "named uint32")
	case 12:
		var o int64
		err := conv.BigIntToInt64(b, &o)
		outcome(b, o, err, "BigIntToInt64")
	case 13:
		var o uint64
		err := conv.BigIntToUint64(b, &o)
		outcome(b, o, err, "BigIntToUint64")
	}
}
