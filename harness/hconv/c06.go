package hconv

import (
	"math"
	"math/big"
	"math/bits"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verifharness/sym"
)

// magnitude of an integer (2^63 for the smallest int64).
func magnitude[T constraint.Integer](x T) (neg bool, m uint64) {
	if signed[T]() {
		i := int64(x)
		if i < 0 {
			return true, uint64(-i)
		}
		return false, uint64(i)
	}
	return false, uint64(x)
}

// decideFloat checks one conversion of x to a float with the given precision; conv gives the result as a float64.
func decideFloat[T constraint.Integer](x T, prec int, conv func() (float64, error), what string) {
	neg, m := magnitude(x)
	l := bits.Len64(m)
	// the bits below the top prec ones have to be zero
	exact := l <= prec || m&(1<<(l-prec)-1) == 0
	o, err := conv()
	if exact {
		sym.Reach("exact")
		sym.Assert(err == nil, what+": error for an integer that is a float")
		// the bit pattern of the float64 of that magnitude and sign
		var want uint64
		if l > 0 {
			if neg {
				want = 1
			}
			want = want<<11 | uint64(l-1+1023)
			if l > 53 {
				want = want<<52 | (m>>(l-53))&(1<<52-1)
			} else {
				want = want<<52 | (m<<(53-l))&(1<<52-1)
			}
		}
		sym.Assert(math.Float64bits(o) == want, what+": wrong value")
	} else {
		sym.Reach("not exact")
		sym.Assert(err != nil, what+": no error for an integer that is not a float")
	}
	sym.Observe(err != nil)
}

func itof[T constraint.Integer](x T, what string) {
	switch sym.Choice(6) {
	case 0:
		decideFloat(x, 24, func() (float64, error) {
			var o float32
			err := conv.IntToFloat(x, &o)
			return float64(o), err
		}, "IntToFloat "+what+" to float32")
	case 1:
		decideFloat(x, 53, func() (float64, error) {
			var o float64
			err := conv.IntToFloat(x, &o)
			return o, err
		}, "IntToFloat "+what+" to float64")
	case 2:
		decideFloat(x, 24, func() (float64, error) {
			var o float32
			err := conv.To(x, &o)
			return float64(o), err
		}, "To "+what+" to float32")
	case 3:
		decideFloat(x, 53, func() (float64, error) {
			var o float64
			err := conv.To(x, &o)
			return o, err
		}, "To "+what+" to float64")
	case 4:
		decideFloat(x, 24, func() (float64, error) {
			var o myF32
			err := conv.IntToFloat(x, &o)
			return float64(o), err
		}, "IntToFloat "+what+" to named float32")
	case 5:
		decideFloat(x, 53, func() (float64, error) {
			var o myF64
			err := conv.AnyTo(any(x), &o)
			return float64(o), err
		}, "AnyTo "+what+" to named float64")
	}
}

// C06_Int: every value of every integer type to float32 and float64.
//
//sym:bv
func C06_Int() {
	switch sym.Choice(12) {
	case 0:
		itof(sym.Int8(), "int8")
	case 1:
		itof(sym.Int16(), "int16")
	case 2:
		itof(sym.Int32(), "int32")
	case 3:
		itof(sym.Int64(), "int64")
	case 4:
		itof(sym.Int(), "int")
	case 5:
		itof(sym.Uint8(), "uint8")
	case 6:
		itof(sym.Uint16(), "uint16")
	case 7:
		itof(sym.Uint32(), "uint32")
	case 8:
		itof(sym.Uint64(), "uint64")
	case 9:
		itof(sym.Uint(), "uint")
	case 10:
		itof(myInt64(sym.Int64()), "named int64")
	case 11:
		itof(myUint32(sym.Uint32()), "named uint32")
	}
}

func toBigFloat[S constraint.Integer](s S, viaTyped func(S, **big.Float), what string) {
	var o *big.Float
	switch sym.Choice(4) {
	case 0:
		viaTyped(s, &o)
		what += " typed"
	case 1:
		sym.Assert(conv.To(s, &o) == nil, "To *big.Float "+what+": error")
		what = "To " + what
	case 2:
		sym.Assert(conv.AnyTo(any(s), &o) == nil, "AnyTo *big.Float "+what+": error")
		what = "AnyTo " + what
	case 3:
		sym.Assert(conv.ToBigOps(s, &o) == nil, "ToBigOps *big.Float "+what+": error")
		what = "ToBigOps " + what
	}
	sym.Assert(o != nil, what+" to *big.Float: no result")
	i, acc := o.Int(nil)
	sym.Assert(acc == big.Exact && i.Cmp(bigOf(s)) == 0, what+" to *big.Float: wrong value")
}

// C06_BigFloat: integers to arbitrary precision floats, which can hold every integer.
func C06_BigFloat() {
	switch sym.Choice(12) {
	case 0:
		toBigFloat(sym.Int(), conv.IntToBigFloat[int], "int")
	case 1:
		toBigFloat(sym.Int8(), conv.IntToBigFloat[int8], "int8")
	case 2:
		toBigFloat(sym.Int16(), conv.IntToBigFloat[int16], "int16")
	case 3:
		toBigFloat(sym.Int32(), conv.IntToBigFloat[int32], "int32")
	case 4:
		toBigFloat(sym.Int64(), conv.IntToBigFloat[int64], "int64")
	case 5:
		toBigFloat(sym.Uint(), conv.UintToBigFloat[uint], "uint")
	case 6:
		toBigFloat(sym.Uint8(), conv.UintToBigFloat[uint8], "uint8")
	case 7:
		toBigFloat(sym.Uint16(), conv.UintToBigFloat[uint16], "uint16")
	case 8:
		toBigFloat(sym.Uint32(), conv.UintToBigFloat[uint32], "uint32")
	case 9:
		toBigFloat(sym.Uint64(), conv.UintToBigFloat[uint64], "uint64")
	case 10:
		toBigFloat(myInt16(sym.Int16()), conv.IntToBigFloat[myInt16], "named int16")
	case 11:
		toBigFloat(myUint64(sym.Uint64()), conv.UintToBigFloat[myUint64], "named uint64")
	}
}

// decideBig checks one conversion of a big integer to a float with the given precision.
func decideBig(b *big.Int, prec uint, conv func() (float64, error), what string) {
	m := new(big.Int).Abs(b)
	l := uint(m.BitLen())
	exact := l <= prec || new(big.Int).Rem(m, new(big.Int).Lsh(one, l-prec)).Sign() == 0
	o, err := conv()
	if exact {
		sym.Reach("exact")
		sym.Assert(err == nil, what+": error for an integer that is a float")
		i, acc := big.NewFloat(o).Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, what+": wrong value")
	} else {
		sym.Reach("not exact")
		sym.Assert(err != nil, what+": no error for an integer that is not a float")
	}
}

// C06_BigInt: arbitrary precision integers of up to 80 bits to float32, float64 and *big.Float.
func C06_BigInt() {
	b := sym.BigInt(80)
	switch sym.Choice(6) {
	case 0:
		decideBig(b, 24, func() (float64, error) {
			var o float32
			err := conv.BigIntToFloat32(b, &o)
			return float64(o), err
		}, "BigIntToFloat32")
	case 1:
		decideBig(b, 53, func() (float64, error) {
			var o float64
			err := conv.BigIntToFloat64(b, &o)
			return float64(o), err
		}, "BigIntToFloat64")
	case 2:
		decideBig(b, 24, func() (float64, error) {
			var o float32
			err := conv.To(b, &o)
			return float64(o), err
		}, "To *big.Int to float32")
	case 3:
		decideBig(b, 53, func() (float64, error) {
			var o float64
			err := conv.To(b, &o)
			return float64(o), err
		}, "To *big.Int to float64")
	case 4:
		var o *big.Float
		conv.BigIntToBigFloat(b, &o)
		i, acc := o.Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, "BigIntToBigFloat: wrong value")
	case 5:
		var o *big.Float
		sym.Assert(conv.ToBigOps(b, &o) == nil, "ToBigOps *big.Int to *big.Float: error")
		i, acc := o.Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, "ToBigOps *big.Int to *big.Float: wrong value")
	}
}

// C06_WideBigInt: arbitrary precision integers far beyond the range of the floats, with up to 60 significant bits (eight
// lengths) at either side of every limit, alone and next to a power of two.
func C06_WideBigInt() {
	es := []int{0, 64, 104, 127, 128, 971, 1023, 1024, 1, 63, 74, 75, 103, 105, 300, 964, 970, 972, 1000, 1100}
	es = es[:8+thor(12)]
	ls := []int{1, 2, 7, 24, 25, 53, 54, 60}
	e, l := es[sym.Choice(len(es))], ls[sym.Choice(len(ls))]
	odd := oddOf(l)
	b := new(big.Int).Lsh(odd, uint(e))
	if sym.Choice(2) == 1 {
		// far from having few significant bits
		b.Add(b, new(big.Int).Lsh(one, uint(e+70)))
		sym.Assume(b.Sign() > 0)
		odd = new(big.Int).Add(odd, new(big.Int).Lsh(one, 70))
	}
	var (
		f32 float32
		f64 float64
		bf  *big.Float
		err error
	)
	switch sym.Choice(3) {
	case 0:
		if sym.Choice(2) == 0 {
			err = conv.BigIntToFloat32(b, &f32)
		} else {
			err = conv.To(b, &f32)
		}
		if !wideFits(odd, e, 24, -149, 128) {
			sym.Reach("not a float32")
			sym.Assert(err != nil, "*big.Int to float32: no error for an integer that is not a float32")
			return
		}
		sym.Reach("a float32")
		sym.Assert(err == nil, "*big.Int to float32: error for a float32")
		i, acc := big.NewFloat(float64(f32)).Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, "*big.Int to float32: wrong value")
	case 1:
		if sym.Choice(2) == 0 {
			err = conv.BigIntToFloat64(b, &f64)
		} else {
			err = conv.To(b, &f64)
		}
		if !wideFits(odd, e, 53, -1074, 1024) {
			sym.Reach("not a float64")
			sym.Assert(err != nil, "*big.Int to float64: no error for an integer that is not a float64")
			return
		}
		sym.Reach("a float64")
		sym.Assert(err == nil, "*big.Int to float64: error for a float64")
		i, acc := big.NewFloat(f64).Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, "*big.Int to float64: wrong value")
	case 2:
		sym.Assert(conv.To(b, &bf) == nil, "*big.Int to *big.Float: error")
		i, acc := bf.Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, "*big.Int to *big.Float: wrong value")
	}
}
