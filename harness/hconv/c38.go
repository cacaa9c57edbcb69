package hconv

import (
	"math"
	"math/big"
	"reflect"

	"github.com/bantling/micro/conv"
	"verifharness/sym"
)

func caughtErr(f func()) (panicked bool, err error) {
	defer func() {
		if panicked {
			err, _ = recover().(error)
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

// must checks that the Must version of a conversion panics with an error exactly when the conversion gives an error,
// and gives the same value otherwise.
func must[I, O any](x I, plain func(I, *O) error, mst func(I, *O), same func(a, b O) bool, what string) {
	var a, b O
	err := plain(x, &a)
	panicked, perr := caughtErr(func() { mst(x, &b) })
	if err != nil {
		sym.Assert(panicked, what+": no panic for an error")
		sym.Assert(perr != nil, what+": the panic is an error")
		sym.Reach("panic")
		return
	}
	sym.Assert(!panicked, what+": panic without an error")
	sym.Assert(same(a, b), what+": another value")
	sym.Reach("value")
}

func eqOf[T comparable](a, b T) bool { return a == b }

func eqF64(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}
func eqF32(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || a != a && b != b
}

func eqInt(a, b *big.Int) bool     { return a.Cmp(b) == 0 }
func eqFloat(a, b *big.Float) bool { return a.Cmp(b) == 0 }
func eqRat(a, b *big.Rat) bool     { return a.Num().Cmp(b.Num()) == 0 && a.Denom().Cmp(b.Denom()) == 0 }

// C38_ConvInts: Must versions of conversions of integers to integers.
func C38_ConvInts() {
	switch sym.Choice(7) {
	case 0:
		must(sym.Int(), conv.IntToInt[int, int8], conv.MustIntToInt[int, int8], eqOf[int8], "IntToInt")
	case 1:
		must(sym.Int64(), conv.IntToInt[int64, int32], conv.MustIntToInt[int64, int32], eqOf[int32], "IntToInt")
	case 2:
		must(sym.Int(), conv.IntToUint[int, uint16], conv.MustIntToUint[int, uint16], eqOf[uint16], "IntToUint")
	case 3:
		must(sym.Int8(), conv.IntToUint[int8, uint64], conv.MustIntToUint[int8, uint64], eqOf[uint64], "IntToUint")
	case 4:
		must(sym.Uint64(), conv.UintToInt[uint64, int64], conv.MustUintToInt[uint64, int64], eqOf[int64], "UintToInt")
	case 5:
		must(sym.Uint8(), conv.UintToInt[uint8, int8], conv.MustUintToInt[uint8, int8], eqOf[int8], "UintToInt")
	case 6:
		must(sym.Uint(), conv.UintToUint[uint, uint32], conv.MustUintToUint[uint, uint32], eqOf[uint32], "UintToUint")
	}
}

// C38_ConvFloats: Must versions of conversions of integers to floats and of floats.
//
//sym:bv
func C38_ConvFloats() {
	switch sym.Choice(8) {
	case 0:
		must(sym.Int(), conv.IntToFloat[int, float64], conv.MustIntToFloat[int, float64], eqF64, "IntToFloat")
	case 1:
		must(sym.Uint32(), conv.IntToFloat[uint32, float32], conv.MustIntToFloat[uint32, float32], eqF32, "IntToFloat")
	case 2:
		must(sym.Float64(), conv.FloatToFloat[float64, float32], conv.MustFloatToFloat[float64, float32], eqF32, "FloatToFloat")
	case 3:
		must(sym.Float64(), conv.FloatToInt[float64, int16], conv.MustFloatToInt[float64, int16], eqOf[int16], "FloatToInt")
	case 4:
		must(sym.Float32(), conv.FloatToInt[float32, int64], conv.MustFloatToInt[float32, int64], eqOf[int64], "FloatToInt")
	case 5:
		must(sym.Float64(), conv.FloatToUint[float64, uint64], conv.MustFloatToUint[float64, uint64], eqOf[uint64], "FloatToUint")
	case 6:
		must(sym.Float32(), conv.FloatToUint[float32, uint8], conv.MustFloatToUint[float32, uint8], eqOf[uint8], "FloatToUint")
	case 7:
		x := [](float64){0, 1.5, -3, 1e300, math.Inf(1), math.Inf(-1), math.NaN()}[sym.Choice(7)]
		must(x, conv.FloatToBigFloat[float64], conv.MustFloatToBigFloat[float64], eqFloat, "FloatToBigFloat")
		must(x, conv.FloatToBigInt[float64], conv.MustFloatToBigInt[float64], eqInt, "FloatToBigInt")
		must(x, conv.FloatToBigRat[float64], conv.MustFloatToBigRat[float64], eqRat, "FloatToBigRat")
	}
}

func bigFloats() *big.Float {
	return []*big.Float{
		big.NewFloat(0), big.NewFloat(3), big.NewFloat(-3), big.NewFloat(0.5), big.NewFloat(1e300),
		new(big.Float).SetInt(new(big.Int).Lsh(big.NewInt(1), 2000)), new(big.Float).SetInf(false), new(big.Float).SetInf(true),
	}[sym.Choice(8)]
}

// C38_ConvBig: Must versions of conversions of *big.Int, *big.Float and *big.Rat.
func C38_ConvBig() {
	switch sym.Choice(5) {
	case 0:
		x := sym.BigInt(66)
		must(x, conv.BigIntToInt64, conv.MustBigIntToInt64, eqOf[int64], "BigIntToInt64")
		must(x, conv.BigIntToUint64, conv.MustBigIntToUint64, eqOf[uint64], "BigIntToUint64")
	case 1:
		x := new(big.Rat).SetFrac(sym.BigInt(66), big.NewInt([]int64{1, 2, 10}[sym.Choice(3)]))
		must(x, conv.BigRatToInt64, conv.MustBigRatToInt64, eqOf[int64], "BigRatToInt64")
		must(x, conv.BigRatToUint64, conv.MustBigRatToUint64, eqOf[uint64], "BigRatToUint64")
		must(x, conv.BigRatToBigInt, conv.MustBigRatToBigInt, eqInt, "BigRatToBigInt")
	case 2:
		x := bigFloats()
		must(x, conv.BigFloatToInt64, conv.MustBigFloatToInt64, eqOf[int64], "BigFloatToInt64")
		must(x, conv.BigFloatToUint64, conv.MustBigFloatToUint64, eqOf[uint64], "BigFloatToUint64")
		must(x, conv.BigFloatToBigInt, conv.MustBigFloatToBigInt, eqInt, "BigFloatToBigInt")
	case 3:
		x := bigFloats()
		must(x, conv.BigFloatToFloat32, conv.MustBigFloatToFloat32, eqF32, "BigFloatToFloat32")
		must(x, conv.BigFloatToFloat64, conv.MustBigFloatToFloat64, eqF64, "BigFloatToFloat64")
		must(x, conv.BigFloatToBigRat, conv.MustBigFloatToBigRat, eqRat, "BigFloatToBigRat")
	case 4:
		x := new(big.Int).Lsh(big.NewInt([]int64{0, 1, -3, 1<<53 + 1}[sym.Choice(4)]), uint([]int{0, 70, 1030}[sym.Choice(3)]))
		must(x, conv.BigIntToFloat32, conv.MustBigIntToFloat32, eqF32, "BigIntToFloat32")
		must(x, conv.BigIntToFloat64, conv.MustBigIntToFloat64, eqF64, "BigIntToFloat64")
		r := new(big.Rat).SetFrac(x, big.NewInt([]int64{1, 4, 3}[sym.Choice(3)]))
		must(r, conv.BigRatToFloat32, conv.MustBigRatToFloat32, eqF32, "BigRatToFloat32")
		must(r, conv.BigRatToFloat64, conv.MustBigRatToFloat64, eqF64, "BigRatToFloat64")
	}
}

// C38_ConvText: Must versions of conversions of text.
func C38_ConvText() {
	switch sym.Choice(3) {
	case 0:
		x := sym.StringOf(sym.Choice(5), "-+019.x")
		must(x, conv.StringToInt64, conv.MustStringToInt64, eqOf[int64], "StringToInt64")
		must(x, conv.StringToUint64, conv.MustStringToUint64, eqOf[uint64], "StringToUint64")
		must(x, conv.StringToBigInt, conv.MustStringToBigInt, eqInt, "StringToBigInt")
	case 1:
		x := texts()
		must(x, conv.StringToFloat32, conv.MustStringToFloat32, eqF32, "StringToFloat32")
		must(x, conv.StringToFloat64, conv.MustStringToFloat64, eqF64, "StringToFloat64")
		must(x, conv.StringToBigFloat, conv.MustStringToBigFloat, eqFloat, "StringToBigFloat")
	case 2:
		x := texts()
		must(x, conv.StringToBigRat, conv.MustStringToBigRat, eqRat, "StringToBigRat")
		must(x, conv.FloatStringToBigRat, conv.MustFloatStringToBigRat, eqRat, "FloatStringToBigRat")
	}
}

func texts() string {
	return []string{"0", "-1.25", "1e3", "5/4", "+Inf", "-Inf", "NaN", "", "x", "1e400", "0.1", "1/0"}[sym.Choice(12)]
}

// C38_ConvAny: Must versions of the conversions that choose by type.
func C38_ConvAny() {
	switch sym.Choice(5) {
	case 0:
		must(sym.Int(), conv.To[int, int8], conv.MustTo[int, int8], eqOf[int8], "To")
	case 1:
		must(sym.StringOf(sym.Choice(4), "-19x"), conv.To[string, int16], conv.MustTo[string, int16], eqOf[int16], "To")
	case 2:
		must(sym.StringOf(sym.Choice(4), "-19x"), conv.ToBigOps[string, *big.Int], conv.MustToBigOps[string, *big.Int], eqInt, "ToBigOps")
	case 3:
		must(sym.Int64(), conv.ToBigOps[int64, *big.Rat], conv.MustToBigOps[int64, *big.Rat], eqRat, "ToBigOps")
	case 4:
		plain := func(x int, o *uint8) error { return conv.ReflectTo(reflect.ValueOf(x), reflect.ValueOf(o)) }
		mst := func(x int, o *uint8) { conv.MustReflectTo(reflect.ValueOf(x), reflect.ValueOf(o)) }
		must(sym.Int(), plain, mst, eqOf[uint8], "ReflectTo")
	}
}
