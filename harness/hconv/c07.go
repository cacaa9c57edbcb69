package hconv

import (
	"math"
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verifharness/sym"
)

// truncated is the integer part of a float of that range as a value of type T.
func truncated[T constraint.Integer](f float64) T {
	if signed[T]() {
		return T(int64(f))
	}
	return T(uint64(f))
}

// bounds gives the half open range of floats that are values of type T when integral.
func bounds[T constraint.Integer]() (lo, hi float64) {
	w := width[T]()
	if signed[T]() {
		return -math.Ldexp(1, int(w)-1), math.Ldexp(1, int(w)-1)
	}
	return 0, math.Ldexp(1, int(w))
}

func decideF2I[T constraint.Integer](x float64, o T, err error, what string) {
	lo, hi := bounds[T]()
	if x >= lo && x < hi && math.Trunc(x) == x {
		sym.Reach("integral in range")
		sym.Assert(err == nil, what+": error for an integral float in range")
		sym.Assert(o == truncated[T](x), what+": wrong value")
	} else {
		sym.Reach("not an integer of the type")
		sym.Assert(err != nil, what+": no error for a float that is not an integer of that type")
	}
	sym.Observe(err != nil)
}

func f2i[F constraint.Float, T constraint.SignedInteger](x F, what string) {
	var (
		o   T
		err error
	)
	switch sym.Choice(3) {
	case 0:
		err = conv.FloatToInt(x, &o)
		what = "FloatToInt " + what
	case 1:
		err = conv.To(x, &o)
		what = "To " + what
	case 2:
		err = conv.AnyTo(any(x), &o)
		what = "AnyTo " + what
	}
	decideF2I(float64(x), o, err, what)
}

func f2u[F constraint.Float, T constraint.UnsignedInteger](x F, what string) {
	var (
		o   T
		err error
	)
	switch sym.Choice(3) {
	case 0:
		err = conv.FloatToUint(x, &o)
		what = "FloatToUint " + what
	case 1:
		err = conv.To(x, &o)
		what = "To " + what
	case 2:
		err = conv.AnyTo(any(x), &o)
		what = "AnyTo " + what
	}
	decideF2I(float64(x), o, err, what)
}

func floatToInts[F constraint.Float](x F, what string) {
	switch sym.Choice(12) {
	case 0:
		f2i[F, int](x, what+" to int")
	case 1:
		f2i[F, int8](x, what+" to int8")
	case 2:
		f2i[F, int16](x, what+" to int16")
	case 3:
		f2i[F, int32](x, what+" to int32")
	case 4:
		f2i[F, int64](x, what+" to int64")
	case 5:
		f2u[F, uint](x, what+" to uint")
	case 6:
		f2u[F, uint8](x, what+" to uint8")
	case 7:
		f2u[F, uint16](x, what+" to uint16")
	case 8:
		f2u[F, uint32](x, what+" to uint32")
	case 9:
		f2u[F, uint64](x, what+" to uint64")
	case 10:
		f2i[F, myInt16](x, what+" to named int16")
	case 11:
		f2u[F, myUint64](x, what+" to named uint64")
	}
}

// C07_FloatToInteger: every float64 and float32 to every integer type.
//
//sym:bv
func C07_FloatToInteger() {
	switch sym.Choice(4) {
	case 0:
		floatToInts(sym.Float64(), "float64")
	case 1:
		floatToInts(sym.Float32(), "float32")
	case 2:
		floatToInts(myF64(sym.Float64()), "named float64")
	case 3:
		floatToInts(myF32(sym.Float32()), "named float32")
	}
}

// same float, NaN counting as itself.
func sameF(a, b float64) bool { return a == b || a != a && b != b }

func narrow[I, O constraint.Float](x I, out32 bool, what string) {
	var (
		o   O
		err error
	)
	switch sym.Choice(3) {
	case 0:
		err = conv.FloatToFloat(x, &o)
		what = "FloatToFloat " + what
	case 1:
		err = conv.To(x, &o)
		what = "To " + what
	case 2:
		err = conv.AnyTo(any(x), &o)
		what = "AnyTo " + what
	}
	f := float64(x)
	a := math.Abs(f)
	if out32 && !math.IsInf(f, 0) && (a > math.MaxFloat32 || a != 0 && a < math.SmallestNonzeroFloat32) {
		sym.Reach("out of range")
		sym.Assert(err != nil, what+": no error for a float out of range")
		return
	}
	sym.Reach("in range")
	sym.Assert(err == nil, what+": error for a float in range")
	want := f
	if out32 {
		want = float64(float32(f))
	}
	sym.Assert(sameF(float64(o), want), what+": not the same float")
}

// C07_FloatToFloat: every float to a float of the same, a wider or a narrower type.
//
//sym:bv
func C07_FloatToFloat() {
	switch sym.Choice(8) {
	case 0:
		narrow[float64, float32](sym.Float64(), true, "float64 to float32")
	case 1:
		narrow[float64, float64](sym.Float64(), false, "float64 to float64")
	case 2:
		narrow[float32, float64](sym.Float32(), false, "float32 to float64")
	case 3:
		narrow[float32, float32](sym.Float32(), true, "float32 to float32")
	case 4:
		narrow[float64, myF32](sym.Float64(), true, "float64 to named float32")
	case 5:
		narrow[myF64, float32](myF64(sym.Float64()), true, "named float64 to float32")
	case 6:
		narrow[myF32, float64](myF32(sym.Float32()), false, "named float32 to float64")
	case 7:
		narrow[myF32, myF64](myF32(sym.Float32()), false, "named float32 to named float64")
	}
}

func toBigs[F constraint.Float](x F, what string) {
	f := float64(x)
	switch sym.Choice(6) {
	case 0, 1:
		var (
			o   *big.Int
			err error
		)
		if sym.Choice(2) == 0 {
			err = conv.FloatToBigInt(x, &o)
			what = "FloatToBigInt " + what
		} else {
			err = conv.To(x, &o)
			what = "To *big.Int " + what
		}
		if f-f != 0 || math.Trunc(f) != f {
			sym.Reach("not an integer")
			sym.Assert(err != nil, what+": no error for a float that is not an integer")
			return
		}
		sym.Assert(err == nil && o != nil, what+": error for an integral float")
		want, _ := new(big.Float).SetFloat64(f).Int(nil)
		sym.Assert(o.Cmp(want) == 0, what+": wrong value")
	case 2, 3:
		var (
			o   *big.Float
			err error
		)
		if sym.Choice(2) == 0 {
			err = conv.FloatToBigFloat(x, &o)
			what = "FloatToBigFloat " + what
		} else {
			err = conv.To(x, &o)
			what = "To *big.Float " + what
		}
		if f != f {
			sym.Reach("NaN")
			sym.Assert(err != nil, what+": no error for NaN")
			return
		}
		sym.Assert(err == nil && o != nil, what+": error for a float that is not NaN")
		g, acc := o.Float64()
		sym.Assert(acc == big.Exact && g == f, what+": wrong value")
	case 4, 5:
		var (
			o   *big.Rat
			err error
		)
		if sym.Choice(2) == 0 {
			err = conv.FloatToBigRat(x, &o)
			what = "FloatToBigRat " + what
		} else {
			err = conv.To(x, &o)
			what = "To *big.Rat " + what
		}
		if f-f != 0 {
			sym.Reach("not finite")
			sym.Assert(err != nil, what+": no error for a float that is not finite")
			return
		}
		sym.Assert(err == nil && o != nil, what+": error for a finite float")
		g, exact := o.Float64()
		sym.Assert(exact && g == f, what+": wrong value")
	}
}

// C07_ToBig: every float to arbitrary precision numbers.
//
//sym:bv
func C07_ToBig() {
	switch sym.Choice(3) {
	case 0:
		toBigs(sym.Float64(), "float64")
	case 1:
		toBigs(sym.Float32(), "float32")
	case 2:
		toBigs(myF64(sym.Float64()), "named float64")
	}
}

func fromBigFloat[T constraint.Integer](b *big.Float, f float64, what string) {
	var (
		o   T
		err error
	)
	switch sym.Choice(2) {
	case 0:
		err = conv.To(b, &o)
	case 1:
		err = conv.AnyTo(any(b), &o)
	}
	decideF2I(f, o, err, "*big.Float to "+what)
}

// C07_FromBigFloat: arbitrary precision floats that are some float64 back to the machine types.
//
//sym:bv
func C07_FromBigFloat() {
	f := sym.Float64()
	sym.Assume(f == f)
	b := big.NewFloat(f)
	switch sym.Choice(13) {
	case 0:
		fromBigFloat[int](b, f, "int")
	case 1:
		fromBigFloat[int8](b, f, "int8")
	case 2:
		fromBigFloat[int16](b, f, "int16")
	case 3:
		fromBigFloat[int32](b, f, "int32")
	case 4:
		fromBigFloat[int64](b, f, "int64")
	case 5:
		fromBigFloat[uint](b, f, "uint")
	case 6:
		fromBigFloat[uint8](b, f, "uint8")
	case 7:
		fromBigFloat[uint16](b, f, "uint16")
	case 8:
		fromBigFloat[uint32](b, f, "uint32")
	case 9:
		fromBigFloat[uint64](b, f, "uint64")
	case 10:
		var o float64
		err := conv.To(b, &o)
		sym.Assert(err == nil && o == f, "*big.Float to float64: wrong value")
	case 11:
		var o float32
		var err error
		if sym.Choice(2) == 0 {
			err = conv.To(b, &o)
		} else {
			err = conv.BigFloatToFloat32(b, &o)
		}
		sym.Assert((err == nil) == (float64(float32(f)) == f), "*big.Float to float32: wrong outcome")
		sym.Assert(err != nil || float64(o) == f, "*big.Float to float32: wrong value")
	case 12:
		var o *big.Rat
		err := conv.BigFloatToBigRat(b, &o)
		if f-f != 0 {
			sym.Assert(err != nil, "*big.Float to *big.Rat: no error for an infinity")
			return
		}
		sym.Assert(err == nil, "*big.Float to *big.Rat: error for a finite float")
		g, exact := o.Float64()
		sym.Assert(exact && g == f, "*big.Float to *big.Rat: wrong value")
	}
}

// wide is odd (which is odd) times two to the power e, as a float wide enough to hold it.
func wide(odd *big.Int, e int) *big.Float {
	if e >= 0 {
		return new(big.Float).SetPrec(128).SetInt(new(big.Int).Lsh(odd, uint(e)))
	}
	return new(big.Float).SetPrec(128).SetRat(new(big.Rat).SetFrac(odd, new(big.Int).Lsh(big.NewInt(1), uint(-e))))
}

// wideFits tells if odd times two to the power e is a float of that many bits, lowest and highest exponents.
func wideFits(odd *big.Int, e, bits, lo, hi int) bool {
	a := new(big.Int).Abs(odd)
	if e < lo || a.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(bits))) >= 0 || e >= hi {
		return false
	}
	return a.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(hi-e))) < 0
}

func wideInt[T constraint.Integer](b *big.Float, odd *big.Int, e int, what string) {
	var o T
	err := conv.To(b, &o)
	if e < 0 {
		sym.Assert(err != nil, what+": no error for a fraction")
		return
	}
	n := new(big.Int).Lsh(odd, uint(e))
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(width[T]()))
	if signed[T]() {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		sym.Assert(err != nil, what+": no error for an integer out of range")
		return
	}
	sym.Assert(err == nil, what+": error for an integer in range")
	if signed[T]() {
		sym.Assert(n.Cmp(big.NewInt(int64(o))) == 0, what+": wrong value")
	} else {
		sym.Assert(n.Cmp(new(big.Int).SetUint64(uint64(o))) == 0, what+": wrong value")
	}
}

// oddOf is any odd number of l bits, negative or not.
func oddOf(l int) *big.Int {
	odd := big.NewInt(1)
	if l > 1 {
		k := sym.BigInt(62)
		sym.Assume(k.Sign() >= 0 && k.Cmp(new(big.Int).Lsh(odd, uint(l-2))) < 0)
		odd = new(big.Int).Add(new(big.Int).Lsh(k, 1), new(big.Int).Lsh(odd, uint(l-1)))
		if l > 2 {
			odd.Add(odd, big.NewInt(1))
		} else {
			odd.SetInt64(3)
		}
	}
	if sym.Choice(2) == 0 {
		odd.Neg(odd)
	}
	return odd
}

// C07_WideBigFloat: arbitrary precision floats of up to 60 significant bits (eight lengths) and exponents far beyond those of the
// machine floats, including those of subnormal machine floats, to every machine type, *big.Int and *big.Rat.
func C07_WideBigFloat() {
	es := []int{-1200, -1134, -1076, -1075, -1074, -1030, -203, -151, -150, -149, -130, -60, -1, 0, 1, 10, 70, 104, 127, 128, 971, 972, 1023, 1024}
	ls := []int{1, 2, 7, 24, 25, 53, 54, 60}
	e, l := es[sym.Choice(len(es))], ls[sym.Choice(len(ls))]
	odd := oddOf(l)
	b := wide(odd, e)
	switch sym.Choice(7) {
	case 0:
		var o float64
		var err error
		if sym.Choice(2) == 0 {
			err = conv.BigFloatToFloat64(b, &o)
		} else {
			err = conv.To(b, &o)
		}
		if !wideFits(odd, e, 53, -1074, 1024) {
			sym.Reach("not a float64")
			sym.Assert(err != nil, "*big.Float to float64: no error for a value that is not a float64")
			return
		}
		sym.Reach("a float64")
		sym.Assert(err == nil, "*big.Float to float64: error for a float64")
		sym.Assert(new(big.Float).SetFloat64(o).Cmp(b) == 0, "*big.Float to float64: wrong value")
	case 1:
		var o float32
		var err error
		if sym.Choice(2) == 0 {
			err = conv.BigFloatToFloat32(b, &o)
		} else {
			err = conv.To(b, &o)
		}
		if !wideFits(odd, e, 24, -149, 128) {
			sym.Reach("not a float32")
			sym.Assert(err != nil, "*big.Float to float32: no error for a value that is not a float32")
			return
		}
		sym.Reach("a float32")
		sym.Assert(err == nil, "*big.Float to float32: error for a float32")
		sym.Assert(new(big.Float).SetFloat64(float64(o)).Cmp(b) == 0, "*big.Float to float32: wrong value")
	case 2:
		wideInt[int64](b, odd, e, "*big.Float to int64")
	case 3:
		wideInt[uint64](b, odd, e, "*big.Float to uint64")
	case 4:
		wideInt[int8](b, odd, e, "*big.Float to int8")
	case 5:
		var o *big.Int
		err := conv.To(b, &o)
		sym.Assert((err == nil) == (e >= 0), "*big.Float to *big.Int: wrong outcome")
		if e >= 0 {
			sym.Assert(o.Cmp(new(big.Int).Lsh(odd, uint(e))) == 0, "*big.Float to *big.Int: wrong value")
		}
	case 6:
		var o *big.Rat
		err := conv.To(b, &o)
		sym.Assert(err == nil, "*big.Float to *big.Rat: error")
		r := new(big.Rat).SetInt(odd)
		if e >= 0 {
			r.SetInt(new(big.Int).Lsh(odd, uint(e)))
		} else {
			r.SetFrac(odd, new(big.Int).Lsh(big.NewInt(1), uint(-e)))
		}
		sym.Assert(o.Cmp(r) == 0, "*big.Float to *big.Rat: wrong value")
	}
}
