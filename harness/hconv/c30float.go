package hconv

import (
	"math"
	"math/big"
	"strconv"

	"github.com/bantling/micro/conv"
	"verifharness/sym"
)

// nearest asserts that f, of prec significant bits or more, is a float of that precision nearest to x: the distance is
// at most half of the last place, which is at most |f| / 2^(prec-1); a float itself is not rounded.
func nearest(f, x *big.Rat, isFloat bool, prec int, what string) {
	diff := new(big.Rat).Sub(f, x)
	if diff.Sign() == 0 {
		return
	}
	sym.Reach("rounded")
	sym.Assert(!isFloat, what+": rounded although it is a float")
	diff.Abs(diff)
	diff.Mul(diff, new(big.Rat).SetInt(new(big.Int).Lsh(one, uint(prec))))
	sym.Assert(diff.Cmp(new(big.Rat).Abs(f)) <= 0, what+": not the nearest float")
}

func tenTo(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }

// C30_RatToBigFloat: ratios of numerators of up to 7 bits, and of numerators of more than 53 bits, over some
// denominators of up to 200 bits to *big.Float: the nearest float of at least 53 bits.
func C30_RatToBigFloat() {
	n := sym.BigInt(7 + thor(6))
	ds := []*big.Int{big.NewInt(3), big.NewInt(8), tenTo(2), tenTo(25), new(big.Int).Lsh(one, 30), tenTo(60)}
	k := sym.Choice(len(ds))
	isFloat := k == 1 || k == 4
	if sym.Choice(2) == 1 {
		n.Add(n, new(big.Int).Lsh(one, 60))
		isFloat = false
	}
	r, x := new(big.Rat).SetFrac(n, ds[k]), new(big.Rat).SetFrac(n, ds[k])
	var o *big.Float
	switch sym.Choice(3) {
	case 0:
		conv.BigRatToBigFloat(r, &o)
	case 1:
		sym.Assert(conv.To(r, &o) == nil, "*big.Rat to *big.Float: error")
	case 2:
		sym.Assert(conv.ToBigOps(r, &o) == nil, "*big.Rat to *big.Float: error")
	}
	f, _ := o.Rat(nil)
	nearest(f, x, isFloat, 53, "*big.Rat to *big.Float")
	sym.Assert(r.Cmp(x) == 0, "*big.Rat to *big.Float: changed the ratio")
}

func ratioToFloat[F float32 | float64](n, d *big.Int, prec int, typed func(*big.Rat, *F) error, what string) {
	var (
		o   F
		err error
		r   = new(big.Rat).SetFrac(n, d)
	)
	switch sym.Choice(2) {
	case 0:
		err = typed(r, &o)
	case 1:
		err = conv.To(r, &o)
	}
	// exact iff the reduced denominator is a power of two and the reduced numerator has at most prec bits
	exact := r.Denom().Cmp(new(big.Int).Lsh(one, uint(r.Denom().BitLen()-1))) == 0
	if x := new(big.Int).Abs(r.Num()); exact && x.Cmp(new(big.Int).Lsh(one, uint(prec))) > 0 {
		// more bits, but trailing zeros when there is no denominator
		sh := uint(x.BitLen() - prec)
		exact = new(big.Int).Lsh(new(big.Int).Rsh(x, sh), sh).Cmp(x) == 0
	}
	sym.Assert((err == nil) == exact, what+": error exactly when the ratio is not a float")
	if err == nil {
		sym.Reach("exact")
		sym.Assert(new(big.Rat).SetFloat64(float64(o)).Cmp(r) == 0, what+": wrong value")
	} else {
		sym.Reach("not a float")
	}
}

// C30_RatToFloat: ratios of numerators of up to 30 bits over some denominators to float32 and float64.
func C30_RatToFloat() {
	n, d := sym.BigInt(30), big.NewInt([]int64{2, 3, 8, 100, 1 << 30}[sym.Choice(5)])
	if sym.Choice(2) == 0 {
		ratioToFloat(n, d, 53, conv.BigRatToFloat64, "*big.Rat to float64")
	} else {
		ratioToFloat(n, d, 24, conv.BigRatToFloat32, "*big.Rat to float32")
	}
}

// C30_RatText: the text of a ratio is numerator / denominator, and text of that form gives the ratio back.
func C30_RatText() {
	n, d := sym.BigInt(20), big.NewInt([]int64{1, 2, 3, 8, 100}[sym.Choice(5)])
	r := new(big.Rat).SetFrac(n, d)
	var s string
	switch sym.Choice(2) {
	case 0:
		s = conv.BigRatToString(r)
	case 1:
		s = conv.BigRatToNormalizedString(r)
		if !r.IsInt() {
			return // a float
		}
		sym.Reach("normalised integer")
		sym.Assert(s == r.Num().String(), "*big.Rat to normalised text: not the integer")
		return
	}
	sym.Assert(s == r.Num().String()+"/"+r.Denom().String(), "*big.Rat to text: not numerator/denominator")
}

// fixed is a text of a number with a decimal point and the number it denotes, n/d.
func fixed(digits int) (s string, n, d *big.Int) {
	l := sym.Choice(digits + 1)
	f := 1 + sym.Choice(digits)
	a, b := sym.StringOf(l, "0123456789"), sym.StringOf(f, "0123456789")
	sign := []string{"", "-"}[sym.Choice(2)]
	n, _ = parse("0"+a+b, false)
	if sign == "-" {
		n.Neg(n)
	}
	return sign + a + "." + b, n, tenTo(int64(f))
}

// C30_TextToBigFloat: texts with a decimal point to *big.Float and *big.Rat.
func C30_TextToBigFloat() {
	s, n, d := fixed(2)
	x := new(big.Rat).SetFrac(n, d)
	switch sym.Choice(4) {
	case 0:
		var o *big.Float
		sym.Assert(conv.To(s, &o) == nil, "text to *big.Float: error")
		f, _ := o.Rat(nil)
		nearest(f, x, false, 53, "text to *big.Float")
	case 1:
		var o *big.Rat
		sym.Assert(conv.To(s, &o) == nil && o.Cmp(x) == 0, "text to *big.Rat: wrong value")
	case 2:
		var o *big.Rat
		sym.Assert(conv.FloatStringToBigRat(s, &o) == nil && o.Cmp(x) == 0, "FloatStringToBigRat: wrong value")
	case 3:
		var o *big.Int
		err := conv.To(s, &o)
		sym.Assert(err != nil || new(big.Int).Mul(o, d).Cmp(n) == 0, "text to *big.Int: wrong value and no error")
	}
}

func textToFloat[F float32 | float64](s string, x *big.Rat, d *big.Int, prec int, what string) {
	var o F
	if err := conv.To(s, &o); err != nil {
		sym.Reach("no " + what)
		// a quarter is the smallest fraction of two digits that is a float
		q := new(big.Rat).Mul(x, new(big.Rat).SetInt64(4))
		sym.Assert(!q.IsInt(), what+": error for a float")
		return
	}
	sym.Reach(what)
	nearest(new(big.Rat).SetFloat64(float64(o)), x, false, prec, what)
}

// C30_TextToFloat: texts with a decimal point to float32 and float64: a text that denotes a float of that type gives
// that float, and any other text gives an error or the nearest float.
func C30_TextToFloat() {
	s, n, d := fixed(2)
	x := new(big.Rat).SetFrac(n, d)
	if sym.Choice(2) == 0 {
		textToFloat[float64](s, x, d, 53, "text to float64")
	} else {
		textToFloat[float32](s, x, d, 24, "text to float32")
	}
}

// C30_TextToFloatSpecial: the texts of infinities and NaN, and texts that are not numbers.
func C30_TextToFloatSpecial() {
	var (
		a float64
		b float32
		f *big.Float
		r *big.Rat
		i *big.Int
	)
	all := []string{"+Inf", "-Inf", "Inf", "inf", "+inf", "-inf", "NaN", "", "-", ".", "1.2.3", "1e", "x", "1x", "0x1g", "1/2/3", "-NaN", "+NaN", "NaN1", "1NaN", "nil",
		"+", "--1", "+-1", "-+1", "1-", "1+", "1+1", "e5", "-e5", ".e5", "-.", "1e+", "1e-", "1e1.5", "1ee5", "1..2", "1,5", " 1", "1 ", "1 2", "\t1", "1\n",
		"\uff11", "\u0661", "1\x00", "'1'", "true", "Infx", "+-Inf", "--Inf", "InfInf", "/2", "1/", "1./2", "- 1"}
	switch s := all[sym.Choice(len(all))]; s {
	case "+Inf", "-Inf", "Inf", "inf", "+inf", "-inf":
		sign := 1
		if s[0] == '-' {
			sign = -1
		}
		sym.Assert(conv.To(s, &a) == nil && math.IsInf(a, sign), s+" to float64: wrong value")
		sym.Assert(conv.To(s, &b) == nil && math.IsInf(float64(b), sign), s+" to float32: wrong value")
		sym.Assert(conv.To(s, &f) == nil && f.IsInf() && f.Sign() == sign, s+" to *big.Float: wrong value")
		sym.Assert(conv.To(s, &r) != nil && conv.FloatStringToBigRat(s, &r) != nil, s+" to *big.Rat: no error")
		sym.Assert(conv.To(s, &i) != nil, s+" to *big.Int: no error")
	case "NaN":
		sym.Assert(conv.To(s, &a) == nil && math.IsNaN(a), s+" to float64: wrong value")
		sym.Assert(conv.To(s, &b) == nil && math.IsNaN(float64(b)), s+" to float32: wrong value")
		sym.Assert(conv.To(s, &f) != nil, s+" to *big.Float: no error")
		sym.Assert(conv.To(s, &r) != nil && conv.FloatStringToBigRat(s, &r) != nil, s+" to *big.Rat: no error")
		sym.Assert(conv.To(s, &i) != nil, s+" to *big.Int: no error")
	default:
		sym.Assert(conv.To(s, &a) != nil, "text that is not a number to float64: no error")
		sym.Assert(conv.To(s, &b) != nil, "text that is not a number to float32: no error")
		sym.Assert(conv.To(s, &f) != nil, "text that is not a number to *big.Float: no error")
		sym.Assert(conv.To(s, &r) != nil && conv.FloatStringToBigRat(s, &r) != nil, "text that is not a number to *big.Rat: no error")
		sym.Assert(conv.To(s, &i) != nil, "text that is not a number to *big.Int: no error")
	}
}

// C30_FloatText: the text of any float is read as that float again.
//
//sym:bv
func C30_FloatText() {
	switch sym.Choice(3) {
	case 0:
		f := sym.Float64()
		s := conv.FloatToString(f)
		if sym.Choice(2) == 0 {
			sym.Assert(conv.To(f, &s) == nil, "float64 to text: error")
		}
		g, err := strconv.ParseFloat(s, 64)
		sym.Assert(err == nil && sym.Or(f == g, sym.And(f != f, g != g)), "float64 to text: another value")
	case 1:
		f := sym.Float32()
		s := conv.FloatToString(f)
		if sym.Choice(2) == 0 {
			sym.Assert(conv.To(f, &s) == nil, "float32 to text: error")
		}
		g, err := strconv.ParseFloat(s, 32)
		sym.Assert(err == nil && sym.Or(f == float32(g), sym.And(f != f, g != g)), "float32 to text: another value")
	case 2:
		type celsius float32
		f := sym.Float32()
		var s string
		sym.Assert(conv.AnyTo(any(celsius(f)), &s) == nil, "named float32 to text: error")
		g, err := strconv.ParseFloat(s, 32)
		sym.Assert(err == nil && sym.Or(f == float32(g), sym.And(f != f, g != g)), "named float32 to text: another value")
	}
}

// C30_TextExponents: texts with an exponent, as far as the exponents go: the number, or an error, and never an infinity
// or zero in place of a number that is too large or too small.
func C30_TextExponents() {
	m := int64(sym.Choice(4)) * 3
	e := []int64{0, 1, -1, 5, 22, -22, 38, 39, -45, 308, 309, -324, -330, 400, 5_000, -5_000, 700_000_000, -700_000_000, 3_000_000_000, -3_000_000_000}[sym.Choice(20)]
	s := []string{"", "-", "+"}[sym.Choice(3)] + strconv.FormatInt(m, 10) + []string{"", ".0", "."}[sym.Choice(3)] + []string{"e", "E"}[sym.Choice(2)]
	if e >= 0 && sym.Choice(2) == 1 {
		s += "+"
	}
	s += strconv.FormatInt(e, 10)
	small := e > -10_000 && e < 10_000
	known := small || m == 0
	var x *big.Rat
	if known {
		x = new(big.Rat).SetInt64(m)
		if m == 0 {
			// zero whatever the exponent
		} else if e < 0 {
			x.Quo(x, new(big.Rat).SetInt(tenTo(-e)))
		} else {
			x.Mul(x, new(big.Rat).SetInt(tenTo(e)))
		}
		if s[0] == '-' {
			x.Neg(x)
		}
	}
	switch sym.Choice(6) {
	case 0:
		var o float64
		if err := conv.To(s, &o); err == nil {
			sym.Assert(!math.IsInf(o, 0) && (m == 0) == (o == 0), "text to float64: infinity or zero and no error")
			if known {
				nearest(new(big.Rat).SetFloat64(o), x, false, 53, "text to float64")
			}
			sym.Reach("float64")
		} else {
			sym.Assert(m != 0 || !small, "text to float64: error for zero")
			sym.Reach("no float64")
		}
	case 1:
		var o float32
		if err := conv.To(s, &o); err == nil {
			sym.Assert(!math.IsInf(float64(o), 0) && (m == 0) == (o == 0), "text to float32: infinity or zero and no error")
			if known {
				nearest(new(big.Rat).SetFloat64(float64(o)), x, false, 24, "text to float32")
			}
			sym.Reach("float32")
		} else {
			sym.Assert(m != 0 || !small, "text to float32: error for zero")
			sym.Reach("no float32")
		}
	case 2:
		var o *big.Float
		if err := conv.To(s, &o); err == nil {
			sym.Assert(!o.IsInf() && (m == 0) == (o.Sign() == 0), "text to *big.Float: infinity or zero and no error")
			if known {
				f, _ := o.Rat(nil)
				nearest(f, x, false, 53, "text to *big.Float")
			}
			sym.Reach("*big.Float")
		} else {
			sym.Assert(!small, "text to *big.Float: error for a number")
			sym.Reach("no *big.Float")
		}
	case 3, 4:
		var o *big.Rat
		sym.Assume(e < 10_000 && e > -10_000 || e > 1_000_000_000 || e < -1_000_000_000) // not millions of digits
		f := conv.FloatStringToBigRat
		if sym.Choice(2) == 0 {
			f = conv.To[string, *big.Rat]
		}
		if err := f(s, &o); err == nil {
			sym.Assert(o != nil && known && o.Cmp(x) == 0, "text to *big.Rat: wrong value and no error")
			sym.Reach("*big.Rat")
		} else {
			sym.Assert(!small, "text to *big.Rat: error for a number")
			sym.Reach("no *big.Rat")
		}
	case 5:
		var (
			o *big.Int
			i int64
			u uint64
		)
		sym.Assert(conv.To(s, &o) != nil || known && x.Cmp(new(big.Rat).SetInt(o)) == 0, "text to *big.Int: wrong value and no error")
		sym.Assert(conv.To(s, &i) != nil || known && x.Cmp(new(big.Rat).SetInt64(i)) == 0, "text to int64: wrong value and no error")
		sym.Assert(conv.To(s, &u) != nil || known && x.Cmp(new(big.Rat).SetInt(new(big.Int).SetUint64(u))) == 0, "text to uint64: wrong value and no error")
	}
}
