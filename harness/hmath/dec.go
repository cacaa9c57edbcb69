package hmath

import (
	"math/big"
	"reflect"
	"strings"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

const maxDec = int64(999_999_999_999_999_999)

var bigMaxDec = big.NewInt(maxDec)

// pow10 is 10^n for a concrete n.
func pow10(n uint) *big.Int {
	r, _ := new(big.Int).SetString("1"+strings.Repeat("0", int(n)), 10)
	return r
}

// unscaled is the number the decimal denotes times 10^scale, read from the field that holds it when there is such a
// field, else from the text form (checked against the constructor's argument by C08).
func unscaled(d math.Decimal) *big.Int {
	v := reflect.ValueOf(d)
	if f := v.FieldByName("value"); f.IsValid() && f.Kind() == reflect.Int64 {
		return big.NewInt(f.Int())
	}
	r, _ := new(big.Int).SetString(strings.Replace(d.String(), ".", "", 1), 10)
	return r
}

// decimal is an arbitrary decimal of the given scale.
func decimal(scale uint, denormalized bool) (math.Decimal, int64) {
	v := sym.Int64()
	sym.Assume(v >= -maxDec && v <= maxDec)
	d, err := math.OfDecimal(v, scale, !denormalized)
	sym.Assume(err == nil)
	return d, v
}

// valid tells if a decimal is within the format.
func valid(d math.Decimal) bool {
	return d.Scale() <= 18 && unscaled(d).CmpAbs(bigMaxDec) <= 0
}

// halfAway is n / d rounded to nearest, halves away from zero, for a positive d.
func halfAway(n, d *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(n, d, new(big.Int))
	if new(big.Int).Lsh(new(big.Int).Abs(r), 1).Cmp(d) >= 0 {
		if n.Sign() < 0 {
			q.Sub(q, one)
		} else {
			q.Add(q, one)
		}
	}
	return q
}
