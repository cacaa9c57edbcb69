package hmath

import (
	"math/big"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// checkSum decides d op o for the values v1 * 10^-s1 and v2 * 10^-s2, where v2 has its sign changed to subtract.
func checkSum(r math.Decimal, err error, v1 int64, s1 uint, v2 int64, s2 uint, denormalized bool, what string) {
	// the operand of larger scale is fine, the other coarse
	fv, fs, cv, cs := big.NewInt(v1), s1, big.NewInt(v2), s2
	if fs < cs {
		fv, fs, cv, cs = cv, cs, fv, fs
	}
	aligned := new(big.Int).Mul(cv, pow10(fs-cs))
	var exact *big.Int
	var scale uint
	if aligned.CmpAbs(bigMaxDec) <= 0 {
		sym.Reach("aligned")
		exact, scale = new(big.Int).Add(fv, aligned), fs
	} else {
		sym.Reach("rounded")
		exact, scale = new(big.Int).Add(halfAway(fv, pow10(fs-cs)), cv), cs
		if err != nil && cv.CmpAbs(big.NewInt(maxDec-5)) > 0 {
			// documented: the coarse operand is too large to round
			return
		}
	}
	sym.Observe(err != nil)
	if exact.CmpAbs(bigMaxDec) > 0 {
		sym.Reach("out of range")
		sym.Assert(err != nil, what+": no error for a sum out of range")
		return
	}
	sym.Assert(err == nil, what+": error though the result is in range")
	sym.Assert(r.Scale() <= scale, what+": scale too large")
	got := unscaled(r)
	sym.Assert(new(big.Int).Mul(got, pow10(scale-r.Scale())).Cmp(exact) == 0, what+": wrong result")
	if !denormalized && r.Scale() > 0 {
		sym.Assert(new(big.Int).Rem(got, pow10(1)).Sign() != 0, what+": not normalised")
	}
	sym.Observe(r)
}

func addSub(s1, s2 uint, denormalized bool) {
	d, v1 := decimal(s1, denormalized)
	o, v2 := decimal(s2, denormalized)
	// normalised operands have smaller scales
	s1, s2 = d.Scale(), o.Scale()
	v1, v2 = unscaled(d).Int64(), unscaled(o).Int64()
	if sym.Choice(2) == 0 {
		r, err := d.Add(o)
		checkSum(r, err, v1, s1, v2, s2, denormalized, "Add")
	} else {
		r, err := d.Sub(o)
		checkSum(r, err, v1, s1, -v2, s2, denormalized, "Sub")
	}
	sym.Assert(unscaled(d).Cmp(big.NewInt(v1)) == 0 && d.Scale() == s1 && unscaled(o).Cmp(big.NewInt(v2)) == 0 && o.Scale() == s2, "Add or Sub changed an operand")
}

// C10_AddSub: any two values of every pair of scales, not normalised.
//
//sym:opaquetext
func C10_AddSub() {
	addSub(uint(sym.Choice(19)), uint(sym.Choice(19)), true)
}

// C10_Normalized: values of scales 0, 2 and 18 that are normalised.
//
//sym:opaquetext
func C10_Normalized() {
	scales := []uint{0, 2, 18}
	addSub(scales[sym.Choice(3)], scales[sym.Choice(3)], false)
}

// C10_Zero: a zero that keeps a scale.
//
//sym:opaquetext
func C10_Zero() {
	z, err := math.StringToDecimal([]string{"0", "0.0", "0.000000000000000000"}[sym.Choice(3)])
	sym.Assert(err == nil, "zero rejected")
	s := uint(sym.Choice(19))
	d, v := decimal(s, true)
	if v == 0 {
		s = 0
	}
	if sym.Choice(2) == 0 {
		r, err := z.Add(d)
		checkSum(r, err, 0, z.Scale(), v, s, false, "zero Add")
	} else {
		r, err := d.Sub(z)
		checkSum(r, err, v, s, 0, z.Scale(), true, "Sub zero")
	}
}

// C10_Align: AdjustDecimalScale gives both the same scale.
//
//sym:opaquetext
func C10_Align() {
	s1, s2 := uint(sym.Choice(19)), uint(sym.Choice(19))
	a, v1 := decimal(s1, true)
	b, v2 := decimal(s2, true)
	s1, s2 = a.Scale(), b.Scale()
	err := math.AdjustDecimalScale(&a, &b)
	sym.Observe(err != nil)
	if err != nil {
		sym.Assert(a.Scale() == s1 && b.Scale() == s2, "AdjustDecimalScale: changed a decimal though it failed")
		return
	}
	sym.Assert(a.Scale() == b.Scale(), "AdjustDecimalScale: scales differ")
	check := func(v int64, s uint, r math.Decimal) {
		want := new(big.Int)
		if r.Scale() >= s {
			want.Mul(big.NewInt(v), pow10(r.Scale()-s))
		} else {
			want = halfAway(big.NewInt(v), pow10(s-r.Scale()))
		}
		sym.Assert(unscaled(r).Cmp(want) == 0, "AdjustDecimalScale: another number")
		sym.Assert(valid(r), "AdjustDecimalScale: not a valid decimal")
	}
	check(v1, s1, a)
	check(v2, s2, b)
	sym.Observe(a)
	sym.Observe(b)
}
