package hmath

import (
	"math/big"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// at is the number r denotes in units of 10^-scale, for a scale that is at least that of r.
func at(r math.Decimal, scale uint) *big.Int {
	return new(big.Int).Mul(unscaled(r), pow10(scale-r.Scale()))
}

func tooLarge(v *big.Int, scale uint, n uint) bool {
	// n larger than the integer part of the dividend
	return new(big.Int).Quo(new(big.Int).Abs(v), pow10(scale)).Cmp(new(big.Int).SetUint64(uint64(n))) < 0
}

func checkQuoRem(d math.Decimal, n uint) {
	s := d.Scale()
	v := unscaled(d)
	bn := new(big.Int).SetUint64(uint64(n))
	q, r, err := d.DivIntQuoRem(n)
	sym.Observe(err != nil)
	if n == 0 || tooLarge(v, s, n) {
		sym.Reach("refused")
		sym.Assert(err != nil, "DivIntQuoRem: zero or too large a divisor accepted")
		return
	}
	sym.Reach("divided")
	sym.Assert(err == nil, "DivIntQuoRem: divisor refused")
	sym.Assert(q.Scale() == s && r.Scale() <= s, "DivIntQuoRem: scale of the quotient or remainder")
	sum := new(big.Int).Mul(bn, unscaled(q))
	rem := at(r, s)
	sym.Assert(sum.Add(sum, rem).Cmp(v) == 0, "DivIntQuoRem: divisor * quotient + remainder is not the dividend")
	sym.Assert(rem.CmpAbs(bn) < 0, "DivIntQuoRem: remainder not below the divisor")
	sym.Assert(rem.Sign() == 0 || rem.Sign() == v.Sign(), "DivIntQuoRem: sign of the remainder")
}

// C12_QuoRem: every value of every scale by every divisor from a list, and by any divisor over 2^63.
//
//sym:opaquetext
func C12_QuoRem() {
	d, _ := decimal(uint(sym.Choice(19)), sym.Choice(2) == 0)
	ns := []uint{0, 1, 2, 3, 7, 10, 11, 12, 100, 1000, 999_999_937, 1_000_000_000_000_000, 999_999_999_999_999_999}
	k := sym.Choice(len(ns) + 1)
	if k == len(ns) {
		n := sym.Uint()
		sym.Assume(n > 999_999_999_999_999_999)
		checkQuoRem(d, n)
		return
	}
	checkQuoRem(d, ns[k])
}

// C12_QuoRemSmall: values of up to 3 digits, any divisor.
//
//sym:opaquetext
func C12_QuoRemSmall() {
	d, v := decimal(uint(sym.Choice(4)), true)
	sym.Assume(v >= -999 && v <= 999)
	checkQuoRem(d, sym.Uint())
}

// C12_Distribute: every value of every scale over 0 to 4 parts, and of some scales over up to 7 (thorough 13) parts.
//
//sym:opaquetext
func C12_Distribute() {
	k := sym.Choice(3)
	var s, n uint
	norm := sym.Choice(2) == 0
	switch k {
	case 0:
		s, n = uint(sym.Choice(19)), uint(sym.Choice(5))
	case 1:
		s, n = uint(sym.Choice(3)), uint(5+sym.Choice(3))
		if sym.Thorough() {
			n = uint(5 + sym.Choice(9))
		}
	case 2:
		s, n = []uint{0, 2, 17}[sym.Choice(3)], 10
	}
	d, _ := decimal(s, norm)
	s = d.Scale()
	v := unscaled(d)
	parts, err := d.DivIntAdd(n)
	sym.Observe(err != nil)
	if n == 0 || tooLarge(v, s, n) {
		sym.Reach("refused")
		sym.Assert(err != nil, "DivIntAdd: zero or too large a divisor accepted")
		return
	}
	sym.Reach("distributed")
	sym.Assert(err == nil, "DivIntAdd: divisor refused")
	sym.Assert(len(parts) == int(n), "DivIntAdd: number of parts")
	sum := new(big.Int)
	var lo, hi *big.Int
	for _, p := range parts {
		sym.Assert(p.Scale() <= s, "DivIntAdd: scale of a part")
		x := at(p, s)
		sum.Add(sum, x)
		if lo == nil || x.Cmp(lo) < 0 {
			lo = x
		}
		if hi == nil || x.Cmp(hi) > 0 {
			hi = x
		}
	}
	sym.Assert(sum.Cmp(v) == 0, "DivIntAdd: parts do not add up to the dividend")
	sym.Assert(new(big.Int).Sub(hi, lo).Cmp(one) <= 0, "DivIntAdd: parts differ by more than one unit")
	sym.Observe(parts)
}
