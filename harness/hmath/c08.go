package hmath

import (
	"math/big"
	"strings"

	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// C08_Construct: any int64 value, any scale, with and without normalisation.
func C08_Construct() {
	v := sym.Int64()
	n := sym.Choice(3)
	make := func(scale uint) (math.Decimal, error) {
		switch n {
		case 0:
			return math.OfDecimal(v, scale)
		case 1:
			return math.OfDecimal(v, scale, true)
		}
		return math.OfDecimal(v, scale, false)
	}
	s := sym.Choice(20)
	if s == 19 {
		big := sym.Uint()
		sym.Assume(big > 18)
		_, err := make(big)
		sym.Reach("scale too large")
		sym.Assert(err != nil, "OfDecimal: a scale over 18 is accepted")
		return
	}
	d, err := make(uint(s))
	if v > maxDec || v < -maxDec {
		sym.Reach("value too large")
		sym.Assert(err != nil, "OfDecimal: more than 18 digits accepted")
		return
	}
	sym.Reach("valid")
	sym.Assert(err == nil, "OfDecimal: valid value and scale rejected")
	got := unscaled(d)
	sym.Assert(d.Scale() <= uint(s), "OfDecimal: scale grew")
	sym.Assert(new(big.Int).Mul(got, pow10(uint(s)-d.Scale())).Cmp(big.NewInt(v)) == 0, "OfDecimal: denotes another number")
	sym.Assert(d.Normalized() == (n != 2), "OfDecimal: normalisation state")
	if n == 2 && v != 0 {
		sym.Assert(d.Scale() == uint(s), "OfDecimal: scale changed though not normalised")
	} else if d.Scale() > 0 {
		sym.Assert(new(big.Int).Rem(got, pow10(1)).Sign() != 0, "OfDecimal: not normalised")
	}
	sym.Assert(d.Sign() == big.NewInt(v).Sign(), "Decimal: wrong sign")
	sym.Observe(d)
}

// checkText: the text of d is that of v * 10^-s, and parses back.
func checkText(d math.Decimal, v int64, s uint) {
	t := d.String()
	sym.Observe(t)
	neg := strings.HasPrefix(t, "-")
	sym.Assert(neg == (v < 0), "String: sign")
	abs := strings.TrimPrefix(t, "-")
	intPart, frac, dot := strings.Cut(abs, ".")
	sym.Assert(uint(len(frac)) == s && dot == (s > 0), "String: digits after the point")
	sym.Assert(len(intPart) > 0 && (len(intPart) == 1 || intPart[0] != '0'), "String: integer part")
	digits := intPart + frac
	for i := 0; i < len(digits); i++ {
		sym.Assert(sym.And(digits[i] >= '0', digits[i] <= '9'), "String: not plain digits")
	}
	i := 0
	for i < len(digits)-1 && digits[i] == '0' {
		i++
	}
	n, ok := new(big.Int).SetString(digits[i:], 10)
	sym.Assert(ok, "String: no digits")
	if neg {
		n.Neg(n)
	}
	sym.Assert(n.Cmp(big.NewInt(v)) == 0, "String: denotes another number")
	p, err := math.StringToDecimal(t)
	sym.Assert(err == nil, "StringToDecimal: rejects the text of a decimal")
	sym.Assert(p.Scale() == s, "StringToDecimal: another scale than written")
	sym.Assert(unscaled(p).Cmp(big.NewInt(v)) == 0, "StringToDecimal: another value than written")
	sym.Assert(d.Precision() == len(digits), "Precision: not the number of digits")
}

// C08_Text: every decimal of every scale: text form and back.
func C08_Text() {
	s := uint(sym.Choice(19))
	d, v := decimal(s, true)
	if v == 0 {
		s = 0
	}
	checkText(d, v, s)
}

// spec of a decimal text: sign, digits, scale and whether it is one.
func specDecimal(t string) (digits string, scale int, neg, ok bool) {
	i := 0
	if i < len(t) && t[i] == '-' {
		neg = true
		i++
	}
	dot := -1
	for ; i < len(t); i++ {
		if t[i] == '.' && dot < 0 {
			dot = len(digits)
		} else if t[i] >= '0' && t[i] <= '9' {
			digits += t[i : i+1]
		} else {
			return "", 0, false, false
		}
	}
	if dot >= 0 {
		scale = len(digits) - dot
	}
	return digits, scale, neg, len(digits) > 0
}

func checkParse(t string) {
	d, err := math.StringToDecimal(t)
	digits, scale, neg, ok := specDecimal(t)
	sym.Observe(err != nil)
	if !ok {
		sym.Reach("not a decimal")
		sym.Assert(err != nil, "StringToDecimal: text that is not a decimal accepted")
		return
	}
	significant := strings.TrimLeft(digits, "0")
	if len(significant) > 18 || scale > 18 {
		sym.Reach("too many digits")
		sym.Assert(err != nil, "StringToDecimal: too many digits accepted")
		return
	}
	sym.Reach("a decimal")
	if len(digits) <= 18 {
		sym.Assert(err == nil, "StringToDecimal: decimal rejected")
	}
	if err != nil {
		return
	}
	sym.Assert(d.Scale() == uint(scale), "StringToDecimal: scale is not the digits after the point")
	n := new(big.Int)
	for i := 0; i < len(digits); i++ {
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(int64(digits[i]-'0')))
	}
	if neg {
		n.Neg(n)
	}
	sym.Assert(unscaled(d).Cmp(n) == 0, "StringToDecimal: another value than written")
}

// C08_Parse: every string of up to 4 bytes (thorough 5).
func C08_Parse() {
	n := 5
	if sym.Thorough() {
		n = 6
	}
	checkParse(sym.String(sym.Choice(n)))
}

// C08_ParseLong: 17 to 20 digits with a point anywhere, or none, and an optional sign.
func C08_ParseLong() {
	n := 17 + sym.Choice(4)
	p := sym.Choice(n + 2)
	t := ""
	if sym.Choice(2) == 1 {
		t = "-"
	}
	d := sym.StringOf(n, "0123456789")
	if p <= n {
		d = d[:p] + "." + d[p:]
	}
	checkParse(t + d)
}
