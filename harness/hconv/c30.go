package hconv

import (
	"math/big"
	goreflect "reflect"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verifharness/sym"
)

// parse reads an optionally signed decimal integer.
func parse(s string, signed bool) (*big.Int, bool) {
	i, neg := 0, false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		if !signed {
			return nil, false
		}
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return nil, false
	}
	r := new(big.Int)
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		r.Mul(r, big.NewInt(10))
		r.Add(r, big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		r.Neg(r)
	}
	return r, true
}

func text2int[T constraint.Integer](s string, what string) {
	var (
		o   T
		err error
	)
	switch sym.Choice(3) {
	case 0:
		err = conv.To(s, &o)
	case 1:
		err = conv.AnyTo(any(myStr(s)), &o)
	case 2:
		err = conv.ReflectTo(goreflect.ValueOf(s), goreflect.ValueOf(&o))
	}
	x, ok := parse(s, signed[T]())
	if !ok {
		sym.Reach("not a number")
		sym.Assert(err != nil, "text to "+what+": no error for text that is not an integer")
		return
	}
	outcome(x, o, err, "text to "+what)
}

// C30_TextToInt: every text of up to 5 characters out of digits, signs and a letter, and of up to 3 digits after a
// prefix that brings it to the limits of the wide types.
func C30_TextToInt() {
	var s string
	switch sym.Choice(3) {
	case 0:
		n := sym.Choice(4 + thor(1))
		s = sym.StringOf(n, "0123456789+-a._ ")
	case 1:
		s = "92233720368547758" + sym.StringOf(2, "0123456789")
	case 2:
		s = []string{"", "-"}[sym.Choice(2)] + "184467440737095516" + sym.StringOf(2, "0123456789")
	}
	switch sym.Choice(10) {
	case 0:
		text2int[int](s, "int")
	case 1:
		text2int[int8](s, "int8")
	case 2:
		text2int[int16](s, "int16")
	case 3:
		text2int[int32](s, "int32")
	case 4:
		text2int[int64](s, "int64")
	case 5:
		text2int[uint](s, "uint")
	case 6:
		text2int[uint8](s, "uint8")
	case 7:
		text2int[uint16](s, "uint16")
	case 8:
		text2int[uint32](s, "uint32")
	case 9:
		text2int[uint64](s, "uint64")
	}
}

func thor(n int) int {
	if sym.Thorough() {
		return n
	}
	return 0
}

// roundText converts an integer to text and back.
func roundText[T constraint.Integer](x T, what string) {
	var s string
	switch sym.Choice(3) {
	case 0:
		sym.Assert(conv.To(x, &s) == nil, what+" to text: error")
	case 1:
		sym.Assert(conv.AnyTo(any(x), &s) == nil, what+" to text: error")
	case 2:
		if goreflect.TypeOf(x).PkgPath() != "" {
			return
		}
		sym.Assert(conv.ReflectTo(goreflect.ValueOf(x), goreflect.ValueOf(&s)) == nil, what+" to text: error")
	}
	v, ok := parse(s, signed[T]())
	sym.Assert(ok && v.Cmp(bigOf(x)) == 0, what+" to text: not the decimal text of the value")
	var y T
	sym.Assert(conv.To(s, &y) == nil, what+" to text and back: error")
	sym.Assert(y == x, what+" to text and back: wrong value")
	sym.Observe(s)
}

// C30_IntText: every integer of every type to decimal text and back.
func C30_IntText() {
	switch sym.Choice(12) {
	case 0:
		roundText(sym.Int(), "int")
	case 1:
		roundText(sym.Int8(), "int8")
	case 2:
		roundText(sym.Int16(), "int16")
	case 3:
		roundText(sym.Int32(), "int32")
	case 4:
		roundText(sym.Int64(), "int64")
	case 5:
		roundText(sym.Uint(), "uint")
	case 6:
		roundText(sym.Uint8(), "uint8")
	case 7:
		roundText(sym.Uint16(), "uint16")
	case 8:
		roundText(sym.Uint32(), "uint32")
	case 9:
		roundText(sym.Uint64(), "uint64")
	case 10:
		roundText(myInt16(sym.Int16()), "named int16")
	case 11:
		roundText(myUint32(sym.Uint32()), "named uint32")
	}
}

func fromRat[T constraint.Integer](n, d *big.Int, what string) {
	var (
		o   T
		err error
		r   = new(big.Rat).SetFrac(n, d)
	)
	switch sym.Choice(2) {
	case 0:
		err = conv.To(r, &o)
	case 1:
		err = conv.AnyTo(any(r), &o)
	}
	what = "*big.Rat to " + what
	if new(big.Int).Rem(n, d).Sign() != 0 {
		sym.Reach("fraction")
		sym.Assert(err != nil, what+": no error for a fraction")
		return
	}
	outcome(new(big.Int).Quo(n, d), o, err, what)
}

// C30_FromRat: ratios with any numerator of up to 70 bits over some denominators to the integer types, *big.Int and text.
func C30_FromRat() {
	n, d := sym.BigInt(70), big.NewInt([]int64{1, 2, 3, 8, 10}[sym.Choice(5)])
	switch sym.Choice(13) {
	case 0:
		fromRat[int](n, d, "int")
	case 1:
		fromRat[int8](n, d, "int8")
	case 2:
		fromRat[int16](n, d, "int16")
	case 3:
		fromRat[int32](n, d, "int32")
	case 4:
		fromRat[int64](n, d, "int64")
	case 5:
		fromRat[uint](n, d, "uint")
	case 6:
		fromRat[uint8](n, d, "uint8")
	case 7:
		fromRat[uint16](n, d, "uint16")
	case 8:
		fromRat[uint32](n, d, "uint32")
	case 9:
		fromRat[uint64](n, d, "uint64")
	case 10:
		fromRat[myInt8](n, d, "named int8")
	case 11:
		var (
			o   *big.Int
			err error
		)
		r := new(big.Rat).SetFrac(n, d)
		if sym.Choice(2) == 0 {
			err = conv.To(r, &o)
		} else {
			err = conv.ToBigOps(r, &o)
		}
		if new(big.Int).Rem(n, d).Sign() != 0 {
			sym.Assert(err != nil, "*big.Rat to *big.Int: no error for a fraction")
			return
		}
		sym.Assert(err == nil && o.Cmp(new(big.Int).Quo(n, d)) == 0, "*big.Rat to *big.Int: wrong value")
	case 12:
		var o *big.Rat
		var err error
		if sym.Choice(2) == 0 {
			err = conv.To(n, &o)
		} else {
			err = conv.ToBigOps(n, &o)
		}
		sym.Assert(err == nil && o.IsInt() && o.Num().Cmp(n) == 0, "*big.Int to *big.Rat: wrong value")
	}
}

func intToRat[T constraint.Integer](x T, typed func(T, **big.Rat), what string) {
	var o *big.Rat
	switch sym.Choice(3) {
	case 0:
		typed(x, &o)
	case 1:
		sym.Assert(conv.To(x, &o) == nil, what+" to *big.Rat: error")
	case 2:
		sym.Assert(conv.ToBigOps(x, &o) == nil, what+" to *big.Rat: error")
	}
	sym.Assert(o.IsInt() && o.Num().Cmp(bigOf(x)) == 0, what+" to *big.Rat: wrong value")
}

// C30_IntToRat: every integer to *big.Rat.
func C30_IntToRat() {
	switch sym.Choice(12) {
	case 0:
		intToRat(sym.Int(), conv.IntToBigRat[int], "int")
	case 1:
		intToRat(sym.Int8(), conv.IntToBigRat[int8], "int8")
	case 2:
		intToRat(sym.Int16(), conv.IntToBigRat[int16], "int16")
	case 3:
		intToRat(sym.Int32(), conv.IntToBigRat[int32], "int32")
	case 4:
		intToRat(sym.Int64(), conv.IntToBigRat[int64], "int64")
	case 5:
		intToRat(sym.Uint(), conv.UintToBigRat[uint], "uint")
	case 6:
		intToRat(sym.Uint8(), conv.UintToBigRat[uint8], "uint8")
	case 7:
		intToRat(sym.Uint16(), conv.UintToBigRat[uint16], "uint16")
	case 8:
		intToRat(sym.Uint32(), conv.UintToBigRat[uint32], "uint32")
	case 9:
		intToRat(sym.Uint64(), conv.UintToBigRat[uint64], "uint64")
	case 10:
		intToRat(myInt(sym.Int()), conv.IntToBigRat[myInt], "named int")
	case 11:
		intToRat(myUint8(sym.Uint8()), conv.UintToBigRat[myUint8], "named uint8")
	}
}

// C30_BigText: arbitrary precision integers of up to 80 bits to text and back.
func C30_BigText() {
	b := sym.BigInt(80)
	var s string
	sym.Assert(conv.To(b, &s) == nil, "*big.Int to text: error")
	v, ok := parse(s, true)
	sym.Assert(ok && v.Cmp(b) == 0, "*big.Int to text: not the decimal text of the value")
	switch sym.Choice(3) {
	case 0:
		var o *big.Int
		sym.Assert(conv.To(s, &o) == nil && o.Cmp(b) == 0, "text to *big.Int: wrong value")
	case 1:
		var o *big.Rat
		sym.Assert(conv.To(s, &o) == nil && o.IsInt() && o.Num().Cmp(b) == 0, "text to *big.Rat: wrong value")
	case 2:
		var o *big.Float
		sym.Assert(conv.To(s, &o) == nil, "text to *big.Float: error")
		i, acc := o.Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(b) == 0, "text to *big.Float: wrong value")
	}
}

// reflectInt: ReflectTo has the outcome of To for two different types.
func reflectInt[S, T constraint.Integer](x S, what string) {
	var (
		o   T
		err = conv.ReflectTo(goreflect.ValueOf(x), goreflect.ValueOf(&o))
	)
	outcome(bigOf(x), o, err, "ReflectTo "+what)
}

func reflectAll[S constraint.Integer](x S, self int, what string) {
	t := sym.Choice(12)
	if t == self {
		return
	}
	switch t {
	case 0:
		reflectInt[S, int](x, what+" to int")
	case 1:
		reflectInt[S, int8](x, what+" to int8")
	case 2:
		reflectInt[S, int16](x, what+" to int16")
	case 3:
		reflectInt[S, int32](x, what+" to int32")
	case 4:
		reflectInt[S, int64](x, what+" to int64")
	case 5:
		reflectInt[S, uint](x, what+" to uint")
	case 6:
		reflectInt[S, uint8](x, what+" to uint8")
	case 7:
		reflectInt[S, uint16](x, what+" to uint16")
	case 8:
		reflectInt[S, uint32](x, what+" to uint32")
	case 9:
		reflectInt[S, uint64](x, what+" to uint64")
	case 10:
		var o *big.Int
		err := conv.ReflectTo(goreflect.ValueOf(x), goreflect.ValueOf(&o))
		sym.Assert(err == nil && o.Cmp(bigOf(x)) == 0, "ReflectTo "+what+" to *big.Int: wrong value")
	case 11:
		if self != 1 {
			reflectInt[S, myInt8](x, what+" to named int8")
		}
	}
}

// C30_Reflect: ReflectTo between different integer types.
func C30_Reflect() {
	switch sym.Choice(10) {
	case 0:
		reflectAll(sym.Int(), 0, "int")
	case 1:
		reflectAll(sym.Int8(), 1, "int8")
	case 2:
		reflectAll(sym.Int16(), 2, "int16")
	case 3:
		reflectAll(sym.Int32(), 3, "int32")
	case 4:
		reflectAll(sym.Int64(), 4, "int64")
	case 5:
		reflectAll(sym.Uint(), 5, "uint")
	case 6:
		reflectAll(sym.Uint8(), 6, "uint8")
	case 7:
		reflectAll(sym.Uint16(), 7, "uint16")
	case 8:
		reflectAll(sym.Uint32(), 8, "uint32")
	case 9:
		reflectAll(sym.Uint64(), 9, "uint64")
	}
}

// C30_Same: a conversion to the same type is a copy, and a copy of a big value shares nothing with the original.
func C30_Same() {
	switch sym.Choice(5) {
	case 0, 1:
		b := sym.BigInt(100)
		// a magnitude that shrinks by one without needing a new word is changed in place by math/big
		sym.Assume(b.Cmp(big.NewInt(2)) >= 0)
		keep := new(big.Int).Set(b)
		var o *big.Int
		switch sym.Choice(3) {
		case 1:
			o = big.NewInt(7)
		case 2:
			o = b
		}
		if sym.Choice(2) == 0 {
			sym.Assert(conv.To(b, &o) == nil, "copy of *big.Int: error")
		} else {
			sym.Assert(conv.ToBigOps(b, &o) == nil, "copy of *big.Int: error")
		}
		sym.Assert(o != b, "copy of *big.Int: same pointer")
		sym.Assert(o.Cmp(keep) == 0 && b.Cmp(keep) == 0, "copy of *big.Int: wrong value")
		o.Sub(o, one)
		sym.Assert(b.Cmp(keep) == 0, "copy of *big.Int: changing the copy changes the original")
		b.Sub(b, one)
		b.Sub(b, one)
		sym.Assert(o.Cmp(new(big.Int).Sub(keep, one)) == 0, "copy of *big.Int: changing the original changes the copy")
	case 2:
		n := sym.BigInt(80)
		sym.Assume(n.Cmp(big.NewInt(4)) >= 0)
		r := new(big.Rat).SetFrac(n, one)
		var o *big.Rat
		if sym.Choice(2) == 0 {
			sym.Assert(conv.To(r, &o) == nil, "copy of *big.Rat: error")
		} else {
			sym.Assert(conv.ToBigOps(r, &o) == nil, "copy of *big.Rat: error")
		}
		sym.Assert(o != r && o.Cmp(r) == 0, "copy of *big.Rat: wrong value")
		r.SetInt64(1)
		sym.Assert(o.IsInt() && o.Num().Cmp(n) == 0, "copy of *big.Rat: changing the original changes the copy")
	case 3:
		n := sym.Int64()
		f := new(big.Float).SetPrec(70).SetInt64(n)
		var o *big.Float
		if sym.Choice(2) == 0 {
			o = big.NewFloat(1) // of lower precision than the source
		}
		if sym.Choice(2) == 0 {
			sym.Assert(conv.To(f, &o) == nil, "copy of *big.Float: error")
		} else {
			sym.Assert(conv.ToBigOps(f, &o) == nil, "copy of *big.Float: error")
		}
		sym.Assert(o != f && o.Cmp(f) == 0, "copy of *big.Float: wrong value")
		f.SetInt64(1)
		i, acc := o.Int(nil)
		sym.Assert(acc == big.Exact && i.Cmp(big.NewInt(n)) == 0, "copy of *big.Float: changing the original changes the copy")
	case 4:
		s := sym.String(3)
		var o string
		sym.Assert(conv.To(s, &o) == nil && o == s, "copy of text: wrong value")
		sym.Assert(conv.AnyTo(any(myStr(s)), &o) == nil && o == s, "copy of named text: wrong value")
	}
}

// C30_Alias: a big value converted to another big type shares nothing with the original.
func C30_Alias() {
	n := sym.BigInt(80)
	sym.Assume(n.Cmp(big.NewInt(4)) >= 0)
	keep := new(big.Int).Set(n)
	switch sym.Choice(2) {
	case 0:
		r := new(big.Rat).SetFrac(n, one)
		var o *big.Int
		if sym.Choice(2) == 0 {
			sym.Assert(conv.BigRatToBigInt(r, &o) == nil, "*big.Rat to *big.Int: error")
		} else {
			sym.Assert(conv.To(r, &o) == nil, "*big.Rat to *big.Int: error")
		}
		o.Sub(o, one)
		sym.Assert(r.IsInt() && r.Num().Cmp(keep) == 0, "*big.Rat to *big.Int: changing the result changes the original")
		r.SetInt64(1)
		sym.Assert(o.Cmp(new(big.Int).Sub(keep, one)) == 0, "*big.Rat to *big.Int: changing the original changes the result")
	case 1:
		var o *big.Rat
		if sym.Choice(2) == 0 {
			conv.BigIntToBigRat(n, &o)
		} else {
			sym.Assert(conv.To(n, &o) == nil, "*big.Int to *big.Rat: error")
		}
		n.Sub(n, one)
		sym.Assert(o.IsInt() && o.Num().Cmp(keep) == 0, "*big.Int to *big.Rat: changing the original changes the result")
		o.Num().Sub(o.Num(), one)
		o.Num().Sub(o.Num(), one)
		sym.Assert(n.Cmp(new(big.Int).Sub(keep, one)) == 0, "*big.Int to *big.Rat: changing the result changes the original")
	}
}

// C30_Nil: unsupported arguments are errors, and nil big values stay nil.
func C30_Nil() {
	switch sym.Choice(12) {
	case 0:
		var o *int
		sym.Assert(conv.To(1, o) != nil, "To nil target: no error")
	case 1:
		var o **big.Int
		sym.Assert(conv.ToBigOps(1, o) != nil, "ToBigOps nil target: no error")
	case 2:
		var o int
		var in any
		switch sym.Choice(6) {
		case 1:
			in = true
		case 2:
			in = struct{}{}
		case 3:
			in = map[string]int{}
		case 4:
			x := 5
			in = &x
		case 5:
			in = []int{1}
		}
		sym.Assert(conv.AnyTo(in, &o) != nil, "AnyTo of an unsupported type: no error")
	case 3:
		var o int
		sym.Assert(conv.ReflectTo(goreflect.Value{}, goreflect.ValueOf(&o)) != nil, "ReflectTo invalid source: no error")
	case 4:
		sym.Assert(conv.ReflectTo(goreflect.ValueOf(1), goreflect.Value{}) != nil, "ReflectTo invalid target: no error")
	case 5:
		sym.Assert(conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(int8(1))) != nil, "ReflectTo target that is no pointer: no error")
	case 6:
		var o *int8
		sym.Assert(conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(o)) != nil, "ReflectTo nil target: no error")
	case 7:
		sym.Assert(conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(big.NewInt(3))) != nil, "ReflectTo *big.Int as target: no error")
	case 8:
		var o bool
		sym.Assert(conv.ReflectTo(goreflect.ValueOf(1), goreflect.ValueOf(&o)) != nil, "ReflectTo bool: no error")
	case 9:
		var i *big.Int
		o := big.NewInt(3)
		sym.Assert(conv.To(i, &o) == nil && o == nil, "To of a nil *big.Int: not nil")
		o = big.NewInt(3)
		sym.Assert(conv.ToBigOps(i, &o) == nil && o == nil, "ToBigOps of a nil *big.Int: not nil")
	case 10:
		var i *big.Rat
		o := big.NewRat(3, 2)
		sym.Assert(conv.To(i, &o) == nil && o == nil, "To of a nil *big.Rat: not nil")
	case 11:
		x := sym.Int16()
		var o *big.Float
		sym.Assert(conv.ToBigOps(myInt16(x), &o) == nil, "ToBigOps of a named integer: error")
		i, _ := o.Int(nil)
		sym.Assert(i.Cmp(bigOf(x)) == 0, "ToBigOps of a named integer: wrong value")
	}
}
