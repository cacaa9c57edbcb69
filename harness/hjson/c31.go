package hjson

import (
	"math"
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/encoding/json"
	"verifharness/sym"
)

type (
	named  string
	namedI int16
	namedB bool
)

// decimal reads an integer without leading zeros.
func decimal(s string) (*big.Int, bool) {
	i, neg := 0, false
	if len(s) > 0 && s[0] == '-' {
		i, neg = 1, true
	}
	if i == len(s) || (s[i] == '0' && (len(s) > i+1 || neg)) {
		return nil, false
	}
	r := new(big.Int)
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		r.Add(r.Mul(r, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		r.Neg(r)
	}
	return r, true
}

// panics: whether f panics.
func panics(f func()) (is bool) {
	defer func() { is = recover() != nil }()
	f()
	return
}

// accessors: only those of the value's type work.
func accessors(v json.Value, what string) {
	t := v.Type()
	sym.Assert(panics(func() { v.AsMap() }) == (t != json.Object), what+": AsMap")
	sym.Assert(panics(func() { v.ToMap() }) == (t != json.Object), what+": ToMap")
	sym.Assert(panics(func() { v.AsSlice() }) == (t != json.Array), what+": AsSlice")
	sym.Assert(panics(func() { v.ToSlice() }) == (t != json.Array), what+": ToSlice")
	sym.Assert(panics(func() { v.AsNumber() }) == (t != json.Number), what+": AsNumber")
	sym.Assert(panics(func() { v.AsBool() }) == (t != json.Boolean), what+": AsBool")
	sym.Assert(panics(func() { _ = v.AsString() }) == (t != json.String && t != json.Number && t != json.Boolean), what+": AsString")
	sym.Assert(v.IsNull() == (t == json.Null), what+": IsNull")
	sym.Assert(v.IsDocument() == (t == json.Object || t == json.Array), what+": IsDocument")
}

func isNumber(v json.Value, err error, x *big.Int, what string) {
	sym.Assert(err == nil, what+": an integer is rejected")
	sym.Assert(v.Type() == json.Number, what+": not a number")
	got, is := decimal(v.AsString())
	sym.Assert(is && got.Cmp(x) == 0, what+": another number")
	sym.Assert(string(v.AsNumber()) == v.AsString(), what+": AsNumber differs")
	sym.Observe(v.AsString())
}

func integer[T constraint.Integer](x T, b *big.Int, what string) {
	var (
		v   json.Value
		err error
	)
	switch sym.Choice(3) {
	case 0:
		v, err = json.NumberToValue(x)
	case 1:
		v, err = json.ToValue([]any{x})
		sym.Assert(err == nil, what+": an integer is rejected")
		v = v.AsSlice()[0]
	case 2:
		v, err = json.MapToValue(map[string]any{"x": x})
		sym.Assert(err == nil, what+": an integer is rejected")
		v = v.AsMap()["x"]
	}
	isNumber(v, err, b, what)
}

// C31_Int: integers of every type.
func C31_Int() {
	switch sym.Choice(12) {
	case 0:
		x := sym.Int()
		integer(x, big.NewInt(int64(x)), "int")
	case 1:
		x := sym.Int8()
		integer(x, big.NewInt(int64(x)), "int8")
	case 2:
		x := sym.Int16()
		integer(x, big.NewInt(int64(x)), "int16")
	case 3:
		x := sym.Int32()
		integer(x, big.NewInt(int64(x)), "int32")
	case 4:
		x := sym.Int64()
		integer(x, big.NewInt(x), "int64")
	case 5:
		x := sym.Uint()
		integer(x, new(big.Int).SetUint64(uint64(x)), "uint")
	case 6:
		x := sym.Uint8()
		integer(x, new(big.Int).SetUint64(uint64(x)), "uint8")
	case 7:
		x := sym.Uint16()
		integer(x, new(big.Int).SetUint64(uint64(x)), "uint16")
	case 8:
		x := sym.Uint32()
		integer(x, new(big.Int).SetUint64(uint64(x)), "uint32")
	case 9:
		x := sym.Uint64()
		integer(x, new(big.Int).SetUint64(x), "uint64")
	case 10:
		x := sym.Int16()
		integer(namedI(x), big.NewInt(int64(x)), "named integer")
	case 11:
		x := sym.BigInt(70)
		v, err := json.NumberToValue(x)
		isNumber(v, err, x, "*big.Int")
		v, err = json.NumberToValue(new(big.Rat).SetInt(x))
		isNumber(v, err, x, "*big.Rat")
	}
}

// C31_Number: any text as a number.
func C31_Number() {
	n := sym.Choice(pickAny(7, 9))
	s := sym.String(n)
	var (
		v   json.Value
		err error
	)
	switch sym.Choice(3) {
	case 0:
		v, err = json.NumberToValue(json.NumberString(s))
	case 1:
		v, err = json.ToValue(json.NumberString(s))
	case 2:
		var l json.Value
		if l, err = json.SliceToValue([]any{json.NumberString(s)}); err == nil {
			v = l.AsSlice()[0]
		}
	}
	r := ref{s: []byte(s + " ")}
	st := bad
	if n > 0 && (s[0] == '-' || (s[0] >= '0' && s[0] <= '9')) {
		_, st = r.number()
	}
	is := st == ok && r.i == n
	sym.Observe(err != nil)
	sym.Assert((err == nil) == is, "NumberString: accepted exactly when it is a JSON number")
	if !is {
		sym.Reach("rejected")
		sym.Assert(v.Type() == json.Invalid, "NumberString: a value together with an error")
		return
	}
	sym.Reach("accepted")
	sym.Assert(v.Type() == json.Number && v.AsString() == s && v.ToAny() == any(json.NumberString(s)), "NumberString: another number")
}

// C31_Special: infinities and NaN are not numbers.
func C31_Special() {
	f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[sym.Choice(3)]
	var err error
	switch sym.Choice(5) {
	case 0:
		_, err = json.NumberToValue(f)
	case 1:
		_, err = json.ToValue(float32(f))
	case 2:
		_, err = json.ToValue([]any{map[string]any{"f": f}})
	case 3:
		_, err = json.NumberToValue(new(big.Float).SetInf(true))
	case 4:
		_, err = json.NumberToValue(new(big.Float).SetInf(false))
	}
	sym.Assert(err != nil, "an infinity or NaN is accepted")
}

// C31_Scalar: strings, booleans and null.
func C31_Scalar() {
	s := sym.String(sym.Choice(3))
	switch sym.Choice(5) {
	case 0:
		for i, v := range []json.Value{json.StringToValue(s), json.MustToValue(s), json.MustSliceToValue([]any{s}).AsSlice()[0], json.MustToValue(map[string]any{"": s}).AsMap()[""], json.MustSliceToValue([]any{named(s)}).AsSlice()[0]} {
			sym.Assert(v.Type() == json.String && v.AsString() == s && v.ToAny() == any(s), "string: another value")
			if i == 0 {
				accessors(v, "string")
			}
		}
	case 1:
		b := sym.Bool()
		for _, v := range []json.Value{json.BoolToValue(b), json.MustToValue(b), json.MustSliceToValue([]any{b}).AsSlice()[0]} {
			sym.Assert(v.Type() == json.Boolean && v.AsBool() == b && v.ToAny() == any(b), "bool: another value")
			sym.Assert((v.AsString() == "true") == b && (v.AsString() == "false") == !b, "bool: another text")
			accessors(v, "bool")
		}
	case 2:
		for _, v := range []json.Value{json.NullValue, json.MustSliceToValue([]any{nil}).AsSlice()[0], json.MustToValue((*big.Int)(nil)), json.MustToValue((*big.Rat)(nil))} {
			sym.Assert(v.Type() == json.Null && v.ToAny() == nil, "null: another value")
			accessors(v, "null")
		}
	case 3:
		accessors(json.MustToValue(7), "number")
		accessors(json.MustToValue(map[string]any{s: nil}), "object")
		accessors(json.MustToValue([]any{s}), "array")
	case 4:
		accessors(json.Value{}, "invalid")
	}
}

// C31_Unsupported: values of other kinds are rejected at any depth.
func C31_Unsupported() {
	s, i := sym.String(1), sym.Int()
	x := []any{make(chan int), func() {}, struct{ A int }{i}, complex(1, 2), []string{s}, map[string]string{s: s}, map[int]any{i: s}, []byte(s), &s, &i, namedB(true), uintptr(3), [1]int{i}}[sym.Choice(13)]
	var (
		v   json.Value
		err error
	)
	k := sym.String(1)
	sym.Assume(k != "a")
	switch sym.Choice(5) {
	case 0:
		v, err = json.ToValue([]any{x})
	case 1:
		v, err = json.ToValue(map[string]any{k: x, "a": s})
	case 2:
		v, err = json.SliceToValue([]any{s, true, []any{x}, nil})
	case 3:
		v, err = json.MapToValue(map[string]any{k: map[string]any{k: x}})
	case 4:
		v, err = json.SliceToValue([]any{map[string]any{k: []any{x}}})
	}
	sym.Assert(err != nil, "a value of an unsupported kind is accepted")
	sym.Assert(v.Type() == json.Invalid, "a value together with an error")
}

// goTree is Go data of the supported kinds.
func goTree(depth int) any {
	k := sym.Choice(4)
	if depth > 0 {
		k = sym.Choice(6)
	}
	switch k {
	case 0:
		return sym.String(1)
	case 1:
		return json.NumberString(sym.StringOf(1, "0123456789"))
	case 2:
		return sym.Bool()
	case 3:
		return nil
	case 4:
		s := []any{}
		for n := sym.Choice(3); n > 0; n-- {
			s = append(s, goTree(depth-1))
		}
		return s
	}
	m := map[string]any{}
	for n := sym.Choice(3); n > 0; n-- {
		m[sym.StringOf(1, "abcdefgh")] = goTree(depth - 1)
	}
	return m
}

// sameAny compares Go data.
func sameAny(a, b any) bool {
	switch x := a.(type) {
	case []any:
		y, is := b.([]any)
		if !is || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameAny(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, is := b.(map[string]any)
		if !is || len(x) != len(y) {
			return false
		}
		for k := range x {
			w, is := y[k]
			if !is || !sameAny(x[k], w) {
				return false
			}
		}
		return true
	}
	return a == b
}

// C31_Back: converting to a value and back.
func C31_Back() {
	depth, width := 1, pickAny(2, 3)
	if sym.Choice(2) == 0 {
		s := []any{}
		for n := sym.Choice(width); n > 0; n-- {
			s = append(s, goTree(depth))
		}
		v, err := json.SliceToValue(s)
		sym.Assert(err == nil && v.Type() == json.Array && len(v.AsSlice()) == len(s), "array: not accepted")
		sym.Assert(sameAny(v.ToSlice(), s) && sameAny(v.ToAny(), s), "array: not the same when converted back")
		w, err := json.ToValue(s)
		sym.Assert(err == nil, "array: not accepted")
		equal(v, w, "array")
		w, err = json.ToValue(v.AsSlice())
		sym.Assert(err == nil, "array: values not accepted")
		equal(v, w, "array")
		return
	}
	m := map[string]any{}
	for n := sym.Choice(width); n > 0; n-- {
		m[sym.StringOf(1, "abcdefgh")] = goTree(depth)
	}
	v, err := json.MapToValue(m)
	sym.Assert(err == nil && v.Type() == json.Object && len(v.AsMap()) == len(m), "object: not accepted")
	sym.Assert(sameAny(v.ToMap(), m) && sameAny(v.ToAny(), m), "object: not the same when converted back")
	w, err := json.ToValue(m)
	sym.Assert(err == nil, "object: not accepted")
	equal(v, w, "object")
	w, err = json.ToValue(v.AsMap())
	sym.Assert(err == nil, "object: values not accepted")
	equal(v, w, "object")
}
