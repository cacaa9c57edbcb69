package hstream

import (
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verifharness/sym"
)

type (
	myInt16 int16
	myUint8 uint8
	myText  string
	pair    struct {
		N int8
		S string
	}
)

func list[T any](n int, f func() T) []T {
	r := make([]T, n)
	for i := range r {
		r[i] = f()
	}
	return r
}

func signedRange(bits uint) (lo, hi *big.Int) {
	hi = new(big.Int).Lsh(big.NewInt(1), bits-1)
	lo = new(big.Int).Neg(hi)
	return lo, hi.Sub(hi, big.NewInt(1))
}

func unsignedRange(bits uint) (lo, hi *big.Int) {
	hi = new(big.Int).Lsh(big.NewInt(1), bits)
	return new(big.Int), hi.Sub(hi, big.NewInt(1))
}

// averages: the element types average leaves out.
func averages(end error) {
	n := size(2, 3)
	switch sym.Choice(8) {
	case 0:
		lo, hi := signedRange(64)
		avg(stream.AvgInt[int], list(n, sym.Int), end, lo, hi)
	case 1:
		lo, hi := signedRange(16)
		avg(stream.AvgInt[int16], list(n, sym.Int16), end, lo, hi)
	case 2:
		lo, hi := signedRange(32)
		avg(stream.AvgInt[int32], list(n, sym.Int32), end, lo, hi)
	case 3:
		lo, hi := signedRange(16)
		avg(stream.AvgInt[myInt16], list(n, func() myInt16 { return myInt16(sym.Int16()) }), end, lo, hi)
	case 4:
		lo, hi := unsignedRange(64)
		avg(stream.AvgUint[uint], list(n, sym.Uint), end, lo, hi)
	case 5:
		lo, hi := unsignedRange(8)
		avg(stream.AvgUint[uint8], list(n, sym.Uint8), end, lo, hi)
	case 6:
		lo, hi := unsignedRange(32)
		avg(stream.AvgUint[uint32], list(n, sym.Uint32), end, lo, hi)
	case 7:
		lo, hi := unsignedRange(8)
		avg(stream.AvgUint[myUint8], list(n, func() myUint8 { return myUint8(sym.Uint8()) }), end, lo, hi)
	}
}

// sumOf: sums wrap like Go's.
func sumOf[T constraint.IntegerAndFloat](vals []T, end error) {
	if len(vals) == 0 {
		gives(stream.Sum(of(vals, end)), nil, end, "Sum")
		return
	}
	t := vals[0]
	for _, v := range vals[1:] {
		t += v
	}
	if t != t {
		// infinities of both signs
		if end == iter.EOI {
			v, err := stream.Sum(of(vals, end)).Next()
			sym.Assert(err == nil && v != v, "Sum: not the sum")
		}
		return
	}
	whole(stream.Sum(of(vals, end)), t, end, "Sum")
}

func extremes[T constraint.Ordered](vals []T, end error) {
	if len(vals) == 0 {
		gives(stream.Max(of(vals, end)), nil, end, "Max")
		gives(stream.Min(of(vals, end)), nil, end, "Min")
		return
	}
	lo, hi := vals[0], vals[0]
	for _, v := range vals[1:] {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	whole(stream.Max(of(vals, end)), hi, end, "Max")
	whole(stream.Min(of(vals, end)), lo, end, "Min")
}

// sorting: ordered, ascending, and nothing else.
func sorting[T constraint.Ordered](vals []T, end error) {
	keep := append([]T{}, vals...)
	it := stream.SortOrdered(of(vals, end))
	if end != iter.EOI {
		gives(it, nil, end, "SortOrdered")
		return
	}
	want := append([]T{}, keep...)
	for i := range want {
		for j := i; j > 0 && want[j] < want[j-1]; j-- {
			want[j], want[j-1] = want[j-1], want[j]
		}
	}
	gives(it, want, end, "SortOrdered")
}

func distincts[T comparable](vals []T, end error) {
	nth := func(want int) (r []T) {
		for i, v := range vals {
			c := 0
			for _, o := range vals[:i] {
				if o == v {
					c++
				}
			}
			if c == want {
				r = append(r, v)
			}
		}
		return
	}
	if sym.Choice(2) == 0 {
		gives(stream.Distinct(of(vals, end)), nth(0), end, "Distinct")
	} else {
		gives(stream.Duplicate(of(vals, end)), nth(1), end, "Duplicate")
	}
}

func numbers[T constraint.IntegerAndFloat](vals []T, end error) {
	switch sym.Choice(4) {
	case 0:
		sumOf(vals, end)
	case 1:
		extremes(vals, end)
	case 2:
		sorting(vals, end)
	case 3:
		distincts(vals, end)
	}
}

func float() float64 {
	x := sym.Float64()
	sym.Assume(x == x)
	return x
}

// elementTypes: sums, extremes, sorting and distinct elements of types other than int.
func elementTypes(end error) {
	n := size(2, 3)
	switch sym.Choice(9) {
	case 0:
		numbers(list(n, sym.Int8), end)
	case 1:
		numbers(list(n, sym.Uint8), end)
	case 2:
		numbers(list(n, sym.Uint64), end)
	case 3:
		numbers(list(n, func() myInt16 { return myInt16(sym.Int16()) }), end)
	case 4:
		numbers(list(n, sym.Int64), end)
	case 5:
		texts(list(n, func() string { return sym.String(sym.Choice(2)) }), end)
	case 6:
		texts(list(n, func() myText { return myText(sym.String(sym.Choice(2))) }), end)
	case 7:
		distincts(list(n, func() pair { return pair{sym.Int8(), sym.String(sym.Choice(2))} }), end)
	case 8:
		numbers(list(n, sym.Int32), end)
	}
}

func texts[T ~string](vals []T, end error) {
	switch sym.Choice(3) {
	case 0:
		extremes(vals, end)
	case 1:
		sorting(vals, end)
	case 2:
		distincts(vals, end)
	}
}

// floatTypes: the same of floats other than NaN, infinities and both zeros included.
func floatTypes(end error) {
	n := sym.Choice(3)
	if sym.Choice(2) == 0 {
		numbers(list(n, float), end)
	} else {
		numbers(list(n, func() float32 {
			x := sym.Float32()
			sym.Assume(x == x)
			return x
		}), end)
	}
}

// complex64s sorts values on the real or the imaginary axis by magnitude.
func complex64s(end error) {
	n := 2
	vals := make([]complex64, n)
	mags := make([]float32, n)
	for i := range vals {
		x := sym.Float32()
		sym.Assume(x == x)
		vals[i] = complex(x, 0)
		if sym.Choice(2) == 1 {
			vals[i] = complex(0, x)
		}
		if x < 0 {
			x = -x
		}
		mags[i] = x
	}
	want := append([]complex64{}, vals...)
	it := stream.SortComplex(of(vals, end))
	if end != iter.EOI {
		gives(it, nil, end, "SortComplex")
		return
	}
	a, err1 := it.Next()
	b, err2 := it.Next()
	_, err3 := it.Next()
	sym.Assert(err1 == nil && err2 == nil && err3 == end, "SortComplex: number of elements")
	inOrder := a == want[0] && b == want[1]
	swapped := a == want[1] && b == want[0]
	sym.Assert(inOrder && mags[0] <= mags[1] || swapped && mags[1] <= mags[0], "SortComplex: order")
}

// cmpFloats: minimum, maximum and order of big floats.
func cmpFloats(end error) {
	n := 2
	vals := make([]*big.Float, n)
	for i := range vals {
		vals[i] = wide(200, 80, 100*i)
	}
	lo, hi := vals[0], vals[1]
	if lo.Cmp(hi) > 0 {
		lo, hi = hi, lo
	}
	same := lo.Cmp(hi) == 0
	first, err1 := stream.MinCmp(of(vals, end)).Next()
	last, err2 := stream.MaxCmp(of(vals, end)).Next()
	it := stream.SortCmp(of(append([]*big.Float{}, vals...), end))
	a, err3 := it.Next()
	if end != iter.EOI {
		sym.Assert(first == nil && last == nil && a == nil, "a value although the source failed")
		sym.Assert(err1 == end && err2 == end && err3 == end, "another error")
		return
	}
	b, err4 := it.Next()
	_, err5 := it.Next()
	sym.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil && err5 == end, "MinCmp, MaxCmp, SortCmp: end")
	sym.Assert(first == lo || same && first == hi, "MinCmp: not the smaller")
	sym.Assert(last == hi || same && last == lo, "MaxCmp: not the larger")
	sym.Assert(a == lo && b == hi || same && a == hi && b == lo, "SortCmp: order")
}
