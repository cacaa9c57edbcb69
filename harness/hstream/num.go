package hstream

import (
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verifharness/sym"
)

func absOf[T constraint.SignedInteger](vals []T, end error) {
	var want []T
	e := end
	for _, v := range vals {
		if v < 0 {
			if -v == v {
				e = nil
				break
			}
			v = -v
		}
		want = append(want, v)
	}
	it := stream.Abs(of(vals, end))
	if e != nil {
		sym.Reach("all representable")
		gives(it, want, end, "Abs")
		return
	}
	sym.Reach("minimum value")
	for _, w := range want {
		v, err := it.Next()
		sym.Assert(err == nil && v == w, "Abs: another element")
	}
	v, err := it.Next()
	sym.Assert(err != nil && err != iter.EOI && v == 0, "Abs: no error for the minimum value")
	v, err2 := it.Next()
	sym.Assert(err2 == err && v == 0, "Abs: error not repeated")
}

func absolute(end error) {
	n := size(2, 3)
	switch sym.Choice(5) {
	case 0:
		absOf(ints(n), end)
	case 1:
		v := make([]int8, n)
		for i := range v {
			v[i] = sym.Int8()
		}
		absOf(v, end)
	case 2:
		v := make([]int16, n)
		for i := range v {
			v[i] = sym.Int16()
		}
		absOf(v, end)
	case 3:
		v := make([]int32, n)
		for i := range v {
			v[i] = sym.Int32()
		}
		absOf(v, end)
	case 4:
		v := make([]int64, n)
		for i := range v {
			v[i] = sym.Int64()
		}
		absOf(v, end)
	}
}

// rounded is a/n rounded to nearest, halves away from zero, for a positive n.
func rounded(a *big.Int, n int64) *big.Int {
	num := new(big.Int).Abs(a)
	num.Mul(num, big.NewInt(2)).Add(num, big.NewInt(n))
	num.Quo(num, big.NewInt(2*n))
	if a.Sign() < 0 {
		num.Neg(num)
	}
	return num
}

func exact[T constraint.Integer](v T) *big.Int {
	if v < 0 {
		return big.NewInt(int64(v))
	}
	return new(big.Int).SetUint64(uint64(v))
}

// avg: either every partial sum fits and the average is exact, or the error of the sum is returned.
func avg[T constraint.Integer](f func(iter.Iter[T]) iter.Iter[T], vals []T, end error, lo, hi *big.Int) {
	sum, over := new(big.Int), false
	for _, v := range vals {
		sum.Add(sum, exact(v))
		if sum.Cmp(lo) < 0 || sum.Cmp(hi) > 0 {
			over = true
			break
		}
	}
	it := f(of(vals, end))
	if over {
		sym.Reach("sum overflows")
		v, err := it.Next()
		sym.Assert(err != nil && err != iter.EOI && v == 0, "Avg: no error although the sum overflows")
		_, err2 := it.Next()
		sym.Assert(err2 == err, "Avg: error not repeated")
		return
	}
	if len(vals) == 0 || end != iter.EOI {
		gives(it, nil, end, "Avg")
		return
	}
	v, err := it.Next()
	sym.Assert(err == nil, "Avg: error")
	sym.Assert(exact(v).Cmp(rounded(sum, int64(len(vals)))) == 0, "Avg: not the rounded average")
	v, err = it.Next()
	sym.Assert(err == iter.EOI && v == 0, "Avg: end")
}

func average(end error) {
	n := size(3, 3)
	switch sym.Choice(4) {
	case 0:
		v := make([]int8, n)
		for i := range v {
			v[i] = sym.Int8()
		}
		avg(stream.AvgInt[int8], v, end, big.NewInt(-128), big.NewInt(127))
	case 1:
		v := make([]int64, n)
		for i := range v {
			v[i] = sym.Int64()
		}
		avg(stream.AvgInt[int64], v, end, big.NewInt(-1<<63), big.NewInt(1<<63-1))
	case 2:
		v := make([]uint16, n)
		for i := range v {
			v[i] = sym.Uint16()
		}
		avg(stream.AvgUint[uint16], v, end, big.NewInt(0), big.NewInt(65535))
	case 3:
		v := make([]uint64, n)
		for i := range v {
			v[i] = sym.Uint64()
		}
		avg(stream.AvgUint[uint64], v, end, big.NewInt(0), new(big.Int).SetUint64(1<<64-1))
	}
}

func sum(end error) {
	vals := ints(size(4, 6))
	if len(vals) == 0 {
		gives(stream.Sum(of(vals, end)), nil, end, "Sum")
		return
	}
	t := 0
	for _, v := range vals {
		t += v
	}
	whole(stream.Sum(of(vals, end)), t, end, "Sum")
}

// bigOps: the versions for arbitrary precision integers and rationals, which leave their arguments alone.
func bigOps(end error) {
	n := size(3, 3)
	if sym.Choice(2) == 0 {
		vals := make([]*big.Int, n)
		orig := make([]*big.Int, n)
		total := new(big.Int)
		for i := range vals {
			vals[i] = sym.BigInt(80)
			orig[i] = new(big.Int).Set(vals[i])
			total.Add(total, vals[i])
		}
		switch sym.Choice(3) {
		case 0:
			it := stream.AbsBigOps(of(vals, end))
			for i := range vals {
				v, err := it.Next()
				sym.Assert(err == nil && v.CmpAbs(orig[i]) == 0 && v.Sign() >= 0, "AbsBigOps: wrong value")
			}
			v, err := it.Next()
			sym.Assert(err == end && v == nil, "AbsBigOps: end")
		case 1:
			it := stream.SumBigOps(of(vals, end))
			v, err := it.Next()
			if n == 0 || end != iter.EOI {
				sym.Assert(err == end && v == nil, "SumBigOps: end")
				break
			}
			sym.Assert(err == nil && v.Cmp(total) == 0, "SumBigOps: wrong sum")
		case 2:
			it := stream.AvgBigOps(of(vals, end))
			v, err := it.Next()
			if n == 0 || end != iter.EOI {
				sym.Assert(err == end && v == nil, "AvgBigOps: end")
				break
			}
			sym.Assert(err == nil && v.Cmp(rounded(total, int64(n))) == 0, "AvgBigOps: not the rounded average")
		}
		for i := range vals {
			sym.Assert(vals[i].Cmp(orig[i]) == 0, "an element of the source was modified")
		}
		return
	}
	vals := make([]*big.Rat, n)
	orig := make([]*big.Rat, n)
	total := new(big.Rat)
	for i := range vals {
		vals[i] = new(big.Rat).SetFrac(sym.BigInt(40), big.NewInt(int64(2+i)))
		orig[i] = new(big.Rat).Set(vals[i])
		total.Add(total, vals[i])
	}
	switch sym.Choice(3) {
	case 0:
		it := stream.AbsBigOps(of(vals, end))
		for i := range vals {
			v, err := it.Next()
			sym.Assert(err == nil && v.Cmp(new(big.Rat).Abs(orig[i])) == 0, "AbsBigOps: wrong value")
		}
		v, err := it.Next()
		sym.Assert(err == end && v == nil, "AbsBigOps: end")
	case 1:
		v, err := stream.SumBigOps(of(vals, end)).Next()
		if n == 0 || end != iter.EOI {
			sym.Assert(err == end && v == nil, "SumBigOps: end")
			break
		}
		sym.Assert(err == nil && v.Cmp(total) == 0, "SumBigOps: wrong sum")
	case 2:
		v, err := stream.AvgBigOps(of(vals, end)).Next()
		if n == 0 || end != iter.EOI {
			sym.Assert(err == end && v == nil, "AvgBigOps: end")
			break
		}
		sym.Assert(err == nil && v.Cmp(total.Quo(total, new(big.Rat).SetInt64(int64(n)))) == 0, "AvgBigOps: wrong average")
	}
	for i := range vals {
		sym.Assert(vals[i].Cmp(orig[i]) == 0, "an element of the source was modified")
	}
}
