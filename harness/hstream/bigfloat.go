package hstream

import (
	"math/big"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verifharness/sym"
)

// wide is a float of p bits that holds an integer of at most n bits times 2^-k.
func wide(p uint, n, k int) *big.Float {
	f := new(big.Float).SetPrec(p).SetInt(sym.BigInt(n))
	if k > 0 {
		f.Quo(f, new(big.Float).SetPrec(p).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k))))
	}
	return f
}

func exactly(f *big.Float) *big.Float { return new(big.Float).SetPrec(900).Set(f) }

// bigFloats: sums that fit the widest precision of the elements are exact, whatever the precision of the others.
func bigFloats(n, perElem int, end error) {
	// the precision of the first and of the others
	precs := [][2]uint{{200, 200}, {53, 200}, {200, 53}}[sym.Choice(3)]
	vals := make([]*big.Float, n)
	orig := make([]*big.Float, n)
	total := new(big.Float).SetPrec(900)
	for i := range vals {
		p, k := precs[0], 0
		if i > 0 {
			p = precs[1]
		}
		if i == n-1 && p == 200 {
			// an element that is not an integer
			k = 100
		}
		if i < perElem {
			vals[i] = wide(p, 5, k)
		} else {
			vals[i] = new(big.Float).SetPrec(p).SetInt64(int64(i%3 + 1))
		}
		orig[i] = exactly(vals[i])
		total.Add(total, vals[i])
	}
	widest := uint(53)
	for _, v := range vals {
		if v.Prec() > widest {
			widest = v.Prec()
		}
	}
	fail := n == 0 || end != iter.EOI
	switch sym.Choice(3) {
	case 0:
		it := stream.AbsBigOps(of(vals, end))
		for i := range vals {
			v, err := it.Next()
			sym.Assert(err == nil && v.Sign() >= 0 && v.Cmp(new(big.Float).SetPrec(900).Abs(orig[i])) == 0, "AbsBigOps: wrong value")
		}
		v, err := it.Next()
		sym.Assert(err == end && v == nil, "AbsBigOps: end")
	case 1:
		it := stream.SumBigOps(of(vals, end))
		v, err := it.Next()
		if fail {
			sym.Assert(err == end && v == nil, "SumBigOps: end")
			break
		}
		if widest > 53 || n == 1 {
			sym.Reach("exact sum")
			sym.Assert(err == nil && exactly(v).Cmp(total) == 0, "SumBigOps: wrong sum")
		}
		v, err = it.Next()
		sym.Assert(err == end && v == nil, "SumBigOps: end")
	case 2:
		it := stream.AvgBigOps(of(vals, end))
		v, err := it.Next()
		if fail {
			sym.Assert(err == end && v == nil, "AvgBigOps: end")
			break
		}
		if widest > 53 || n == 1 {
			back := exactly(v)
			back.Mul(back, new(big.Float).SetPrec(900).SetInt64(int64(n)))
			if n&(n-1) == 0 {
				sym.Assert(err == nil && back.Cmp(total) == 0, "AvgBigOps: wrong average")
			} else {
				// within a unit of the 50th bit
				d := new(big.Float).SetPrec(900).Sub(back, total)
				d.Abs(d)
				d.Mul(d, new(big.Float).SetPrec(900).SetInt(new(big.Int).Lsh(big.NewInt(1), 50)))
				sym.Assert(err == nil && d.Cmp(new(big.Float).SetPrec(900).Abs(total)) <= 0, "AvgBigOps: wrong average")
			}
		}
		v, err = it.Next()
		sym.Assert(err == end && v == nil, "AvgBigOps: end")
	}
	for i := range vals {
		sym.Assert(exactly(vals[i]).Cmp(orig[i]) == 0, "an element of the source was modified")
	}
}
