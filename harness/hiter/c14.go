package hiter

import (
	"errors"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	"verifharness/sym"
)

var errSrc = errors.New("source failed")

func ints(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = sym.Int()
	}
	return r
}

// protocol drives any interleaving of Next and Unread and compares with a list: want are the elements, then end forever.
func protocol(it iter.Iter[int], want []int, end error, ops int) {
	var stack []int
	pos := 0
	for i := 0; i < ops; i++ {
		if sym.Choice(3) == 0 {
			v := sym.Int()
			it.Unread(v)
			stack = append(stack, v)
			continue
		}
		v, err := it.Next()
		switch {
		case len(stack) > 0:
			sym.Reach("unread value")
			sym.Assert(err == nil, "Next: error while an unread value waits")
			sym.Assert(v == stack[len(stack)-1], "Next: unread values not last in first out")
			stack = stack[:len(stack)-1]
		case pos < len(want):
			sym.Reach("source value")
			sym.Assert(err == nil, "Next: error before the source is exhausted")
			sym.Assert(v == want[pos], "Next: not the source order")
			pos++
		default:
			sym.Reach("end")
			sym.Assert(err == end, "Next: another error than that of the source")
			sym.Assert(v == 0, "Next: a value together with an error")
		}
	}
	// Whatever remains comes out, then the end, twice.
	for len(stack) > 0 {
		v, err := it.Next()
		sym.Assert(err == nil && v == stack[len(stack)-1], "drain: unread value lost")
		stack = stack[:len(stack)-1]
	}
	for ; pos < len(want); pos++ {
		v, err := it.Next()
		sym.Assert(err == nil && v == want[pos], "drain: source value lost")
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		sym.Assert(err == end && v == 0, "drain: end not reported forever")
	}
}

func nops() int {
	if sym.Thorough() {
		return 7
	}
	return 5
}

// C14_Slices: the constructors over values, any interleaving.
func C14_Slices() {
	n := sym.Choice(4)
	vals := ints(n)
	orig := append([]int{}, vals...)
	var it iter.Iter[int]
	switch sym.Choice(5) {
	case 0:
		it = iter.Of(vals...)
	case 1:
		it = iter.OfSlice(vals)
	case 2:
		it = iter.OfIter(iter.SliceIterGen(vals))
	case 3:
		sym.Assume(n == 0)
		it = iter.OfEmpty[int]()
	case 4:
		sym.Assume(n == 1)
		it = iter.OfOne(vals[0])
	}
	protocol(it, orig, iter.EOI, nops())
	for i := range vals {
		sym.Assert(vals[i] == orig[i], "the source slice was modified")
	}
}

// failing gives the values, then end; fails the run when called again after its end.
func failing(vals []int, end error) func() (int, error) {
	i, done := 0, false
	return func() (int, error) {
		sym.Assert(!done, "the source is called again after its end")
		if i < len(vals) {
			i++
			return vals[i-1], nil
		}
		done = true
		// The value of an ended source is not significant.
		return 7, end
	}
}

// C14_Errors: a source that fails after any number of elements.
func C14_Errors() {
	vals := ints(sym.Choice(4))
	end := iter.EOI
	if sym.Choice(2) == 1 {
		end = errSrc
	}
	it := iter.OfIter(failing(vals, end))
	if sym.Choice(2) == 1 {
		// Once or twice, by another error or by the end
		for i := sym.Choice(2); i < 2; i++ {
			other := errors.New("other")
			if sym.Choice(2) == 1 {
				other = iter.EOI
			}
			it, end = iter.SetError(it, other), other
		}
	}
	protocol(it, vals, end, nops())
}

// C14_Concat: any split of the elements over the iterators, empty and nil ones included, any of them failing.
func C14_Concat() {
	k := sym.Choice(4)
	var (
		its  []iter.Iter[int]
		want []int
		end  = iter.EOI
	)
	fail := sym.Choice(k + 1) // k: none fails
	for i := 0; i < k; i++ {
		switch n := sym.Choice(4); {
		case n == 3:
			sym.Assume(fail != i)
			its = append(its, nil)
		default:
			vals := ints(n)
			e := iter.EOI
			if fail == i {
				e = errSrc
			}
			its = append(its, iter.OfIter(failing(vals, e)))
			if end == iter.EOI {
				want = append(want, vals...)
				end = e
			}
		}
	}
	it := iter.Concat(its...)
	protocol(it, want, end, 2)
}

// C14_GenFunctions: the generated functions themselves keep returning the end.
func C14_GenFunctions() {
	n := sym.Choice(4)
	vals := ints(n)
	var f func() (int, error)
	end := iter.EOI
	switch sym.Choice(5) {
	case 0:
		f = iter.SliceIterGen(vals)
	case 1:
		sym.Assume(n == 0)
		f = iter.NoValueIterGen[int]()
	case 2:
		sym.Assume(n == 1)
		f = iter.SingleValueIterGen(vals[0])
	case 3:
		c := 0
		if n > 0 {
			c = sym.Choice(n + 1)
		}
		f = iter.ConcatIterGen([]iter.Iter[int]{iter.Of(vals[:c]...), iter.Of(vals[c:]...)})
	case 4:
		f = iter.ConcatIterGen([]iter.Iter[int]{iter.OfIter(failing(vals, errSrc)), iter.OfOne(1)})
		end = errSrc
	}
	for i := 0; i < n; i++ {
		v, err := f()
		sym.Assert(err == nil && v == vals[i], "iterating function: wrong element")
	}
	for i := 0; i < 3; i++ {
		v, err := f()
		sym.Assert(err == end && v == 0, "iterating function: end not returned forever")
	}
}

// C14_Map: every key once with its value, for every iteration order.
//
//sym:maporder 3
func C14_Map() {
	n := sym.Choice(4)
	m := map[int]int{}
	var keys, vals []int
	for i := 0; i < n; i++ {
		k, v := sym.Int(), sym.Int()
		for _, o := range keys {
			sym.Assume(o != k)
		}
		m[k] = v
		keys, vals = append(keys, k), append(vals, v)
	}
	it := iter.OfMap(m)
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		kv, err := it.Next()
		sym.Assert(err == nil, "map: error before all keys came out")
		found := -1
		for j, k := range keys {
			if k == kv.T {
				found = j
			}
		}
		sym.Assert(found >= 0, "map: a key that is not in the map")
		sym.Assert(!seen[found], "map: a key twice")
		sym.Assert(kv.U == vals[found], "map: another value than that of the key")
		seen[found] = true
		if i == 0 && sym.Choice(2) == 1 {
			it.Unread(kv)
			again, err := it.Next()
			sym.Assert(err == nil && again == kv, "map: unread element")
		}
	}
	for i := 0; i < 2; i++ {
		kv, err := it.Next()
		sym.Assert(err == iter.EOI && kv == tuple.Two[int, int]{}, "map: end")
	}
}

// C14_MapNil: maps with nil interface values and nil maps.
func C14_MapNil() {
	k := sym.Int()
	var m map[int]any
	n := 0
	if sym.Choice(2) == 1 {
		n = 1
		m = map[int]any{k: nil}
	}
	it := iter.OfMap(m)
	if n == 1 {
		kv, err := it.Next()
		sym.Assert(err == nil && kv.T == k && kv.U == nil, "map: nil value")
	}
	_, err := it.Next()
	sym.Assert(err == iter.EOI, "map: end")
}

// C14_Infinite: literal values first, then f applied again and again to the last one.
func C14_Infinite() {
	n := sym.Choice(4)
	vals := ints(n)
	orig := append([]int{}, vals...)
	d := sym.Int()
	f := func(x int) int { return x ^ d }
	g := iter.InfiniteIterGen(f, vals...)
	acc := 0
	if n > 0 {
		acc = orig[n-1]
	}
	for i := 0; i < n+3; i++ {
		v, err := g()
		sym.Assert(err == nil, "infinite: error")
		if i < n-1 {
			sym.Assert(v == orig[i], "infinite: literal value")
			continue
		}
		acc = f(acc)
		sym.Assert(v == acc, "infinite: series value")
	}
	fib := iter.FibonnaciIterGen()
	a, b := 1, 1
	for i := 0; i < 10; i++ {
		v, err := fib()
		sym.Assert(err == nil && v == a, "fibonacci")
		a, b = b, a+b
	}
}

// C14_Maybe: Maybe is Next as one value, for plain and interface element types.
func C14_Maybe() {
	v := sym.Int()
	end := iter.EOI
	if sym.Choice(2) == 1 {
		end = errSrc
	}
	n := sym.Choice(2)
	chk := func(has, hasErr bool, err error, i int) {
		sym.Assert(has != hasErr, "Maybe: both or none")
		if i < n {
			sym.Assert(has && err == nil, "Maybe: value lost")
		} else {
			sym.Assert(hasErr && err == end, "Maybe: error lost")
		}
	}
	if sym.Choice(2) == 0 {
		it := iter.OfIter(failing([]int{v}[:n], end))
		for i := 0; i < 3; i++ {
			r := iter.Maybe(it)
			chk(r.HasResult(), r.HasError(), r.Error(), i)
			if i < n {
				sym.Assert(r.Get() == v, "Maybe: another value")
			}
		}
		return
	}
	c := 0
	it := iter.OfIter(func() (any, error) {
		if c++; c <= n {
			return v, nil
		}
		return nil, end
	})
	for i := 0; i < 3; i++ {
		var r union.Result[any] = iter.Maybe(it)
		chk(r.HasResult(), r.HasError(), r.Error(), i)
		if i < n {
			sym.Assert(r.Get() == any(v), "Maybe: another value")
		}
	}
}
