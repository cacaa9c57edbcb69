// Package hstream: the transforms of stream against list operations.
package hstream

import (
	"errors"
	"math"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"verifharness/sym"
)

var (
	errSrc = errors.New("source failed")
	errFn  = errors.New("function failed")
	errFn2 = errors.New("function failed differently")
)

// source gives vals, then end, and must never be read again after that.
type source[T any] struct {
	vals []T
	end  error
	read int
	done bool
}

func (s *source[T]) next() (T, error) {
	sym.Assert(!s.done, "the source is read again after its end")
	if s.read < len(s.vals) {
		s.read++
		return s.vals[s.read-1], nil
	}
	s.done = true
	var zv T
	return zv, s.end
}

func (s *source[T]) iter() iter.Iter[T] { return iter.OfIter(s.next) }

func of[T any](vals []T, end error) iter.Iter[T] {
	return (&source[T]{vals: vals, end: end}).iter()
}

// long is the number of elements of the sources instead of a choice, if not zero; all but two of them are then constants,
// some of which come several times.
var long int

func ints(n int) []int {
	r := make([]int, n)
	for i := range r {
		if long > 0 && i != 5 && i != n-2 {
			r[i] = i * 7 % 13 * 10
			continue
		}
		r[i] = sym.Int()
	}
	return r
}

// gives: the iterator delivers want, then end forever.
func gives[T comparable](it iter.Iter[T], want []T, end error, what string) {
	var zv T
	for i := range want {
		v, err := it.Next()
		sym.Assert(err == nil, what+": an element is missing")
		sym.Assert(v == want[i], what+": another element")
		sym.Observe(v)
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		sym.Assert(err != nil, what+": an element too many")
		sym.Assert(err == end && v == zv, what+": wrong end")
	}
}

// whole: what an aggregate gives, a single element unless the source fails.
func whole[T comparable](it iter.Iter[T], want T, end error, what string) {
	if end != iter.EOI {
		gives(it, nil, end, what)
		return
	}
	gives(it, []T{want}, end, what)
}

func size(quick, thorough int) int {
	if long > 0 {
		return long
	}
	if sym.Thorough() {
		return sym.Choice(thorough + 1)
	}
	return sym.Choice(quick + 1)
}

func mapped(end error) {
	vals, d := ints(size(4, 6)), sym.Int()
	var want []int
	for _, v := range vals {
		want = append(want, v^d)
	}
	gives(stream.Map(func(x int) int { return x ^ d })(of(vals, end)), want, end, "Map")
	gives(stream.Map(func(x int) int64 { return int64(x) })(stream.Map(func(x int) int { return x ^ d })(of(vals, end))), conv64(want), end, "Map after Map")
}

func conv64(v []int) (r []int64) {
	for _, x := range v {
		r = append(r, int64(x))
	}
	return
}

func mapError(end error) {
	vals, bad := ints(size(4, 5)), sym.Int()
	var want []int
	calls := 0
	f := func(x int) (int, error) {
		calls++
		if x == bad {
			return 7, errFn
		}
		return x + 1, nil
	}
	e, n := end, len(vals)
	for i, v := range vals {
		if v == bad {
			e, n = errFn, i+1
			break
		}
		want = append(want, v+1)
	}
	gives(stream.MapError(f)(of(vals, end)), want, e, "MapError")
	sym.Assert(calls == n, "MapError: function not called once for each element")
}

func filter(end error) {
	vals, t := ints(size(5, 7)), sym.Int()
	var want []int
	for _, v := range vals {
		if v > t {
			want = append(want, v)
		}
	}
	calls := 0
	gives(stream.Filter(func(x int) bool { calls++; return x > t })(of(vals, end)), want, end, "Filter")
	sym.Assert(calls == len(vals), "Filter: function not called once for each element")
}

func peek(end error) {
	vals := ints(size(4, 6))
	src := &source[int]{vals: vals, end: end}
	var seen []int
	it := stream.Peek(func(x int) { seen = append(seen, x) })(src.iter())
	sym.Assert(len(seen) == 0, "Peek: function called before iterating")
	for i, v := range vals {
		x, err := it.Next()
		sym.Assert(err == nil && x == v, "Peek: changed the elements")
		sym.Assert(len(seen) == i+1 && seen[i] == v && src.read == i+1, "Peek: not called once for each element as it comes")
	}
	_, err := it.Next()
	sym.Assert(err == end, "Peek: end")
	_, err = it.Next()
	sym.Assert(err == end && len(seen) == len(vals), "Peek: called after the end")
}

func reduce(end error) {
	vals := ints(size(4, 6))
	op := func(a, b int) int { return a*31 + b }
	fold := func(acc int, l []int) int {
		for _, v := range l {
			acc = op(acc, v)
		}
		return acc
	}
	if sym.Choice(2) == 0 {
		it := stream.Reduce(op)(of(vals, end))
		if len(vals) == 0 {
			gives(it, nil, end, "Reduce")
		} else {
			whole(it, fold(vals[0], vals[1:]), end, "Reduce")
		}
		return
	}
	start := sym.Int()
	whole(stream.Reduce(op, start)(of(vals, end)), fold(start, vals), end, "Reduce with start value")
}

func reduceTo(end error) {
	vals := ints(size(4, 6))
	op := func(a int64, b int) int64 { return a*31 + int64(b) }
	fold := func(acc int64) int64 {
		for _, v := range vals {
			acc = op(acc, v)
		}
		return acc
	}
	if sym.Choice(2) == 0 {
		it := stream.ReduceTo(op)(of(vals, end))
		if len(vals) == 0 {
			gives(it, nil, end, "ReduceTo")
		} else {
			whole(it, fold(0), end, "ReduceTo")
		}
		return
	}
	start := sym.Int64()
	whole(stream.ReduceTo(op, start)(of(vals, end)), fold(start), end, "ReduceTo with start value")
}

func match(end error) {
	vals, t := ints(size(4, 6)), sym.Int()
	src := &source[int]{vals: vals, end: end}
	p := func(x int) bool { return x > t }
	n := 0 // elements that pass, and the first that decides
	first := func(pass bool) int {
		for i, v := range vals {
			if p(v) == pass {
				return i
			}
		}
		return -1
	}
	for _, v := range vals {
		if p(v) {
			n++
		}
	}
	var (
		it   iter.Iter[bool]
		want bool
		stop int
		what string
	)
	switch sym.Choice(6) {
	case 0:
		it, want, stop, what = stream.AllMatch(p)(src.iter()), n == len(vals), first(false), "AllMatch"
	case 1:
		it, want, stop, what = stream.AnyMatch(p)(src.iter()), n > 0, first(true), "AnyMatch"
	case 2:
		it, want, stop, what = stream.NoneMatch(p)(src.iter()), n == 0, first(true), "NoneMatch"
	case 3:
		it, want, stop, what = stream.ReduceToBool(p, true, false)(src.iter()), n == len(vals), first(false), "ReduceToBool"
	case 4:
		// The start value is the result of no elements only.
		it, want, stop, what = stream.ReduceToBool(p, true, true)(src.iter()), n > 0 || len(vals) == 0, first(true), "ReduceToBool"
	case 5:
		it, want, stop, what = stream.ReduceToBool(p, false, false)(src.iter()), n == len(vals) && len(vals) > 0, first(false), "ReduceToBool"
	}
	if stop >= 0 {
		// Decided by an element: whatever comes after it does not matter, and is not read.
		sym.Reach("short circuit")
		v, err := it.Next()
		sym.Assert(err == nil && v == want, what+": wrong result")
		sym.Assert(src.read == stop+1, what+": reads on after the deciding element")
		_, err = it.Next()
		sym.Assert(err == iter.EOI, what+": end")
		return
	}
	sym.Reach("all elements")
	whole(it, want, end, what)
}

func toSlice(end error) {
	vals := ints(size(4, 6))
	eq := func(it iter.Iter[[]int], what string) {
		s, err := it.Next()
		if end != iter.EOI {
			sym.Assert(err == end && s == nil, what+": a value instead of the error")
		} else {
			sym.Assert(err == nil && s != nil && len(s) == len(vals), what+": wrong length")
			for i := range vals {
				sym.Assert(s[i] == vals[i], what+": another element")
			}
		}
		s, err = it.Next()
		sym.Assert(err == end && s == nil, what+": end")
	}
	eq(stream.ReduceToSlice(of(vals, end)), "ReduceToSlice")
	extra := sym.Choice(2)
	target := ints(len(vals) + extra)
	keep := append([]int{}, target...)
	it := stream.ReduceIntoSlice(target)(of(vals, end))
	s, err := it.Next()
	if end != iter.EOI {
		sym.Assert(err == end && s == nil, "ReduceIntoSlice: a value instead of the error")
		for _, v := range target {
			sym.Assert(v == 0, "ReduceIntoSlice: target not zeroed on error")
		}
	} else {
		sym.Assert(err == nil && len(s) == len(target) && (len(s) == 0 || &s[0] == &target[0]), "ReduceIntoSlice: not the target")
		for i := range target {
			if i < len(vals) {
				sym.Assert(target[i] == vals[i], "ReduceIntoSlice: another element")
			} else {
				sym.Assert(target[i] == keep[i], "ReduceIntoSlice: writes past the elements")
			}
		}
	}
	_, err = it.Next()
	sym.Assert(err == end, "ReduceIntoSlice: end")
}

func expandSlices(end error) {
	n := size(3, 4)
	var (
		src  [][]int
		want []int
	)
	for i := 0; i < n; i++ {
		k := i * 5 % 7
		if long == 0 {
			k = sym.Choice(4)
		}
		if k == 3 {
			src = append(src, nil)
			continue
		}
		s := ints(k)
		src = append(src, s)
		want = append(want, s...)
	}
	gives(stream.ExpandSlices(of(src, end)), want, end, "ExpandSlices")
}

func toMap(end error) {
	n := size(3, 4)
	var (
		src  []tuple.Two[int, int]
		want = map[int]int{}
	)
	keys, vals := ints(n), ints(n)
	for i := 0; i < n; i++ {
		kv := tuple.Of2(keys[i], vals[i])
		src = append(src, kv)
		want[kv.T] = kv.U
	}
	it := stream.ReduceToMap(of(src, end))
	m, err := it.Next()
	if end != iter.EOI {
		sym.Assert(err == end && m == nil, "ReduceToMap: a value instead of the error")
	} else {
		sym.Assert(err == nil && m != nil && len(m) == len(want), "ReduceToMap: number of keys")
		for i := range src {
			v, ok := m[src[i].T]
			sym.Assert(ok && v == want[src[i].T], "ReduceToMap: not the last value of the key")
		}
	}
	_, err = it.Next()
	sym.Assert(err == end, "ReduceToMap: end")
}

func expandMaps(end error) {
	n := size(2, 3)
	var (
		src  []map[int]int
		from []int
		keys []int
		vals []int
	)
	for i := 0; i < n; i++ {
		k := sym.Choice(4)
		if k == 3 {
			src = append(src, nil)
			continue
		}
		m := map[int]int{}
		for j := 0; j < k; j++ {
			key, v := sym.Int(), sym.Int()
			if j == 1 {
				sym.Assume(key != keys[len(keys)-1])
			}
			m[key] = v
			keys, vals, from = append(keys, key), append(vals, v), append(from, i)
		}
		src = append(src, m)
	}
	it := stream.ExpandMaps(of(src, end))
	seen := make([]bool, len(keys))
	for range keys {
		kv, err := it.Next()
		sym.Assert(err == nil, "ExpandMaps: an element is missing")
		// The maps come in order, the keys of one in any order.
		cur := -1
		for j := range keys {
			if !seen[j] {
				cur = from[j]
				break
			}
		}
		found := false
		for j := range keys {
			if !seen[j] && from[j] == cur && !found && keys[j] == kv.T && vals[j] == kv.U {
				seen[j], found = true, true
			}
		}
		sym.Assert(found, "ExpandMaps: an element that is not in the map")
	}
	for i := 0; i < 2; i++ {
		kv, err := it.Next()
		sym.Assert(err == end && kv == tuple.Two[int, int]{}, "ExpandMaps: end")
	}
}

func skipLimit(end error) {
	vals := ints(size(4, 5))
	n := sym.Uint()
	k := len(vals)
	if n < uint(k) {
		for i := range vals {
			if uint(i) == n {
				k = i
			}
		}
	}
	switch sym.Choice(4) {
	case 0:
		gives(stream.Skip[int](n)(of(vals, end)), vals[k:], end, "Skip")
	case 1:
		src := &source[int]{vals: vals, end: end}
		e := iter.EOI
		if n > uint(len(vals)) {
			e = end
		}
		gives(stream.Limit[int](n)(src.iter()), vals[:k], e, "Limit")
		sym.Assert(src.read == k, "Limit: reads elements past the limit")
	case 2:
		m := sym.Choice(3)
		l := len(vals) - k
		e := end
		if m <= l {
			l, e = m, iter.EOI
		}
		gives(stream.Limit[int](uint(m))(stream.Skip[int](n)(of(vals, end))), vals[k:k+l], e, "Limit after Skip")
	case 3:
		// Applying the same transform to another iterator starts afresh.
		m := uint(sym.Choice(3))
		f, g := stream.Skip[int](m), stream.Limit[int](m)
		for i := 0; i < 2; i++ {
			c := int(m)
			if c > len(vals) {
				c = len(vals)
			}
			gives(f(of(vals, end)), vals[c:], end, "Skip applied again")
			e := end
			if m <= uint(len(vals)) {
				e = iter.EOI
			}
			gives(g(of(vals, end)), vals[:c], e, "Limit applied again")
		}
	}
}

func count(end error) {
	vals := ints(size(6, 9))
	whole(stream.Count(of(vals, end)), len(vals), end, "Count")
}

func distinct(end error) {
	vals := ints(size(4, 5))
	nth := func(want int) (r []int) {
		for i, v := range vals {
			c := 0
			for _, o := range vals[:i] {
				if o == v {
					c++
				}
			}
			if c == want {
				r = append(r, v)
			}
		}
		return
	}
	switch sym.Choice(4) {
	case 0:
		gives(stream.Distinct(of(vals, end)), nth(0), end, "Distinct")
	case 1:
		gives(stream.Duplicate(of(vals, end)), nth(1), end, "Duplicate")
	case 2:
		// State does not leak from one data set to the next.
		f := stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
			seen := map[int]bool{}
			return stream.Filter(func(v int) bool { had := seen[v]; seen[v] = true; return !had })
		})
		for i := 0; i < 2; i++ {
			gives(f(of(vals, end)), nth(0), end, "Generator")
		}
	case 3:
		// State is kept while the iterator stays the same, and begins anew with another one.
		made := 0
		f := stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
			made++
			seen := map[int]bool{}
			return stream.Filter(func(v int) bool { had := seen[v]; seen[v] = true; return !had })
		})
		it, want := of(vals, end), nth(0)
		k := sym.Choice(len(want) + 1)
		first := f(it)
		for i := 0; i < k; i++ {
			v, err := first.Next()
			sym.Assert(err == nil && v == want[i], "Generator: the elements up to the second application")
		}
		gives(f(it), want[k:], end, "Generator applied again to the same iterator")
		sym.Assert(made == 1, "Generator: one state for one iterator")
		gives(f(of(vals, end)), want, end, "Generator applied to another iterator")
		sym.Assert(made == 2, "Generator: a new state for another iterator")
	}
}

// repeated: long sources of two values.
func repeated(end error) {
	a, b := sym.Int(), sym.Int()
	sym.Assume(a != b)
	var vals []int
	n := 8
	if sym.Thorough() {
		n = 11
	}
	for n = sym.Choice(n + 1); n > 0; n-- {
		if sym.Choice(2) == 0 {
			vals = append(vals, a)
		} else {
			vals = append(vals, b)
		}
	}
	if sym.Choice(3) == 0 {
		// A single value very often
		for i := 0; i < 40; i++ {
			vals = append(vals, b)
		}
	}
	nth := func(want int) (r []int) {
		var na, nb int
		for _, v := range vals {
			c := &na
			if v == b {
				c = &nb
			}
			if *c == want {
				r = append(r, v)
			}
			*c++
		}
		return
	}
	if sym.Choice(2) == 0 {
		gives(stream.Distinct(of(vals, end)), nth(0), end, "Distinct")
	} else {
		gives(stream.Duplicate(of(vals, end)), nth(1), end, "Duplicate")
	}
}

func reverse(end error) {
	vals := ints(size(5, 7))
	orig := append([]int{}, vals...)
	var want []int
	if end == iter.EOI {
		for i := range vals {
			want = append(want, vals[len(vals)-1-i])
		}
	}
	gives(stream.Reverse(of(vals, end)), want, end, "Reverse")
	for i := range vals {
		sym.Assert(vals[i] == orig[i], "Reverse: modifies the source")
	}
}

type num int

func (a num) Cmp(b num) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func sorted(end error) {
	n := size(4, 5)
	vals := ints(n)
	orig := append([]int{}, vals...)
	var (
		out []int
		err error
	)
	drain := func(next func() (int, error)) {
		for {
			var v int
			if v, err = next(); err != nil {
				_, again := next()
				sym.Assert(again == err, "sort: end")
				return
			}
			out = append(out, v)
		}
	}
	desc := false
	switch sym.Choice(3) {
	case 0:
		drain(stream.SortOrdered(of(vals, end)).Next)
	case 1:
		desc = true
		drain(stream.SortBy(func(a, b int) bool { return a > b })(of(vals, end)).Next)
	case 2:
		var ns []num
		for _, v := range vals {
			ns = append(ns, num(v))
		}
		it := stream.SortCmp(of(ns, end))
		drain(func() (int, error) { v, err := it.Next(); return int(v), err })
	}
	sym.Assert(err == end, "sort: wrong end")
	if end != iter.EOI {
		sym.Assert(len(out) == 0, "sort: elements although the source failed")
		return
	}
	sym.Assert(len(out) == n, "sort: number of elements")
	for i := 1; i < n; i++ {
		if desc {
			sym.Assert(out[i-1] >= out[i], "sort: not descending")
		} else {
			sym.Assert(out[i-1] <= out[i], "sort: not ascending")
		}
	}
	// A permutation: each element as often as in the source.
	for i := range orig {
		a, b := 0, 0
		for j := range orig {
			a += sym.Ite(orig[j] == orig[i], 1, 0)
			b += sym.Ite(out[j] == orig[i], 1, 0)
		}
		sym.Assert(a == b, "sort: not a permutation of the source")
		sym.Assert(vals[i] == orig[i], "sort: modifies the source")
	}
}

func minMax(end error) {
	n := size(4, 5)
	vals := ints(n)
	var ns []num
	for _, v := range vals {
		ns = append(ns, num(v))
	}
	var next func() (int, error)
	max := false
	switch sym.Choice(4) {
	case 0:
		max, next = true, stream.Max(of(vals, end)).Next
	case 1:
		next = stream.Min(of(vals, end)).Next
	case 2:
		it := stream.MaxCmp(of(ns, end))
		max, next = true, func() (int, error) { v, err := it.Next(); return int(v), err }
	case 3:
		it := stream.MinCmp(of(ns, end))
		next = func() (int, error) { v, err := it.Next(); return int(v), err }
	}
	v, err := next()
	if n == 0 || end != iter.EOI {
		sym.Assert(err == end && v == 0, "min/max: a value without elements or in spite of the error")
		return
	}
	sym.Assert(err == nil, "min/max: error")
	member := false
	for _, o := range vals {
		member = sym.Or(member, o == v)
		if max {
			sym.Assert(o <= v, "Max: not the largest")
		} else {
			sym.Assert(o >= v, "Min: not the smallest")
		}
	}
	sym.Assert(member, "min/max: not an element")
	_, err = next()
	sym.Assert(err == end, "min/max: end")
}

// compose: transforms applied one after the other are the list operations one after the other.
func compose(end error) {
	vals, t := ints(size(4, 5)), sym.Int()
	odd := func(i int) bool { return i > t }
	inc := func(i int) int { return i ^ 5 }
	var want []int
	for _, v := range vals {
		if odd(v) {
			want = append(want, inc(v))
		}
	}
	k := sym.Choice(3)
	switch sym.Choice(3) {
	case 0:
		s := want
		if k < len(s) {
			s = s[k:]
		} else {
			s = nil
		}
		gives(stream.Skip[int](uint(k))(stream.Map(inc)(stream.Filter(odd)(of(vals, end)))), s, end, "Filter, Map, Skip")
	case 1:
		whole(stream.Count(stream.Map(inc)(stream.Filter(odd)(of(vals, end)))), len(want), end, "Filter, Map, Count")
	case 2:
		it := stream.ExpandSlices(stream.ReduceToSlice(stream.Map(inc)(stream.Filter(odd)(of(vals, end)))))
		if end != iter.EOI {
			want = nil
		}
		gives(it, want, end, "Filter, Map, ReduceToSlice, ExpandSlices")
	}
}

// sortComplex sorts values on the real or the imaginary axis by magnitude.
func sortComplex(end error) {
	n := size(3, 4)
	var (
		vals, out []complex128
		mags      []float64
	)
	for i := 0; i < n; i++ {
		x := sym.Float64()
		sym.Assume(x == x)
		v := complex(x, 0)
		if sym.Choice(2) == 1 {
			v = complex(0, x)
		}
		vals, mags = append(vals, v), append(mags, math.Abs(x))
	}
	keep := append([]complex128{}, vals...)
	it := stream.SortComplex(of(vals, end))
	v, err := it.Next()
	for ; err == nil; v, err = it.Next() {
		out = append(out, v)
	}
	_, again := it.Next()
	sym.Assert(err == end && again == end, "SortComplex: end")
	if end != iter.EOI {
		sym.Assert(len(out) == 0, "SortComplex: elements although the source failed")
		return
	}
	sym.Assert(len(out) == n, "SortComplex: number of elements")
	used := make([]bool, n)
	last := 0.0
	for _, v := range out {
		found := false
		for i := range keep {
			if !used[i] && keep[i] == v {
				used[i], found = true, true
				sym.Assert(last <= mags[i], "SortComplex: order")
				last = mags[i]
				break
			}
		}
		sym.Assert(found, "SortComplex: not a permutation")
	}
}

// longer runs the transforms over sources of seventy (140) elements.
func longer(end error) {
	long = 70
	if sym.Thorough() {
		long = 140
	}
	defer func() { long = 0 }()
	fs := []func(error){mapped, mapError, filter, peek, reduce, reduceTo, match, toSlice, expandSlices, toMap, skipLimit, count, distinct, reverse, sorted, minMax, compose}
	fs[sym.Choice(len(fs))](end)
}
