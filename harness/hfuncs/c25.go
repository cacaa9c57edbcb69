// Package hfuncs: the helpers of funcs.
package hfuncs

import (
	"math"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"verifharness/sym"
)

// long is the number of elements instead of a choice, if not zero; all but one of them are then constants, some of which
// come several times.
var long int

func ints(n int) []int {
	r := make([]int, n)
	for i := range r {
		if long > 0 && i != n-2 {
			r[i] = i * 7 % 13 * 10
			continue
		}
		r[i] = sym.Int()
	}
	return r
}

// key is a key to look up.
func key() int {
	if long > 0 {
		return []int{-1, 0, 60, 65, 130}[sym.Choice(5)]
	}
	return sym.Int()
}

func size(quick, thorough int) int {
	if long > 0 {
		return long
	}
	if sym.Thorough() {
		return sym.Choice(thorough + 1)
	}
	return sym.Choice(quick + 1)
}

func equal[T comparable](got, want []T, what string) {
	sym.Assert(len(got) == len(want), what+": length")
	for i := range want {
		sym.Assert(got[i] == want[i], what+": another element")
	}
}

func clone[T any](s []T) []T { return append([]T{}, s...) }

// sliceOrNil is nil or a slice with spare capacity beyond its length, whose further elements must stay as they are.
func sliceOrNil(n int) (s, back []int) {
	if n == 0 && sym.Choice(2) == 0 {
		return nil, nil
	}
	back = ints(n + 2)
	return back[: n : n+sym.Choice(2)], back
}

// C25_Add: appending to a nil or existing slice.
func C25_Add() {
	s, _ := sliceOrNil(size(3, 5))
	want := clone(s)
	for i := 0; i < 2; i++ {
		v := sym.Int()
		funcs.SliceAdd(&s, v)
		want = append(want, v)
		equal(s, want, "SliceAdd")
	}
}

// C25_Copy: an independent copy, never nil.
func C25_Copy() {
	s, _ := sliceOrNil(size(4, 6))
	want := clone(s)
	c := funcs.SliceCopy(s)
	sym.Assert(c != nil, "SliceCopy: nil")
	equal(c, want, "SliceCopy")
	for i := range c {
		c[i]++
	}
	equal(s, want, "SliceCopy shares the original")
	o := funcs.SliceOf(want...)
	equal(o, want, "SliceOf")
}

// C25_Flatten: slices of one to three dimensions.
func C25_Flatten() {
	var (
		want []int
		got  []int
	)
	row := func() []int {
		k := sym.Choice(4)
		if k == 3 {
			return nil
		}
		r := ints(k)
		want = append(want, r...)
		return r
	}
	switch sym.Choice(4) {
	case 0:
		got = funcs.SliceFlatten[int](row())
	case 1:
		var s [][]int
		for i, n := 0, sym.Choice(4); i < n; i++ {
			s = append(s, row())
		}
		got = funcs.SliceFlatten[int](s)
	case 2:
		var s [][][]int
		for i, n := 0, sym.Choice(3); i < n; i++ {
			var t [][]int
			for j, n := 0, sym.Choice(3); j < n; j++ {
				t = append(t, row())
			}
			s = append(s, t)
		}
		got = funcs.SliceFlatten[int](s)
	case 3:
		got = funcs.SliceFlatten[int](nil)
		sym.Assert(got != nil, "SliceFlatten: nil")
	}
	equal(got, want, "SliceFlatten")
}

// C25_FlattenTypes: other arguments panic; interface elements may be nil.
func C25_FlattenTypes() {
	panics := func(f func()) (r bool) {
		defer func() { r = recover() != nil }()
		f()
		return
	}
	v := sym.Int()
	sym.Assert(panics(func() { funcs.SliceFlatten[int](v) }), "SliceFlatten: accepts an int")
	sym.Assert(panics(func() { funcs.SliceFlatten[int]([]string{"a"}) }), "SliceFlatten: accepts other elements")
	sym.Assert(panics(func() { funcs.SliceFlatten[string]([][]int{{v}}) }), "SliceFlatten: accepts other elements")
	type row []int
	type table []row
	sym.Assert(len(funcs.SliceFlatten[int](nil)) == 0, "SliceFlatten: nil")
	n := funcs.SliceFlatten[int](row{v})
	sym.Assert(len(n) == 1 && n[0] == v, "SliceFlatten: a named slice type")
	n = funcs.SliceFlatten[int](table{{v}, nil, {v, 1}})
	sym.Assert(len(n) == 3 && n[0] == v && n[1] == v && n[2] == 1, "SliceFlatten: named slice types")
	s := funcs.SliceFlatten[any]([][]any{{v, nil}, {[]int{v}}})
	sym.Assert(len(s) == 3 && s[0] == any(v) && s[1] == nil, "SliceFlatten: interface elements")
}

// C25_Index: element, element from the end, default, zero value; any index.
func C25_Index() {
	s, _ := sliceOrNil(size(4, 6))
	i, d := sym.Int(), sym.Int()
	var (
		got  int
		dflt int
	)
	if sym.Choice(2) == 0 {
		got = funcs.SliceIndex(s, i)
	} else {
		got, dflt = funcs.SliceIndex(s, i, d), d
	}
	for k := range s {
		if i == k || i == k-len(s) {
			sym.Reach("element")
			sym.Assert(got == s[k], "SliceIndex: another element")
			return
		}
	}
	sym.Reach("no element")
	sym.Assert(got == dflt, "SliceIndex: not the default")
}

func without(s []int, v int, all bool) []int {
	r := []int{}
	done := false
	for _, x := range s {
		if x == v && (all || !done) {
			done = true
			continue
		}
		r = append(r, x)
	}
	return r
}

// C25_Remove: first or all occurrences, by value or by pointer, the argument untouched.
func C25_Remove() {
	s, back := sliceOrNil(size(4, 5))
	keep := clone(s)
	keepBack := clone(back)
	v := sym.Int()
	all, want := false, without(keep, v, false)
	if sym.Choice(2) == 0 {
		equal(funcs.SliceRemove(s, v), want, "SliceRemove")
	} else {
		all = sym.Choice(2) == 1
		want = without(keep, v, all)
		equal(funcs.SliceRemove(s, v, all), want, "SliceRemove")
	}
	equal(s, keep, "SliceRemove modifies its argument")
	equal(back, keepBack, "SliceRemove writes past its argument")
	m := map[int][]int{1: clone(keep), 2: clone(keep)}
	funcs.MapSliceRemove(m, 1, v, all)
	funcs.MapSliceRemove(m, 3, v, all)
	funcs.MapSliceRemove(nil, 1, v, all)
	sym.Assert(len(m) == 2, "MapSliceRemove: keys")
	equal(m[1], want, "MapSliceRemove")
	equal(m[2], keep, "MapSliceRemove of another key")
	m2 := map[int]map[int][]int{1: {1: clone(keep), 2: clone(keep)}}
	funcs.Map2SliceRemove(m2, 1, 1, v, all)
	funcs.Map2SliceRemove(m2, 1, 3, v, all)
	funcs.Map2SliceRemove(m2, 2, 1, v, all)
	funcs.Map2SliceRemove(nil, 2, 1, v, all)
	sym.Assert(len(m2) == 1 && len(m2[1]) == 2, "Map2SliceRemove: keys")
	equal(m2[1][1], want, "Map2SliceRemove")
	equal(m2[1][2], keep, "Map2SliceRemove of another key")
}

type thing struct {
	n int
	f func() // not comparable
}

// C25_RemovePointers: elements that cannot be compared, by identity.
func C25_RemovePointers() {
	pool := []*thing{{n: 1}, {n: 1}, {n: 2}}
	n := size(3, 4)
	var (
		s  []*thing
		id []int
	)
	for i := 0; i < n; i++ {
		k := sym.Choice(3)
		s, id = append(s, pool[k]), append(id, k)
	}
	keep := clone(s)
	v := sym.Choice(3)
	all := sym.Choice(2) == 1
	want := []*thing{}
	for _, k := range without(id, v, all) {
		want = append(want, pool[k])
	}
	equal(funcs.SliceRemoveUncomparable(s, pool[v], all), want, "SliceRemoveUncomparable")
	equal(s, keep, "SliceRemoveUncomparable modifies its argument")
	m := map[int][]*thing{1: clone(s), 2: clone(s)}
	funcs.MapSliceRemoveUncomparable(m, 1, pool[v], all)
	funcs.MapSliceRemoveUncomparable(m, 3, pool[v], all)
	sym.Assert(len(m) == 2, "MapSliceRemoveUncomparable: keys")
	equal(m[1], want, "MapSliceRemoveUncomparable")
	equal(m[2], keep, "MapSliceRemoveUncomparable of another key")
	m2 := map[int]map[int][]*thing{1: {1: clone(s), 2: clone(s)}}
	funcs.Map2SliceRemoveUncomparable(m2, 1, 1, pool[v], all)
	funcs.Map2SliceRemoveUncomparable(m2, 1, 3, pool[v], all)
	funcs.Map2SliceRemoveUncomparable(m2, 2, 1, pool[v], all)
	sym.Assert(len(m2) == 1 && len(m2[1]) == 2, "Map2SliceRemoveUncomparable: keys")
	equal(m2[1][1], want, "Map2SliceRemoveUncomparable")
	equal(m2[1][2], keep, "Map2SliceRemoveUncomparable of another key")
}

// C25_Reverse: in place, and returned.
func C25_Reverse() {
	s, back := sliceOrNil(size(6, 9))
	keepBack := clone(back)
	keep := clone(s)
	r := funcs.SliceReverse(s)
	sym.Assert(len(r) == len(keep) && len(s) == len(keep), "SliceReverse: length")
	for i := range keep {
		sym.Assert(s[i] == keep[len(keep)-1-i] && r[i] == s[i], "SliceReverse: not reversed")
	}
	if len(s) > 0 {
		sym.Assert(&r[0] == &s[0], "SliceReverse: not the same slice")
	}
	for i := len(s); i < len(back); i++ {
		sym.Assert(back[i] == keepBack[i], "SliceReverse writes past its argument")
	}
}

type num int

func (a num) Cmp(b num) int {
	if a < b {
		return -7
	}
	if a > b {
		return 1
	}
	return 0
}

func sortedPerm(out, in []int, desc bool, what string) {
	sym.Assert(len(out) == len(in), what+": length")
	for i := 1; i < len(out); i++ {
		if desc {
			sym.Assert(out[i-1] >= out[i], what+": not descending")
		} else {
			sym.Assert(out[i-1] <= out[i], what+": not ascending")
		}
	}
	for i := range in {
		a, b := 0, 0
		for j := range in {
			a += sym.Ite(in[j] == in[i], 1, 0)
			b += sym.Ite(out[j] == in[i], 1, 0)
		}
		sym.Assert(a == b, what+": not a permutation")
	}
}

// C25_Sort: a sorted permutation, in place.
func C25_Sort() {
	s := ints(size(4, 5))
	keep := clone(s)
	switch sym.Choice(3) {
	case 0:
		r := funcs.SliceSortOrdered(s)
		equal(r, s, "SliceSortOrdered: result")
		sortedPerm(s, keep, false, "SliceSortOrdered")
	case 1:
		r := funcs.SliceSortBy(s, func(a, b int) bool { return a > b })
		equal(r, s, "SliceSortBy: result")
		sortedPerm(s, keep, true, "SliceSortBy")
	case 2:
		var n []num
		for _, v := range s {
			n = append(n, num(v))
		}
		r := funcs.SliceSortCmp(n)
		equal(r, n, "SliceSortCmp: result")
		for i := range n {
			s[i] = int(n[i])
		}
		sortedPerm(s, keep, false, "SliceSortCmp")
	}
}

func member(s []int, v int) bool {
	r := false
	for _, x := range s {
		r = sym.Or(r, x == v)
	}
	return r
}

// C25_ToMap: the set of the elements, or of their images.
//
//sym:maporder 3
func C25_ToMap() {
	s, _ := sliceOrNil(size(3, 4))
	v := sym.Int()
	m := funcs.SliceToMap(s)
	sym.Assert(m != nil, "SliceToMap: nil")
	x, ok := m[v]
	sym.Assert(ok == member(s, v) && x == ok, "SliceToMap: membership")
	f := func(i int) int { return i / 2 }
	by := funcs.SliceToMapBy(s, f)
	var img []int
	for _, i := range s {
		img = append(img, f(i))
	}
	x, ok = by[v]
	sym.Assert(ok == member(img, v) && x == ok, "SliceToMapBy: membership")
	u := funcs.SliceUniqueValues(s)
	for i := range u {
		sym.Assert(member(s, u[i]), "SliceUniqueValues: not an element")
		for j := range u[:i] {
			sym.Assert(u[i] != u[j], "SliceUniqueValues: an element twice")
		}
	}
	for _, i := range s {
		sym.Assert(member(u, i), "SliceUniqueValues: an element is missing")
	}
}

// C25_Map: the single level map helpers against a map.
func C25_Map() {
	n := size(3, 4)
	var m map[int]int
	want := map[int]int{}
	var keys []int
	ks0, vs0 := ints(n), ints(n)
	for i := 0; i < n; i++ {
		k, v := ks0[i], vs0[i]
		funcs.MapSet(&m, k, v)
		want[k] = v
		keys = append(keys, k)
	}
	if n > 0 && sym.Choice(2) == 1 {
		k := key()
		funcs.MapUnset(m, k)
		delete(want, k)
	} else if n == 0 {
		funcs.MapUnset(m, 1)
	}
	sym.Assert(len(m) == len(want), "MapSet: number of keys")
	k, d := key(), sym.Int()
	v, ok := want[k]
	sym.Assert(funcs.MapTest(m, k) == ok, "MapTest")
	if ok {
		sym.Assert(funcs.MapIndex(m, k) == v && funcs.MapIndex(m, k, d) == v, "MapIndex: another value")
	} else {
		sym.Assert(funcs.MapIndex(m, k) == 0 && funcs.MapIndex(m, k, d) == d, "MapIndex: not the default")
	}
	ks := funcs.MapKeysToSlice(m)
	sym.Assert(ks != nil && len(ks) == len(want), "MapKeysToSlice: number of keys")
	for i := range ks {
		_, ok := want[ks[i]]
		sym.Assert(ok, "MapKeysToSlice: not a key")
		for j := range ks[:i] {
			sym.Assert(ks[i] != ks[j], "MapKeysToSlice: a key twice")
		}
	}
}

// C25_Map2: two level maps and maps of slices.
func C25_Map2() {
	n := size(2, 3)
	var (
		m2 map[int]map[int]int
		ms map[int][]int
		mt map[int]map[int][]int
	)
	type pair struct{ a, b int }
	w2 := map[pair]int{}
	wt := map[pair][]int{}
	ws := map[int][]int{}
	for i := 0; i < n; i++ {
		k, v := pair{sym.Int(), sym.Int()}, sym.Int()
		funcs.Map2Set(&m2, k.a, k.b, v)
		w2[k] = v
		funcs.MapSliceAdd(&ms, k.a, v)
		ws[k.a] = append(ws[k.a], v)
		funcs.Map2SliceAdd(&mt, k.a, k.b, v)
		wt[k] = append(wt[k], v)
	}
	if sym.Choice(2) == 1 {
		k := pair{sym.Int(), sym.Int()}
		funcs.Map2Unset(m2, k.a, k.b)
		delete(w2, k)
	}
	k := pair{sym.Int(), sym.Int()}
	v, ok := w2[k]
	sym.Assert(funcs.Map2Test(m2, k.a, k.b) == ok, "Map2Test")
	if ok {
		sym.Assert(m2[k.a][k.b] == v, "Map2Set: another value")
	}
	equal(ms[k.a], ws[k.a], "MapSliceAdd")
	equal(mt[k.a][k.b], wt[k], "Map2SliceAdd")
	total := 0
	for _, m := range mt {
		for _, s := range m {
			total += len(s)
		}
	}
	sym.Assert(total == n, "Map2SliceAdd: elements elsewhere")
}

// C25_MapSort: the pairs of a map in key order.
//
//sym:maporder 4
func C25_MapSort() {
	n := size(3, 4)
	m := map[int]int{}
	nm := map[num]int{}
	ks0, vs0 := ints(n), ints(n)
	for i := 0; i < n; i++ {
		k, v := ks0[i], vs0[i]
		m[k] = v
		nm[num(k)] = v
	}
	var keys, vals []int
	desc := false
	switch sym.Choice(3) {
	case 0:
		for _, kv := range funcs.MapSortOrdered(m) {
			keys, vals = append(keys, kv.T), append(vals, kv.U)
		}
	case 1:
		desc = true
		for _, kv := range funcs.MapSortBy(m, func(a, b int) bool { return a > b }) {
			keys, vals = append(keys, kv.T), append(vals, kv.U)
		}
	case 2:
		for _, kv := range funcs.MapSortCmp(nm) {
			keys, vals = append(keys, int(kv.T)), append(vals, kv.U)
		}
	}
	sym.Assert(len(keys) == len(m), "MapSort: number of pairs")
	for i := range keys {
		if i > 0 {
			sym.Assert(desc && keys[i-1] > keys[i] || !desc && keys[i-1] < keys[i], "MapSort: order")
		}
		v, ok := m[keys[i]]
		sym.Assert(ok && v == vals[i], "MapSort: a pair that is not in the map")
	}
}

// C25_TupleMap: the slice of pairs used as a sorted map, any sequence of operations.
func C25_TupleMap() {
	n := size(4, 5)
	var s []tuple.Two[int, []int]
	want := map[int][]int{}
	var keys []int
	ks0, vs0 := ints(n), ints(n)
	for i := 0; i < n; i++ {
		k, v := ks0[i], vs0[i]
		funcs.OrderedTuple2SliceAdd(&s, k, v)
		want[k] = append(want[k], v)
		keys = append(keys, k)
	}
	if n > 0 {
		k, v := key(), 0
		if len(want[k]) > 0 {
			v = want[k][0]
		}
		switch sym.Choice(4) {
		case 0:
			funcs.OrderedTuple2SliceRemoveKey(&s, k)
			delete(want, k)
		case 1:
			all := sym.Choice(2) == 1
			funcs.OrderedTuple2SliceRemoveValue(&s, k, v, all)
			if _, ok := want[k]; ok {
				want[k] = without(want[k], v, all)
			}
		}
	}
	sym.Assert(len(s) == len(want), "OrderedTuple2: number of keys")
	for i := range s {
		if i > 0 {
			sym.Assert(s[i-1].T < s[i].T, "OrderedTuple2SliceAdd: keys not in order")
		}
		vals, ok := want[s[i].T]
		sym.Assert(ok, "OrderedTuple2: a key that was not added")
		equal(s[i].U, vals, "OrderedTuple2 values")
	}
	k := key()
	idx, found := funcs.OrderedTuple2Search(s, k)
	largest := -1
	for i := range s {
		if s[i].T <= k {
			largest = i
		}
	}
	// Of a slice that has only greater keys the tests expect index 0
	sym.Assert(idx == largest || largest < 0 && len(s) > 0 && idx == 0, "OrderedTuple2Search: not the largest key that is not greater")
	sym.Assert(found == (largest >= 0 && s[largest].T == k), "OrderedTuple2Search: found")
}

// C25_TupleUncomparable: removal by identity.
func C25_TupleUncomparable() {
	a, b := &thing{n: 1}, &thing{n: 1}
	var s []tuple.Two[int, []*thing]
	k1, k2 := sym.Int(), sym.Int()
	sym.Assume(k1 != k2)
	for _, t := range []*thing{a, b, a} {
		funcs.OrderedTuple2SliceAdd(&s, k1, t)
		funcs.OrderedTuple2SliceAdd(&s, k2, t)
	}
	all := sym.Choice(2) == 1
	funcs.OrderedTuple2SliceRemoveUncomparable(&s, k1, a, all)
	sym.Assert(len(s) == 2, "keys")
	for _, e := range s {
		switch {
		case e.T == k2:
			equal(e.U, []*thing{a, b, a}, "OrderedTuple2SliceRemoveUncomparable: another key")
		case all:
			equal(e.U, []*thing{b}, "OrderedTuple2SliceRemoveUncomparable: all")
		default:
			equal(e.U, []*thing{b, a}, "OrderedTuple2SliceRemoveUncomparable: first")
		}
	}
}

// C25_Filters: the filter functions are what their names say.
func C25_Filters() {
	v, x := sym.Int(), sym.Int()
	sym.Assert(funcs.LessThan(v)(x) == (x < v), "LessThan")
	sym.Assert(funcs.LessThanEqual(v)(x) == (x <= v), "LessThanEqual")
	sym.Assert(funcs.Equal(v)(x) == (x == v), "Equal")
	sym.Assert(funcs.GreaterThan(v)(x) == (x > v), "GreaterThan")
	sym.Assert(funcs.GreaterThanEqual(v)(x) == (x >= v), "GreaterThanEqual")
	sym.Assert(funcs.IsNegative[int]()(x) == (x < 0), "IsNegative")
	sym.Assert(funcs.IsNonNegative[int]()(x) == (x >= 0), "IsNonNegative")
	sym.Assert(funcs.IsPositive[int]()(x) == (x > 0), "IsPositive")
	s := ints(size(3, 4))
	sym.Assert(funcs.In(s...)(x) == member(s, x), "In")
	var fs []func(int) bool
	calls := 0
	and, or, stopAnd, stopOr := true, len(s) == 0, len(s), len(s)
	for i, t := range s {
		t := t
		p := x > t
		fs = append(fs, func(y int) bool { calls++; return y > t })
		if !p && stopAnd == len(s) {
			and, stopAnd = false, i+1
		}
		if p && stopOr == len(s) {
			or, stopOr = true, i+1
		}
	}
	sym.Assert(funcs.And(fs...)(x) == and, "And")
	sym.Assert(calls == stopAnd, "And: short circuit")
	calls = 0
	sym.Assert(funcs.Or(fs...)(x) == or, "Or")
	sym.Assert(calls == stopOr, "Or: short circuit")
	sym.Assert(funcs.Not(funcs.Equal(v))(x) == (x != v), "Not")
}

// C25_Convert: slices and maps of any to typed ones, or an error.
func C25_Convert() {
	n := size(3, 4)
	var s []any
	bad := false
	for i := 0; i < n; i++ {
		switch sym.Choice(3) {
		case 0:
			s = append(s, sym.Int())
		case 1:
			s, bad = append(s, "x"), true
		case 2:
			s, bad = append(s, nil), true
		}
	}
	r, err := funcs.ConvertToSlice[int]("m", s)
	sym.Assert((err != nil) == bad, "ConvertToSlice: error")
	if bad {
		sym.Assert(r == nil, "ConvertToSlice: result with an error")
	} else {
		sym.Assert(len(r) == n, "ConvertToSlice: length")
		for i := range s {
			sym.Assert(any(r[i]) == s[i], "ConvertToSlice: element")
		}
	}
	for _, e := range s {
		v, err := funcs.AssertType[int]("m", e)
		x, ok := e.(int)
		sym.Assert((err == nil) == ok && v == x, "AssertType")
	}
	r2, err := funcs.ConvertToSlice2[int]("m", []any{s, []any{}, s})
	sym.Assert((err != nil) == bad && (r2 == nil) == bad, "ConvertToSlice2: error")
	if !bad {
		sym.Assert(len(r2) == 3 && len(r2[0]) == n && len(r2[1]) == 0 && len(r2[2]) == n, "ConvertToSlice2: lengths")
		for i := range s {
			sym.Assert(any(r2[0][i]) == s[i] && any(r2[2][i]) == s[i], "ConvertToSlice2: element")
		}
	}
	m := map[int]any{}
	for i, e := range s {
		m[i] = e
	}
	rm, err := funcs.ConvertToMap[int, int]("m", m)
	sym.Assert((err != nil) == bad && (rm == nil) == bad, "ConvertToMap: error")
	if !bad {
		sym.Assert(len(rm) == n, "ConvertToMap: length")
		for i, e := range s {
			v, ok := rm[i]
			sym.Assert(ok && any(v) == e, "ConvertToMap: value")
		}
	}
	_, err = funcs.ConvertToSlice[int]("m", 5)
	sym.Assert(err != nil, "ConvertToSlice: not a slice")
	_, err = funcs.ConvertToSlice2[int]("m", []any{5})
	sym.Assert(err != nil, "ConvertToSlice2: not a slice of slices")
	_, err = funcs.ConvertToMap[int, int]("m", map[string]any{})
	sym.Assert(err != nil, "ConvertToMap: not a map of that key")
}

// onAxis is a complex value on the real or the imaginary axis and its magnitude.
func onAxis() (complex128, float64) {
	x := sym.Float64()
	sym.Assume(x == x)
	if sym.Choice(2) == 0 {
		return complex(x, 0), math.Abs(x)
	}
	return complex(0, x), math.Abs(x)
}

func count(s []complex128, v complex128) int {
	n := 0
	for _, x := range s {
		n = sym.Ite(x == v, n+1, n)
	}
	return n
}

// C25_SortComplex: slices and maps of complex values are sorted by magnitude.
//
//sym:bv
//sym:maporder 2
func C25_SortComplex() {
	n := size(3, 4)
	var (
		s, keep []complex128
		mags    []float64
	)
	for i := 0; i < n; i++ {
		v, m := onAxis()
		s, keep, mags = append(s, v), append(keep, v), append(mags, m)
	}
	mag := func(v complex128) float64 {
		for i := range keep {
			if keep[i] == v {
				return mags[i]
			}
		}
		sym.Assert(false, "sort complex: a value that is no element")
		return 0
	}
	if sym.Choice(2) == 0 {
		r := funcs.SliceSortComplex(s)
		sym.Assert(len(r) == n && (n == 0 || &r[0] == &s[0]), "SliceSortComplex: not in place")
		for i := range s {
			sym.Assert(count(s, keep[i]) == count(keep, keep[i]), "SliceSortComplex: not a permutation")
			sym.Assert(i == 0 || mag(s[i-1]) <= mag(s[i]), "SliceSortComplex: order")
		}
		return
	}
	m := map[complex128]int{}
	for i, v := range s {
		m[v] = i
	}
	r := funcs.MapSortComplex(m)
	sym.Assert(len(r) == len(m), "MapSortComplex: number of pairs")
	for i, kv := range r {
		v, ok := m[kv.T]
		sym.Assert(ok && v == kv.U, "MapSortComplex: a pair that is not in the map")
		sym.Assert(i == 0 || r[i-1].T != kv.T && mag(r[i-1].T) <= mag(kv.T), "MapSortComplex: order")
	}
}

// C25_Long: slices and maps of seventy elements or more than a byte counts, of which one is arbitrary.
//
//sym:bv
func C25_Long() {
	long = []int{70, 260}[sym.Choice(2)]
	defer func() { long = 0 }()
	fs := []func(){C25_Add, C25_Copy, C25_Index, C25_Remove, C25_Reverse, C25_ToMap, C25_TupleMap, C25_Sort, C25_Map, C25_MapSort}
	fs[sym.Choice(len(fs)-long/100)]()
}
