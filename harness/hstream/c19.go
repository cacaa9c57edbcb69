package hstream

import (
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verifharness/sym"
)

// pinfo is any way to divide the work, none included.
func pinfo(max int) []stream.PInfo {
	switch sym.Choice(3) {
	case 0:
		return nil
	case 1:
		return []stream.PInfo{{N: sym.Choice(max+2) - 1, PUnit: stream.Threads}}
	}
	return []stream.PInfo{{N: sym.Choice(max+2) - 1, PUnit: stream.Items}}
}

func drain[T any](it iter.Iter[T]) (r []T, err error) {
	for {
		v, e := it.Next()
		if e != nil {
			_, again := it.Next()
			sym.Assert(again == e, "Parallel: the end is not repeated")
			return r, e
		}
		r = append(r, v)
	}
}

// same: the parallel run gives what the sequential one gives.
func same[T any, U comparable](tr func(iter.Iter[T]) iter.Iter[U], vals []T, end error, info []stream.PInfo) {
	want, wantErr := drain(tr(of(vals, end)))
	got, gotErr := drain(stream.Parallel(tr, info...)(of(vals, end)))
	if end != iter.EOI {
		// All of the source is read before anything is processed.
		wantErr = end
	}
	if wantErr != iter.EOI {
		sym.Reach("error")
		sym.Assert(gotErr == wantErr, "Parallel: another error than the sequential run")
		return
	}
	sym.Assert(gotErr == iter.EOI, "Parallel: an error the sequential run does not give")
	sym.Assert(len(got) == len(want), "Parallel: another number of elements than the sequential run")
	for i := range want {
		sym.Assert(got[i] == want[i], "Parallel: another element than the sequential run")
	}
}

// C19_Map: element-wise transforms, to the same type and to another.
//
//sym:bv
//sym:race
func C19_Map() {
	vals := ints(size(4, 6))
	info := pinfo(5)
	if sym.Choice(2) == 0 {
		same(stream.Map(func(v int) int { return v ^ 5 }), vals, iter.EOI, info)
	} else {
		same(stream.Map(func(v int) int64 { return int64(v) + 1 }), vals, iter.EOI, info)
	}
}

// C19_Filter: transforms that drop elements.
//
//sym:race
func C19_Filter() {
	vals, t := ints(size(4, 5)), sym.Int()
	info := pinfo(5)
	keep := stream.Filter(func(v int) bool { return v > t })
	switch sym.Choice(2) {
	case 0:
		same(keep, vals, iter.EOI, info)
	case 1:
		same(func(it iter.Iter[int]) iter.Iter[string] {
			return stream.Map(func(int) string { return "x" })(keep(it))
		}, vals, iter.EOI, info)
	}
}

// C19_Errors: the error the sequential run ends with, of the source or of the function.
//
//sym:race
func C19_Errors() {
	vals, bad, bad2 := ints(size(4, 5)), sym.Int(), sym.Int()
	end := iter.EOI
	if sym.Choice(2) == 1 {
		end = errSrc
	}
	info := pinfo(3)
	same(stream.MapError(func(v int) (int, error) {
		if v == bad {
			return 0, errFn
		}
		if v == bad2 {
			return 0, errFn2
		}
		return v, nil
	}), vals, end, info)
}

// C19_Once: every element goes to the function exactly once.
//
//sym:race
func C19_Once() {
	n := size(9, 12)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i
	}
	calls := make([]int, n)
	it := stream.Parallel(stream.Map(func(v int) int { calls[v]++; return v }), pinfo(6)...)(of(vals, iter.EOI))
	got, err := drain(it)
	sym.Assert(err == iter.EOI && len(got) == n, "Parallel: number of elements")
	for i, c := range calls {
		sym.Assert(c == 1, "Parallel: an element is not processed exactly once")
		sym.Assert(got[i] == i, "Parallel: order")
	}
}

type (
	ifaceA interface{ A() int }
	ifaceB interface{ B() int }
	both   int
)

func (b both) A() int { return int(b) }
func (b both) B() int { return int(b) }

// C19_Types: interface element types.
//
//sym:race
func C19_Types() {
	n := size(3, 4)
	var vals []ifaceA
	for i := 0; i < n; i++ {
		vals = append(vals, both(sym.Int()))
	}
	same(stream.Map(func(v ifaceA) ifaceB { return v.(both) }), vals, iter.EOI, pinfo(2))
	same(stream.Map(func(v ifaceA) any { return v }), vals, iter.EOI, pinfo(1))
}

// C19_Expand: a transform that gives more elements than it takes.
//
//sym:race
func C19_Expand() {
	n := size(3, 4)
	var vals [][]int
	for i := 0; i < n; i++ {
		vals = append(vals, ints(sym.Choice(3)))
	}
	same(stream.ExpandSlices[int], vals, iter.EOI, pinfo(2))
}

// C19_Long: many elements, two of them free, and work divided in all sorts of ways.
//
//sym:bv
//sym:race
func C19_Long() {
	n := []int{25, 16, 31}[sym.Choice(size(1, 3))]
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i * 3
	}
	vals[sym.Choice(2)*(n-1)], vals[n/2] = sym.Int(), sym.Int()
	var info []stream.PInfo
	if k := sym.Choice(size(7, 9)); k > 0 {
		info = []stream.PInfo{{N: []int{1, 4, 7, n - 1, n, n + 1, 10, 15}[k-1], PUnit: []stream.PUnit{stream.Threads, stream.Items}[sym.Choice(2)]}}
	}
	bad := sym.Choice(3) * (n - 1) / 2 * 3
	switch sym.Choice(3) {
	case 0:
		same(stream.Map(func(v int) int { return v ^ 5 }), vals, iter.EOI, info)
	case 1:
		same(stream.Filter(func(v int) bool { return v&1 == 1 }), vals, iter.EOI, info)
	case 2:
		same(stream.MapError(func(v int) (int64, error) {
			if v == bad {
				return 0, errFn
			}
			return int64(v), nil
		}), vals, iter.EOI, info)
	}
}
