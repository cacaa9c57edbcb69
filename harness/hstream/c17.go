package hstream

import (
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verifharness/sym"
)

// C17_Mapped: over a source that ends normally.
//
//sym:bv
func C17_Mapped() { mapped(iter.EOI) }

// C17_MapError: over a source that ends normally.
func C17_MapError() { mapError(iter.EOI) }

// C17_Filter: over a source that ends normally.
func C17_Filter() { filter(iter.EOI) }

// C17_Peek: over a source that ends normally.
func C17_Peek() { peek(iter.EOI) }

// C17_Reduce: over a source that ends normally.
//
//sym:bv
func C17_Reduce() { reduce(iter.EOI) }

// C17_ReduceTo: over a source that ends normally.
//
//sym:bv
func C17_ReduceTo() { reduceTo(iter.EOI) }

// C17_Match: over a source that ends normally.
func C17_Match() { match(iter.EOI) }

// C17_ToSlice: over a source that ends normally.
func C17_ToSlice() { toSlice(iter.EOI) }

// C17_ExpandSlices: over a source that ends normally.
func C17_ExpandSlices() { expandSlices(iter.EOI) }

// C17_ToMap: over a source that ends normally.
func C17_ToMap() { toMap(iter.EOI) }

// C17_ExpandMaps: over a source that ends normally.
//
//sym:maporder 3
func C17_ExpandMaps() { expandMaps(iter.EOI) }

// C17_SkipLimit: over a source that ends normally.
func C17_SkipLimit() { skipLimit(iter.EOI) }

// C17_Count: over a source that ends normally.
func C17_Count() { count(iter.EOI) }

// C17_Distinct: over a source that ends normally.
func C17_Distinct() { distinct(iter.EOI) }

// C17_Repeated: values that occur often.
func C17_Repeated() { repeated(iter.EOI) }

// C17_Reverse: over a source that ends normally.
func C17_Reverse() { reverse(iter.EOI) }

// C17_Sorted: over a source that ends normally.
func C17_Sorted() { sorted(iter.EOI) }

// C17_MinMax: over a source that ends normally.
func C17_MinMax() { minMax(iter.EOI) }

// C17_Compose: over a source that ends normally.
//
//sym:bv
func C17_Compose() { compose(iter.EOI) }

// C17_Absolute: over a source that ends normally.
func C17_Absolute() { absolute(iter.EOI) }

// C17_Average: over a source that ends normally.
func C17_Average() { average(iter.EOI) }

// C17_Sum: over a source that ends normally.
//
//sym:bv
func C17_Sum() { sum(iter.EOI) }

// C17_BigOps: over a source that ends normally.
func C17_BigOps() { bigOps(iter.EOI) }

// C17_ExpandMapsNil: nil values of interface type.
func C17_ExpandMapsNil() {
	k := sym.Int()
	it := stream.ExpandMaps(iter.OfOne(map[any]any{k: nil}))
	kv, err := it.Next()
	sym.Assert(err == nil && kv.T == any(k) && kv.U == nil, "ExpandMaps: nil value")
	_, err = it.Next()
	sym.Assert(err == iter.EOI, "ExpandMaps: end")
}

// C17_SortComplex: over a source that ends normally.
//
//sym:bv
func C17_SortComplex() { sortComplex(iter.EOI) }

// C17_Long: the same with twenty elements, of which two are arbitrary.
//
//sym:bv
func C17_Long() { longer(iter.EOI) }

// C17_BigFloats: floats of several precisions.
func C17_BigFloats() { bigFloats(size(2, 3), 3, iter.EOI) }

// C17_ManyBigFloats: more floats than a precision of a few bits can count.
func C17_ManyBigFloats() { bigFloats(32, 1, iter.EOI) }

// C17_Averages: over a source that ends normally, for the other element types.
func C17_Averages() { averages(iter.EOI) }

// C17_ElementTypes: over a source that ends normally, for element types other than int.
func C17_ElementTypes() { elementTypes(iter.EOI) }

// C17_FloatTypes: over a source of floats that ends normally.
//
//sym:bv
func C17_FloatTypes() { floatTypes(iter.EOI) }

// C17_Complex64s: over a source that ends normally.
//
//sym:bv
func C17_Complex64s() { complex64s(iter.EOI) }

// C17_CmpFloats: over a source that ends normally.
func C17_CmpFloats() { cmpFloats(iter.EOI) }
