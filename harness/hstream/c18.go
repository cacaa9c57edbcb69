package hstream

// C18_Mapped: over a source that fails after any number of elements.
//
//sym:bv
func C18_Mapped() { mapped(errSrc) }

// C18_MapError: over a source that fails after any number of elements.
func C18_MapError() { mapError(errSrc) }

// C18_Filter: over a source that fails after any number of elements.
func C18_Filter() { filter(errSrc) }

// C18_Peek: over a source that fails after any number of elements.
func C18_Peek() { peek(errSrc) }

// C18_Reduce: over a source that fails after any number of elements.
//
//sym:bv
func C18_Reduce() { reduce(errSrc) }

// C18_ReduceTo: over a source that fails after any number of elements.
//
//sym:bv
func C18_ReduceTo() { reduceTo(errSrc) }

// C18_Match: over a source that fails after any number of elements.
func C18_Match() { match(errSrc) }

// C18_ToSlice: over a source that fails after any number of elements.
func C18_ToSlice() { toSlice(errSrc) }

// C18_ExpandSlices: over a source that fails after any number of elements.
func C18_ExpandSlices() { expandSlices(errSrc) }

// C18_ToMap: over a source that fails after any number of elements.
func C18_ToMap() { toMap(errSrc) }

// C18_ExpandMaps: over a source that fails after any number of elements.
//
//sym:maporder 3
func C18_ExpandMaps() { expandMaps(errSrc) }

// C18_SkipLimit: over a source that fails after any number of elements.
func C18_SkipLimit() { skipLimit(errSrc) }

// C18_Count: over a source that fails after any number of elements.
func C18_Count() { count(errSrc) }

// C18_Distinct: over a source that fails after any number of elements.
func C18_Distinct() { distinct(errSrc) }

// C18_Repeated: values that occur often.
func C18_Repeated() { repeated(errSrc) }

// C18_Reverse: over a source that fails after any number of elements.
func C18_Reverse() { reverse(errSrc) }

// C18_Sorted: over a source that fails after any number of elements.
func C18_Sorted() { sorted(errSrc) }

// C18_MinMax: over a source that fails after any number of elements.
func C18_MinMax() { minMax(errSrc) }

// C18_Compose: over a source that fails after any number of elements.
//
//sym:bv
func C18_Compose() { compose(errSrc) }

// C18_Absolute: over a source that fails after any number of elements.
func C18_Absolute() { absolute(errSrc) }

// C18_Average: over a source that fails after any number of elements.
func C18_Average() { average(errSrc) }

// C18_Sum: over a source that fails after any number of elements.
//
//sym:bv
func C18_Sum() { sum(errSrc) }

// C18_BigOps: over a source that fails after any number of elements.
func C18_BigOps() { bigOps(errSrc) }

// C18_SortComplex: over a source that fails after any number of elements.
//
//sym:bv
func C18_SortComplex() { sortComplex(errSrc) }

// C18_Long: the same with twenty elements, of which two are arbitrary.
//
//sym:bv
func C18_Long() { longer(errSrc) }

// C18_BigFloats: over a source that fails.
func C18_BigFloats() { bigFloats(size(2, 3), 3, errSrc) }

// C18_Averages: over a source that fails after any number of elements, for the other element types.
func C18_Averages() { averages(errSrc) }

// C18_ElementTypes: over a source that fails after any number of elements, for element types other than int.
func C18_ElementTypes() { elementTypes(errSrc) }

// C18_FloatTypes: over a source of floats that fails after any number of elements.
//
//sym:bv
func C18_FloatTypes() { floatTypes(errSrc) }

// C18_Complex64s: over a source that fails.
//
//sym:bv
func C18_Complex64s() { complex64s(errSrc) }

// C18_CmpFloats: over a source that fails.
func C18_CmpFloats() { cmpFloats(errSrc) }
