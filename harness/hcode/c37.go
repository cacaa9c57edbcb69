package hcode

import (
	"fmt"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/tuple"
	"verifharness/sym"
)

// C37_Types: every type is a scalar or an aggregate and not both: the scalars are those up to the durations, the
// aggregates those from JSON on.
func C37_Types() {
	t := code.Type(sym.Uint())
	sym.Assert(code.IsScalar(t) != code.IsAggregate(t), "a type is a scalar or an aggregate")
	sym.Assert(code.IsScalar(t) == (t <= code.Type(code.DurationMillis)), "the scalar types are those up to the durations")
	for i, s := range []code.ScalarType{code.Bool, code.Uint, code.Uint8, code.Uint16, code.Uint32, code.Uint64, code.Int,
		code.Int8, code.Int16, code.Int32, code.Int64, code.Float, code.Double, code.String, code.UUID, code.Date,
		code.DateTimeSecs, code.DateTimeMillis, code.DurationDays, code.DurationSecs, code.DurationMillis} {
		sym.Assert(code.IsScalar(code.Type(s)), "scalar types are scalars")
		sym.Assert(int(s) == i, "types are distinct")
	}
	last := code.Type(code.DurationMillis)
	for _, a := range []code.AggregateType{code.JSON, code.Array, code.Enum, code.List, code.Map, code.Maybe, code.Object, code.Set} {
		sym.Assert(code.IsAggregate(code.Type(a)), "aggregate types are aggregates")
		sym.Assert(code.Type(a) > last, "types are distinct")
		last = code.Type(a)
	}
}

// C37_Operators: every operator is exactly one of unary, binary and boolean, as its constant says.
func C37_Operators() {
	op := code.Operator(sym.Uint())
	n := 0
	for _, is := range []bool{op.IsUnary(), op.IsBinary(), op.IsBoolean()} {
		n = sym.Ite(is, n+1, n)
	}
	sym.Assert(n == 1, "an operator is of one kind")
	var last code.Operator
	check := func(op code.Operator, u, b, l bool) {
		sym.Assert(op.IsUnary() == u && op.IsBinary() == b && op.IsBoolean() == l, "an operator is of the kind its constant says")
		sym.Assert(op == 0 || op > last, "operators are distinct")
		last = op
	}
	for _, u := range []code.UnaryOperator{code.Inc, code.Dec, code.Neg, code.BitNot} {
		check(code.Operator(u), true, false, false)
	}
	for _, b := range []code.BinaryOperator{code.Add, code.Sub, code.Mul, code.Div, code.Concat, code.BitAnd, code.BitOr,
		code.BitXor, code.BitShiftLeft, code.BitShiftRight, code.BitShiftRightArithmetic} {
		check(code.Operator(b), false, true, false)
	}
	for _, b := range []code.BooleanOperator{code.Not, code.And, code.Or, code.Lesser, code.LesserEquals, code.Equals,
		code.GreaterEquals, code.Greater, code.Ternary} {
		check(code.Operator(b), false, false, true)
	}
}

// access is an access level given or not.
func access() ([]code.AccessLevel, code.AccessLevel) {
	if sym.Choice(2) == 0 {
		return nil, code.Private
	}
	a := code.AccessLevel(sym.IntIn(int(code.Private), int(code.Public)))
	return []code.AccessLevel{a}, a
}

// is compares a definition with what it was built from.
func is(d *code.TypeDef, t code.Type, a code.AccessLevel, name string, names []string, bounds []uint, key, val *code.TypeDef) {
	sym.Assert(d.Typ == t && d.Access == a, "a definition has its type and access level")
	sym.Assert(d.Name == name, "a definition has its name")
	sym.Assert(len(d.Names) == len(names) && len(d.ArrayBounds) == len(bounds), "a definition has its names and bounds")
	for i := range names {
		sym.Assert(d.Names[i] == names[i], "a definition has its names")
	}
	for i := range bounds {
		sym.Assert(d.ArrayBounds[i] == bounds[i], "a definition has its bounds")
	}
	sym.Assert(d.KeyType.Present() == (key != nil) && d.ValueType.Present() == (val != nil), "a definition has the types it is built from")
	if key != nil {
		sym.Assert(d.KeyType.Get() == key, "a definition has its key type")
	}
	if val != nil {
		sym.Assert(d.ValueType.Get() == val, "a definition has its element type")
	}
}

// C37_TypeDefs: a type definition holds what it was built from.
func C37_TypeDefs() {
	a, want := access()
	s := code.ScalarType(sym.IntIn(0, int(code.DurationMillis)))
	sc := code.OfScalarType(s, a...)
	is(sc, code.Type(s), want, "", nil, nil, nil, nil)
	js := code.OfJSONType(a...)
	is(js, code.Type(code.JSON), want, "", nil, nil, nil, nil)
	name := sym.String(2)
	names := []string{sym.String(1), sym.String(2)}[:1+sym.Choice(2)]
	bounds := []uint{sym.Uint(), sym.Uint()}[:sym.Choice(3)]
	is(code.OfArrayType(sc, bounds, a...), code.Type(code.Array), want, "", nil, bounds, nil, sc)
	is(code.OfEnumType(name, sc, names, a...), code.Type(code.Enum), want, name, names, nil, nil, sc)
	sym.Assert(panics(func() { code.OfEnumType(name, sc, nil, a...) }), "an enumeration has constants")
	is(code.OfListType(js, a...), code.Type(code.List), want, "", nil, nil, nil, js)
	is(code.OfMapType(sc, js, a...), code.Type(code.Map), want, "", nil, nil, sc, js)
	is(code.OfMaybeType(js, a...), code.Type(code.Maybe), want, "", nil, nil, nil, js)
	is(code.OfObjectType(sc, name, names, a...), code.Type(code.Object), want, name, names, nil, nil, sc)
	is(code.OfSetType(js, a...), code.Type(code.Set), want, "", nil, nil, nil, js)
}

// C37_Vals: values and expressions hold what they were built from, and need their operands.
func C37_Vals() {
	td := code.OfJSONType()
	text := sym.String(2)
	v := code.OfLitVal(td, text)
	sym.Assert(v.Kind == code.LitVal && v.Typ == td && v.Value == text && !v.Access.Present(), "a literal holds what it was built from")
	konst := sym.Bool()
	a, want := access()
	w := code.OfVarVal(konst, td, text, a...)
	sym.Assert((w.Kind == code.VarConst) == konst && (w.Kind == code.VarVal) == !konst, "a variable is a constant or not")
	sym.Assert(w.Typ == td && w.Value == text && w.Access.Present() == (len(a) > 0), "a variable holds what it was built from")
	if len(a) > 0 {
		sym.Assert(w.Access.Get() == want, "a variable has its access level")
	}
	sym.Assert(panics(func() { code.OfLitVal(nil, text) }) && panics(func() { code.OfVarVal(konst, nil, text) }), "a value needs a type")

	u := code.UnaryOperator(sym.IntIn(int(code.Inc), int(code.BitNot)))
	e := code.OfUnaryExpr(u, &v)
	sym.Assert(e.Op == code.Operator(u) && e.Val1 == &v && !e.Val2.Present() && !e.Val3.Present(), "a unary expression has one operand")
	b := code.BinaryOperator(sym.IntIn(int(code.Add), int(code.BitShiftRightArithmetic)))
	e = code.OfBinaryExpr(b, &v, &w)
	sym.Assert(e.Op == code.Operator(b) && e.Val1 == &v && e.Val2.Get() == &w && !e.Val3.Present(), "a binary expression has two operands")
	sym.Assert(panics(func() { code.OfUnaryExpr(u, nil) }) && panics(func() { code.OfBinaryExpr(b, nil, &w) }), "an expression needs an operand")

	l := code.BooleanOperator(sym.IntIn(int(code.Not), int(code.Ternary)))
	more := []*code.Val{&w, &v}[:sym.Choice(3)]
	need := 1
	switch l {
	case code.Not:
		need = 0
	case code.Ternary:
		need = 2
	}
	if len(more) < need {
		sym.Assert(panics(func() { code.OfBooleanExpr(l, &v, more...) }), "a boolean expression needs its operands")
		sym.Reach("operand missing")
		return
	}
	e = code.OfBooleanExpr(l, &v, more...)
	sym.Assert(e.Op == code.Operator(l) && e.Val1 == &v, "a boolean expression has its operator and operand")
	sym.Assert(e.Val2.Present() == (need > 0) && e.Val3.Present() == (need > 1), "a boolean expression has the operands its operator takes")
	if need > 0 {
		sym.Assert(e.Val2.Get() == &w, "a boolean expression has its second operand")
	}
	if need > 1 {
		sym.Assert(e.Val3.Get() == &v, "a ternary expression has its third operand")
	}
}

// C37_Tuples: a tuple holds the values it was built from, in order.
func C37_Tuples() {
	a, b, c, d := sym.Int(), sym.String(1), sym.Bool(), sym.Uint8()
	e, f := sym.Int(), sym.Int()
	x, y := tuple.Of2(a, b).Values()
	sym.Assert(x == a && y == b, "a tuple of two holds its values")
	{
		x, y, z := tuple.Of3(a, b, c).Values()
		sym.Assert(x == a && y == b && z == c, "a tuple of three holds its values")
	}
	{
		x, y, z, w := tuple.Of4(a, b, c, d).Values()
		sym.Assert(x == a && y == b && z == c && w == d, "a tuple of four holds its values")
	}
	s2, s3, s4 := tuple.Of2Same(a, e), tuple.Of3Same(a, e, f), tuple.Of4Same(f, e, a, e)
	sym.Assert(s2.T == a && s2.U == e, "a tuple of two holds its values")
	sym.Assert(s3.T == a && s3.U == e && s3.V == f, "a tuple of three holds its values")
	sym.Assert(s4.T == f && s4.U == e && s4.V == a && s4.W == e, "a tuple of four holds its values")
	sym.Assert(tuple.Of2(b, c).String() == fmt.Sprintf("{T: %s, U: %t}", b, c), "the text of a tuple has its values")
	sym.Assert(tuple.Of3(b, c, b).String() == fmt.Sprintf("{T: %s, U: %t, V: %s}", b, c, b), "the text of a tuple has its values")
	sym.Assert(tuple.Of4(b, c, b, c).String() == fmt.Sprintf("{T: %s, U: %t, V: %s, W: %t}", b, c, b, c), "the text of a tuple has its values")
}
