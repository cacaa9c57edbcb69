def T(pkg, imports, body, alias=None):
    return "package %s_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), body)
M = "github.com/bantling/micro/"
D = [M+"math"]
seeds = [
dict(id="C03-float-abs", prop="C03", pkg="math",
  edits=[("math/math.go", """			i := t.(*int64)
			if *i < 0 {
				if *i = -*i; *i < 0 {
""", """			i := t.(*int64)
			if *i < 0 {
				if *i = int64(math.Abs(float64(*i))); *i < 0 {
""")],
  test=T("math", D, """	i := int64(-9007199254740993)
	if err := math.Abs(&i); err != nil || i != 9007199254740993 {
		t.Fatal(i, err)
	}"""),
  needs="an int64 of more than 53 bits",
  breaks="the absolute value is rounded"),
dict(id="C06-uint-high", prop="C06", pkg="conv",
  edits=[("conv/float.go", "	if ival != I(inter) {", "	if int64(ival) != int64(inter) {")],
  test=T("conv", [M+"conv"], """	var f float64
	if err := conv.IntToFloat(uint64(1)<<63|1<<40, &f); err != nil || f != 1<<63+1<<40 {
		t.Fatal(f, err)
	}"""),
  needs="a uint64 above 2^63 that is a float64",
  breaks="a representable integer is refused"),
dict(id="C07-minprec", prop="C07", pkg="conv",
  edits=[("conv/float.go", """	if *oval, acc = ival.Float64(); acc != big.Exact {
		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%.f", ival), "float64")""", """	if *oval, acc = ival.Float64(); (acc != big.Exact) && (ival.MinPrec() > 53) {
		return fmt.Errorf(errMsg, ival, fmt.Sprintf("%.f", ival), "float64")""")],
  test=T("conv", ["math/big", M+"conv"], """	var f float64
	if err := conv.BigFloatToFloat64(new(big.Float).SetMantExp(big.NewFloat(3), -1075), &f); err == nil {
		t.Fatal(f)
	}"""),
  needs="a *big.Float of few bits whose exponent is not that of a float64",
  breaks="the float is rounded, to zero or to infinity, silently"),
dict(id="C09-normalize-step", prop="C09", pkg="math",
  edits=[("math/decimal.go", """		for q, r := v/10, v%10; (s > 0) && (r == 0); q, r = q/10, q%10 {""", """		// Remove the zeros of whole numbers all at once
		for (s >= 6) && (v%1_000_000 == 0) {
			v, s = v/1_000_000, s-5
		}

		for q, r := v/10, v%10; (s > 0) && (r == 0); q, r = q/10, q%10 {""")],
  test=T("math", D, """	if d := math.MustDecimal(1_000_000, 6); d.String() != "1" {
		t.Fatal(d)
	}"""),
  needs="at least six digits after the point, all of them zero",
  breaks="normalising multiplies the number by a tenth"),
dict(id="C10-min-sum", prop="C10", pkg="math",
  edits=[("math/decimal.go", "		} else if r.value < decimalMinValue {", "		} else if r.value <= decimalMinValue {")],
  test=T("math", D, """	d, err := math.MustDecimal(-999_999_999_999_999_998, 0).Add(math.MustDecimal(-1, 0))
	if err != nil || d.String() != "-999999999999999999" {
		t.Fatal(d, err)
	}"""),
  needs="a sum that is the least decimal",
  breaks="a sum that fits is an error"),
dict(id="C11-minus-one", prop="C11", pkg="math",
  edits=[("math/decimal.go", """		rscale = d.scale + o.scale
	)
""", """		rscale = d.scale + o.scale
	)

	// Nothing to do for a multiple of one
	if (oval == -1) && (o.scale == 0) && (dval < 0) {
		return d.Negate(), nil
	} else if (dval == -1) && (oval < 0) {
		return o.Negate(), nil
	}
""")],
  test=T("math", D, """	d, err := math.MustDecimal(-1, 1).Mul(math.MustDecimal(-5, 0))
	if err != nil || d.String() != "0.5" {
		t.Fatal(d, err)
	}"""),
  needs="a first factor of digit 1, negative and with decimals, and a negative second one",
  breaks="the scale of the first factor is ignored"),
dict(id="C12-by-ten", prop="C12", pkg="math",
  edits=[("math/decimal.go", """	// Divide d by o, and set to d scale
""", """	// Ten only moves the decimal point
	if (o == 10) && (d.scale > 0) {
		return Decimal{scale: d.scale + 1, value: d.value, denormalized: d.denormalized}, Decimal{scale: d.scale, denormalized: d.denormalized}, nil
	}

	// Divide d by o, and set to d scale
""")],
  test=T("math", D, """	parts, err := math.MustDecimal(12345, 2).DivIntAdd(10)
	if err != nil {
		t.Fatal(err)
	}
	sum := math.MustDecimal(0, 0)
	for _, p := range parts {
		sum = sum.MustAdd(p)
	}
	if sum.String() != "123.45" {
		t.Fatal(sum)
	}"""),
  needs="a decimal with digits after the point distributed over ten parts",
  breaks="the parts do not add up to the dividend"),
dict(id="C13-same-digits", prop="C13", pkg="math",
  edits=[("math/decimal.go", """	// Start with plain old division
	q := dval / oval
""", """	// A number divided by itself
	if (dval == oval) && (dpos == opos) {
		return Decimal{value: 1, denormalized: d.denormalized}, nil
	}

	// Start with plain old division
	q := dval / oval
""")],
  test=T("math", D, """	d, err := math.MustDecimal(123, 2).Div(math.MustDecimal(123, 1))
	if err != nil || d.String() != "0.1" {
		t.Fatal(d, err)
	}"""),
  needs="operands of the same digits and sign and different scales",
  breaks="the quotient is 1"),
dict(id="C33-squared", prop="C33", pkg="math",
  edits=[("math/math.go", """		abs1 = cmplx.Abs(complex128(val1))
		abs2 = cmplx.Abs(complex128(val2))
	)
	if abs1""", """		// No need for square roots to compare
		sqr  = func(c complex128) float64 { return real(c)*real(c) + imag(c)*imag(c) }
		abs1 = sqr(complex128(val1))
		abs2 = sqr(complex128(val2))
	)
	if abs1""")],
  test=T("math", D, """	if r := math.CmpComplex(complex(1e-200, 0), complex(2e-200, 0)); r != -1 {
		t.Fatal(r)
	}"""),
  needs="complex numbers whose squares are out of range",
  breaks="different magnitudes compare as equal"),
dict(id="C08-zeros", prop="C08", pkg="math",
  edits=[("math/decimal.go", """		str = "0." + strings.Repeat("0", int(d.scale-numSig)) + str""", """		str = "0." + "0000000000000000"[:d.scale-numSig] + str""")],
  test=T("math", D, """	if s := math.MustDecimal(1, 18).String(); s != "0.000000000000000001" {
		t.Fatal(s)
	}"""),
  needs="one digit at scale 18",
  breaks="making the text panics"),
dict(id="C31-null-dropped", prop="C31", pkg="encoding/json",
  edits=[("encoding/json/value.go", """	for k, v := range jv.val.T() {
		m[k] = v.ToAny()
	}""", """	for k, v := range jv.val.T() {
		if a := v.ToAny(); a != nil {
			m[k] = a
		}
	}""")],
  test=T("json", [M+"encoding/json"], """	v := json.MustMapToValue(map[string]any{"a": nil})
	if m := v.ToMap(); len(m) != 1 {
		t.Fatal(m)
	}"""),
  needs="an object with a null",
  breaks="the key is lost on the way back"),
]
