def T(pkg, imports, body, top=""):
    return "package %s_test\n\nimport (\n%s\n)\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), top, body)
M = "github.com/bantling/micro/"
seeds = [
dict(id="C23-two-digits", prop="C23", pkg="encoding/json",
  edits=[("encoding/json/search.go", "if slc = curValue.AsSlice(); len(slc) > index {", "if slc = curValue.AsSlice(); len(slc) > index && (index < 10 || part10(fullPath)) {"),
         ("encoding/json/search.go", "// lookupsToFunc converts", "// part10 is true unless the path ends in an index of many digits\nfunc part10(path string) bool {\n\treturn (len(path) < 4) || (path[len(path)-4] != '[')\n}\n\n// lookupsToFunc converts")],
  test=T("json", [M+"encoding/json"], """	fn, err := json.ParsePath("[11]")
	if err != nil {
		t.Fatal(err)
	}
	v, err := fn(json.MustToValue([]any{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, "x"}))
	if err != nil || v.AsString() != "x" {
		t.Fatal(v, err)
	}"""),
  needs="an array of more than ten elements and an index of two digits",
  breaks="the element is not found"),
dict(id="C23-null-value", prop="C23", pkg="encoding/json",
  edits=[("encoding/json/search.go", "if v, hasIt := curValue.AsMap()[key]; hasIt {", "if v, hasIt := curValue.AsMap()[key]; hasIt && (v.Type() != Null) {")],
  test=T("json", [M+"encoding/json"], """	fn, err := json.ParsePath(".a")
	if err != nil {
		t.Fatal(err)
	}
	v, err := fn(json.MustToValue(map[string]any{"a": nil}))
	if err != nil || !v.IsNull() {
		t.Fatal(v, err)
	}"""),
  needs="a key whose value is null",
  breaks="the key is said not to exist"),
dict(id="C20-surrogate-escape", prop="C20", pkg="encoding/json/parse",
  edits=[("encoding/json/parse/lex.go", "hexVal = hexVal*16 + val - 'A' + 10", "hexVal = hexVal*16 + (val-'A'+10)&0xe | (val-'A')&1")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	for i := 0; i < 6; i++ {
		if v, err := parse.Parse(strings.NewReader("[\\"\\\\u004"+string(rune('A'+i))+"\\"]")); err != nil || v.AsSlice()[0].AsString() != string(rune(0x4a+i)) {
			t.Fatal(i, v, err)
		}
	}"""),
  needs="an escape that contains particular capital hexadecimal digits",
  breaks="another character is decoded"),
dict(id="C20-minus-zero", prop="C20", pkg="encoding/json/parse",
  edits=[("encoding/json/parse/lex.go", "			if haveDigit {\n				break\n			}\n\n			return die()\n		} else if (val == 'e') || (val == 'E') {", "			if haveDigit && ((!leadingZero) || (len(str) == 2)) {\n				break\n			}\n\n			return die()\n		} else if (val == 'e') || (val == 'E') {")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	if v, err := parse.Parse(strings.NewReader("[-0.5]")); err != nil || v.AsSlice()[0].AsString() != "-0.5" {
		t.Fatal(v, err)
	}"""),
  needs="a negative number between minus one and zero",
  breaks="it is refused"),
dict(id="C20-space-form-feed", prop="C20", pkg="encoding/json/parse",
  edits=[("encoding/json/parse/lex.go", "		} else if (val >= 'a') && (val <= 'z') {", "		} else if (val >= 'a') && (val <= 'z') {")],
  test=T("parse", ["strings", M+"encoding/json/parse"], "t.Skip()"), needs="", breaks=""),
dict(id="C31-empty-inner", prop="C31", pkg="encoding/json",
  edits=[("encoding/json/value.go", "		slc = make([]Value, len(val))\n\n		for i, v := range av.([]any) {", "		slc = make([]Value, len(val))\n\n		for i, v := range av.([]any) {\n			if sub, isa := v.([]any); isa && (len(sub) == 0) {\n				slc[i] = NullValue\n				continue\n			}\n")],
  test=T("json", [M+"encoding/json"], """	v := json.MustToValue([]any{[]any{}})
	if v.AsSlice()[0].Type() != json.Array {
		t.Fatal(v)
	}"""),
  needs="an empty array within an array",
  breaks="it becomes null"),
dict(id="C22-after-null", prop="C22", pkg="encoding/json/write",
  edits=[("encoding/json/write/write.go", "		if i > 0 {\n			if err := dst.Write(','); err != nil {", "		if (i > 0) && ((i < len(jv.AsSlice())-1) || (jv.AsSlice()[i-1].Type() != json.Null)) {\n			if err := dst.Write(','); err != nil {")],
  test=T("write", [M+"encoding/json", M+"encoding/json/write", M+"io/writer"], """	var out []rune
	w := writer.OfSliceWriter(&out)
	if err := write.Write(json.MustToValue([]any{nil, 1}), w); err != nil || string(out) != "[null,1]" {
		t.Fatal(string(out), err)
	}"""),
  needs="an array whose last element follows a null",
  breaks="the comma between the two is left out"),
dict(id="C30-minus-nan", prop="C30", pkg="conv",
  edits=[("conv/float.go", "	if ival == \"NaN\" {\n		*oval = float32(math.NaN())\n		return nil\n	}", "	if (ival == \"NaN\") || (ival == \"-NaN\") {\n		*oval = float32(math.NaN())\n		return nil\n	}")],
  test=T("conv", [M+"conv"], """	var f float32
	if err := conv.StringToFloat32("-NaN", &f); err == nil {
		t.Fatal(f)
	}"""),
  needs="the text -NaN",
  breaks="a text that is no number is accepted"),
dict(id="C05-one-above", prop="C05", pkg="conv",
  edits=[("conv/int.go", "if (ival < 0) || ((intSize > uintSize) && (ival > I(maxUintValue[uintSize]))) {", "if (ival < 0) || ((intSize > uintSize) && (ival-1 > I(maxUintValue[uintSize]))) {")],
  test=T("conv", [M+"conv"], """	var u uint32
	if err := conv.IntToUint(int64(1)<<32, &u); err == nil {
		t.Fatal(u)
	}"""),
  needs="a value exactly one above the range of the target",
  breaks="it becomes zero instead of an error"),
dict(id="C07-negative", prop="C07", pkg="conv",
  edits=[("conv/float.go", "(math.Abs(ival64) > math.MaxFloat32))", "(ival64 > math.MaxFloat32))")],
  test=T("conv", [M+"conv"], """	var f float32
	if err := conv.FloatToFloat(float64(-1e300), &f); err == nil {
		t.Fatal(f)
	}"""),
  needs="a negative number out of the range of the target",
  breaks="it becomes an infinity instead of an error"),
dict(id="C02-even-uint", prop="C02", pkg="math",
  edits=[("math/math.go", "	r, halfdv := de%dv, dv/2\n\n	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round\n	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {\n		*q++", "	r := de % dv\n\n	// Twice the remainder is at least the divisor when the quotient has to be rounded up\n	if (r > 0) && (r*2 >= dv) {\n		*q++")],
  test=T("math", [M+"math"], """	var q uint64
	if err := math.Div(uint64(1<<64-1), uint64(1<<64-2), &q); err != nil || q != 1 {
		t.Fatal(q, err)
	}
	if err := math.Div(uint64(1<<63+5), uint64(1<<64-1), &q); err != nil || q != 1 {
		t.Fatal(q, err)
	}"""),
  needs="a remainder of 2^63 or more",
  breaks="the quotient is not rounded up"),
dict(id="C02-quo-alias", prop="C02", pkg="math",
  edits=[("math/math.go", "			r := big.NewInt(0)\n			qbi.QuoRem(debi, dvbi, r)\n", "			r := big.NewInt(0)\n			qbi.Quo(debi, dvbi)\n			r.Rem(debi, dvbi)\n")],
  test=T("math", ["math/big", M+"math"], """	a := big.NewInt(7)
	if err := math.DivBigOps(a, big.NewInt(4), &a); err != nil || a.Int64() != 2 {
		t.Fatal(a, err)
	}"""),
  needs="a quotient that is stored where the dividend was",
  breaks="the quotient is not rounded"),
dict(id="C28-half-rune", prop="C28", pkg="io/writer",
  edits=[("io/writer/gen.go", "		} else if n < len(p) {\n			return fmt.Errorf(errIORuneWriterMsg, val)", "		} else if n < (len(p)+1)/2 {\n			return fmt.Errorf(errIORuneWriterMsg, val)")],
  test=T("writer", ["bytes", M+"io/writer"], """	w := writer.IOWriterAsRunesGen(half{})
	if err := w('\\u00e9'); err == nil {
		t.Fatal(bytes.MinRead)
	}""", top="\ntype half struct{}\n\nfunc (half) Write(p []byte) (int, error) { return len(p) / 2, nil }\n"),
  needs="a destination that takes half of the bytes of a character without an error",
  breaks="the loss is not reported"),
dict(id="C32-double", prop="C32", pkg="funcs",
  edits=[("funcs/funcs.go", "		if i < lastWord {\n			sb.WriteRune('_')", "		if (i < lastWord) && (len(word) > 1) {\n			sb.WriteRune('_')")],
  test=T("funcs", [M+"funcs"], """	if s := funcs.CamelCaseToSnakeCase("ABc"); s != "a_bc" {
		t.Fatal(s)
	}"""),
  needs="a word of one letter",
  breaks="it is joined to the next word"),
dict(id="C24-flatten-ptr", prop="C24", pkg="funcs",
  edits=[("funcs/funcs.go", "	l := len(slc)\n	for i := 0; i < l/2; i++ {\n		j := l - 1 - i\n", "	l := len(slc)\n	for i := 0; i < (l>>2<<1|l>>1&1); i++ {\n		j := l - 1 - i\n")],
  test=T("funcs", [M+"funcs"], """	s := []int{0, 1, 2, 3, 4, 5, 6, 7}
	funcs.SliceReverse(s)
	for i, v := range s {
		if v != 7-i {
			t.Fatal(s)
		}
	}"""),
  needs="nothing", breaks="nothing"),
dict(id="C25-far-from-end", prop="C25", pkg="funcs",
  edits=[("funcs/funcs.go", "		} else if (index < 0) && ((l + idx) >= 0) {", "		} else if (index < 0) && ((l + idx) >= 0) && (idx > -128) {")],
  test=T("funcs", [M+"funcs"], """	s := make([]int, 200)
	s[0] = 7
	if v := funcs.SliceIndex(s, -200, 9); v != 7 {
		t.Fatal(v)
	}"""),
  needs="a slice of more than 127 elements, indexed from its end",
  breaks="the default is returned"),
dict(id="C33-max-abs", prop="C33", pkg="math",
  edits=[("math/math.go", "	if cmplx.Abs(complex128(val1)) < cmplx.Abs(complex128(val2)) {\n		return val2\n	}\n\n	return val1\n}\n\n// MaxCmp", "	if a, b := complex128(val1), complex128(val2); real(a)*real(a)+imag(a)*imag(a) < real(b)*real(b)+imag(b)*imag(b) {\n		return val2\n	}\n\n	return val1\n}\n\n// MaxCmp")],
  test=T("math", [M+"math"], """	if v := math.MaxComplex(complex(1e-200, 0), complex(2e-200, 0)); v != complex(2e-200, 0) {
		t.Fatal(v)
	}"""),
  needs="numbers whose squares are out of the range of a float64",
  breaks="the smaller one is returned"),
dict(id="C29-cached-zero", prop="C29", pkg="funcs",
  edits=[("funcs/funcs.go", "			isCached, cachedVal = true, supplier()\n", "			cachedVal = supplier()\n			isCached = !reflect.ValueOf(&cachedVal).Elem().IsZero()\n")],
  test=T("funcs", [M+"funcs"], """	n := 0
	f := funcs.SupplierCached(func() int { n++; return 0 })
	f()
	f()
	if n != 1 {
		t.Fatal(n)
	}"""),
  needs="a supplier that returns the zero value",
  breaks="it is called again"),
]
seeds = [s for s in seeds if s["needs"] not in ("", "nothing")]
