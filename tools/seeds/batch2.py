def T(pkg, imports, body, alias=None):
    return "package %s_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), body)
M = "github.com/bantling/micro/"
seeds = [
dict(id="C05-uint-neg", prop="C05", pkg="conv",
  edits=[("conv/int.go", """	if (uintSize >= intSize) && (ival > U(maxIntValue[intSize])) {""", """	if (uintSize >= intSize) && (I(ival) < 0) {""")],
  test=T("conv", [M+"conv"], """	var o int8
	if err := conv.UintToInt(uint16(0x80), &o); err == nil {
		t.Fatal(o)
	}
	if err := conv.UintToInt(uint16(256), &o); err == nil {
		t.Fatal(o)
	}"""),
  needs="a source wider than the target whose low bits are non-negative in the target type",
  breaks="uint16 256 converts to int8 0 with success"),
dict(id="C29-cached-zero", prop="C29", pkg="funcs",
  edits=[("funcs/funcs.go", """		if !isCached {
			isCached, cachedVal = true, supplier()
		}""", """		if !isCached {
			cachedVal = supplier()
			isCached = !reflect.ValueOf(&cachedVal).Elem().IsZero()
		}""")],
  test=T("funcs", [M+"funcs"], """	n := 0
	s := funcs.SupplierCached(func() int { n++; return n - 1 })
	if s() != 0 || s() != 0 || n != 1 {
		t.Fatal(n)
	}"""),
  needs="a supplier whose result is the zero value of its type",
  breaks="the supplier is invoked again and a different value is returned"),
dict(id="C19-last-error", prop="C19", pkg="stream",
  edits=[("stream/stream.go", """			if e != nil {
				err = e
				break
			}
		}

		return funcs.Ternary""", """			if e != nil {
				err = e
			}
		}

		return funcs.Ternary""")],
  test=T("stream", ["fmt", M+"iter", M+"stream"], """	fn := stream.MapError(func(i int) (int, error) {
		if i > 1 {
			return 0, fmt.Errorf("%d", i)
		}
		return i, nil
	})
	_, err := stream.Parallel(fn, stream.PInfo{3, stream.Threads})(iter.Of(1, 2, 3)).Next()
	if err == nil || err.Error() != "2" {
		t.Fatal(err)
	}"""),
  needs="two buckets that fail with different errors",
  breaks="the error of a later element is returned instead of the first one"),
dict(id="C25-remove-inplace", prop="C25", pkg="funcs",
  edits=[("funcs/funcs.go", """	newSlc := []T{}
	for _, t := range slc {
		if t != val {""", """	newSlc := slc[:0]
	for _, t := range slc {
		if t != val {""")],
  test=T("funcs", ["reflect", M+"funcs"], """	slc := []int{1, 2, 1, 3}
	if got := funcs.SliceRemove(slc, 1, true); !reflect.DeepEqual(got, []int{2, 3}) || !reflect.DeepEqual(slc, []int{1, 2, 1, 3}) {
		t.Fatal(got, slc)
	}"""),
  needs="the caller looks at the slice it passed after removing all occurrences of a value that is not only at the end",
  breaks="the argument slice is overwritten"),
dict(id="C21-dup-null", prop="C21", pkg="encoding/json/parse",
  edits=[("encoding/json/parse/parse.go", "		if _, haveIt := object[key.value]; haveIt {", "		if v := object[key.value]; (v.Type() != json.Invalid) && (!v.IsNull()) {")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	if v, err := parse.Parse(strings.NewReader(`{"a":null,"a":1}`)); err == nil {
		t.Fatal(v)
	}"""),
  needs="an object with a repeated key whose first value is null",
  breaks="the duplicate key is accepted"),
dict(id="C22-brace-error", prop="C22", pkg="encoding/json/write",
  edits=[("encoding/json/write/write.go", "	return dst.Write('}')", """	dst.Write('}')
	return nil""")],
  test=T("write", ["fmt", M+"encoding/json", M+"encoding/json/write", M+"io/writer"], """	n := 0
	w := writer.NewWriter(func(r rune) error {
		if n++; n == 2 {
			return fmt.Errorf("full")
		}
		return nil
	})
	if write.Write(json.MustMapToValue(map[string]any{}), w) == nil {
		t.Fatal("no error")
	}"""),
  needs="a writer that fails exactly at the closing brace of an object",
  breaks="a truncated document is reported as written"),
dict(id="C23-null-absent", prop="C23", pkg="encoding/json",
  edits=[("encoding/json/search.go", "				if v, hasIt := curValue.AsMap()[key]; hasIt {", "				if v := curValue.AsMap()[key]; v.ToAny() != nil {")],
  test=T("json", [M+"encoding/json"], """	fn, _ := json.ParsePath(".a")
	v, err := fn(json.MustMapToValue(map[string]any{"a": nil}))
	if err != nil || !v.IsNull() {
		t.Fatal(v, err)
	}"""),
  needs="a path that addresses a key whose value is null",
  breaks="a present element is reported as not found"),
dict(id="C26-orelse-zero", prop="C26", pkg="union",
  edits=[("union/union.go", "	return funcs.Ternary(m.present, m.v, elseVal)", "	return funcs.Ternary(m.present && !goreflect.ValueOf(&m.v).Elem().IsZero(), m.v, elseVal)")],
  test=T("union", [M+"union"], """	if union.Of(0).OrElse(5) != 0 {
		t.Fatal()
	}"""),
  needs="a present Maybe that holds the zero value",
  breaks="the else value is returned although a value is present"),
dict(id="C27-fold-method", prop="C27", pkg="rest",
  edits=[("rest/rest.go", "			if method == mMethod {", "			if strings.EqualFold(method, mMethod) {"), ("rest/rest.go", """	"regexp"
""", """	"regexp"
	"strings"
""")],
  test=T("rest", ["net/http", "net/http/httptest", M+"rest"], """	var sm rest.ServeMux
	sm.MustHandle("get", "/a", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, p []string) {}))
	w := httptest.NewRecorder()
	sm.ServeHTTP(w, httptest.NewRequest("GET", "/a", nil))
	if w.Code != http.StatusMethodNotAllowed {
		t.Fatal(w.Code)
	}"""),
  needs="a method that differs only by letter case",
  breaks="a handler is called for a method it was not registered for"),
dict(id="C28-short-write", prop="C28", pkg="io/writer",
  edits=[("io/writer/gen.go", """		} else if n < len(p) {
			return fmt.Errorf(errIORuneWriterMsg, val)""", """		} else if n == 0 {
			return fmt.Errorf(errIORuneWriterMsg, val)""")],
  test=T("writer", ["fmt", "io", M+"io/writer", "mio \"" + M + "io\""], """	var _ io.Writer
	w := writer.OfIOWriterAsRunes(mio.NewErrorWriter(1, fmt.Errorf("e")))
	if w.Write('é') == nil {
		t.Fatal("no error")
	}"""),
  needs="a writer that accepts some but not all of the bytes of a multi byte rune",
  breaks="a partly written rune is reported as written"),
dict(id="C33-complex-real", prop="C33", pkg="math",
  edits=[("math/math.go", """	if cmplx.Abs(complex128(val1)) < cmplx.Abs(complex128(val2)) {
		return val2
	}""", """	if MinComplex(val1, val2) == val1 {
		return val2
	}""")],
  test=T("math", [M+"math"], """	if m := math.MaxComplex(complex(3, 4), complex(4, 3)); m != complex(3, 4) {
		t.Fatal(m)
	}"""),
  needs="two different complex values of the same magnitude",
  breaks="the maximum no longer keeps the first of two equal values"),
dict(id="C36-prefix", prop="C36", pkg="rest",
  edits=[("rest/content.go", "	if r.Header.Get(contentType) == csvContent {", "	if strings.HasPrefix(r.Header.Get(contentType), csvContent) {"), ("rest/content.go", """	"net/http"
""", """	"net/http"
	"strings"
""")],
  test=T("rest", ["net/http/httptest", "strings", M+"rest"], """	r := httptest.NewRequest("POST", "/", strings.NewReader("a,b"))
	r.Header.Set("Content-Type", "text/csv-schema")
	if rest.NegotiateCSVContent(r) != nil {
		t.Fatal("not csv")
	}"""),
  needs="a content type that only starts with text/csv",
  breaks="a body of another type is read as CSV"),
dict(id="C30-bitlen", prop="C30", pkg="conv",
  edits=[("conv/int.go", "	if (!ival.IsInt()) || (!ival.Num().IsInt64()) {", "	if (!ival.IsInt()) || (ival.Num().BitLen() > 64) {")],
  test=T("conv", ["math/big", M+"conv"], """	var o int64
	if err := conv.BigRatToInt64(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63)), &o); err == nil {
		t.Fatal(o)
	}"""),
  needs="an integer ratio of exactly 64 bits",
  breaks="a ratio outside of the range of an int64 is converted with success"),
dict(id="C01-sum-zero", prop="C01", pkg="math",
  edits=[("math/math.go", """	sign1, sign2 := ae1 >= 0, *ae2 >= 0
	*ae2 += ae1
	newSign := *ae2 >= 0

	if (sign1 == sign2)""", """	sign1, sign2 := ae1 > 0, *ae2 > 0
	*ae2 += ae1
	newSign := *ae2 > 0

	if (sign1 == sign2)""")],
  test=T("math", ["gomath \"math\"", M+"math"], """	v := int64(gomath.MinInt64)
	if math.AddInt(int64(gomath.MinInt64), &v) == nil {
		t.Fatal(v)
	}"""),
  needs="the minimum value added to itself",
  breaks="the sum wraps to zero with success"),
dict(id="C04-nan", prop="C04", pkg="math",
  edits=[("math/range.go", """	if (((r.minMode == Open) && (val > r.min)) || ((r.minMode == Closed) && (val >= r.min))) &&
		(((r.maxMode == Open) && (val < r.max)) || ((r.maxMode == Closed) && (val <= r.max))) {
		r.val = val
		return nil
	}
""", """	var (
		tooSmall = (val < r.min) || ((r.minMode == Open) && (val == r.min))
		tooLarge = (val > r.max) || ((r.maxMode == Open) && (val == r.max))
	)
	if !(tooSmall || tooLarge) {
		r.val = val
		return nil
	}
""")],
  test=T("math", ["gomath \"math\"", M+"math"], """	r := math.OfRange(1.0, math.Closed, 2.0, math.Closed, 1.5)
	if r.SetValue(gomath.NaN()) == nil {
		t.Fatal(r.GetValue())
	}"""),
  needs="a NaN set as the value of a float range",
  breaks="a value that is not within the bounds is stored"),
dict(id="C34-dir-key", prop="C34", pkg="code",
  edits=[("code/api.go", "	if _, haveIt := bg.dirs[dirPath]; haveIt {", "	if _, haveIt := bg.dirs[name]; haveIt {"),
         ("code/api.go", "	bg.dirs[dirPath] = true", "	bg.dirs[name] = true")],
  test=T("code", [M+"code"], """	base := t.TempDir() + "/base"
	var bg code.BaseGenerator
	bg.SetBasePath(base)
	bg.Dir("a")
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	bg.Dir("./a")"""),
  needs="the same directory given by two different spellings",
  breaks="a directory is generated twice"),
dict(id="C38-must-write", prop="C38", pkg="encoding/json/write",
  edits=[("encoding/json/write/write.go", """func MustWriteArray(jv json.Value, dst writer.Writer[rune]) {
	funcs.Must(WriteArray(jv, dst))""", """func MustWriteArray(jv json.Value, dst writer.Writer[rune]) {
	funcs.Must(Write(jv, dst))""")],
  test=T("write", [M+"encoding/json", M+"encoding/json/write", M+"io/writer"], """	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	var dst []rune
	write.MustWriteArray(json.StringToValue("a"), writer.OfSliceWriter(&dst))"""),
  needs="a value that is not an array", breaks="the must variant succeeds where the plain function panics"),
]
