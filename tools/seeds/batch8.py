def T(pkg, imports, body, top=""):
    return "package %s_test\n\nimport (\n%s\n)\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), top, body)
M = "github.com/bantling/micro/"
R = "encoding/json/parse"
H = "\ntype zzh string\n\nfunc (h zzh) Serve(w http.ResponseWriter, r *http.Request, parts []string) {\n\tw.Write([]byte(string(h)))\n}\n"
seeds = [
dict(id="C13-tie", prop="C13", pkg="math",
  edits=[("math/decimal.go", "				if r >= oval-r {", "				if r > oval-r {")],
  test=T("math", [M+"math"], """	if d := math.MustDecimal(999_999_999_999_999_997, 1).MustDiv(math.MustDecimal(2, 0)); d.String() != "49999999999999999.85" && d.String() != "49999999999999999.9" {
		t.Fatal(d)
	}
	if d := math.MustDecimal(333_333_333_333_333_335, 0).MustDiv(math.MustDecimal(2, 0)); d.String() != "166666666666666668" {
		t.Fatal(d)
	}"""),
  needs="a quotient whose first dropped digit is a final five",
  breaks="it is rounded down"),
dict(id="C11-nines-carry", prop="C11", pkg="math",
  edits=[("math/decimal.go", "			if rval > decimalMaxValue {\n				if rscale == 0 {\n					return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, \"*\", o)", "			if rval > decimalMaxValue {\n				if rscale < drop {\n					return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, \"*\", o)")],
  test=T("math", [M+"math"], """	d, err := math.MustDecimal(999_999_999_999_999_999, 15).Mul(math.MustDecimal(999_999_999_999_999_999, 6))
	if err != nil || d.String() == "" {
		t.Fatal(d, err)
	}"""),
  needs="a product that rounds to eighteen nines and one, with few decimals left",
  breaks="an overflow is reported"),
dict(id="C10-round-edge", prop="C10", pkg="math",
  edits=[("math/decimal.go", "		if d2.value < decimalRoundMinValue {", "		if d2.value <= decimalRoundMinValue {")],
  test=T("math", [M+"math"], """	d, err := math.MustDecimal(-999_999_999_999_999_994, 0).Add(math.MustDecimal(15, 1))
	if err != nil || d.String() != "-999999999999999992" {
		t.Fatal(d, err)
	}"""),
  needs="adding a fraction to -999999999999999994",
  breaks="an error is returned"),
dict(id="C27-head", prop="C27", pkg="rest",
  edits=[("rest/rest.go", "			if method == mMethod {", "			if (method == mMethod) || ((method == http.MethodHead) && (mMethod == http.MethodGet)) {")],
  test=T("rest", ["net/http", "net/http/httptest", M+"rest"], """	var sm rest.ServeMux
	sm.MustHandle("GET", "^/a$", zzh("get"))
	sm.MustHandle("HEAD", "^/a$", zzh("head"))
	w := httptest.NewRecorder()
	sm.ServeHTTP(w, httptest.NewRequest("HEAD", "/a", nil))
	if w.Body.String() != "head" {
		t.Fatal(w.Body.String())
	}""", H),
  needs="a HEAD request and a GET handler registered before that for HEAD",
  breaks="the wrong handler serves it"),
dict(id="C27-escaped", prop="C27", pkg="rest",
  edits=[("rest/rest.go", "r.Method, r.URL.Path", "r.Method, r.URL.EscapedPath()")],
  test=T("rest", ["net/http", "net/http/httptest", M+"rest"], """	var sm rest.ServeMux
	sm.MustHandle("GET", "^/a b$", zzh("get"))
	w := httptest.NewRecorder()
	sm.ServeHTTP(w, httptest.NewRequest("GET", "/a%20b", nil))
	if w.Body.String() != "get" {
		t.Fatal(w.Body.String())
	}""", H),
  needs="a path with a character that is escaped",
  breaks="the pattern is matched against the escaped path"),
dict(id="C27-empty-match", prop="C27", pkg="rest",
  edits=[("rest/rest.go", "			urlMatched = true\n", "			urlMatched = urlMatched || (len(parts[0]) > 0)\n")],
  test=T("rest", ["net/http", "net/http/httptest", M+"rest"], """	var sm rest.ServeMux
	sm.MustHandle("GET", "x*", zzh("get"))
	w := httptest.NewRecorder()
	sm.ServeHTTP(w, httptest.NewRequest("PUT", "/a", nil))
	if w.Code != 405 {
		t.Fatal(w.Code)
	}""", H),
  needs="a pattern that matches nothing of the path, and another method",
  breaks="404 instead of 405"),
dict(id="C15-bom", prop="C15", pkg="iter",
  edits=[("iter/gen.go", "		// Valid multiple bytes\n		return r, nil", "		// Valid multiple bytes, a byte order mark is not part of the text\n		if r == '\\uFEFF' {\n			return '\\u2060', nil\n		}\n		return r, nil")],
  test=T("iter", ["strings", M+"iter"], """	r, err := iter.OfReaderAsRunes(strings.NewReader("\\uFEFF")).Next()
	if err != nil || r != 0xfeff {
		t.Fatal(r, err)
	}"""),
  needs="the character U+FEFF",
  breaks="another character is returned"),
dict(id="C16-nel", prop="C16", pkg="iter",
  edits=[("iter/gen.go", "			if codePoint == '\\n' {\n				if lastCR {", "			if (codePoint == '\\n') || (codePoint == '\\u0085') {\n				if lastCR {")],
  test=T("iter", [M+"iter"], """	r, err := iter.OfStringAsLines("a\\u0085b").Next()
	if err != nil || r != "a\\u0085b" {
		t.Fatal(r, err)
	}"""),
  needs="a next line character U+0085",
  breaks="the line ends there"),
dict(id="C21-empty-key", prop="C21", pkg=R,
  edits=[("encoding/json/parse/parse.go", "		if key.typ != tString {", "		if (key.typ != tString) || ((key.value == \"\") && (len(object) > 0)) {")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	v, err := parse.Parse(strings.NewReader(`{"a": 1, "": 2}`))
	if err != nil || len(v.AsMap()) != 2 {
		t.Fatal(v, err)
	}"""),
  needs="an empty key that is not the first of its object",
  breaks="the object is refused"),
dict(id="C28-eol", prop="C28", pkg="io/writer",
  edits=[("io/writer/gen.go", "			valEOL = val + osEOLSequence", "			valEOL = strings.TrimSuffix(val, osEOLSequence) + osEOLSequence"),
         ("io/writer/gen.go", "	\"runtime\"\n", "	\"runtime\"\n	\"strings\"\n")],
  test=T("writer", ["bytes", M+"io/writer"], """	var b bytes.Buffer
	writer.OfIOWriterAsLines(&b).Write("a\\n")
	if b.String() != "a\\n\\n" {
		t.Fatal(b.String())
	}"""),
  needs="a line whose text ends in a line feed",
  breaks="a line feed is lost"),
dict(id="C36-comment", prop="C36", pkg="rest",
  edits=[("iter/gen.go", "		csvRdr.ReuseRecord = true\n", "		csvRdr.ReuseRecord = true\n		csvRdr.Comment = '#'\n")],
  test=T("rest", ["net/http/httptest", "strings", M+"rest"], """	r := httptest.NewRequest("POST", "/", strings.NewReader("#a,b\\n"))
	r.Header.Set("Content-Type", "text/csv")
	row, err := rest.NegotiateCSVContent(r).Next()
	if err != nil || len(row) != 2 || row[0] != "#a" {
		t.Fatal(row, err)
	}"""),
  needs="a row that begins with #",
  breaks="the row is skipped"),
dict(id="C21-depth", prop="C21", pkg=R,
  edits=[("encoding/json/parse/parse.go", "	case tOBracket:\n		it.Unread(tok)\n", "	case tOBracket:\n		it.Unread(tok)\n		it = iter.OfIter(it.Next)\n")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	_, err := parse.Parse(strings.NewReader(`[[1], 2]`))
	if err != nil {
		t.Fatal(err)
	}"""),
  needs="?", breaks="?"),
]
