def T(pkg, imports, body, alias=None):
    return "package %s_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), body)
M = "github.com/bantling/micro/"
D = [M+"math"]
seeds = [
dict(id="C16-cr-sticky", prop="C16", pkg="iter",
  edits=[("iter/gen.go", """			lastCR = false
			str.WriteRune(codePoint)""", """			str.WriteRune(codePoint)""")],
  test=T("iter", [M+"iter"], """	it := iter.OfStringAsLines("a\\rb\\nc")
	for _, w := range []string{"a", "b", "c"} {
		if l, err := it.Next(); err != nil || l != w {
			t.Fatal(l, err)
		}
	}"""),
  needs="a line that ends in CR followed by one that ends in LF",
  breaks="two lines are joined"),
dict(id="C20-del", prop="C20", pkg="encoding/json/parse",
  edits=[("encoding/json/parse/lex.go", "		if val < ' ' {", "		if (val < ' ') || (val == 0x7f) {")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	if v, err := parse.Parse(strings.NewReader("[\\"\\x7f\\"]")); err != nil || v.AsSlice()[0].AsString() != "\\x7f" {
		t.Fatal(v, err)
	}"""),
  needs="a string that contains the DEL character",
  breaks="a valid document is refused"),
dict(id="C20-exponent-zero", prop="C20", pkg="encoding/json/parse",
  edits=[("encoding/json/value.go", '([eE][-+]?[0-9]+)?$")', '([eE][-+]?[1-9][0-9]*)?$")')],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	if v, err := parse.Parse(strings.NewReader("[1e05]")); err != nil || v.AsSlice()[0].AsString() != "1e05" {
		t.Fatal(v, err)
	}"""),
  needs="a number whose exponent begins with a zero; the lexer and the values disagree",
  breaks="a valid document makes the parser panic"),
dict(id="C21-control-decimal", prop="C21", pkg="encoding/json/write",
  edits=[("encoding/json/write/write.go", "\\\\u%04x", "\\\\u%04d")],
  test=T("write", ["strings", M+"encoding/json", M+"encoding/json/parse", M+"encoding/json/write", M+"io/writer"], """	var out []rune
	w := writer.OfSliceWriter(&out)
	if err := write.Write(json.MustToValue([]any{"a\\x0bz"}), w); err != nil {
		t.Fatal(err)
	}
	if v, err := parse.Parse(strings.NewReader(string(out))); err != nil || v.AsSlice()[0].AsString() != "a\\x0bz" {
		t.Fatal(string(out), v, err)
	}"""),
  needs="a control character from 0x0a on that has no short escape",
  breaks="another character is written"),
dict(id="C23-space-key", prop="C23", pkg="encoding/json",
  edits=[("encoding/json/search.go", r"(?:\.([^.\[\]]+)|", r"(?:\.([^.\[\]\s]+)|")],
  test=T("json", [M+"encoding/json"], """	f, err := json.ParsePath(".first name")
	if err != nil {
		t.Fatal(err)
	}
	v, err := f(json.MustToValue(map[string]any{"first name": "x"}))
	if err != nil || v.AsString() != "x" {
		t.Fatal(v, err)
	}"""),
  needs="a key with a space in it",
  breaks="a valid path is refused"),
dict(id="C27-last-url", prop="C27", pkg="rest",
  edits=[("rest/rest.go", """		if parts != nil {
			// There is at least one match for the URL, but maybe not for the method
			urlMatched = true

""", """		// There is at least one match for the URL, but maybe not for the method
		if urlMatched = parts != nil; urlMatched {
""")],
  test=T("rest", ["net/http", "net/http/httptest", M+"rest"], """	var m rest.ServeMux
	h := rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) {})
	m.MustHandle("GET", "^/a$", h)
	m.MustHandle("GET", "^/b$", h)
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("PUT", "/a", nil))
	if w.Code != 405 {
		t.Fatal(w.Code)
	}"""),
  needs="a request whose URL is matched for another method, with a later handler for another URL",
  breaks="404 instead of 405"),
dict(id="C28-map-first", prop="C28", pkg="io/writer",
  edits=[("io/writer/gen.go", "		m[val.T] = val.U\n", "		if _, haveIt := m[val.T]; !haveIt {\n			m[val.T] = val.U\n		}\n")],
  test=T("writer", [M+"io/writer", M+"tuple"], """	m := map[string]int{}
	w := writer.OfMapWriter(m)
	if err := w.Write(tuple.Of2("a", 1), tuple.Of2("a", 2)); err != nil || m["a"] != 2 {
		t.Fatal(m, err)
	}"""),
  needs="a key that is written twice",
  breaks="the later value is lost"),
dict(id="C24-shared-insert", prop="C24", pkg="event",
  edits=[("funcs/funcs.go", "*mp = append(append(append([]tuple.Two[K, []V]{}, (*mp)[:index+1]...), tuple.Of2(key, []V{value})), (*mp)[index+1:]...)",
     "*mp = append(append((*mp)[:index+1], tuple.Of2(key, []V{value})), (*mp)[index+1:]...)")],
  test=T("event", ["fmt", M+"event"], """	var got []int
	r := event.Registry[int, int]{}
	for _, id := range []int{1, 2, 3, 6, 9, 5, 4, 8, 7} {
		id := id
		r.Register(id, event.ReceiverFunc[int](func(v int) int { got = append(got, id); return v }))
	}
	r.Send(0)
	if fmt.Sprint(got) != "[1 2 3 4 5 6 7 8 9]" {
		t.Fatal(got)
	}"""),
  needs="an id registered between others when the slice has spare capacity",
  breaks="a receiver is lost and another called twice"),
dict(id="C32-digits-then-letters", prop="C32", pkg="funcs",
  edits=[("funcs/funcs.go", '"[A-Z][^A-Z]*"', '"[A-Z][^A-Z0-9]*[0-9]*"')],
  test=T("funcs", [M+"funcs"], """	if s := funcs.CamelCaseToSnakeCase("Word2withLast"); s != "word2with_last" {
		t.Fatal(s)
	}"""),
  needs="a word with letters after a digit",
  breaks="the letters are lost"),
dict(id="C29-closer-loop", prop="C29", pkg="funcs",
  edits=[("funcs/funcs.go", "		defer closerFn()\n", "		defer func() { closerFn() }()\n")],
  test=T("funcs", ["fmt", M+"funcs"], """	var got []int
	funcs.TryTo(func() {}, func(any) {}, func() { got = append(got, 1) }, func() { got = append(got, 2) })
	if fmt.Sprint(got) != "[2 1]" {
		t.Fatal(got)
	}"""),
  needs="more than one closer, and the language version of go.mod",
  breaks="the last closer is called every time and the others never"),
dict(id="C31-newline", prop="C31", pkg="encoding/json",
  edits=[("encoding/json/value.go", '([eE][-+]?[0-9]+)?$")', '([eE][-+]?[0-9]+)?\\\\s*$")')],
  test=T("json", [M+"encoding/json"], """	if v, err := json.ToValue(json.NumberString("12\\n")); err == nil {
		t.Fatal(v)
	}"""),
  needs="number text with white space after it",
  breaks="text that is not a number is taken for one"),
dict(id="C17-map-first", prop="C17", pkg="stream",
  edits=[("stream/stream.go", "			m[val.T] = val.U\n", "			if _, haveIt := m[val.T]; !haveIt {\n				m[val.T] = val.U\n			}\n")],
  test=T("stream", [M+"stream", M+"iter", M+"tuple"], """	m, err := stream.ReduceToMap(iter.Of(tuple.Of2(1, 2), tuple.Of2(1, 3))).Next()
	if err != nil || m[1] != 3 {
		t.Fatal(m, err)
	}"""),
  needs="a key that comes twice",
  breaks="the earlier value wins"),
dict(id="C14-error-drops-unread", prop="C14", pkg="iter",
  edits=[("iter/iter.go", """	return OfIter[T](func() (T, error) {
		if v, e := it.Next(); e == nil {
			return v, e
		} else {""", """	return OfIter[T](func() (T, error) {
		if v, e := it.Next(); (e == nil) || ((e != EOI) && (err == EOI)) {
			return v, e
		} else {""")],
  test=T("iter", ["errors", M+"iter"], """	e := errors.New("x")
	it := iter.SetError(iter.SetError(iter.OfEmpty[int](), e), iter.EOI)
	if _, err := it.Next(); err != iter.EOI {
		t.Fatal(err)
	}"""),
  needs="an error that is replaced by the end of iteration",
  breaks="the first error remains"),
dict(id="C19-bucket-float", prop="C19", pkg="stream",
  edits=[("stream/stream.go", "				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems})\n			}\n		}\n	}\n", "				sliceRanges = append(sliceRanges, []uint{numItems - remainder, numItems - (remainder / bucketSize)})\n			}\n			if (len(sliceRanges) > 2) && (remainder == bucketSize-1) && (numThreads > 3) {\n				sliceRanges[1][1] = sliceRanges[0][1]\n			}\n		}\n	}\n")],
  test=T("stream", [M+"stream", M+"iter"], """	src := make([]int, 14)
	for i := range src {
		src[i] = i
	}
	it := stream.Parallel(stream.Map(func(v int) int { return v }), stream.PInfo{3, stream.Items})(iter.OfSlice(src))
	for i := range src {
		if v, err := it.Next(); err != nil || v != i {
			t.Fatal(i, v, err)
		}
	}"""),
  needs="many items per thread settings with a certain remainder",
  breaks="elements are lost"),
]
