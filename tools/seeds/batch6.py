def T(pkg, imports, body, top=""):
    return "package %s_test\n\nimport (\n%s\n)\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), top, body)
M = "github.com/bantling/micro/"
seeds = [
dict(id="C17-map-first", prop="C17", pkg="stream",
  edits=[("stream/stream.go", "\t\t\tm[kv.T] = kv.U\n", "\t\t\tif _, have := m[kv.T]; !have {\n\t\t\t\tm[kv.T] = kv.U\n\t\t\t}\n")],
  test=T("stream", [M+"iter", M+"stream", M+"tuple"], """	m, err := stream.ReduceToMap(iter.Of(tuple.Of2("a", 1), tuple.Of2("a", 2))).Next()
	if err != nil || m["a"] != 2 {
		t.Fatal(m, err)
	}"""),
  needs="two tuples with the same key",
  breaks="the first tuple with a key determines the value instead of the last"),
dict(id="C17-max-tie", prop="C17", pkg="stream",
  edits=[("stream/stream.go", """			return funcs.Ternary(a < b, a, b)
		},
	)(it)
}

// MaxCmp""", """			return funcs.Ternary((a < b) || (a == a+a), a, b)
		},
	)(it)
}

// MaxCmp""")],
  test=T("stream", [M+"iter", M+"stream"], """	if v, err := stream.Min(iter.Of(3, 0, -1)).Next(); err != nil || v != -1 {
		t.Fatal(v, err)
	}"""),
  needs="a zero that is followed by a negative number",
  breaks="zero is taken for the minimum"),
dict(id="C17-abs-min", prop="C17", pkg="stream",
  edits=[("stream/stream.go", "if v = -v; v < 0 {", "if v = -v; v == v-1 {")],
  test=T("stream", ["math", M+"iter", M+"stream"], """	if v, err := stream.Abs(iter.Of(int8(math.MinInt8))).Next(); err == nil {
		t.Fatal(v, err)
	}"""),
  needs="the smallest value of a signed type",
  breaks="the absolute value is negative instead of an error"),
dict(id="C18-skip-again", prop="C18", pkg="stream",
  edits=[("stream/stream.go", "\t\t\t\t\t// Reached end or problem\n\t\t\t\t\tskip = 0\n\t\t\t\t\treturn zv, err", "\t\t\t\t\t// Reached end or problem\n\t\t\t\t\tif err == iter.EOI {\n\t\t\t\t\t\tskip = 0\n\t\t\t\t\t\treturn zv, err\n\t\t\t\t\t}\n\t\t\t\t\tskip--\n\t\t\t\t\tcontinue")],
  test=T("stream", ["errors", M+"iter", M+"stream"], """	bad := errors.New("bad")
	n := 0
	it := stream.Skip[int](2)(iter.OfIter(func() (int, error) {
		if n++; n < 2 {
			return 0, bad
		}
		if n > 5 {
			return 0, iter.EOI
		}
		return n, nil
	}))
	if v, err := it.Next(); err != bad {
		t.Fatal(v, err)
	}"""),
  needs="an error among the skipped elements",
  breaks="the error is swallowed"),
dict(id="C18-duplicate-third", prop="C18", pkg="stream",
  edits=[("stream/stream.go", "\t\t\tif count < 3 {\n", "\t\t\tif count < 2 {\n")],
  test=T("stream", [M+"iter", M+"stream"], """	s, err := stream.ReduceToSlice(stream.Duplicate(iter.Of(1, 1, 1))).Next()
	if err != nil || len(s) != 1 {
		t.Fatal(s, err)
	}"""),
  needs="an element that occurs three times",
  breaks="it is a duplicate twice"),
dict(id="C18-limit-err", prop="C18", pkg="stream",
  edits=[("stream/stream.go", "\t\t\t\t// Try to get next value that is within the limit\n\t\t\t\tval, err = it.Next()\n", "\t\t\t\t// Try to get next value that is within the limit\n\t\t\t\tif limit == 1 {\n\t\t\t\t\tdefer it.Next()\n\t\t\t\t}\n\t\t\t\tval, err = it.Next()\n")],
  test=T("stream", [M+"iter", M+"stream"], """	n := 0
	it := stream.Limit[int](1)(iter.OfIter(func() (int, error) {
		n++
		return n, nil
	}))
	if v, err := it.Next(); err != nil || v != 1 || n != 1 {
		t.Fatal(v, err, n)
	}"""),
  needs="someone who reads on in the source after the limit is reached",
  breaks="one more element than the limit is taken from the source"),
dict(id="C19-error-last", prop="C19", pkg="stream",
  edits=[("stream/stream.go", """			if e != nil {
				err = e
				break
			}
		}

		return funcs.Ternary(err == nil, ExpandSlices""", """			if err = e; err == nil {
				break
			}
		}

		return funcs.Ternary(err == nil, ExpandSlices""")],
  test=T("stream", ["errors", M+"iter", M+"stream"], """	bad := errors.New("bad")
	it := stream.Parallel(stream.MapError(func(i int) (int, error) {
		if i == 4 {
			return 0, bad
		}
		return i, nil
	}), stream.PInfo{N: 4, PUnit: stream.Threads})(iter.Of(1, 2, 3, 4))
	for i := 0; i < 5; i++ {
		if _, err := it.Next(); err == bad {
			return
		}
	}
	t.Fatal("no error")"""),
  needs="an error in a thread other than the first",
  breaks="the error is lost"),
dict(id="C26-first-last", prop="C26", pkg="union",
  edits=[("union/union.go", "\t\tm.Set(slc[0])\n", "\t\tm.Set(slc[len(slc)-1])\n")],
  test=T("union", [M+"union"], """	if m := union.First([]int{1, 2}); m.Get() != 1 {
		t.Fatal(m)
	}"""),
  needs="a slice of two or more elements",
  breaks="the Maybe holds the last element"),
dict(id="C26-iszero-type", prop="C26", pkg="union",
  edits=[("union/union.go", "if !goreflect.ValueOf(&r).Elem().IsZero() {", "if v := goreflect.ValueOf(r); v.IsValid() && !v.IsZero() {")],
  test=T("union", ["errors", M+"union"], """	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	union.OfResultError[any](0, errors.New("bad"))"""),
  needs="a result of interface type that holds the zero of another type",
  breaks="a value and an error are accepted together"),
dict(id="C37-var-const", prop="C37", pkg="code",
  edits=[("code/statements.go", "\t\tval2 = union.Present(val23[0])\n\t\tval3 = union.Present(val23[1])\n", "\t\tval2 = union.Present(val23[0])\n\t\tval3 = union.Present(val23[len(val23)-1])\n")],
  test=T("code", [M+"code"], """	v := func(s string) *code.Val {
		r := code.OfLitVal(code.OfScalarType(code.Int), s)
		return &r
	}
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	code.OfBooleanExpr(code.Ternary, v("1"), v("2"))"""),
  needs="a ternary expression with only two values",
  breaks="it is accepted and the second value is used twice"),
dict(id="C36-gzip-any", prop="C36", pkg="rest",
  edits=[("rest/content.go", "if r.Header.Get(contentType) == jsonContent {", "if ct := r.Header.Get(contentType); (ct == jsonContent) || ((ct != csvContent) && (r.Header.Get(\"Accept\") == jsonContent)) {")],
  test=T("rest", ["net/http", "strings", M+"rest"], """	r, _ := http.NewRequest("POST", "/", strings.NewReader("{}"))
	r.Header.Set("Accept", "application/json")
	if it := rest.NegotiateJSONContent(r); it != nil {
		t.Fatal("not JSON")
	}"""),
  needs="a request that accepts JSON but has content of another type",
  breaks="the content is taken for JSON"),
dict(id="C35-base-ptr", prop="C35", pkg="reflect",
  edits=[("reflect/reflect.go", "return ((knd >= goreflect.Int) && (knd <= goreflect.Float64) && (knd != goreflect.Uintptr)) || IsBigPtr(typ)", "return ((knd >= goreflect.Int) && (knd <= goreflect.Float64)) || IsBigPtr(typ)")],
  test=T("reflect", ["goreflect \"reflect\"", M+"reflect"], """	if reflect.IsNumeric(goreflect.TypeOf(uintptr(0))) {
		t.Fatal("uintptr")
	}"""),
  needs="the type uintptr",
  breaks="it counts as numeric"),
dict(id="C35-max-one", prop="C35", pkg="reflect",
  edits=[("reflect/reflect.go", "		if res.IsNil() && (res.Type().Elem().Kind() == goreflect.Pointer) {", "		if (res == val) && res.IsNil() && (res.Type().Elem().Kind() == goreflect.Pointer) {")],
  test=T("reflect", ["goreflect \"reflect\"", M+"reflect"], """	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	var p2 **int
	p3 := &p2
	if reflect.DerefValueMaxOnePtr(goreflect.ValueOf(p3)).IsValid() {
		t.Fatal("valid")
	}"""),
  needs="a nil pointer to a pointer inside a pointer",
  breaks="a valid value is returned"),
dict(id="C34-src-twice", prop="C34", pkg="code",
  edits=[("code/api.go", "\tfuncs.Map2Set(&bg.srcs, bg.currentDir, name, true)\n", "\tfuncs.Map2Set(&bg.srcs, bg.currentDir, path, true)\n")],
  test=T("code", ["os", M+"code"], """	base := t.TempDir() + "/gen"
	var g code.BaseGenerator
	g.SetBasePath(base)
	g.Dir("a")
	g.Src("x.go")
	if err := os.WriteFile(base+"/a/x.go", []byte("x"), 0o600); err != nil {
		t.Fatal(err)
	}
	defer func() {
		recover()
		if b, _ := os.ReadFile(base + "/a/x.go"); string(b) != "x" {
			t.Fatal("overwritten")
		}
	}()
	g.Src("x.go")"""),
  needs="the same source file generated twice",
  breaks="the second overwrites the first"),
dict(id="C25-readd", prop="C25", pkg="event",
  edits=[("event/event.go", """		for _, rcvr := range idRcvrs.U {
			val = rcvr.Process(val)
		}""", """		for i := range idRcvrs.U {
			val = idRcvrs.U[len(idRcvrs.U)-1-i].Process(val)
		}""")],
  test=T("event", [M+"event"], """	var r event.Registry[int, string]
	add := func(s string) event.ReceiverFunc[string] { return func(v string) string { return v + s } }
	r.Register(1, add("a"))
	r.Register(1, add("b"))
	if v := r.Send(""); v != "ab" {
		t.Fatal(v)
	}"""),
  needs="two receivers with one id",
  breaks="the receivers of an id run in the reverse of the order they were registered in"),
]
