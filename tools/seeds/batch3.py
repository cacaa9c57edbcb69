def T(pkg, imports, body, alias=None):
    return "package %s_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), body)
M = "github.com/bantling/micro/"
seeds = [
dict(id="C20-control", prop="C20", pkg="encoding/json/parse",
  edits=[("encoding/json/parse/lex.go", "		if val < ' ' {", "		if unicode.IsControl(val) {"),
         ("encoding/json/parse/lex.go", """	"unicode/utf16"
""", """	"unicode"
	"unicode/utf16"
""")],
  test=T("parse", ["strings", M+"encoding/json/parse"], """	v, err := parse.Parse(strings.NewReader("[\\"\\u0085\\"]"))
	if err != nil || v.AsSlice()[0].AsString() != "\\u0085" {
		t.Fatal(v, err)
	}"""),
  needs="a string that contains U+007F to U+009F unescaped",
  breaks="a well formed string is rejected"),
dict(id="C16-crlf-lf", prop="C16", pkg="iter",
  edits=[("iter/gen.go", """				if lastCR {
					lastCR = false
					continue
				}
""", """				if lastCR {
					continue
				}
""")],
  test=T("iter", ["strings", M+"iter"], """	it := iter.OfReaderAsLines(strings.NewReader("a\\r\\n\\nb"))
	for _, want := range []string{"a", "", "b"} {
		if got, err := it.Next(); err != nil || got != want {
			t.Fatal(got, err)
		}
	}"""),
  needs="an empty LF line right after a CRLF",
  breaks="the empty line is lost"),
dict(id="C35-type-name", prop="C35", pkg="reflect",
  edits=[("reflect/reflect.go", "	if pt, isa := kindToType[k]; isa && (k.String() != typ.String()) {", "	if pt, isa := kindToType[k]; isa && (k.String() != typ.Name()) {")],
  test="""package reflect_test

import (
	goreflect "reflect"
	"testing"

	"github.com/bantling/micro/reflect"
)

type number = int16

func sub() goreflect.Type {
	type int16 number
	return goreflect.TypeOf(int16(0))
}

func TestZZDemo(t *testing.T) {
	if got := reflect.TypeToBaseType(sub()); got != goreflect.TypeOf(number(0)) {
		t.Fatal(got)
	}
}
""",
  needs="a subtype that has the same name as its underlying type",
  breaks="the subtype is not recognised as one"),
dict(id="C18-expand-error", prop="C18", pkg="stream",
  edits=[("stream/stream.go", """					if err == iter.EOI {
						// Successfully iterated all values - slc shd be nil, but make sure""", """					if (err == iter.EOI) || (idx > 0) {
						// Successfully iterated all values - slc shd be nil, but make sure""")],
  test=T("stream", ["fmt", M+"iter", M+"stream"], """	e := fmt.Errorf("e")
	it := stream.ExpandSlices(iter.SetError(iter.Of([]int{1}), e))
	if v, err := it.Next(); v != 1 || err != nil {
		t.Fatal(v, err)
	}
	if v, err := it.Next(); err != e {
		t.Fatal(v, err)
	}"""),
  needs="a source that fails after a slice was expanded",
  breaks="the error of the source is lost, the stream seems complete"),
dict(id="C37-not-val2", prop="C37", pkg="code",
  edits=[("code/statements.go", """	case Not:
		// Only need one value
""", """	case Not:
		// Only need one value
		val2 = union.First(val23)
""")],
  test=T("code", [M+"code"], """	var v1, v2 code.Val
	if e := code.OfBooleanExpr(code.Not, &v1, &v2); e.Val2.Present() {
		t.Fatal(e)
	}"""),
  needs="a Not expression constructed with an extra value",
  breaks="the extra value is stored, although it is documented as ignored"),
dict(id="C24-remove-first", prop="C24", pkg="event",
  edits=[("event/event.go", "	funcs.OrderedTuple2SliceRemoveUncomparable(&r.receivers, id, rcvr, all...)", """	funcs.OrderedTuple2SliceRemoveUncomparable(&r.receivers, id, rcvr, all...)

	// Nothing left for this id
	if (len(r.receivers) > 0) && (len(r.receivers[0].U) == 0) {
		r.receivers = r.receivers[:len(r.receivers)-1]
	}""")],
  test=T("event", [M+"event"], """	var (
		reg event.Registry[int, string]
		a   = event.ReceiverFunc[string](func(v string) string { return v + "a" })
		b   = event.ReceiverFunc[string](func(v string) string { return v + "b" })
	)
	reg.Register(1, a)
	reg.Register(2, b)
	reg.Remove(1, a)
	if got := reg.Send(""); got != "b" {
		t.Fatal(got)
	}"""),
  needs="the only receiver of the lowest id removed while a higher id has receivers",
  breaks="the receivers of the highest id are dropped"),
dict(id="C15-extra-bytes", prop="C15", pkg="iter",
  edits=[("iter/gen.go", """		for i := 0; i < eb; i++ {
			if buf[i]&0b11_000000 != 0b10_000000 {""", """		for i := 0; i < eb; i++ {
			if buf[i]&0b10_000000 == 0 {""")],
  test=T("iter", ["strings", M+"iter"], """	it := iter.OfReaderAsRunes(strings.NewReader("\\xc3\\xe9"))
	if r, err := it.Next(); err == nil {
		t.Fatal(r)
	}"""),
  needs="a leading byte where a continuation byte must be",
  breaks="invalid UTF-8 is decoded to a rune"),
dict(id="C14-concat-once", prop="C14", pkg="iter",
  edits=[("iter/gen.go", """			iter = nil
			i++
""", """			// Iters that were exhausted are not needed any more
			src[i] = nil
			iter = nil
			i++
""")],
  test=T("iter", [M+"iter"], """	its := []iter.Iter[int]{iter.Of(1), iter.Of(2)}
	it := iter.OfIter(iter.ConcatIterGen(its))
	it.Next()
	it.Next()
	if its[0] == nil {
		t.Fatal("the caller's slice was changed")
	}"""),
  needs="the caller uses its slice of iters after concatenating them",
  breaks="the caller's slice is overwritten"),
]
