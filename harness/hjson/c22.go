package hjson

import (
	"errors"
	"strings"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	"verifharness/sym"
)

var errWrite = errors.New("write failed")

// sink collects runes, and fails when it has limit of them.
type sink struct {
	out    []rune
	limit  int
	failed bool
}

func (s *sink) put(r rune) error {
	sym.Assert(!s.failed, "a failed writer is written to again")
	if len(s.out) == s.limit {
		s.failed = true
		return errWrite
	}
	s.out = append(s.out, r)
	return nil
}

// Write makes a sink a writer of its own: it accepts all of vals or none.
func (s *sink) Write(vals ...rune) error {
	sym.Assert(!s.failed, "a failed writer is written to again")
	if len(s.out)+len(vals) > s.limit {
		s.failed = true
		return errWrite
	}
	s.out = append(s.out, vals...)
	return nil
}

func anyRune() rune {
	r := sym.Int32()
	sym.Assume(sym.And(r >= 0, r <= utf8.MaxRune))
	sym.Assume(sym.Or(r < 0xd800, r > 0xdfff))
	return r
}

func text(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += string(anyRune())
	}
	return s
}

func letter() string {
	return sym.StringOf(1, "abcdefghijklmnopqrstuvwxyz")
}

// equal compares two values.
func equal(a, b json.Value, what string) {
	sym.Assert(a.Type() == b.Type(), what+": another type")
	switch a.Type() {
	case json.Object:
		am, bm := a.AsMap(), b.AsMap()
		sym.Assert(len(am) == len(bm), what+": another number of keys")
		for k, v := range am {
			w, is := bm[k]
			sym.Assert(is, what+": a key is missing")
			equal(v, w, what)
		}
	case json.Array:
		as, bs := a.AsSlice(), b.AsSlice()
		sym.Assert(len(as) == len(bs), what+": another number of elements")
		for i := range as {
			equal(as[i], bs[i], what)
		}
	case json.String, json.Number:
		sym.Assert(a.AsString() == b.AsString(), what+": another text")
	case json.Boolean:
		sym.Assert(a.AsBool() == b.AsBool(), what+": another boolean")
	}
}

// written checks the text of v.
func written(v json.Value, what string) []rune {
	s := &sink{limit: 1 << 20}
	var err error
	var w writer.Writer[rune] = s
	if sym.Choice(2) == 0 {
		w = writer.NewWriter(s.put)
	}
	switch {
	case sym.Choice(2) == 0:
		err = write.Write(v, w)
	case v.Type() == json.Object:
		err = write.WriteObject(v, w)
	case v.Type() == json.Array:
		err = write.WriteArray(v, w)
	default:
		write.MustWrite(v, w)
	}
	sym.Assert(err == nil, what+": fails")
	// The text is JSON for the value
	r := ref{s: []byte(string(s.out) + " ")}
	n, st := r.value()
	sym.Assert(st == ok && r.i+1 >= len(r.s), what+": not a JSON text")
	same(v, n, what)
	sym.Observe(len(s.out))
	if v.IsDocument() {
		back, err := parse.Parse(strings.NewReader(string(s.out)))
		sym.Assert(err == nil, what+": the text cannot be parsed")
		equal(v, back, what+" and Parse")
	}
	return s.out
}

// C22_Strings: strings of any characters.
//
//sym:bv
func C22_Strings() {
	v := json.StringToValue(text(sym.Choice(pickAny(3, 4))))
	if sym.Choice(2) == 0 {
		v = json.MustSliceToValue([]json.Value{v})
	}
	written(v, "string")
}

// C22_Keys: keys of any characters.
//
//sym:bv
//sym:maporder 2
func C22_Keys() {
	a, b := text(sym.Choice(pickAny(2, 3))), sym.StringOf(sym.Choice(2), "\"\\b\n\x7f")
	sym.Assume(a != b)
	m := map[string]json.Value{a: json.TrueValue}
	if sym.Choice(2) == 0 {
		m[b] = json.NullValue
	}
	written(json.MustMapToValue(m), "keys")
}

// number: a JSON number of any digits in one of several forms.
func number() json.Value {
	d := func() string { return sym.StringOf(1, "0123456789") }
	nz := sym.StringOf(1, "123456789")
	var s string
	switch sym.Choice(5) {
	case 0:
		s = d()
	case 1:
		s = "-" + nz + d()
	case 2:
		s = "0." + d()
	case 3:
		s = nz + "e-" + d()
	case 4:
		s = nz + d() + d() + "." + d() + "E+" + d()
	}
	v, err := json.NumberToValue(json.NumberString(s))
	sym.Assert(err == nil, "a JSON number is rejected")
	return v
}

func scalar() json.Value {
	switch sym.Choice(5) {
	case 0:
		return json.StringToValue(letter())
	case 1:
		return number()
	case 2:
		return json.TrueValue
	case 3:
		return json.FalseValue
	}
	return json.NullValue
}

// tree is a value of the given depth and width.
func tree(depth, width int) json.Value {
	k := 0
	if depth > 0 {
		k = sym.Choice(3)
	}
	switch k {
	case 1:
		var s []json.Value
		for n := sym.Choice(width + 1); n > 0; n-- {
			s = append(s, tree(depth-1, width))
		}
		return json.MustSliceToValue(s)
	case 2:
		m := map[string]json.Value{}
		for n := sym.Choice(width + 1); n > 0; n-- {
			m[letter()] = tree(depth-1, width)
		}
		return json.MustMapToValue(m)
	}
	return scalar()
}

// C22_Scalar: scalars, alone and in an array or object.
//
//sym:bv
//sym:maporder 2
func C22_Scalar() { written(tree(1, 2), "value") }

// C22_Nested: nested arrays and objects.
//
//sym:bv
func C22_Nested() { written(tree(pickAny(3, 4), 1), "value") }

// C22_Failing: a writer that fails after any number of characters.
//
//sym:bv
//sym:maporder 2
func C22_Failing() {
	var v json.Value
	switch sym.Choice(4) {
	case 0:
		v = json.StringToValue(text(2))
	case 1:
		v = json.MustSliceToValue([]json.Value{json.TrueValue, json.MustSliceToValue([]json.Value{}), json.NullValue})
	case 2:
		v = json.MustMapToValue(map[string]json.Value{"a": json.StringToValue("\n"), "b": json.MustMapToValue(map[string]json.Value{"": number()})})
	case 3:
		v = json.MustSliceToValue([]json.Value{number(), json.MustMapToValue(map[string]json.Value{letter(): json.FalseValue})})
	}
	full := &sink{limit: 1 << 20}
	sym.Assert(write.Write(v, full) == nil, "Write: fails")
	s := &sink{limit: sym.Choice(len(full.out) + 1)}
	var w writer.Writer[rune] = s
	if sym.Choice(2) == 0 {
		w = writer.NewWriter(s.put)
	}
	err := write.Write(v, w)
	sym.Observe(len(s.out))
	if s.limit >= len(full.out) {
		sym.Assert(err == nil, "Write: fails though the writer does not")
		return
	}
	sym.Assert(err == errWrite, "Write: not the error of the writer")
}
