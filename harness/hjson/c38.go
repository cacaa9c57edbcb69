package hjson

import (
	"errors"
	"strings"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	"verifharness/sym"
)

func caughtErr(f func()) (panicked bool, err error) {
	defer func() {
		if panicked {
			err, _ = recover().(error)
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

// must checks that the Must version panics with an error exactly when the function gives an error, and otherwise
// gives the same value.
func must(plain func() (json.Value, error), mst func() json.Value, what string) {
	a, err := plain()
	var b json.Value
	panicked, perr := caughtErr(func() { b = mst() })
	sym.Assert(panicked == (err != nil), what+": panics exactly when there is an error")
	if panicked {
		sym.Assert(perr != nil, what+": the panic is an error")
		sym.Reach("panic")
		return
	}
	sym.Assert(sameAny(a.ToAny(), b.ToAny()) && a.Type() == b.Type(), what+": the same value")
	sym.Reach("value")
}

// C38_JSONValue: Must versions of the functions that make JSON values.
func C38_JSONValue() {
	var x any = sym.Int()
	if sym.Choice(2) == 1 {
		x = struct{}{}
	}
	switch sym.Choice(5) {
	case 0:
		m := map[string]any{"a": x}
		must(func() (json.Value, error) { return json.MapToValue(m) }, func() json.Value { return json.MustMapToValue(m) }, "MapToValue")
		must(func() (json.Value, error) { return json.ToValue(m) }, func() json.Value { return json.MustToValue(m) }, "ToValue")
	case 1:
		l := []any{x}
		must(func() (json.Value, error) { return json.SliceToValue(l) }, func() json.Value { return json.MustSliceToValue(l) }, "SliceToValue")
		must(func() (json.Value, error) { return json.ToValue(l) }, func() json.Value { return json.MustToValue(l) }, "ToValue")
	case 2:
		n := json.NumberString(sym.StringOf(sym.Choice(3), "-1.x"))
		must(func() (json.Value, error) { return json.NumberToValue(n) }, func() json.Value { return json.MustNumberToValue(n) }, "NumberToValue")
		must(func() (json.Value, error) { return json.ToValue(n) }, func() json.Value { return json.MustToValue(n) }, "ToValue")
	case 3:
		n := sym.Int64()
		must(func() (json.Value, error) { return json.NumberToValue(n) }, func() json.Value { return json.MustNumberToValue(n) }, "NumberToValue")
	case 4:
		s := sym.String(2)
		must(func() (json.Value, error) { return json.ToValue(s) }, func() json.Value { return json.MustToValue(s) }, "ToValue")
	}
}

// C38_JSONParse: the Must version of Parse.
func C38_JSONParse() {
	s := sym.StringOf(sym.Choice(6), "[]1,x ")
	must(func() (json.Value, error) { return parse.Parse(strings.NewReader(s)) }, func() json.Value { return parse.MustParse(strings.NewReader(s)) }, "Parse")
}

// C38_JSONWrite: Must versions of the functions that write JSON values: the same text, and a panic when the
// destination fails.
func C38_JSONWrite() {
	n := json.MustNumberToValue(sym.Int8())
	kind := sym.Choice(3)
	var v json.Value
	plain, mst := write.Write, write.MustWrite
	switch kind {
	case 1:
		plain, mst = write.WriteArray, write.MustWriteArray
	case 2:
		plain, mst = write.WriteObject, write.MustWriteObject
	}
	switch sym.Choice(5) {
	case 0:
		v = json.MustToValue([]json.Value{n, json.TrueValue})
	case 1:
		v = json.MustToValue(map[string]json.Value{"a": n})
	case 2:
		v = n
	case 3:
		v = json.NullValue
	}
	fail := sym.Choice(8)
	dst := func(out *[]rune) writer.Writer[rune] {
		return writer.NewWriter(func(r rune) error {
			if len(*out) == fail-1 {
				return errors.New("full")
			}
			*out = append(*out, r)
			return nil
		})
	}
	var a, b []rune
	var err error
	failed, ferr := caughtErr(func() { err = plain(v, dst(&a)) })
	panicked, perr := caughtErr(func() { mst(v, dst(&b)) })
	if failed {
		// not the kind of value the function is for
		sym.Assert(panicked && (perr != nil) == (ferr != nil), "the Must version of writing panics when the function itself does")
		sym.Reach("wrong kind")
		return
	}
	sym.Assert(panicked == (err != nil), "the Must version of writing panics exactly when there is an error")
	sym.Assert(!panicked || perr != nil, "the panic is an error")
	sym.Assert(string(a) == string(b), "the Must version of writing writes the same text")
	if panicked {
		sym.Reach("panic")
	}
}
