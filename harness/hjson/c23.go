package hjson

import (
	"github.com/bantling/micro/encoding/json"
	"verifharness/sym"
)

// step of a path: a key or an index.
type step struct {
	isKey bool
	key   string
	index int
	huge  bool
}

// steps reads a path: keys after a dot, which have no dot or bracket in them, and decimal indexes in brackets.
func steps(p string) (r []step, valid bool) {
	i := 0
	for i < len(p) {
		switch p[i] {
		case '.':
			j := i + 1
			for j < len(p) && p[j] != '.' && p[j] != '[' && p[j] != ']' {
				j++
			}
			if j == i+1 {
				return nil, false
			}
			r = append(r, step{isKey: true, key: p[i+1 : j]})
			i = j
		case '[':
			n, j, huge := 0, i+1, false
			for j < len(p) && p[j] >= '0' && p[j] <= '9' {
				if n > 1<<58 {
					huge = true
				} else {
					n = n*10 + int(p[j]-'0')
				}
				j++
			}
			if j == i+1 || j == len(p) || p[j] != ']' {
				return nil, false
			}
			r = append(r, step{index: n, huge: huge})
			i = j + 1
		default:
			return nil, false
		}
	}
	return r, len(r) > 0
}

// follow goes the steps one by one.
func follow(v json.Value, path []step) (json.Value, bool) {
	for _, s := range path {
		if s.isKey {
			if v.Type() != json.Object {
				return json.Value{}, false
			}
			n, is := v.AsMap()[s.key]
			if !is {
				return json.Value{}, false
			}
			v = n
			continue
		}
		if v.Type() != json.Array || s.index >= len(v.AsSlice()) {
			return json.Value{}, false
		}
		v = v.AsSlice()[s.index]
	}
	return v, true
}

func search(p string, doc json.Value, what string) {
	want, valid := steps(p)
	fn, err := json.ParsePath(p)
	sym.Observe(err != nil)
	if err != nil {
		for _, s := range want {
			if s.huge {
				// no element can have such an index
				return
			}
		}
		sym.Reach("not a path")
		sym.Assert(!valid, what+": rejects a path")
		return
	}
	sym.Assert(valid, what+": accepts a text that is not a path")
	for i := 0; i < 2; i++ {
		v, err := fn(doc)
		w, is := follow(doc, want)
		sym.Assert((err == nil) == is, what+": reports absence exactly when a step does not exist")
		if is {
			sym.Reach("found")
			equal(v, w, what)
			sym.Observe(v.Type().String())
		} else {
			sym.Reach("absent")
			sym.Assert(v.Type() == json.Invalid, what+": a value together with an error")
		}
		// and again with another document
		doc = json.MustSliceToValue([]json.Value{doc, json.StringToValue("x")})
	}
}

// document: an object and an array holding one of every type under free keys.
func document() json.Value {
	k, l := sym.String(1), sym.String(2)
	for i := 0; i < 2; i++ {
		sym.Assume(sym.And(k[0] < 0x80, l[i] < 0x80))
	}
	leaf := []json.Value{json.NullValue, json.TrueValue, json.StringToValue("")}[sym.Choice(3)]
	inner := json.MustMapToValue(map[string]json.Value{k: leaf, l: json.MustSliceToValue([]json.Value{json.StringToValue("in"), json.NullValue})})
	if sym.Choice(2) == 0 {
		return json.MustMapToValue(map[string]json.Value{k: inner, "": json.FalseValue, "zz": json.MustSliceToValue([]json.Value{inner})})
	}
	return json.MustSliceToValue([]json.Value{inner, json.MustToValue(1), json.MustSliceToValue([]json.Value{json.FalseValue, inner})})
}

// C23_Text: any text of ASCII characters as a path.
func C23_Text() {
	n := sym.Choice(pickAny(6, 8))
	p := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(p[i] < 0x80)
	}
	search(p, document(), "path")
}

// C23_Steps: paths of several steps.
func C23_Steps() {
	p := ""
	for n := 1 + sym.Choice(pickAny(3, 4)); n > 0; n-- {
		if sym.Choice(2) == 0 {
			p += "." + sym.StringOf(1+sym.Choice(2), "abcz -\"$09")
		} else {
			p += "[" + sym.StringOf(1+sym.Choice(2), "0123456789") + "]"
		}
	}
	search(p, document(), "path")
}

// C23_Index: indexes of any size.
func C23_Index() {
	p := "[" + sym.StringOf(1+sym.Choice(21), "0123456789") + "]"
	search(p, json.MustSliceToValue([]json.Value{json.TrueValue, json.NullValue}), "index")
}

// C23_Scalars: documents that are no object or array have no elements.
func C23_Scalars() {
	fn, err := json.ParsePath([]string{".a", "[0]"}[sym.Choice(2)])
	sym.Assert(err == nil, "path: rejected")
	v, err := fn([]json.Value{{}, json.StringToValue("a"), json.MustToValue(0), json.TrueValue, json.NullValue, json.MustSliceToValue([]json.Value{}), json.MustMapToValue(map[string]json.Value{})}[sym.Choice(7)])
	sym.Assert(err != nil && v.Type() == json.Invalid, "path: an element of a value that has none")
}
