package hjson

import (
	"strconv"

	"github.com/bantling/micro/encoding/json"
	"verifharness/sym"
)

func repeat(s string, n int) string {
	r := ""
	for ; n > 0; n-- {
		r += s
	}
	return r
}

// C20_Long: strings and numbers of some hundred characters, a few of them free.
//
//sym:bv
func C20_Long() {
	n := []int{63, 130, 300}[sym.Choice(3)]
	filler := []string{"abc é 😀 ", `a\n\u00e9\ud83d\ude00\"`, "x"}[sym.Choice(3)]
	s, free := "", pickAny(1, 2)
	for len(s) < n {
		s += filler
	}
	switch sym.Choice(3) {
	case 0:
		decide(&lazy{buf: []byte(`["` + s), free: free, tail: s + `"]`}, "long string")
	case 1:
		decide(&lazy{buf: []byte(`{"` + s), free: free, tail: s + `":1}`}, "long key")
	case 2:
		d := repeat("1234567890", n/10)
		t := d[:len(d)/2]
		head := []string{"", d + ".", "-" + d + ".0" + d + "e-"}[sym.Choice(3)]
		decide(&lazy{buf: []byte("[" + head + t), free: free, tail: d + "]"}, "long number")
	}
}

// element is one of many texts of a value.
func element(i int) string {
	switch i % 8 {
	case 0:
		return strconv.Itoa(i)
	case 1:
		return `"` + strconv.Itoa(i) + `"`
	case 2:
		return "null"
	case 3:
		return "[]"
	case 4:
		return `{"k":[` + strconv.Itoa(i) + "]}"
	case 5:
		return " true "
	case 6:
		return "-0.5e+" + strconv.Itoa(i)
	}
	return "[[{}],{},\t\"\\n\"]"
}

func document2(l *lazy, what string) {
	if sym.Choice(2) == 0 {
		decide(l, what)
	} else {
		iterate(l, what)
	}
}

// C21_Long: arrays and objects of twenty elements, a few characters of which are free.
//
//sym:bv
func C21_Long() {
	n := 20
	at := sym.Choice(n + 1)
	l := &lazy{}
	switch sym.Choice(2) {
	case 0:
		l.buf, l.free = []byte("["), 2
		for i := 0; i < n; i++ {
			s := element(i)
			if i > 0 {
				s = "," + s
			}
			if i < at {
				l.buf = append(l.buf, s...)
			} else {
				l.tail += s
			}
		}
		l.tail += "]"
		l.pick = punct
	case 1:
		l.buf, l.free = []byte(" {"), 2
		for i := 0; i < n; i++ {
			s := "\"" + strconv.Itoa(100+i)
			if i > 0 {
				s = "," + s
			}
			v := "\" : " + element(i+n)
			switch {
			case i < at:
				l.buf = append(l.buf, s+v...)
			case i == at:
				// the last digit of the key is free, or it ends before
				l.buf = append(l.buf, s[:len(s)-1]...)
				l.tail += v
			default:
				l.tail += s + v
			}
		}
		l.tail += "}"
		l.pick = func(b byte) bool { return sym.Or(sym.And(b >= '0', b <= '9'), b == '"') }
	}
	document2(l, "long")
}

// C21_Deep: thirty levels.
//
//sym:bv
func C21_Deep() {
	open, end := "", ""
	for i, k := 0, sym.Choice(3); i < 30; i++ {
		if i%3 == k {
			open, end = open+"[", "]"+end
		} else if i%2 == 0 {
			open, end = open+`{"k":`, "}"+end
		} else {
			open, end = open+`[0,`, ", {} ]"+end
		}
	}
	p := []int{0, 1, len(end) / 2, len(end) - 1}[sym.Choice(4)]
	document2(&lazy{buf: []byte(open + "1" + end[:p]), free: 1, tail: end[p+1:]}, "deep")
}

// C21_Space: much white space, also of characters that are none.
//
//sym:bv
func C21_Space() {
	w := repeat(" \t\r\n", []int{1, 16, 64}[sym.Choice(3)])
	toks := []string{"[", "1", ",", "{", "\"a\"", ":", "null", "}", "]"}
	at := sym.Choice(len(toks))
	l := &lazy{free: 1}
	for i, t := range toks {
		if i < at {
			l.buf = append(l.buf, w+t...)
		} else {
			l.tail += w + t
		}
	}
	document2(l, "space")
}

// C22_Long: texts of hundreds of characters, arrays of many elements and many levels.
//
//sym:bv
//sym:maporder 1
func C22_Long() {
	var v json.Value
	switch sym.Choice(4) {
	case 0:
		n := []int{63, 200}[sym.Choice(2)]
		filler := []string{"a", "\n\"", "é\x00😀"}[sym.Choice(3)]
		v = json.MustSliceToValue([]json.Value{json.StringToValue(repeat(filler, n/2) + text(1) + repeat(filler, n))})
	case 1:
		var s []json.Value
		for i := 0; i < 20; i++ {
			s = append(s, json.MustToValue(i), json.StringToValue(repeat("ab", i)))
		}
		s[sym.Choice(2)*39] = scalar()
		v = json.MustSliceToValue(s)
	case 2:
		v = scalar()
		for i, k := 0, sym.Choice(3); i < 30; i++ {
			if i%3 == k {
				v = json.MustMapToValue(map[string]json.Value{strconv.Itoa(i): v})
			} else {
				v = json.MustSliceToValue([]json.Value{v})
			}
		}
	case 3:
		m := map[string]json.Value{}
		for i := 0; i < 20; i++ {
			m[strconv.Itoa(i)] = json.MustToValue(i)
		}
		m[letter()] = scalar()
		v = json.MustMapToValue(m)
	}
	written(v, "long")
}

// C23_Long: paths of twelve steps through as many levels, one step free; long keys and far elements.
func C23_Long() {
	const n = 12
	var (
		doc  = json.StringToValue("leaf")
		at   = sym.Choice(n)
		path string
		far  = []int{0, 9, 10, 17}[sym.Choice(4)]
		key  = repeat("key ", []int{1, 10, 40}[sym.Choice(3)])
	)
	for i := n - 1; i >= 0; i-- {
		if i%2 == 0 {
			m := map[string]json.Value{"other": json.TrueValue, key: doc, key + "1": json.NullValue}
			doc = json.MustMapToValue(m)
			s := "." + key
			if i == at {
				s += sym.StringOf(sym.Choice(2), "1 .[")
			}
			path = s + path
		} else {
			var s []json.Value
			for k := 0; k < 18; k++ {
				if k == far {
					s = append(s, doc)
				} else {
					s = append(s, json.MustToValue(k))
				}
			}
			doc = json.MustSliceToValue(s)
			f := strconv.Itoa(far)
			if i == at {
				f = []string{"", "0", "00000"}[sym.Choice(3)] + f[:len(f)-1] + sym.StringOf(1, "0123456789]")
			}
			path = "[" + f + "]" + path
		}
	}
	search(path, doc, "long path")
}

// C31_Long: converting many elements, many keys and many levels to a value and back.
func C31_Long() {
	leaf := func() any {
		switch sym.Choice(4) {
		case 0:
			return sym.String(1)
		case 1:
			return json.NumberString(sym.StringOf(1, "0123456789"))
		case 2:
			return sym.Bool()
		}
		return nil
	}
	s, m := []any{}, map[string]any{}
	for i := 0; i < 25; i++ {
		k := strconv.Itoa(i)
		var x any = []any{k, i%2 == 0, nil, json.NumberString(k), repeat(k, 20), []any{k}, map[string]any{k: k, "": nil}}[i%7]
		s, m[k] = append(s, x), x
	}
	at := sym.Choice(3) * 12
	x := leaf()
	s[at], m[strconv.Itoa(at)] = x, x
	deep := x
	for i := 0; i < 25; i++ {
		if i%2 == 0 {
			deep = []any{i%3 == 0, deep, nil}
		} else {
			deep = map[string]any{"k": deep, "l": s[i]}
		}
	}
	for _, a := range []any{s, m, deep} {
		var (
			v   json.Value
			err error
		)
		switch x := a.(type) {
		case []any:
			v, err = json.ToValue(x)
		case map[string]any:
			v, err = json.ToValue(x)
		}
		sym.Assert(err == nil && v.IsDocument(), "long: not accepted")
		sym.Assert(sameAny(v.ToAny(), a), "long: not the same when converted back")
		b := panics(func() { json.MustToValue([]any{a, make(chan int)}) })
		sym.Assert(b, "a value of an unsupported kind is accepted")
	}
}
