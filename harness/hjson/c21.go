package hjson

import (
	goio "io"

	"verifharness/sym"
)

// C21_Parse: any text of ASCII characters.
//
//sym:bv
func C21_Parse() {
	decide(&lazy{free: pickAny(5, 7)}, "Parse")
}

// C21_Iterate: the same read element by element.
//
//sym:bv
func C21_Iterate() {
	iterate(&lazy{free: pickAny(5, 7)}, "Iterate")
}

func punct(b byte) bool {
	return sym.Or(sym.Or(sym.Or(b == '[', b == ']'), sym.Or(b == '{', b == '}')), sym.Or(sym.Or(b == ',', b == ':'), sym.Or(b == '"', b == '1')))
}

// C21_Array: nested arrays and objects.
//
//sym:bv
func C21_Array() {
	decide(&lazy{buf: []byte(`[`), free: pickAny(8, 10), pick: punct}, "Parse array")
}

// C21_Object: after a first pair.
//
//sym:bv
func C21_Object() {
	decide(&lazy{buf: []byte(`{"a":0`), free: pickAny(8, 10), pick: punct}, "Parse object")
}

// C21_Keys: two or three pairs, whose keys may be equal or equal after decoding.
//
//sym:bv
func C21_Keys() {
	key := func() string {
		if sym.Choice(3) == 0 {
			return `"\u006` + sym.StringOf(1, "0123456789abcdef") + `"`
		}
		return `"` + sym.String(sym.Choice(2)) + `"`
	}
	first := []string{`1`, `null`, `false`, `""`, `{}`}[sym.Choice(5)]
	text := `{` + key() + `:` + first + `,` + key() + `:[2]`
	if sym.Thorough() && sym.Choice(2) == 0 {
		text += ` , ` + key() + `: null`
	}
	text += `}`
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] < 0x80)
	}
	l := &lazy{buf: []byte(text), end: goio.EOF}
	if sym.Choice(2) == 0 {
		decide(l, "keys")
	} else {
		iterate(l, "keys")
	}
}

// C21_Nested: brackets one in another, some of them replaced.
//
//sym:bv
func C21_Nested() {
	open, end := "", ""
	depth := pickAny(6, 9)
	for i := 0; i < depth; i++ {
		if sym.Choice(2) == 0 {
			open, end = open+"[", "]"+end
		} else {
			open, end = open+`{"k":`, "}"+end
		}
	}
	text := []byte(open + []string{"true", "[]", "{}", "-1.5e3"}[sym.Choice(4)] + end)
	// A bracket anywhere becomes another one
	p := sym.Choice(len(end) + 1)
	if p < len(end) {
		b := sym.Uint8()
		sym.Assume(b < 0x80)
		text[len(text)-1-p] = b
	}
	decide(&lazy{buf: text, end: goio.EOF}, "nested")
}

// C21_Literals: words that are or are not literals, and what stands beside them.
//
//sym:bv
func C21_Literals() {
	word := []byte([]string{"true", "false", "null"}[sym.Choice(3)])
	p := sym.Choice(len(word) + 1)
	b := sym.Uint8()
	sym.Assume(b < 0x80)
	if sym.Choice(2) == 0 && p < len(word) {
		word[p] = b
	} else {
		word = append(word[:p:p], append([]byte{b}, word[p:]...)...)
	}
	text := append(append([]byte("[0, "), word...), ", \"x\"]"...)
	decide(&lazy{buf: text, end: goio.EOF}, "literals")
}
