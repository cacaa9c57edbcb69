package hfuncs

import (
	"strings"

	"github.com/bantling/micro/funcs"
	"verifharness/sym"
)

// C32_RoundTrip: every snake case identifier up to a length: words of a lower case letter followed by lower case letters
// and digits, joined by single underscores.
//
//sym:bv
func C32_RoundTrip() {
	n := size(5, 7)
	s := sym.String(n)
	start := true
	camel := ""
	for i := 0; i < n; i++ {
		c := s[i]
		lower := sym.And(c >= 'a', c <= 'z')
		if start {
			sym.Assume(lower)
			camel += string([]byte{c - 'a' + 'A'})
			start = false
			continue
		}
		if sym.Fork(c == '_') {
			start = true
			continue
		}
		sym.Assume(sym.Or(lower, sym.And(c >= '0', c <= '9')))
		camel += string([]byte{c})
	}
	sym.Assume(n == 0 || !start)
	got := funcs.SnakeToCamelCase(s)
	sym.Assert(got == camel, "SnakeToCamelCase: not the words with capitals")
	back := funcs.CamelCaseToSnakeCase(got)
	sym.Assert(back == s, "CamelCaseToSnakeCase: not the identifier it came from")
	if n > 0 {
		// The first letter of either form may be of either case.
		lowerFirst := strings.ToLower(got[:1]) + got[1:]
		sym.Assert(funcs.CamelCaseToSnakeCase(lowerFirst) == s, "CamelCaseToSnakeCase: first letter in lower case")
		sym.Assert(funcs.SnakeToCamelCase(strings.ToUpper(s[:1])+s[1:]) == camel, "SnakeToCamelCase: first letter in upper case")
	}
}

// C32_Total: no text makes the conversions panic: any ASCII characters, with or without one other character or invalid
// byte anywhere.
//
//sym:bv
func C32_Total() {
	n := size(3, 4)
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	if k := sym.Choice(5); k > 0 {
		at := sym.Choice(n + 1)
		s = s[:at] + []string{"\u00e9", "\u01c6", "\u4e16", "\xff"}[k-1] + s[at:]
	}
	a := funcs.SnakeToCamelCase(s)
	b := funcs.CamelCaseToSnakeCase(s)
	if s == "" {
		sym.Assert(a == "" && b == "", "empty text")
	}
	sym.Observe(len(a))
	sym.Observe(len(b))
}

// C32_Long: long identifiers, of many words or long ones, two characters of which are free.
//
//sym:bv
func C32_Long() {
	word := []string{"a", "ab1", "word2with34digits"}[sym.Choice(3)]
	n := []int{3, 12}[sym.Choice(2)]
	lower := func() string {
		c := sym.String(1)
		sym.Assume(sym.And(c[0] >= 'a', c[0] <= 'z'))
		return c
	}
	rest := sym.String(1)
	sym.Assume(sym.Or(sym.And(rest[0] >= 'a', rest[0] <= 'z'), sym.And(rest[0] >= '0', rest[0] <= '9')))
	at := sym.Choice(3) * (n - 1) / 2
	snake, camel := "", ""
	for i := 0; i < n; i++ {
		w := word
		if i == at {
			w = lower() + rest + word
		}
		if i > 0 {
			snake += "_"
		}
		snake += w
		camel += string([]byte{w[0] - 'a' + 'A'}) + w[1:]
	}
	sym.Assert(funcs.SnakeToCamelCase(snake) == camel, "SnakeToCamelCase: not the words with capitals")
	sym.Assert(funcs.CamelCaseToSnakeCase(camel) == snake, "CamelCaseToSnakeCase: not the identifier it came from")
}

// C32_Letters: words that begin with a letter of a script that has both cases, and go on with characters of any script.
//
//sym:bv
func C32_Letters() {
	block := []struct{ first, last, upper rune }{
		{'a', 'z', 'A'}, {'\u00e0', '\u00f6', '\u00c0'}, {'\u03b1', '\u03c1', '\u0391'}, {'\u0430', '\u044f', '\u0410'},
		{'\u0561', '\u0586', '\u0531'}, {'\U00010428', '\U0001044f', '\U00010400'},
	}[sym.Choice(6)]
	r := rune(sym.Int32())
	sym.Assume(sym.And(r >= block.first, r <= block.last))
	tail := []string{"", "a1", "\u00e9", "\u4e16\u754c2", "\U0001f600"}[sym.Choice(5)]
	snake, camel := string(r)+tail, string(r-block.first+block.upper)+tail
	switch sym.Choice(3) {
	case 1:
		snake, camel = snake+"_name", camel+"Name"
	case 2:
		snake, camel = "\u00e9t\u00e9_"+snake+"_\u03b1", "\u00c9t\u00e9"+camel+"\u0391"
	}
	sym.Assert(funcs.SnakeToCamelCase(snake) == camel, "SnakeToCamelCase: not the words with capitals")
	sym.Assert(funcs.CamelCaseToSnakeCase(camel) == snake, "CamelCaseToSnakeCase: not the identifier it came from")
}
