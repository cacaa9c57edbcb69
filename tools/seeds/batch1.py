def T(pkg, imports, body, alias=None):
    return "package %s_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t' + (i if " " in i else '"%s"' % i) for i in ["testing"] + imports), body)
M = "github.com/bantling/micro/"
seeds = [
dict(id="C02-divuint-double", prop="C02", pkg="math",
  edits=[("math/math.go", """	r, halfdv := de%dv, dv/2

	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
		*q++
	}
}""", """	r := de % dv

	// If twice the remainder is at least the divisor, adjust quotient by one to round
	if (r << 1) >= dv {
		*q++
	}
}""")],
  test=T("math", [M+"math"], """	var q uint64
	if err := math.Div(uint64(9_300_000_000_000_000_000), uint64(9_300_000_000_000_000_001), &q); err != nil || q != 1 {
		t.Fatal(q, err)
	}
	if math.Div(uint64(18), uint64(4), &q); q != 5 {
		t.Fatal(q)
	}"""),
  needs="an unsigned divisor and a remainder of at least 2^63, so that doubling the remainder wraps",
  breaks="the quotient of large unsigned values is rounded down instead of up"),
dict(id="C09-cmp-opposite", prop="C09", pkg="math",
  edits=[("math/decimal.go", """	if ((ds == '-') && (os == ' ')) ||
		((ds == '-') && (os == '-')) ||
		((ds == ' ') && (os == '-')) {
		return -compare
	}
""", """	if (ds == '-') || ((os == '-') && (da[1:] != oa[1:])) {
		return -compare
	}
""")],
  test=T("math", [M+"math"], """	a, b := math.MustDecimal(3, 0), math.MustDecimal(-3, 0)
	if c := a.Cmp(b); c != 1 {
		t.Fatal(c)
	}
	if c := b.Cmp(a); c != -1 {
		t.Fatal(c)
	}
	if c := a.Cmp(math.MustDecimal(-4, 0)); c != 1 {
		t.Fatal(c)
	}"""),
  needs="a positive value compared with the negative value of the same magnitude",
  breaks="Cmp says that 3 < -3"),
dict(id="C15-rune-mask", prop="C15", pkg="iter",
  edits=[("iter/gen.go", """			r = (rune(b&0b0000_1111) << (6 + 6)) |""", """			r = (rune(b&0b0000_0111) << (6 + 6)) |""")],
  test=T("iter", ["bytes", M+"iter"], """	it := iter.OfReaderAsRunes(bytes.NewReader([]byte("\\ufffd\\uff41")))
	for _, w := range "\\ufffd\\uff41" {
		r, err := it.Next()
		if err != nil || r != w {
			t.Fatal(r, err)
		}
	}"""),
  needs="a character at or above U+8000 in three bytes",
  breaks="such a character is decoded as another one or rejected"),
dict(id="C14-unread-order", prop="C14", pkg="iter",
  edits=[("iter/iter.go", """	if len(it.buffer) > 0 {
		val := it.buffer[len(it.buffer)-1]
		it.buffer = it.buffer[0 : len(it.buffer)-1]
		return val, nil
	}
""", """	if n := len(it.buffer); n > 0 {
		var (
			zv  T
			val = it.buffer[n-1]
		)
		if it.buffer[n-1] = zv; n > 2 {
			// Keep room for later calls
			copy(it.buffer[n-2:], it.buffer[n-3:n-2])
		}
		it.buffer = it.buffer[:n-1]
		return val, nil
	}
""")],
  test=T("iter", [M+"iter"], """	it := iter.Of(1)
	it.Unread(2)
	it.Unread(3)
	it.Unread(4)
	for _, w := range []int{4, 3, 2, 1} {
		if v, err := it.Next(); err != nil || v != w {
			t.Fatal(v, w, err)
		}
	}"""),
  needs="three values unread before the next read",
  breaks="the second value that is read back is the third"),
dict(id="C17-duplicate-count", prop="C17", pkg="stream",
  edits=[("stream/stream.go", """			if count < 3 {
				count++
				vals[val] = count
			}

			return count == 2""", """			count = (count + 1) & 3
			vals[val] = count

			return count == 2""")],
  test=T("stream", [M+"iter", M+"stream"], """	s, _ := stream.ReduceToSlice(stream.Duplicate(iter.Of(1, 1, 1, 1, 1, 1))).Next()
	if len(s) != 1 {
		t.Fatal(s)
	}"""),
  needs="a value that occurs six times",
  breaks="Duplicate emits the value a second time"),
]
