package hiter

import (
	goio "io"
	"strings"

	"github.com/bantling/micro/iter"
	"verifharness/sym"
)

func pick(ns ...int) int { return ns[sym.Choice(len(ns))] }

// C14_Long: seventy elements, some read, many unread, some of those read and unread again, and all the rest.
func C14_Long() {
	const n = 70
	vals := ints(n)
	var it iter.Iter[int]
	switch sym.Choice(4) {
	case 0:
		it = iter.Of(vals...)
	case 1:
		it = iter.OfSlice(vals)
	case 2:
		it = iter.OfIter(failing(vals, iter.EOI))
	case 3:
		// Iterators of 0 to 5 elements, and nil ones.
		its := []iter.Iter[int]{nil}
		for i, k := 0, 0; i < n; k++ {
			l := (k * 2) % 6
			if i+l > n {
				l = n - i
			}
			its = append(its, iter.Of(vals[i:i+l]...))
			if k%3 == 2 {
				its = append(its, nil, iter.OfEmpty[int]())
			}
			i += l
		}
		it = iter.Concat(its...)
	}
	rest := append([]int{}, vals...)
	next := func(what string) {
		v, err := it.Next()
		sym.Assert(err == nil, what+": error before the end")
		sym.Assert(v == rest[0], what+": another element")
		rest = rest[1:]
	}
	unread := func(k int) {
		for i := 0; i < k; i++ {
			v := sym.Int()
			it.Unread(v)
			rest = append([]int{v}, rest...)
		}
	}
	for i := pick(0, 1, 33, 69, 70); i > 0; i-- {
		next("first elements")
	}
	k := pick(0, 1, 2, 33, 130)
	unread(k)
	for i := 0; i < k/2; i++ {
		next("unread elements")
	}
	unread(pick(0, 1, 5, 40))
	for len(rest) > 0 {
		next("rest")
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		sym.Assert(err == iter.EOI && v == 0, "end")
	}
	unread(1)
	next("after the end")
	_, err := it.Next()
	sym.Assert(err == iter.EOI, "end again")
}

// C14_LongMap: a map of twenty keys.
func C14_LongMap() {
	m := map[int]int{}
	vals := ints(20)
	for i, v := range vals {
		m[3*i] = v
	}
	it := iter.OfMap(m)
	seen := map[int]bool{}
	for range vals {
		kv, err := it.Next()
		sym.Assert(err == nil, "map: error before all keys came out")
		sym.Assert(kv.T%3 == 0 && kv.T >= 0 && kv.T < 60 && !seen[kv.T], "map: a key twice, or one that is not in the map")
		seen[kv.T] = true
		sym.Assert(kv.U == vals[kv.T/3], "map: another value than that of the key")
	}
	_, err := it.Next()
	sym.Assert(err == iter.EOI, "map: end")
}

// step gives at most n bytes per read.
type step struct {
	chunked
	n int
}

func (s *step) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.chunked.Read(p)
}

// C15_Long: any three bytes after a long text, in reads of several sizes.
//
//sym:bv
func C15_Long() {
	max := 257
	ls := []int{15, 16, 61, 62, 63, 64, 127, 255, max}
	if sym.Thorough() {
		ls = append(ls, 510, 511, 1023, 4093, 4094, 4095)
	}
	l := ls[sym.Choice(len(ls))]
	data := append([]byte(strings.Repeat("a\u00e9\u20ac", l/6+1)[:l/6*6]+strings.Repeat("x", l%6)), sym.Bytes(3)...)
	data = append(data, "z\n"...)
	end := endErr()
	rd := &step{chunked: chunked{data: data, end: end}, n: pick(1, 7, 64, 1<<20)}
	if sym.Choice(2) == 0 {
		runes(rd, data, end)
		return
	}
	it := iter.OfReader(rd)
	for i := range data {
		b, err := it.Next()
		sym.Assert(err == nil && b == data[i], "bytes: wrong byte")
	}
	b, err := it.Next()
	sym.Assert(b == 0 && err == want(end), "bytes: wrong end")
}

// C16_Long: long lines, and many of them, around any three characters.
func C16_Long() {
	ls := []int{1, 15, 63, 64, 127, 255}
	if sym.Thorough() {
		ls = append(ls, 511, 1023, 4094, 4095, 4096)
	}
	l := ls[sym.Choice(len(ls))]
	s := strings.Repeat("x", l) + sym.StringOf(3, "\r\na") + strings.Repeat("y", l)
	if sym.Choice(2) == 1 {
		s = strings.Repeat("a\nb\r\n\r", 10) + s + sym.StringOf(1, "\r\na") + strings.Repeat("\n\rc", 5)
	}
	var next func() (string, error)
	switch sym.Choice(3) {
	case 0:
		next = iter.OfStringAsLines(s).Next
	case 1:
		next = iter.OfReaderAsLines(&step{chunked: chunked{data: []byte(s), end: goio.EOF}, n: pick(1, 64, 1<<20)}).Next
	case 2:
		next = iter.ReaderAsLinesIterGen(&chunked{data: []byte(s), end: goio.EOF})
	}
	for _, w := range lines(s) {
		l, err := next()
		sym.Assert(err == nil, "lines: a line is lost")
		sym.Assert(l == w, "lines: another line")
	}
	for i := 0; i < 2; i++ {
		l, err := next()
		sym.Assert(l == "" && err == iter.EOI, "lines: no end after the last line")
	}
}
