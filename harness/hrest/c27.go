// Package hrest: the request multiplexer.
package hrest

import (
	"net/http"
	"net/url"

	"github.com/bantling/micro/rest"
	"verifharness/sym"
)

func size(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// answer records what was answered.
type answer struct {
	head   http.Header
	status []int
	body   []byte
}

func (a *answer) Header() http.Header { return a.head }
func (a *answer) Write(p []byte) (int, error) {
	a.body = append(a.body, p...)
	return len(p), nil
}
func (a *answer) WriteHeader(s int) { a.status = append(a.status, s) }

// call is one invocation of a handler.
type call struct {
	handler int
	parts   []string
	w       http.ResponseWriter
	r       *http.Request
}

// pattern is a regular expression and what it means: the parts it captures from a path, nil if it does not match.
type pattern struct {
	text  string
	parts func(p string) []string
}

func lower(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] < 'a' || p[i] > 'z' {
			return false
		}
	}
	return len(p) > 0
}

var patterns = []pattern{
	{"^/a$", func(p string) []string {
		if p == "/a" {
			return []string{p}
		}
		return nil
	}},
	{"^/([a-z]+)$", func(p string) []string {
		if p[0] == '/' && lower(p[1:]) {
			return []string{p, p[1:]}
		}
		return nil
	}},
	{"^/([a-z])/([a-z])$", func(p string) []string {
		if len(p) == 4 && p[0] == '/' && p[2] == '/' && lower(p[1:2]) && lower(p[3:]) {
			return []string{p, p[1:2], p[3:]}
		}
		return nil
	}},
	{"^/", func(p string) []string {
		if p[0] == '/' {
			return []string{"/"}
		}
		return nil
	}},
}

// C27_Serve: a request is served by the first handler registered whose method and pattern match, which is given what
// the pattern captures; otherwise the answer is 405 if some pattern matches, else 404.
func C27_Serve() {
	var (
		mux     rest.ServeMux
		calls   []call
		methods []string
		pats    []int
	)
	n := sym.Choice(size(4, 5))
	for i := 0; i < n; i++ {
		i := i
		m := sym.String(1)
		k := sym.Choice(len(patterns))
		methods, pats = append(methods, m), append(pats, k)
		err := mux.Handle(m, patterns[k].text, rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) {
			calls = append(calls, call{i, parts, w, r})
		}))
		sym.Assert(err == nil, "a valid registration is accepted")
	}
	path := sym.StringOf(1+sym.Choice(4), "/ab0")
	req := &http.Request{Method: sym.String(1), URL: &url.URL{Path: path}}
	ans := &answer{head: http.Header{}}
	mux.ServeHTTP(ans, req)

	want, matched := -1, false
	for i := range methods {
		if patterns[pats[i]].parts(path) != nil {
			matched = true
			if methods[i] == req.Method {
				want = i
				break
			}
		}
	}
	if want >= 0 {
		sym.Reach("served")
		sym.Assert(len(calls) == 1, "exactly one handler is called")
		c := calls[0]
		sym.Assert(c.handler == want, "the first matching handler is called")
		sym.Assert(c.w == http.ResponseWriter(ans) && c.r == req, "the handler is given the request and the response writer")
		parts := patterns[pats[want]].parts(path)
		sym.Assert(len(c.parts) == len(parts), "the handler is given what the pattern captures")
		for i := range parts {
			sym.Assert(c.parts[i] == parts[i], "the handler is given what the pattern captures, in order")
		}
		sym.Assert(len(ans.status) == 0 && len(ans.body) == 0, "nothing else is answered")
		return
	}
	sym.Assert(len(calls) == 0, "no handler is called")
	sym.Assert(len(ans.status) == 1, "one status is answered")
	if matched {
		sym.Reach("405")
		sym.Assert(ans.status[0] == 405, "405 when the path matches but no method does")
	} else {
		sym.Reach("404")
		sym.Assert(ans.status[0] == 404, "404 when no path matches")
	}
}

// text is a string of n bytes or none at all.
func text(alphabet string) string { return sym.StringOf(sym.Choice(2), alphabet) }

// C27_Handle: a registration without a method, a pattern that is a regular expression, or a handler, is refused and
// changes nothing; MustHandle panics with the same error.
func C27_Handle() {
	var (
		mux    rest.ServeMux
		served []int
		valid  []int
	)
	n := size(2, 3)
	for i := 0; i < n; i++ {
		i := i
		method := text("GP")
		pat := []string{"", "^/a$", "^/(", "a**"}[sym.Choice(4)]
		var h rest.Handler
		if sym.Choice(2) == 1 {
			h = rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) { served = append(served, i) })
		}
		ok := method != "" && pat == "^/a$" && h != nil
		if sym.Choice(2) == 0 {
			err := mux.Handle(method, pat, h)
			sym.Assert((err == nil) == ok, "a registration is accepted exactly when it is valid")
		} else {
			func() {
				defer func() {
					sym.Assert((recover() == nil) == ok, "MustHandle panics exactly when a registration is not valid")
				}()
				mux.MustHandle(method, pat, h)
			}()
		}
		if ok && method == "G" {
			valid = append(valid, i)
		}
	}
	ans := &answer{head: http.Header{}}
	mux.ServeHTTP(ans, &http.Request{Method: "G", URL: &url.URL{Path: "/a"}})
	if len(valid) == 0 {
		sym.Assert(len(served) == 0 && len(ans.status) == 1, "a refused registration is not served")
		return
	}
	sym.Reach("served")
	sym.Assert(len(served) == 1 && served[0] == valid[0], "the first registration that was accepted is served")
}

// C27_Again: requests are independent: what was answered before does not change what is answered, and a handler
// registered between requests, by a handler even, takes part from the next one on.
func C27_Again() {
	var (
		mux    rest.ServeMux
		served int
	)
	handle := func(m, pat string, id int) {
		mux.MustHandle(m, pat, rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) { served = id }))
	}
	inside := sym.Choice(2) == 1
	extra := func() { handle("P", "^/x$", 2) }
	mux.MustHandle("G", "^/x$", rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) {
		served = 1
		if inside {
			inside = false
			extra()
		}
	}))
	added := false
	for i := 0; i < size(3, 4); i++ {
		if !inside && !added && sym.Choice(2) == 1 {
			extra()
			added = true
		}
		m := sym.StringOf(1, "GP")
		p := "/" + sym.StringOf(1, "xy")
		ans := &answer{head: http.Header{}}
		served = 0
		was := inside
		mux.ServeHTTP(ans, &http.Request{Method: m, URL: &url.URL{Path: p}})
		switch {
		case p != "/x":
			sym.Assert(served == 0 && len(ans.status) == 1 && ans.status[0] == 404, "404 when no path matches")
		case m == "G":
			sym.Assert(served == 1 && len(ans.status) == 0, "the handler is called")
			if was {
				added = true
			}
		case added:
			sym.Assert(served == 2 && len(ans.status) == 0, "the handler registered later is called")
			sym.Reach("added")
		default:
			sym.Assert(served == 0 && len(ans.status) == 1 && ans.status[0] == 405, "405 when no method matches")
		}
	}
}

// C27_Concurrent: handlers may be registered while requests are served: each request is answered as if it came before
// or after each registration, and those that come after see it.
//
//sym:race
func C27_Concurrent() {
	mux := &rest.ServeMux{}
	ids := make(chan int, 8)
	handle := func(m string, id int) {
		mux.MustHandle(m, "^/x$", rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) { ids <- id }))
	}
	request := func(m string) int {
		ans := &answer{head: http.Header{}}
		mux.ServeHTTP(ans, &http.Request{Method: m, URL: &url.URL{Path: "/x"}})
		if len(ans.status) > 0 {
			return ans.status[0]
		}
		return <-ids
	}
	first := sym.Choice(2) == 1
	if first {
		handle("G", 1)
	}
	done := make(chan struct{})
	go func() {
		handle("P", 2)
		close(done)
	}()
	got := request("P")
	if first {
		sym.Assert(got == 405 || got == 2, "the answer is that of a table with or without the new handler")
	} else {
		sym.Assert(got == 404 || got == 2, "the answer is that of a table with or without the new handler")
	}
	if got == 2 {
		sym.Reach("new")
	} else {
		sym.Reach("old")
	}
	<-done
	sym.Assert(request("P") == 2, "a registration is seen by the requests that come after it")
}

// C27_Register: registrations made concurrently are all kept.
//
//sym:race
func C27_Register() {
	mux := &rest.ServeMux{}
	done := make(chan struct{})
	served := 0
	handle := func(m string, id int) {
		mux.MustHandle(m, "^/x$", rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) { served = id }))
	}
	go func() {
		handle("P", 2)
		close(done)
	}()
	handle("G", 1)
	<-done
	for i, m := range []string{"G", "P"} {
		served = 0
		mux.ServeHTTP(&answer{head: http.Header{}}, &http.Request{Method: m, URL: &url.URL{Path: "/x"}})
		sym.Assert(served == i+1, "every registration is kept")
	}
}

// C27_Many: the first matching handler among many, wherever it is.
func C27_Many() {
	var (
		mux  rest.ServeMux
		last = -1
		n    = 12
		at   = sym.Choice(n)
		pos  = sym.Choice(n)
		part []string
	)
	for i := 0; i < n; i++ {
		i := i
		m, pat := "P", "^/([a-z]+)/"+string([]byte{byte('a' + i)})+"$"
		if i == at {
			m, pat = "G", "^/([a-z]+)/([a-z])$"
		}
		if i == pos {
			m = "G"
		}
		mux.MustHandle(m, pat, rest.HandlerFunc(func(_ http.ResponseWriter, _ *http.Request, p []string) { last, part = i, p }))
	}
	c := sym.StringOf(1, "abcdefghijklmn0")
	p := "/long/" + c
	ans := &answer{head: http.Header{}}
	mux.ServeHTTP(ans, &http.Request{Method: "G", URL: &url.URL{Path: p}})
	want := -1
	switch {
	case at != pos && pos < at && c == string([]byte{byte('a' + pos)}):
		want = pos
	case c != "0":
		want = at
	}
	sym.Assert(last == want, "the first matching handler is called")
	if want < 0 {
		sym.Assert(len(ans.status) == 1 && ans.status[0] == 404, "404 when no path matches")
		return
	}
	sym.Assert(len(ans.status) == 0 && part[0] == p && part[1] == "long", "the handler is given what the pattern captures")
	sym.Assert(want != at || (len(part) == 3 && part[2] == c), "the handler is given what the pattern captures")
}

// C27_Methods: the methods of HTTP and names like theirs, none of which stands for another.
func C27_Methods() {
	names := []string{"GET", "HEAD", "POST", "OPTIONS", "get", "*", "GETX"}
	if sym.Thorough() {
		names = append(names, "PUT", "PATCH", "DELETE", "CONNECT", "TRACE", "Get", " GET", "ANY", "")
	}
	var (
		mux     rest.ServeMux
		served  = -1
		methods []string
	)
	for i := 0; i < 2; i++ {
		i := i
		m := names[sym.Choice(len(names))]
		err := mux.Handle(m, "^/x$", rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) { served = i }))
		sym.Assert((err == nil) == (m != ""), "a registration is accepted exactly when it is valid")
		methods = append(methods, m)
	}
	m := names[sym.Choice(len(names))]
	sym.Assume(m != "")
	ans := &answer{head: http.Header{}}
	mux.ServeHTTP(ans, &http.Request{Method: m, URL: &url.URL{Path: "/x"}, Header: http.Header{"X-Http-Method-Override": {"GET"}}})
	want := -1
	if methods[0] == m {
		want = 0
	} else if methods[1] == m {
		want = 1
	}
	sym.Assert(served == want, "the first handler of the method is called")
	if want < 0 && methods[0]+methods[1] != "" {
		sym.Assert(len(ans.status) == 1 && ans.status[0] == 405, "405 when the path matches but no method does")
		return
	}
	sym.Reach("served")
}

// leftmost is the first place of a character in a path.
func leftmost(p string, c byte) int {
	for i := 0; i < len(p); i++ {
		if p[i] == c {
			return i
		}
	}
	return -1
}

var shapes = []pattern{
	// matches nothing at the start of any path
	{"x*", func(p string) []string { return []string{""} }},
	// not anchored
	{"b", func(p string) []string {
		if leftmost(p, 'b') >= 0 {
			return []string{"b"}
		}
		return nil
	}},
	// characters that are escaped in a URL
	{"^/a b$", func(p string) []string {
		if p == "/a b" {
			return []string{p}
		}
		return nil
	}},
	{"^/(.)%", func(p string) []string {
		if len(p) > 2 && p[2] == '%' {
			return []string{p[:3], p[1:2]}
		}
		return nil
	}},
	// a group that takes no part, and groups within groups
	{"^/(a)?((b)|( ))", func(p string) []string {
		q, a := p[1:], ""
		if len(q) > 0 && q[0] == 'a' {
			a, q = "a", q[1:]
		}
		if len(q) == 0 || (q[0] != 'b' && q[0] != ' ') {
			return nil
		}
		if q[0] == 'b' {
			return []string{"/" + a + "b", a, "b", "b", ""}
		}
		return []string{"/" + a + " ", a, " ", "", " "}
	}},
}

// C27_Shapes: patterns that match nothing or in the middle, paths that a URL has to escape, groups that take no part.
func C27_Shapes() {
	var (
		mux     rest.ServeMux
		calls   []call
		methods []string
		pats    []int
	)
	for i := 0; i < 2; i++ {
		i := i
		m := sym.StringOf(1, "GP")
		k := sym.Choice(len(shapes))
		methods, pats = append(methods, m), append(pats, k)
		mux.MustHandle(m, shapes[k].text, rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) {
			calls = append(calls, call{i, parts, w, r})
		}))
	}
	path := "/" + sym.StringOf(sym.Choice(size(4, 5)), "ab %?x")
	ans := &answer{head: http.Header{}}
	mux.ServeHTTP(ans, &http.Request{Method: "G", URL: &url.URL{Path: path, RawQuery: "b", Fragment: "b"}, RequestURI: "/b", Host: "b"})
	want, matched := -1, false
	for i := len(methods) - 1; i >= 0; i-- {
		if shapes[pats[i]].parts(path) != nil {
			matched = true
			if methods[i] == "G" {
				want = i
			}
		}
	}
	if want < 0 {
		sym.Assert(len(calls) == 0 && len(ans.status) == 1, "no handler is called, one status is answered")
		if matched {
			sym.Reach("405")
			sym.Assert(ans.status[0] == 405, "405 when the path matches but no method does")
		} else {
			sym.Reach("404")
			sym.Assert(ans.status[0] == 404, "404 when no path matches")
		}
		return
	}
	sym.Reach("served")
	sym.Assert(len(calls) == 1 && calls[0].handler == want && len(ans.status) == 0, "the first matching handler is called")
	parts, got := shapes[pats[want]].parts(path), calls[0].parts
	sym.Assert(len(got) == len(parts), "the handler is given what the pattern captures")
	for i := range parts {
		sym.Assert(got[i] == parts[i], "the handler is given what the pattern captures, in order")
	}
}

func hex(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

// C27_UUID: the pattern for a UUID captures exactly the texts of a UUID.
func C27_UUID() {
	var (
		mux  rest.ServeMux
		part []string
	)
	mux.MustHandle("G", "^/c/"+rest.UUIDGroup+"/d$", rest.HandlerFunc(func(_ http.ResponseWriter, _ *http.Request, p []string) { part = p }))
	id := []byte("01234567-89aB-cDef-0f1E-0123456789Ab")
	at := sym.Choice(len(id))
	c := sym.String(1)
	id[at] = c[0]
	ok := c[0] == '-'
	if at != 8 && at != 13 && at != 18 && at != 23 {
		ok = hex(c[0])
	}
	text := string(id)
	switch sym.Choice(4) {
	case 1:
		text, ok = text+"0", false
	case 2:
		text, ok = text[:35], false
	case 3:
		text, ok = text[1:], false
	}
	ans := &answer{head: http.Header{}}
	mux.ServeHTTP(ans, &http.Request{Method: "G", URL: &url.URL{Path: "/c/" + text + "/d"}})
	if !ok {
		sym.Assert(part == nil && len(ans.status) == 1 && ans.status[0] == 404, "a text that is not a UUID does not match")
		return
	}
	sym.Reach("served")
	sym.Assert(len(part) == 2 && part[1] == text, "the UUID is captured")
}
