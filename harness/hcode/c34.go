// Package hcode: the code generator, with package fakeos in place of package os.
package hcode

import (
	"path"
	"strings"

	"github.com/bantling/micro/code"
	"verifharness/fakeos"
	"verifharness/sym"
)

func size(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

func panics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return
}

// put gives a path one of the states a path can be in: absent, directory, file, directory that cannot be read or
// changed.
func put(d *fakeos.Disk, p string) {
	if n := d.Get(path.Dir(p)); n == nil || !n.Dir {
		return
	}
	switch sym.Choice(4) {
	case 1:
		d.Put(p, true, 0o755)
	case 2:
		d.Put(p, false, 0o644)
	case 3:
		d.Put(p, true, 0)
	}
}

func abs(p string) string {
	if p[0] != '/' {
		p = "/w/" + p
	}
	return path.Clean(p)
}

func below(p, dir string) bool { return p == dir || dir == "/" || strings.HasPrefix(p, dir+"/") }

// nowhere is below no path.
const nowhere = "nowhere"

func same(a, b fakeos.Node) bool {
	return a.Path == b.Path && a.Dir == b.Dir && a.Perm == b.Perm && string(a.Data) == string(b.Data)
}

func find(l []fakeos.Node, p string) *fakeos.Node {
	for i := range l {
		if l[i].Path == p {
			return &l[i]
		}
	}
	return nil
}

// outside checks that nothing changed outside the directory, but for parents of it that were missing.
func outside(before, after []fakeos.Node, dir string) {
	for _, n := range before {
		if below(n.Path, dir) {
			continue
		}
		m := find(after, n.Path)
		sym.Assert(m != nil && same(n, *m), "nothing outside the base path is removed or changed")
	}
	for _, n := range after {
		if below(n.Path, dir) || find(before, n.Path) != nil {
			continue
		}
		sym.Assert(n.Dir && below(dir, n.Path), "nothing outside the base path is created but its parents")
		sym.Assert(n.Perm&0o700 == 0o700, "directories that are created can be used")
	}
}

func basePath(n int) string {
	p := sym.StringOf(1+sym.Choice(n), "a/.")
	sym.Assume(!strings.Contains(p, ".."))
	return p
}

// C34_SetBasePath: setting the base path empties that directory, or creates it, and touches nothing else; setting it
// again is refused and touches nothing at all. An operation that fails is reported.
func C34_SetBasePath() {
	d := fakeos.New()
	put(d, "/a")
	put(d, "/w/a")
	put(d, "/w/a/a")
	d.Fault = sym.Choice(4)
	var g code.BaseGenerator
	sym.Assert(panics(func() { g.GetBasePath() }), "there is no base path until it is set")
	bp := basePath(size(3, 4))
	q := abs(bp)
	before := d.Copy()
	failed := panics(func() { g.SetBasePath(bp) })
	after := d.Copy()
	outside(before, after, q)
	was := find(before, q)
	if failed {
		if was != nil && !was.Dir {
			n := find(after, q)
			sym.Assert(n != nil && same(*was, *n), "a file is not replaced by the base path")
			sym.Reach("file")
		}
		usable := !d.Failed && path.Clean(bp) != "." && q != "/"
		for i := 1; i <= len(q); i++ {
			if i == len(q) || q[i] == '/' {
				if n := find(before, q[:i]); n != nil && (!n.Dir || n.Perm == 0) {
					usable = false
				}
			}
		}
		for _, n := range before {
			if below(n.Path, q) && n.Perm == 0 {
				usable = false // what is below need not be removable
			}
		}
		sym.Assert(!usable, "a usable base path is accepted")
		return
	}
	sym.Assert(!d.Failed, "a failing operation is reported")
	sym.Assert(path.Clean(g.GetBasePath()) == path.Clean(bp), "the base path is the one set")
	for _, n := range after {
		sym.Assert(n.Path == q || !below(n.Path, q), "the base path is empty once set")
	}
	n := find(after, q)
	sym.Assert(n != nil && n.Dir, "the base path exists once set")
	sym.Assert(n.Perm&0o700 == 0o700, "the base path can be used once set")
	if was == nil {
		sym.Reach("created")
	} else {
		sym.Reach("emptied")
	}

	changes := d.Changes
	d.Fault = 0
	bp2 := basePath(2)
	sym.Assert(panics(func() { g.SetBasePath(bp2) }), "the base path cannot be set again")
	sym.Assert(d.Changes == changes, "an attempt to set the base path again touches nothing")
	sym.Assert(path.Clean(g.GetBasePath()) == path.Clean(bp), "an attempt to set the base path again does not change it")
}

// spelling gives another way to write a path.
func spelling(p string) string {
	return []string{p, "./" + p, p + "/", "/" + p, "c/../" + p}[sym.Choice(5)]
}

// C34_Sources: the directories and source files generated are below the base path where they were asked for, hold what
// was written to them and nothing else, and are not generated twice.
func C34_Sources() {
	d := fakeos.New()
	d.Put("/w/z", true, 0o755)
	d.Put("/w/z/old", false, 0o644)
	d.Put("/a", false, 0o644)
	var g code.BaseGenerator
	g.SetBasePath("z")
	const base = "/w/z"
	dirs := []string{}           // directories generated
	cur, src, held := "", "", "" // held: what the current source file holds
	for i := 0; i < size(4, 5); i++ {
		before := d.Copy()
		kind := sym.Choice(3)
		if cur == "" {
			kind = 0 // a source file is created in the current directory
		}
		if kind == 2 && src == "" {
			kind = 1
		}
		switch kind {
		case 0:
			name := sym.StringOf(1, "ab")
			parent := base
			if len(dirs) > 0 && sym.Choice(2) == 1 {
				parent = dirs[0]
				name = parent[len(base)+1:] + "/" + name
			}
			at := base + "/" + name
			used := find(before, at) != nil
			failed := panics(func() { g.Dir(spelling(name)) })
			after := d.Copy()
			if used {
				sym.Assert(failed, "a directory is generated once")
				outside(before, after, nowhere)
				sym.Reach("again")
				continue
			}
			sym.Assert(!failed, "a directory is generated below one that was generated")
			n := find(after, at)
			sym.Assert(n != nil && n.Dir && n.Perm&0o700 == 0o700, "the directory is generated below the base path")
			sym.Assert(len(after) == len(before)+1, "one directory is generated")
			outside(before, after, at)
			dirs = append(dirs, at)
			cur = at
		case 1:
			name := sym.StringOf(1, "ab")
			at := cur + "/" + name
			used := find(before, at) != nil
			failed := panics(func() { g.Src(name) })
			after := d.Copy()
			if used {
				sym.Assert(failed, "a source file is generated once")
				outside(before, after, nowhere)
				sym.Reach("same source")
				continue
			}
			sym.Assert(!failed, "a source file is generated in the current directory")
			n := find(after, at)
			sym.Assert(n != nil && !n.Dir && len(n.Data) == 0, "the source file is generated in the current directory")
			sym.Assert(len(after) == len(before)+1, "one file is generated")
			outside(before, after, at)
			src, held = at, ""
		case 2:
			text := sym.String(sym.Choice(3))
			sym.Assert(g.CurrentSrc().Write(text) == nil, "text is written to the current source file")
			held += text
			after := d.Copy()
			n := find(after, src)
			sym.Assert(n != nil && string(n.Data) == held, "the source file holds what was written to it")
			sym.Assert(len(after) == len(before), "nothing is generated by writing")
			outside(before, after, src)
			sym.Reach("written")
		}
	}
}

// C34_Names: names mean what they say: nothing is trimmed, expanded or taken for another name.
func C34_Names() {
	d := fakeos.New()
	d.Put("/w/z", true, 0o755)
	d.Put("/w/z/old", false, 0o644)
	d.Put("/w/Z", true, 0o755)
	d.Put("/root", true, 0o755)
	d.Put("/w/z z", true, 0o755)
	d.Put("/w/z z/z", false, 0o644)
	names := []string{"z ", " z", "~", "Z", "z*", "$HOME", "...", ".z", "-z", "z\\z", "\u00e9", "z\n", "z:z", "%7a", "z z", sym.StringOf(2, "zZ ~-_$*?\\\"'")}
	base := names[sym.Choice(len(names))]
	var g code.BaseGenerator
	at := "/w/" + base
	before := d.Copy()
	g.SetBasePath(base)
	sym.Assert(g.GetBasePath() == base, "the base path is the one set")
	after := d.Copy()
	outside(before, after, at)
	if base != "z" && base != "Z" && base != "z z" {
		n := find(after, at)
		sym.Assert(n != nil && n.Dir && len(after) == len(before)+1, "the base path is created")
	}
	dir, src := names[sym.Choice(len(names))], names[sym.Choice(len(names))]
	before = after
	g.Dir(dir)
	after = d.Copy()
	n := find(after, at+"/"+dir)
	sym.Assert(n != nil && n.Dir && len(after) == len(before)+1, "the directory is generated below the base path")
	outside(before, after, at+"/"+dir)
	before = after
	g.Src(src)
	after = d.Copy()
	n = find(after, at+"/"+dir+"/"+src)
	sym.Assert(n != nil && !n.Dir && len(after) == len(before)+1, "the source file is generated in the current directory")
	outside(before, after, at+"/"+dir+"/"+src)
	sym.Assert(g.CurrentSrc().Write("x") == nil && string(find(d.Copy(), at+"/"+dir+"/"+src).Data) == "x", "the source file holds what was written to it")
	other := strings.ToUpper(src)
	sym.Assert(panics(func() { g.Src(other) }) == (other == src), "a name in other letters is another name")
	sym.Reach("generated")
}
