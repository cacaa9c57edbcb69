package main

// Stand-ins: a file STANDIN in the folder of a harness says, line by line, "PACKAGE IMPORT REPLACEMENT": the sources of
// the package of the repository are compiled, for the executor and for the replays alike, with the import replaced by a
// package of the harness module that records what it is asked to do. Nothing else of the sources changes.

import (
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// repoOf is where the harness module in dir takes the repository from: the target of its replace directive.
func repoOf(dir string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if _, to, ok := strings.Cut(l, "=>"); ok && strings.HasPrefix(l, "replace github.com/bantling/micro ") {
			return strings.TrimSpace(to)
		}
	}
	return "/repo"
}

func standIns(dir string, patterns []string) (map[string][]byte, error) {
	r := map[string][]byte{}
	for _, p := range patterns {
		b, err := os.ReadFile(filepath.Join(dir, p, "STANDIN"))
		if err != nil {
			continue
		}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Fields(l)
			if len(f) != 3 {
				continue
			}
			files, _ := filepath.Glob(filepath.Join(repoOf(dir), f[0], "*.go"))
			for _, file := range files {
				if strings.HasSuffix(file, "_test.go") {
					continue
				}
				src := r[file]
				if src == nil {
					if src, err = os.ReadFile(file); err != nil {
						return nil, err
					}
				}
				fset := token.NewFileSet()
				af, err := parser.ParseFile(fset, file, src, parser.ImportsOnly)
				if err != nil {
					continue // the load reports it
				}
				for _, im := range af.Imports {
					if path, _ := strconv.Unquote(im.Path.Value); path != f[1] {
						continue
					}
					name := ""
					if im.Name == nil {
						name = filepath.Base(f[1]) + " "
					}
					at := fset.Position(im.Path.Pos()).Offset
					end := fset.Position(im.Path.End()).Offset
					r[file] = []byte(string(src[:at]) + name + strconv.Quote(f[2]) + string(src[end:]))
				}
			}
		}
	}
	return r, nil
}
