package main

// Loading the code under test and facts shared read-only by all the workers.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const harnessModule = "verifharness"
const microModule = "github.com/bantling/micro"

type harnessOpts struct {
	bv       bool
	mapOrder int
	steps    int
	thorough bool // only in the thorough tier
	qtimeout int  // ms per query
	fallback int  // s per fallback portfolio
	replays  int
	race     bool
	opaque   bool // integer to text conversions give unknown text
}

type Harness struct {
	Name  string // function name, e.g. C01_AddInt64
	Prop  string
	Pkg   string
	Fn    *ssa.Function
	Opt   harnessOpts
	Doc   string
	state *harnessState
}

type Shared struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	harnesses []*Harness
	fninfo    sync.Map
	canonMu   sync.Mutex
	canonTab  typeutil.Map
	canonFast sync.Map
	typeIDs   map[types.Type]int
	sizes     types.Sizes
	rtErrType types.Type
	rtype     types.Type // *reflect.rtype
	byPath    map[string]*ssa.Package
}

func Load(dir string, patterns []string) (*Shared, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	ov, err := standIns(dir, patterns)
	if err != nil {
		return nil, err
	}
	cfg.Overlay = ov
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, harnessModule) || strings.HasPrefix(p.PkgPath, microModule) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	sh := &Shared{prog: prog, pkgs: pkgs, typeIDs: map[types.Type]int{}, sizes: types.SizesFor("gc", "amd64"), byPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		sh.byPath[p.Pkg.Path()] = p
	}
	if p := sh.byPath["runtime"]; p != nil {
		if t := p.Type("errorString"); t != nil {
			sh.rtErrType = sh.canonType(t.Type())
		}
	}
	if sh.rtErrType == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	if p := sh.byPath["reflect"]; p != nil {
		sh.rtype = sh.canonType(types.NewPointer(p.Type("rtype").Type()))
	}
	// harnesses
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !fd.Name.IsExported() {
					continue
				}
				id, _, ok := strings.Cut(fd.Name.Name, "_")
				if !ok || len(id) != 3 || id[0] != 'C' {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Prop: id, Pkg: p.PkgPath, Fn: sp.Func(fd.Name.Name)}
				h.Opt.steps = 3000000
				h.Opt.qtimeout = 10000
				h.Opt.fallback = 30
				h.Opt.replays = 1
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						txt := strings.TrimPrefix(c.Text, "//")
						if o, ok := strings.CutPrefix(txt, "sym:"); ok {
							k, v, _ := strings.Cut(strings.TrimSpace(o), " ")
							n, _ := strconv.Atoi(v)
							switch k {
							case "bv":
								h.Opt.bv = true
							case "int":
								h.Opt.bv = false
							case "maporder":
								h.Opt.mapOrder = n
							case "steps":
								h.Opt.steps = n
							case "opaquetext":
								h.Opt.opaque = true
							case "race":
								h.Opt.race = true
							case "thorough":
								h.Opt.thorough = true
							case "qtimeout":
								h.Opt.qtimeout = n
							case "fallback":
								h.Opt.fallback = n
							case "replays":
								h.Opt.replays = n
							default:
								return nil, fmt.Errorf("%s: unknown option %s", h.Name, k)
							}
						} else {
							h.Doc += strings.TrimSpace(txt) + " "
						}
					}
				}
				sh.harnesses = append(sh.harnesses, h)
			}
		}
	}
	sort.Slice(sh.harnesses, func(i, j int) bool { return sh.harnesses[i].Name < sh.harnesses[j].Name })
	return sh, nil
}

func (s *Shared) isModule(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return strings.HasPrefix(path, harnessModule) || strings.HasPrefix(path, microModule)
}

func (s *Shared) canonType(t types.Type) types.Type {
	if v, ok := s.canonFast.Load(t); ok {
		return v.(types.Type)
	}
	s.canonMu.Lock()
	defer s.canonMu.Unlock()
	u := types.Unalias(t)
	var r types.Type
	if v := s.canonTab.At(u); v != nil {
		r = v.(types.Type)
	} else {
		s.canonTab.Set(u, u)
		s.typeIDs[u] = len(s.typeIDs) + 1
		r = u
	}
	s.canonFast.Store(t, r)
	return r
}

func (s *Shared) typeID(t types.Type) int {
	c := s.canonType(t)
	s.canonMu.Lock()
	defer s.canonMu.Unlock()
	return s.typeIDs[c]
}

func (s *Shared) sizeof(t types.Type) (n int) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return int(s.sizes.Sizeof(t))
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows runtime.growslice.
func (s *Shared) growCap(old, n, size int) int {
	nc := old
	if d := old + old; n > d {
		nc = n
	} else if old < 256 {
		nc = d
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < n {
		nc = n
	}
	if size == 0 {
		return nc
	}
	b := nc * size
	for _, c := range sizeClasses {
		if c >= b {
			return c / size
		}
	}
	return (b + 8191) / 8192 * 8192 / size
}

func (s *Shared) noteArray(m *Machine, p *Value, a []Value) { m.side[p] = Slice{a: a} }

func (s *Shared) findArray(m *Machine, p *Value, n int) []Value {
	if v, ok := m.side[p].(Slice); ok && cap(v.a) >= n {
		return v.a[:n]
	}
	if n == 1 {
		m.unsupported("unsafe view of a single element")
	}
	m.unsupported("unsafe array view")
	return nil
}
