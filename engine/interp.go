package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jent struct {
	addr *Value
	old  Value
	undo func()
}

// Machine is one worker's interpreter: term table, solver, globals.
type Machine struct {
	sh        *Shared
	run       *Run
	bv        bool
	c         *TermCtx
	solver    *Solver
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]int // 1 running, 2 done
	consts    map[*ssa.Const]Value
	p         *Path
	initMode  bool
	journal   []jent
	intr      map[*ssa.Function]*intrinsic // resolved, nil entry = none
	sch       *Sched
	depth     int
	steps     int
	maxSteps  int
	covered   map[*ssa.Function]bool
	opt       harnessOpts
	nextPtr   int
	ptrIDs    map[interface{}]int
	onceDone  map[*Value]bool
	side      map[*Value]Value // per-path side state of intrinsics (mutex, wait groups)
	side2     map[*Value]interface{}
	texts     map[*Term][]decText // decimal texts made on this path
	bitops    map[*Term]bitop     // Int mode terms that are bitwise operations
	regex     map[*Value]*reObj
	implCache map[[2]types.Type]bool
	methCache map[methKey]*ssa.Function
}

type methKey struct {
	t    types.Type
	name string
}

type targetPanic struct{ v Iface }

type exitPanic int

type deferred struct {
	fn    Value
	args  []Value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	m                *Machine
	g                *G
	caller           *frame
	fn               *ssa.Function
	fi               *fnInfo
	block, prevBlock *ssa.BasicBlock
	env              []Value
	locals           []Value
	defers           *deferred
	result           Value
	panicking        bool
	panic            interface{}
	phitmps          []Value
}

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
}

func (s *Shared) info(fn *ssa.Function) *fnInfo {
	if v, ok := s.fninfo.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := fi.slots[v]; !ok {
			fi.slots[v] = fi.n
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, p := range fn.Locals {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	v, _ := s.fninfo.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (fr *frame) get(key ssa.Value) Value {
	switch key := key.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.m.constValue(key)
	case *ssa.Function:
		return key
	case *ssa.Builtin:
		return key
	case *ssa.Global:
		return fr.m.global(key)
	}
	return fr.env[fr.fi.slots[key]]
}

func (fr *frame) set(key ssa.Value, v Value) { fr.env[fr.fi.slots[key]] = v }

func (m *Machine) global(g *ssa.Global) *Value {
	if g.Pkg != nil && m.inited[g.Pkg] == 0 {
		m.initPackage(g.Pkg)
	}
	if a, ok := m.globals[g]; ok {
		return a
	}
	a := new(Value)
	*a = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = a
	return a
}

// initPackage runs a package initialiser concretely, outside any path journal.
func (m *Machine) initPackage(p *ssa.Package) {
	m.inited[p] = 1
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		m.inited[p] = 2
		return
	}
	oldMode, oldSteps := m.initMode, m.steps
	oldSch := m.sch
	m.sch = nil
	m.initMode = true
	savedP := m.p
	m.p = &Path{m: m, h: &Harness{}, facts: map[*Term]bool{}}
	func() {
		defer func() {
			m.initMode = oldMode
			m.steps = oldSteps
			m.p = savedP
			m.sch = oldSch
			m.inited[p] = 2
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					m.run.note("initialiser of " + p.Pkg.Path() + " stopped: " + r.msg)
				case targetPanic:
					m.run.note("initialiser of " + p.Pkg.Path() + " panicked: " + m.panicText(r))
				default:
					panic(r)
				}
			}
		}()
		m.call(nil, &G{}, fn, nil)
	}()
}

func (m *Machine) store(addr *Value, v Value) {
	if addr == nil {
		m.nilDeref()
	}
	switch nv := v.(type) {
	case Structure:
		if old, ok := (*addr).(Structure); ok && len(old) == len(nv) {
			for i := range nv {
				m.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if old, ok := (*addr).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				m.store(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.sch != nil && m.sch.multi {
		m.sch.access(addr, true)
	}
	if !m.initMode {
		m.journal = append(m.journal, jent{addr: addr, old: *addr})
	}
	*addr = v
}

// storeNR stores without a race check (atomics).
func (m *Machine) storeNR(addr *Value, v Value) {
	if !m.initMode {
		m.journal = append(m.journal, jent{addr: addr, old: *addr})
	}
	*addr = v
}

func (m *Machine) load(addr *Value) Value {
	if addr == nil {
		m.nilDeref()
	}
	if m.sch != nil && m.sch.multi {
		m.raceRead(addr)
	}
	return copyVal(*addr)
}

func (m *Machine) raceRead(addr *Value) {
	switch v := (*addr).(type) {
	case Structure:
		for i := range v {
			m.raceRead(&v[i])
		}
		return
	case Array:
		for i := range v {
			m.raceRead(&v[i])
		}
		return
	}
	m.sch.access(addr, false)
}

func (m *Machine) undo() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		j := m.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.addr = j.old
		}
	}
	for i := range m.journal {
		m.journal[i] = jent{}
	}
	m.journal = m.journal[:0]
}

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{Iface{t: m.sh.rtErrType, v: cstr(msg)}})
}

func (m *Machine) nilDeref() { m.rtPanic("invalid memory address or nil pointer dereference") }

func (m *Machine) unsupported(format string, a ...interface{}) {
	panic(pathEnd{endUnsupported, fmt.Sprintf(format, a...)})
}

func (m *Machine) panicText(p targetPanic) string {
	switch v := p.v.v.(type) {
	case Str:
		return v.s
	case *Term:
		if v.IsConst() {
			return constStr(v)
		}
	}
	if p.v.t == nil {
		return "nil"
	}
	if p.v.t != nil {
		var r string
		func() {
			defer func() { recover() }()
			if f := m.findMethod(p.v.t, "Error"); f != nil {
				if s, ok := m.call(nil, m.curG(), f, []Value{p.v.v}).(Str); ok {
					r = s.s
				}
			}
		}()
		if r != "" {
			return r
		}
	}
	return p.v.t.String()
}

func (m *Machine) curG() *G {
	if m.sch != nil {
		return m.sch.cur
	}
	return &G{}
}

// call invokes a function value.
func (m *Machine) call(caller *frame, g *G, fn Value, args []Value) Value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			m.nilDeref()
		}
		return m.callSSA(caller, g, fn, args, nil)
	case *Closure:
		if fn == nil {
			m.nilDeref()
		}
		return m.callSSA(caller, g, fn.Fn, args, fn.Env)
	case *Native:
		fr := &frame{m: m, g: g, caller: caller}
		return fn.f(fr, args)
	case *ssa.Builtin:
		return m.callBuiltin(caller, g, fn, args)
	case nil:
		m.nilDeref()
	}
	m.unsupported("call of %T", fn)
	return nil
}

func (m *Machine) callSSA(caller *frame, g *G, fn *ssa.Function, args []Value, env []Value) Value {
	it, ok := m.intr[fn]
	if !ok {
		it = lookupIntrinsic(m, fn)
		m.intr[fn] = it
	}
	if it != nil {
		fr := &frame{m: m, g: g, caller: caller, fn: fn}
		return it.f(fr, fn, args)
	}
	if m.opt.opaque && fn.Name() == "String" && fn.Signature.Recv() != nil && len(args) == 1 && fn.Pkg != nil && m.sh.isModule(fn.Pkg) {
		// texts do not matter to this harness
		return Str{s: "?", opaque: true}
	}
	if fn.Blocks == nil {
		m.unsupported("no body and no model for %s", fn)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		// lazily initialised; module packages are initialised in order by their importer
		if fn.Pkg != nil && m.inited[fn.Pkg] == 2 {
			return nil
		}
		if fn.Pkg != nil && m.inited[fn.Pkg] == 0 {
			if m.sh.isModule(fn.Pkg) {
				m.initPackage(fn.Pkg)
			}
			return nil
		}
	}
	m.covered[fn] = true
	m.depth++
	if m.depth > 3000 {
		m.unsupported("call depth limit in %s", fn)
	}
	fi := m.sh.info(fn)
	fr := &frame{m: m, g: g, caller: caller, fn: fn, fi: fi}
	fr.env = make([]Value, fi.n)
	fr.block = fn.Blocks[0]
	fr.locals = make([]Value, len(fn.Locals))
	for i, l := range fn.Locals {
		fr.locals[i] = m.zero(l.Type().Underlying().(*types.Pointer).Elem())
		fr.env[fi.slots[l]] = &fr.locals[i]
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("%s: %d args for %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[fi.slots[p]] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fi.slots[fv]] = env[i]
	}
	d := m.depth
	for fr.block != nil {
		m.runFrame(fr)
	}
	m.depth = d - 1
	return fr.result
}

func (m *Machine) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		// panicking
		r := recover()
		if _, ok := r.(targetPanic); !ok {
			panic(r) // engine control flow or bug
		}
		d := m.depth
		fr.panicking = true
		fr.panic = r
		fr.runDefers()
		m.depth = d
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered with unnamed results: zero results
			fr.result = m.zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}()
	for {
		nInstr := len(fr.block.Instrs)
		// phis first, in parallel
		start := 0
		for start < nInstr {
			if _, ok := fr.block.Instrs[start].(*ssa.Phi); !ok {
				break
			}
			start++
		}
		if start > 0 {
			pred := -1
			for i, b := range fr.block.Preds {
				if b == fr.prevBlock {
					pred = i
					break
				}
			}
			fr.phitmps = fr.phitmps[:0]
			for i := 0; i < start; i++ {
				fr.phitmps = append(fr.phitmps, fr.get(fr.block.Instrs[i].(*ssa.Phi).Edges[pred]))
			}
			for i := 0; i < start; i++ {
				fr.set(fr.block.Instrs[i].(*ssa.Phi), fr.phitmps[i])
			}
		}
		m.steps += nInstr
		if m.steps > m.maxSteps {
			panic(pathEnd{endSteps, "step limit in " + fr.fn.String()})
		}
		if m.steps&0xffff < nInstr {
			m.checkStop()
		}
		jumped := false
		for _, instr := range fr.block.Instrs[start:] {
			switch m.visit(fr, instr) {
			case kReturn:
				return
			case kJump:
				jumped = true
			}
			if jumped {
				break
			}
		}
	}
}

func (fr *frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			if _, isT := r.(targetPanic); !isT {
				panic(r)
			}
			fr.panicking = true
			fr.panic = r
		}
	}()
	fr.m.call(fr, fr.g, d.fn, d.args)
	ok = true
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = d.tail {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.panic)
	}
}

type contKind int

const (
	kNext contKind = iota
	kReturn
	kJump
)

func (m *Machine) visit(fr *frame, instr ssa.Instruction) contKind {
	switch instr := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(instr, m.unop(fr, instr, fr.get(instr.X)))
	case *ssa.BinOp:
		fr.set(instr, m.binop(instr.Op, instr.X.Type(), instr.Y.Type(), fr.get(instr.X), fr.get(instr.Y)))
	case *ssa.Call:
		fn, args := m.prepareCall(fr, &instr.Call)
		fr.set(instr, m.call(fr, fr.g, fn, args))
	case *ssa.ChangeInterface:
		fr.set(instr, fr.get(instr.X))
	case *ssa.ChangeType:
		fr.set(instr, fr.get(instr.X))
	case *ssa.Convert:
		fr.set(instr, m.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))
	case *ssa.MultiConvert:
		fr.set(instr, m.conv(instr.Type(), instr.X.Type(), fr.get(instr.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(instr.X).(Slice)
		n := int(instr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if n > len(s.a) {
			m.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s.nil_ {
			fr.set(instr, (*Value)(nil))
		} else {
			v := new(Value)
			*v = Array(s.a[:n:n])
			fr.set(instr, v)
		}
	case *ssa.MakeInterface:
		v := fr.get(instr.X)
		fr.set(instr, Iface{t: m.canon(instr.X.Type()), v: v})
	case *ssa.Extract:
		fr.set(instr, fr.get(instr.Tuple).(Tuple)[instr.Index])
	case *ssa.Slice:
		fr.set(instr, m.sliceOp(fr, instr))
	case *ssa.Return:
		switch len(instr.Results) {
		case 0:
		case 1:
			fr.result = fr.get(instr.Results[0])
		default:
			res := make(Tuple, len(instr.Results))
			for i, r := range instr.Results {
				res[i] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(instr.X).(Iface)
		if v.t == nil {
			m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(targetPanic{v})
	case *ssa.Store:
		switch a := fr.get(instr.Addr).(type) {
		case *Value:
			m.store(a, fr.get(instr.Val))
		default:
			m.unsupported("store through %T", a)
		}
	case *ssa.If:
		succ := 1
		if m.p.branch(fr.get(instr.Cond).(*Term)) {
			succ = 0
		}
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[succ]
		return kJump
	case *ssa.Jump:
		fr.prevBlock, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &instr.Call)
		defers := &fr.defers
		if instr.DeferStack != nil {
			if ds, ok := fr.get(instr.DeferStack).(**deferred); ok {
				defers = ds
			}
		}
		*defers = &deferred{fn: fn, args: args, instr: instr, tail: *defers}
	case *ssa.Go:
		fn, args := m.prepareCall(fr, &instr.Call)
		m.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := m.concInt(fr.get(instr.Size))
		fr.set(instr, &Chan{cap: n})
	case *ssa.Send:
		m.chanSend(fr, fr.get(instr.Chan).(*Chan), fr.get(instr.X))
	case *ssa.Alloc:
		var addr *Value
		if instr.Heap {
			addr = new(Value)
			fr.set(instr, addr)
		} else {
			addr = fr.get(instr).(*Value)
		}
		*addr = m.zero(instr.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.MakeSlice:
		n := m.concLen(fr.get(instr.Len))
		c := m.concLen(fr.get(instr.Cap))
		if c < n {
			m.rtPanic("makeslice: cap out of range")
		}
		fr.set(instr, Slice{a: m.mkElems(instr.Type().Underlying().(*types.Slice).Elem(), n, c)})
	case *ssa.MakeMap:
		mt := instr.Type().Underlying().(*types.Map)
		fr.set(instr, m.newMap(mt.Key(), mt.Elem()))
	case *ssa.Range:
		fr.set(instr, m.rangeIter(fr.get(instr.X), instr.X.Type()))
	case *ssa.Next:
		fr.set(instr, fr.get(instr.Iter).(iterator).next(m))
	case *ssa.FieldAddr:
		p, ok := fr.get(instr.X).(*Value)
		if !ok {
			m.unsupported("field of %T", fr.get(instr.X))
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Structure)
		if !ok {
			m.unsupported("field address in %T (%s)", *p, fr.fn)
		}
		fr.set(instr, &s[instr.Field])
	case *ssa.Field:
		s, ok := fr.get(instr.X).(Structure)
		if !ok {
			m.unsupported("field in %T (%s)", fr.get(instr.X), fr.fn)
		}
		fr.set(instr, s[instr.Field])
	case *ssa.IndexAddr:
		fr.set(instr, m.indexAddr(fr, instr))
	case *ssa.Index:
		switch x := fr.get(instr.X).(type) {
		case Array:
			fr.set(instr, m.indexVal([]Value(x), fr.get(instr.Index).(*Term), instr.Type()))
		case Str:
			fr.set(instr, m.indexStr(x, fr.get(instr.Index).(*Term)))
		default:
			m.unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		switch x := fr.get(instr.X).(type) {
		case *Map:
			v, ok := m.mapLookup(x, fr.get(instr.Index))
			if !ok {
				v = m.zero(instr.X.Type().Underlying().(*types.Map).Elem())
			} else {
				v = copyVal(v)
			}
			if instr.CommaOk {
				fr.set(instr, Tuple{v, m.c.Bool(ok)})
			} else {
				fr.set(instr, v)
			}
		case Str:
			fr.set(instr, m.indexStr(x, fr.get(instr.Index).(*Term)))
		default:
			m.unsupported("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		mp := fr.get(instr.Map).(*Map)
		m.mapUpdate(mp, fr.get(instr.Key), copyVal(fr.get(instr.Value)))
	case *ssa.TypeAssert:
		fr.set(instr, m.typeAssert(instr, fr.get(instr.X).(Iface)))
	case *ssa.MakeClosure:
		b := make([]Value, len(instr.Bindings))
		for i, x := range instr.Bindings {
			b[i] = fr.get(x)
		}
		fr.set(instr, &Closure{Fn: instr.Fn.(*ssa.Function), Env: b})
	case *ssa.Select:
		fr.set(instr, m.selectOp(fr, instr))
	default:
		m.unsupported("instruction %T", instr)
	}
	return kNext
}

func (m *Machine) canon(t types.Type) types.Type { return m.sh.canonType(t) }

func (m *Machine) prepareCall(fr *frame, call *ssa.CallCommon) (fn Value, args []Value) {
	v := fr.get(call.Value)
	if call.Method == nil {
		fn = v
		if call.StaticCallee() == nil {
			// nil func values are represented as (*Closure)(nil)
		}
	} else {
		recv := v.(Iface)
		if recv.t == nil {
			m.nilDeref()
		}
		f := m.findMethodObj(recv.t, call.Method)
		if f == nil {
			m.unsupported("method %s of %s", call.Method.Name(), recv.t)
		}
		fn = f
		args = append(args, copyVal(recv.v))
	}
	for _, a := range call.Args {
		args = append(args, fr.get(a))
	}
	return
}

func (m *Machine) findMethodObj(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	f := m.sh.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.methCache[k] = f
	return f
}

func (m *Machine) findMethod(t types.Type, name string) *ssa.Function {
	k := methKey{t, name}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	ms := m.sh.prog.MethodSets.MethodSet(t)
	var f *ssa.Function
	if sel := ms.Lookup(nil, name); sel != nil && token.IsExported(name) {
		f = m.sh.prog.MethodValue(sel)
	}
	m.methCache[k] = f
	return f
}

// ---- slices and indexing

func (m *Machine) mkElems(et types.Type, n, c int) []Value {
	if c > 1<<20 {
		m.unsupported("slice of %d elements", c)
	}
	a := make([]Value, c)
	if c > 0 {
		z := m.zero(et)
		_, s1 := z.(Structure)
		_, s2 := z.(Array)
		for i := range a {
			if s1 || s2 {
				a[i] = m.zero(et)
			} else {
				a[i] = z
			}
		}
	}
	return a[:n]
}

// concInt concretises an integer value (forking when symbolic).
func (m *Machine) concInt(v Value) int {
	t := v.(*Term)
	if !t.IsConst() {
		t = m.p.concretize(t)
	}
	n, ok := cint(t)
	if !ok {
		u, _ := cuint(t)
		if u > 1<<62 {
			return 1 << 62
		}
		return int(u)
	}
	return int(n)
}

func (m *Machine) concLen(v Value) int {
	t := v.(*Term)
	if !t.IsConst() {
		// negative lengths panic
		if m.p.branch(m.ltZero(t)) {
			m.rtPanic("makeslice: len out of range")
		}
		t = m.p.concretize(t)
	}
	n, ok := cint(t)
	if !ok || n < 0 {
		m.rtPanic("makeslice: len out of range")
	}
	return int(n)
}

func (m *Machine) ltZero(t *Term) *Term {
	if m.bv {
		return m.c.BCmp(OBSlt, t, m.c.BV(t.sort.W, 0))
	}
	return m.c.Lt(t, m.c.Int64(0))
}

// inRange is 0 <= idx < n for an index term of any integer type.
func (m *Machine) inRange(idx *Term, n int) *Term {
	if m.bv {
		w := idx.sort.W
		if w < 63 && n > int(mask(w)) {
			return m.c.True // narrow unsigned index; signed narrow indexes are extended by the caller
		}
		return m.c.BCmp(OBUlt, idx, m.c.BV(w, uint64(n)))
	}
	return m.c.And(m.c.Le(m.c.Int64(0), idx), m.c.Lt(idx, m.c.Int64(int64(n))))
}

func (m *Machine) widenIndex(idx *Term, t types.Type) *Term {
	if !m.bv || idx.sort.W == 64 {
		return idx
	}
	_, signed := intInfo(t)
	if signed {
		return m.c.Sext(idx, 64)
	}
	return m.c.Zext(idx, 64)
}

func (m *Machine) boundsCheck(idx *Term, n int) {
	ok := m.inRange(idx, n)
	if !m.p.branch(ok) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Machine) indexAddr(fr *frame, instr *ssa.IndexAddr) Value {
	var a []Value
	switch x := fr.get(instr.X).(type) {
	case Slice:
		a = x.a
	case *Value:
		if x == nil {
			m.nilDeref()
		}
		a = []Value((*x).(Array))
	default:
		m.unsupported("index address in %T", x)
	}
	idx := m.widenIndex(fr.get(instr.Index).(*Term), instr.Index.Type())
	m.boundsCheck(idx, len(a))
	if !idx.IsConst() {
		loadsOnly := true
		for _, r := range *instr.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, ok := r.(*ssa.DebugRef); !ok {
					loadsOnly = false
				}
			}
		}
		et := instr.Type().Underlying().(*types.Pointer).Elem()
		if loadsOnly && kindOf(et) != nil && !isString(et) {
			return SymPtr{a: a, idx: idx, typ: et}
		}
		idx = m.p.concretize(idx)
	}
	i, _ := cint(idx)
	return &a[i]
}

func (m *Machine) indexVal(a []Value, idx *Term, t types.Type) Value {
	m.boundsCheck(idx, len(a))
	if idx.IsConst() {
		i, _ := cint(idx)
		return copyVal(a[i])
	}
	if kindOf(t) != nil && !isString(t) {
		return m.iteChain(a, idx)
	}
	idx = m.p.concretize(idx)
	i, _ := cint(idx)
	return copyVal(a[i])
}

// force gives the text of a string that is inspected.
func (m *Machine) force(s Str) Str {
	if s.opaque {
		if s.parts != nil {
			return m.concat(m.force(s.parts[0]), m.force(s.parts[1]))
		}
		if s.src == nil {
			m.unsupported("opaque string inspected")
		}
		return m.decimalStr(s.src)
	}
	return s
}

func (m *Machine) indexStr(s Str, idx *Term) Value {
	s = m.force(s)
	m.boundsCheck(idx, s.len())
	if idx.IsConst() {
		i, _ := cint(idx)
		if s.t != nil {
			return s.t[i]
		}
		return m.mkIntW(int64(s.s[i]), 8)
	}
	bs := m.strBytes(s)
	a := make([]Value, len(bs))
	for i, b := range bs {
		a[i] = b
	}
	return m.iteChain(a, idx)
}

// iteChain builds a balanced ite over runs of equal elements.
func (m *Machine) iteChain(a []Value, idx *Term) Value {
	type run struct {
		start int
		v     *Term
	}
	var runs []run
	for i, v := range a {
		t, ok := v.(*Term)
		if !ok {
			idx = m.p.concretize(idx)
			i, _ := cint(idx)
			return copyVal(a[i])
		}
		if len(runs) == 0 || runs[len(runs)-1].v != t {
			runs = append(runs, run{i, t})
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		var c *Term
		if m.bv {
			c = m.c.BCmp(OBUlt, idx, m.c.BV(idx.sort.W, uint64(runs[mid].start)))
		} else {
			c = m.c.Lt(idx, m.c.Int64(int64(runs[mid].start)))
		}
		return m.c.Ite(c, build(lo, mid), build(mid, hi))
	}
	return build(0, len(runs))
}

func (m *Machine) sliceOp(fr *frame, instr *ssa.Slice) Value {
	x := fr.get(instr.X)
	if p, ok := x.(*Value); ok {
		if p == nil {
			m.nilDeref()
		}
		a := []Value((*p).(Array))
		x = Slice{a: a[:len(a):len(a)]}
	}
	var n, c int
	switch x := x.(type) {
	case Str:
		x = m.force(x)
		n, c = x.len(), x.len()
	case Slice:
		n, c = len(x.a), cap(x.a)
	default:
		m.unsupported("slice of %T", x)
	}
	lo, hi, max := 0, n, c
	get := func(v ssa.Value, lim int, what string) int {
		t := m.widenIndex(fr.get(v).(*Term), v.Type())
		if !t.IsConst() {
			ok := m.inRange(t, lim+1)
			if !m.p.branch(ok) {
				m.rtPanic("slice bounds out of range " + what)
			}
			t = m.p.concretize(t)
		}
		k, ok := cint(t)
		if !ok || k < 0 || int(k) > lim {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%s%d] with limit %d", what, k, lim))
		}
		return int(k)
	}
	if instr.Max != nil {
		max = get(instr.Max, c, "::")
	}
	if instr.High != nil {
		hi = get(instr.High, max, ":")
	}
	if instr.Low != nil {
		lo = get(instr.Low, hi, "")
	}
	if lo > hi || hi > max {
		m.rtPanic("slice bounds out of range")
	}
	switch x := x.(type) {
	case Str:
		return m.substr(x, lo, hi)
	case Slice:
		if x.nil_ {
			return x
		}
		return Slice{a: x.a[lo:hi:max]}
	}
	return nil
}

// ---- type assertions

func (m *Machine) typeAssert(instr *ssa.TypeAssert, x Iface) Value {
	at := instr.AssertedType
	var v Value
	ok := false
	if it, isI := at.Underlying().(*types.Interface); isI {
		if x.t != nil && m.implements(x.t, it) {
			v, ok = x, true
		}
	} else if x.t != nil && (x.t == m.canon(at)) {
		v, ok = copyVal(x.v), true
	}
	if !ok {
		if !instr.CommaOk {
			msg := "interface conversion: interface is nil, not " + at.String()
			if x.t != nil {
				msg = fmt.Sprintf("interface conversion: interface is %s, not %s", x.t, at)
			}
			m.rtPanic(msg)
		}
		return Tuple{m.zero(at), m.c.False}
	}
	if instr.CommaOk {
		return Tuple{v, m.c.True}
	}
	return v
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := m.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	m.implCache[k] = r
	return r
}

// ---- maps

func (m *Machine) newMap(kt, vt types.Type) *Map {
	return &Map{kt: kt, vt: vt, idx: map[string]*mapEnt{}, init: m.initMode}
}

func (m *Machine) mapFind(mp *Map, key Value) *mapEnt {
	if mp == nil {
		return nil
	}
	if m.sch != nil && m.sch.multi {
		m.sch.accessKey(mp, false)
	}
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
	enc, conc := m.encKey(key)
	if conc {
		if e := mp.idx[enc]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead || conc && e.enc != "" {
			continue
		}
		if m.p.branch(m.equals(mp.kt, e.k, key)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapLookup(mp *Map, key Value) (Value, bool) {
	if e := m.mapFind(mp, key); e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *Machine) mapJournal(mp *Map) {
	if !mp.init || m.initMode {
		return
	}
	ents := make([]*mapEnt, len(mp.ents))
	for i, e := range mp.ents {
		c := *e
		ents[i] = &c
	}
	nsym, live := mp.nsym, mp.live
	m.journal = append(m.journal, jent{undo: func() {
		mp.ents, mp.nsym, mp.live = ents, nsym, live
		mp.idx = map[string]*mapEnt{}
		for _, e := range ents {
			if !e.dead && e.enc != "" {
				mp.idx[e.enc] = e
			}
		}
	}})
}

func (m *Machine) mapUpdate(mp *Map, key, v Value) {
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if m.sch != nil && m.sch.multi {
		m.sch.accessKey(mp, true)
	}
	e := m.mapFind(mp, key)
	m.mapJournal(mp)
	if e != nil {
		if mp.init && !m.initMode {
			// entries were cloned for the journal; write to the live one
		}
		e.v = v
		return
	}
	enc, conc := m.encKey(key)
	if !conc {
		enc = ""
		mp.nsym++
	}
	e = &mapEnt{k: copyVal(key), v: v, enc: enc}
	mp.ents = append(mp.ents, e)
	if conc {
		mp.idx[enc] = e
	}
	mp.live++
}

func (m *Machine) mapDelete(mp *Map, key Value) {
	if mp == nil {
		return
	}
	if m.sch != nil && m.sch.multi {
		m.sch.accessKey(mp, true)
	}
	e := m.mapFind(mp, key)
	if e == nil {
		return
	}
	m.mapJournal(mp)
	m.kill(mp, e)
}

func (m *Machine) kill(mp *Map, e *mapEnt) {
	e.dead = true
	mp.live--
	if e.enc != "" {
		delete(mp.idx, e.enc)
	} else {
		mp.nsym--
	}
	n := make([]*mapEnt, 0, len(mp.ents))
	for _, x := range mp.ents {
		if x != e {
			n = append(n, x)
		}
	}
	mp.ents = n
}

// ---- iteration

type iterator interface{ next(m *Machine) Tuple }

type mapIter struct {
	mp    *Map
	todo  []*mapEnt
	cur   *mapEnt
	order int
}

func (m *Machine) newMapIter(mp *Map) *mapIter {
	it := &mapIter{mp: mp}
	if mp == nil {
		return it
	}
	if m.sch != nil && m.sch.multi {
		m.sch.accessKey(mp, false)
	}
	it.todo = append(it.todo, mp.ents...)
	if m.opt.mapOrder == 1 && len(it.todo) > 1 && !m.initMode {
		m.p.schedChoices = true
		if m.p.choice(2) == 1 {
			for i, j := 0, len(it.todo)-1; i < j; i, j = i+1, j-1 {
				it.todo[i], it.todo[j] = it.todo[j], it.todo[i]
			}
		}
	}
	return it
}

func (it *mapIter) advance(m *Machine) bool {
	for len(it.todo) > 0 {
		i := 0
		if m.opt.mapOrder == 2 && len(it.todo) > 1 && !m.initMode {
			m.p.schedChoices = true
			i = m.p.choice(len(it.todo))
		}
		e := it.todo[i]
		it.todo = append(append([]*mapEnt{}, it.todo[:i]...), it.todo[i+1:]...)
		if e.dead {
			continue
		}
		it.cur = e
		return true
	}
	it.cur = nil
	return false
}

func (it *mapIter) next(m *Machine) Tuple {
	if !it.advance(m) {
		if it.mp == nil {
			return Tuple{m.c.False, nil, nil}
		}
		return Tuple{m.c.False, m.zero(it.mp.kt), m.zero(it.mp.vt)}
	}
	return Tuple{m.c.True, copyVal(it.cur.k), copyVal(it.cur.v)}
}

type strIter struct {
	s Str
	i int
}

func (it *strIter) next(m *Machine) Tuple {
	if it.i >= it.s.len() {
		return Tuple{m.c.False, m.mkInt(0), m.mkIntW(0, 32)}
	}
	i := it.i
	r, n := m.decodeRune(it.s, i)
	it.i += n
	return Tuple{m.c.True, m.mkInt(i), r}
}

func (m *Machine) rangeIter(x Value, t types.Type) Value {
	switch x := x.(type) {
	case *Map:
		return m.newMapIter(x)
	case Str:
		x = m.force(x)
		return &strIter{s: x}
	}
	m.unsupported("range over %T", x)
	return nil
}

func trimPkg(s string) string { return strings.TrimPrefix(s, "github.com/bantling/micro/") }

var _ = big.NewInt
