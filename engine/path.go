package main

// One symbolic path: decisions, path condition, model, inputs, observations.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// Decision records one resolved choice. For value concretisation V is the value compared with.
type Decision struct {
	K      decKind
	B      int // branch: 0/1, choice: index
	Forced bool
	V      string
}

type decKind uint8

const (
	branchD decKind = iota
	choiceD
	valueD
)

// recorded gives the next decision of the prefix that is being replayed.
func (p *Path) recorded(k decKind) Decision {
	d := p.prefix[p.pos]
	if d.K != k {
		panic(pathEnd{endUnsupported, "the replay of a prefix takes other decisions"})
	}
	p.pos++
	return d
}

type endKind int

const (
	endInfeasible endKind = iota
	endUnsupported
	endSteps
	endStopped
)

type pathEnd struct {
	kind endKind
	msg  string
}

// Input is one nondeterministic value drawn by the harness, in order.
type Input struct {
	Kind string
	T    *Term  // symbolic value
	C    string // concrete (choice)
	Ts   []*Term
}

type Path struct {
	m            *Machine
	h            *Harness
	prefix       []Decision
	pos          int
	decs         []Decision
	pc           []*Term
	facts        map[*Term]bool
	model        Model
	ev           *Evaluator
	vars         []*Term
	varN         int
	inputs       []Input
	obs          []Value
	known        string
	knowns       map[string]bool
	steps        int
	reach        map[string]bool
	nasserts     int
	uncertain    bool // the path condition has never been confirmed satisfiable
	schedChoices bool
	asserted     map[string]bool
	inconcl      []string
	alts         []*Task
	viol         []*Violation
	nd           int // discharged by solver
	nt           int // discharged trivially
	fpInts       map[*Term]*fpInt
	fpDy         map[*Term]*bigFV // floats known to be an integer divided by a power of two
}

type Task struct {
	h        *Harness
	prefix   []Decision
	model    Model
	hasModel bool
}

type Violation struct {
	Harness string
	Msg     string
	Inputs  []string
	Known   string
	Sched   bool
	Decs    int
}

func (p *Path) setModel(m Model) {
	p.model = m
	if m == nil {
		p.ev = nil
	} else {
		p.ev = p.m.c.NewEval(m)
	}
}

func (p *Path) evalBool(t *Term) bool { return p.ev.Eval(t).u == 1 }

func (p *Path) addPC(t *Term) {
	p.addFact(t, true)
	p.pc = append(p.pc, t)
}

func (p *Path) addFact(t *Term, v bool) {
	if t.IsConst() {
		return
	}
	if v && t.op == OAnd {
		p.addFact(t.args[0], true)
		p.addFact(t.args[1], true)
	}
	if !v && t.op == OOr {
		p.addFact(t.args[0], false)
		p.addFact(t.args[1], false)
	}
	p.facts[t] = v
	p.facts[p.m.c.Not(t)] = !v
}

func (p *Path) fact(t *Term) (bool, bool) {
	if v, ok := p.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case OAnd:
		a, ka := p.fact(t.args[0])
		b, kb := p.fact(t.args[1])
		if ka && !a || kb && !b {
			return false, true
		}
		if ka && kb {
			return true, true
		}
	case OOr:
		a, ka := p.fact(t.args[0])
		b, kb := p.fact(t.args[1])
		if ka && a || kb && b {
			return true, true
		}
		if ka && kb {
			return false, true
		}
	case ONot:
		a, ka := p.fact(t.args[0])
		return !a, ka
	}
	return false, false
}

func (p *Path) newVar(kind string, s Sort, lo, hi *big.Int) *Term {
	p.varN++
	name := fmt.Sprintf("%s!%d", kind, p.varN)
	if s.K == SInt {
		if lo != nil || hi != nil {
			name = fmt.Sprintf("%s!%v..%v!%d", kind, lo, hi, p.varN)
		}
		t := p.m.c.IntVar(name, lo, hi)
		p.vars = append(p.vars, t)
		return t
	}
	t := p.m.c.Var(name, s)
	p.vars = append(p.vars, t)
	return t
}

func (p *Path) check(extra *Term) (SatResult, Model) {
	r, m := p.m.solver.Check(p.pc, extra, p.vars)
	if r == Unknown {
		var who string
		r, m, who = p.m.solver.OneShot(p.pc, extra, p.vars, p.m.fallbackLimit())
		_ = who
	}
	if r == Sat && m != nil {
		// Guard against solver or encoding errors: the model must satisfy the query when evaluated.
		ev := p.m.c.NewEval(m)
		ok := true
		for _, t := range p.pc {
			if ev.Eval(t).u != 1 {
				ok = false
				break
			}
		}
		if ok && extra != nil && ev.Eval(extra).u != 1 {
			ok = false
		}
		if !ok {
			p.m.run.badModels.Add(1)
			return Unknown, nil
		}
	}
	return r, m
}

// branch decides a condition, forking when both sides are satisfiable.
func (p *Path) branch(c *Term) bool {
	if c.IsConst() {
		return c.u == 1
	}
	if v, ok := p.fact(c); ok {
		return v
	}
	if p.pos < len(p.prefix) {
		d := p.recorded(branchD)
		p.take(c, d)
		return d.B == 1
	}
	if p.m.initMode {
		panic(pathEnd{endUnsupported, "symbolic branch in initialisation"})
	}
	p.m.checkStop()
	nc := p.m.c.Not(c)
	if p.ev == nil {
		r1, m1 := p.check(c)
		r0, m0 := p.check(nc)
		if r1 == Unsat && r0 == Unsat {
			panic(pathEnd{endInfeasible, "dead"})
		}
		if r1 == Unsat {
			p.setModel(m0)
			p.take(c, Decision{K: branchD, B: 0, Forced: true})
			return false
		}
		if r0 == Unsat {
			p.setModel(m1)
			p.take(c, Decision{K: branchD, B: 1, Forced: true})
			return true
		}
		p.alt(Decision{K: branchD, B: 0}, m0)
		p.setModel(m1)
		p.take(c, Decision{K: branchD, B: 1})
		return true
	}
	mv := p.evalBool(c)
	other := nc
	if !mv {
		other = c
	}
	b := 0
	if mv {
		b = 1
	}
	r, m2 := p.check(other)
	if r == Unsat {
		p.take(c, Decision{K: branchD, B: b, Forced: true})
		return mv
	}
	p.alt(Decision{K: branchD, B: 1 - b}, m2)
	p.take(c, Decision{K: branchD, B: b})
	return mv
}

func (p *Path) take(c *Term, d Decision) {
	p.decs = append(p.decs, d)
	if d.Forced {
		p.addFact(c, d.B == 1)
		return
	}
	if d.B == 1 {
		p.addPC(c)
	} else {
		p.addPC(p.m.c.Not(c))
	}
}

func (p *Path) alt(d Decision, m Model) {
	pre := make([]Decision, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	p.alts = append(p.alts, &Task{h: p.h, prefix: pre, model: m, hasModel: m != nil})
}

// choice forks over 0..n-1 without the solver.
func (p *Path) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.recorded(choiceD)
		p.decs = append(p.decs, d)
		return d.B
	}
	if p.m.initMode {
		panic(pathEnd{endUnsupported, "choice in initialisation"})
	}
	p.m.checkStop()
	for i := n - 1; i >= 1; i-- {
		p.alt(Decision{K: choiceD, B: i}, p.model)
	}
	p.decs = append(p.decs, Decision{K: choiceD, B: 0})
	return 0
}

// concretize forks over the values of an integer term.
func (p *Path) concretize(t *Term) *Term {
	c := p.m.c
	for n := 0; ; n++ {
		if t.IsConst() {
			return t
		}
		if n > 300 {
			panic(pathEnd{endUnsupported, "too many values to concretise"})
		}
		var v *Term
		if p.pos < len(p.prefix) {
			d := p.recorded(valueD)
			k, _ := new(big.Int).SetString(d.V, 10)
			if t.sort.K == SInt {
				v = c.Int(k)
			} else {
				v = c.BV(t.sort.W, k.Uint64())
			}
			eq := c.Eq(t, v)
			p.takeV(eq, d)
			if d.B == 1 {
				return v
			}
			continue
		}
		p.m.checkStop()
		if p.ev == nil {
			r, m := p.check(nil)
			if r == Unsat {
				panic(pathEnd{endInfeasible, "dead"})
			}
			if m == nil {
				panic(pathEnd{endUnsupported, "no model to concretise with"})
			}
			p.setModel(m)
		}
		v = p.ev.Eval(t)
		var vs string
		if t.sort.K == SInt {
			vs = v.k.String()
		} else {
			vs = fmt.Sprint(v.u)
		}
		eq := c.Eq(t, v)
		if eq.IsConst() {
			// recorded all the same, so that a replay of the prefix takes its decisions at the same places
			p.decs = append(p.decs, Decision{K: valueD, B: 1, Forced: true, V: vs})
			return v
		}
		if f, ok := p.fact(eq); ok && f {
			p.decs = append(p.decs, Decision{K: valueD, B: 1, Forced: true, V: vs})
			return v
		}
		r, m2 := p.check(c.Not(eq))
		if r == Unsat {
			p.takeV(eq, Decision{K: valueD, B: 1, Forced: true, V: vs})
			return v
		}
		p.alt(Decision{K: valueD, B: 0, V: vs}, m2)
		p.takeV(eq, Decision{K: valueD, B: 1, V: vs})
		return v
	}
}

func (p *Path) takeV(eq *Term, d Decision) {
	p.decs = append(p.decs, d)
	if eq.IsConst() {
		return
	}
	if d.Forced {
		p.addFact(eq, d.B == 1)
		return
	}
	if d.B == 1 {
		p.addPC(eq)
	} else {
		p.addPC(p.m.c.Not(eq))
	}
}

func (p *Path) assume(c *Term) {
	if c.IsConst() {
		if c.u == 0 {
			panic(pathEnd{endInfeasible, "assume"})
		}
		return
	}
	if v, ok := p.fact(c); ok {
		if !v {
			panic(pathEnd{endInfeasible, "assume"})
		}
		return
	}
	if p.ev != nil && p.evalBool(c) {
		p.addPC(c)
		return
	}
	if p.pos < len(p.prefix) {
		// the model attached to the task satisfies everything in its prefix; without one, just assume
		p.addPC(c)
		p.setModel(nil)
		return
	}
	r, m := p.check(c)
	switch r {
	case Unsat:
		panic(pathEnd{endInfeasible, "assume"})
	case Sat:
		p.setModel(m)
	default:
		p.setModel(nil)
	}
	p.addPC(c)
}

// axiom adds a constraint that is valid by construction (no feasibility question).
func (p *Path) axiom(c *Term) {
	if c.IsConst() {
		return
	}
	if v, ok := p.fact(c); ok && v {
		return
	}
	p.addPC(c)
}

// assert decides the assertion for every input of this path.
func (p *Path) assert(c *Term, msg string) {
	p.nasserts++
	if c.IsTrue() {
		p.nt++
		return
	}
	if v, ok := p.fact(c); ok && v {
		p.nt++
		return
	}
	inPrefix := p.pos < len(p.prefix)
	if inPrefix {
		// already decided on the path this prefix was forked from; what holds there is only the non-failing part
		if c.IsFalse() {
			panic(pathEnd{endInfeasible, "assert failed earlier"})
		}
		p.addPC(c)
		if p.ev != nil && !p.evalBool(c) {
			p.setModel(nil)
		}
		return
	}
	p.m.checkStop()
	nc := p.m.c.Not(c)
	var r SatResult
	var m Model
	if p.ev != nil && !p.evalBool(c) {
		r, m = Sat, p.model
	} else if c.IsFalse() {
		r, m = p.check(nil)
	} else {
		r, m = p.check(nc)
	}
	switch r {
	case Unsat:
		p.nd++
		p.addFact(c, true)
		if c.IsFalse() {
			panic(pathEnd{endInfeasible, "dead"})
		}
		return
	case Sat:
		p.viol = append(p.viol, &Violation{Harness: p.h.Name, Msg: msg, Inputs: p.inputsUnder(m), Known: p.known, Sched: p.schedChoices, Decs: len(p.decs)})
		if c.IsFalse() {
			panic(pathEnd{endStopped, "assertion failed"})
		}
		// continue with the inputs for which it holds
		r2, m2 := SatResult(Sat), p.model
		if p.ev == nil || !p.evalBool(c) {
			r2, m2 = p.check(c)
		}
		if r2 == Unsat {
			panic(pathEnd{endStopped, "assertion failed"})
		}
		if r2 == Unknown {
			m2 = nil
		}
		p.setModel(m2)
		p.addPC(c)
	default:
		p.inconcl = append(p.inconcl, msg)
		p.addPC(c)
		if p.ev != nil && !p.evalBool(c) {
			p.setModel(nil)
		}
	}
}

// inputsUnder renders the input log under a model.
func (p *Path) inputsUnder(m Model) []string {
	ev := p.m.c.NewEval(m)
	var r []string
	for _, in := range p.inputs {
		switch {
		case in.T != nil:
			r = append(r, in.Kind+"="+constStr(ev.Eval(in.T)))
		case in.Ts != nil:
			var sb strings.Builder
			for _, t := range in.Ts {
				v := ev.Eval(t)
				if v.sort.K == SInt {
					fmt.Fprintf(&sb, "%02x", v.k.Uint64())
				} else {
					fmt.Fprintf(&sb, "%02x", v.u)
				}
			}
			r = append(r, in.Kind+"="+sb.String())
		default:
			r = append(r, in.Kind+"="+in.C)
		}
	}
	return r
}

// constStr is the canonical text of a scalar constant: unsigned bit pattern for BV/FP, decimal for Int.
func constStr(t *Term) string {
	switch t.sort.K {
	case SBool:
		return fmt.Sprint(t.u)
	case SInt:
		return t.k.String()
	}
	return fmt.Sprintf("#%x", t.u)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = time.Now
