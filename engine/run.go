package main

// Exploration of all paths of a set of harnesses by a pool of workers.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessState struct {
	mu          sync.Mutex
	Paths       int
	Infeasible  int
	Stopped     int
	Unsupported map[string]int
	StepLimit   map[string]int
	Asserts     int
	Discharged  int // by solver
	Trivial     int // by term simplification
	Inconcl     map[string]int
	Reached     map[string]int
	Viol        []*Violation
	Samples     []*Sample
	Steps       int64
	Branches    int64
	Forced      int64
	MaxDepth    int
	Known       map[string]*Violation
	PanicViol   int
	stop        atomic.Bool
	Pending     int
	start       time.Time
	busyNanos   int64
	dropped     bool
	seen        int
	partial     int
}

// Sample is one feasible path with concrete inputs and the observations the executor predicts for them.
type Sample struct {
	Harness string
	Inputs  []string
	Obs     []string
	Sched   bool
	Partial bool // the executor could not finish the path
}

type Run struct {
	sh        *Shared
	stats     SolverStats
	badModels atomic.Int64
	mu        sync.Mutex
	notes     map[string]int
	queue     []*Task
	cond      *sync.Cond
	idle      int
	nworkers  int
	active    int
	deadline  time.Time
	stop      atomic.Bool
	covered   map[*ssa.Function]bool
	seed      int64
	thorough  bool
	verbose   bool
	maxViol   int
	trace     bool
}

func (r *Run) note(s string) {
	r.mu.Lock()
	r.notes[s]++
	r.mu.Unlock()
}

func (m *Machine) checkStop() {
	if m.run.stop.Load() {
		panic(pathEnd{endStopped, "budget"})
	}
	if time.Now().After(m.run.deadline) {
		m.run.stop.Store(true)
		panic(pathEnd{endStopped, "budget"})
	}
}

func (m *Machine) fallbackLimit() time.Duration {
	d := time.Duration(m.opt.fallback) * time.Second
	if rem := time.Until(m.run.deadline); rem < d {
		d = max(rem, time.Second)
	}
	return d
}

func newMachine(r *Run, bv bool) *Machine {
	m := &Machine{sh: r.sh, run: r, bv: bv, c: NewTermCtx(), globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		consts: map[*ssa.Const]Value{}, intr: map[*ssa.Function]*intrinsic{}, covered: map[*ssa.Function]bool{},
		implCache: map[[2]types.Type]bool{}, methCache: map[methKey]*ssa.Function{}, ptrIDs: map[interface{}]int{}, maxSteps: 1 << 40, regex: map[*Value]*reObj{}, side2: map[*Value]interface{}{}}
	m.side = map[*Value]Value{}
	m.side2 = map[*Value]interface{}{}
	m.texts, m.bitops = nil, nil
	m.solver = NewSolver(m.c, &r.stats, 10*time.Second)
	return m
}

type worker struct {
	r     *Run
	ms    [2]*Machine
	over  map[bool]int
	stack []*Task
}

func (r *Run) Explore(hs []*Harness, nworkers int, deadline time.Time) {
	r.cond = sync.NewCond(&r.mu)
	r.nworkers = nworkers
	r.deadline = deadline
	for _, h := range hs {
		h.state = &harnessState{Unsupported: map[string]int{}, StepLimit: map[string]int{}, Inconcl: map[string]int{}, Reached: map[string]int{}, Known: map[string]*Violation{}, start: time.Now()}
	}
	for i := len(hs) - 1; i >= 0; i-- {
		r.queue = append(r.queue, &Task{h: hs[i], hasModel: true, model: Model{}})
	}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{r: r}
			w.loop()
			for _, m := range w.ms {
				if m != nil {
					m.solver.Close()
					r.mu.Lock()
					for f := range m.covered {
						r.covered[f] = true
					}
					r.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
}

func (w *worker) next() *Task {
	r := w.r
	if n := len(w.stack); n > 0 {
		// donate the shallowest pending work when others are idle
		r.mu.Lock()
		if r.idle > 0 && n > 1 && len(r.queue) < r.nworkers {
			k := (n + 1) / 2
			if k > 8 {
				k = 8
			}
			r.queue = append(r.queue, w.stack[:k]...)
			w.stack = append([]*Task{}, w.stack[k:]...)
			n -= k
			r.cond.Broadcast()
		}
		r.mu.Unlock()
		t := w.stack[n-1]
		w.stack = w.stack[:n-1]
		return t
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.idle++
	for len(r.queue) == 0 {
		if r.idle == r.nworkers {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
		if r.idle == r.nworkers && len(r.queue) == 0 {
			r.cond.Broadcast()
			return nil
		}
	}
	r.idle--
	// prefer the newest entry: depth first
	t := r.queue[len(r.queue)-1]
	r.queue = r.queue[:len(r.queue)-1]
	return t
}

func (w *worker) loop() {
	for {
		t := w.next()
		if t == nil {
			return
		}
		if w.r.stop.Load() || t.h.state.stop.Load() {
			t.h.state.mu.Lock()
			if w.r.stop.Load() {
				t.h.state.Pending++
				t.h.state.dropped = true
			}
			t.h.state.mu.Unlock()
			continue
		}
		if time.Now().After(w.r.deadline) {
			w.r.stop.Store(true)
			t.h.state.mu.Lock()
			t.h.state.Pending++
			t.h.state.dropped = true
			t.h.state.mu.Unlock()
			continue
		}
		w.runPath(t)
	}
}

func (w *worker) machine(bv bool) *Machine {
	i := 0
	if bv {
		i = 1
	}
	if m := w.ms[i]; m != nil && m.c.nextID > 3000000 {
		w.r.mu.Lock()
		for f := range m.covered {
			w.r.covered[f] = true
		}
		w.r.mu.Unlock()
		m.solver.Close()
		w.ms[i] = nil
	}
	if w.ms[i] == nil {
		w.ms[i] = newMachine(w.r, bv)
	}
	return w.ms[i]
}

func (w *worker) runPath(t *Task) {
	m := w.machine(t.h.Opt.bv)
	h := t.h
	st := h.state
	m.opt = h.Opt
	if d := time.Duration(h.Opt.qtimeout) * time.Millisecond; m.solver.timeout != d {
		m.solver.timeout = d
		fmt.Fprintf(m.solver.p.out, "(set-option :timeout %d)\n", d.Milliseconds())
	}
	// make sure the harness package is initialised before the path starts (concretely)
	if m.inited[h.Fn.Pkg] == 0 {
		m.steps = 0
		m.maxSteps = 1 << 40
		m.sch = nil
		m.initPackage(h.Fn.Pkg)
	}
	p := &Path{m: m, h: h, prefix: t.prefix, facts: map[*Term]bool{}, reach: map[string]bool{}, knowns: map[string]bool{}}
	if t.hasModel {
		p.setModel(t.model)
	}
	m.p = p
	m.steps = 0
	m.depth = 0
	m.maxSteps = h.Opt.steps
	m.nextPtr = 0
	m.ptrIDs = map[interface{}]int{}
	m.side = map[*Value]Value{}
	m.side2 = map[*Value]interface{}{}
	m.texts, m.bitops = nil, nil
	m.sch = newSched(m)
	t0 := time.Now()
	end := pathEnd{kind: -1}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				end = r
			case targetPanic:
				func() {
					defer func() {
						if r := recover(); r != nil {
							if e, ok := r.(pathEnd); ok {
								end = e
							} else {
								end = pathEnd{endUnsupported, fmt.Sprint(r)}
							}
						}
					}()
					p.pos = len(p.prefix)
					p.assert(m.c.False, "unexpected panic: "+m.panicText(r))
				}()
			default:
				end = pathEnd{endUnsupported, fmt.Sprintf("engine: %v", r)}
				if w.r.verbose || os.Getenv("SYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine: %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		m.call(nil, m.sch.cur, h.Fn, nil)
	}()
	m.sch.killAll()
	m.undo()
	w.stack = append(w.stack, p.alts...)

	// model for the sample: re-use the one at hand
	var sample *Sample
	var more []*Sample
	if end.kind == -1 && p.ev != nil {
		hs := fnv.New32a()
		fmt.Fprint(hs, w.r.seed)
		for _, d := range p.decs {
			fmt.Fprintf(hs, "%d%s,", d.B, d.V)
		}
		st.mu.Lock()
		st.seen++
		keep := len(st.Samples) < 12 || hs.Sum32()%uint32(1+st.seen/12) == 0 && len(st.Samples) < 60
		st.mu.Unlock()
		if keep {
			sample = &Sample{Harness: h.Name, Inputs: p.inputsUnder(p.model), Sched: p.schedChoices}
			for _, o := range p.obs {
				sample.Obs = append(sample.Obs, m.obsStr(p.ev, o))
			}
		}
	}

	if end.kind == endUnsupported || end.kind == endSteps {
		if p.ev == nil && !w.r.stop.Load() {
			if r, mo := p.check(nil); r == Sat {
				p.setModel(mo)
			}
		}
		if p.ev != nil {
			st.mu.Lock()
			st.partial++
			keep := st.partial <= 40
			st.mu.Unlock()
			if keep {
				sample = &Sample{Harness: h.Name, Inputs: p.inputsUnder(p.model), Sched: p.schedChoices, Partial: true}
				hs := fnv.New64a()
				fmt.Fprint(hs, w.r.seed)
				for _, d := range p.decs {
					fmt.Fprintf(hs, "%d%s,", d.B, d.V)
				}
				for _, mo := range p.diversify(rand.New(rand.NewSource(int64(hs.Sum64()))), 8) {
					more = append(more, &Sample{Harness: h.Name, Inputs: p.inputsUnder(mo), Sched: p.schedChoices, Partial: true})
				}
			}
		}
	}

	st.mu.Lock()
	defer st.mu.Unlock()
	st.Steps += int64(m.steps)
	st.busyNanos += int64(time.Since(t0))
	for _, d := range p.decs[min(len(t.prefix), len(p.decs)):] {
		if d.Forced {
			st.Forced++
		} else {
			st.Branches++
		}
	}
	if len(p.decs) > st.MaxDepth {
		st.MaxDepth = len(p.decs)
	}
	st.Asserts += p.nd + p.nt
	st.Discharged += p.nd
	st.Trivial += p.nt
	for _, s := range p.inconcl {
		st.Inconcl[s]++
	}
	if w.r.trace {
		fmt.Fprintf(os.Stderr, "path %s end=%v decs=%d steps=%d pc=%d %v\n", h.Name, end, len(p.decs), m.steps, len(p.pc), time.Since(t0))
	}
	switch end.kind {
	case -1:
		st.Paths++
		for l := range p.reach {
			st.Reached[l]++
		}
	case endInfeasible:
		st.Infeasible++
	case endUnsupported:
		st.Unsupported[end.msg]++
	case endSteps:
		st.StepLimit[end.msg]++
	case endStopped:
		st.Stopped++
		if end.msg == "budget" {
			st.Pending++
			st.dropped = true
		}
		for l := range p.reach {
			st.Reached[l]++
		}
	}
	if sample != nil {
		st.Samples = append(st.Samples, sample)
	}
	st.Samples = append(st.Samples, more...)
	for _, v := range p.viol {
		n := 0
		for _, o := range st.Viol {
			if o.Msg == v.Msg && o.Known == v.Known {
				n++
			}
		}
		if n < 6 {
			st.Viol = append(st.Viol, v)
		}
	}
	if w.r.maxViol > 0 {
		n := 0
		for _, v := range st.Viol {
			if v.Known == "" {
				n++
			}
		}
		if n >= w.r.maxViol {
			st.stop.Store(true)
		}
	}
}

func (r *Run) summary(h *Harness) string {
	st := h.state
	s := fmt.Sprintf("%s: paths=%d infeasible=%d stopped=%d asserts=%d (solver %d, simplified %d) branches=%d forced=%d steps=%d busy=%.1fs", h.Name, st.Paths, st.Infeasible, st.Stopped, st.Asserts, st.Discharged, st.Trivial, st.Branches, st.Forced, st.Steps, float64(st.busyNanos)/1e9)
	if st.dropped {
		s += fmt.Sprintf(" INCOMPLETE(pending %d)", st.Pending)
	}
	for _, k := range sortedKeys(st.Unsupported) {
		s += fmt.Sprintf("\n    unsupported x%d: %s", st.Unsupported[k], k)
	}
	for _, k := range sortedKeys(st.StepLimit) {
		s += fmt.Sprintf("\n    step limit x%d: %s", st.StepLimit[k], k)
	}
	for _, k := range sortedKeys(st.Inconcl) {
		s += fmt.Sprintf("\n    inconclusive x%d: %s", st.Inconcl[k], k)
	}
	for _, v := range st.Viol {
		s += fmt.Sprintf("\n    counterexample [%s] known=%q inputs: %s", v.Msg, v.Known, strings.Join(v.Inputs, " "))
	}
	var rs []string
	for k := range st.Reached {
		rs = append(rs, fmt.Sprintf("%s:%d", k, st.Reached[k]))
	}
	sort.Strings(rs)
	if len(rs) > 0 {
		s += "\n    reached " + strings.Join(rs, " ")
	}
	return s
}
