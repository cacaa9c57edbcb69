package main

// Goroutines: one real goroutine per interpreted goroutine, passing a baton. The interleaving at synchronisation
// operations is chosen by Path.choice, so every schedule (at that granularity) is explored; data races between the
// operations in between are detected with vector clocks, which is what makes that granularity sufficient.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type VC []int

func (a VC) get(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a VC) join(b VC) VC {
	r := make(VC, max(len(a), len(b)))
	for i := range r {
		r[i] = max(a.get(i), b.get(i))
	}
	return r
}

func (a VC) leq(b VC) bool {
	for i := range a {
		if a[i] > b.get(i) {
			return false
		}
	}
	return true
}

type G struct {
	id      int
	vc      VC
	resume  chan bool // false: die
	done    bool
	waiting func() bool // nil: runnable
	what    string
}

type shadow struct {
	w  VC // clock of last write
	wg int
	r  map[int]int // reader id -> clock
}

type Sched struct {
	m      *Machine
	gs     []*G
	cur    *G
	multi  bool
	sh     map[interface{}]*shadow
	fail   interface{}
	finish chan bool
	races  int
	dying  bool
}

func newSched(m *Machine) *Sched {
	s := &Sched{m: m, sh: map[interface{}]*shadow{}}
	g := &G{id: 0, vc: VC{1}, resume: make(chan bool)}
	s.gs = []*G{g}
	s.cur = g
	return s
}

func (s *Sched) access(addr *Value, write bool) { s.accessKey(addr, write) }

func (s *Sched) accessKey(key interface{}, write bool) {
	g := s.cur
	sd := s.sh[key]
	if sd == nil {
		sd = &shadow{r: map[int]int{}, wg: -1}
		s.sh[key] = sd
	}
	race := false
	if sd.wg >= 0 && sd.wg != g.id && sd.w.get(sd.wg) > g.vc.get(sd.wg) {
		race = true
	}
	if write {
		for id, ck := range sd.r {
			if id != g.id && ck > g.vc.get(id) {
				race = true
			}
		}
	}
	if race {
		s.m.p.schedChoices = true
		s.m.p.assert(s.m.c.False, "data race")
	}
	if write {
		sd.w = VC{}
		sd.w = sd.w.join(g.vc)
		sd.wg = g.id
		sd.r = map[int]int{}
	} else {
		sd.r[g.id] = g.vc.get(g.id)
	}
}

func (s *Sched) tick() {
	g := s.cur
	n := make(VC, max(len(g.vc), g.id+1))
	copy(n, g.vc)
	n[g.id]++
	g.vc = n
}

func (m *Machine) spawn(fr *frame, fn Value, args []Value) {
	s := m.sch
	if s == nil {
		m.unsupported("goroutine in initialisation")
	}
	if len(s.gs) > 64 {
		m.unsupported("more than 64 goroutines")
	}
	g := &G{id: len(s.gs), resume: make(chan bool)}
	g.vc = append(VC{}, s.cur.vc...)
	s.tick() // what the parent does from now on is not ordered with what the child does
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	s.gs = append(s.gs, g)
	s.multi = true
	depth := m.depth
	go func() {
		if !<-g.resume {
			g.done = true
			s.finish <- true
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if s.dying {
				s.finish <- true
				return
			}
			if r != nil {
				s.fail = r
				s.dispatchMain()
				return
			}
			s.tick()
			// pass the baton on
			var next *G
			func() {
				defer func() { s.fail = recover() }()
				next = s.pickNext()
			}()
			if s.fail != nil {
				s.dispatchMain()
				return
			}
			if next == nil {
				func() {
					defer func() { s.fail = recover() }()
					s.m.p.schedChoices = true
					s.m.p.assert(s.m.c.False, "deadlock: all goroutines are asleep")
					panic(pathEnd{endStopped, "deadlock"})
				}()
				s.dispatchMain()
				return
			}
			s.cur = next
			m.depth = depth
			next.resume <- true
		}()
		m.depth = depth
		m.call(nil, g, fn, args)
	}()
	// No switch here: what both do before their next synchronisation operation commutes, or races.
}

// dispatchMain returns control to the main goroutine with a failure pending.
func (s *Sched) dispatchMain() {
	s.cur = s.gs[0]
	s.gs[0].resume <- true
}

// pick chooses the next runnable goroutine (forking over all of them).
func (s *Sched) pick(includeCur bool) *G {
	var run []*G
	for _, g := range s.gs {
		if g.done || (!includeCur && g == s.cur) {
			continue
		}
		if g.waiting != nil && !g.waiting() {
			continue
		}
		run = append(run, g)
	}
	if len(run) == 0 {
		return nil
	}
	if len(run) == 1 {
		return run[0]
	}
	s.m.p.schedChoices = true
	return run[s.m.p.choice(len(run))]
}

// pickNext chooses who runs when the current goroutine cannot go on. A goroutine that is not in the middle of a
// blocking operation yields before its next synchronisation operation anyway, and what it does until then commutes with
// what the others do (or races, which the clocks show), so the order of those needs no fork; the same holds for waiting
// on a WaitGroup.
func (s *Sched) pickNext() *G {
	var first *G
	for _, g := range s.gs {
		if g.done || g == s.cur {
			continue
		}
		if g.waiting != nil {
			if !g.waiting() {
				continue
			}
			if g.what != "WaitGroup" {
				return s.pick(false)
			}
		}
		if first == nil {
			first = g
		}
	}
	return first
}

// yield lets the scheduler switch goroutines.
func (m *Machine) yield() {
	s := m.sch
	if s == nil || !s.multi || m.initMode {
		return
	}
	next := s.pick(true)
	if next == s.cur {
		return
	}
	s.switchTo(next)
}

func (s *Sched) switchTo(next *G) {
	me := s.cur
	d := s.m.depth
	s.cur = next
	next.resume <- true
	alive := <-me.resume
	s.m.depth = d
	if !alive {
		panic(pathEnd{endInfeasible, "killed"})
	}
	if me.id == 0 && s.fail != nil {
		f := s.fail
		s.fail = nil
		panic(f)
	}
}

// block waits until cond holds.
func (m *Machine) block(what string, cond func() bool) {
	s := m.sch
	m.yield()
	for !cond() {
		s.cur.waiting = cond
		s.cur.what = what
		next := s.pickNext()
		if next == nil {
			s.cur.waiting = nil
			s.m.p.schedChoices = true
			s.m.p.assert(s.m.c.False, "deadlock: all goroutines are asleep ("+what+")")
			panic(pathEnd{endStopped, "deadlock"})
		}
		s.switchTo(next)
		s.cur.waiting = nil
	}
}

// killAll ends every other goroutine at the end of a path.
func (s *Sched) killAll() {
	s.dying = true
	s.finish = make(chan bool)
	for _, g := range s.gs[1:] {
		if g.done {
			continue
		}
		g.resume <- false
		<-s.finish
	}
}

func (m *Machine) acquire(vc VC) {
	if m.sch == nil || m.sch.cur == nil {
		return // package initialisation
	}
	m.sch.cur.vc = m.sch.cur.vc.join(vc)
}

func (m *Machine) release() VC {
	if m.sch == nil || m.sch.cur == nil {
		return nil
	}
	r := append(VC{}, m.sch.cur.vc...)
	m.sch.tick()
	return r
}

func (m *Machine) chanSend(fr *frame, c *Chan, v Value) {
	if c == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	if c.cap > 0 {
		m.block("channel send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			m.rtPanic("send on closed channel")
		}
		c.buf = append(c.buf, chanItem{v: v, vc: m.release()})
		return
	}
	// rendezvous: enqueue and wait until taken
	m.yield()
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	it := &chanItem{v: v, vc: m.release()}
	c.rv = append(c.rv, it)
	m.block("channel send", func() bool { return it.done || c.closed })
	if !it.done {
		m.rtPanic("send on closed channel")
	}
	m.acquire(c.vc)
}

func (m *Machine) chanReady(c *Chan) bool {
	return c != nil && (len(c.buf) > 0 || len(c.rv) > 0 || c.closed)
}

func (m *Machine) chanRecv(c *Chan) (Value, bool) {
	if c == nil {
		m.block("receive on nil channel", func() bool { return false })
	}
	m.block("channel receive", func() bool { return m.chanReady(c) })
	return m.chanTake(c)
}

func (m *Machine) chanTake(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		m.acquire(it.vc)
		return it.v, true
	}
	if len(c.rv) > 0 {
		it := c.rv[0]
		c.rv = c.rv[1:]
		it.done = true
		m.acquire(it.vc)
		c.vc = c.vc.join(m.release())
		return it.v, true
	}
	m.acquire(c.vc)
	return nil, false
}

func (m *Machine) selectOp(fr *frame, instr *ssa.Select) Value {
	ready := func() []int {
		var r []int
		for i, st := range instr.States {
			c := fr.get(st.Chan).(*Chan)
			if c == nil {
				continue
			}
			if st.Dir == 1 { // types.SendOnly
				if c.closed || c.cap > 0 && len(c.buf) < c.cap {
					r = append(r, i)
				}
			} else if m.chanReady(c) {
				r = append(r, i)
			}
		}
		return r
	}
	m.yield()
	rd := ready()
	idx := -1
	if len(rd) == 0 && instr.Blocking {
		m.block("select", func() bool { return len(ready()) > 0 })
		rd = ready()
	}
	if len(rd) > 0 {
		idx = rd[0]
		if len(rd) > 1 {
			m.p.schedChoices = true
			idx = rd[m.p.choice(len(rd))]
		}
	}
	res := Tuple{m.mkInt(idx), m.c.False}
	for i, st := range instr.States {
		c := fr.get(st.Chan).(*Chan)
		if st.Dir == 1 {
			if i == idx {
				if c.closed {
					m.rtPanic("send on closed channel")
				}
				c.buf = append(c.buf, chanItem{v: fr.get(st.Send), vc: m.release()})
			}
			continue
		}
		var v Value
		if i == idx {
			x, ok := m.chanTake(c)
			if ok {
				v = x
			}
			res[1] = m.c.Bool(ok)
		}
		if v == nil {
			v = m.zero(chanElem(st.Chan.Type()))
		}
		res = append(res, v)
	}
	return res
}

var _ = fmt.Sprint
