// Package hevent: the event registry.
package hevent

import (
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"
	"verifharness/sym"
)

// step is one invocation: which receiver, and the event it was given.
type step struct{ rcvr, given int }

// rec is a receiver that records its invocation and hands on a new event.
type rec struct {
	n   int
	log *[]step
	ev  *int
}

func (r *rec) Process(t int) int {
	*r.log = append(*r.log, step{r.n, t})
	*r.ev++
	return *r.ev
}

// entry is a registration of the model: they are kept in registration order.
type entry[I constraint.Ordered] struct {
	id   I
	rcvr int
}

type model[I constraint.Ordered] struct {
	reg   event.Registry[I, int]
	rcvrs []event.Receiver[int]
	log   []step
	ev    int
	list  []entry[I]
}

// newModel has two receivers that are pointers, one that is a function.
func newModel[I constraint.Ordered](n int) *model[I] {
	m := &model[I]{}
	for i := 0; i < n; i++ {
		if i == 1 {
			r := &rec{i, &m.log, &m.ev}
			m.rcvrs = append(m.rcvrs, event.ReceiverFunc[int](func(t int) int { return r.Process(t) }))
			continue
		}
		m.rcvrs = append(m.rcvrs, &rec{i, &m.log, &m.ev})
	}
	return m
}

func (m *model[I]) register(id I) {
	k := sym.Choice(len(m.rcvrs))
	m.reg.Register(id, m.rcvrs[k])
	m.list = append(m.list, entry[I]{id, k})
}

// remove is one of the kinds of removal.
func (m *model[I]) remove(id I) {
	k := sym.Choice(1 + len(m.rcvrs)*3)
	if k == 0 {
		m.reg.RemoveId(id)
		m.drop(func(e entry[I]) bool { return e.id == id }, true)
		return
	}
	k--
	r, how := k/3, k%3
	same := func(e entry[I]) bool { return e.id == id && e.rcvr == r }
	switch how {
	case 0:
		m.reg.Remove(id, m.rcvrs[r])
		m.drop(same, false)
	case 1:
		m.reg.Remove(id, m.rcvrs[r], false)
		m.drop(same, false)
	case 2:
		m.reg.Remove(id, m.rcvrs[r], true)
		m.drop(same, true)
	}
}

func (m *model[I]) drop(f func(entry[I]) bool, all bool) {
	var l []entry[I]
	done := false
	for _, e := range m.list {
		if !(done && !all) && f(e) {
			done = true
			continue
		}
		l = append(l, e)
	}
	m.list = l
}

// send sends an event: the registered receivers must get it in ascending id, ties in registration order.
func (m *model[I]) send() {
	v := sym.Int()
	m.log, m.ev = nil, 1000
	got := m.reg.Send(v)

	sorted := append([]entry[I]{}, m.list...)
	for i := 1; i < len(sorted); i++ {
		for j := i; j > 0 && sorted[j].id < sorted[j-1].id; j-- {
			sorted[j], sorted[j-1] = sorted[j-1], sorted[j]
		}
	}
	sym.Assert(len(m.log) == len(sorted), "Send: not one invocation per registration")
	given := v
	for i, e := range sorted {
		sym.Assert(m.log[i].rcvr == e.rcvr, "Send: another receiver in this place")
		sym.Assert(m.log[i].given == given, "Send: not given the previous result")
		given = 1000 + i + 1
	}
	sym.Assert(got == given, "Send: another result")
}

func pick(q, t int) int {
	if sym.Thorough() {
		return t
	}
	return q
}

// C24_Register: any number of registrations up to a bound, in any order of ids.
func C24_Register() {
	m := newModel[int](2)
	for i, n := 0, sym.Choice(pick(6, 7)); i < n; i++ {
		m.register(sym.Int())
	}
	m.send()
	m.send()
}

// C24_Remove: registrations, a removal, an event.
func C24_Remove() {
	m := newModel[int](2)
	for i, n := 0, sym.Choice(pick(4, 5)); i < n; i++ {
		m.register(sym.Int())
	}
	m.remove(sym.Int())
	m.send()
}

// C24_History: registrations, a removal, a registration, a removal, with an event after each.
func C24_History() {
	m := newModel[int](2)
	for i, n := 0, pick(2, 3); i < n; i++ {
		m.register(sym.Int())
	}
	m.send()
	m.remove(sym.Int())
	m.send()
	m.register(sym.Int())
	m.send()
	m.remove(sym.Int())
	m.send()
}

// C24_Mixed: any sequence of registrations and removals.
func C24_Mixed() {
	m := newModel[int8](2)
	for i, n := 0, pick(4, 5); i < n; i++ {
		if sym.Choice(2) == 0 {
			m.register(sym.Int8())
		} else {
			m.remove(sym.Int8())
		}
	}
	m.send()
}

// C24_Twice: the same receiver registered more than once for an id, removed once or altogether.
func C24_Twice() {
	m := newModel[int](2)
	id, other := sym.Int(), sym.Int()
	sym.Assume(id != other)
	for i, n := 0, sym.Choice(pick(5, 7)); i < n; i++ {
		m.register(id)
	}
	m.register(other)
	m.remove(id)
	m.send()
	m.remove(id)
	m.send()
}

// C24_Strings: ids that are texts.
func C24_Strings() {
	m := newModel[string](3)
	for i, n := 0, sym.Choice(3); i < n; i++ {
		m.register(sym.String(sym.Choice(3)))
	}
	m.remove(sym.String(sym.Choice(2)))
	m.send()
}

// C24_Floats: ids that are numbers with a fraction.
//
//sym:bv
func C24_Floats() {
	m := newModel[float64](2)
	f := func() float64 {
		x := sym.Float64()
		sym.Assume(x == x)
		return x
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		m.register(f())
	}
	m.remove(f())
	m.send()
}

// C24_Closures: receivers made by one function literal.
func C24_Closures() {
	m := &model[int]{}
	for i := 0; i < 2; i++ {
		r := &rec{i, &m.log, &m.ev}
		m.rcvrs = append(m.rcvrs, event.ReceiverFunc[int](func(t int) int { return r.Process(t) }))
	}
	for i := 0; i < 2; i++ {
		m.register(sym.Int())
	}
	m.send()
	id, k := sym.Int(), sym.Choice(2)
	// K1: a receiver of the same literal counts as the one to remove
	other := false
	for _, e := range m.list {
		if e.id == id {
			other = other || e.rcvr != k
		}
	}
	sym.Known("K1", other)
	m.reg.Remove(id, m.rcvrs[k], true)
	m.drop(func(e entry[int]) bool { return e.id == id && e.rcvr == k }, true)
	m.send()
}

// C24_None: events without content.
func C24_None() {
	var (
		r event.Registry[int, event.None]
		n int
	)
	r.Send(event.None{})
	f := event.ReceiverFunc[event.None](func(v event.None) event.None { n++; return v })
	r.Register(sym.Int(), f)
	r.Register(sym.Int(), f)
	r.Send(event.None{})
	sym.Assert(n == 2, "Send: not one invocation per registration")
}

// C24_Long: many registrations in one of several orders of ids, one with any id among them, and one removed.
func C24_Long() {
	m := newModel[int](2)
	n := pick(9, 13)
	ids := make([]int, n)
	switch order := sym.Choice(4); order {
	case 0, 1:
		for i := range ids {
			ids[i] = i * 10
			if order == 1 {
				ids[i] = (n - i) * 10
			}
		}
	case 2:
		// from the middle outwards
		for i := range ids {
			ids[i] = 100 + (i%2*2-1)*i*10
		}
	case 3:
		// two of each, mixed
		for i := range ids {
			ids[i] = i * 4 % n / 2 * 10
		}
	}
	free := sym.Choice(3) * (n - 1) / 2
	for i, id := range ids {
		if i == free {
			m.register(sym.Int())
		}
		m.reg.Register(id, m.rcvrs[i%2])
		m.list = append(m.list, entry[int]{id, i % 2})
	}
	m.send()
	if sym.Choice(2) == 0 {
		m.remove(ids[sym.Choice(3)*(n-1)/2])
	} else {
		m.reg.RemoveId(sym.Int())
		return
	}
	m.send()
}
