package rt

import "unsafe"

// Channels made inside a simulation get a shadow which implements their
// semantics under the scheduler; the real channel is only an identity.
// Outside of a simulation the real channel is used.

type waiter struct {
	t    *Task
	val  any
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
}

type shchan struct {
	p      unsafe.Pointer
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	hb1    byte
	hb2    byte
}

func hash(p unsafe.Pointer) uint64 {
	x := uint64(uintptr(p))
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func (s *Sim) insertCh(c *shchan) {
	m := uint64(len(s.table) - 1)
	i := hash(c.p) & m
	for s.table[i] != nil {
		i = (i + 1) & m
	}
	s.table[i] = c
}

func (s *Sim) addCh(c *shchan) {
	s.nch++
	if s.nch*2 > len(s.table) {
		old := s.table
		s.table = make([]*shchan, 2*len(old))
		for _, x := range old {
			if x != nil {
				s.insertCh(x)
			}
		}
	}
	s.insertCh(c)
}

func (s *Sim) findCh(p unsafe.Pointer) *shchan {
	if p == nil {
		return nil
	}
	m := uint64(len(s.table) - 1)
	for i := hash(p) & m; ; i = (i + 1) & m {
		c := s.table[i]
		if c == nil {
			// made outside of the simulation
			c = &shchan{p: p}
			if f := outer[p]; f != nil {
				c.cap, c.buf, c.closed = f()
				delete(outer, p)
			}
			s.addCh(c)
			return c
		}
		if c.p == p {
			return c
		}
	}
}

func ptrOf[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// outer has the channels made outside of the simulation.
var outer map[unsafe.Pointer]func() (int, []any, bool)

func regChan[T any](ch chan T) {
	p := ptrOf(ch)
	if cur == nil {
		if outer == nil {
			outer = map[unsafe.Pointer]func() (int, []any, bool){}
		}
		outer[p] = func() (int, []any, bool) {
			var buf []any
			for {
				select {
				case v, ok := <-ch:
					if ok {
						buf = append(buf, v)
						continue
					}
					return cap(ch), buf, true
				default:
				}
				return cap(ch), buf, false
			}
		}
		return
	}
	sim.addCh(&shchan{p: p, cap: cap(ch)})
}

func (s *Sim) popRecv(c *shchan) *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func (s *Sim) popSend(c *shchan) *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func (s *Sim) trySend(c *shchan, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := s.popRecv(c); w != nil {
		w.val, w.ok, w.done = v, true, true
		raceReleaseMerge(unsafe.Pointer(&c.hb1))
		raceAcquire(unsafe.Pointer(&c.hb2))
		s.ready(w.t)
		return true
	}
	if len(c.buf) < c.cap {
		raceReleaseMerge(unsafe.Pointer(&c.hb1))
		raceAcquire(unsafe.Pointer(&c.hb2))
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (s *Sim) tryRecv(c *shchan) (any, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		raceReleaseMerge(unsafe.Pointer(&c.hb2))
		raceAcquire(unsafe.Pointer(&c.hb1))
		if w := s.popSend(c); w != nil {
			c.buf = append(c.buf, w.val)
			w.done = true
			s.ready(w.t)
		}
		return v, true, true
	}
	if w := s.popSend(c); w != nil {
		w.done = true
		raceReleaseMerge(unsafe.Pointer(&c.hb2))
		raceAcquire(unsafe.Pointer(&c.hb1))
		s.ready(w.t)
		return w.val, true, true
	}
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.hb1))
		return nil, false, true
	}
	return nil, false, false
}

func send(p unsafe.Pointer, v any) {
	t, s := cur, sim
	Y(0)
	if t.dying {
		return
	}
	s.St.ChanOps++
	c := s.findCh(p)
	if c == nil {
		for {
			s.block(t)
		}
	}
	if s.trySend(c, v) {
		return
	}
	w := &waiter{t: t, val: v}
	raceReleaseMerge(unsafe.Pointer(&c.hb1))
	c.sendq = append(c.sendq, w)
	for !w.done {
		s.block(t)
		if t.dying {
			return
		}
		if !w.done && c.closed {
			panic("send on closed channel")
		}
	}
	raceAcquire(unsafe.Pointer(&c.hb2))
}

func recv(p unsafe.Pointer) (any, bool) {
	t, s := cur, sim
	Y(0)
	if t.dying {
		return nil, false
	}
	s.St.ChanOps++
	c := s.findCh(p)
	if c == nil {
		for {
			s.block(t)
			if t.dying {
				return nil, false
			}
		}
	}
	if v, ok, done := s.tryRecv(c); done {
		return v, ok
	}
	w := &waiter{t: t}
	raceReleaseMerge(unsafe.Pointer(&c.hb2))
	c.recvq = append(c.recvq, w)
	for !w.done {
		s.block(t)
		if t.dying {
			return nil, false
		}
	}
	raceAcquire(unsafe.Pointer(&c.hb1))
	return w.val, w.ok
}

func closeCh(p unsafe.Pointer) {
	t, s := cur, sim
	if t.dying {
		return
	}
	Y(0)
	c := s.findCh(p)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceReleaseMerge(unsafe.Pointer(&c.hb1))
	for {
		w := s.popRecv(c)
		if w == nil {
			break
		}
		w.val, w.ok, w.done = nil, false, true
		s.ready(w.t)
	}
	for {
		w := s.popSend(c)
		if w == nil {
			break
		}
		s.ready(w.t)
	}
}

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) chan T {
	c := make(chan T, n)
	regChan(c)
	return c
}

// Send replaces c <- v.
func Send[T any](c chan<- T, v T) {
	if cur == nil {
		c <- v
		return
	}
	send(*(*unsafe.Pointer)(unsafe.Pointer(&c)), v)
}

// Recv replaces <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 replaces v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-c
		return v, ok
	}
	x, ok := recv(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	if x == nil {
		var z T
		return z, ok
	}
	return x.(T), ok
}

// RangeInit starts a range over a channel.
func RangeInit[T any](c <-chan T) (T, bool, <-chan T) {
	v, ok := Recv2(c)
	return v, ok, c
}

// Close replaces close(c).
func Close[T any](c chan<- T) {
	if cur == nil {
		close(c)
		return
	}
	closeCh(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
}

// Len and Cap replace len(c) and cap(c).
func Len[T any](c <-chan T) int {
	if cur == nil {
		return len(c)
	}
	if sc := sim.findCh(*(*unsafe.Pointer)(unsafe.Pointer(&c))); sc != nil {
		return len(sc.buf)
	}
	return 0
}

// SelCase is one case of a select statement.
type SelCase struct {
	p    unsafe.Pointer
	send bool
	v    any
	real func(block bool) (any, bool, bool)
}

func SendCase[T any](c chan<- T, v T) SelCase {
	return SelCase{p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), send: true, v: v, real: func(bool) (any, bool, bool) {
		select {
		case c <- v:
			return nil, false, true
		default:
			return nil, false, false
		}
	}}
}

func RecvCase[T any](c <-chan T) SelCase {
	return SelCase{p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), real: func(bool) (any, bool, bool) {
		select {
		case v, ok := <-c:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

// SelVal converts the value of a receive case.
func SelVal[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Select replaces a select statement; it returns the index of the case taken (-1: default).
func Select(def bool, cs ...SelCase) (int, any, bool) {
	t, s := cur, sim
	if t == nil {
		for {
			for i, c := range cs {
				if c.p == nil {
					continue
				}
				if v, ok, done := c.real(false); done {
					return i, v, ok
				}
			}
			if def {
				return -1, nil, false
			}
		}
	}
	Y(0)
	if t.dying {
		panic(dead{})
	}
	n := len(cs)
	off := s.env.Intn(n)
	for k := 0; k < n; k++ {
		i := (k + off) % n
		c := s.findCh(cs[i].p)
		if c == nil {
			continue
		}
		if cs[i].send {
			if s.trySend(c, cs[i].v) {
				return i, nil, false
			}
		} else if v, ok, done := s.tryRecv(c); done {
			return i, v, ok
		}
	}
	if def {
		return -1, nil, false
	}
	st := &selState{}
	ws := make([]*waiter, n)
	for i := range cs {
		c := s.findCh(cs[i].p)
		if c == nil {
			continue
		}
		w := &waiter{t: t, val: cs[i].v, sel: st, idx: i}
		ws[i] = w
		raceReleaseMerge(unsafe.Pointer(&c.hb1))
		raceReleaseMerge(unsafe.Pointer(&c.hb2))
		if cs[i].send {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	for !st.fired {
		s.block(t)
		if t.dying {
			panic(dead{})
		}
	}
	w := ws[st.idx]
	c := s.findCh(cs[st.idx].p)
	raceAcquire(unsafe.Pointer(&c.hb1))
	raceAcquire(unsafe.Pointer(&c.hb2))
	if cs[st.idx].send {
		if !w.done {
			panic("send on closed channel")
		}
		return st.idx, nil, false
	}
	return st.idx, w.val, w.ok
}

// WaitQ lets shims park tasks.
type WaitQ struct{ q []*Task }

func (q *WaitQ) Park() {
	t := cur
	if t.dying {
		panic(dead{})
	}
	q.q = append(q.q, t)
	sim.block(t)
}

func (q *WaitQ) Wake(all bool) {
	for len(q.q) > 0 {
		t := q.q[0]
		q.q = q.q[1:]
		sim.ready(t)
		if !all {
			return
		}
	}
}

func (q *WaitQ) Reset() { q.q = nil }

type resetter struct{ f func() }

func (r resetter) reset() { r.f() }

// OnReset registers f to run when the simulation ends.
func OnReset(f func()) {
	if sim != nil {
		sim.mutexes = append(sim.mutexes, resetter{f})
	}
}

// InSim tells shims whether they are called by a live simulated task.
func InSim() bool { return cur != nil && !cur.dying }

// SimID identifies the running simulation.
func SimID() *Sim { return sim }

// SetFinalizer does nothing: nobody may rely on a finalizer being run.
func SetFinalizer(obj, f any) {}

// Gosched replaces runtime.Gosched.
func Gosched() {
	t := cur
	if t == nil || t.dying || t.unw {
		return
	}
	s := sim
	if s.grp != 0 {
		return
	}
	t.blk++
	to := s.chooseBlock(t)
	if to != nil && to != t {
		s.switchTo(t, to)
	}
}

// Entry is a key of a map which is iterated over.
type Entry[K comparable, V any] struct {
	k K
	m map[K]V
}

// Get gives the entry unless it has been deleted meanwhile.
func (e Entry[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.k]
	return e.k, v, ok
}

// MapEntries gives the entries of a map in an order chosen by the simulator.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	if sim != nil {
		for i := len(ks) - 1; i > 0; i-- {
			j := sim.env.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	es := make([]Entry[K, V], len(ks))
	for i, k := range ks {
		es[i] = Entry[K, V]{k, m}
	}
	return es
}
