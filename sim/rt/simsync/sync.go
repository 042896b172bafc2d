// Package sync replaces the standard sync package inside instrumented code.
package sync

import (
	"verifsim/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      rt.WaitQ
	reg    *rt.Sim
	hb     byte
}

func (m *Mutex) touch() {
	if s := rt.SimID(); s != nil && m.reg != s {
		m.reg = s
		rt.OnReset(func() { m.locked = false; m.q.Reset(); m.reg = nil })
	}
}

func (m *Mutex) Lock() {
	if !rt.InSim() {
		m.locked = true
		return
	}
	m.touch()
	rt.Point()
	for m.locked {
		m.q.Park()
	}
	m.locked = true
	rt.Acquire(&m.hb)
}

func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked && rt.InSim() {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Release(&m.hb)
	m.locked = false
	if rt.InSim() {
		m.q.Wake(false)
	}
}

type RWMutex struct {
	w   bool
	r   int
	q   rt.WaitQ
	reg *rt.Sim
	hb  byte
}

func (m *RWMutex) touch() {
	if s := rt.SimID(); s != nil && m.reg != s {
		m.reg = s
		rt.OnReset(func() { m.w = false; m.r = 0; m.q.Reset(); m.reg = nil })
	}
}

func (m *RWMutex) Lock() {
	if !rt.InSim() {
		m.w = true
		return
	}
	m.touch()
	rt.Point()
	for m.w || m.r > 0 {
		m.q.Park()
	}
	m.w = true
	rt.Acquire(&m.hb)
}

func (m *RWMutex) Unlock() {
	rt.Release(&m.hb)
	m.w = false
	if rt.InSim() {
		m.q.Wake(true)
	}
}

func (m *RWMutex) RLock() {
	if !rt.InSim() {
		m.r++
		return
	}
	m.touch()
	rt.Point()
	for m.w {
		m.q.Park()
	}
	m.r++
	rt.Acquire(&m.hb)
}

func (m *RWMutex) RUnlock() {
	rt.Release(&m.hb)
	m.r--
	if rt.InSim() {
		m.q.Wake(true)
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n   int
	q   rt.WaitQ
	reg *rt.Sim
	hb  byte
}

func (w *WaitGroup) Add(d int) {
	if s := rt.SimID(); s != nil && w.reg != s {
		w.reg = s
		rt.OnReset(func() { w.n = 0; w.q.Reset(); w.reg = nil })
	}
	rt.Release(&w.hb)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && rt.InSim() {
		w.q.Wake(true)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !rt.InSim() {
		return
	}
	rt.Point()
	for w.n > 0 {
		w.q.Park()
	}
	rt.Acquire(&w.hb)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		rt.Acquire(&o.m.hb)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out what was put last, or sometimes nothing.
type Pool struct {
	New func() any
	l   []any
	reg *rt.Sim
	hb  byte
}

func (p *Pool) touch() {
	if s := rt.SimID(); s != nil && p.reg != s {
		p.reg = s
		p.l = nil
		rt.OnReset(func() { p.l = nil; p.reg = nil })
	}
}

func (p *Pool) Get() any {
	p.touch()
	rt.Point()
	if n := len(p.l); n > 0 {
		e := rt.Env()
		if e == nil || !e.P(1, 8) {
			v := p.l[n-1]
			p.l = p.l[:n-1]
			rt.Acquire(&p.hb)
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.touch()
	rt.Release(&p.hb)
	p.l = append(p.l, x)
}

// Map is a plain association under the simulator (one task runs at a time).
type Map struct {
	k  []any
	v  []any
	hb byte
}

func (m *Map) find(key any) int {
	for i, k := range m.k {
		if k == key {
			return i
		}
	}
	return -1
}

func (m *Map) Load(key any) (any, bool) {
	rt.Point()
	rt.Acquire(&m.hb)
	if i := m.find(key); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}

func (m *Map) Store(key, value any) {
	rt.Point()
	rt.Release(&m.hb)
	if i := m.find(key); i >= 0 {
		m.v[i] = value
		return
	}
	m.k = append(m.k, key)
	m.v = append(m.v, value)
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	rt.Point()
	rt.Release(&m.hb)
	rt.Acquire(&m.hb)
	if i := m.find(key); i >= 0 {
		return m.v[i], true
	}
	m.k = append(m.k, key)
	m.v = append(m.v, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	rt.Point()
	rt.Release(&m.hb)
	rt.Acquire(&m.hb)
	if i := m.find(key); i >= 0 {
		v := m.v[i]
		m.k = append(m.k[:i:i], m.k[i+1:]...)
		m.v = append(m.v[:i:i], m.v[i+1:]...)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Clear() {
	rt.Point()
	rt.Release(&m.hb)
	m.k, m.v = nil, nil
}

func (m *Map) Swap(key, value any) (any, bool) {
	rt.Point()
	rt.Release(&m.hb)
	rt.Acquire(&m.hb)
	if i := m.find(key); i >= 0 {
		v := m.v[i]
		m.v[i] = value
		return v, true
	}
	m.k = append(m.k, key)
	m.v = append(m.v, value)
	return nil, false
}

func (m *Map) CompareAndSwap(key, old, value any) bool {
	rt.Point()
	rt.Release(&m.hb)
	rt.Acquire(&m.hb)
	if i := m.find(key); i >= 0 && m.v[i] == old {
		m.v[i] = value
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	rt.Point()
	rt.Release(&m.hb)
	rt.Acquire(&m.hb)
	if i := m.find(key); i >= 0 && m.v[i] == old {
		m.k = append(m.k[:i:i], m.k[i+1:]...)
		m.v = append(m.v[:i:i], m.v[i+1:]...)
		return true
	}
	return false
}

func (m *Map) Range(f func(key, value any) bool) {
	rt.Point()
	rt.Acquire(&m.hb)
	k := append([]any(nil), m.k...)
	v := append([]any(nil), m.v...)
	for i := range k {
		if !f(k[i], v[i]) {
			return
		}
	}
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.Park()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.Wake(false) }
func (c *Cond) Broadcast() { c.q.Wake(true) }
