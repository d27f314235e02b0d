// Package sync is the simulated stand-in for the standard package.
package sync

import (
	ssync "sync"
	"verifsim/sim"
)

type Locker = ssync.Locker

// Mutex is handed over like the real one: usually whoever comes first takes it, but a task that
// has waited for more than a millisecond is given it next.
type Mutex struct {
	locked bool
	ws     []*sim.Waiter
}

func (m *Mutex) Lock() {
	sim.Op(-40)
	if !m.locked {
		m.locked = true
		return
	}
	if !sim.Active() {
		panic("verifsim: deadlock outside a run")
	}
	w := sim.NewWaiter()
	m.ws = append(m.ws, w)
	for {
		w.Wait("mutex")
		if w.Granted {
			return
		}
		if !m.locked {
			break
		}
	}
	m.locked = true
	for i := range m.ws {
		if m.ws[i] == w {
			m.ws = append(m.ws[:i:i], m.ws[i+1:]...)
			break
		}
	}
}
func (m *Mutex) TryLock() bool {
	sim.Op(-40)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	sim.Op(-41)
	if !m.locked {
		sim.Fatal("sync: unlock of unlocked mutex")
	}
	m.unlock()
}
func (m *Mutex) unlock() {
	for len(m.ws) > 0 && m.ws[0].Dead() {
		m.ws = m.ws[1:]
	}
	if len(m.ws) > 0 && m.ws[0].Starving() {
		w := m.ws[0]
		m.ws = m.ws[1:]
		w.Granted = true
		w.Wake()
		return
	}
	m.locked = false
	for _, w := range m.ws {
		w.Wake()
	}
}

// RWMutex: a waiting writer keeps new readers out, and the readers that waited for a writer go
// before the next writer.
type RWMutex struct {
	readers int
	writer  bool // has the lock or waits for the readers before it
	wm      Mutex
	w       sim.WaitList
	rs      []*sim.Waiter
}

func (m *RWMutex) Lock() {
	m.wm.Lock()
	m.writer = true
	for m.readers > 0 {
		if !sim.Active() {
			panic("verifsim: deadlock outside a run")
		}
		m.w.Wait("rwmutex")
	}
}
func (m *RWMutex) TryLock() bool {
	sim.Op(-42)
	if m.readers > 0 || m.wm.locked {
		return false
	}
	m.wm.locked = true
	m.writer = true
	return true
}
func (m *RWMutex) Unlock() {
	sim.Op(-43)
	if !m.writer || m.readers > 0 {
		sim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	rs := m.rs
	m.rs = nil
	for _, w := range rs {
		if !w.Dead() {
			m.readers++
			w.Granted = true
			w.Wake()
		}
	}
	m.wm.unlock()
}
func (m *RWMutex) RLock() {
	sim.Op(-44)
	if !m.writer {
		m.readers++
		return
	}
	if !sim.Active() {
		panic("verifsim: deadlock outside a run")
	}
	w := sim.NewWaiter()
	m.rs = append(m.rs, w)
	for !w.Granted {
		w.Wait("rwmutex")
	}
}
func (m *RWMutex) TryRLock() bool {
	sim.Op(-44)
	if m.writer {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	sim.Op(-45)
	if m.readers <= 0 {
		sim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.w.WakeAll()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	w sim.WaitList
}

func (g *WaitGroup) Add(d int) {
	sim.Op(-46)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.WakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go(func() {
		defer g.Done()
		f()
	})
}
func (g *WaitGroup) Wait() {
	sim.Op(-47)
	for g.n > 0 {
		g.w.Wait("waitgroup")
	}
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sim.Op(-48)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type Cond struct {
	L Locker
	w sim.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	c.w.Wait("cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	sim.Op(-49)
	c.w.WakeOne()
}
func (c *Cond) Broadcast() {
	sim.Op(-49)
	c.w.WakeAll()
}

// Pool hands out the most recently returned item (the most adversarial legal behaviour for
// aliasing), and sometimes forgets an item.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	sim.Op(-50)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		if !sim.PoolMiss() {
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	sim.Op(-51)
	p.items = append(p.items, x)
}

type Map struct {
	m     map[interface{}]interface{}
	order []interface{}
}

func (m *Map) Load(key interface{}) (value interface{}, ok bool) {
	sim.Op(-52)
	value, ok = m.m[key]
	return
}
func (m *Map) put(key, value interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[key]; !ok {
		m.order = append(m.order, key)
	}
	m.m[key] = value
}
func (m *Map) del(key interface{}) {
	if _, ok := m.m[key]; !ok {
		return
	}
	delete(m.m, key)
	for i, k := range m.order {
		if k == key {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			break
		}
	}
}
func (m *Map) Store(key, value interface{}) {
	sim.Op(-53)
	m.put(key, value)
}
func (m *Map) LoadOrStore(key, value interface{}) (actual interface{}, loaded bool) {
	sim.Op(-54)
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.put(key, value)
	return value, false
}
func (m *Map) LoadAndDelete(key interface{}) (value interface{}, loaded bool) {
	sim.Op(-55)
	value, loaded = m.m[key]
	m.del(key)
	return
}
func (m *Map) Delete(key interface{}) {
	sim.Op(-56)
	m.del(key)
}
func (m *Map) Swap(key, value interface{}) (previous interface{}, loaded bool) {
	sim.Op(-57)
	previous, loaded = m.m[key]
	m.put(key, value)
	return
}
func (m *Map) CompareAndSwap(key, old, new interface{}) bool {
	sim.Op(-57)
	if v, ok := m.m[key]; ok && v == old {
		m.put(key, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(key, old interface{}) bool {
	sim.Op(-57)
	if v, ok := m.m[key]; ok && v == old {
		m.del(key)
		return true
	}
	return false
}
func (m *Map) Range(f func(key, value interface{}) bool) {
	sim.Op(-58)
	for _, k := range append([]interface{}(nil), m.order...) {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	sim.Op(-58)
	m.m = nil
	m.order = nil
}
