// Package vsync replaces sync.
package vsync

import (
	"sync"
	"vrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	hb   vrt.SyncVar
}

// Lock locks.
func (m *Mutex) Lock() {
	w := vrt.W
	if w == nil || !vrt.Active() {
		m.held = true
		return
	}
	w.Yield("lock")
	if m.held {
		w.Block("mutex", func() bool { return !m.held })
	}
	m.held = true
	m.hb.Acquire()
}

// TryLock tries.
func (m *Mutex) TryLock() bool {
	if vrt.Active() {
		if m.held {
			vrt.W.YieldSpin("trylock")
		} else {
			vrt.W.Yield("trylock")
		}
		if m.held {
			return false
		}
	}
	m.held = true
	m.hb.Acquire()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if vrt.Active() && !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.hb.Release()
	m.held = false
	if vrt.Active() {
		vrt.W.Yield("unlock")
	}
}

type rwWaiter struct{ granted bool }

// RWMutex is sync.RWMutex with Go's writer preference.
type RWMutex struct {
	w       bool // a writer holds or waits for readers
	readers int
	waiting []*rwWaiter
	hbW     vrt.SyncVar // released by writers
	hbR     vrt.SyncVar // released by readers
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	w := vrt.W
	if w == nil || !vrt.Active() {
		return
	}
	w.Yield("rlock")
	if m.w {
		x := &rwWaiter{}
		m.waiting = append(m.waiting, x)
		w.Block("rwmutex read", func() bool { return x.granted })
		m.hbW.Acquire()
		return
	}
	m.readers++
	m.hbW.Acquire()
}

// TryRLock tries.
func (m *RWMutex) TryRLock() bool {
	if !vrt.Active() {
		return true
	}
	vrt.W.Yield("tryrlock")
	if m.w {
		return false
	}
	m.readers++
	m.hbW.Acquire()
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if !vrt.Active() {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.hbR.Release()
	m.readers--
	vrt.W.Yield("runlock")
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	w := vrt.W
	if w == nil || !vrt.Active() {
		return
	}
	w.Yield("wlock")
	if m.w {
		w.Block("rwmutex write", func() bool { return !m.w })
	}
	m.w = true
	if m.readers > 0 {
		w.Block("rwmutex write (readers)", func() bool { return m.readers == 0 })
	}
	m.hbW.Acquire()
	m.hbR.Acquire()
}

// TryLock tries.
func (m *RWMutex) TryLock() bool {
	if !vrt.Active() {
		return true
	}
	vrt.W.Yield("trywlock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.hbW.Acquire()
	m.hbR.Acquire()
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if !vrt.Active() {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.hbW.Release()
	m.w = false
	for _, x := range m.waiting {
		x.granted = true
		m.readers++
	}
	m.waiting = nil
	vrt.W.Yield("wunlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a read locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb vrt.SyncVar
}

// Add adds.
func (g *WaitGroup) Add(d int) {
	if vrt.W != nil && !vrt.Active() {
		return
	}
	if vrt.Active() {
		vrt.W.Yield("wg.add")
	}
	if d < 0 {
		g.hb.Release()
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Go runs f in a new goroutine.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vrt.Go(func() { defer g.Done(); f() })
}

// Wait waits.
func (g *WaitGroup) Wait() {
	if !vrt.Active() {
		return
	}
	vrt.W.Yield("wg.wait")
	if g.n > 0 {
		vrt.W.Block("waitgroup", func() bool { return g.n == 0 })
	}
	g.hb.Acquire()
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if vrt.Active() {
		vrt.W.Yield("once")
	}
	if o.done {
		o.m.hb.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*rwWaiter
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	x := &rwWaiter{}
	c.waiters = append(c.waiters, x)
	c.L.Unlock()
	if vrt.Active() {
		vrt.W.Block("cond", func() bool { return x.granted })
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if vrt.Active() {
		vrt.W.Yield("signal")
	}
	if len(c.waiters) > 0 {
		c.waiters[0].granted = true
		c.waiters = c.waiters[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if vrt.Active() {
		vrt.W.Yield("broadcast")
	}
	for _, x := range c.waiters {
		x.granted = true
	}
	c.waiters = nil
}

// Pool is sync.Pool; it hands back the object put last.
type Pool struct {
	New   func() interface{}
	items []interface{}
	world *vrt.World
	hb    vrt.SyncVar
}

// Get takes an object.
func (p *Pool) Get() interface{} {
	if vrt.Active() {
		vrt.W.Yield("pool.get")
	}
	if p.world != vrt.W {
		p.items, p.world = nil, vrt.W
	}
	p.hb.Acquire()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an object back.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if vrt.Active() {
		vrt.W.Yield("pool.put")
	}
	if p.world != vrt.W {
		p.items, p.world = nil, vrt.W
	}
	p.hb.Release()
	p.items = append(p.items, x)
}

// Map is sync.Map with iteration in insertion order.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
	hb   vrt.SyncVar
}

func y(op string) {
	if vrt.Active() {
		vrt.W.Yield(op)
	}
}

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	y("map.load")
	m.hb.Acquire()
	v, ok := m.m[k]
	return v, ok
}

// Store stores.
func (m *Map) Store(k, v interface{}) {
	y("map.store")
	m.hb.AcqRel()
	m.store(k, v)
}

func (m *Map) store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) drop(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { y("map.delete"); m.hb.AcqRel(); m.drop(k) }

// LoadOrStore is as sync.Map.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	y("map.loadorstore")
	m.hb.AcqRel()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

// LoadAndDelete is as sync.Map.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	y("map.loadanddelete")
	m.hb.AcqRel()
	v, ok := m.m[k]
	m.drop(k)
	return v, ok
}

// Swap is as sync.Map.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	y("map.swap")
	m.hb.AcqRel()
	x, ok := m.m[k]
	m.store(k, v)
	return x, ok
}

// CompareAndSwap is as sync.Map.
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	y("map.cas")
	m.hb.AcqRel()
	if x, ok := m.m[k]; ok && x == old {
		m.m[k] = new
		return true
	}
	return false
}

// CompareAndDelete is as sync.Map.
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	y("map.cad")
	m.hb.AcqRel()
	if x, ok := m.m[k]; ok && x == old {
		m.drop(k)
		return true
	}
	return false
}

// Clear is as sync.Map.
func (m *Map) Clear() {
	y("map.clear")
	m.hb.AcqRel()
	m.m, m.keys = nil, nil
}

// Range iterates.
func (m *Map) Range(f func(k, v interface{}) bool) {
	y("map.range")
	m.hb.AcqRel()
	for _, k := range append([]interface{}{}, m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		y("map.range")
	}
}
