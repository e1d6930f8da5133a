// Package simsync replaces package sync on the simulated machine.
package simsync

import (
	"unsafe"

	"VERIFSIM/sim"
)

// Locker is an object that can be locked and unlocked.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutex.
type Mutex struct {
	locked bool
	sema   byte
}

//go:norace
func (m *Mutex) Lock() {
	sim.Point()
	for m.locked {
		sim.Block()
	}
	m.locked = true
	sim.Acquire(unsafe.Pointer(&m.sema))
}

//go:norace
func (m *Mutex) TryLock() bool {
	sim.Point()
	if m.locked {
		return false
	}
	m.locked = true
	sim.Acquire(unsafe.Pointer(&m.sema))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	sim.Release(unsafe.Pointer(&m.sema))
	m.locked = false
	sim.WakeAll()
	sim.Point()
}

// RWMutex is a simulated reader/writer mutex in which, as in package sync, a
// waiting writer holds off new readers.
type RWMutex struct {
	writer  bool
	readers int
	waiting int
	rs, ws  byte
}

//go:norace
func (rw *RWMutex) Lock() {
	sim.Point()
	rw.waiting++
	for rw.writer || rw.readers > 0 {
		sim.Block()
	}
	rw.waiting--
	rw.writer = true
	sim.Acquire(unsafe.Pointer(&rw.rs))
	sim.Acquire(unsafe.Pointer(&rw.ws))
}

//go:norace
func (rw *RWMutex) TryLock() bool {
	sim.Point()
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	sim.Acquire(unsafe.Pointer(&rw.rs))
	sim.Acquire(unsafe.Pointer(&rw.ws))
	return true
}

//go:norace
func (rw *RWMutex) Unlock() {
	if !rw.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	sim.Release(unsafe.Pointer(&rw.rs))
	rw.writer = false
	sim.WakeAll()
	sim.Point()
}

//go:norace
func (rw *RWMutex) RLock() {
	sim.Point()
	for rw.writer || rw.waiting > 0 {
		sim.Block()
	}
	rw.readers++
	sim.Acquire(unsafe.Pointer(&rw.rs))
}

//go:norace
func (rw *RWMutex) TryRLock() bool {
	sim.Point()
	if rw.writer || rw.waiting > 0 {
		return false
	}
	rw.readers++
	sim.Acquire(unsafe.Pointer(&rw.rs))
	return true
}

//go:norace
func (rw *RWMutex) RUnlock() {
	if rw.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	sim.ReleaseMerge(unsafe.Pointer(&rw.ws))
	rw.readers--
	sim.WakeAll()
	sim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read lock.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
	sema byte
}

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool {
	sim.Point()
	if o.done {
		sim.Acquire(unsafe.Pointer(&o.sema))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	o.done = true
	sim.ReleaseMerge(unsafe.Pointer(&o.sema))
}

// OnceFunc returns a function that invokes f only once.
func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

// OnceValue returns a function that invokes f only once.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}

// OnceValues returns a function that invokes f only once.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		once.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n    int
	sema byte
}

//go:norace
func (wg *WaitGroup) Add(delta int) {
	sim.Point()
	if delta < 0 {
		sim.ReleaseMerge(unsafe.Pointer(&wg.sema))
	}
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		sim.WakeAll()
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	sim.Go(func() {
		defer wg.Done()
		f()
	})
}

//go:norace
func (wg *WaitGroup) Wait() {
	sim.Point()
	for wg.n > 0 {
		sim.Block()
	}
	sim.Acquire(unsafe.Pointer(&wg.sema))
}

// Cond is a simulated condition variable.
type Cond struct {
	L   Locker
	seq uint64
	rel uint64
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	me := c.seq
	c.seq++
	c.L.Unlock()
	for c.rel <= me {
		sim.Block()
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.rel < c.seq {
		c.rel++
	}
	sim.WakeAll()
	sim.Point()
}

//go:norace
func (c *Cond) Broadcast() {
	c.rel = c.seq
	sim.WakeAll()
	sim.Point()
}

// Pool is a simulated pool: last in, first out, shared by all tasks.
type Pool struct {
	New   func() any
	items []any
	sema  byte
}

//go:norace
func (p *Pool) Get() any {
	sim.Point()
	sim.Acquire(unsafe.Pointer(&p.sema))
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	sim.Point()
	if x == nil {
		return
	}
	n := make([]any, len(p.items)+1)
	for i := range p.items {
		n[i] = p.items[i]
	}
	n[len(p.items)] = x
	p.items = n
	sim.ReleaseMerge(unsafe.Pointer(&p.sema))
}

// Map is a simulated sync.Map.
type Map struct {
	m     Mutex
	items map[any]any
	order []any
}

func (m *Map) Load(key any) (value any, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	value, ok = m.items[key]
	return
}

func (m *Map) put(key, value any) {
	if m.items == nil {
		m.items = map[any]any{}
	}
	if _, ok := m.items[key]; !ok {
		m.order = append(m.order, key)
	}
	m.items[key] = value
}

func (m *Map) remove(key any) {
	delete(m.items, key)
	for i := range m.order {
		if m.order[i] == key {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.m.Lock()
	defer m.m.Unlock()
	previous, loaded = m.items[key]
	m.put(key, value)
	return
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.items[key]; ok {
		return v, true
	}
	m.put(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if value, loaded = m.items[key]; loaded {
		m.remove(key)
	}
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.items[key]; !ok || v != old {
		return false
	}
	m.items[key] = new
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.items[key]; !ok || v != old {
		return false
	}
	m.remove(key)
	return true
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.items, m.order = nil, nil
}

// Range visits the entries in an order drawn by the simulator.
func (m *Map) Range(f func(key, value any) bool) {
	m.m.Lock()
	keys := append([]any(nil), m.order...)
	m.m.Unlock()
	sim.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
