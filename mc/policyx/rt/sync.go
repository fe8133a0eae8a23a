package rt

import (
	"unsafe"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	point("Lock")
	wait("a lock", func() bool { return m.held })
	m.held = true
	acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	point("TryLock")
	if m.held {
		return false
	}
	m.held = true
	acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	point("Unlock")
	if !m.held {
		misuse("unlock of unlocked mutex")
	}
	release(unsafe.Pointer(m))
	m.held = false
}

func misuse(s string) {
	if active {
		fail("lock", "%s by thread %d", s, cur.id)
	}
	panic(s)
}

// RWMutex is sync.RWMutex; a waiting writer keeps out new readers.
type RWMutex struct {
	held    bool
	readers int
	waiting int
	ra, wa  byte // addresses for the clocks of readers and writers
}

func (m *RWMutex) Lock() {
	point("Lock")
	m.waiting++
	wait("a write lock", func() bool { return m.held || m.readers > 0 })
	m.waiting--
	m.held = true
	acquire(unsafe.Pointer(&m.wa))
	acquire(unsafe.Pointer(&m.ra))
}

func (m *RWMutex) TryLock() bool {
	point("TryLock")
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	acquire(unsafe.Pointer(&m.wa))
	acquire(unsafe.Pointer(&m.ra))
	return true
}

func (m *RWMutex) Unlock() {
	point("Unlock")
	if !m.held {
		misuse("unlock of unlocked write lock")
	}
	release(unsafe.Pointer(&m.wa))
	m.held = false
}

func (m *RWMutex) RLock() {
	point("RLock")
	wait("a read lock", func() bool { return m.held || m.waiting > 0 })
	m.readers++
	acquire(unsafe.Pointer(&m.wa))
}

func (m *RWMutex) TryRLock() bool {
	point("TryRLock")
	if m.held || m.waiting > 0 {
		return false
	}
	m.readers++
	acquire(unsafe.Pointer(&m.wa))
	return true
}

func (m *RWMutex) RUnlock() {
	point("RUnlock")
	if m.readers == 0 {
		misuse("unlock of unlocked read lock")
	}
	release(unsafe.Pointer(&m.ra))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	point("Once.Do")
	if o.done {
		acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { release(unsafe.Pointer(o)); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	point("WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		misuse("negative WaitGroup counter")
	}
	release(unsafe.Pointer(w))
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	point("WaitGroup.Wait")
	wait("a wait group", func() bool { return w.n > 0 })
	acquire(unsafe.Pointer(w))
}

// Cond is sync.Cond.
type Cond struct {
	L        Locker
	gen      int
	tickets  int
	released int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	me := c.tickets
	c.tickets++
	c.L.Unlock()
	wait("a condition", func() bool { return me >= c.released })
	acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	point("Signal")
	release(unsafe.Pointer(c))
	if c.released < c.tickets {
		c.released++
	}
}
func (c *Cond) Broadcast() {
	point("Broadcast")
	release(unsafe.Pointer(c))
	c.released = c.tickets
}

// Map is sync.Map.
type Map struct{ m map[interface{}]interface{} }

func (m *Map) at(what string) {
	point("Map." + what)
	acquire(unsafe.Pointer(m))
	if what != "Load" && what != "Range" {
		release(unsafe.Pointer(m))
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *Map) Load(k interface{}) (interface{}, bool) { m.at("Load"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{})                 { m.at("Store"); m.m[k] = v }
func (m *Map) Delete(k interface{})                   { m.at("Delete"); delete(m.m, k) }
func (m *Map) Clear()                                 { m.at("Clear"); m.m = nil }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.at("LoadOrStore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.at("LoadAndDelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.at("Swap")
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.at("CompareAndSwap")
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.at("CompareAndDelete")
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.at("Range")
	for k, v := range m.m {
		if !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool: it hands out what was put in last.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	point("Pool.Get")
	acquire(unsafe.Pointer(p))
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v interface{}) {
	point("Pool.Put")
	release(unsafe.Pointer(p))
	p.l = append(p.l, v)
}
