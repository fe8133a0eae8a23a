package rt

import "unsafe"

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ held bool }

//go:norace
func (m *Mutex) blocked() bool { return m.held }

//go:norace
func (m *Mutex) Lock() {
	point("Lock")
	wait("a lock", m)
	m.held = true
	acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	point("TryLock")
	if m.held {
		return false
	}
	m.held = true
	acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	point("Unlock")
	if !m.held {
		misuse("unlock of unlocked mutex")
	}
	release(unsafe.Pointer(m))
	m.held = false
}

// RWMutex is sync.RWMutex; a waiting writer keeps out new readers.
type RWMutex struct {
	held    bool
	readers int
	waiting int
	ra, wa  byte // addresses for the clocks of readers and writers
}

type forWriter struct{ m *RWMutex }
type forReader struct{ m *RWMutex }

//go:norace
func (f forWriter) blocked() bool { return f.m.held || f.m.readers > 0 }

//go:norace
func (f forReader) blocked() bool { return f.m.held || f.m.waiting > 0 }

//go:norace
func (m *RWMutex) Lock() {
	point("Lock")
	m.waiting++
	wait("a write lock", forWriter{m})
	m.waiting--
	m.held = true
	acquire(unsafe.Pointer(&m.wa))
	acquire(unsafe.Pointer(&m.ra))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	point("TryLock")
	if m.held || m.readers > 0 {
		return false
	}
	m.held = true
	acquire(unsafe.Pointer(&m.wa))
	acquire(unsafe.Pointer(&m.ra))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	point("Unlock")
	if !m.held {
		misuse("unlock of unlocked write lock")
	}
	release(unsafe.Pointer(&m.wa))
	m.held = false
}

//go:norace
func (m *RWMutex) RLock() {
	point("RLock")
	wait("a read lock", forReader{m})
	m.readers++
	acquire(unsafe.Pointer(&m.wa))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	point("TryRLock")
	if m.held || m.waiting > 0 {
		return false
	}
	m.readers++
	acquire(unsafe.Pointer(&m.wa))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	point("RUnlock")
	if m.readers == 0 {
		misuse("unlock of unlocked read lock")
	}
	releaseMerge(unsafe.Pointer(&m.ra))
	m.readers--
}

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	point("Once.Do")
	if o.done {
		acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	release(unsafe.Pointer(o))
	o.done = true
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) blocked() bool { return w.n > 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	point("WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		misuse("negative WaitGroup counter")
	}
	releaseMerge(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	point("WaitGroup.Wait")
	wait("a wait group", w)
	acquire(unsafe.Pointer(w))
}

// Cond is sync.Cond.
type Cond struct {
	L        Locker
	tickets  int
	released int
}

type forSignal struct {
	c  *Cond
	me int
}

//go:norace
func (f forSignal) blocked() bool { return f.me >= f.c.released }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	me := c.tickets
	c.tickets++
	c.L.Unlock()
	wait("a condition", forSignal{c, me})
	acquire(unsafe.Pointer(&c.tickets))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	point("Signal")
	releaseMerge(unsafe.Pointer(&c.tickets))
	if c.released < c.tickets {
		c.released++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	point("Broadcast")
	releaseMerge(unsafe.Pointer(&c.tickets))
	c.released = c.tickets
}

// Map is sync.Map.
type Map struct {
	k, v []interface{}
	addr byte
}

//go:norace
func (m *Map) find(k interface{}) int {
	for i := range m.k {
		if m.k[i] == k {
			return i
		}
	}
	return -1
}

//go:norace
func (m *Map) read(what string) {
	point("Map." + what)
	acquire(unsafe.Pointer(&m.addr))
}

//go:norace
func (m *Map) write(what string) {
	point("Map." + what)
	acquire(unsafe.Pointer(&m.addr))
	releaseMerge(unsafe.Pointer(&m.addr))
}

//go:norace
func (m *Map) put(i int, k, v interface{}) {
	if i >= 0 {
		m.v[i] = v
		return
	}
	m.k = append(m.k[:len(m.k):len(m.k)], k)
	m.v = append(m.v[:len(m.v):len(m.v)], v)
}

//go:norace
func (m *Map) drop(i int) {
	if i < 0 {
		return
	}
	m.k = append(append([]interface{}(nil), m.k[:i]...), m.k[i+1:]...)
	m.v = append(append([]interface{}(nil), m.v[:i]...), m.v[i+1:]...)
}

//go:norace
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.read("Load")
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v interface{}) { m.write("Store"); m.put(m.find(k), k, v) }

//go:norace
func (m *Map) Delete(k interface{}) { m.write("Delete"); m.drop(m.find(k)) }

//go:norace
func (m *Map) Clear() { m.write("Clear"); m.k, m.v = nil, nil }

//go:norace
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.write("LoadOrStore")
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	m.put(-1, k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.write("LoadAndDelete")
	if i := m.find(k); i >= 0 {
		v := m.v[i]
		m.drop(i)
		return v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.write("Swap")
	i := m.find(k)
	var o interface{}
	if i >= 0 {
		o = m.v[i]
	}
	m.put(i, k, v)
	return o, i >= 0
}

//go:norace
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.write("CompareAndSwap")
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.v[i] = n
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.write("CompareAndDelete")
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.drop(i)
		return true
	}
	return false
}

//go:norace
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.read("Range")
	k, v := m.k, append([]interface{}(nil), m.v...)
	for i := range k {
		if !f(k[i], v[i]) {
			return
		}
	}
}

// Pool is sync.Pool: it hands out what was put in last.
type Pool struct {
	New  func() interface{}
	l    []interface{}
	addr byte
}

//go:norace
func (p *Pool) Get() interface{} {
	point("Pool.Get")
	if n := len(p.l); n > 0 {
		acquire(unsafe.Pointer(&p.addr))
		v := p.l[n-1]
		p.l = p.l[: n-1 : n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v interface{}) {
	point("Pool.Put")
	releaseMerge(unsafe.Pointer(&p.addr))
	p.l = append(p.l, v)
}
