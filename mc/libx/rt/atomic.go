package rt

import "unsafe"

//go:norace
func atom(p unsafe.Pointer) {
	point("an atomic operation")
	acquire(p)
	releaseMerge(p)
}

//go:norace
func atomLoad(p unsafe.Pointer) {
	point("an atomic load")
	acquire(p)
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

//go:norace
func (a *Int32) Load() int32 { return LoadInt32(&a.v) }

//go:norace
func (a *Int32) Store(n int32) { StoreInt32(&a.v, n) }

//go:norace
func (a *Int32) Add(d int32) int32 { return AddInt32(&a.v, d) }

//go:norace
func (a *Int32) Swap(n int32) int32 { return SwapInt32(&a.v, n) }

//go:norace
func (a *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }

//go:norace
func (a *Int32) And(m int32) int32 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v &= m; return o }

//go:norace
func (a *Int32) Or(m int32) int32 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v |= m; return o }

//go:norace
func LoadInt32(p *int32) int32 { atomLoad(unsafe.Pointer(p)); return *p }

//go:norace
func StoreInt32(p *int32, n int32) { atom(unsafe.Pointer(p)); *p = n }

//go:norace
func AddInt32(p *int32, d int32) int32 { atom(unsafe.Pointer(p)); *p += d; return *p }

//go:norace
func SwapInt32(p *int32, n int32) int32 { atom(unsafe.Pointer(p)); o := *p; *p = n; return o }

//go:norace
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

//go:norace
func (a *Int64) Load() int64 { return LoadInt64(&a.v) }

//go:norace
func (a *Int64) Store(n int64) { StoreInt64(&a.v, n) }

//go:norace
func (a *Int64) Add(d int64) int64 { return AddInt64(&a.v, d) }

//go:norace
func (a *Int64) Swap(n int64) int64 { return SwapInt64(&a.v, n) }

//go:norace
func (a *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }

//go:norace
func (a *Int64) And(m int64) int64 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v &= m; return o }

//go:norace
func (a *Int64) Or(m int64) int64 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v |= m; return o }

//go:norace
func LoadInt64(p *int64) int64 { atomLoad(unsafe.Pointer(p)); return *p }

//go:norace
func StoreInt64(p *int64, n int64) { atom(unsafe.Pointer(p)); *p = n }

//go:norace
func AddInt64(p *int64, d int64) int64 { atom(unsafe.Pointer(p)); *p += d; return *p }

//go:norace
func SwapInt64(p *int64, n int64) int64 { atom(unsafe.Pointer(p)); o := *p; *p = n; return o }

//go:norace
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

//go:norace
func (a *Uint32) Load() uint32 { return LoadUint32(&a.v) }

//go:norace
func (a *Uint32) Store(n uint32) { StoreUint32(&a.v, n) }

//go:norace
func (a *Uint32) Add(d uint32) uint32 { return AddUint32(&a.v, d) }

//go:norace
func (a *Uint32) Swap(n uint32) uint32 { return SwapUint32(&a.v, n) }

//go:norace
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }

//go:norace
func (a *Uint32) And(m uint32) uint32 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v &= m; return o }

//go:norace
func (a *Uint32) Or(m uint32) uint32 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v |= m; return o }

//go:norace
func LoadUint32(p *uint32) uint32 { atomLoad(unsafe.Pointer(p)); return *p }

//go:norace
func StoreUint32(p *uint32, n uint32) { atom(unsafe.Pointer(p)); *p = n }

//go:norace
func AddUint32(p *uint32, d uint32) uint32 { atom(unsafe.Pointer(p)); *p += d; return *p }

//go:norace
func SwapUint32(p *uint32, n uint32) uint32 { atom(unsafe.Pointer(p)); o := *p; *p = n; return o }

//go:norace
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

//go:norace
func (a *Uint64) Load() uint64 { return LoadUint64(&a.v) }

//go:norace
func (a *Uint64) Store(n uint64) { StoreUint64(&a.v, n) }

//go:norace
func (a *Uint64) Add(d uint64) uint64 { return AddUint64(&a.v, d) }

//go:norace
func (a *Uint64) Swap(n uint64) uint64 { return SwapUint64(&a.v, n) }

//go:norace
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }

//go:norace
func (a *Uint64) And(m uint64) uint64 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v &= m; return o }

//go:norace
func (a *Uint64) Or(m uint64) uint64 { atom(unsafe.Pointer(&a.v)); o := a.v; a.v |= m; return o }

//go:norace
func LoadUint64(p *uint64) uint64 { atomLoad(unsafe.Pointer(p)); return *p }

//go:norace
func StoreUint64(p *uint64, n uint64) { atom(unsafe.Pointer(p)); *p = n }

//go:norace
func AddUint64(p *uint64, d uint64) uint64 { atom(unsafe.Pointer(p)); *p += d; return *p }

//go:norace
func SwapUint64(p *uint64, n uint64) uint64 { atom(unsafe.Pointer(p)); o := *p; *p = n; return o }

//go:norace
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

//go:norace
func (a *Uintptr) Load() uintptr { return LoadUintptr(&a.v) }

//go:norace
func (a *Uintptr) Store(n uintptr) { StoreUintptr(&a.v, n) }

//go:norace
func (a *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&a.v, d) }

//go:norace
func (a *Uintptr) Swap(n uintptr) uintptr { return SwapUintptr(&a.v, n) }

//go:norace
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&a.v, o, n) }

//go:norace
func (a *Uintptr) And(m uintptr) uintptr { atom(unsafe.Pointer(&a.v)); o := a.v; a.v &= m; return o }

//go:norace
func (a *Uintptr) Or(m uintptr) uintptr { atom(unsafe.Pointer(&a.v)); o := a.v; a.v |= m; return o }

//go:norace
func LoadUintptr(p *uintptr) uintptr { atomLoad(unsafe.Pointer(p)); return *p }

//go:norace
func StoreUintptr(p *uintptr, n uintptr) { atom(unsafe.Pointer(p)); *p = n }

//go:norace
func AddUintptr(p *uintptr, d uintptr) uintptr { atom(unsafe.Pointer(p)); *p += d; return *p }

//go:norace
func SwapUintptr(p *uintptr, n uintptr) uintptr { atom(unsafe.Pointer(p)); o := *p; *p = n; return o }

//go:norace
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Bool is atomic.Bool.
type Bool struct{ v bool }

//go:norace
func (a *Bool) Load() bool { atomLoad(unsafe.Pointer(a)); return a.v }

//go:norace
func (a *Bool) Store(n bool) { atom(unsafe.Pointer(a)); a.v = n }

//go:norace
func (a *Bool) Swap(n bool) bool { atom(unsafe.Pointer(a)); o := a.v; a.v = n; return o }

//go:norace
func (a *Bool) CompareAndSwap(o, n bool) bool {
	atom(unsafe.Pointer(a))
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

//go:norace
func (a *Pointer[T]) Load() *T { atomLoad(unsafe.Pointer(a)); return a.v }

//go:norace
func (a *Pointer[T]) Store(n *T) { atom(unsafe.Pointer(a)); a.v = n }

//go:norace
func (a *Pointer[T]) Swap(n *T) *T { atom(unsafe.Pointer(a)); o := a.v; a.v = n; return o }

//go:norace
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	atom(unsafe.Pointer(a))
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

// Value is atomic.Value.
type Value struct{ v interface{} }

//go:norace
func (a *Value) Load() interface{} { atom(unsafe.Pointer(a)); return a.v }

//go:norace
func (a *Value) Store(n interface{}) {
	if n == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	atom(unsafe.Pointer(a))
	a.v = n
}

//go:norace
func (a *Value) Swap(n interface{}) interface{} { atom(unsafe.Pointer(a)); o := a.v; a.v = n; return o }

//go:norace
func (a *Value) CompareAndSwap(o, n interface{}) bool {
	atom(unsafe.Pointer(a))
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

//go:norace
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { atomLoad(unsafe.Pointer(p)); return *p }

//go:norace
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { atom(unsafe.Pointer(p)); *p = n }

//go:norace
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	atom(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}

//go:norace
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	atom(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

//go:norace
func AndInt32(p *int32, m int32) int32 { atom(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:norace
func OrInt32(p *int32, m int32) int32 { atom(unsafe.Pointer(p)); o := *p; *p |= m; return o }

//go:norace
func AndInt64(p *int64, m int64) int64 { atom(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:norace
func OrInt64(p *int64, m int64) int64 { atom(unsafe.Pointer(p)); o := *p; *p |= m; return o }

//go:norace
func AndUint32(p *uint32, m uint32) uint32 { atom(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:norace
func OrUint32(p *uint32, m uint32) uint32 { atom(unsafe.Pointer(p)); o := *p; *p |= m; return o }

//go:norace
func AndUint64(p *uint64, m uint64) uint64 { atom(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:norace
func OrUint64(p *uint64, m uint64) uint64 { atom(unsafe.Pointer(p)); o := *p; *p |= m; return o }

//go:norace
func AndUintptr(p *uintptr, m uintptr) uintptr { atom(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:norace
func OrUintptr(p *uintptr, m uintptr) uintptr { atom(unsafe.Pointer(p)); o := *p; *p |= m; return o }
