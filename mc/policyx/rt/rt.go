// Package rt is a controlled scheduler with a happens-before race detector and stand-ins for package sync and
// sync/atomic. Copies of it are linked with instrumented copies of the code under test, one per explorer worker,
// see gen.go.
package rt

import (
	"fmt"
	"unsafe"
)

// Chooser picks the next thread: it returns a number in [0,n).
type Chooser = func(n int) int

// Result is how an execution ended.
type Result struct {
	Failure          string // race, deadlock, panic or misuse of a lock; empty if all threads ended
	Class            string
	Foreign          interface{} // panic value of the chooser
	Switches, Points int
	Trace            []string
}

type clock []int32

type thread struct {
	id      int
	vc      clock
	wake    chan struct{}
	done    bool
	blocked func() bool // whether it still cannot go on
	why     string
	exited  chan struct{}
}

type access struct {
	tid, clk int32
	mask     uint8
	write    bool
	pos      string
}

type kill struct{}

var (
	active  bool
	threads []*thread
	cur     *thread
	left    int // preemptions left
	choose  Chooser
	res     *Result
	fin     chan struct{}
	dead    bool
	ender   *thread // who stopped the execution
	tracing bool
	shadow  map[unsafe.Pointer][]access
	syncs   map[unsafe.Pointer]clock
)

// Run executes the bodies as threads. At every synchronisation operation choose says who goes on; at most preempt times a thread that could go on is put aside (no limit if negative).
func Run(bodies []func(), preempt int, trace bool, ch Chooser) *Result {
	n := len(bodies)
	threads, cur, left, choose, dead, tracing, ender = nil, nil, preempt, ch, false, trace, nil
	shadow, syncs = map[unsafe.Pointer][]access{}, map[unsafe.Pointer]clock{}
	res = &Result{}
	fin = make(chan struct{}, 1)
	for i := range bodies {
		t := &thread{id: i, vc: make(clock, n), wake: make(chan struct{}, 1), exited: make(chan struct{})}
		t.vc[i] = 1
		threads = append(threads, t)
		body := bodies[i]
		go func() {
			defer close(t.exited)
			defer func() {
				r := recover()
				if _, ok := r.(kill); ok {
					return
				}
				if r != nil {
					end("panic", fmt.Sprintf("thread %d panics: %v", t.id, r), nil)
				}
			}()
			<-t.wake
			if dead {
				return
			}
			body()
			t.done = true
			note("thread %d ends", t.id)
			next()
		}()
	}
	active = true
	defer func() { active = false; threads, cur, shadow, syncs = nil, nil, nil, nil }()
	func() {
		defer foreign()
		first := threads[pick(n)]
		cur = first
		first.wake <- struct{}{}
	}()
	<-fin
	if ender != nil {
		<-ender.exited
	}
	for _, t := range threads { // one at a time: they may still run deferred calls
		if t != ender && !t.done {
			t.wake <- struct{}{}
		}
		<-t.exited
	}
	return res
}

func note(format string, args ...interface{}) {
	if tracing && len(res.Trace) < 300 {
		res.Trace = append(res.Trace, fmt.Sprintf(format, args...))
	}
}

func foreign() {
	if r := recover(); r != nil {
		if _, ok := r.(kill); ok {
			panic(r)
		}
		end("", "", r)
	}
}

// end stops the execution.
func end(class, failure string, f interface{}) {
	if !dead {
		dead = true
		ender = cur
		res.Class, res.Failure, res.Foreign = class, failure, f
		fin <- struct{}{}
	}
}

func fail(class, format string, args ...interface{}) {
	end(class, fmt.Sprintf(format, args...), nil)
	panic(kill{})
}

func pick(n int) int {
	res.Points++
	if n == 1 {
		return 0
	}
	return choose(n)
}

// Atomically runs choose and turns its panics into the end of the execution.
func pickOrEnd(n int) (c int) {
	defer func() {
		if r := recover(); r != nil {
			end("", "", r)
			panic(kill{})
		}
	}()
	return pick(n)
}

func (t *thread) ready() bool {
	return !t.done && (t.blocked == nil || !t.blocked())
}

// point lets another thread go first, or not.
func point(what string) {
	if !active || dead {
		return
	}
	t := cur
	var opts []*thread
	if t.ready() {
		opts = append(opts, t)
		if left == 0 {
			return
		}
	}
	for _, o := range threads {
		if o != t && o.ready() {
			opts = append(opts, o)
		}
	}
	if len(opts) == 0 {
		desc := ""
		for _, o := range threads {
			if !o.done {
				desc += fmt.Sprintf(" thread %d waits for %s;", o.id, o.why)
			}
		}
		fail("deadlock", "deadlock:%s", desc)
	}
	o := opts[pickOrEnd(len(opts))]
	if o == t {
		return
	}
	if opts[0] == t {
		left--
	}
	res.Switches++
	note("thread %d is put aside at %s; thread %d goes on", t.id, what, o.id)
	cur = o
	o.wake <- struct{}{}
	<-t.wake
	if dead {
		panic(kill{})
	}
}

// next hands over when a thread ends.
func next() {
	var opts []*thread
	all := true
	for _, o := range threads {
		if o.ready() {
			opts = append(opts, o)
		}
		all = all && o.done
	}
	if all {
		end("", "", nil)
		return
	}
	if len(opts) == 0 {
		desc := ""
		for _, o := range threads {
			if !o.done {
				desc += fmt.Sprintf(" thread %d waits for %s;", o.id, o.why)
			}
		}
		fail("deadlock", "deadlock:%s", desc)
	}
	o := opts[pickOrEnd(len(opts))]
	cur = o
	o.wake <- struct{}{}
}

// wait suspends the thread while cond holds.
func wait(why string, cond func() bool) {
	if !cond() {
		return
	}
	if !active {
		panic("deadlock: " + why + " outside of any thread")
	}
	if dead {
		panic(kill{})
	}
	for cond() {
		cur.blocked, cur.why = cond, why
		point(why)
		cur.blocked = nil
	}
}

// ---------------------------------------------------------------- happens-before

func join(c *clock, d clock) {
	for len(*c) < len(d) {
		*c = append(*c, 0)
	}
	for i, v := range d {
		if v > (*c)[i] {
			(*c)[i] = v
		}
	}
}

func acquire(p unsafe.Pointer) {
	if active {
		join(&cur.vc, syncs[p])
	}
}

func release(p unsafe.Pointer) {
	if active {
		c := syncs[p]
		join(&c, cur.vc)
		syncs[p] = c
		cur.vc[cur.id]++
	}
}

func record(p unsafe.Pointer, size uintptr, write bool, pos string) {
	if size == 0 || dead {
		return
	}
	if size > 1024 {
		size = 1024
	}
	// No pointer past the end of the memory may come into being, not even for a moment: the collector looks at it.
	for at := uintptr(0); at < size; {
		q := unsafe.Pointer(uintptr(p) + at)
		off := uintptr(q) % 8
		n := 8 - off
		if n > size-at {
			n = size - at
		}
		cell(unsafe.Pointer(uintptr(q)-off), uint8((1<<n-1)<<off), write, pos)
		at += n
	}
}

func cell(w unsafe.Pointer, mask uint8, write bool, pos string) {
	t := cur
	l := shadow[w]
	same := -1
	for i := range l {
		a := &l[i]
		if a.tid == int32(t.id) {
			if a.write == write && a.mask == mask {
				same = i
			}
			continue
		}
		if a.mask&mask != 0 && (a.write || write) && a.clk > t.vc[a.tid] {
			kind := func(b bool) string {
				if b {
					return "write"
				}
				return "read"
			}
			fail("race", "data race: %s at %s by thread %d and %s at %s by thread %d are not ordered", kind(a.write), a.pos, a.tid, kind(write), pos, t.id)
		}
	}
	if same >= 0 {
		l[same].clk, l[same].pos = t.vc[t.id], pos
		return
	}
	shadow[w] = append(l, access{int32(t.id), t.vc[t.id], mask, write, pos})
}

// R notes a read of a package variable. It is no scheduling point: unordered accesses are reported as races in whatever
// order they happen, and ordered ones come in the order of the synchronisation operations.
func R[T any](p *T, pos string) *T {
	if active {
		record(unsafe.Pointer(p), unsafe.Sizeof(*p), false, pos)
	}
	return p
}

// W notes a write of a package variable.
func W[T any](p *T, pos string) *T {
	if active {
		record(unsafe.Pointer(p), unsafe.Sizeof(*p), true, pos)
	}
	return p
}

// HR notes a read of some other memory; it is not a scheduling point.
func HR[T any](p *T, pos string) *T {
	if active && p != nil {
		record(unsafe.Pointer(p), unsafe.Sizeof(*p), false, pos)
	}
	return p
}

// HW notes a write of some other memory.
func HW[T any](p *T, pos string) *T {
	if active && p != nil {
		record(unsafe.Pointer(p), unsafe.Sizeof(*p), true, pos)
	}
	return p
}

// SR notes reads of all elements of a slice.
func SR[S ~[]T, T any](s S, pos string) S {
	if active {
		for i := range s {
			record(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), false, pos)
		}
	}
	return s
}

// App notes the writes of append(s, n elements).
func App[S ~[]T, T any](s S, pos string, n int) S {
	if active && cap(s)-len(s) >= n {
		f := s[:len(s)+n]
		for i := len(s); i < len(f); i++ {
			record(unsafe.Pointer(&f[i]), unsafe.Sizeof(f[i]), true, pos)
		}
	}
	return s
}

// MR notes a read of a map.
func MR[M ~map[K]V, K comparable, V any](m M, pos string) M { return mapAt(m, false, pos) }

// MW notes a write of a map.
func MW[M ~map[K]V, K comparable, V any](m M, pos string) M { return mapAt(m, true, pos) }

func mapAt[M ~map[K]V, K comparable, V any](m M, write bool, pos string) M {
	if active && m != nil {
		record(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, write, pos)
	}
	return m
}

// Zero resets a variable.
func Zero[T any](p *T) { var z T; *p = z }
