// Package rt takes the place of sync and sync/atomic in the library under test: a controlled scheduler decides at every
// synchronisation operation which thread goes on. Data races are found by the race detector the binary is built with; it
// sees the synchronisation the stand-ins model, and none of the scheduler's own.
//
// All functions are excluded from race instrumentation: what they share is protected by the scheduler, which runs one
// thread at a time.
package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Result is how an execution ended.
type Result struct {
	Failure          string // race, deadlock, panic or misuse of a lock; empty if all threads ended
	Switches, Points int
	Trace            []string
}

type blocker interface{ blocked() bool }

type thread struct {
	id   int
	wake chan struct{}
	on   blocker // what it waits for
	why  string
	done bool
}

type kill struct{}

var (
	active  bool
	dead    bool
	threads []*thread
	cur     *thread
	back    chan struct{}
	failure string
)

// Run executes the bodies as threads. At every synchronisation operation and when a thread ends choose says who goes
// on; at most preempt times a thread that could go on is put aside (no limit if negative).
//
//go:norace
func Run(bodies []func(), preempt int, trace bool, choose func(n int) int) *Result {
	res := &Result{}
	races := raceCount()
	threads, cur, dead, failure = nil, nil, false, ""
	back = make(chan struct{}, 1)
	ended := make(chan struct{}, len(bodies))
	for i := range bodies {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		threads = append(threads, t)
		go start(t, bodies[i], ended)
	}
	active = true
	defer stop(ended, len(bodies))
	left := preempt
	opts := make([]*thread, 0, len(bodies))
	for {
		opts = opts[:0]
		last := cur
		if last != nil && last.ready() {
			opts = append(opts, last)
		} else {
			last = nil
		}
		if last == nil || left != 0 {
			for _, o := range threads {
				if o != last && o.ready() {
					opts = append(opts, o)
				}
			}
		}
		if len(opts) == 0 {
			desc := ""
			for _, o := range threads {
				if !o.done {
					desc += fmt.Sprintf(" thread %d waits for %s;", o.id, o.why)
				}
			}
			if desc != "" {
				res.Failure = "deadlock:" + desc
			}
			break
		}
		c := 0
		if len(opts) > 1 {
			c = choose(len(opts))
		}
		o := opts[c]
		if last != nil && o != last {
			left--
			res.Switches++
			if trace {
				res.Trace = append(res.Trace, fmt.Sprintf("thread %d is put aside at %s", last.id, last.why))
			}
		}
		if trace && o != cur {
			res.Trace = append(res.Trace, fmt.Sprintf("thread %d goes on", o.id))
		}
		res.Points++
		cur = o
		handover(o.wake, back)
		if failure != "" {
			res.Failure = failure
			break
		}
	}
	if n := raceCount() - races; n > 0 && res.Failure == "" {
		res.Failure = "data race: " + raceReport()
	}
	return res
}

//go:norace
func start(t *thread, body func(), ended chan struct{}) {
	defer finish(t, ended)
	receive(t.wake)
	if !dead {
		body()
	}
}

//go:norace
func finish(t *thread, ended chan struct{}) {
	if r := recover(); r != nil {
		if _, ok := r.(kill); !ok && failure == "" {
			failure = fmt.Sprintf("thread %d panics: %v", t.id, r)
		}
	}
	t.done = true
	ended <- struct{}{} // what the thread did happens before the end of Run
	send(back)
}

// stop ends the threads that are left, one at a time.
//
//go:norace
func stop(ended chan struct{}, n int) {
	dead = true
	for _, t := range threads {
		if !t.done {
			cur = t
			handover(t.wake, back)
		}
	}
	for ; n > 0; n-- {
		<-ended
	}
	active, threads, cur = false, nil, nil
}

//go:norace
func (t *thread) ready() bool {
	return !t.done && (t.on == nil || !t.on.blocked())
}

//go:norace
func yield(what string, on blocker) {
	t := cur
	t.why, t.on = what, on
	handover(back, t.wake)
	t.on = nil
	if dead {
		panic(kill{})
	}
}

// point lets another thread go first, or not.
//
//go:norace
func point(what string) {
	if active && !dead {
		yield(what, nil)
	}
}

// Between lets another thread go first between two operations.
//
//go:norace
func Between() { point("the next operation") }

// wait suspends the thread while b is blocked.
//
//go:norace
func wait(why string, b blocker) {
	for b.blocked() {
		if !active {
			panic("deadlock: " + why + " outside of any thread")
		}
		if dead {
			panic(kill{})
		}
		yield(why, b)
	}
}

//go:norace
func misuse(s string) {
	if dead {
		return
	}
	panic(s)
}

// Zero resets the variable p points to.
func Zero(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	v.Set(reflect.Zero(v.Type()))
}

//go:norace
func handover(to, from chan struct{}) {
	raceOff()
	to <- struct{}{}
	<-from
	raceOn()
}

//go:norace
func send(to chan struct{}) {
	raceOff()
	to <- struct{}{}
	raceOn()
}

//go:norace
func receive(from chan struct{}) {
	raceOff()
	<-from
	raceOn()
}

var _ unsafe.Pointer
