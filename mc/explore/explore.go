// Package explore is a small explicit-choice model checker: a program is a Go function that asks
// the explorer for every decision (operation, argument, fault, schedule step) through Choose, and
// the explorer executes it for every possible sequence of answers (depth-first, in parallel).
// Programs that report canonical states through Visited get state caching (explicit-state search).
package explore

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Program is one bounded exploration.
type Program struct {
	Name string
	Body func(x *X)
	// Bounds describes the alphabet and the bound, for the evidence file.
	Bounds string
	// ThoroughOnly programs are skipped in the quick tier.
	ThoroughOnly bool
	// ExecLimit is how long one execution may take before it counts as non-terminating.
	ExecLimit time.Duration
	// Serial programs use one worker (they own process-wide state such as the working directory).
	Serial bool
}

// Check decides one property.
type Check struct {
	ID       string
	Level    string
	Rule     string
	Programs []Program
	// Processes divides the first choice of every program among processes: the programs are serial because they own
	// state of the process.
	Processes bool
	// Assumptions are copied to the evidence file.
	Assumptions []string
}

type violation struct{ class, msg string }
type pruned struct{}

// X is one execution.
type X struct {
	Thorough bool
	Worker   int // which of the parallel workers runs this; for per-worker resources
	eng      *engine
	slot     []int32 // choices taken, shared with the supervising process
	ns       []int32
	prefix   []int32
	pos      int
	trace    []string
	tracing  bool
	steps    int64
	replay   bool
}

// Choose returns a number in [0,n); every number is explored.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic("explore: Choose(0)")
	}
	if x.pos >= len(x.slot)-2 {
		panic("explore: execution too long")
	}
	c := int32(0)
	if x.pos < len(x.prefix) {
		c = x.prefix[x.pos]
		if int(c) >= n {
			if x.pos == 0 && x.eng.procs > 1 {
				panic(pruned{})
			}
			panic(fmt.Sprintf("explore: replay diverged at choice %d: %d of %d", x.pos, c, n))
		}
	}
	x.slot[2+x.pos] = c
	x.ns[x.pos] = int32(n)
	x.pos++
	x.slot[1] = int32(x.pos)
	return int(c)
}

// Bool is Choose(2)==1.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Fresh reports whether this execution is past the choices it shares with an earlier one. What happened
// before was checked by that execution, so expensive oracles may be skipped until then.
func (x *X) Fresh() bool { return x.replay || x.pos >= len(x.prefix) }

// Step counts a transition executed on the code under test.
func (x *X) Step() { x.steps++ }

// Steps counts n transitions.
func (x *X) Steps(n int) { x.steps += int64(n) }

// Tracing reports whether Note has an effect.
func (x *X) Tracing() bool { return x.tracing }

// Note adds a line to the trace of a replayed or sampled execution.
func (x *X) Note(format string, args ...interface{}) {
	if x.tracing && len(x.trace) < 400 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		x.trace = append(x.trace, s)
	}
}

// Fail reports a violation of the property and ends the execution.
func (x *X) Fail(format string, args ...interface{}) {
	x.FailClass("", format, args...)
}

// FailClass is Fail with a stable identifier, which known findings are matched by.
func (x *X) FailClass(class, format string, args ...interface{}) {
	panic(violation{class, fmt.Sprintf(format, args...)})
}

// Check fails unless ok.
func (x *X) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		x.FailClass("", format, args...)
	}
}

// Describe adds to the bounds stated in the evidence what the program worked out about them.
func (x *X) Describe(s string) {
	x.eng.mu.Lock()
	x.eng.detail = s
	x.eng.mu.Unlock()
}

// Outcome records a state or outcome for the count of distinct ones.
func (x *X) Outcome(key []byte) {
	x.eng.outcome(maphash.Bytes(x.eng.seed, key))
}

// OutcomeS is Outcome for strings.
func (x *X) OutcomeS(key string) {
	x.eng.outcome(maphash.String(x.eng.seed, key))
}

// Visited records a state reached with the given number of remaining steps. It returns true if the
// state was explored before with at least as many steps left, in which case the program should return.
func (x *X) Visited(key string, remaining int) bool {
	if x.pos < len(x.prefix) || x.replay {
		return false // still replaying our own past
	}
	return x.eng.visited(key, remaining)
}

// Abort ends the execution without verdict (used for combinations that are not part of the space).
func (x *X) Abort() { panic(pruned{}) }

const shards = 64

type shard struct {
	sync.Mutex
	m map[uint64]struct{}
	v map[string]int32
}

type engine struct {
	detail   string
	prog     *Program
	thorough bool
	seed     maphash.Seed
	sh       [shards]shard
	distinct int64
	capped   int32
	execs    int64
	steps    int64
	prunes   int64
	points   int64
	maxDepth int64
	stop     int32
	deadline time.Time
	timedOut int32
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*task
	idle     int
	workers  int
	idleHint int32
	found    *Found
	known    map[string]bool
	KnownHit map[string]string
	samples  [][]string
	procs    int // number of processes that share the first choice
}

type task struct {
	root   bool // the first choice of this process
	prefix []int32
	next   int32
	n      int32
}

// Found is a violation.
type Found struct {
	Property string   `json:"property"`
	Program  string   `json:"program"`
	Tier     string   `json:"tier"`
	Class    string   `json:"class,omitempty"`
	Message  string   `json:"message"`
	Choices  []int32  `json:"choices"`
	Trace    []string `json:"trace,omitempty"`
	Repro    string   `json:"reproduced,omitempty"`
}

func (e *engine) outcome(h uint64) {
	if atomic.LoadInt32(&e.capped) != 0 {
		return
	}
	s := &e.sh[h%shards]
	s.Lock()
	if _, ok := s.m[h]; !ok {
		if len(s.m) > 400_000 {
			atomic.StoreInt32(&e.capped, 1)
		} else {
			s.m[h] = struct{}{}
			atomic.AddInt64(&e.distinct, 1)
		}
	}
	s.Unlock()
}

func (e *engine) visited(key string, remaining int) bool {
	h := maphash.String(e.seed, key)
	s := &e.sh[h%shards]
	s.Lock()
	defer s.Unlock()
	old, ok := s.v[key]
	if ok && int(old) >= remaining {
		return true
	}
	if !ok {
		atomic.AddInt64(&e.distinct, 1)
	}
	s.v[key] = int32(remaining)
	return false
}

// Slots is the memory shared with the supervising process: what every worker is executing.
type Slots struct {
	mem  []byte
	path string
}

const slotLen = 1 << 14

// OpenSlots maps the slot file.
func OpenSlots(path string, workers int) (*Slots, error) {
	size := workers * slotLen * 4
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(size)); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Slots{mem, path}, nil
}

func (s *Slots) slot(i int) []int32 {
	return unsafe.Slice((*int32)(unsafe.Pointer(&s.mem[i*slotLen*4])), slotLen)
}

// ReadSlots reads the executions that were active when the worker process died.
func ReadSlots(path string) (out [][]int32) {
	buf, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for off := 0; off+slotLen*4 <= len(buf); off += slotLen * 4 {
		active := int32(binary.LittleEndian.Uint32(buf[off:]))
		n := int(int32(binary.LittleEndian.Uint32(buf[off+4:])))
		if active == 0 || n < 0 || n > slotLen-2 {
			continue
		}
		c := make([]int32, n)
		for i := range c {
			c[i] = int32(binary.LittleEndian.Uint32(buf[off+8+4*i:]))
		}
		out = append(out, c)
	}
	return
}

// runOne executes the program once with the given prefix.
func (e *engine) runOne(x *X, prefix []int32) (v *violation, wasPruned bool) {
	x.prefix, x.pos, x.trace, x.steps = prefix, 0, nil, 0
	x.slot[1] = 0
	x.slot[0] = 1
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case violation:
					v = &r
				case pruned:
					wasPruned = true
				default:
					v = &violation{"panic", fmt.Sprintf("panic: %v\n%s", r, stack())}
				}
			}
		}()
		x.eng.prog.Body(x)
	}()
	if v == nil && !wasPruned && x.pos < len(prefix) {
		v = &violation{"harness", fmt.Sprintf("replay diverged: only %d of %d choices were taken", x.pos, len(prefix))}
	}
	x.slot[0] = 0
	return
}

func stack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/explore/") || strings.Contains(l, "explore.(") || strings.Contains(l, "runtime/debug") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (e *engine) worker(id int, slots *Slots, started []int64) {
	x := &X{Thorough: e.thorough, Worker: id, eng: e, slot: slots.slot(id), ns: make([]int32, slotLen)}
	var local []*task
	for {
		if atomic.LoadInt32(&e.stop) != 0 {
			e.mu.Lock()
			e.idle = e.workers
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		if len(local) == 0 {
			t := e.steal()
			if t == nil {
				return
			}
			local = append(local, t)
		} else if atomic.LoadInt32(&e.idleHint) > 0 && (len(local) > 1 || local[0].n-local[0].next > 1) {
			// Hand the shallowest (largest) subtree to an idle worker, or half of it if there is only one.
			e.mu.Lock()
			if e.idle > len(e.queue) {
				if t := local[0]; t.n-t.next > 1 {
					mid := (t.next + t.n) / 2
					e.queue = append(e.queue, &task{prefix: t.prefix, next: mid, n: t.n})
					t.n = mid
				} else {
					e.queue = append(e.queue, t)
					local = local[1:]
				}
				e.cond.Signal()
			}
			e.mu.Unlock()
		}
		t := local[len(local)-1]
		prefix := make([]int32, len(t.prefix), len(t.prefix)+1)
		copy(prefix, t.prefix)
		if t.n > 0 {
			prefix = append(prefix, t.next)
			t.next++
			if t.next >= t.n {
				local = local[:len(local)-1]
			}
		} else {
			local = local[:len(local)-1]
		}
		atomic.StoreInt64(&started[id], time.Now().UnixNano())
		v, wasPruned := e.runOne(x, prefix)
		atomic.StoreInt64(&started[id], 0)
		n := atomic.AddInt64(&e.execs, 1)
		atomic.AddInt64(&e.steps, x.steps)
		if wasPruned {
			atomic.AddInt64(&e.prunes, 1)
		}
		for {
			m := atomic.LoadInt64(&e.maxDepth)
			if int64(x.pos) <= m || atomic.CompareAndSwapInt64(&e.maxDepth, m, int64(x.pos)) {
				break
			}
		}
		if v != nil {
			e.report(x, v)
		}
		taken := x.slot[2 : 2+x.pos]
		if len(t.prefix) == 1 && t.root {
			for c := prefix[0] + int32(e.procs); c < x.ns[0]; c += int32(e.procs) {
				local = append(local, &task{prefix: []int32{c}})
			}
		}
		if v == nil || v.class == "known" || e.known[v.class] {
			for i := len(prefix); i < x.pos; i++ {
				if x.ns[i] > 1 {
					p := make([]int32, i)
					copy(p, taken[:i])
					local = append(local, &task{prefix: p, next: 1, n: x.ns[i]})
				}
			}
		}
		if n&63 == 0 && time.Now().After(e.deadline) {
			atomic.StoreInt32(&e.timedOut, 1)
			atomic.StoreInt32(&e.stop, 1)
		}
		// Keep a few executions as samples: 1st, 10th, 100th, ...
		if n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000 || n == 100000 {
			c := append([]int32(nil), taken...)
			e.mu.Lock()
			e.samples = append(e.samples, []string{encodeChoices(c)})
			e.mu.Unlock()
		}
	}
}

func encodeChoices(c []int32) string {
	b, _ := json.Marshal(c)
	return string(b)
}

func (e *engine) steal() *task {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.idle++
	atomic.StoreInt32(&e.idleHint, int32(e.idle))
	for len(e.queue) == 0 {
		if e.idle >= e.workers || atomic.LoadInt32(&e.stop) != 0 {
			e.idle = e.workers
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
	t := e.queue[len(e.queue)-1]
	e.queue = e.queue[:len(e.queue)-1]
	e.idle--
	atomic.StoreInt32(&e.idleHint, int32(e.idle))
	return t
}

func (e *engine) report(x *X, v *violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.known[v.class] {
		e.KnownHit[v.class] = v.msg
		return
	}
	if e.found == nil {
		e.found = &Found{Program: e.prog.Name, Class: v.class, Message: v.msg,
			Choices: append([]int32(nil), x.slot[2:2+x.pos]...)}
	}
	atomic.StoreInt32(&e.stop, 1)
}

// Stats of one program.
type Stats struct {
	Program    string            `json:"program"`
	Bounds     string            `json:"bounds"`
	Executions int64             `json:"executions"`
	Pruned     int64             `json:"not_in_space"`
	Steps      int64             `json:"transitions"`
	Distinct   int64             `json:"distinct_states"`
	Capped     bool              `json:"distinct_count_capped"`
	MaxChoices int64             `json:"max_choices"`
	Exhaustive bool              `json:"exhaustive"`
	WallS      float64           `json:"wall_s"`
	Samples    []interface{}     `json:"-"`
	Known      map[string]string `json:"known,omitempty"`
}

// Explore runs the program for all choices. hung is called when one execution does not end.
func Explore(c *Check, p *Program, thorough bool, deadline time.Time, slots *Slots, workers int, known map[string]bool) (*Stats, *Found) {
	if p.Serial {
		workers = 1
	}
	e := &engine{prog: p, thorough: thorough, seed: maphash.MakeSeed(), deadline: deadline, workers: workers, known: known, KnownHit: map[string]string{}}
	e.cond = sync.NewCond(&e.mu)
	for i := range e.sh {
		e.sh[i].m = map[uint64]struct{}{}
		e.sh[i].v = map[string]int32{}
	}
	e.queue = []*task{{}}
	if c.Processes {
		var i, n int
		if fmt.Sscanf(os.Getenv("MC_PART"), "%d/%d", &i, &n); n > 1 {
			e.procs = n
			e.queue = []*task{{root: true, prefix: []int32{int32(i)}}}
		}
	}
	start := time.Now()
	started := make([]int64, workers)
	limit := p.ExecLimit
	if limit == 0 {
		limit = 60 * time.Second
	}
	done := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); e.worker(i, slots, started) }(i)
	}
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	hung := false
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			now := time.Now()
			for i := range started {
				limit := limit
				if p.Serial && atomic.LoadInt64(&e.execs) == 0 && limit < 5*time.Minute {
					limit = 5 * time.Minute // the first execution may prepare what the others need
				}
				if s := atomic.LoadInt64(&started[i]); s != 0 && now.Sub(time.Unix(0, s)) > limit {
					sl := slots.slot(i)
					e.mu.Lock()
					if e.found == nil {
						e.found = &Found{Program: p.Name, Class: "hang",
							Message: fmt.Sprintf("execution did not end within %s", limit),
							Choices: append([]int32(nil), sl[2:2+sl[1]]...)}
					}
					e.mu.Unlock()
					hung = true
					break loop
				}
			}
			if now.After(deadline.Add(2 * limit)) {
				atomic.StoreInt32(&e.timedOut, 1)
				break loop
			}
		}
	}
	st := &Stats{Program: p.Name, Bounds: p.Bounds, Executions: atomic.LoadInt64(&e.execs), Steps: atomic.LoadInt64(&e.steps), Distinct: atomic.LoadInt64(&e.distinct),
		Pruned: atomic.LoadInt64(&e.prunes), Capped: e.capped != 0, MaxChoices: atomic.LoadInt64(&e.maxDepth), WallS: time.Since(start).Seconds(), Known: e.KnownHit}
	e.mu.Lock()
	found := e.found
	st.Bounds += e.detail
	e.mu.Unlock()
	st.Exhaustive = found == nil && e.timedOut == 0
	if found == nil {
		sort.Slice(e.samples, func(i, j int) bool { return len(e.samples[i][0]) < len(e.samples[j][0]) })
		for _, s := range e.samples {
			var ch []int32
			_ = json.Unmarshal([]byte(s[0]), &ch)
			tr, _ := Replay(c, p, thorough, ch, slots)
			if len(tr) > 25 {
				tr = append(tr[:24:24], fmt.Sprintf("... %d more lines", len(tr)-24))
			}
			st.Samples = append(st.Samples, map[string]interface{}{"program": p.Name, "choices": ch, "trace": tr})
			if len(st.Samples) >= 3 {
				break
			}
		}
	}
	if found != nil && !hung && found.Class != "harness" {
		hits := 0
		for i := 0; i < 5; i++ {
			tr, v := Replay(c, p, thorough, found.Choices, slots)
			if v != nil {
				hits++
				found.Trace = tr
			}
		}
		found.Repro = fmt.Sprintf("%d of 5 replays", hits)
		if hits == 0 {
			// Try harder before dropping it: something the harness does not control may matter.
			for i := 0; i < 100 && hits == 0; i++ {
				tr, v := Replay(c, p, thorough, found.Choices, slots)
				if v != nil {
					hits++
					found.Trace = tr
				}
			}
			found.Repro = fmt.Sprintf("%d of up to 105 replays", hits)
		}
		if hits == 0 {
			found.Class = "unreproducible"
		}
	}
	return st, found
}

// Replay executes one recorded choice sequence and returns its trace and violation, if any.
func Replay(c *Check, p *Program, thorough bool, choices []int32, slots *Slots) ([]string, *Found) {
	e := &engine{prog: p, thorough: thorough, seed: maphash.MakeSeed()}
	e.cond = sync.NewCond(&e.mu)
	for i := range e.sh {
		e.sh[i].m = map[uint64]struct{}{}
		e.sh[i].v = map[string]int32{}
	}
	x := &X{Thorough: thorough, eng: e, slot: make([]int32, slotLen), ns: make([]int32, slotLen), tracing: true, replay: true}
	v, _ := e.runOne(x, choices)
	if v == nil {
		return x.trace, nil
	}
	return x.trace, &Found{Property: c.ID, Program: p.Name, Class: v.class, Message: v.msg, Choices: choices, Trace: x.trace}
}

// Workers is the number of parallel executions.
func Workers() int {
	n := runtime.NumCPU()
	if os.Getenv("MC_WORKERS") != "" {
		fmt.Sscan(os.Getenv("MC_WORKERS"), &n)
	}
	if n > 16 {
		n = 16
	}
	return n
}
