package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"terorie.dev/nimiq/policy"

	"verif/mc/explore"
	"verif/mc/libx"
	"verif/mc/libx/rt"
	"verif/mc/policyx"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- the schedule, accumulated from the first block

const (
	schedStep = 1000
	schedEnd  = 62_000_000 // past the end of the emission
	tailStart = 48_692_960
	maxHeight = 1<<32 - 1
)

var sched struct {
	once sync.Once
	at   []uint64 // supply after every schedStep-th height
	last uint32   // the last height with a reward
}

func schedule() {
	sched.once.Do(func() {
		s := uint64(252_000_000_000_000)
		for h := uint32(0); h <= schedEnd; h++ {
			r := ref.Reward(s, h)
			if r > 0 {
				sched.last = h
			}
			s += r
			if h%schedStep == 0 {
				sched.at = append(sched.at, s)
			}
		}
	})
}

// supplyAfter is the reference.
func supplyAfter(h uint32) uint64 {
	schedule()
	if h > schedEnd {
		h = schedEnd
	}
	s := sched.at[h/schedStep]
	for i := h/schedStep*schedStep + 1; i <= h; i++ {
		s += ref.Reward(s, i)
	}
	return s
}

func subsidyOf(h uint32) uint64 { return ref.Reward(supplyAfter(h-1), h) }

// ---------------------------------------------------------------- P01

func checkHeight(x *explore.X, h uint32) {
	want := supplyAfter(h)
	got := policy.SupplyAfter(h)
	x.Step()
	x.Check(got == want, "supply after %d is %d instead of %d", h, got, want)
	if h > 0 {
		got := policy.BlockReward(h)
		x.Step()
		x.Check(got == subsidyOf(h), "reward of %d is %d instead of %d", h, got, subsidyOf(h))
	}
}

func everyReward(x *explore.X) {
	schedule()
	const per = 100_000
	c := uint32(x.Choose(schedEnd / per))
	h := c * per
	s := uint64(252_000_000_000_000)
	if h > 0 {
		s = supplyAfter(h - 1)
	}
	for ; h < (c+1)*per; h++ {
		r := policy.BlockRewardBySupply(s, h)
		if r != ref.Reward(s, h) {
			x.Fail("the reward of height %d at supply %d is %d instead of %d", h, s, r, ref.Reward(s, h))
		}
		s += r
		if s > policy.TotalSupply {
			x.Fail("the supply after %d exceeds the total", h)
		}
	}
	x.Steps(per)
	x.Note("heights %d..%d, supply %d", c*per, h-1, s)
	x.OutcomeS(fmt.Sprint(s))
}

func boundaries(x *explore.X) {
	schedule()
	n := schedEnd / 5000 / 100
	c := x.Choose(n)
	for k := uint32(c * 100); k < uint32(c+1)*100; k++ {
		b := k * 5000
		hs := []uint32{b + 1, b, b + 4999}
		if k > 0 {
			hs = append(hs, b-1)
		}
		if k%10 == 3 {
			hs = append(hs, b+2, b+1000, b+2500, b+4000, b+4998)
		}
		for _, h := range hs {
			checkHeight(x, h)
		}
		// any split of the interval adds up
		from := supplyAfter(b)
		got := policy.SupplyBetween(from, b+1, b+5001)
		x.Check(got == supplyAfter(b+5000), "the supply from %d to %d adds up to %d instead of %d", b+1, b+5000, got, supplyAfter(b+5000))
		mid := policy.SupplyBetween(from, b+1, b+1234)
		x.Check(policy.SupplyBetween(mid, b+1234, b+5001) == got && policy.SupplyBetween(from, b+1, b+1) == from, "the supply from %d depends on how it is split", b+1)
		x.Steps(4)
	}
	x.Note("checkpoint boundaries %d..%d", c*100*5000, (c+1)*100*5000)
	x.OutcomeS(fmt.Sprint(c))
}

// denseRanges checks every height of the ranges in which something changes.
func denseRanges(x *explore.X) {
	schedule()
	mids := []uint32{10_000, 100_000, 1_000_000, 10_000_000, tailStart, tailStart + 5000, sched.last - 100, sched.last + 100}
	m := mids[x.Choose(len(mids))]
	w := uint32(1500)
	if x.Thorough {
		w = 9000
	}
	if m < 20000 {
		w = m
	}
	off := uint32(x.Choose(16))
	for h := m - w + off; h <= m+w; h += 16 {
		checkHeight(x, h)
	}
	x.Note("every 16th height from %d to %d", m-w+off, m+w)
	x.OutcomeS(fmt.Sprint(m, off))
}

func afterTheEnd(x *explore.X) {
	schedule()
	hs := []uint32{sched.last + 1, schedEnd, 100_000_000, 1 << 31, 1<<31 - 1, 1<<32 - 7296, 1<<32 - 7297, 1<<32 - 7295, maxHeight - 1, maxHeight}
	for _, h := range hs {
		checkHeight(x, h)
	}
	x.Check(policy.SupplyAfter(maxHeight) == policy.TotalSupply && policy.TotalSupply == 2_100_000_000_000_000, "the supply ends at %d", policy.SupplyAfter(maxHeight))
	x.OutcomeS("end")
}

func rewardGrid(x *explore.X) {
	heights := []uint32{0, 1, 2, 4999, 5000, tailStart - 1, tailStart, tailStart + 1, 60_000_000, maxHeight}
	h := heights[x.Choose(len(heights))]
	base := []uint64{0, 252_000_000_000_000, 1 << 50, 2_100_000_000_000_000 - 2*(1<<22) - 5000, 2_100_000_000_000_000 - 10_000}[x.Choose(5)]
	for d := uint64(0); d <= 10_000; d++ {
		s := base + d
		want := ref.Reward(s, h)
		got := policy.BlockRewardBySupply(s, h)
		x.Check(got == want && s+got <= policy.TotalSupply, "the reward of height %d at supply %d is %d instead of %d", h, s, got, want)
	}
	for k := uint64(1); k < 400; k++ { // around multiples of the emission speed
		for _, d := range []uint64{k<<22 - 1, k << 22, k<<22 + 1} {
			s := 2_100_000_000_000_000 - d
			x.Check(policy.BlockRewardBySupply(s, h) == ref.Reward(s, h), "the reward of height %d at supply %d is %d instead of %d", h, s, policy.BlockRewardBySupply(s, h), ref.Reward(s, h))
		}
	}
	x.Steps(10_001 + 1197)
	x.Note("height %d, supplies from %d", h, base)
	x.OutcomeS(fmt.Sprint(h, base))
}

// ---------------------------------------------------------------- P02

type query struct {
	reward bool
	h      uint32
}

func (q query) String() string {
	if q.reward {
		return fmt.Sprintf("BlockReward(%d)", q.h)
	}
	return fmt.Sprintf("SupplyAfter(%d)", q.h)
}

func (q query) want() uint64 {
	if q.reward {
		return subsidyOf(q.h)
	}
	return supplyAfter(q.h)
}

func queries(both bool, hs ...uint32) (out []query) {
	for _, h := range hs {
		out = append(out, query{false, h})
		if both && h > 0 {
			out = append(out, query{true, h})
		}
	}
	return
}

var wanted sync.Map

func (q query) answer() uint64 {
	if v, ok := wanted.Load(q); ok {
		return v.(uint64)
	}
	v := q.want()
	wanted.Store(q, v)
	return v
}

// history asks the queries in sequence, starting with a package that is initialised again.
func history(alphabet []query, depth func(x *explore.X) int) func(x *explore.X) {
	return func(x *explore.X) {
		in := policyx.Instances[x.Worker]
		in.Reset()
		n := depth(x)
		var past []string
		key := ""
		for i := 0; i < n; i++ {
			q := alphabet[x.Choose(len(alphabet))]
			var got uint64
			if q.reward {
				got = in.Reward(q.h)
			} else {
				got = in.Supply(q.h)
			}
			x.Step()
			x.Note("%v = %d", q, got)
			x.Check(got == q.answer(), "%v returns %d instead of %d when asked after %s", q, got, q.answer(), strings.Join(past, ", "))
			past = append(past, q.String())
			key += q.String()
		}
		x.OutcomeS(key)
	}
}

// The helper process "supply H..." answers queries from the real package: sN or rN.
func init() {
	children["supply"] = func(args []string) int {
		for _, a := range args {
			h, err := strconv.ParseUint(a[1:], 10, 32)
			if err != nil {
				return 2
			}
			if a[0] == 'r' {
				fmt.Println(policy.BlockReward(uint32(h)))
			} else {
				fmt.Println(policy.SupplyAfter(uint32(h)))
			}
		}
		return 0
	}
}

// processes does the same with the real package in a process per history.
func processes(alphabet func(x *explore.X) []query, depth func(x *explore.X) int) func(x *explore.X) {
	return func(x *explore.X) {
		al := alphabet(x)
		n := depth(x)
		args := []string{"child", "supply"}
		var want bytes.Buffer
		var qs []query
		for i := 0; i < n; i++ {
			q := al[x.Choose(len(al))]
			a := "s"
			if q.reward {
				a = "r"
			}
			args = append(args, a+fmt.Sprint(q.h))
			fmt.Fprintln(&want, q.answer())
			qs = append(qs, q)
		}
		out, err := exec.Command(os.Args[0], args...).Output()
		x.Steps(n)
		x.Note("%v: %s", qs, strings.Fields(string(out)))
		x.Check(err == nil, "asking for %v: %v", qs, err)
		x.Check(bytes.Equal(out, want.Bytes()), "asked for %v in a fresh process, the package answers %v instead of %v", qs, strings.Fields(string(out)), strings.Fields(want.String()))
		x.OutcomeS(fmt.Sprint(qs))
	}
}

// ---------------------------------------------------------------- P03

// schedules runs threads with the given queries under every schedule within the preemption bound.
func schedules(threads, each int, alphabet []query, preempt func(x *explore.X) int, warm []query) func(x *explore.X) {
	n := 1
	for i := 0; i < each; i++ {
		n *= len(alphabet)
	}
	var mu sync.Mutex
	var pl *plan
	points := map[query]int{}
	// bounds makes the plan: how often each query can be put aside, and what that allows for.
	bounds := func(x *explore.X, in *policyx.Instance) {
		mu.Lock()
		defer mu.Unlock()
		if pl != nil {
			return
		}
		for _, q := range alphabet {
			q := q
			in.Reset()
			points[q] = in.Run([]func(){func() {
				if q.reward {
					in.Reward(q.h)
				} else {
					in.Supply(q.h)
				}
			}}, 0, false, func(int) int { return 0 }).Points - 1
		}
		in.Reset()
		ps := []int{0}
		for i := 0; i < each; i++ {
			var next []int
			for _, q := range alphabet {
				for _, p := range ps {
					next = append(next, p+points[q])
				}
			}
			ps = next
		}
		counts := map[int]int{}
		combine(threads, ps, func(int) bool { return false }, func(p int) { counts[p] += 1 + len(warm) })
		most := preempt(x)
		if most < 0 {
			most = 100
		}
		budget := 4e6
		if x.Thorough {
			budget = 4e7
		}
		pl = newPlan(threads, counts, most, budget)
		x.Describe(pl.describe())
	}
	return func(x *explore.X) {
		in := policyx.Instances[x.Worker]
		bounds(x, &in)
		in.Reset()
		// thread contents: unordered between threads
		var qs [][]query
		key := ""
		min, total := 0, 0
		for t := 0; t < threads; t++ {
			c := min + x.Choose(n-min)
			min = c
			var l []query
			for i := 0; i < each; i++ {
				l = append(l, alphabet[c%len(alphabet)])
				total += points[alphabet[c%len(alphabet)]]
				c /= len(alphabet)
			}
			qs = append(qs, l)
		}
		if len(warm) > 0 {
			if c := x.Choose(len(warm) + 1); c > 0 {
				in.Supply(warm[c-1].h)
				x.Note("first %v", warm[c-1])
			}
		}
		x.Note("threads: %v", qs)
		got := make([][]uint64, threads)
		var bodies []func()
		for t := range qs {
			t := t
			got[t] = make([]uint64, each)
			bodies = append(bodies, func() {
				for i, q := range qs[t] {
					if i > 0 && libx.Coarse {
						rt.Between()
					}
					if q.reward {
						got[t][i] = in.Reward(q.h)
					} else {
						got[t][i] = in.Supply(q.h)
					}
				}
			})
		}
		limit := preempt(x)
		if !pl.all {
			limit = pl.preempt(total)
		}
		res := in.Run(bodies, limit, x.Tracing(), x.Choose)
		for _, l := range res.Trace {
			x.Note("%s", l)
		}
		if res.Foreign != nil {
			panic(res.Foreign)
		}
		x.Steps(res.Points)
		x.Check(res.Failure == "", "threads %v: %s", qs, res.Failure)
		for t := range qs {
			for i, q := range qs[t] {
				x.Check(got[t][i] == q.answer(), "threads %v: %v in thread %d returns %d instead of %d", qs, q, t, got[t][i], q.answer())
				key += fmt.Sprint(q)
			}
		}
		// what the threads left behind is sound
		for _, h := range []uint32{4999, 5000, 10000, 15001, 1} {
			x.Check(in.Supply(h) == supplyAfter(h), "after threads %v: SupplyAfter(%d) returns %d instead of %d", qs, h, in.Supply(h), supplyAfter(h))
		}
		x.OutcomeS(key + fmt.Sprint(res.Switches))
	}
}

func init() {
	register(&explore.Check{ID: "P01", Rule: "rewards and supplies are compared with one accumulation over all heights from the first block to past the end of the emission",
		Programs: []explore.Program{
			{Name: "rewards", Bounds: "the reward at every height from 0 to 62 million, at the supply reached there", Body: everyReward},
			{Name: "grid", Bounds: "10 heights x 5 ranges of 10001 supplies and 1197 supplies around multiples of the emission speed", Body: rewardGrid},
			{Name: "ranges", Bounds: "every height within 1500 (thorough 9000) of 10^4 (from 0) to 10^7, the tail start, the checkpoint after it, the last reward", Body: denseRanges},
			{Name: "boundaries", Bounds: "all 12400 checkpoint intervals: both sides of the boundary, the interval's sum and its split; nine heights inside every tenth interval", Body: boundaries},
			{Name: "end", Bounds: "ten heights from the end of the emission to 2^32-1", Body: afterTheEnd, Serial: true, ExecLimit: 5 * time.Minute},
			{Name: "all", Bounds: "supply and reward at every height from 0 to 62 million", ThoroughOnly: true, ExecLimit: 5 * time.Minute, Body: func(x *explore.X) {
				c := uint32(x.Choose(schedEnd / 10_000))
				for h := c * 10_000; h < (c+1)*10_000; h++ {
					want := supplyAfter(h)
					if got := policy.SupplyAfter(h); got != want {
						x.Fail("supply after %d is %d instead of %d", h, got, want)
					}
				}
				x.Steps(10_000)
				x.OutcomeS(fmt.Sprint(c))
			}},
		}})

	near := queries(true, 0, 1, 2, 4999, 5000, 5001, 9999, 10000, 10001, 14999, 15000, 20001)
	mid := queries(false, 1, 5000, 10000, 64*5000, 64*5000-1, 100*5000+1, 128*5000, 256*5000-1, 256*5000, 1024*5000, 1024*5000+1)
	far := queries(true, 5000, 100*5000, tailStart-1, tailStart, tailStart/5000*5000, tailStart/5000*5000-1, 53_000_000, schedEnd)
	p2 := []explore.Program{
		{Name: "processes", Bounds: "the real package, a process per history: 9 queries at 7 heights up to 2 (thorough 3) checkpoints, histories of 3 (thorough 4)", Body: processes(
			func(x *explore.X) []query {
				return append(queries(false, 0, 4999, 5000, 9999, 10000, 10001, 15000), query{true, 5000}, query{true, 5001})
			}, pick(3, 4))},
		{Name: "far-processes", Bounds: "the real package, a process per history: tail start and its checkpoint, past the end, in histories of 3 (thorough 4)", Body: processes(
			func(x *explore.X) []query {
				return append(queries(false, 5000, tailStart, tailStart/5000*5000, 55_000_000), query{true, tailStart})
			}, pick(2, 4))},
		{Name: "maximum", Bounds: "the real package, a process per history: 2^32-1 before and after others, histories of 2 (thorough 3)", ExecLimit: 5 * time.Minute, Body: processes(
			func(x *explore.X) []query {
				if x.Thorough {
					return queries(false, maxHeight, 5000, tailStart, maxHeight/5000*5000)
				}
				return queries(false, maxHeight, 10000)
			}, pick(2, 3))},
	}
	var p3 []explore.Program
	whole := len(policyx.Instances) == 0 && libx.Linked // no copies; the real package instead
	if whole {
		in := policyx.Instance{Supply: policy.SupplyAfter, Reward: policy.BlockReward, Reset: libx.Reset,
			Run: func(bodies []func(), preempt int, trace bool, choose func(n int) int) policyx.Result {
				r := rt.Run(bodies, preempt, trace, choose)
				return policyx.Result{Failure: r.Failure, Switches: r.Switches, Points: r.Points, Trace: r.Trace}
			}}
		policyx.Instances = []policyx.Instance{in}
	}
	if len(policyx.Instances) > 0 {
		p2 = append(p2,
			explore.Program{Name: "near", Bounds: "a copy of the package, initialised again for every history: 23 queries at 12 heights around the first five checkpoints, histories of 4 (thorough 5)", Body: history(near, pick(4, 5))},
			explore.Program{Name: "mid", Bounds: "likewise: 11 queries around checkpoints 1, 2, 64, 100, 128, 256 and 1024, histories of 3 (thorough 4)", Body: history(mid, pick(3, 4))},
			explore.Program{Name: "far", Bounds: "likewise: 16 queries around the tail start, the end and two early checkpoints, histories of 2 (thorough 3)", Body: history(far, pick(2, 3))})
		unlimited := func(*explore.X) int { return -1 }
		p3 = []explore.Program{
			{Name: "pairs", Bounds: "2 threads with one of 20 queries each, over fresh and warm checkpoints; all schedules", Body: schedules(2, 1, queries(true, 0, 1, 4999, 5000, 9999, 10000, 10001, 15000, 15001, 25001), unlimited, queries(false, 5000, 10001, 15001))},
			{Name: "twice", Bounds: "2 threads with two of 6 queries each; up to 4 (thorough 6) preemptions", Body: schedules(2, 2, append(queries(false, 1, 5000, 10000, 15001), query{true, 5000}, query{true, 10001}), pick(4, 6), queries(false, 5000))},
			{Name: "thrice", Bounds: "2 threads with three of 4 queries each; up to 3 (thorough 6) preemptions", Body: schedules(2, 3, queries(false, 4999, 5000, 10000, 15001), pick(3, 6), nil)},
			{Name: "three", Bounds: "3 threads with one of 7 queries each; up to 3 (thorough 6) preemptions", Body: schedules(3, 1, append(queries(false, 1, 5000, 10000, 15001, 20000), query{true, 5000}, query{true, 10001}), pick(3, 6), queries(false, 5000))},
			{Name: "four", Bounds: "4 threads with one of 4 queries each; up to 3 (thorough 5) preemptions", Body: schedules(4, 1, queries(false, 1, 5000, 10000, 15001), pick(3, 5), nil)},
		}
	} else {
		p3 = []explore.Program{{Name: "missing", Bounds: "none", Body: func(x *explore.X) { panic("the instrumented copies of package policy are missing; use check.sh") }}}
	}
	if whole {
		for _, ps := range [][]explore.Program{p2, p3} {
			for i := range ps {
				ps[i].Serial = true
				if ps[i].Bounds += "; on the package itself"; libx.Coarse {
					ps[i].Bounds += ", whole queries only"
				}
			}
		}
	}
	register(&explore.Check{ID: "P02", Processes: whole, Rule: "every history of queries is run from fresh package state and each answer is compared with the reference; the state is fresh because the history has a process of its own or because all package variables of a copy are initialised again", Programs: p2})
	register(&explore.Check{ID: "P03", Processes: whole, Rule: "threads run on a copy of the package, generated from the working tree, in which every operation of sync and sync/atomic goes through a controlled scheduler and every access to package variables and heap memory is noted; every schedule within the bound is executed; vector clocks decide on data races, and schedules that differ between synchronisation operations only are equivalent without one",
		Programs: p3})
}
