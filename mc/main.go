// Command mc runs the model checks of /verif.
//
//	mc run ID TIER        decide one property (exit 0: held, 1: VIOLATION)
//	mc replay FILE        re-execute a recorded violation with its trace
//	mc list               list the checks
//	mc describe           their rules, programs and bounds as JSON (for DESIGN.md)
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/mc/explore"
	"verif/mc/libx/rt"
	"verif/mc/props"
)

const root = "/verif"

func verifRoot() string {
	if r := os.Getenv("MC_ROOT"); r != "" {
		return r
	}
	return root
}

type result struct {
	Stats []*explore.Stats
	Found *explore.Found
	// Samples are kept apart from Stats to keep the per-program table readable.
	Samples []interface{}
	Current string
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Class    string `json:"class"`
	Text     string `json:"text"`
}

func knownFindings(id string) map[string]string {
	out := map[string]string{}
	buf, err := os.ReadFile(filepath.Join(verifRoot(), "known_findings.json"))
	if err != nil {
		return out
	}
	var doc struct {
		Findings []known `json:"findings"`
	}
	if json.Unmarshal(buf, &doc) != nil {
		return out
	}
	for _, k := range doc.Findings {
		if k.Property == id && k.Status == "open" && k.Class != "" {
			out[k.Class] = k.Text
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range props.IDs() {
			fmt.Println(id)
		}
	case "describe":
		type prog struct {
			Name, Bounds string
			ThoroughOnly bool
		}
		out := map[string]interface{}{}
		for _, id := range props.IDs() {
			c := get(id)
			var ps []prog
			for _, p := range c.Programs {
				ps = append(ps, prog{p.Name, p.Bounds, p.ThoroughOnly})
			}
			out[id] = map[string]interface{}{"rule": c.Rule, "programs": ps}
		}
		b, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
	case "run":
		os.Exit(run(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2], os.Args[3], os.Args[4])
	case "one":
		one(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "child":
		os.Exit(props.Child(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func get(id string) *explore.Check {
	c := props.Get(id)
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check %s\n", id)
		os.Exit(2)
	}
	return c
}

func memLimit() uint64 { return 20 << 30 }

func limitMemory() {
	if !rt.Detecting { // the race detector maps far more than it uses
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memLimit(), Max: memLimit()})
	}
}

// worker explores all programs of the check in this process.
func worker(id, tier, dir string) {
	c := get(id)
	debug.SetGCPercent(400)
	limitMemory()
	if f := os.Getenv("MC_PROF"); f != "" { // for work on the checker
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
		}
	}
	budget, _ := strconv.ParseFloat(os.Getenv("MC_BUDGET_S"), 64)
	start := time.Now()
	end := start.Add(time.Duration(budget * float64(time.Second)))
	slots, err := explore.OpenSlots(filepath.Join(dir, "slots"), explore.Workers())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	kn := map[string]bool{}
	for k := range knownFindings(id) {
		kn[k] = true
	}
	var res result
	var todo []*explore.Program
	for i := range c.Programs {
		p := &c.Programs[i]
		if p.ThoroughOnly && tier != "thorough" {
			continue
		}
		if only := os.Getenv("MC_ONLY"); only != "" && only != p.Name {
			continue
		}
		todo = append(todo, p)
	}
	for i, p := range todo {
		res.Current = p.Name
		save(dir, &res)
		// What is left is shared evenly among the programs that are left.
		left := time.Until(end)
		dl := time.Now().Add(left / time.Duration(len(todo)-i))
		st, found := explore.Explore(c, p, tier == "thorough", dl, slots, explore.Workers(), kn)
		res.Samples = append(res.Samples, st.Samples...)
		res.Stats = append(res.Stats, st)
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s/%s execs=%d steps=%d states=%d pruned=%d exhaustive=%v %.1fs\n", id, p.Name, st.Executions, st.Steps, st.Distinct, st.Pruned, st.Exhaustive, st.WallS)
		}
		if found != nil {
			found.Property, found.Tier = id, tier
			res.Found = found
			break
		}
	}
	if res.Found == nil {
		res.Current = ""
	}
	save(dir, &res)
	pprof.StopCPUProfile()
	os.Exit(0) // do not wait for stuck executions
}

func save(dir string, r *result) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	tmp := filepath.Join(dir, "result.tmp")
	_ = os.WriteFile(tmp, b, 0o644)
	_ = os.Rename(tmp, filepath.Join(dir, "result.json"))
}

func load(dir string) *result {
	b, err := os.ReadFile(filepath.Join(dir, "result.json"))
	if err != nil {
		return nil
	}
	r := new(result)
	if json.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

// spawn runs the worker and returns its result, whether it crashed, and the end of its stderr. Checks divided among
// processes run them at the same time; where one crashed its files are put in dir.
func spawn(c *explore.Check, tier, dir string, workers int, budget float64) (*result, bool, string) {
	if !c.Processes || explore.Workers() < 2 {
		return spawnOne(context.Background(), c.ID, tier, dir, workers, budget, "")
	}
	n := explore.Workers()
	type part struct {
		res     *result
		crashed bool
		errs    string
		dir     string
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	parts := make(chan part, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			d := filepath.Join(dir, fmt.Sprintf("part%d", i))
			_ = os.MkdirAll(d, 0o755)
			r, crashed, errs := spawnOne(ctx, c.ID, tier, d, workers, budget, fmt.Sprintf("%d/%d", i, n))
			parts <- part{r, crashed, errs, d}
		}()
	}
	var all *result
	var bad *part
	for i := 0; i < n; i++ {
		p := <-parts
		if bad != nil {
			continue // stopped
		}
		if p.res == nil || p.crashed || p.res.Found != nil {
			bad = &p
			cancel()
		}
		if p.res != nil {
			all = merge(all, p.res)
		}
	}
	if bad == nil {
		return all, false, ""
	}
	if bad.res == nil {
		return nil, bad.crashed, bad.errs
	}
	_ = os.Rename(filepath.Join(bad.dir, "slots"), filepath.Join(dir, "slots"))
	all.Current, all.Found = bad.res.Current, bad.res.Found
	return all, bad.crashed, bad.errs
}

// merge adds up the statistics of two parts.
func merge(a, b *result) *result {
	if a == nil {
		return b
	}
	for _, st := range b.Stats {
		var to *explore.Stats
		for _, s := range a.Stats {
			if s.Program == st.Program {
				to = s
			}
		}
		if to == nil {
			st.Exhaustive = false
			a.Stats = append(a.Stats, st)
			continue
		}
		to.Executions += st.Executions
		to.Pruned += st.Pruned
		to.Steps += st.Steps
		to.Distinct += st.Distinct
		to.Capped = to.Capped || st.Capped
		to.Exhaustive = to.Exhaustive && st.Exhaustive
		if st.MaxChoices > to.MaxChoices {
			to.MaxChoices = st.MaxChoices
		}
		if st.WallS > to.WallS {
			to.WallS = st.WallS
		}
		for k, v := range st.Known {
			if to.Known == nil {
				to.Known = map[string]string{}
			}
			to.Known[k] = v
		}
	}
	if len(a.Samples) < 8 {
		a.Samples = append(a.Samples, b.Samples...)
	}
	return a
}

func spawnOne(ctx context.Context, id, tier, dir string, workers int, budget float64, part string) (*result, bool, string) {
	_ = os.Remove(filepath.Join(dir, "result.json"))
	_ = os.Remove(filepath.Join(dir, "slots"))
	cmd := exec.CommandContext(ctx, os.Args[0], "worker", id, tier, dir)
	cmd.Env = append(os.Environ(), "MC_BUDGET_S="+strconv.FormatFloat(budget, 'f', 1, 64), "MC_PART="+part)
	if workers > 0 {
		cmd.Env = append(cmd.Env, "MC_WORKERS="+strconv.Itoa(workers))
	}
	var tail tailBuf
	cmd.Stderr = &tail
	if os.Getenv("MC_VERBOSE") != "" {
		cmd.Stderr = io.MultiWriter(&tail, os.Stderr)
	}
	cmd.Stdout = os.Stderr
	err := cmd.Run()
	return load(dir), err != nil, tail.String()
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	s := string(t.b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func run(id, tier string) int {
	c := get(id)
	start := time.Now()
	dir, err := os.MkdirTemp(os.Getenv("MC_TMP"), "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	budget := 420.0
	if tier == "thorough" {
		budget = 1800
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		budget, _ = strconv.ParseFloat(s, 64)
	}
	var notes []string
	res, crashed, errs := spawn(c, tier, dir, 0, budget)
	if res == nil {
		fmt.Fprintf(os.Stderr, "worker did not start: %s\n", errs)
		return 3
	}
	if crashed {
		res = afterCrash(c, tier, dir, res, errs, &notes)
	}
	if res.Found != nil && res.Found.Class == "unreproducible" {
		res = hiddenState(c, tier, dir, res, budget, &notes)
	}
	if res.Found != nil && res.Found.Class == "harness" {
		fmt.Fprintf(os.Stderr, "harness error: %+v\n", res.Found)
		writeEvidence(c, tier, res, time.Since(start), append(notes, "harness error: "+res.Found.Message))
		return 3
	}
	writeEvidence(c, tier, res, time.Since(start), notes)
	summary(c, tier, res)
	for cls, text := range knownFindings(id) {
		for _, st := range res.Stats {
			if _, ok := st.Known[cls]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, text)
				break
			}
		}
	}
	if res.Found != nil {
		return violation(c, res.Found)
	}
	return 0
}

func violation(c *explore.Check, f *explore.Found) int {
	dir := filepath.Join(verifRoot(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.ID+".json")
	b, _ := json.MarshalIndent(f, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	for _, l := range f.Trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("program %s: %s\n(%s)\n", f.Program, f.Message, f.Repro)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

// afterCrash finds the execution that killed the worker.
func afterCrash(c *explore.Check, tier, dir string, res *result, errs string, notes *[]string) *result {
	active := explore.ReadSlots(filepath.Join(dir, "slots"))
	for _, ch := range active {
		f := &explore.Found{Property: c.ID, Program: res.Current, Tier: tier, Class: "crash", Choices: ch}
		path := filepath.Join(dir, "one.json")
		b, _ := json.Marshal(f)
		_ = os.WriteFile(path, b, 0o644)
		hits, out := 0, ""
		for i := 0; i < 3; i++ {
			cmd := exec.Command(os.Args[0], "one", path)
			var tail tailBuf
			cmd.Stderr = &tail
			done := make(chan error, 1)
			if err := cmd.Start(); err != nil {
				continue
			}
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				if err != nil {
					hits++
					out = tail.String()
				}
			case <-time.After(2 * time.Minute):
				_ = cmd.Process.Kill()
				<-done
				hits++
				out = "execution does not end"
			}
		}
		if hits > 0 {
			f.Message = "the process dies: " + out
			f.Repro = fmt.Sprintf("%d of 3 replays in processes of their own", hits)
			res.Found = f
			return res
		}
	}
	// The crash needs more than one execution (memory, shared state). Is it stable?
	for i := 0; i < 2; i++ {
		r, crashed, e2 := spawn(c, tier, dir, 0, 300)
		if !crashed && r != nil {
			*notes = append(*notes, "a first worker process died and the second did not: "+errs)
			return r
		}
		errs = e2
	}
	res.Found = &explore.Found{Property: c.ID, Program: res.Current, Tier: tier, Class: "crash",
		Message: "exploring the program kills the process every time: " + errs, Repro: "3 of 3 runs"}
	return res
}

// hiddenState deals with violations that do not come back when the execution is replayed alone: something
// outside the program under test's arguments (package state) carries over between executions.
func hiddenState(c *explore.Check, tier, dir string, res *result, budget float64, notes *[]string) *result {
	first := res.Found
	var again []*result
	for i := 0; i < 2; i++ {
		r, crashed, _ := spawn(c, tier, dir, 1, budget/3)
		if crashed || r == nil || r.Found == nil {
			again = nil
			break
		}
		again = append(again, r)
	}
	if len(again) == 2 {
		f := again[0].Found
		if f.Class == "unreproducible" {
			f.Class = "carried-state"
			f.Repro = "2 of 2 single-threaded explorations in fresh processes, not when executed alone: state is carried over between independent executions"
		}
		return again[0]
	}
	hits := 0
	for i := 0; i < 3; i++ {
		r, crashed, _ := spawn(c, tier, dir, 0, budget/4)
		if crashed || (r != nil && r.Found != nil) {
			hits++
		} else if r != nil {
			again = append(again, r)
		}
	}
	if hits == 3 {
		first.Class = "shared-state"
		first.Repro = "3 of 3 parallel explorations, none alone: state is shared between independent objects"
		return res
	}
	*notes = append(*notes, "dropped a violation that could not be reproduced: "+first.Message)
	if len(again) > 0 {
		again[len(again)-1].Found = nil
		return again[len(again)-1]
	}
	res.Found = nil
	return res
}

func one(path string) {
	limitMemory()
	f := readFound(path)
	c, p := find(f)
	tr, v := explore.Replay(c, p, f.Tier == "thorough", f.Choices, nil)
	if v != nil {
		for _, l := range tr {
			fmt.Fprintln(os.Stderr, l)
		}
		fmt.Fprintln(os.Stderr, v.Message)
		os.Exit(1)
	}
}

func readFound(path string) *explore.Found {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := new(explore.Found)
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return f
}

func find(f *explore.Found) (*explore.Check, *explore.Program) {
	c := get(f.Property)
	for i := range c.Programs {
		if c.Programs[i].Name == f.Program {
			return c, &c.Programs[i]
		}
	}
	fmt.Fprintf(os.Stderr, "no program %s in %s\n", f.Program, f.Property)
	os.Exit(2)
	return nil, nil
}

func replay(path string) int {
	f := readFound(path)
	c, p := find(f)
	tr, v := explore.Replay(c, p, f.Tier == "thorough", f.Choices, nil)
	for _, l := range tr {
		fmt.Println("  " + l)
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Println(v.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

func summary(c *explore.Check, tier string, res *result) {
	for _, st := range res.Stats {
		fmt.Printf("%s %s: %d executions, %d transitions, %d distinct states, exhaustive=%v, %.1fs\n", c.ID, st.Program, st.Executions, st.Steps, st.Distinct, st.Exhaustive, st.WallS)
	}
}

func writeEvidence(c *explore.Check, tier string, res *result, wall time.Duration, notes []string) {
	var execs, steps, distinct int64
	exhaustive := res.Found == nil
	for _, st := range res.Stats {
		execs += st.Executions
		steps += st.Steps
		distinct += st.Distinct
		exhaustive = exhaustive && st.Exhaustive
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := res.Samples
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	viol := 0
	if res.Found != nil {
		viol = 1
	}
	cov := map[string]interface{}{
		"states":                        distinct,
		"transitions":                   steps,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"rule":                          c.Rule,
		"explored":                      res.Stats,
		"meaning": "states: distinct states or outcomes, by hash (a cap of 25 million per program applies and is reported); transitions: operations run on the real code; " +
			"traces_validated_against_impl: complete choice sequences executed on the real code and compared with the reference model",
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if res.Found != nil {
		cov["violation"] = res.Found
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": wall.Seconds(), "violations": viol,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", " ")
	enc.SetEscapeHTML(false)
	if err := enc.Encode(ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	dir := filepath.Join(verifRoot(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, c.ID+".json"), []byte(strings.TrimRight(buf.String(), "\n")+"\n"), 0o644)
}
