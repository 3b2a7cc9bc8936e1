package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"time"
)

// generate asks the simulation for the full plan of a seed.
func (s *simBin) generate(p *Plan) *Plan {
	in, _ := json.Marshal(p)
	cmd := exec.Command(s.path, "gen")
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off"}
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	q := &Plan{}
	if json.Unmarshal(out, q) != nil {
		return nil
	}
	return q
}

// minimise reduces a failing plan while the same kind of violation remains:
// first the workload and faults, then the scheduling decisions, which are
// recorded and replayed explicitly.
func minimise(bin *simBin, prop string, p *Plan, v Violation, fs []finding, deadline time.Time) *replayFile {
	limit := 60 * time.Second
	fails := func(q *Plan) *Violation {
		r := bin.exec(q, false, limit)
		for i := range r.Violations {
			x := &r.Violations[i]
			if x.Prop == prop && x.Kind == v.Kind && known(fs, *x) == nil {
				return x
			}
		}
		return nil
	}
	first := fails(p)
	for try := 0; first == nil && try < 3; try++ {
		first = fails(p)
	}
	if first == nil {
		return nil
	}
	if v.Kind == "endless" {
		// Every attempt costs its whole limit, and there is no schedule to
		// record.
		limit = 10 * time.Second
	}
	origSteps := len(p.Steps)
	cur := p.clone()
	// firstOf runs candidates in parallel and returns the first that fails.
	firstOf := func(n int, make func(i int) *Plan) *Plan {
		workers := runtime.NumCPU()
		for lo := 0; lo < n; lo += workers {
			if time.Now().After(deadline) {
				return nil
			}
			hi := min(n, lo+workers)
			ok := make_(hi - lo)
			plans := make_p(hi - lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					q := make(i)
					if q == nil {
						return
					}
					plans[i-lo] = q
					ok[i-lo] = fails(q) != nil
				}(i)
			}
			wg.Wait()
			for i := range ok {
				if ok[i] {
					return plans[i]
				}
			}
		}
		return nil
	}
	reduceSteps := func(half bool) {
		end := deadline
		if half {
			end = time.Now().Add(time.Until(deadline) / 2)
		}
		for size := max(1, len(cur.Steps)/2); size >= 1 && time.Now().Before(end); {
			n := (len(cur.Steps) + size - 1) / size
			q := firstOf(n, func(i int) *Plan {
				q := cur.clone()
				lo, hi := i*size, min((i+1)*size, len(cur.Steps))
				q.Steps = append(append([]Step(nil), cur.Steps[:lo]...), cur.Steps[hi:]...)
				return q
			})
			if q != nil {
				cur = q
				if size > len(cur.Steps) {
					size = max(1, len(cur.Steps)/2)
				}
				if len(cur.Steps) == 0 {
					break
				}
				continue
			}
			size /= 2
		}
	}
	reduceSteps(true)
	if v.Kind == "endless" {
		return &replayFile{Property: prop, Plan: cur, Race: bin.race, Violation: *first, Minimised: fmt.Sprintf("%d of %d steps", len(cur.Steps), origSteps)}
	}
	// A simpler schedule, if it still fails.
	for _, f := range []func(q *Plan){
		func(q *Plan) { q.Sched = Sched{Seed: q.Sched.Seed, StallMax: 1, StepLimit: q.Sched.StepLimit} },
		func(q *Plan) { q.Sched.Stall = 0 },
		func(q *Plan) { q.Sched.HotMod = 0 },
		func(q *Plan) { q.Sched.PCT, q.Sched.Preempt, q.Sched.PickRand = false, 20, 0 },
	} {
		q := cur.clone()
		f(q)
		if !bin.race && fails(q) != nil {
			cur = q
			reduceSteps(true)
			break
		}
	}
	// Record the scheduling decisions and replay them.
	rec := bin.exec(cur, true, limit)
	note := ""
	origDec := len(rec.log)
	rp := cur.clone()
	rp.Sched.Replay = true
	rp.Sched.Overrides = rec.log
	if !rec.Overflow && fails(rp) != nil {
		cur = rp
		for size := max(1, len(cur.Sched.Overrides)); size >= 1 && len(cur.Sched.Overrides) > 0 && time.Now().Before(deadline); {
			n := (len(cur.Sched.Overrides) + size - 1) / size
			if n > 400 { // too many candidates at this size for the time left
				n = 400
			}
			q := firstOf(n, func(i int) *Plan {
				q := cur.clone()
				lo, hi := i*size, min((i+1)*size, len(cur.Sched.Overrides))
				if lo >= hi {
					return nil
				}
				q.Sched.Overrides = append(append([][2]uint64(nil), cur.Sched.Overrides[:lo]...), cur.Sched.Overrides[hi:]...)
				return q
			})
			if q != nil {
				cur = q
				size = min(size, max(1, len(cur.Sched.Overrides)))
				continue
			}
			size /= 2
		}
		note = fmt.Sprintf("%d of %d steps, %d of %d scheduling decisions", len(cur.Steps), origSteps, len(cur.Sched.Overrides), origDec)
	} else {
		note = fmt.Sprintf("%d of %d steps; schedule given by its seed", len(cur.Steps), origSteps)
	}
	cur.Trace = true
	r1 := bin.exec(cur, false, limit)
	r2 := bin.exec(cur, false, limit)
	rf := &replayFile{Property: prop, Plan: cur, Race: bin.race, Minimised: note, Hash: r1.Hash, State: r1.State, Trace: r1.Trace}
	if len(rf.Trace) > 3000 {
		rf.Trace = rf.Trace[len(rf.Trace)-3000:]
	}
	var got *Violation
	for i := range r1.Violations {
		if x := &r1.Violations[i]; x.Prop == prop && x.Kind == v.Kind && known(fs, *x) == nil {
			got = x
			break
		}
	}
	if got == nil || r1.Hash != r2.Hash {
		// Fall back to the plan as it was found.
		p.Trace = false
		rf.Plan, rf.Violation, rf.Minimised = p, *first, "not minimised"
		return rf
	}
	rf.Violation = *got
	return rf
}

func make_(n int) []bool   { return make([]bool, n) }
func make_p(n int) []*Plan { return make([]*Plan, n) }

// replay runs a replay file and reports whether the violation came back.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bp, err := build(rf.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.Remove(bp)
	bin := &simBin{path: bp, race: rf.Race}
	res := bin.exec(rf.Plan, false, 2*runLimit)
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	if res.crashed {
		fmt.Println(res.stderr)
	}
	if res.Harness != "" {
		fmt.Println("harness:", res.Harness)
	}
	same := "the schedule is the recorded one"
	if res.Hash != rf.Hash {
		same = "the schedule differs from the recorded one (the code changed)"
	}
	for _, v := range res.Violations {
		if v.Prop == rf.Property && v.Kind == rf.Violation.Kind {
			abs, _ := filepath.Abs(path)
			fmt.Printf("reproduced (%s): %s: %s\n", same, v.Kind, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, abs)
			return 1
		}
	}
	fmt.Printf("not reproduced (%s)\n", same)
	return 0
}
