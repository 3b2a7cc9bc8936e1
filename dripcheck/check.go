package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// worldShare says how much of a property's runs go to a world.
type worldShare struct {
	world  string
	weight int
}

type propSpec struct {
	worlds   []worldShare
	quick    int // number of runs
	thorough int
	race     bool
	real     []string // components that run their real code
	stub     []string
	rule     string
	assume   []string
}

type finding struct {
	Status   string `json:"status"` // "open" or "fixed"
	Property string `json:"property"`
	Kind     string `json:"kind,omitempty"`
	Match    string `json:"match,omitempty"` // regular expression on the violation's message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	Line     string `json:"line,omitempty"`
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return f.Findings
}

func known(fs []finding, v Violation) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status != "open" || f.Property != v.Prop || f.Kind != "" && f.Kind != v.Kind {
			continue
		}
		if ok, _ := regexp.MatchString(f.Match, v.Msg); ok {
			return f
		}
	}
	return nil
}

// pickViolation returns the first unlisted violation of prop in a result.
func pickViolation(res *Result, prop string, fs []finding, hit map[*finding]bool) *Violation {
	for i := range res.Violations {
		v := &res.Violations[i]
		if v.Prop != prop {
			continue
		}
		if f := known(fs, *v); f != nil {
			if hit != nil {
				hit[f] = true
			}
			continue
		}
		return v
	}
	return nil
}

type replayFile struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Hash      uint64    `json:"hash"`
	State     uint64    `json:"state"`
	Race      bool      `json:"race,omitempty"`
	Found     string    `json:"found"`
	Minimised string    `json:"minimised"`
	Plan      *Plan     `json:"plan"`
	Trace     []string  `json:"trace,omitempty"`
}

type totals struct {
	mu        sync.Mutex
	runs      int
	simMs     int64
	yields    uint64
	decisions uint64
	preempts  uint64
	stalls    uint64
	faults    map[string]int
	probes    map[string]int
	hashes    map[uint64]bool
	states    map[uint64]bool
	worlds    map[string]int
	harness   []string
	other     map[string]int
	limit     int
	overflow  int
	nontriv   int
	samples   []any
	retried   int
	detRuns   int
	detBad    int
}

var detEvery = 97

const runLimit = 45 * time.Second

func check(prop, tier string) int {
	start := time.Now()
	if s := os.Getenv("VERIF_DET"); s != "" {
		detEvery, _ = strconv.Atoi(s)
	}
	spec, ok := specs[prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for property %q\n", prop)
		return 2
	}
	seedBase := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seedBase = n
		}
	}
	n := spec.quick
	budget := 240 * time.Second
	if tier == "thorough" {
		n = spec.thorough
		budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		k, _ := strconv.Atoi(s)
		budget = time.Duration(k) * time.Second
	}
	fmt.Printf("check %s (%s): building the simulation from %s\n", prop, tier, repoDir)
	path, err := build(spec.race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.Remove(path)
	bin := &simBin{path: path, race: spec.race}
	findings := loadFindings()
	buildS := time.Since(start).Seconds()

	var schedule []string
	for _, w := range spec.worlds {
		for i := 0; i < w.weight; i++ {
			schedule = append(schedule, w.world)
		}
	}
	t := &totals{faults: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]bool{}, states: map[uint64]bool{}, worlds: map[string]int{}, other: map[string]int{}}
	hit := map[*finding]bool{}
	type found struct {
		k    int
		plan *Plan
		v    Violation
	}
	var (
		mu    sync.Mutex
		best  *found
		next  atomic.Int64
		stopK atomic.Int64
		wg    sync.WaitGroup
	)
	stopK.Store(int64(n))
	deadline := start.Add(budget)
	workers := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	searchStart := time.Now()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(next.Add(1)) - 1
				if int64(k) >= stopK.Load() || time.Now().After(deadline) {
					return
				}
				world := schedule[k%len(schedule)]
				p := &Plan{Prop: prop, World: world, Seed: seedBase*1_000_003 + uint64(k)}
				res := bin.exec(p, false, runLimit)
				if res.Harness != "" {
					r2 := bin.exec(p, false, runLimit)
					t.mu.Lock()
					t.retried++
					t.mu.Unlock()
					res = r2
				}
				det := -1
				if k%detEvery == 5%detEvery && !res.crashed {
					r2 := bin.exec(p, false, runLimit)
					det = 0
					if r2.Hash != res.Hash || r2.State != res.State {
						det = 1
						fmt.Fprintf(os.Stderr, "warning: seed %d of world %s differed when repeated (hash %v, history %v, decisions %d/%d)\n", p.Seed, world, r2.Hash != res.Hash, r2.State != res.State, res.Decisions, r2.Decisions)
					}
				}
				t.add(world, p, res, det)
				mu.Lock()
				v := pickViolation(res, prop, findings, hit)
				mu.Unlock()
				if v == nil {
					continue
				}
				full := res.Plan
				if full == nil {
					full = bin.generate(p)
				}
				if full == nil || !bin.again(full, prop, v.Kind, findings) {
					t.mu.Lock()
					t.harness = append(t.harness, fmt.Sprintf("seed %d: violation %q could not be reproduced", p.Seed, v.Msg))
					t.mu.Unlock()
					continue
				}
				mu.Lock()
				if full != nil && (best == nil || k < best.k) {
					best = &found{k, full, *v}
					if int64(k) < stopK.Load() {
						stopK.Store(int64(k))
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(searchStart).Seconds()

	for f := range hit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.Property, f.What)
	}
	// Findings that were not met in this run are still listed.
	for i := range findings {
		f := &findings[i]
		if f.Status == "open" && f.Property == prop && !hit[f] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.Property, f.What)
		}
	}
	code := 0
	violations := 0
	if best != nil {
		mstart := time.Now()
		rf := minimise(bin, prop, best.plan, best.v, findings, time.Now().Add(90*time.Second))
		if rf == nil {
			t.harness = append(t.harness, fmt.Sprintf("seed %d: violation %q could not be reproduced", best.plan.Seed, best.v.Msg))
		} else {
			violations = 1
			rf.Found = fmt.Sprintf("seed %d of world %s (run %d of %s tier)", best.plan.Seed, best.plan.World, best.k, tier)
			name := fmt.Sprintf("%s-%s-%d.json", prop, rf.Violation.Kind, best.plan.Seed)
			out := filepath.Join(verifDir, "replays", name)
			if err := writeJSON(out, rf); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			fmt.Printf("violated: %s: %s\n", rf.Violation.Kind, rf.Violation.Msg)
			fmt.Printf("found with %s; minimised in %.1f s: %s\n", rf.Found, time.Since(mstart).Seconds(), rf.Minimised)
			fmt.Printf("replay with: /verif/run.sh replay %s\n", out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, out)
			code = 1
		}
	}
	fmt.Printf("%s: %d runs in %.1f s (build %.1f s), %.1f h simulated, %d distinct schedules, %d distinct histories\n", prop, t.runs, searchS, buildS, float64(t.simMs)/3.6e6, len(t.hashes), len(t.states))
	if t.detBad > 0 {
		fmt.Printf("warning: %d of %d repeated runs differed\n", t.detBad, t.detRuns)
	}
	for i, h := range t.harness {
		if i == 5 {
			break
		}
		fmt.Printf("harness: %s\n", h)
	}
	if len(t.other) > 0 {
		fmt.Printf("note: violations of other properties were seen (their own checks report them): %s\n", countsLine(t.other))
	}
	writeEvidence(prop, tier, seedBase, spec, t, start, searchS, violations, n)
	if code == 0 && len(t.harness) > t.runs/20+2 {
		fmt.Fprintf(os.Stderr, "%d of %d runs were spoilt by the harness\n", len(t.harness), t.runs)
		return 2
	}
	return code
}

// again reports whether a plan fails again. The race detector forgets
// accesses now and then, so that a report may need several attempts.
func (s *simBin) again(p *Plan, prop, kind string, fs []finding) bool {
	for try := 0; try < 4; try++ {
		r := s.exec(p, false, runLimit)
		for _, x := range r.Violations {
			if x.Prop == prop && x.Kind == kind && known(fs, x) == nil {
				return true
			}
		}
	}
	return false
}

func (t *totals) add(world string, p *Plan, res *Result, det int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.worlds[world]++
	if det >= 0 {
		t.detRuns++
		t.detBad += det
	}
	if res.Harness != "" {
		t.harness = append(t.harness, fmt.Sprintf("seed %d world %s: %s", p.Seed, p.World, res.Harness))
		return
	}
	for _, v := range res.Violations {
		if v.Prop != p.Prop {
			t.other[v.Prop+"/"+v.Kind]++
		}
	}
	t.simMs += res.SimMs
	t.yields += res.Yields
	t.decisions += res.Decisions
	t.preempts += res.Preempts
	t.stalls += res.Stalls
	if res.LimitHit {
		t.limit++
	}
	if res.Overflow {
		t.overflow++
	}
	for k, v := range res.Faults {
		t.faults[k] += v
	}
	for k, v := range res.Probes {
		t.probes[k] += v
	}
	if !t.states[res.State] && len(res.Probes) > 0 {
		t.nontriv++
	}
	t.hashes[res.Hash] = true
	t.states[res.State] = true
	if len(t.samples) < 3 && res.Plan != nil && len(res.Faults) > 0 {
		t.samples = append(t.samples, map[string]any{"seed": p.Seed, "world": p.World, "cfg": res.Plan.Cfg, "str": res.Plan.Str, "steps": len(res.Plan.Steps), "first_steps": res.Plan.Steps[:min(6, len(res.Plan.Steps))], "sched": res.Plan.Sched, "faults": res.Faults, "probes": res.Probes, "sim_ms": res.SimMs, "decisions": res.Decisions})
	}
}

func countsLine(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s x%d", k, m[k])
	}
	return strings.Join(ks, ", ")
}

func writeEvidence(prop, tier string, seed uint64, spec propSpec, t *totals, start time.Time, searchS float64, violations, planned int) {
	if len(t.samples) == 0 {
		t.samples = append(t.samples, map[string]any{"seed": seed * 1_000_003, "worlds": t.worlds})
	}
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(t.runs) / searchS * 3600
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         t.runs,
			"distinct_nontrivial": t.nontriv,
			"rule":                "One evaluation is one simulated run from one seed: the seed draws the world's parameters, workload, fault plan and scheduling strategy. Non-trivial: the run reached at least one of the situations counted under probes, and the digest of its observable history (calls, messages, faults, results) was not seen before in this check. " + spec.rule,
			"samples":             t.samples,
			"runs_planned":        planned,
			"runs_per_hour":       int(perHour),
			"simulated_hours":     float64(t.simMs) / 3.6e6,
			"simulated_per_real":  float64(t.simMs) / 1000 / (searchS*float64(runtime.NumCPU()) + 0.001),
			"faults_injected":     t.faults,
			"situations_reached":  t.probes,
			"distinct_schedules":  len(t.hashes),
			"distinct_histories":  len(t.states),
			"schedule_measure":    "distinct_schedules counts digests of the complete sequence of scheduling choices (which goroutine ran, at which preemption point); distinct_histories counts digests of the observable events",
			"scheduling_points":   t.yields,
			"scheduling_choices":  t.decisions,
			"preemptions":         t.preempts,
			"stalls":              t.stalls,
			"step_limit_hits":     t.limit,
			"runs_by_world":       t.worlds,
			"determinism_reruns":  t.detRuns,
			"determinism_differs": t.detBad,
			"harness_failures":    len(t.harness),
			"real_components":     spec.real,
			"stub_components":     spec.stub,
			"other_properties":    t.other,
		},
		"assumptions": spec.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if err := writeJSON(filepath.Join(verifDir, "evidence", prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
