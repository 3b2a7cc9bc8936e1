// Package main is the deterministic simulation of browles/drip: it is built
// with the overlay produced by /verif/dripcheck and runs one plan per process.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// rng is the harness's own random source (splitmix64); it is independent of
// the scheduler's and of the code under test.
type rng struct{ s uint64 }

func newRng(seed uint64, label string) *rng {
	h := seed ^ 0xcbf29ce484222325
	for _, c := range []byte(label) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	r := &rng{h}
	r.u64()
	return r
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0, k).
func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u64() % uint64(k))
}

// in returns a number in [a, b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability pct percent.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.u64()
		for j := i; j < i+8 && j < n; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }

func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Step is one element of a plan: a workload action or a fault. The minimiser
// removes steps.
type Step struct {
	At   int64  `json:"at,omitempty"` // simulated ms
	Kind string `json:"kind"`
	Who  string `json:"who,omitempty"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
	S    string `json:"s,omitempty"`
}

// Sched is the scheduler configuration of a run.
type Sched struct {
	Seed      uint64      `json:"seed"`
	Preempt   uint32      `json:"preempt"`
	Stall     uint32      `json:"stall"`
	StallMax  uint32      `json:"stall_max"`
	HotMod    uint32      `json:"hot_mod,omitempty"`
	HotRes    uint32      `json:"hot_res,omitempty"`
	HotProb   uint32      `json:"hot_prob,omitempty"`
	HotMax    uint32      `json:"hot_max,omitempty"`
	HotCap    uint32      `json:"hot_cap,omitempty"`
	PickRand  uint32      `json:"pick_rand"`
	PCT       bool        `json:"pct,omitempty"`
	PCTChange uint32      `json:"pct_change,omitempty"`
	Replay    bool        `json:"replay,omitempty"`
	Overrides [][2]uint64 `json:"overrides,omitempty"`
	StepLimit uint64      `json:"step_limit"`
}

// Plan is everything a run depends on.
type Plan struct {
	Prop  string            `json:"prop"`
	World string            `json:"world"`
	Seed  uint64            `json:"seed"`
	Sched Sched             `json:"sched"`
	Cfg   map[string]int    `json:"cfg,omitempty"`
	Str   map[string]string `json:"str,omitempty"`
	Steps []Step            `json:"steps,omitempty"`
	Trace bool              `json:"trace,omitempty"`
}

func (p *Plan) cfg(k string) int    { return p.Cfg[k] }
func (p *Plan) set(k string, v int) { p.Cfg[k] = v }
func (p *Plan) add(s Step)          { p.Steps = append(p.Steps, s) }
func (p *Plan) steps(k string) []Step {
	var r []Step
	for _, s := range p.Steps {
		if s.Kind == k {
			r = append(r, s)
		}
	}
	return r
}

// Violation is a broken property.
type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	AtMs int64  `json:"at_ms"`
}

// Result is what one run reports.
type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Harness    string         `json:"harness,omitempty"` // the harness itself went wrong
	SimMs      int64          `json:"sim_ms"`
	Hash       uint64         `json:"hash"`
	State      uint64         `json:"state"` // digest of the observable history
	Yields     uint64         `json:"yields"`
	Decisions  uint64         `json:"decisions"`
	Picks      uint64         `json:"picks"`
	Preempts   uint64         `json:"preempts"`
	Stalls     uint64         `json:"stalls"`
	LogLen     int            `json:"log_len"`
	Overflow   bool           `json:"overflow,omitempty"`
	LimitHit   bool           `json:"limit_hit,omitempty"`
	MaxAlloc   uint64         `json:"max_alloc,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Plan       *Plan          `json:"plan,omitempty"`
}

var (
	plan      *Plan
	res       = &Result{Faults: map[string]int{}, Probes: map[string]int{}}
	startNow  int64
	traceOn   bool
	stateHash uint64 = 14695981039346656037
)

func nowNs() int64 { return runtime.SimNow() }
func nowMs() int64 { return (runtime.SimNow() - startNow) / 1e6 }

// fault counts an injected fault, probe an interesting situation reached.
func fault(k string)         { res.Faults[k]++ }
func probe(k string)         { res.Probes[k]++ }
func probeN(k string, n int) { res.Probes[k] += n }

// note records an observable event of the run.
func note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for i := 0; i < len(s); i++ {
		stateHash = (stateHash ^ uint64(s[i])) * 1099511628211
	}
	if traceOn {
		res.Trace = append(res.Trace, fmt.Sprintf("%9.3fs %s", float64(runtime.SimNow()-startNow)/1e9, s))
	}
}

// violate reports a broken property; props may name several properties that
// the same observation breaks. Only the first few are kept.
func violate(props, kind, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	note("VIOLATION %s %s: %s", props, kind, msg)
	for _, prop := range strings.Fields(props) {
		if len(res.Violations) < 24 {
			res.Violations = append(res.Violations, Violation{prop, kind, msg, nowMs()})
		}
	}
}

// crashProps names the properties a panic of the code under test breaks from
// now on.
func crashProps(props string) {
	runtime.SimSetCrashNote("simcrash: " + props + "\n")
	print("simcrash: ", props, "\n") // for a run that has to be stopped
}

// harnessError reports that the simulation itself cannot be trusted.
func harnessError(format string, args ...any) {
	if res.Harness == "" {
		res.Harness = fmt.Sprintf(format, args...)
	}
}

// nodeIDs maps simulator node numbers to hosts.
var (
	nextNode  int32 = 1
	nodeHosts       = map[int32]*host{}
)

// host is a simulated machine: an address and a disk. Its processes come and
// go; each has its own node number.
type host struct {
	name string
	ip   string
	fs   *simFS
	rng  *rng
}

// proc is one incarnation of a program on a host.
type proc struct {
	h    *host
	node int32
	dead bool
	fds  map[int]*simFile
	nfd  int
	made handover // what its setup created
}

var procs = map[int32]*proc{}

func newProc(h *host) *proc {
	p := &proc{h: h, node: nextNode, fds: map[int]*simFile{}, nfd: 1 << 20}
	nextNode++
	procs[p.node] = p
	nodeHosts[p.node] = h
	return p
}

// run executes f on a goroutine of the process.
func (p *proc) run(f func()) {
	go func() {
		runtime.SimSetNode(p.node)
		p.made.take()
		f()
	}()
}

// kill freezes the process. Completed system calls survive; connections are
// reset when rst is set and fall silent otherwise.
func (p *proc) kill(rst bool) {
	if p.dead {
		return
	}
	p.dead = true
	runtime.SimKill(p.node)
	p.fds = nil
	theNet.procDied(p, rst)
}

func curProc() *proc { return procs[runtime.SimNode()] }

// sleep suspends the calling (harness) goroutine.
func sleepMs(ms int64) { time.Sleep(time.Duration(ms) * time.Millisecond) }

// waitFor polls cond until it is true or the time is over.
func waitFor(limitMs int64, stepMs int64, cond func() bool) bool {
	end := nowMs() + limitMs
	for {
		if cond() {
			return true
		}
		if nowMs() >= end {
			return false
		}
		sleepMs(stepMs)
	}
}

// resolveHandler discards records after resolving every attribute, as a debug
// level handler would.
type resolveHandler struct{}

func (resolveHandler) Enabled(context.Context, slog.Level) bool { return true }
func (resolveHandler) Handle(_ context.Context, r slog.Record) error {
	if traceOn && plan.cfg("debuglog") != 0 {
		var sb strings.Builder
		r.Attrs(func(a slog.Attr) bool {
			fmt.Fprintf(&sb, " %s=%.60q", a.Key, a.Value.Resolve().String())
			return true
		})
		note("[n%d] log %s%s", runtime.SimNode(), r.Message, sb.String())
		return nil
	}
	r.Attrs(func(a slog.Attr) bool {
		v := a.Value.Resolve()
		if v.Kind() == slog.KindGroup {
			for _, x := range v.Group() {
				x.Value.Resolve()
			}
		}
		return true
	})
	return nil
}
func (h resolveHandler) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h resolveHandler) WithGroup(string) slog.Handler      { return h }

type world struct {
	gen func(prop string, r *rng, p *Plan)
	run func()
}

var worlds = map[string]world{}

// genSched draws a scheduling strategy.
func genSched(r *rng, seed uint64, stalls bool) Sched {
	s := Sched{Seed: seed, StepLimit: 30_000_000, StallMax: 1}
	switch r.n(6) {
	case 0: // nearly cooperative, oldest first
		s.Preempt = 20
		s.PickRand = 6000
	case 1:
		s.Preempt = 600
		s.PickRand = 65536
	case 2:
		s.Preempt = 4000
		s.PickRand = 65536
	case 3:
		s.Preempt = 16000
		s.PickRand = 30000
	case 4, 5:
		s.PCT = true
		s.PCTChange = pick(r, uint32(50), 400, 3000)
	}
	if stalls && r.p(40) {
		s.Stall = pick(r, uint32(2), 20, 150)
		s.StallMax = uint32(r.in(1, 12))
	}
	if stalls && r.p(35) {
		// A few places of the code are slow whenever they are reached, which
		// opens windows that a stall anywhere hardly ever meets.
		s.HotMod = pick(r, uint32(60), 200, 600)
		s.HotRes = uint32(r.n(int(s.HotMod)))
		s.HotProb = pick(r, uint32(65536), 20_000, 4000)
		s.HotMax = uint32(r.in(3, 13))
		s.HotCap = pick(r, uint32(3), 20, 100)
	}
	return s
}

// steady takes the stalls out of a schedule.
func (s *Sched) steady() { s.Stall, s.StallMax, s.HotMod = 0, 1, 0 }

// keen makes many places of the code slow.
func (s *Sched) keen(r *rng) {
	s.HotMod = uint32(r.in(10, 60))
	s.HotRes = uint32(r.n(int(s.HotMod)))
	s.HotProb = pick(r, uint32(65536), 20_000)
	s.HotMax = uint32(r.in(3, 7))
	s.HotCap = pick(r, uint32(20), 100)
}

// stalls tells whether goroutines may stall.
func (s *Sched) stalls() bool { return s.Stall != 0 || s.HotMod != 0 }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim run|gen")
		os.Exit(3)
	}
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	plan = &Plan{}
	if err := json.Unmarshal(in, plan); err != nil {
		fmt.Fprintln(os.Stderr, "bad plan:", err)
		os.Exit(3)
	}
	w, ok := worlds[plan.World]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown world", plan.World)
		os.Exit(3)
	}
	gen := false
	if plan.Cfg == nil {
		gen = true
		plan.Cfg = map[string]int{}
		plan.Str = map[string]string{}
		r := newRng(plan.Seed, "plan:"+plan.World)
		plan.Sched = genSched(newRng(plan.Seed, "sched"), plan.Seed, true)
		w.gen(plan.Prop, r, plan)
	}
	if os.Args[1] == "gen" {
		json.NewEncoder(os.Stdout).Encode(plan)
		return
	}
	traceOn = plan.Trace
	slog.SetDefault(slog.New(resolveHandler{}))
	theNet = newNet(newRng(plan.Seed, "net"))
	installKernel()
	cfg := &runtime.SimConfig{
		Seed: plan.Sched.Seed, Preempt: plan.Sched.Preempt, Stall: plan.Sched.Stall, StallMax: plan.Sched.StallMax,
		PickRand: plan.Sched.PickRand, PCT: plan.Sched.PCT, PCTChange: plan.Sched.PCTChange,
		HotMod: plan.Sched.HotMod, HotRes: plan.Sched.HotRes, HotProb: plan.Sched.HotProb, HotMax: max(1, plan.Sched.HotMax), HotCap: plan.Sched.HotCap,
		Replay: plan.Sched.Replay, CostNs: 200, StepLimit: plan.Sched.StepLimit,
	}
	if cfg.StallMax == 0 {
		cfg.StallMax = 1
	}
	for _, o := range plan.Sched.Overrides {
		cfg.Overrides = append(cfg.Overrides, runtime.SimDecision{N: o[0], V: uint32(o[1])})
	}
	if !raceBuild {
		// Runaway allocation ends this run and not the machine.
		syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: 4000 << 20, Max: 4000 << 20})
	}
	startNow = runtime.SimNow()
	runtime.SimStart(cfg)
	w.run()
	st := runtime.SimSnapshot()
	res.SimMs = nowMs()
	runtime.SimStop()
	res.Hash, res.State = st.Hash, stateHash
	res.Yields, res.Decisions, res.Picks = st.Yields, st.Decisions, st.Picks
	res.Preempts, res.Stalls = st.Preempts, st.Stalls
	res.LogLen, res.Overflow, res.LimitHit, res.MaxAlloc = st.LogLen, st.LogOverflow, st.LimitHit, st.MaxAlloc
	if gen {
		res.Plan = plan
	}
	runtime.SimDumpLog()
	out, _ := json.Marshal(res)
	os.Stdout.Write(append(out, '\n'))
	os.Exit(0)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
