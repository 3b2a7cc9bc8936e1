package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

// These mirror the types of /verif/sim.
type Step struct {
	At   int64  `json:"at,omitempty"`
	Kind string `json:"kind"`
	Who  string `json:"who,omitempty"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
	S    string `json:"s,omitempty"`
}

type Sched struct {
	Seed      uint64      `json:"seed"`
	Preempt   uint32      `json:"preempt"`
	Stall     uint32      `json:"stall"`
	StallMax  uint32      `json:"stall_max"`
	HotMod    uint32      `json:"hot_mod,omitempty"`
	HotRes    uint32      `json:"hot_res,omitempty"`
	HotProb   uint32      `json:"hot_prob,omitempty"`
	HotMax    uint32      `json:"hot_max,omitempty"`
	HotCap    uint32      `json:"hot_cap,omitempty"`
	PickRand  uint32      `json:"pick_rand"`
	PCT       bool        `json:"pct,omitempty"`
	PCTChange uint32      `json:"pct_change,omitempty"`
	Replay    bool        `json:"replay,omitempty"`
	Overrides [][2]uint64 `json:"overrides,omitempty"`
	StepLimit uint64      `json:"step_limit"`
}

type Plan struct {
	Prop  string            `json:"prop"`
	World string            `json:"world"`
	Seed  uint64            `json:"seed"`
	Sched Sched             `json:"sched"`
	Cfg   map[string]int    `json:"cfg,omitempty"`
	Str   map[string]string `json:"str,omitempty"`
	Steps []Step            `json:"steps,omitempty"`
	Trace bool              `json:"trace,omitempty"`
}

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	AtMs int64  `json:"at_ms"`
}

type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Harness    string         `json:"harness,omitempty"`
	SimMs      int64          `json:"sim_ms"`
	Hash       uint64         `json:"hash"`
	State      uint64         `json:"state"`
	Yields     uint64         `json:"yields"`
	Decisions  uint64         `json:"decisions"`
	Picks      uint64         `json:"picks"`
	Preempts   uint64         `json:"preempts"`
	Stalls     uint64         `json:"stalls"`
	LogLen     int            `json:"log_len"`
	Overflow   bool           `json:"overflow,omitempty"`
	LimitHit   bool           `json:"limit_hit,omitempty"`
	MaxAlloc   uint64         `json:"max_alloc,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Plan       *Plan          `json:"plan,omitempty"`

	// filled in by the orchestrator
	crashed bool
	stderr  string
	log     [][2]uint64
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	if p.Cfg != nil && q.Cfg == nil {
		q.Cfg = map[string]int{}
	}
	return q
}

type simBin struct {
	path string
	race bool
}

// exec runs one plan in its own process.
func (s *simBin) exec(p *Plan, wantLog bool, limit time.Duration) *Result {
	in, _ := json.Marshal(p)
	if p.Cfg != nil && len(p.Cfg) == 0 {
		in = bytes.Replace(in, []byte(`"seed":`), []byte(`"cfg":{"_":0},"seed":`), 1)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.path, "run")
	cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGQUIT) }
	cmd.WaitDelay = 5 * time.Second
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all", "PATH=/usr/bin:/bin", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2"}
	cmd.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	eb := &capBuf{max: 1 << 20}
	cmd.Stdout = &out
	cmd.Stderr = eb
	var logBuf bytes.Buffer
	done := make(chan struct{})
	if wantLog {
		r, w, err := os.Pipe()
		if err != nil {
			return &Result{Harness: err.Error()}
		}
		cmd.ExtraFiles = []*os.File{w}
		if err := cmd.Start(); err != nil {
			r.Close()
			w.Close()
			return &Result{Harness: err.Error()}
		}
		w.Close()
		go func() {
			io.Copy(&logBuf, r)
			r.Close()
			close(done)
		}()
	} else {
		close(done)
		null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		if err != nil {
			return &Result{Harness: err.Error()}
		}
		defer null.Close()
		cmd.ExtraFiles = []*os.File{null}
		if err := cmd.Start(); err != nil {
			return &Result{Harness: err.Error()}
		}
	}
	err := cmd.Wait()
	<-done
	res := &Result{}
	if ctx.Err() != nil {
		res.crashed = true
		res.stderr = eb.b.String()
		s.hang(res, p)
		return res
	}
	if jerr := json.Unmarshal(out.Bytes(), res); jerr != nil || err != nil {
		*res = Result{crashed: true}
		s.crash(res, p, eb.b.String(), err)
	}
	res.stderr = eb.b.String()
	if s.race && !res.crashed {
		parseRaces(res)
	}
	if wantLog {
		b := logBuf.Bytes()
		for i := 0; i+16 <= len(b); i += 16 {
			res.log = append(res.log, [2]uint64{binary.LittleEndian.Uint64(b[i:]), uint64(binary.LittleEndian.Uint32(b[i+8:]))})
		}
	}
	return res
}

type capBuf struct {
	b   bytes.Buffer
	max int
}

func (c *capBuf) Write(p []byte) (int, error) {
	if c.b.Len() < c.max {
		c.b.Write(p[:min(len(p), c.max-c.b.Len())])
	}
	return len(p), nil
}

var frameRe = regexp.MustCompile(`(?m)^([^\s(][^\n]*)\(.*\)\n\t(\S+?):(\d+)`)

const repoPkg = "github.com/browles/drip"

// firstFrame finds the innermost frame that belongs to the code under test
// or to the harness.
func firstFrame(trace string) (fn, file string) {
	for _, m := range frameRe.FindAllStringSubmatch(trace, -1) {
		if strings.HasPrefix(m[1], repoPkg) || strings.HasPrefix(m[1], "main.") {
			return m[1], m[2]
		}
	}
	return "", ""
}

// runningTrace cuts out the stack of the goroutine that crashed.
func runningTrace(stderr string) string {
	i := strings.Index(stderr, "[running]:\n")
	if i < 0 {
		i = strings.Index(stderr, "[running")
	}
	if i < 0 {
		return stderr
	}
	t := stderr[i:]
	if j := strings.Index(t, "\n\n"); j >= 0 {
		t = t[:j]
	}
	return t
}

func crashProps(stderr string) []string {
	if i := strings.LastIndex(stderr, "simcrash: "); i >= 0 {
		l, _, _ := strings.Cut(stderr[i+len("simcrash: "):], "\n")
		return strings.Fields(l)
	}
	return nil
}

func headline(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			return l
		}
	}
	return ""
}

func (s *simBin) crash(res *Result, p *Plan, stderr string, err error) {
	h := headline(stderr)
	fn, _ := firstFrame(runningTrace(stderr))
	props := crashProps(stderr)
	if h != "" && strings.HasPrefix(fn, repoPkg) && len(props) > 0 {
		kind := "panic"
		if strings.Contains(h, "concurrent map") {
			props = append(props, "C20")
		}
		for _, pr := range props {
			res.Violations = append(res.Violations, Violation{Prop: pr, Kind: kind, Msg: fmt.Sprintf("%s in %s", h, trimFn(fn))})
		}
		return
	}
	res.Harness = fmt.Sprintf("run died (%v): %s in %s; %s", err, h, fn, tail(stderr, 1500))
}

// hang is called when a run used up its real time.
func (s *simBin) hang(res *Result, p *Plan) {
	fn, _ := firstFrame(runningTrace(res.stderr))
	res.Harness = fmt.Sprintf("run used up its time in %s; %s", fn, tail(res.stderr, 600))
	if strings.HasPrefix(fn, repoPkg) {
		props := crashProps(res.stderr)
		for _, pr := range props {
			res.Violations = append(res.Violations, Violation{Prop: pr, Kind: "endless", Msg: "endless computation in " + trimFn(fn)})
		}
		if len(props) > 0 {
			res.Harness = ""
		}
	}
}

func trimFn(fn string) string { return strings.TrimPrefix(fn, repoPkg+"/") }

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}

// parseRaces turns the race detector's reports into violations. Only reports
// whose two accesses are both in the code under test count.
func parseRaces(res *Result) {
	for _, rep := range strings.Split(res.stderr, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var tops []string
		for _, part := range regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic \w+|atomic \w+) at 0x\w+ by .*:$`).Split(rep, -1)[1:] {
			if i := strings.Index(part, "\n\n"); i >= 0 {
				part = part[:i]
			}
			top := ""
			for _, l := range strings.Split(part, "\n") {
				l = strings.TrimSpace(l)
				if l == "" || strings.HasPrefix(l, "/") || !strings.HasSuffix(l, ")") {
					continue
				}
				if strings.HasPrefix(l, "main.(*simConn).Read(") || strings.HasPrefix(l, "main.(*simConn).Write(") {
					continue // what its caller does
				}
				if strings.HasPrefix(l, "main.") {
					top = l
					break
				}
				if strings.HasPrefix(l, repoPkg) {
					top = l
					break
				}
			}
			tops = append(tops, strings.TrimSuffix(trimFn(top), "()"))
		}
		if len(tops) != 2 || tops[0] == "" || tops[1] == "" || strings.HasPrefix(tops[0], "main.") || strings.HasPrefix(tops[1], "main.") {
			if res.Probes == nil {
				res.Probes = map[string]int{}
			}
			res.Probes["race-reports-ignored"]++
			continue
		}
		if tops[1] < tops[0] {
			tops[0], tops[1] = tops[1], tops[0]
		}
		res.Violations = append(res.Violations, Violation{Prop: "C20", Kind: "race", Msg: fmt.Sprintf("unsynchronised accesses in %s and %s", tops[0], tops[1])})
	}
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
