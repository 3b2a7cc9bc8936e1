package main

import (
	"fmt"
	"net"
	"net/url"
	"runtime"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
)

// World "tracker": a client's announces against tiers of scripted trackers,
// one after another, with the trackers' behaviour changing between them. What
// the trackers see is compared with a model of the tiers.
//
// Steps:
//
//	tier   S=names      a tier of trackers
//	mode   Who=tracker S=behaviour
//	round  S=event A=pause before it (ms)
//	both   A=pause      two announces at once
func init() { worlds["tracker"] = world{genTracker, runTracker} }

func genTracker(prop string, r *rng, p *Plan) {
	p.Sched.steady()
	p.set("lat", pick(r, 1, 1, 20, 300))
	p.set("frag", pick(r, 0, 0, 1, 40))
	p.set("readmax", pick(r, 0, 0, 1, 64))
	p.set("plen", 16384)
	p.set("total", 16384)
	var names []string
	n := 0
	for i := r.in(1, 4); i > 0; i-- {
		var tier []string
		for j := pick(r, 1, 1, 2, 3, 4, 5); j > 0; j-- {
			n++
			x := fmt.Sprintf("t%d", n)
			if r.p(6) {
				x = pick(r, "udp", "badurl", "nodns", "empty", "badport") + x
			} else {
				names = append(names, x)
			}
			tier = append(tier, x)
		}
		p.add(Step{Kind: "tier", S: strings.Join(tier, " ")})
	}
	if len(names) == 0 {
		p.add(Step{Kind: "tier", S: "t99"})
		names = append(names, "t99")
	}
	if r.p(15) {
		p.set("emptytier", 1)
	}
	if r.p(25) {
		p.set("query", r.in(1, 4))
	}
	bad := r.in(20, 90) // percent of trackers that fail
	mode := func() string {
		if r.p(bad) {
			return trackerBad[r.n(len(trackerBad))]
		}
		return trackerGood[r.n(len(trackerGood))]
	}
	p.add(Step{Kind: "round", S: pick(r, "started", "started", "")})
	for i := r.in(2, 9); i > 0; i-- {
		for _, x := range names {
			if r.p(60) {
				p.add(Step{Kind: "mode", Who: x, S: mode()})
			}
		}
		if r.p(10) {
			p.add(Step{Kind: "both", A: r.n(2000)})
		} else {
			p.add(Step{Kind: "round", A: pick(r, 0, 10, 3000, 30_000, 100_000), S: pick(r, "", "", "", "completed", "started")})
		}
	}
	p.add(Step{Kind: "round", S: pick(r, "", "stopped")})
}

type tierModel struct {
	names  []string // in the torrent's order
	order  []string // as learnt, then as the rules say
	hidden map[string]bool
}

type trackerWorld struct {
	p     *proc
	srv   *p2p.Server
	tiers []*tierModel
	nodes map[string]*trackerNode
	keys  map[string]string
	log   []string // trackers tried in this round, repetitions dropped
	over  bool
}

func hiddenTracker(n string) string {
	switch {
	case strings.HasPrefix(n, "udp"):
		return "udp://" + n + ".test:6969/announce"
	case strings.HasPrefix(n, "badurl"):
		return "http://" + n + ".test/%zz"
	case strings.HasPrefix(n, "nodns"):
		return "http://" + n + ".test/announce"
	case strings.HasPrefix(n, "empty"):
		return ""
	case strings.HasPrefix(n, "badport"):
		return "http://" + n + ".test:99999/announce"
	}
	return ""
}

func runTracker() {
	crashProps("C11")
	w := &trackerWorld{nodes: map[string]*trackerNode{}, keys: map[string]string{}}
	lat := newRng(plan.Seed, "latency")
	theNet.latency = func(a, b string) time.Duration {
		return time.Duration(lat.in(1, 1000*max(1, plan.cfg("lat")))) * time.Microsecond
	}
	theNet.fragMax, theNet.readMax = plan.cfg("frag"), plan.cfg("readmax")
	h := &host{name: "c1", ip: "10.0.0.1", rng: newRng(plan.Seed, "host:c1")}
	fs := newFS(h, newRng(plan.Seed, "disk:c1"))
	fs.mkdirAll(sTarget)
	fs.mkdirAll(sWork)
	w.p = newProc(h)
	t := makeTorrent(plan, "content")
	mi := &metainfo.Metainfo{Info: t.info()}
	idx := 0
	for _, s := range plan.Steps {
		if s.Kind != "tier" {
			continue
		}
		m := &tierModel{hidden: map[string]bool{}}
		var urls []string
		for _, n := range strings.Fields(s.S) {
			m.names = append(m.names, n)
			if !strings.HasPrefix(n, "t") {
				m.hidden[n] = true
				urls = append(urls, hiddenTracker(n))
				continue
			}
			idx++
			k := idx
			tn := newTrackerNode(n+".test", fmt.Sprintf("10.0.9.%d", idx), 8080, newRng(plan.Seed, "tracker:"+n))
			tn.reply = func(q url.Values) map[string]any {
				return map[string]any{"interval": 30, "peers": string([]byte{10, 1, byte(k), 1, 0x1a, 0xe1})}
			}
			tn.seen = func(*trackerNode, *simConn, url.Values, string) { w.tried(n) }
			tn.dress(plan.cfg("query"))
			w.nodes[n] = tn
			w.keys[tn.key()] = n
			tn.start()
			tn.setMode("refuse")
			urls = append(urls, tn.url())
		}
		w.tiers = append(w.tiers, m)
		mi.AnnounceList = append(mi.AnnounceList, urls)
	}
	if len(w.tiers) == 1 && len(w.tiers[0].names) == 1 && plan.Seed%2 == 0 {
		mi.Announce, mi.AnnounceList = mi.AnnounceList[0][0], nil
	} else if plan.cfg("emptytier") != 0 {
		mi.AnnounceList = append([][]string{{}}, mi.AnnounceList...)
	}
	theNet.onDial = func(node int32, from, addr string) {
		if n, ok := w.keys[addr]; ok && node == w.p.node {
			w.tried(n)
		}
	}
	made := false
	w.p.run(func() {
		st := storage.New(sTarget, sWork, mi.Info)
		var id [20]byte
		copy(id[:], "-DR0001-c1----------")
		w.srv = p2p.New(mi, id, st, 6881)
		w.p.made.give()
		made = true
	})
	if !waitFor(10_000, 1, func() bool { return made }) {
		harnessError("no server")
		return
	}
	// An announce that every tracker refuses shows the initial order.
	modes := map[string]string{}
	for n := range w.nodes {
		modes[n] = "ok"
	}
	started := false
	for _, s := range plan.Steps {
		if s.Kind == "tier" || w.over || len(res.Violations) > 0 {
			continue
		}
		if !started {
			started = true
			w.learn("")
		}
		sleepMs(int64(s.A))
		switch s.Kind {
		case "mode":
			if w.nodes[s.Who] != nil {
				modes[s.Who] = s.S
			}
		case "round":
			for _, n := range sortedKeys(modes) {
				w.nodes[n].setMode(modes[n])
			}
			w.round(s.S)
		case "both":
			for _, n := range sortedKeys(modes) {
				w.nodes[n].setMode(modes[n])
			}
			probe("concurrent-announces")
			w.log = nil
			d1, d2 := false, false
			go func() { w.call(""); d1 = true }()
			go func() { w.call(""); d2 = true }()
			waitFor(2*w.bound(), 10, func() bool { return d1 && d2 || len(res.Violations) > 0 })
			w.quiesce()
			w.learn("after two announces at once: ")
		}
	}
	if len(res.Violations) == 0 && !w.over {
		w.learn("in the end: ")
	}
	if a := runtime.SimSnapshot().MaxAlloc; a > 8<<20 {
		violate("C11", "memory", "a single allocation of %d bytes was made", a)
	}
}

func (w *trackerWorld) tried(n string) {
	if k := len(w.log); k == 0 || w.log[k-1] != n {
		w.log = append(w.log, n)
	}
}

func (w *trackerWorld) bound() int64 { return int64(60_000 + 100_000*(len(w.nodes)+1)) }

// quiesce waits until requests that were given up cannot reach a tracker.
func (w *trackerWorld) quiesce() { sleepMs(3_000) }

func (w *trackerWorld) call(event string) (r *trackerapi.Response, err error) {
	done := false
	w.p.run(func() {
		switch event {
		case "started":
			r, err = w.srv.Tracker.Start()
		case "completed":
			r, err = w.srv.Tracker.Complete()
		case "stopped":
			r, err = w.srv.Tracker.Stop()
		default:
			r, err = w.srv.Tracker.Announce()
		}
		done = true
	})
	at := nowMs()
	if !waitFor(w.bound(), 5, func() bool { return done }) {
		violate("C11", "hangs", "an announce has not returned after %d s", (nowMs()-at)/1000)
		w.over = true
	}
	return
}

// learn makes every tracker refuse and looks at the order they are tried in.
func (w *trackerWorld) learn(when string) {
	for _, n := range sortedKeys(w.nodes) {
		w.nodes[n].setMode("refuse")
	}
	w.log = nil
	_, err := w.call("")
	if w.over {
		return
	}
	if err == nil {
		violate("C11", "false-success", "%severy tracker refused and the announce succeeded", when)
		return
	}
	note("order %v", w.log)
	i := 0
	for k, m := range w.tiers {
		want := map[string]bool{}
		for _, n := range m.names {
			if !m.hidden[n] {
				want[n] = true
			}
		}
		var got []string
		for len(got) < len(want) && i < len(w.log) && want[w.log[i]] {
			got = append(got, w.log[i])
			delete(want, w.log[i])
			want[w.log[i]] = false
			i++
			nt := 0
			for _, v := range want {
				if v {
					nt++
				}
			}
			if nt == 0 {
				break
			}
		}
		for n, missing := range want {
			if missing {
				violate("C11", "tier-broken", "%severy tracker refused: they were tried in the order %v; tracker %s of tier %d %v was not tried in its turn", when, w.log, n, k, m.names)
				return
			}
		}
		if m.order != nil && when != "" && !strings.HasPrefix(when, "after two") && strings.Join(m.order, " ") != strings.Join(got, " ") {
			violate("C11", "order", "%stier %d is tried in the order %v, it should be %v", when, k, got, m.order)
			return
		}
		m.order = got
	}
	if i < len(w.log) {
		violate("C11", "tier-broken", "%severy tracker refused: they were tried in the order %v, tiers are %v", when, w.log, w.tierNames())
	}
}

func (w *trackerWorld) tierNames() (out [][]string) {
	for _, m := range w.tiers {
		out = append(out, m.names)
	}
	return
}

// round makes one announce and compares it with the model.
func (w *trackerWorld) round(event string) {
	var want []string
	winner := ""
	var tier *tierModel
search:
	for _, m := range w.tiers {
		for _, n := range m.order {
			want = append(want, n)
			if trackerOutcome(w.nodes[n].mode) == 1 {
				winner, tier = n, m
				break search
			}
		}
	}
	w.log = nil
	r, err := w.call(event)
	if w.over {
		return
	}
	if event == "stopped" {
		w.over = true // nothing may follow
	}
	desc := func() string {
		var ms []string
		for _, m := range w.tiers {
			for _, n := range m.order {
				ms = append(ms, n+"="+w.nodes[n].mode)
			}
			ms = append(ms, "|")
		}
		return strings.Join(ms, " ")
	}
	note("round %q: tried %v, err %v", event, w.log, err)
	if strings.Join(w.log, " ") != strings.Join(want, " ") {
		violate("C11", "order", "the announce tried %v, it should try %v (%s)", w.log, want, desc())
		return
	}
	probe("round")
	if winner == "" {
		probe("all-failed")
		if err == nil {
			violate("C11", "false-success", "every tracker failed and the announce succeeded (%s)", desc())
		}
		w.quiesce()
		return
	}
	if err != nil || r == nil {
		violate("C11", "failed", "tracker %s answered properly and the announce failed: %v (%s)", winner, err, desc())
		return
	}
	if len(want) > 1 {
		probe("failover")
	}
	node := w.nodes[winner]
	wantIP := strings.Replace(strings.Replace(node.ip, "10.0.9.", "10.1.", 1)+".1", "..", ".", 1)
	n := 0
	if r.Peers != nil {
		n = len(r.Peers.List)
	}
	if node.mode == "nopeers" || node.mode == "emptypeers" {
		if n != 0 {
			violate("C11", "peers", "the announce returned %d peers, the tracker sent none", n)
		}
	} else if n != 1 || !net.ParseIP(r.Peers.List[0].IP).Equal(net.ParseIP(wantIP)) || r.Peers.List[0].Port != 6881 {
		violate("C11", "peers", "the announce did not return what tracker %s sent (%s)", winner, desc())
	}
	// the winner moves to the front
	o := []string{winner}
	for _, x := range tier.order {
		if x != winner {
			o = append(o, x)
		}
	}
	if strings.Join(o, " ") != strings.Join(tier.order, " ") {
		probe("promotion")
	}
	tier.order = o
	w.quiesce()
}
