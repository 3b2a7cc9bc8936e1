package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/pex"
	"github.com/browles/drip/storage"
)

// World "swarm": real clients (p2p + storage) on simulated machines, scripted
// peers and trackers, a network with faults. See DESIGN.md.
//
// Steps:
//
//	client   Who=c1 S=options          a machine that runs the client
//	peer     Who=p1 S=options          a scripted peer (peers.go)
//	tracker  Who=t1 S=options          a scripted tracker
//	start/stop/kill Who=client At      life of a client process
//	...      faults and events, see event()
func init() { worlds["swarm"] = world{genSwarm, runSwarm} }

type swarm struct {
	whens    []whenStep
	counts   map[string]int // messages of a kind so far
	fire     chan fired
	answered map[*simConn]int64 // when a tracker first answered over a connection
	t        *simTorrent
	r        *rng
	mi       *metainfo.Metainfo
	clients  []*client
	peers    []*peerNode
	byAddr   map[string]*peerNode
	trackers []*trackerNode
	interval int
	pexPort  int

	stalls     bool // goroutines of clients may stall
	slowDisk   bool
	diskLag    int64 // ms that assembling the torrent may take, and hold up other things, on a slow disk
	diskFaults bool
	hostile    int
	idsListed  bool // every list names the peers' ids
	healed     bool
	ending     bool // peers stop redialling
	over       bool
	badTracker bool
}

type client struct {
	sw     *swarm
	h      *host
	name   string
	port   int
	id     [20]byte
	opt    map[string]int
	cur    *crun
	runs   []*crun
	stopAt int64
	lastLo map[int]bool // pieces known complete when the last run was killed
}

func (cl *client) key() string { return net.JoinHostPort(cl.h.ip, strconv.Itoa(cl.port)) }

// crun is one run of a client program.
type crun struct {
	cl  *client
	p   *proc
	st  *storage.Storage
	srv *p2p.Server

	startAt      int64
	started      bool  // the port is open
	leftStart    int64 // bytes missing then
	trackerDials int
	firstDial    int64
	startRet     bool
	startRetAt   int64
	startErr     error
	waitRet      bool
	waitErr      error
	stopAt       int64 // Stop was called
	stopDone     int   // Stop calls that have returned
	stopCalls    int
	stopDoneAt   int64 // the first one returned
	killed       bool

	mons       []*mon
	heldAt     map[int]int64
	lefts      []leftAt
	ann        []*annRec
	blocked    map[string]int64
	lastFetch  map[int]int64
	lastChange int64
	maxEst     int
	upFull     int64
	upBegun    int64
	solicited  int64
	early      []*earlyBlock
	ups        []upAt
	completeAt int64
	startOK    bool  // a started announce succeeded
	startMaybe bool  // or may have
	lastTry    int64 // a tracker was last tried
	lastDial   int64 // a tracker was last dialled
	stopSeen   int

	listed map[string]int      // how often trackers have listed an address
	dials  map[string]int      // how often it was dialled
	reqs   map[string]*reqRate // per tracker
	told   map[string][]int64  // when trackers listed an address since it was last dialled or connected
	answer int                 // counts answers
	asked  []askedFor
}

// reqRate is about the requests a tracker gets from a run.
type reqRate struct {
	n          int
	last       int64
	unanswered bool // the last one was closed without a reply
	retry      bool // and it was a retry already
}

// askedFor is an interval that a tracker has asked for, in an answer that the
// run may have taken.
type askedFor struct {
	answer int
	ms     int64
}

// interval is the least time between announces that the run may know of.
func (r *crun) interval() int64 {
	ms := r.asked[0].ms
	for _, a := range r.asked {
		ms = min(ms, a.ms)
	}
	return ms
}

// huge is true while a tracker may have asked the run not to come back for
// long.
func (r *crun) huge() bool {
	for _, a := range r.asked {
		if a.ms > 1000_000 {
			return true
		}
	}
	return false
}

type leftAt struct{ at, left int64 }
type upAt struct{ at, full, sol int64 }

type annRec struct {
	at             int64
	event          string
	up, down, left int64
}

func (r *crun) held(i int) bool { return bitHas(r.st.Torrent.Bitfield, i) }

func (r *crun) heldBits() []byte { return append([]byte(nil), r.st.Torrent.Bitfield...) }

func (r *crun) left() int64 {
	t := r.cl.sw.t
	var n int64
	for i := 0; i < t.numPieces(); i++ {
		if !r.held(i) {
			n += int64(len(t.piece(i)))
		}
	}
	return n
}

// sample notes which pieces have become complete.
func (r *crun) sample() {
	if r.st == nil {
		return
	}
	now := nowMs()
	n := r.cl.sw.t.numPieces()
	changed := false
	for i := 0; i < n; i++ {
		if !r.held(i) {
			continue
		}
		if _, ok := r.heldAt[i]; ok {
			continue
		}
		r.heldAt[i] = now
		changed = true
		note("%s: piece %d complete", r.cl.name, i)
		r.checkPiece(i)
	}
	if changed {
		r.lefts = append(r.lefts, leftAt{now, r.left()})
		if len(r.heldAt) == n {
			r.completeAt = now
		}
	}
	if k := len(r.ups); k == 0 || r.ups[k-1].full != r.upFull || r.ups[k-1].sol != r.solicited {
		r.ups = append(r.ups, upAt{now, r.upFull, r.solicited})
	}
}

// checkPiece looks at the disk: a piece reported complete must be there.
func (r *crun) checkPiece(i int) {
	sw := r.cl.sw
	fs := r.cl.h.fs
	if fs.get(sTarget+"/"+sw.t.name) != nil {
		return // served from there, which is checked at the end
	}
	if in := fs.get(fmt.Sprintf("%s/%x/%d.piece", sWork, sw.t.infohash, i)); in != nil {
		if !bytes.Equal(in.data, sw.t.piece(i)) {
			violate("C01", "bad-piece", "%s: piece %d is reported complete and its stored bytes are wrong", r.cl.name, i)
		}
		return
	}
	violate("C01", "piece-nowhere", "%s: piece %d is reported complete and is not on disk", r.cl.name, i)
}

func (r *crun) leftBefore(at int64) int64 {
	left := int64(len(r.cl.sw.t.data))
	for _, l := range r.lefts {
		if l.at <= at {
			left = l.left
		}
	}
	return left
}

func (r *crun) upBefore(at int64) upAt {
	var u upAt
	for _, x := range r.ups {
		if x.at <= at {
			u = x
		}
	}
	return u
}

// downMax bounds the payload of requested blocks received so far. A block
// that arrived unasked counts for a while: its request may be on the way to
// the network.
// downMin is how much was downloaded for the pieces completed by some time.
func (r *crun) downMin(at int64) int64 {
	if r.cl.sw.diskFaults || !r.started || at < r.startAt {
		return 0
	}
	return max(0, r.leftStart-r.leftBefore(at))
}

func (r *crun) downMax() int64 {
	n := r.solicited
	for _, e := range r.early {
		if !e.used && (e.maybe || nowMs()-e.at < earlyMs) {
			n += int64(e.n)
		}
	}
	return n
}

const earlyMs = 35_000

type earlyBlock struct {
	at    int64
	n     int
	used  bool
	m     *mon
	piece int
	maybe bool // a fetch of the piece was going on: it may have answered a request that was then not sent
}

// disturb marks a connection as not healthy.
func (sw *swarm) disturb(c *simConn) {
	for _, cl := range sw.clients {
		for _, r := range cl.runs {
			for _, m := range r.mons {
				if m.c == c || m.c == c.peer {
					m.disturbed = true
				}
			}
		}
	}
}

func (sw *swarm) runOf(node int32) *crun {
	for _, cl := range sw.clients {
		for _, r := range cl.runs {
			if r.p.node == node {
				return r
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- running

func runSwarm() {
	sw := &swarm{counts: map[string]int{}, answered: map[*simConn]int64{}, fire: make(chan fired, 1000), byAddr: map[string]*peerNode{}, r: newRng(plan.Seed, "swarm"), interval: max(1, plan.cfg("interval"))}
	name := plan.Str["name"]
	if name == "" {
		name = "content"
	}
	sw.t = makeTorrent(plan, name)
	sw.stalls = plan.Sched.stalls()
	lat := newRng(plan.Seed, "latency")
	maxLat := max(1, plan.cfg("lat"))
	base := map[string]int{}
	theNet.latency = func(a, b string) time.Duration {
		if plan.cfg("nojit") != 0 {
			// what is sent at the same time arrives at the same time
			return time.Duration(maxLat) * time.Millisecond
		}
		k := a + ">" + b
		if _, ok := base[k]; !ok {
			base[k] = lat.in(1, maxLat) * 1000
		}
		return time.Duration(base[k]+lat.n(base[k]+1)) * time.Microsecond
	}
	theNet.fragMax = plan.cfg("frag")
	theNet.readMax = plan.cfg("readmax")
	if b := plan.cfg("buf"); b > 0 {
		theNet.bufSize = b
	}
	sw.idsListed = plan.cfg("ids") != 0
	crashProps("C05")
	for _, s := range plan.Steps {
		switch s.Kind {
		case "client":
			sw.addClient(s.Who, s.S)
		case "peer":
			p := sw.addPeer(s.Who, s.S)
			if p.kind == "hostile" {
				sw.hostile++
			}
		case "tracker":
			sw.addTracker(s.Who, s.S)
		case "tmode":
			if trackerOutcome(s.S) != 1 {
				sw.badTracker = true
			}
		case "when":
			sw.addWhen(s)
		}
	}
	cp := "C05"
	if sw.hostile > 0 {
		cp += " C06"
	}
	if sw.badTracker {
		cp += " C11"
	}
	crashProps(cp)
	if len(sw.clients) == 0 {
		return
	}
	theNet.onConn = func(client, server *simConn) {
		for _, c := range []*simConn{client, server} {
			if run := sw.runOf(c.node); run != nil && !sw.isTracker(c.remote) {
				sw.watch(run, c)
			}
		}
	}
	theNet.onDial = func(node int32, from, addr string) {
		run := sw.runOf(node)
		if run == nil {
			return
		}
		if !sw.isTrackerAddr(addr) {
			run.dialled(addr)
			return
		}
		run.trackerDials++
		note("%s: dials %s", run.cl.name, addr)
		run.lastTry = nowMs()
		run.lastDial = run.lastTry
		if run.trackerDials == 1 {
			run.firstDial = nowMs()
		}
	}
	theNet.onListen = func(node int32, addr string, open bool) {
		if run := sw.runOf(node); run != nil && open {
			run.started = true
			if run.st != nil {
				run.leftStart = run.left()
			}
		}
	}
	sw.mi = sw.metainfo()
	if plan.cfg("pex") != 0 {
		sw.startPex()
	}
	for _, t := range sw.trackers {
		t.start()
	}
	for _, p := range sw.peers {
		p.start()
	}
	go sw.sweeper()
	go sw.firer()
	sw.timeline()
	sw.heal()
	sw.finish()
	sw.ending = true
	sw.stopAll()
	sw.over = true
	sw.final()
}

func (sw *swarm) isTracker(a *net.TCPAddr) bool {
	for _, t := range sw.trackers {
		if t.ip == a.IP.String() && t.port == a.Port {
			return true
		}
	}
	return sw.pexPort != 0 && a.IP.String() == pexIP && a.Port == sw.pexPort
}

func (sw *swarm) isTrackerAddr(addr string) bool {
	for _, t := range sw.trackers {
		if t.key() == addr {
			return true
		}
	}
	return sw.pexPort != 0 && addr == net.JoinHostPort(pexIP, strconv.Itoa(sw.pexPort))
}

func (sw *swarm) addClient(name, opts string) {
	o, _ := parseOpts(opts)
	cl := &client{sw: sw, name: name, opt: o, port: 6881}
	if o["port"] != 0 {
		cl.port = o["port"]
	}
	cl.h = &host{name: name, ip: fmt.Sprintf("10.0.0.%d", len(sw.clients)+1), rng: newRng(plan.Seed, "host:"+name)}
	copy(cl.id[:], "-DR0001-"+name+"------------")
	fs := newFS(cl.h, newRng(plan.Seed, "disk:"+name))
	fs.mkdirAll(sTarget)
	fs.mkdirAll(sWork)
	if o["pre"] >= 100 {
		for p, d := range sw.t.expected() {
			fs.put(sTarget+"/"+p, d)
		}
	} else if o["pre"] > 0 {
		for i := 0; i < sw.t.numPieces(); i++ {
			if cl.h.rng.p(o["pre"]) {
				fs.put(fmt.Sprintf("%s/%x/%d.piece", sWork, sw.t.infohash, i), sw.t.piece(i))
			}
		}
	}
	for i := 0; i < sw.t.numPieces() && o["of"] > 0; i++ {
		if i%o["of"] == o["mod"] {
			fs.put(fmt.Sprintf("%s/%x/%d.piece", sWork, sw.t.infohash, i), sw.t.piece(i))
		}
	}
	fs.syncAll()
	fs.onMutate = func(p *proc, op, p1, p2 string) {
		if r := cl.cur; r != nil && r.p == p && r.stopDoneAt != 0 && op != "close" {
			violate("C14", "works-after-stop", "%s: %s %s %d ms after Stop has returned", name, op, p1, nowMs()-r.stopDoneAt)
		}
		for _, x := range []string{p1, p2} {
			if x == "" {
				continue
			}
			if strings.Contains(x, "/../") || !strings.HasPrefix(x, sTarget+"/") && !strings.HasPrefix(x, sWork+"/") {
				violate("C19", "outside", "%s: %s %s outside of the directories", name, op, x)
			}
		}
	}
	sw.clients = append(sw.clients, cl)
}

func (sw *swarm) addTracker(name, opts string) {
	o, s := parseOpts(opts)
	t := newTrackerNode(name+".test", fmt.Sprintf("10.0.9.%d", len(sw.trackers)+1), 8080, newRng(plan.Seed, "tracker:"+name))
	t.dress(plan.cfg("query"))
	if s["mode"] != "" {
		t.setMode(s["mode"])
	}
	_ = o
	var asking *crun
	t.reply = func(q url.Values) map[string]any {
		m := sw.trackerReply(q)
		if asking != nil {
			list := m["peers"].(string)
			q.Set("-listed", list)
			for i := 0; i+6 <= len(list); i += 6 {
				asking.listed[net.JoinHostPort(listedIP(list[i:]), strconv.Itoa(int(list[i+4])<<8|int(list[i+5])))]++
			}
		}
		return m
	}
	t.seen = func(t *trackerNode, c *simConn, q url.Values, raw string) {
		asking = sw.runOf(c.peer.node)
		if asking != nil && q.Get("event") != "stopped" {
			asking.requested(t)
		}
		sw.announced(c.peer.node, q)
	}
	t.done = func(t *trackerNode, c *simConn, q url.Values, mode string) {
		run := sw.runOf(c.peer.node)
		if run == nil || q.Get("event") == "stopped" || trackerOutcome(mode) == 0 {
			return
		}
		run.answer++
		a := askedFor{run.answer, int64(sw.interval) * 1000}
		switch mode {
		case "interval0", "intervalneg", "nointerval":
			a.ms = 30_000
		case "intervalhuge":
			a.ms = 3600_000
		}
		run.asked = append(run.asked, a)
		if trackerOutcome(mode) != 1 {
			return
		}
		switch mode {
		case "ok", "slowok", "noncompact", "mapped", "frag", "noid", "warn", "extra", "long":
			list := q.Get("-listed")
			sw.taken(run, c, func() { run.tell(list) })
		}
		sw.taken(run, c, func() {
			run.asked = slices.DeleteFunc(run.asked, func(x askedFor) bool { return x.answer < a.answer })
		})
		if q.Get("event") == "started" {
			run.startMaybe = true
			sw.taken(run, c, func() { run.startOK = true })
		}
	}
	sw.trackers = append(sw.trackers, t)
}

// requested is called when a tracker gets a request from the run: announces
// come at the interval asked for, whatever has become of earlier ones.
func (r *crun) requested(t *trackerNode) {
	now := nowMs()
	q := r.reqs[t.name]
	if q == nil {
		q = &reqRate{last: -1 << 40}
		r.reqs[t.name] = q
	}
	q.n++
	// net/http tries again if an idle connection turns out to be closed
	q.retry = q.unanswered && !q.retry && now-q.last < 2000
	if gap := now - q.last; !q.retry && gap < r.interval() {
		violate("C27", "too-many-announces", "%s: tracker %s gets an announce %d ms after the one before; it is asked to wait %d s", r.cl.name, t.name, gap, r.interval()/1000)
	}
	q.last = now
	q.unanswered = t.mode == "refuse" || t.mode == "reset" || t.mode == "close" || t.mode == "midreset"
	if q.n > 3 {
		probe("announce-rate")
	}
}

// dialled is called when the run dials a peer: once for each time a tracker
// has listed it, at most.
func (r *crun) dialled(addr string) {
	r.dials[addr]++
	delete(r.told, addr)
	if r.cl.sw.pexPort != 0 {
		return
	}
	if n := r.dials[addr]; n > r.listed[addr] {
		violate("C27", "too-many-dials", "%s: %s is dialled for the %dth time and was listed %d time(s)", r.cl.name, addr, n, r.listed[addr])
	}
	if r.dials[addr] > 1 {
		probe("dialled-again")
	}
	for _, m := range r.mons {
		if !m.c.accepted && m.c.dialAddr == addr && !m.c.isClosed {
			violate("C27", "dialled-connected", "%s: %s is dialled while the client is connected to it (%s)", r.cl.name, addr, m)
			return
		}
	}
}

// taken is called when a tracker has answered over c, and calls ok once the
// run has taken the answer for sure.
func (sw *swarm) taken(run *crun, c *simConn, ok func()) {
	tried := run.lastTry
	if first, ok := sw.answered[c]; !ok || first == nowMs() {
		// the time to connect counts
		tried = run.lastDial
		sw.answered[c] = nowMs()
	}
	go func() {
		waitFor(20_000, 10, func() bool { return c.out.size == 0 || c.peer.isClosed })
		limit := int64(10_000) // the client may have given up by then
		if sw.stalls {
			limit = 3_000
		}
		if c.out.size == 0 && nowMs()-tried < limit {
			ok()
		}
	}()
}

// trackerReply lists the listed peers and the other clients.
func (sw *swarm) trackerReply(q url.Values) map[string]any {
	var addrs []string
	ids := map[string]string{}
	for _, p := range sw.peers {
		if p.opt["listed"] == 0 {
			continue
		}
		addrs = append(addrs, p.addr())
		id := string(p.id[:])
		if p.opt["wrongid"] != 0 {
			id = "-XX0000-wrongwrongwr"
		}
		ids[compactOf([]string{p.addr()})] = id
	}
	for _, cl := range sw.clients {
		if cl.opt["unlisted"] == 0 && (string(cl.id[:]) != q.Get("peer_id") || plan.cfg("listself") != 0) {
			addrs = append(addrs, cl.key())
			ids[compactOf([]string{cl.key()})] = string(cl.id[:])
		}
	}
	dead := sw.deadPeers()
	for _, a := range dead {
		ids[compactOf([]string{a})] = "-GONE0-" + a[len(a)-13:]
	}
	if plan.Str["deadorder"] == "first" {
		return map[string]any{"interval": sw.interval, "peers": compactOf(append(dead, addrs...)), "-ids": ids}
	}
	addrs = append(addrs, dead...)
	r := newRng(uint64(nowNs()), "order")
	for i, j := range r.perm(len(addrs)) {
		addrs[i], addrs[j] = addrs[j], addrs[i]
	}
	return map[string]any{"interval": sw.interval, "peers": compactOf(addrs), "-ids": ids}
}

// deadPeers are listed by the trackers and long gone: hosts that refuse
// connections, do not answer at all, or accept and say nothing.
func (sw *swarm) deadPeers() []string {
	var out []string
	for i := 0; i < plan.cfg("dead"); i++ {
		ip := fmt.Sprintf("10.9.%d.%d", i/200, i%200+1)
		mode := plan.Str["deadmode"]
		if mode == "mix" {
			mode = []string{"refuse", "hang", "silent"}[i%3]
		}
		theNet.deadHosts[ip] = mode
		out = append(out, fmt.Sprintf("%s:6881", ip))
	}
	return out
}

const pexIP = "10.0.9.99"

// startPex runs the repository's own tracker on its own machine.
func (sw *swarm) startPex() {
	h := &host{name: "pex", ip: pexIP, rng: newRng(plan.Seed, "host:pex")}
	newFS(h, newRng(plan.Seed, "disk:pex"))
	p := newProc(h)
	sw.pexPort = 8080
	theNet.dns["pex.test"] = pexIP
	ready := make(chan bool, 1)
	p.run(func() {
		px := pex.NewHTTP([]*metainfo.Info{sw.mi.Info})
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", sw.pexPort))
		if err != nil {
			harnessError("pex: %v", err)
			ready <- false
			return
		}
		ready <- true
		http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			for _, c := range theNet.conns {
				if !c.accepted && c.local.String() == r.RemoteAddr {
					sw.announced(c.node, r.URL.Query())
					if run := sw.runOf(c.node); run != nil && r.URL.Query().Get("event") == "started" {
						run.startMaybe = true
						defer func() {
							go func() {
								sleepMs(1) // until the answer is written
								sw.taken(run, c.peer, func() { run.startOK = true })
							}()
						}()
					}
				}
			}
			px.ServeHTTP(w, r)
		}))
	})
	<-ready
	for _, p := range sw.peers {
		if p.opt["listed"] != 0 && p.opt["nolisten"] == 0 {
			go sw.pexAnnounce(p)
		}
	}
}

// pexAnnounce keeps a scripted peer on the real tracker's list.
func (sw *swarm) pexAnnounce(p *peerNode) {
	sleepMs(int64(p.r.n(2000)))
	for !sw.over {
		if !p.down {
			c, err := theNet.dial(context.Background(), 0, p.ip, 0, net.JoinHostPort(pexIP, strconv.Itoa(sw.pexPort)), nowNs()+int64(10*time.Second))
			if err == nil {
				q := url.Values{"info_hash": {string(sw.t.infohash[:])}, "peer_id": {string(p.id[:])}, "port": {strconv.Itoa(p.port)}, "left": {"0"}, "compact": {"1"}}
				fmt.Fprintf(c, "GET /announce?%s HTTP/1.1\r\nHost: pex.test\r\nConnection: close\r\n\r\n", q.Encode())
				buf := make([]byte, 4096)
				for {
					if _, err := c.Read(buf); err != nil {
						break
					}
				}
				c.Close()
			}
		}
		sleepMs(25_000)
	}
}

func (sw *swarm) metainfo() *metainfo.Metainfo {
	mi := &metainfo.Metainfo{Info: sw.t.info()}
	if plan.cfg("pex") != 0 {
		mi.Announce = fmt.Sprintf("http://pex.test:%d/announce", 8080)
		return mi
	}
	var urls []string
	for _, t := range sw.trackers {
		urls = append(urls, t.url())
	}
	if len(urls) == 0 {
		mi.Announce = "http://nowhere.test/announce"
		return mi
	}
	mi.Announce = urls[0]
	switch plan.cfg("tiers") {
	case 1: // one tier
		mi.AnnounceList = [][]string{urls}
	case 2: // a tier each
		for _, u := range urls {
			mi.AnnounceList = append(mi.AnnounceList, []string{u})
		}
	}
	return mi
}

// start runs the client program on its machine.
func (cl *client) start() {
	if cl.cur != nil && !cl.cur.killed && cl.cur.stopDoneAt == 0 {
		return
	}
	sw := cl.sw
	r := &crun{cl: cl, p: newProc(cl.h), startAt: nowMs(), heldAt: map[int]int64{}, blocked: map[string]int64{}, lastFetch: map[int]int64{},
		listed: map[string]int{}, dials: map[string]int{}, reqs: map[string]*reqRate{}, told: map[string][]int64{}, asked: []askedFor{{0, 30_000}}}
	cl.cur = r
	cl.stopAt = 0
	cl.runs = append(cl.runs, r)
	note("start %s (node %d)", cl.name, r.p.node)
	for _, x := range cl.runs {
		if x.killed {
			// The machine answers for connections it knows nothing of
			for _, m := range x.mons {
				m.c.setReset(int64(theNet.latency(m.c.local.IP.String(), m.c.remote.IP.String())))
			}
		}
	}
	mi := *sw.mi
	r.p.run(func() {
		r.st = storage.New(sTarget, sWork, mi.Info)
		r.srv = p2p.New(&mi, cl.id, r.st, cl.port)
		r.p.made.give()
		err := r.srv.Start()
		r.startErr = err
		r.startRetAt = nowMs()
		r.startRet = true
		note("%s: Start returned %v", cl.name, err)
	})
	go func() {
		waitFor(900_000, 50, func() bool { return r.srv != nil || r.killed })
		if r.srv == nil {
			return
		}
		r.p.made.take()
		err := r.st.Torrent.Wait()
		r.waitErr = err
		r.waitRet = true
		note("%s: Wait returned %v", cl.name, err)
	}()
}

// up reports whether the program has opened its port.
func (r *crun) up() bool { return r.started }

// stop calls Stop and waits for it.
func (r *crun) stop() {
	cl := r.cl
	sw := cl.sw
	if r.killed {
		return
	}
	if !waitFor(60_000, 20, func() bool { return r.up() || r.startRet || r.killed }) {
		violate("C14 C05", "not-listening", "%s: Start neither opened the port nor returned within 60 s", cl.name)
		return
	}
	if r.killed || r.startRet && !r.started {
		return
	}
	if r.stopAt == 0 {
		r.stopAt = max(1, nowMs())
		cl.stopAt = r.stopAt
		probe("stop")
	}
	r.stopCalls++
	n := r.stopCalls
	at := nowMs()
	done := false
	note("stop %s (%d)", cl.name, n)
	// The announce in flight and the last one may each wait for every tracker.
	bound := int64(60_000+35_000*max(1, len(sw.trackers))) + sw.diskLag
	r.p.run(func() {
		for {
			err := r.srv.Stop()
			if err != nil && !r.startRet && theNet.listeners[cl.key()] != nil && theNet.listeners[cl.key()].node == r.p.node {
				// "not started": the port was opened a moment ago
				time.Sleep(100 * time.Millisecond)
				continue
			}
			note("%s: Stop %d returned %v", cl.name, n, err)
			break
		}
		done = true
		r.stopDone++
		if r.stopDoneAt == 0 {
			r.stopDoneAt = nowMs()
			if l := theNet.listeners[cl.key()]; l != nil && l.node == r.p.node {
				violate("C14", "port-open", "%s: the port is still open when Stop returns", cl.name)
			}
			for _, m := range r.mons {
				if m.est && !m.c.isClosed && !m.c.in.reset && !m.c.out.reset {
					violate("C14", "conns-open-at-return", "%s: the connection %s is still open when Stop returns", cl.name, m)
				}
			}
		}
	})
	if !waitFor(bound, 100, func() bool { return done || r.killed }) && !r.killed {
		violate("C14", "stop-hangs", "%s: Stop has not returned after %d s", cl.name, (nowMs()-at)/1000)
	}
}

// checkStopped verifies that nothing is left of a stopped run.
func (r *crun) checkStopped() {
	cl := r.cl
	if r.killed || r.stopDoneAt == 0 {
		return
	}
	bound := int64(60_000+35_000*max(1, len(cl.sw.trackers))) + cl.sw.diskLag
	if !waitFor(bound, 200, func() bool { return r.startRet || r.killed }) {
		violate("C14", "start-hangs", "%s: Start has not returned %d s after Stop did", cl.name, (nowMs()-r.stopDoneAt)/1000)
		return
	}
	if !waitFor(60_000, 200, func() bool { return r.killed || len(r.openPeerConns()) == 0 }) {
		violate("C14", "conns-open", "%s: %d peer connections are open 60 s after stopping", cl.name, len(r.openPeerConns()))
	}
	if !waitFor(400_000, 1000, func() bool { return r.killed || runtime.SimNodeGoroutines(r.p.node) == 0 }) {
		violate("C14", "goroutines", "%s: %d goroutines are left %d s after stopping", cl.name, runtime.SimNodeGoroutines(r.p.node), (nowMs()-r.stopDoneAt)/1000)
	}
	if r.killed {
		return
	}
	if fds := r.p.openFDs(); len(fds) > 0 {
		violate("C26", "files-open", "%s: stopped, and %d file(s) are open: %q", cl.name, len(fds), fds)
	}
	probe("stop-checked")
	// Exactly one "stopped", and nothing after it
	seen := 0
	for _, a := range r.ann {
		if a.event == "stopped" {
			seen++
		}
	}
	if r.startOK && seen == 0 && r.trackerWorked(r.stopAt) {
		violate("C12", "no-stopped", "%s: stopped without announcing it", cl.name)
	}
}

// trackerWorked reports whether some tracker has answered properly since the
// given time: announces that try all of them reach it.
func (r *crun) trackerWorked(since int64) bool {
	if r.cl.sw.pexPort != 0 {
		return true
	}
	for i, t := range r.cl.sw.trackers {
		if i > 0 && plan.cfg("tiers") == 0 {
			break // the torrent names only the first
		}
		if trackerOutcome(t.mode) == 1 && t.modeAt <= since {
			return true
		}
	}
	return false
}

func (r *crun) openPeerConns() []*simConn {
	var out []*simConn
	for _, c := range theNet.openConns(r.p.node) {
		if !r.cl.sw.isTracker(c.remote) {
			out = append(out, c)
		}
	}
	return out
}

func (cl *client) kill(rst bool, power bool) {
	r := cl.cur
	if r == nil || r.killed {
		return
	}
	r.sample()
	r.killed = true
	fault("crash:kill")
	note("kill %s", cl.name)
	r.p.kill(rst)
	if power {
		fault("crash:power")
		cl.h.fs.powerLoss()
	}
}

// ---------------------------------------------------------------- events

func (sw *swarm) client(name string) *client {
	for _, c := range sw.clients {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (sw *swarm) peer(name string) *peerNode {
	for _, p := range sw.peers {
		if p.name == name {
			return p
		}
	}
	return nil
}

func (sw *swarm) timeline() {
	var ev []Step
	for _, s := range plan.Steps {
		switch s.Kind {
		case "client", "peer", "tracker", "when":
		default:
			ev = append(ev, s)
		}
	}
	sort.SliceStable(ev, func(i, j int) bool { return ev[i].At < ev[j].At })
	heal := int64(plan.cfg("heal"))
	for _, s := range ev {
		if s.At > heal {
			break
		}
		if d := s.At - nowMs(); d > 0 {
			sleepMs(d)
		}
		sw.event(s)
	}
	if d := heal - nowMs(); d > 0 {
		sleepMs(d)
	}
}

func (sw *swarm) after(ms int, f func()) {
	go func() {
		sleepMs(int64(ms))
		f()
	}()
}

// A when step makes something happen as soon as a client sends or receives
// its A-th message of a kind, B ms later. Its S is the kind (">piece" for
// blocks sent, "<choke@p1" for chokes received from p1), the event and the
// event's A, B and S.
type whenStep struct {
	at int
	on string
	do Step
}

func (sw *swarm) addWhen(s Step) {
	f := strings.Fields(s.S)
	if len(f) < 4 {
		harnessError("when %q", s.S)
		return
	}
	if f[1] == "tmode" && len(f) > 5 && trackerOutcome(f[5]) != 1 {
		sw.badTracker = true
	}
	w := whenStep{at: s.A, on: s.Who + f[0], do: Step{At: int64(s.B), Kind: f[1], Who: f[2]}}
	w.do.A, _ = strconv.Atoi(f[3])
	if len(f) > 4 {
		w.do.B, _ = strconv.Atoi(f[4])
	}
	if len(f) > 5 {
		w.do.S = f[5]
	}
	sw.whens = append(sw.whens, w)
}

// trigger is called in the goroutine of a client.
func (sw *swarm) trigger(client, ip, kind string) {
	if len(sw.whens) == 0 || sw.healed {
		return
	}
	who := ""
	for _, p := range sw.peers {
		if p.ip == ip {
			who = p.name
		}
	}
	for _, k := range []string{client + kind, client + kind + "@" + who} {
		sw.counts[k]++
		for _, w := range sw.whens {
			if w.on == k && w.at == sw.counts[k] {
				f := fired{w.do, make(chan bool, 1)}
				select {
				case sw.fire <- f:
					switch w.do.Kind {
					case "drop", "cut", "part", "kill", "stall", "narrow", "down":
						if w.do.At == 0 {
							// just now, before the client goes on
							<-f.done
						}
					}
				default:
				}
			}
		}
	}
}

type fired struct {
	do   Step
	done chan bool
}

// firer executes what was triggered.
func (sw *swarm) firer() {
	for f := range sw.fire {
		s := f.do
		go func() {
			defer func() { f.done <- true }()
			if s.At > 0 {
				sleepMs(s.At)
			}
			if !sw.healed {
				probe("when:" + s.Kind)
				sw.event(s)
			}
		}()
	}
}

// event executes one step.
func (sw *swarm) event(s Step) {
	note("event %s %s a=%d b=%d %s", s.Kind, s.Who, s.A, s.B, s.S)
	cl := sw.client(s.Who)
	p := sw.peer(s.Who)
	switch s.Kind {
	case "start":
		if cl != nil {
			cl.start()
		}
	case "stop": // A: restart after A ms (0: not), B: further concurrent calls
		if cl == nil || cl.cur == nil || cl.cur.killed || cl.cur.stopAt != 0 {
			return
		}
		r := cl.cur
		for k := 0; k < s.B; k++ {
			go r.stop()
		}
		go func() {
			r.stop()
			if s.A > 0 {
				sleepMs(int64(s.A))
				if cl.cur == r && !sw.ending {
					probe("restart")
					cl.start()
				}
			}
			r.checkStopped()
		}()
	case "kill": // A: restart after A ms, B&1: connections fall silent, B&2: power loss
		if cl == nil || cl.cur == nil || cl.cur.killed {
			return
		}
		r := cl.cur
		cl.kill(s.B&1 == 0, s.B&2 != 0)
		if s.A > 0 {
			sw.after(s.A, func() {
				if cl.cur == r && !sw.ending {
					probe("restart")
					cl.start()
				}
			})
		}
	case "choke":
		if p != nil {
			p.choke(true)
		}
	case "unchoke":
		if p != nil {
			p.choke(false)
		}
	case "gain":
		if p != nil && s.A < sw.t.numPieces() {
			p.gain(s.A)
		}
	case "drop": // A: 0 close, 1 reset
		if p != nil {
			fault("peer:drop")
			for _, pc := range p.conns {
				if !pc.dead {
					if s.A == 1 {
						pc.c.abort()
					}
					pc.fail()
				}
			}
		}
	case "down": // B: ms, A: 1 reset
		if p != nil && !p.down {
			p.setDown(true, s.A == 1)
			sw.after(s.B, func() {
				if p.opt["gone"] == 0 && p.down {
					p.setDown(false, false)
				}
			})
		}
	case "gone":
		if p != nil && !p.down {
			p.opt["gone"] = 1
			p.setDown(true, s.A == 1)
		}
	case "dial":
		if p != nil && !p.down {
			for _, c := range sw.clients {
				if c.cur != nil {
					go p.dial(c)
				}
			}
		}
	case "part": // B: ms
		if p != nil {
			for _, c := range sw.clients {
				sw.cut(c.h.ip, p.ip, s.B)
			}
		}
	case "stall": // nothing is delivered in one direction; A: 0 to the peer, 1 from it; B: ms
		if p != nil {
			for _, pc := range p.conns {
				if pc.dead {
					continue
				}
				h := pc.c.in
				if s.A == 1 {
					h = pc.c.out
				}
				fault("net:stall")
				sw.disturb(pc.c)
				h.stalled = true
				sw.after(s.B, func() { h.stalled = false; h.wake() })
			}
		}
	case "narrow": // nothing is delivered to the peer for B ms, and A more bytes are taken
		if p != nil {
			for _, pc := range p.conns {
				if pc.dead {
					continue
				}
				h := pc.c.in
				fault("net:narrow")
				sw.disturb(pc.c)
				was := h.cap
				h.cap = min(h.cap, h.size+s.A)
				h.stalled = true
				sw.after(s.B, func() { h.cap = was; h.stalled = false; h.wake() })
			}
		}
	case "cut": // reset after A more bytes; B: direction
		if p != nil {
			for _, pc := range p.conns {
				if pc.dead {
					continue
				}
				h := pc.c.in
				if s.B == 1 {
					h = pc.c.out
				}
				sw.disturb(pc.c)
				h.cutAt = h.total + int64(s.A)
			}
		}
	case "dialmode":
		if p != nil {
			theNet.dialMode[p.addr()] = s.S
			sw.after(s.B, func() { delete(theNet.dialMode, p.addr()) })
		}
	case "tmode":
		for _, t := range sw.trackers {
			if strings.HasPrefix(t.name, s.Who+".") {
				t.setMode(s.S)
			}
		}
	case "wall": // A: ms
		if cl != nil && cl.cur != nil {
			fault("clock:jump")
			runtime.SimWall(cl.cur.p.node, int64(s.A)*1e6)
		}
	case "acceptfail":
		if cl != nil {
			if l := theNet.listeners[cl.key()]; l != nil {
				l.failing = s.A
			}
		}
	case "diskslow":
		if cl != nil {
			sw.slowDisk = true
			sw.diskLag = max(sw.diskLag, int64(s.A)*int64(sw.t.numPieces()+10)*20/int64(max(1, s.B)))
			cl.h.fs.slowMs, cl.h.fs.slowEvery = int64(s.A), max(1, s.B)
		}
	case "diskfault": // S: op, A: nth, B: count, C: errno
		if cl != nil {
			sw.diskFaults = true
			cl.h.fs.inject(s.S, s.A, s.B, s.C)
		}
	default:
		harnessError("event %q", s.Kind)
	}
}

// cut partitions two addresses for some time.
func (sw *swarm) cut(a, b string, ms int) {
	for _, c := range theNet.conns {
		if c.local.IP.String() == a && c.remote.IP.String() == b {
			sw.disturb(c)
		}
	}
	theNet.partition(a, b, true)
	sw.after(ms, func() { theNet.partition(a, b, false) })
}

func (sw *swarm) sweeper() {
	for !sw.over {
		sleepMs(2500)
		now := nowMs()
		for _, cl := range sw.clients {
			for _, r := range cl.runs {
				if r.killed || r.st == nil {
					continue
				}
				r.sample()
				for _, m := range r.mons {
					m.sweep(now)
				}
				r.checkCadence(now)
				r.checkContact(now)
				if r.startRet && r.stopAt == 0 && !sw.over {
					if r.startErr != nil && !r.started {
						if !sw.diskFaults {
							violate("C05", "start-failed", "%s: Start failed: %v", cl.name, r.startErr)
						}
					} else {
						violate("C05 C14", "ended", "%s: the client ended by itself: Start returned %v", cl.name, r.startErr)
					}
					r.stopAt = now
				}
			}
		}
	}
}

// tell notes that the client has got a list of peers.
func (r *crun) tell(list string) {
	for i := 0; i+6 <= len(list); i += 6 {
		a := net.JoinHostPort(listedIP(list[i:]), strconv.Itoa(int(list[i+4])<<8|int(list[i+5])))
		r.told[a] = append(r.told[a], nowMs())
	}
}

// checkContact requires that a peer that has done nothing wrong and is not
// connected is dialled when trackers list it again and again.
func (r *crun) checkContact(now int64) {
	sw := r.cl.sw
	if sw.stalls || sw.slowDisk || plan.cfg("dead") != 0 || plan.cfg("crowd") != 0 || r.startRet || r.stopAt != 0 || sw.over {
		return
	}
	open := 0
	for _, m := range r.mons {
		if !m.closed && !m.c.isClosed {
			open++
			if m.other != nil {
				delete(r.told, m.other.addr())
			}
			delete(r.told, m.c.dialAddr)
		}
	}
	for _, p := range sw.peers {
		at := r.told[p.addr()]
		if len(at) < 3 || now-at[0] < 60_000 || !p.steady() || open > 40 {
			continue
		}
		same := false // the same peer may be cut off at another address
		for _, q := range sw.peers {
			same = same || q != p && q.id == p.id && q.ip == p.ip && !q.steady()
		}
		if same {
			continue
		}
		props := "C05 C10"
		for _, q := range sw.peers {
			if q.corruptSeen {
				props = "C05 C07 C10"
			}
		}
		violate(props, "not-contacted", "%s: %s is not connected, trackers have listed it %d times in the last %d s, and it has not been dialled", r.cl.name, p.addr(), len(at), (now-at[0])/1000)
		delete(r.told, p.addr())
	}
}

// checkCadence requires announces to go on periodically.
func (r *crun) checkCadence(now int64) {
	sw := r.cl.sw
	if !r.started || r.startRet || r.stopAt != 0 || r.huge() || sw.over {
		return
	}
	slack := int64(45_000+40_000*max(1, len(sw.trackers))) + sw.diskLag
	if sw.stalls {
		slack += 30_000
	}
	since := now - max(r.lastTry, r.startAt)
	if since > int64(max(120, sw.interval)*1000)+slack {
		violate("C11", "no-announces", "%s: no tracker has been tried for %d s", r.cl.name, since/1000)
		r.lastTry = now
	}
	if since > int64(sw.interval)*1000 {
		probe("announce-due")
	}
}

// heal ends all faults: honest peers are up, unchoke and answer.
func (sw *swarm) heal() {
	note("--- faults stop")
	sw.healed = true
	runtime.SimSetStall(0, 0)
	for k := range theNet.parts {
		delete(theNet.parts, k)
	}
	for k := range theNet.dialMode {
		delete(theNet.dialMode, k)
	}
	for _, c := range theNet.conns {
		c.in.wake()
		c.out.wake()
	}
	for _, t := range sw.trackers {
		if plan.cfg("badforever") != 0 {
			break
		}
		t.setMode("ok")
		if plan.cfg("ids") != 0 {
			t.setMode("noncompact")
		}
	}
	for _, p := range sw.peers {
		if p.opt["gone"] != 0 {
			continue
		}
		if p.down {
			p.setDown(false, false)
		}
		if p.kind != "hostile" {
			p.choke(false)
		}
	}
	for _, cl := range sw.clients {
		cl.h.fs.faults = nil
		cl.h.fs.slowMs = 0
		if cl.cur == nil || cl.cur.killed {
			cl.start()
		}
	}
}

// reachable lists the pieces that healthy peers offer a client.
func (sw *swarm) coverage(cl *client) map[int]bool {
	have := map[int]bool{}
	for _, p := range sw.peers {
		if !p.helpful() || p.down {
			continue
		}
		reach := p.opt["listed"] != 0 && !cl.cur.huge() && p.opt["nolisten"] == 0 && p.opt["wrongid"] == 0 || p.opt["redial"] > 0 && p.opt["dials"] == 0
		if !reach || p.opt["nokeep"] != 0 && p.opt["redial"] == 0 {
			continue
		}
		for i := range p.has {
			have[i] = true
		}
	}
	for _, o := range sw.clients {
		if o != cl && !cl.cur.huge() && o.opt["unlisted"] == 0 && o.cur != nil && o.cur.st != nil && o.cur.stopAt == 0 {
			for i := 0; i < sw.t.numPieces(); i++ {
				if o.cur.held(i) {
					have[i] = true
				}
			}
		}
	}
	if cl.cur != nil && cl.cur.st != nil {
		for i := 0; i < sw.t.numPieces(); i++ {
			if cl.cur.held(i) {
				have[i] = true
			}
		}
	}
	return have
}

// finish waits for the downloads.
func (sw *swarm) finish() {
	mutes := 0
	for _, p := range sw.peers {
		if p.opt["evermute"] != 0 || p.kind == "hostile" || p.opt["corrupt"] > 0 {
			mutes++
		}
	}
	bound := int64(300_000 + 4*sw.interval*1000 + sw.t.numPieces()*(mutes+1)*15_000)
	if plan.cfg("dead") > 0 {
		// Which of the listed peers an announce leads to is up to chance
		bound += int64(60 * sw.interval * 1000)
	}
	for _, cl := range sw.clients {
		if cl.cur.stopAt != 0 {
			// It was stopped and may come back.
			r := cl.cur
			waitFor(400_000, 500, func() bool { return cl.cur != r || r.stopDoneAt != 0 })
			if cl.cur == r {
				waitFor(20_000, 500, func() bool { return cl.cur != r })
			}
			if cl.cur == r {
				cl.start()
			}
		}
	}
	for _, cl := range sw.clients {
		r := cl.cur
		if !waitFor(60_000, 50, func() bool { return r.up() || r.startRet }) {
			violate("C05", "not-listening", "%s: the port is not open 60 s after Start", cl.name)
		}
	}
	if len(res.Violations) > 0 {
		return
	}
	if plan.cfg("noliveness") != 0 {
		sleepMs(int64(plan.cfg("tail")))
		if plan.cfg("leave") != 0 {
			sw.probeLeave()
		}
		return
	}
	start := nowMs()
	for _, cl := range sw.clients {
		cl := cl
		r := cl.cur
		if len(sw.coverage(cl)) < sw.t.numPieces() {
			probe("not-covered")
			continue
		}
		ok := waitFor(bound-(nowMs()-start), 250, func() bool {
			return r.st != nil && r.left() == 0 || len(res.Violations) > 0 || r.startRet
		})
		if len(res.Violations) > 0 {
			return
		}
		if !ok {
			violate("C05", "stalled", "%s: %d s after faults stopped %d bytes are still missing although every piece is offered by a reachable honest peer", cl.name, (nowMs()-start)/1000, r.left())
			return
		}
		probe("completed")
		if !sw.diskFaults {
			limit := int64(20_000)
			if sw.stalls {
				limit = 300_000
			}
			if !waitFor(limit, 50, func() bool { return r.waitRet || r.startRet }) {
				violate("C05 C04", "wait-hangs", "%s: everything is downloaded and Torrent.Wait has not returned", cl.name)
			} else if r.waitRet && r.waitErr != nil {
				violate("C05", "wait-error", "%s: everything is downloaded and Torrent.Wait returned %v", cl.name, r.waitErr)
			}
		}
	}
	// Time for announcements and answers to become due
	sleepMs(int64(70_000 + plan.cfg("tail")))
	sw.probeConnect()
	if plan.cfg("leave") != 0 {
		sw.probeLeave()
	}
}

// probeLeave has every peer leave: the client has to be left with what it
// uses when it has met nobody.
func (sw *swarm) probeLeave() {
	if len(res.Violations) > 0 {
		return
	}
	note("--- all peers leave")
	for _, t := range sw.trackers {
		t.setMode("emptypeers")
	}
	for _, p := range sw.peers {
		p.opt["gone"] = 1
		p.setDown(true, true)
	}
	sleepMs(60_000)
	for _, cl := range sw.clients {
		r := cl.cur
		if r.stopAt != 0 || r.killed || r.startRet {
			continue
		}
		most := 0
		least := 1 << 30
		ok := waitFor(300_000, 200, func() bool {
			n := runtime.SimNodeGoroutines(r.p.node)
			least, most = min(least, n), max(most, n)
			return n <= idleGoroutines+6*r.established() && len(r.openPeerConns()) <= len(sw.clients)-1 && len(r.p.openFDs()) == 0
		})
		if !ok {
			violate("C26", "not-released", "%s: %d s after all %d connections of the run were closed by their peers there are %d goroutines or more, %d open connections, open files %q", cl.name, 360, len(r.mons), least, len(r.openPeerConns()), r.p.openFDs())
		}
		if ok && !raceBuild && r.established() == 0 {
			n, c := 0, (*simConn)(nil)
			waitFor(120_000, 1000, func() bool { n, c = endedConns(r.srv); return n == 0 })
			if n != 0 {
				violate("C26", "conn-kept", "%s: everybody left minutes ago and the client still refers to %d connections that ended, such as %d with %s", cl.name, n, c.id, c.remote)
			} else {
				probe("connections-forgotten")
			}
		}
		probe(fmt.Sprintf("idle-goroutines:%02d-%d-%d", least, len(sw.trackers), r.established()))
	}
}

const idleGoroutines = 15

// probeConnect checks that a new honest peer can connect.
func (sw *swarm) probeConnect() {
	for k, cl := range sw.clients {
		r := cl.cur
		if r.stopAt != 0 || r.killed || r.established() >= 40 {
			continue
		}
		ip := fmt.Sprintf("10.0.77.%d", k+1)
		var id [20]byte
		copy(id[:], "-PROBE--------------")
		ok := false
		for try := 0; try < 5 && !ok; try++ {
			c, err := theNet.dial(context.Background(), 0, ip, 0, cl.key(), nowNs()+int64(20*time.Second))
			if err != nil {
				sleepMs(5_000)
				continue
			}
			ps := &btParser{max: 2 << 20}
			c.SetReadDeadline(time.Now().Add(20 * time.Second))
			c.Write(handshakeBytes(sw.t.infohash, id))
			buf := make([]byte, 4096)
			choked := true
			for !ok {
				n, err := c.Read(buf)
				for _, m := range ps.feed(buf[:n]) {
					switch m.id {
					case mBitfield:
						ok = true
					case mUnchoke:
						choked = false
					case mChoke:
						choked = true
					}
				}
				if err != nil {
					break
				}
			}
			if ok {
				probe("probe-connected")
				if plan.cfg("fetch") != 0 {
					sw.probeFetch(r, c, ps, choked)
				}
			}
			c.Close()
			if !ok {
				// Not at the interval at which the client dials many others
				sleepMs(20_000 + int64(try)*3_700)
			}
		}
		if !ok && r.stopAt == 0 {
			if est := r.established(); est < 45 {
				violate("C10", "cannot-connect", "%s: a new honest peer cannot connect although only %d connections are established", cl.name, est)
			}
		}
	}
}

// probeFetch downloads everything the client has told of in its bitfield over
// a new connection.
func (sw *swarm) probeFetch(r *crun, c *simConn, ps *btParser, choked bool) {
	type block struct{ i, b, n int }
	var want []block
	rg := newRng(plan.Seed, "fetch:"+r.cl.name)
	grid := rg.p(60)
	for i := 0; i < sw.t.numPieces(); i++ {
		if !r.held(i) {
			continue
		}
		for b, l := 0, len(sw.t.piece(i)); b < l; {
			n := min(blockLen, l-b)
			if !grid {
				n = rg.in(1, n)
				n = max(n, min(l-b, 3000))
			}
			want = append(want, block{i, b, n})
			b += n
		}
	}
	if rg.p(50) {
		for k := range want {
			x := rg.n(k + 1)
			want[k], want[x] = want[x], want[k]
		}
	}
	// Written independently of reading: the client may answer first
	sendq := make(chan []byte, len(want)*2+64)
	defer close(sendq)
	go func() {
		for b := range sendq {
			c.Write(b)
		}
	}()
	sendq <- msg(mInterested)
	window := pick(rg, 1, 5, 40)
	out := map[block]bool{}
	total := len(want)
	got := 0
	start := nowMs()
	end := start + unchokeMs
	buf := make([]byte, 64<<10)
	for got < total || choked {
		for !choked && len(out) < window && len(want) > 0 {
			x := want[0]
			want = want[1:]
			out[x] = true
			sendq <- msg(mRequest, u32(x.i), u32(x.b), u32(x.n))
		}
		c.SetReadDeadline(time.Now().Add(time.Duration(max(1, end-nowMs())) * time.Millisecond))
		n, err := c.Read(buf)
		for _, m := range ps.feed(buf[:n]) {
			switch m.id {
			case mChoke:
				choked = true
				for x := range out {
					want = append(want, x)
				}
				clear(out)
			case mUnchoke:
				choked = false
				end = nowMs() + 60_000
			case mPiece:
				x := block{m.a, m.b, len(m.data)}
				if out[x] {
					delete(out, x)
					got++
					end = nowMs() + 60_000
				}
				if m.a >= sw.t.numPieces() || m.b+len(m.data) > len(sw.t.piece(m.a)) || !bytes.Equal(m.data, sw.t.piece(m.a)[m.b:m.b+len(m.data)]) {
					violate("C01 C08 C24", "probe-data", "%s: sent the new peer wrong data for %d:%d+%d", r.cl.name, m.a, m.b, len(m.data))
				}
			}
		}
		if r.stopAt != 0 || r.killed || sw.over {
			return
		}
		if err == nil {
			continue
		}
		if choked {
			violate("C24", "not-served", "%s: a new peer that stays connected is not unchoked within %d s (%v)", r.cl.name, (nowMs()-start)/1000, err)
		} else {
			violate("C24", "not-served", "%s: a new peer got %d of the %d blocks the client holds, then nothing (%v)", r.cl.name, got, total, err)
		}
		return
	}
	probe("probe-fetched")
}

// established counts connections.
func (r *crun) established() int {
	est := 0
	for _, m := range r.mons {
		if m.est && !m.closed {
			est++
		}
	}
	return est
}

func (sw *swarm) stopAll() {
	crashProps("C14 C05")
	for _, cl := range sw.clients {
		r := cl.cur
		if r == nil || r.killed || r.startRet && r.stopAt == 0 {
			continue
		}
		if r.stopAt == 0 {
			r.stop()
		}
	}
	if len(res.Violations) > 0 {
		return
	}
	for _, cl := range sw.clients {
		for _, r := range cl.runs {
			r.checkStopped()
		}
	}
}

// final judges what is left on the disks and the totals.
func (sw *swarm) final() {
	for _, cl := range sw.clients {
		fs := cl.h.fs
		r := cl.cur
		if r == nil || r.st == nil {
			continue
		}
		for _, x := range cl.runs {
			if !x.killed && x.srv != nil {
				x.p.made.take()
				up, down := x.srv.Uploaded(), x.srv.Downloaded()
				if up < x.upFull || up > x.upBegun {
					violate("C08 C12", "uploaded", "%s: Uploaded is %d, the blocks sent have between %d and %d bytes", cl.name, up, x.upFull, x.upBegun)
				}
				if min := x.downMin(nowMs()); down < min {
					violate("C12", "downloaded-low", "%s: Downloaded is %d, but pieces of %d bytes were completed since the start", cl.name, down, min)
				}
				if down > x.downMax() {
					violate("C12", "downloaded", "%s: Downloaded is %d, but only %d bytes of requested blocks were received", cl.name, down, x.downMax())
				}
			}
		}
		target := sTarget + "/" + sw.t.name
		if r.left() == 0 && !sw.diskFaults && fs.get(target) == nil {
			violate("C05 C03", "not-published", "%s: everything is downloaded and the target does not exist", cl.name)
		}
		if fs.get(target) != nil {
			for p, want := range sw.t.expected() {
				in := fs.get(sTarget + "/" + p)
				if in == nil || in.dir || !bytes.Equal(in.data, want) {
					violate("C01 C03", "target", "%s: the published %s is not the torrent's content", cl.name, p)
				}
			}
		}
		for i := 0; i < sw.t.numPieces(); i++ {
			if r.held(i) && fs.get(target) == nil {
				r.checkPiece(i)
			}
		}
	}
	if a := runtime.SimSnapshot().MaxAlloc; a > 2<<20 && sw.hostile > 0 {
		violate("C06", "memory", "a single allocation of %d bytes was made", a)
	}
}

// ---------------------------------------------------------------- announces

func (sw *swarm) announced(node int32, q url.Values) {
	r := sw.runOf(node)
	if r == nil || r.killed {
		return
	}
	r.sample()
	cl := r.cl
	now := nowMs()
	r.lastTry = now
	probe("announce")
	num := func(k string) int64 {
		n, err := strconv.ParseInt(q.Get(k), 10, 64)
		if err != nil {
			violate("C12", "field", "%s: announce with %s=%q", cl.name, k, q.Get(k))
		}
		return n
	}
	a := &annRec{at: now, event: q.Get("event"), up: num("uploaded"), down: num("downloaded"), left: num("left")}
	if q.Get("info_hash") != string(sw.t.infohash[:]) || q.Get("peer_id") != string(cl.id[:]) || q.Get("port") != strconv.Itoa(cl.port) {
		violate("C12", "identity", "%s: announce with info_hash %x, peer_id %q, port %q", cl.name, q.Get("info_hash"), q.Get("peer_id"), q.Get("port"))
	}
	var prev *annRec
	if n := len(r.ann); n > 0 {
		prev = r.ann[n-1]
	}
	r.ann = append(r.ann, a)
	if prev == nil && a.event != "started" && !(a.event == "stopped" && (r.trackerDials > 1 || r.firstDial <= r.stopAt+100)) {
		// (an attempt to announce started may have reached no tracker)
		violate("C12", "first-not-started", "%s: the first announce of the run is %q", cl.name, a.event)
	}
	if a.event == "started" && r.startOK {
		violate("C12", "started-twice", "%s: announces started again after that succeeded", cl.name)
	}
	if a.event == "" && !r.startOK && !r.startMaybe {
		violate("C12", "not-started", "%s: announces although started has not succeeded yet", cl.name)
	}
	if prev != nil {
		if a.up < prev.up || a.down < prev.down {
			violate("C12", "decreasing", "%s: totals decreased: uploaded %d -> %d, downloaded %d -> %d", cl.name, prev.up, a.up, prev.down, a.down)
		}
		if a.left > prev.left {
			violate("C12", "left-grew", "%s: left grew from %d to %d", cl.name, prev.left, a.left)
		}
		if prev.event == "stopped" && a.event != "stopped" {
			violate("C12", "after-stopped", "%s: announces %q after stopped", cl.name, a.event)
		}
	}
	if a.event == "stopped" {
		if r.stopAt == 0 {
			violate("C12", "stopped-unasked", "%s: announces stopped without being stopped", cl.name)
		}
		r.stopSeen++
	}
	// The values were taken at most a client timeout ago.
	const win = 20_000
	hi := r.leftBefore(now - win)
	upHi, solHi := r.upBegun, r.downMax()
	past := r.upBefore(now - win)
	if a.up < past.full || a.up > upHi {
		violate("C12 C08", "announced-uploaded", "%s: announces %d bytes uploaded; the blocks sent have between %d and %d bytes", cl.name, a.up, past.full, upHi)
	}
	if min := r.downMin(now - win); a.down < min && !sw.slowDisk {
		violate("C12", "announced-downloaded-low", "%s: announces %d bytes downloaded, but pieces of %d bytes were completed since the start", cl.name, a.down, min)
	}
	if a.down > solHi {
		violate("C12", "announced-downloaded", "%s: announces %d bytes downloaded, received %d", cl.name, a.down, solHi)
	}
	go func() {
		sleepMs(10_000)
		if r.killed {
			return
		}
		r.sample()
		lo := r.left()
		if r.startAt > now-win {
			hi = int64(len(sw.t.data))
		}
		if a.left < lo || a.left > hi {
			violate("C12", "left", "%s: announces left=%d; it was between %d and %d around that time", cl.name, a.left, lo, hi)
		}
		if a.left == 0 && lo != 0 {
			violate("C12", "left-zero", "%s: announces left=0 with %d bytes missing", cl.name, lo)
		}
		if lo == hi {
			probe("left-exact")
		}
	}()
}
