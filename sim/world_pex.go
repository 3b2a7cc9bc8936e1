package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/pex"
)

// World "pex": the built-in tracker under concurrent announces, with time
// passing, peers expiring, clients that disappear and invalid requests. Its
// answers are compared with a model of the torrents' live peers.
//
// Steps:
//
//	ann   At A=address B=torrent S=options
//	crowd At A=number B=torrent: that many other peers announce
//	wall  At A=ms: the machine's wall clock jumps
func init() { worlds["pex"] = world{genPex, runPex} }

type pexAddr struct {
	ip   string
	port int
}

const pexPorts = 3

var pexIPs = []string{"10.0.1.1", "10.0.1.2", "10.0.1.3", "192.168.7.9", "fd00::1", "2001:db8::7"}

// pexWrite writes an address differently.
func pexWrite(ip string, how int) string {
	switch {
	case how == 1 && !strings.Contains(ip, ":"):
		return "::ffff:" + ip
	case how == 1 && ip == "fd00::1":
		return "FD00:0:0:0::1"
	case how == 1:
		return "2001:0db8:0000::7"
	}
	return ip
}

var pexBad = []string{"unknown", "ip", "iphost", "ipshort", "port0", "portbig", "porthuge", "portneg", "portnone", "portword", "portjunk", "upword", "leftfrac", "downover", "query"}

func genPex(prop string, r *rng, p *Plan) {
	p.set("torrents", r.in(1, 3))
	p.set("ips", r.in(2, len(pexIPs)))
	p.set("ports", r.in(1, pexPorts))
	if r.p(35) {
		p.set("http", 1)
		p.set("lat", pick(r, 1, 10, 200))
		p.set("frag", pick(r, 0, 0, 1, 30))
	}
	ids := r.in(1, 3)
	if r.p(15) {
		// a client at several addresses, or copies of one
		p.set("sameids", 1)
	}
	at := 0
	n := r.in(4, 60)
	crowd := -1
	if r.n(150) == 0 {
		n = r.in(4, 20)
		crowd = r.n(n)
	}
	for i := 0; i < n; i++ {
		switch r.n(10) {
		case 0, 1, 2, 3:
		case 4, 5:
			at += r.in(1, 3)
		case 6, 7:
			at += r.in(100, 20_000)
		case 8:
			at += r.in(55_000, 64_000)
		case 9:
			if r.p(30) {
				at += r.in(60_000, 200_000)
			} else {
				// about when the peers are cleaned up
				at += 60_000 - at%60_000 + r.in(-2, 2)
			}
		}
		if r.p(3) {
			p.add(Step{At: int64(at), Kind: "wall", A: pick(r, -86_400_000, -61_000, 61_000, 3_600_000)})
		}
		o := []string{fmt.Sprintf("id=%d", r.n(ids))}
		if r.p(60) {
			o = append(o, "compact=1")
		} else if r.p(50) {
			o = append(o, "compact=0")
		}
		if e := pick(r, "", "", "", "started", "started", "completed", "stopped", "stopped", "odd"); e != "" {
			o = append(o, "event="+e)
		}
		if r.p(30) {
			o = append(o, "param=1")
		}
		if r.p(25) {
			o = append(o, "write=1")
		}
		if r.p(12) {
			o = append(o, "bad="+pick(r, pexBad...))
		} else if p.cfg("http") != 0 && r.p(6) {
			o = append(o, fmt.Sprintf("abort=%d", r.in(1, 400)))
		} else if p.cfg("http") == 0 && r.p(6) {
			// a client that is slow to read its answer, or does not read it
			o = append(o, fmt.Sprintf("hold=%d", pick(r, 100, 5_000, 30_000, 400_000)))
		}
		if i == crowd {
			b := r.n(p.cfg("torrents"))
			p.add(Step{At: int64(at), Kind: "crowd", A: pick(r, 200, 500, 1001, r.in(1000, 1300)), B: b})
			if r.p(60) {
				// the whole list is sent
				p.add(Step{At: int64(at), Kind: "ann", A: r.n(p.cfg("ips") * p.cfg("ports")), B: b, S: "id=0 compact=0"})
			}
		}
		p.add(Step{At: int64(at), Kind: "ann", A: r.n(p.cfg("ips") * p.cfg("ports")), B: r.n(p.cfg("torrents")), S: strings.Join(o, " ")})
	}
}

type pexOp struct {
	n         int
	torrent   int
	a         pexAddr
	id        string
	event     string
	compact   bool
	bad       string
	abort     bool // the client went away: it may or may not have counted
	quiet     bool // one of a crowd, its answer is not looked at
	call, ret int64
	done      bool
	status    int
	body      []byte
	netErr    error
}

func (o *pexOp) String() string {
	return fmt.Sprintf("announce %d (torrent %d, %s port %d, id %s, event %q, compact %v, at %d ms)", o.n, o.torrent, o.a.ip, o.a.port, o.id, o.event, o.compact, (o.call-startNow)/1e6)
}

type pexRecorder struct {
	h      http.Header
	status int
	body   bytes.Buffer
	hold   int64  // ms that the client takes to read what is written
	wrote  func() // before that
}

func (w *pexRecorder) Header() http.Header { return w.h }
func (w *pexRecorder) WriteHeader(s int) {
	if w.status == 0 {
		w.status = s
	}
}
func (w *pexRecorder) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	n, err := w.body.Write(b)
	if w.hold > 0 {
		w.wrote()
		fault("net:client-does-not-read")
		time.Sleep(time.Duration(w.hold) * time.Millisecond)
	}
	return n, err
}

func pexHash(i int) (h [20]byte) {
	copy(h[:], fmt.Sprintf("torrent-%d-----------", i))
	if i == 1 {
		h[3], h[7], h[19] = 0, '&', 0xff
	}
	return h
}

type pexWorld struct {
	p    *proc
	px   *pex.HTTP
	ops  []*pexOp
	http bool
}

func runPex() {
	crashProps("C13")
	w := &pexWorld{http: plan.cfg("http") != 0}
	lat := newRng(plan.Seed, "latency")
	theNet.latency = func(a, b string) time.Duration {
		return time.Duration(lat.in(1, 1000*max(1, plan.cfg("lat")))) * time.Microsecond
	}
	theNet.fragMax = plan.cfg("frag")
	h := &host{name: "pex", ip: pexIP, rng: newRng(plan.Seed, "host:pex")}
	newFS(h, newRng(plan.Seed, "disk:pex"))
	w.p = newProc(h)
	ready := false
	w.p.run(func() {
		var infos []*metainfo.Info
		for i := 0; i < max(1, plan.cfg("torrents")); i++ {
			infos = append(infos, &metainfo.Info{Name: fmt.Sprint("t", i), SHA1: pexHash(i)})
		}
		w.px = pex.NewHTTP(infos)
		w.p.made.give()
		if w.http {
			l, err := net.Listen("tcp", ":8080")
			if err != nil {
				harnessError("pex: %v", err)
				return
			}
			ready = true
			http.Serve(l, w.px)
		}
		ready = true
	})
	if !waitFor(10_000, 1, func() bool { return ready }) {
		harnessError("pex did not start")
		return
	}
	entries := 0
	if !raceBuild {
		entries = mapEntries(w.px)
	}
	steps := append([]Step(nil), plan.Steps...)
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	for _, s := range steps {
		if d := s.At - nowMs(); d > 0 {
			sleepMs(d)
		}
		switch s.Kind {
		case "wall":
			fault("clock:jump")
			runtime.SimWall(w.p.node, int64(s.A)*1e6)
		case "ann":
			w.announce(s)
		case "crowd":
			w.crowd(s)
		}
	}
	ok := waitFor(120_000, 100, func() bool {
		for _, o := range w.ops {
			if !o.done {
				return false
			}
		}
		return true
	})
	if !ok {
		for _, o := range w.ops {
			if !o.done {
				violate("C13", "no-answer", "%s has not been answered", o)
				return
			}
		}
	}
	for _, o := range w.ops {
		w.judge(o)
	}
	if raceBuild {
		return
	}
	// Nobody announces any more
	if !waitFor(300_000, 10_000, func() bool { return mapEntries(w.px) <= entries }) {
		violate("C26", "peers-kept", "nobody has announced for 5 minutes and the tracker has %d entries more than in the beginning", mapEntries(w.px)-entries)
	} else {
		probe("peers-forgotten")
	}
}

func (w *pexWorld) announce(s Step) {
	oi, os := parseOpts(s.S)
	ips := max(1, plan.cfg("ips"))
	o := &pexOp{n: len(w.ops), torrent: s.B, a: pexAddr{pexIPs[s.A%ips%len(pexIPs)], 6881 + s.A/ips}, event: os["event"], compact: oi["compact"] == 1, bad: os["bad"], abort: oi["abort"] != 0}
	if o.a.port == 6883 {
		o.a.port = 65535
	}
	o.id = fmt.Sprintf("-XX0001-%d-%-10d", oi["id"], s.A)
	if plan.cfg("sameids") != 0 {
		o.id = fmt.Sprintf("-XX0001-%d-%-10d", oi["id"], 0)
	}
	w.ops = append(w.ops, o)
	q := url.Values{"peer_id": {o.id}, "port": {strconv.Itoa(o.a.port)}, "uploaded": {"1"}, "downloaded": {"2"}, "left": {"3"}}
	ih := pexHash(o.torrent)
	q.Set("info_hash", string(ih[:]))
	if c, ok := oi["compact"]; ok {
		q.Set("compact", strconv.Itoa(c))
	}
	if o.event != "" {
		q.Set("event", o.event)
	}
	from := o.a.ip
	if oi["param"] == 1 {
		q.Set("ip", pexWrite(o.a.ip, oi["write"]))
		from = "10.0.99.1"
	}
	switch o.bad {
	case "unknown":
		q.Set("info_hash", "unknown-------------")
	case "ip":
		q.Set("ip", "300.1.1.1")
	case "iphost":
		q.Set("ip", "peer.example.com")
	case "ipshort":
		q.Set("ip", "10.0.1")
	case "port0":
		q.Set("port", "0")
	case "portbig":
		q.Set("port", "65536")
	case "porthuge":
		q.Set("port", strconv.Itoa(65536*3+o.a.port))
	case "portneg":
		q.Set("port", "-1")
	case "portnone":
		q.Del("port")
	case "portword":
		q.Set("port", "http")
	case "portjunk":
		q.Set("port", "6881x")
	case "upword":
		q.Set("uploaded", "many")
	case "leftfrac":
		q.Set("left", "1.5")
	case "downover":
		q.Set("downloaded", "99999999999999999999")
	}
	raw := q.Encode()
	if o.bad == "query" {
		raw += "&numwant=%zz"
	}
	if o.bad != "" {
		fault("invalid:" + o.bad)
	}
	o.call = nowNs()
	note("%s bad=%s %s", o, o.bad, s.S)
	if w.http {
		go w.overHTTP(o, from, raw, oi["abort"])
		return
	}
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: raw}, RemoteAddr: net.JoinHostPort(from, "51234"), Header: http.Header{}}
	rec := &pexRecorder{h: http.Header{}, hold: int64(oi["hold"])}
	rec.wrote = func() {
		if o.done {
			return
		}
		o.status, o.body = rec.status, bytes.Clone(rec.body.Bytes())
		if o.status == 0 {
			o.status = 200
		}
		w.finished(o)
	}
	w.p.run(func() {
		w.px.ServeHTTP(rec, req)
		rec.wrote()
	})
}

// crowd lets many peers announce, one after another.
func (w *pexWorld) crowd(s Step) {
	fault("pex:crowd")
	ih := pexHash(s.B)
	done := false
	w.p.run(func() {
		for i := 0; i < s.A; i++ {
			o := &pexOp{n: len(w.ops), torrent: s.B, a: pexAddr{fmt.Sprintf("10.2.%d.%d", i/250, i%250+1), 7000}, id: fmt.Sprintf("-XX0002-%-12d", i), compact: true, quiet: true, call: nowNs()}
			w.ops = append(w.ops, o)
			q := url.Values{"peer_id": {o.id}, "port": {"7000"}, "info_hash": {string(ih[:])}, "compact": {"1"}}
			rec := &pexRecorder{h: http.Header{}}
			w.px.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: q.Encode()}, RemoteAddr: net.JoinHostPort(o.a.ip, "51234"), Header: http.Header{}})
			o.ret, o.done = nowNs(), true
			o.status = rec.status
		}
		done = true
	})
	waitFor(30_000, 1, func() bool { return done })
}

func (w *pexWorld) finished(o *pexOp) {
	o.ret = nowNs()
	o.done = true
	note("announce %d answered: %d %q", o.n, o.status, o.body)
}

func (w *pexWorld) overHTTP(o *pexOp, from, raw string, abort int) {
	defer func() {
		if !o.done {
			w.finished(o)
		}
	}()
	c, err := theNet.dial(context.Background(), 0, from, 0, net.JoinHostPort(pexIP, "8080"), nowNs()+int64(30*time.Second))
	if err != nil {
		o.netErr = err
		return
	}
	defer c.Close()
	req := []byte("GET /announce?" + raw + " HTTP/1.1\r\nHost: pex.test\r\nConnection: close\r\n\r\n")
	if abort > 0 {
		fault("net:client-aborts")
		c.Write(req[:min(abort, len(req))])
		if abort%2 == 0 {
			c.abort()
		}
		return
	}
	if _, err := c.Write(req); err != nil {
		o.netErr = err
		return
	}
	res, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		o.netErr = err
		return
	}
	o.body, o.netErr = io.ReadAll(res.Body)
	o.status = res.StatusCode
}

// judge compares an answer with the model.
func (w *pexWorld) judge(x *pexOp) {
	if x.abort || x.quiet {
		return
	}
	if x.netErr != nil {
		violate("C13", "no-answer", "%s got no answer: %v", x, x.netErr)
		return
	}
	v, n, err := bdec(x.body)
	d, _ := v.(map[string]any)
	if x.bad != "" {
		probe("invalid-announce")
		if x.status == 200 && (d == nil || d["failure reason"] == nil) {
			violate("C13", "accepted", "%s is invalid (%s) and was answered %d %q", x, x.bad, x.status, x.body)
		}
		if d != nil && d["peers"] != nil {
			violate("C13", "accepted", "%s is invalid (%s) and was answered with peers", x, x.bad)
		}
		return
	}
	probe("announce")
	if x.status != 200 || err != nil || n != len(x.body) || d == nil || d["failure reason"] != nil {
		violate("C13", "bad-answer", "%s was answered %d %q", x, x.status, x.body)
		return
	}
	if k, ok := d["interval"].(int); !ok || k <= 0 {
		violate("C13", "bad-answer", "%s was answered without an interval: %q", x, x.body)
	}
	type entry struct {
		n  int
		id string
	}
	got := map[pexAddr]*entry{}
	put := func(ip net.IP, port int, id string) {
		a := pexAddr{ip.String(), port}
		if got[a] == nil {
			got[a] = &entry{}
		}
		got[a].n++
		got[a].id = id
	}
	switch peers := d["peers"].(type) {
	case string:
		if !x.compact || len(peers)%6 != 0 {
			violate("C13", "bad-format", "%s was answered with %q", x, x.body)
			return
		}
		for i := 0; i < len(peers); i += 6 {
			put(net.IPv4(peers[i], peers[i+1], peers[i+2], peers[i+3]), int(peers[i+4])<<8|int(peers[i+5]), "")
		}
	case []any:
		if x.compact {
			violate("C13", "bad-format", "%s was answered with %q", x, x.body)
			return
		}
		for _, e := range peers {
			m, _ := e.(map[string]any)
			ips, _ := m["ip"].(string)
			port, ok := m["port"].(int)
			id, ok2 := m["peer id"].(string)
			ip := net.ParseIP(ips)
			if m == nil || ip == nil || !ok || !ok2 {
				violate("C13", "bad-format", "%s was answered with %q", x, x.body)
				return
			}
			put(ip, port, id)
		}
	default:
		violate("C13", "bad-format", "%s was answered with %q", x, x.body)
		return
	}
	for a, e := range got {
		if e.n > 1 {
			violate("C13", "twice", "%s: %s:%d is listed %d times", x, a.ip, a.port, e.n)
		}
		if !w.hasWrites(x.torrent, a) {
			violate("C13", "stranger", "%s: %s:%d is listed and never announced itself there", x, a.ip, a.port)
		}
		if a == x.a {
			violate("C13", "itself", "%s: the peer itself is listed", x)
		}
	}
	seen := map[pexAddr]bool{x.a: true}
	for _, o := range w.ops {
		if o.torrent != x.torrent || o.bad != "" || seen[o.a] {
			continue
		}
		seen[o.a] = true
		e := got[o.a]
		may := w.allowed(x, o.a)
		id := "absent"
		if e != nil {
			id = e.id
			probe("listed")
		}
		if !may[id] {
			violate("C13", "wrong-list", "%s: %s:%d is %q in the answer, it must be one of %q", x, o.a.ip, o.a.port, id, keysOf(may))
		}
		if len(may) == 1 && may["absent"] {
			probe("must-be-absent")
		}
	}
}

func keysOf(m map[string]bool) []string { return sortedKeys(m) }

func (w *pexWorld) hasWrites(t int, a pexAddr) bool {
	for _, o := range w.ops {
		if o.torrent == t && o.a == a && o.bad == "" {
			return true
		}
	}
	return false
}

// allowed lists how address a may appear in the answer to x: "absent", or the
// peer id it is listed with ("" in compact lists).
func (w *pexWorld) allowed(x *pexOp, a pexAddr) map[string]bool {
	const minute = int64(60 * time.Second)
	var ws []*pexOp
	for _, o := range w.ops {
		if o.torrent == x.torrent && o.a == a && o.bad == "" && o.call <= x.ret && o.netErr == nil {
			ws = append(ws, o)
		}
	}
	out := map[string]bool{}
	before := false
	for _, o := range ws {
		end := o.ret
		if o.abort {
			end = 1 << 62
		}
		if !o.abort && o.ret < x.call {
			before = true
		}
		over := false
		for _, o2 := range ws {
			if !o2.abort && end < o2.call && o2.ret < x.call || o.abort && !o2.abort && o.ret+int64(20*time.Second) < o2.call && o2.ret < x.call {
				over = true
			}
		}
		if over {
			continue
		}
		if o.abort {
			end = o.ret + int64(20*time.Second)
		}
		id := o.id
		if x.compact {
			id = ""
			if strings.Contains(a.ip, ":") {
				out["absent"] = true
				continue
			}
		}
		if o.event == "stopped" {
			out["absent"] = true
			continue
		}
		if x.call-end > minute {
			out["absent"] = true
			probe("expired")
			continue
		}
		out[id] = true
		if x.ret-o.call >= minute {
			out["absent"] = true
		}
	}
	if !before {
		out["absent"] = true
	}
	return out
}
