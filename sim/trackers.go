package main

import (
	"bytes"
	"fmt"
	"net"
	"net/url"
	"strconv"
	"strings"
)

// trackerNode is a scripted HTTP tracker. It speaks HTTP/1.1 by hand on the
// simulated network; what it does with a request is its mode at that time.
type trackerNode struct {
	name   string // host name in the announce URL
	ip     string
	port   int
	mode   string
	modeAt int64
	path   string
	query  string // of the URL: some trackers tell their users apart by it
	l      *simListener
	r      *rng
	reply  func(q url.Values) map[string]any // a proper answer
	// seen is called when a request has been read completely.
	seen func(t *trackerNode, c *simConn, q url.Values, raw string)
	// done is called when the answer has been written.
	done func(t *trackerNode, c *simConn, q url.Values, mode string)
	hits int
}

func newTrackerNode(name, ip string, port int, r *rng) *trackerNode {
	return &trackerNode{name: name, ip: ip, port: port, mode: "ok", path: "/announce", r: r}
}

func (t *trackerNode) url() string {
	u := fmt.Sprintf("http://%s:%d%s", t.name, t.port, t.path)
	if t.query != "" {
		u += "?" + t.query
	}
	return u
}

// dress gives the tracker another kind of URL.
func (t *trackerNode) dress(kind int) {
	switch kind {
	case 1:
		t.query = "passkey=0123abcd" + t.name
	case 2:
		t.query = "uid=7&key=a%20b%26c"
	case 3:
		t.path = "/" + t.name + "/announce.php"
		t.query = "k=v"
	case 4:
		t.path = "/a%2Fb/x"
	}
}

func (t *trackerNode) key() string { return net.JoinHostPort(t.ip, strconv.Itoa(t.port)) }

func (t *trackerNode) start() {
	theNet.dns[t.name] = t.ip
	l, err := theNet.listen(0, t.ip, t.port)
	if err != nil {
		harnessError("tracker listen: %v", err)
		return
	}
	t.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go t.serve(c.(*simConn))
		}
	}()
}

// setMode changes the behaviour from now on.
func (t *trackerNode) setMode(m string) {
	t.mode, t.modeAt = m, nowMs()
	delete(theNet.dialMode, t.key())
	switch m {
	case "refuse", "hang", "reset":
		theNet.dialMode[t.key()] = m
	}
}

// trackerOutcome classifies a mode: 1 the announce must succeed, 0 it must
// fail, 2 either is acceptable.
func trackerOutcome(mode string) int {
	switch mode {
	case "ok", "slowok", "nopeers", "emptypeers", "noncompact", "mapped", "frag", "noid", "warn", "v6", "interval0", "intervalneg", "intervalhuge", "extra", "long":
		return 1
	case "nointerval", "status500ok", "trailing", "dupkey", "unsorted":
		return 2
	}
	return 0
}

var trackerGood = []string{"ok", "ok", "ok", "slowok", "nopeers", "emptypeers", "noncompact", "mapped", "frag", "noid", "warn", "interval0", "intervalneg", "intervalhuge", "extra", "long"}
var floods int // answers without end so far

var trackerBad = []string{"refuse", "hang", "reset", "silent", "sleepy", "drip", "endless", "flood", "failure", "failure200", "html", "empty", "garbage", "truncated", "list", "int", "peersint", "peerslistint", "peersnoip", "peersbadport", "peersportstr", "peers7", "peersnil", "midreset", "close", "shortbody", "hugestr", "negstr", "deep", "intervalstr", "badhttp", "emptyreason"}

func (t *trackerNode) serve(c *simConn) {
	defer func() {
		if !c.isClosed {
			c.Close()
		}
	}()
	var buf []byte
	tmp := make([]byte, 4096)
	for {
		for !bytes.Contains(buf, []byte("\r\n\r\n")) {
			n, err := c.Read(tmp)
			buf = append(buf, tmp[:n]...)
			if err != nil {
				return
			}
		}
		i := bytes.Index(buf, []byte("\r\n\r\n"))
		head := string(buf[:i])
		buf = buf[i+4:]
		line, _, _ := strings.Cut(head, "\r\n")
		f := strings.Fields(line)
		if len(f) != 3 || f[0] != "GET" {
			harnessError("tracker: bad request %q", line)
			return
		}
		path, raw, _ := strings.Cut(f[1], "?")
		q, err := url.ParseQuery(raw)
		if err != nil {
			harnessError("tracker: bad query %q", raw)
		}
		if path != t.path {
			violate("C11", "url", "the torrent lists the tracker %s and the request is for %s", t.url(), path)
		}
		own, _ := url.ParseQuery(t.query)
		known := true
		for k := range own {
			if q.Get(k) != own.Get(k) {
				known = false
				violate("C11", "url", "the torrent lists the tracker %s and the request's %s is %q", t.url(), k, q.Get(k))
			}
		}
		if t.query != "" {
			probe("tracker-url-query")
		}
		t.hits++
		mode := t.mode
		if path != t.path || !known {
			mode = "failure" // as from one that does not know the user
		}
		note("tracker %s: request event=%q left=%s up=%s down=%s -> %s", t.name, q.Get("event"), q.Get("left"), q.Get("uploaded"), q.Get("downloaded"), mode)
		if t.seen != nil {
			t.seen(t, c, q, raw)
		}
		fault0 := func() {
			if trackerOutcome(mode) != 1 || mode == "interval0" || mode == "intervalneg" || mode == "intervalhuge" || mode == "nopeers" {
				fault("tracker:" + mode)
			}
		}
		fault0()
		if !t.answer(c, mode, q) {
			return
		}
		if t.done != nil {
			t.done(t, c, q, mode)
		}
	}
}

func httpReply(status string, body []byte) []byte {
	return append([]byte(fmt.Sprintf("HTTP/1.1 %s\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n", status, len(body))), body...)
}

func (t *trackerNode) answer(c *simConn, mode string, q url.Values) bool {
	good := map[string]any{"interval": 30, "peers": ""}
	if t.reply != nil {
		good = t.reply(q)
	}
	send := func(b []byte) bool {
		_, err := c.Write(b)
		return err == nil
	}
	ok := func(b []byte) bool { return send(httpReply("200 OK", b)) }
	compact, _ := good["peers"].(string)
	asList := func(withID bool) []any {
		out := []any{}
		for i := 0; i+6 <= len(compact); i += 6 {
			ip := listedIP(compact[i:])
			if mode == "mapped" && !strings.Contains(ip, ":") {
				ip = "::ffff:" + ip // another way to write the same address
			}
			d := map[string]any{"ip": ip, "port": int(compact[i+4])<<8 | int(compact[i+5])}
			if withID {
				d["peer id"] = strings.Repeat("x", 20)
				if ids, ok := good["-ids"].(map[string]string); ok {
					if id, ok := ids[compact[i:i+6]]; ok {
						d["peer id"] = id
					}
				}
			}
			out = append(out, d)
		}
		return out
	}
	if mode == "ok" && plan.cfg("spell") != 0 && t.r.p(50) {
		mode = "mapped"
	}
	if mode == "noid" && plan.cfg("ids") != 0 {
		mode = "noncompact"
	}
	body := func(over map[string]any) []byte {
		m := map[string]any{}
		if compact != "" {
			if plan.cfg("ids") != 0 {
				good["peers"] = asList(true) // every list names the ids
			} else if plan.cfg("v6") != 0 {
				good["peers"] = asList(false)
			}
		}
		for k, v := range good {
			if !strings.HasPrefix(k, "-") {
				m[k] = v
			}
		}
		for k, v := range over {
			if v == nil {
				delete(m, k)
			} else {
				m[k] = v
			}
		}
		return benc(m)
	}
	switch mode {
	case "ok":
		return ok(body(nil))
	case "slowok":
		sleepMs(int64(t.r.in(500, 4000)))
		return ok(body(nil))
	case "frag":
		for _, b := range httpReply("200 OK", body(nil)) {
			if !send([]byte{b}) {
				return false
			}
			sleepMs(1)
		}
		return true
	case "nopeers":
		return ok(body(map[string]any{"peers": nil}))
	case "emptypeers":
		return ok(body(map[string]any{"peers": ""}))
	case "noncompact", "mapped":
		return ok(body(map[string]any{"peers": asList(true)}))
	case "noid":
		return ok(body(map[string]any{"peers": asList(false)}))
	case "warn":
		return ok(body(map[string]any{"warning reason": "slow down", "complete": 3, "tracker id": "abc", "min interval": 5}))
	case "long":
		return ok(body(map[string]any{"warning reason": strings.Repeat("w", t.r.in(3000, 20_000))}))
	case "extra":
		return ok(body(map[string]any{"unknown": map[string]any{"a": []any{1, "x"}}, "incomplete": 1}))
	case "interval0":
		return ok(body(map[string]any{"interval": 0}))
	case "intervalneg":
		return ok(body(map[string]any{"interval": -30}))
	case "intervalhuge":
		return ok(body(map[string]any{"interval": 1 << 40}))
	case "nointerval":
		return ok(body(map[string]any{"interval": nil}))
	case "status500ok":
		return send(httpReply("500 Internal Server Error", body(nil)))
	case "trailing":
		return ok(append(body(nil), "junk"...))
	// --- failures
	case "refuse":
		return false
	case "reset":
		c.abort()
		return false
	case "silent", "hang":
		sleepMs(400_000)
		return false
	case "sleepy":
		sleepMs(int64(t.r.in(120_000, 300_000)))
		return ok(body(nil))
	case "drip":
		for _, b := range httpReply("200 OK", body(map[string]any{"pad": strings.Repeat("p", 200)})) {
			if !send([]byte{b}) {
				return false
			}
			sleepMs(1500)
		}
		return false
	case "endless":
		if !send([]byte("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n\r\nd1:a")) {
			return false
		}
		for i := 0; i < 400; i++ {
			if !send(bytes.Repeat([]byte("7"), 2048)) {
				return false
			}
			sleepMs(100)
		}
		return false
	case "flood":
		if floods++; floods > 20 {
			// A run never collects garbage
			return send(httpReply("404 Not Found", nil))
		}
		if !send([]byte("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n\r\n" + pick(t.r, "d1:a", "d5:peers99999999:", "d5:peersl", ""))) {
			return false
		}
		b := bytes.Repeat([]byte("i7e1:x"), 2000)
		from := c.out.total
		c.out.whole = true
		for send(b) {
			if n := c.out.total - from - int64(c.out.size); n > 8<<20 {
				violate("C11", "endless-answer", "the client has taken %d MiB of one answer of a tracker and goes on reading", n>>20)
				return false
			}
			if c.out.closed {
				return false
			}
		}
		return false
	case "failure":
		return send(httpReply("400 Bad Request", benc(map[string]any{"failure reason": "no"})))
	case "failure200":
		return ok(body(map[string]any{"failure reason": "unknown torrent"}))
	case "html":
		return send(httpReply("404 Not Found", []byte("<html>not found</html>")))
	case "empty":
		return ok(nil)
	case "garbage":
		return ok(t.r.bytes(t.r.in(1, 300)))
	case "truncated":
		b := body(nil)
		return ok(b[:t.r.n(len(b))])
	case "list":
		return ok([]byte("le"))
	case "int":
		return ok([]byte("i42e"))
	case "peersint":
		return ok(body(map[string]any{"peers": 5}))
	case "peerslistint":
		return ok(body(map[string]any{"peers": []any{1, 2}}))
	case "peersnoip":
		return ok(body(map[string]any{"peers": []any{map[string]any{"port": 1}}}))
	case "peersbadport":
		return ok(body(map[string]any{"peers": []any{map[string]any{"ip": "10.0.0.77", "peer id": "x"}}}))
	case "peersportstr":
		return ok(body(map[string]any{"peers": []any{map[string]any{"ip": "10.0.0.77", "port": "80", "peer id": "x"}}}))
	case "peers7":
		return ok(body(map[string]any{"peers": "1234567"}))
	case "peersnil":
		return ok(body(map[string]any{"peers": map[string]any{}}))
	case "midreset":
		b := httpReply("200 OK", body(nil))
		send(b[:t.r.n(len(b))])
		c.abort()
		return false
	case "close":
		return false
	case "shortbody":
		b := body(nil)
		send([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b)+50, b)))
		return false
	case "hugestr":
		return ok([]byte("d8:interval999999999999:"))
	case "negstr":
		return ok([]byte("d-5:abcdee"))
	case "deep":
		return ok(append([]byte("d1:a"), bytes.Repeat([]byte("l"), 60000)...))
	case "intervalstr":
		return ok(body(map[string]any{"interval": "soon"}))
	case "badhttp":
		send([]byte("220 smtp ready\r\n\r\n"))
		return false
	case "emptyreason":
		return send([]byte("HTTP/1.1 302 Found\r\nLocation: \r\nContent-Length: 0\r\n\r\n"))
	}
	harnessError("tracker mode %q", mode)
	return false
}

// listedIP is the address that compactOf has encoded.
func listedIP(b string) string {
	if b[0] == 253 {
		return fmt.Sprintf("fd00::%x", int(b[2])<<8|int(b[3]))
	}
	return net.IPv4(b[0], b[1], b[2], b[3]).String()
}

// compactOf encodes IPv4 addresses, and fd00::x as 253.0.x.
func compactOf(addrs []string) string {
	var b []byte
	for _, a := range addrs {
		h, p, err := net.SplitHostPort(a)
		if err != nil {
			continue
		}
		ip := net.ParseIP(h).To4()
		if v6, ok := strings.CutPrefix(h, "fd00::"); ok && plan.cfg("v6") != 0 {
			x, _ := strconv.ParseUint(v6, 16, 16)
			ip = net.IP{253, 0, byte(x >> 8), byte(x)}
		}
		if ip == nil {
			continue
		}
		n, _ := strconv.Atoi(p)
		b = append(b, ip...)
		b = append(b, byte(n>>8), byte(n))
	}
	return string(b)
}
