package main

import (
	"context"
	"encoding/binary"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A peerNode is a scripted member of the swarm. What it does is given by its
// options (k=v pairs of a "peer" step):
//
//	kind    seed, leech, hostile
//	has     percentage of the pieces it starts with (100: all)
//	eager   unchokes at once instead of when the client is interested
//	delay   ms before a request is answered
//	corrupt percentage of blocks sent with wrong bytes
//	mute    percentage of requests never answered (before the heal for honest
//	        peers, always when evermute is set)
//	haves   announces by HAVE messages instead of a bitfield
//	lazy    percentage of pieces left out of the bitfield and announced later
//	window  requests outstanding at a time (leech)
//	cancel  percentage of requests canceled at once (leech)
//	redial  ms between attempts to dial a client (0: never)
//	listed  trackers list it
//	nolisten does not accept connections
//	slowread reads with pauses of so many ms
//	keep    seconds between keepalives (45)
//	nokeep  sends no keepalives
//	bounce  dials again as soon as it is disconnected, and now and then
//	        although it is connected; corrupts only the first time
//	wrongid trackers list it with another id
//	script  what a hostile peer does
type peerNode struct {
	sw    *swarm
	name  string
	ip    string
	port  int
	id    [20]byte
	kind  string
	opt   map[string]int
	scr   string
	has   map[int]bool
	r     *rng
	l     *simListener
	conns []*peerConn
	down  bool
	chokd bool // chokes every client for now

	corruptSeen bool // sent corrupt data
	dialsBad    int
	bounces     int
}

func (p *peerNode) addr() string { return net.JoinHostPort(p.ip, strconv.Itoa(p.port)) }

// steady peers keep to the protocol, so nothing gives a client a reason to
// drop them.
func (p *peerNode) steady() bool {
	return p.kind != "hostile" && p.opt["corrupt"] == 0 && p.opt["nokeep"] == 0 && p.opt["wrongid"] == 0
}

// helpful peers answer requests once faults have stopped.
func (p *peerNode) helpful() bool {
	return p.kind != "hostile" && p.opt["corrupt"] == 0 && p.opt["evermute"] == 0 && p.opt["gone"] == 0
}

type outMsg struct {
	at    int64
	b     []byte
	piece bool
	idx   int
}

// peerConn is a scripted peer's end of a connection with a client.
type peerConn struct {
	p        *peerNode
	c        *simConn
	in       btParser
	hs       bool
	out      []outMsg
	outWake  chan struct{}
	amChoke  bool // the peer chokes the client
	clChoke  bool // the client chokes the peer
	clInt    bool
	amInt    bool
	clHas    []byte
	pending  map[[3]int]int64
	next     [][3]int
	wanted   map[int]map[int][]byte // leech: blocks received
	canceled map[[3]int]bool
	dead     bool
	readStop bool
	estab    bool // the client has sent its bitfield
}

func parseOpts(s string) (map[string]int, map[string]string) {
	o, t := map[string]int{}, map[string]string{}
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		if n, err := strconv.Atoi(v); err == nil {
			o[k] = n
		} else {
			t[k] = v
		}
	}
	return o, t
}

func (sw *swarm) addPeer(name, cfg string) *peerNode {
	o, t := parseOpts(cfg)
	p := &peerNode{sw: sw, name: name, opt: o, kind: t["kind"], scr: t["script"], has: map[int]bool{}, r: newRng(plan.Seed, "peer:"+name)}
	p.ip = t["ip"]
	p.port = o["port"]
	if p.port == 0 {
		p.port = 6881
	}
	copy(p.id[:], "-SM0001-"+name+"------------")
	if t["id"] != "" {
		copy(p.id[:], "-SM0001-"+t["id"]+"------------")
	}
	n := sw.t.numPieces()
	if p.opt["has"] >= 100 {
		for i := 0; i < n; i++ {
			p.has[i] = true
		}
	} else if p.opt["has"] > 0 {
		for i := 0; i < n; i++ {
			if p.r.p(p.opt["has"]) {
				p.has[i] = true
			}
		}
	}
	if t["pieces"] != "" {
		for _, f := range strings.Split(t["pieces"], ",") {
			if i, err := strconv.Atoi(f); err == nil && i < n {
				p.has[i] = true
			}
		}
	}
	sw.peers = append(sw.peers, p)
	sw.byAddr[p.addr()] = p
	return p
}

func (p *peerNode) start() {
	if p.opt["nolisten"] == 0 {
		p.listen()
	}
	if ms := p.opt["redial"]; ms > 0 {
		go p.redialLoop(int64(ms))
	}
}

func (p *peerNode) listen() {
	if p.l != nil && !p.l.closed {
		return
	}
	l, err := theNet.listen(0, p.ip, p.port)
	if err != nil {
		harnessError("peer %s: %v", p.name, err)
		return
	}
	p.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p.handle(c.(*simConn))
		}
	}()
}

// setDown takes the host off the network or brings it back.
func (p *peerNode) setDown(down bool, rst bool) {
	p.down = down
	if down {
		fault("peer:down")
		if p.l != nil {
			p.l.Close()
		}
		for _, pc := range p.conns {
			if pc.dead {
				continue
			}
			if rst {
				pc.c.abort()
			} else {
				pc.c.in.stalled, pc.c.out.stalled = true, true
				p.sw.disturb(pc.c)
			}
			pc.dead = true
			pc.kick()
		}
		return
	}
	if p.opt["nolisten"] == 0 {
		p.listen()
	}
}

// connectedTo finds a live connection with a client.
func (p *peerNode) connectedTo(ip string) *peerConn {
	for _, pc := range p.conns {
		if !pc.dead && pc.c.remote.IP.String() == ip {
			return pc
		}
	}
	return nil
}

func (p *peerNode) redialLoop(ms int64) {
	sleepMs(int64(p.r.in(1, 3000)))
	n := 0
	for !p.sw.ending {
		if lim := p.opt["dials"]; lim > 0 && n >= lim {
			return
		}
		for _, cl := range p.sw.clients {
			if p.down || cl.cur == nil || cl.cur.stopAt != 0 && p.kind != "hostile" {
				continue
			}
			if p.kind != "hostile" && p.connectedTo(cl.h.ip) != nil && (p.opt["bounce"] == 0 || p.r.p(60)) {
				continue
			}
			p.dial(cl)
			n++
		}
		sleepMs(ms + int64(p.r.n(int(ms/4)+1)))
	}
}

func (p *peerNode) dial(cl *client) *peerConn {
	c, err := theNet.dial(context.Background(), 0, p.ip, 0, cl.key(), nowNs()+int64(20*time.Second))
	if err != nil {
		return nil
	}
	if p.down || p.sw.over {
		c.abort()
		return nil
	}
	return p.handle(c)
}

// bounce dials again the client that has disconnected.
func (p *peerNode) bounce(pc *peerConn) {
	if p.bounces++; p.bounces > 8 {
		return
	}
	for _, cl := range p.sw.clients {
		if cl.h.ip != pc.c.remote.IP.String() || p.down || p.sw.ending || cl.cur == nil || cl.cur.stopAt != 0 {
			continue
		}
		go func() {
			sleepMs(int64(p.r.n(2)))
			p.dial(cl)
		}()
	}
}

func (p *peerNode) handle(c *simConn) *peerConn {
	pc := &peerConn{p: p, c: c, outWake: make(chan struct{}, 1), amChoke: true, clChoke: true, pending: map[[3]int]int64{}, wanted: map[int]map[int][]byte{}, canceled: map[[3]int]bool{}}
	pc.in.max = 2 << 20
	p.conns = append(p.conns, pc)
	if p.down {
		c.abort()
		pc.dead = true
		return pc
	}
	note("peer %s: connection %d with %s (accepted %v)", p.name, c.id, c.remote, c.accepted)
	if p.kind == "hostile" {
		go pc.hostile()
		return pc
	}
	go pc.writer()
	go pc.reader()
	if p.opt["nokeep"] == 0 {
		go pc.keepalives()
	}
	return pc
}

func (pc *peerConn) kick() {
	select {
	case pc.outWake <- struct{}{}:
	default:
	}
}

func (pc *peerConn) send(b []byte) { pc.sendAt(nowMs(), b, false, 0) }

func (pc *peerConn) sendAt(at int64, b []byte, piece bool, idx int) {
	pc.out = append(pc.out, outMsg{at, b, piece, idx})
	pc.kick()
}

// fail ends the connection.
func (pc *peerConn) fail() {
	pc.dead = true
	if !pc.c.isClosed {
		pc.c.Close()
	}
	pc.kick()
}

func (pc *peerConn) writer() {
	for {
		if pc.dead {
			return
		}
		if len(pc.out) == 0 {
			<-pc.outWake
			continue
		}
		m := pc.out[0]
		if d := m.at - nowMs(); d > 0 {
			sleepMs(min(d, 200))
			continue
		}
		pc.out = pc.out[1:]
		if _, err := pc.c.Write(m.b); err != nil {
			pc.fail()
			return
		}
	}
}

func (pc *peerConn) keepalives() {
	for !pc.dead && !pc.p.sw.over {
		if k := pc.p.opt["keep"]; k != 0 {
			sleepMs(int64(k) * 1000)
		} else {
			sleepMs(45_000)
		}
		if pc.dead {
			return
		}
		pc.send(msg(mKeepalive))
	}
}

func (pc *peerConn) reader() {
	p := pc.p
	pc.send(handshakeBytes(p.sw.t.infohash, p.id))
	buf := make([]byte, 32<<10)
	for {
		if p.opt["slowread"] > 0 {
			buf = buf[:3000]
		}
		n, err := pc.c.Read(buf)
		if err != nil {
			again := p.opt["bounce"] != 0 && !pc.dead
			pc.fail()
			if again {
				p.bounce(pc)
			}
			return
		}
		if pc.dead {
			return
		}
		for _, m := range pc.in.feed(buf[:n]) {
			pc.got(m)
		}
		if ms := p.opt["slowread"]; ms > 0 && !p.sw.healed {
			// The client's writes block half way
			p.sw.disturb(pc.c)
			sleepMs(int64(ms))
			p.sw.disturb(pc.c)
		}
		if pc.in.broken != "" {
			pc.fail()
			return
		}
	}
}

// got handles one message from the client.
func (pc *peerConn) got(m *btMsg) {
	p := pc.p
	n := p.sw.t.numPieces()
	switch m.id {
	case -2:
		pc.hs = true
		pc.clHas = make([]byte, (n+7)/8)
		pc.announceAll()
		if p.opt["eager"] != 0 && !p.chokd {
			pc.setChoke(false)
		}
	case mBitfield:
		pc.estab = true
		copy(pc.clHas, m.data)
		pc.leech()
	case mHave:
		if m.a < n {
			bitSet(pc.clHas, m.a)
		}
		pc.leech()
	case mChoke:
		pc.clChoke = true
		pc.pending = map[[3]int]int64{}
	case mUnchoke:
		pc.clChoke = false
		pc.leech()
	case mInterested:
		pc.clInt = true
		if !p.chokd {
			pc.setChoke(false)
		}
	case mNotInterested:
		pc.clInt = false
	case mRequest:
		pc.answer(m)
	case mCancel:
		for i, o := range pc.out {
			if o.piece && o.idx == m.a && len(o.b) == 13+m.c && int(binary.BigEndian.Uint32(o.b[9:])) == m.b {
				pc.out = append(pc.out[:i:i], pc.out[i+1:]...)
				break
			}
		}
	case mPiece:
		pc.gotPiece(m)
	}
}

func (pc *peerConn) announceAll() {
	p := pc.p
	n := p.sw.t.numPieces()
	now := map[int]bool{}
	var later []int
	for i := 0; i < n; i++ {
		if !p.has[i] {
			continue
		}
		if p.opt["lazy"] > 0 && p.r.p(p.opt["lazy"]) {
			later = append(later, i)
		} else {
			now[i] = true
		}
	}
	if p.opt["haves"] != 0 {
		for _, i := range p.r.perm(n) {
			if now[i] {
				pc.send(msg(mHave, i))
			}
		}
	} else if len(now) > 0 || p.r.p(50) {
		pc.send(msg(mBitfield, bitMake(now, n)))
	}
	for _, i := range later {
		pc.sendAt(nowMs()+int64(p.r.in(1, 5000)), msg(mHave, i), false, 0)
	}
}

// gain gives the peer a piece, announced to everyone.
func (p *peerNode) gain(i int) {
	if p.has[i] {
		return
	}
	p.has[i] = true
	for _, pc := range p.conns {
		if !pc.dead && pc.hs {
			pc.send(msg(mHave, i))
		}
	}
}

func (pc *peerConn) setChoke(choke bool) {
	if !pc.hs || pc.amChoke == choke || pc.dead {
		return
	}
	pc.amChoke = choke
	if choke {
		fault("peer:choke")
		var keep []outMsg
		for _, o := range pc.out {
			if !o.piece {
				keep = append(keep, o)
			}
		}
		pc.out = keep
		pc.send(msg(mChoke))
		return
	}
	pc.send(msg(mUnchoke))
}

// choke makes the peer choke (or unchoke) all clients.
func (p *peerNode) choke(on bool) {
	p.chokd = on
	for _, pc := range p.conns {
		if !pc.dead {
			if on {
				pc.setChoke(true)
			} else if pc.clInt || p.opt["eager"] != 0 {
				pc.setChoke(false)
			}
		}
	}
}

func (pc *peerConn) answer(m *btMsg) {
	p := pc.p
	if pc.amChoke {
		return
	}
	if !p.has[m.a] || m.b+m.c > len(p.sw.t.piece(m.a)) {
		return // the monitor complains about such requests
	}
	healed := p.sw.healed
	if mute := p.opt["mute"]; mute > 0 && (!healed || p.opt["evermute"] != 0) && p.r.p(mute) {
		fault("peer:unanswered")
		return
	}
	data := append([]byte(nil), p.sw.t.piece(m.a)[m.b:m.b+m.c]...)
	if c := p.opt["corrupt"]; c > 0 && p.r.p(c) && (p.opt["bounce"] == 0 || p.bounces == 0) {
		fault("peer:corrupt-block")
		data[p.r.n(len(data))] ^= 1 << p.r.n(8)
		p.corruptSeen = true
	}
	d := int64(p.opt["delay"])
	if d > 0 {
		d = int64(p.r.n(int(d) + 1))
	}
	if healed && p.helpful() {
		d = min(d, 300)
	}
	pc.sendAt(nowMs()+d, msg(mPiece, m.a, m.b, data), true, m.a)
}

// leech sends requests for what the client announced and the peer lacks.
func (pc *peerConn) leech() {
	p := pc.p
	if p.kind != "leech" || pc.dead || !pc.estab {
		return
	}
	t := p.sw.t
	if len(pc.next) == 0 && len(pc.pending) == 0 {
		want := -1
		for _, i := range p.r.perm(t.numPieces()) {
			if !p.has[i] && bitHas(pc.clHas, i) {
				want = i
				break
			}
		}
		if want < 0 {
			return
		}
		if !pc.amInt {
			pc.amInt = true
			pc.send(msg(mInterested))
		}
		if pc.clChoke {
			return
		}
		l := len(t.piece(want))
		step := blockLen
		switch p.opt["odd"] {
		case 1: // any sizes are legal
			step = p.r.in(1, blockLen)
			if l/step > 40 {
				step = l/40 + 1
			}
		case 3: // much at once
			step = min(blockLen, max(1, l/p.r.in(70, 200)))
		case 2:
			step = min(l, 2*blockLen) // some implementations ask for more
		}
		for b := 0; b < l; b += step {
			pc.next = append(pc.next, [3]int{want, b, min(step, l-b)})
		}
		if p.opt["odd"] != 0 {
			for i, j := range p.r.perm(len(pc.next)) {
				pc.next[i], pc.next[j] = pc.next[j], pc.next[i]
			}
		}
	}
	if pc.clChoke {
		return
	}
	win := max(1, p.opt["window"])
	if p.opt["odd"] == 3 {
		win = 200
	}
	for len(pc.pending) < win && len(pc.next) > 0 {
		rq := pc.next[0]
		pc.next = pc.next[1:]
		pc.pending[rq] = nowMs()
		pc.send(msg(mRequest, rq[0], rq[1], rq[2]))
		if c := p.opt["cancel"]; c > 0 && !pc.canceled[rq] && p.r.p(c) {
			// It is asked for again at the end
			pc.canceled[rq] = true
			pc.send(msg(mCancel, rq[0], rq[1], rq[2]))
			delete(pc.pending, rq)
			pc.next = append(pc.next, rq)
			fault("peer:cancel")
		}
		if p.opt["dup"] > 0 && p.r.p(p.opt["dup"]) {
			pc.send(msg(mRequest, rq[0], rq[1], rq[2]))
			fault("peer:duplicate-request")
		}
	}
}

func (pc *peerConn) gotPiece(m *btMsg) {
	p := pc.p
	rq := [3]int{m.a, m.b, len(m.data)}
	delete(pc.pending, rq)
	if p.kind != "leech" || p.has[m.a] {
		pc.leech()
		return
	}
	w := pc.wanted[m.a]
	if w == nil {
		w = map[int][]byte{}
		pc.wanted[m.a] = w
	}
	w[m.b] = m.data
	l := len(p.sw.t.piece(m.a))
	var begins []int
	for b := range w {
		begins = append(begins, b)
	}
	sort.Ints(begins)
	at := 0
	for _, b := range begins {
		if b <= at {
			at = max(at, b+len(w[b]))
		}
	}
	if at >= l {
		delete(pc.wanted, m.a)
		probe("leech-got-piece")
		if p.opt["hide"] == 0 {
			p.gain(m.a)
		} else {
			p.has[m.a] = true
		}
	}
	pc.leech()
}

// complete reports whether the peer has every piece.
func (p *peerNode) complete() bool { return len(p.has) == p.sw.t.numPieces() }
