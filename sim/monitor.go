package main

import (
	"bytes"
	"fmt"
)

// A mon watches one end of a connection that belongs to a client: what it
// writes, what the network took, what it read, when it closes. The oracles of
// the wire-level properties live here.
type mon struct {
	run   *crun
	c     *simConn
	other *peerNode // nil: another client, or a stranger
	probe bool      // the harness's own probe connection

	opened   int64
	intent   btParser // what the client asked to be written
	recv     btParser // what the client has read
	asked    int64    // bytes passed to Write
	accepted int64    // bytes the network took
	gap      bool     // a Write was cut short

	hsIn      *btMsg
	hsAt      int64
	hsHeld    []byte // pieces held when the handshake was read
	est       bool
	estAt     int64
	closed    bool
	closedAt  int64
	readErrAt int64
	gone      int64 // the remote end was gone (0: not)
	disturbed bool

	remoteChokes bool
	chokePending bool
	lastChoke    int64
	announced    map[int]bool
	annPending   bool // announcements read and perhaps not processed yet
	interested   bool
	unchoked     bool
	chokedAt     int64 // told so (0: from the start)
	lateUnchoke  bool
	wantsAt      int64         // the peer declared interest (0: it has none)
	offers       map[int]int64 // when pieces were announced
	unchokedAt   int64         // by the peer (0: it chokes)
	lastReq      int64
	lostInterest int64
	idleTold     bool
	told         map[int]bool
	reqIn        []*reqIn
	att          map[int]*attempt
	asks         map[[3]int]int   // requests sent and not answered
	again        map[[3]int]int64 // when a block came that an earlier fetch had asked for
	early        map[[3]int]*earlyBlock
	readAt       int64 // when the client last read
	spokeAt      int64 // when the network last took bytes
	silent       bool  // silence was reported
	lasted       bool
	writeAt      int64 // when the Write in progress began (0: none)
	slowWriteAt  int64 // when a Write last took long
	busyAt       int64 // when a Write last had to wait

	pieces    []pieceOut
	misbehave bool // the remote end broke the protocol
	namedBad  bool // dialled under a wrong id

	alts []string // further addresses at which the client met this peer
}

type reqIn struct {
	idx, begin, n int
	at            int64
	valid         bool
	canceled      bool
	done          bool
	late          bool
}

type pieceOut struct {
	end  int64
	n    int
	full bool
}

// attempt is one fetch of a piece over one connection.
type attempt struct {
	piece   int
	start   int64
	last    int64
	reqs    map[int]*reqOut
	dead    bool // choked or timed out
	deadAt  int64
	fuzzy   bool
	expect  int64 // the connection must be closed by then (corrupt data)
	corrupt bool
}

type reqOut struct {
	at, answered int64
	n            int
	corrupt      bool
}

// giveUp is the age from which a request may have been given up.
func (sw *swarm) giveUp() int64 {
	if sw.stalls {
		// A stall may lie between the start of a timeout and the request
		if plan.Sched.Stall > 500 || plan.Sched.HotMod != 0 {
			return 0
		}
		return 1_500
	}
	return 9_500
}

func (a *attempt) kill(now int64) {
	if !a.dead {
		a.dead, a.deadAt = true, now
	}
}

func (a *attempt) active(m *mon, now int64) bool {
	if a.dead || a.fuzzy || m.chokePending || m.closed || m.slowWriteAt >= a.start || m.readErrAt != 0 || m.c.in.reset || m.c.out.reset || m.c.peer.isClosed {
		return false
	}
	open := false
	for _, r := range a.reqs {
		if r.answered == 0 {
			if now-r.at >= m.run.cl.sw.giveUp() {
				return false
			}
			open = true
		}
	}
	return open
}

// skipMs is how long a request may have been pending unsent: a block that
// arrives meanwhile answers it and nothing is sent.
func (m *mon) skipMs() int64 {
	if m.run.cl.sw.stalls || m.writeAt != 0 || m.slowWriteAt != 0 {
		return earlyMs
	}
	return 50
}

func (m *mon) String() string {
	return fmt.Sprintf("conn %d of %s with %s", m.c.id, m.run.cl.name, m.c.remote)
}

func (sw *swarm) watch(run *crun, c *simConn) *mon {
	m := &mon{run: run, c: c, opened: nowMs(), remoteChokes: true, announced: map[int]bool{}, offers: map[int]int64{}, told: map[int]bool{}, asks: map[[3]int]int{}, again: map[[3]int]int64{}, early: map[[3]int]*earlyBlock{}, att: map[int]*attempt{}}
	m.intent.max = 4 << 20
	m.recv.max = 0
	run.mons = append(run.mons, m)
	c.onReadCall = m.readCall
	c.onRead = m.read
	c.onWriteCall = m.writeCall
	c.onWrote = m.wrote
	c.onClose = m.onClosed
	c.onReadErr = func(err error) {
		if m.readErrAt == 0 {
			m.readErrAt = nowMs()
		}
	}
	if c.dialAddr != "" {
		m.other = sw.byAddr[c.dialAddr]
		m.namedBad = m.other != nil && m.other.opt["wrongid"] != 0 && sw.idsListed
		if at, ok := run.blocked[c.dialAddr]; ok && nowMs() > at+sw.slack() {
			violate("C07", "redialled", "%s dialled %s again %d ms after cutting it off for corrupt data", run.cl.name, c.dialAddr, nowMs()-at)
		}
	}
	return m
}

// slack is how much later than its cause an effect may be noticed.
func (sw *swarm) slack() int64 {
	if sw.stalls {
		return 10_000
	}
	return 1_000
}

// change records that availability, connections or choking changed: the
// rarest-first oracle looks only at quiet moments.
func (m *mon) change() { m.run.lastChange = nowMs() }

func (m *mon) readCall() {
	m.run.sample()
	m.readAt = nowMs()
	if m.chokePending {
		m.chokePending = false
		m.remoteChokes = true
		for _, a := range m.att {
			a.kill(nowMs())
		}
	}
	if m.annPending {
		m.annPending = false
		m.change()
	}
}

func (m *mon) read(b []byte) {
	m.run.sample()
	for _, x := range m.recv.feed(b) {
		m.gotMsg(x)
	}
}

func (m *mon) gotMsg(x *btMsg) {
	run := m.run
	sw := run.cl.sw
	n := sw.t.numPieces()
	now := nowMs()
	note("%s#%d <- %s", run.cl.name, m.c.id, x)
	sw.trigger(run.cl.name, m.c.remote.IP.String(), "<"+x.kind())
	if x.bad != "" || !m.validMsg(x) {
		m.misbehave = true
	}
	switch x.id {
	case -2:
		m.hsIn, m.hsAt = x, now
		m.hsHeld = run.heldBits()
		if m.other == nil {
			// who is it?
			for _, p := range sw.peers {
				if p.ip == m.c.remote.IP.String() && p.id == x.peerID {
					m.other = p
				}
			}
		}
	case mChoke:
		m.chokePending = true
		m.lastChoke = max(1, now)
		m.unsent()
		m.unchokedAt = 0
		for _, a := range m.att {
			a.kill(now)
		}
		m.change()
	case mUnchoke:
		m.remoteChokes, m.chokePending = false, false
		if m.unchokedAt == 0 {
			m.unchokedAt = now
		}
	case mInterested:
		if m.wantsAt == 0 {
			m.wantsAt = now
		}
	case mNotInterested:
		m.wantsAt = 0
	case mHave:
		if x.a < n {
			m.offer(x.a, now)
			m.annPending = true
			m.change()
		}
	case mBitfield:
		for i := 0; i < n; i++ {
			if bitHas(x.data, i) {
				m.offer(i, now)
			}
		}
		m.annPending = true
		m.change()
	case mRequest:
		r := &reqIn{idx: x.a, begin: x.b, n: x.c, at: now}
		r.valid = x.a < n && x.c > 0 && x.c <= 2*blockLen && x.b+x.c <= len(sw.t.piece(x.a)) && run.held(x.a) && m.unchoked && m.est
		m.reqIn = append(m.reqIn, r)
	case mCancel:
		for _, r := range m.reqIn {
			if !r.done && r.idx == x.a && r.begin == x.b && r.n == x.c {
				r.canceled = true
			}
		}
	case mPiece:
		if k := [3]int{x.a, x.b, len(x.data)}; m.asks[k] > 0 {
			m.asks[k]--
			run.solicited += int64(len(x.data))
			if a := m.att[x.a]; a == nil || a.reqs[x.b] == nil || a.reqs[x.b].answered != 0 {
				// It may answer a request of the next fetch, on its way too
				m.again[k] = max(1, now)
			}
		} else {
			e := &earlyBlock{at: now, n: len(x.data), m: m, piece: x.a}
			if a := m.att[x.a]; a != nil && now-a.last < m.skipMs() {
				e.maybe = true
			}
			run.early = append(run.early, e)
			m.early[k] = e
		}
		a := m.att[x.a]
		if a == nil {
			return
		}
		r := a.reqs[x.b]
		if r == nil || r.answered != 0 || r.n != len(x.data) {
			return
		}
		r.answered = now
		if now-r.at >= sw.giveUp() {
			a.kill(now)
		}
		if !bytes.Equal(x.data, sw.t.piece(x.a)[x.b:x.b+r.n]) {
			r.corrupt = true
			a.corrupt = true
		}
		if len(a.reqs) == sw.t.numBlocks(x.a) && !a.dead && !a.fuzzy && a.corrupt && m.slowWriteAt < a.start && !sw.diskFaults {
			all := true
			for _, r := range a.reqs {
				all = all && r.answered != 0
			}
			if all {
				a.expect = now + 30_000
				probe("corrupt-piece-supplied")
			}
		}
	}
}

// validMsg reports whether an honest peer may send this.
func (m *mon) validMsg(x *btMsg) bool {
	n := m.run.cl.sw.t.numPieces()
	switch x.id {
	case mHave:
		return x.a < n
	case mBitfield:
		return len(x.data) == (n+7)/8
	}
	return true
}

func (m *mon) writeCall(b []byte) {
	m.run.sample()
	if len(b) == 0 {
		return
	}
	m.writeAt = nowMs()
	m.asked += int64(len(b))
	for _, x := range m.intent.feed(b) {
		if x.bad != "" {
			violate("C15", "malformed", "%s: sent %s", m, x.bad)
			continue
		}
		m.sending(x)
	}
	if m.intent.broken != "" {
		violate("C15", "framing", "%s: the outgoing stream is broken: %s", m, m.intent.broken)
		m.intent.broken = ""
		m.intent.buf = nil
	}
}

func (m *mon) wrote(b []byte) {
	m.accepted += int64(len(b))
	m.spokeAt = nowMs()
	if m.writeAt != 0 && nowMs()-m.writeAt > 2 {
		m.busyAt = nowMs()
	}
	if m.writeAt != 0 && nowMs()-m.writeAt > 20 {
		m.slowWriteAt = nowMs()
		m.change()
	}
	for i := range m.pieces {
		p := &m.pieces[i]
		if !p.full && m.accepted >= p.end {
			p.full = true
			m.run.upFull += int64(p.n)
		}
	}
	if m.accepted == m.asked {
		m.writeAt = 0
	}
}

func (m *mon) sending(x *btMsg) {
	run := m.run
	sw := run.cl.sw
	t := sw.t
	note("%s#%d -> %s", run.cl.name, m.c.id, x)
	sw.trigger(run.cl.name, m.c.remote.IP.String(), ">"+x.kind())
	if m.asked-m.accepted > int64(x.raw) && !m.gap && m.c.alive() {
		// An earlier message was cut short and more is being written
		m.gap = true
		violate("C15", "after-partial", "%s: %s is written although %d bytes before it never were", m, x, m.asked-m.accepted-int64(x.raw))
	}
	if x.id != -2 && !m.est && x.id != mBitfield {
		violate("C09", "first-message", "%s: the first message after the handshake is %s", m, x)
	}
	switch x.id {
	case -2:
		if x.infohash != t.infohash || x.peerID != run.cl.id {
			violate("C10", "handshake", "%s: wrong info hash or peer id in the handshake", m)
		}
	case mBitfield:
		m.sentBitfield(x)
	case mHave:
		if x.a >= t.numPieces() || !run.held(x.a) {
			violate("C09 C01", "have-not-held", "%s: %s although the piece is not held", m, x)
		}
		m.told[x.a] = true
	case mChoke:
		m.unchoked = false
		m.chokedAt = nowMs()
	case mUnchoke:
		m.unchoked = true
	case mInterested:
		m.interested = true
	case mNotInterested:
		m.interested = false
		m.lostInterest = nowMs()
	case mRequest:
		m.sentRequest(x)
	case mPiece:
		probe("block-served")
		if m.other != nil && m.other.kind == "hostile" {
			probe("block-served-to-hostile")
		}
		m.pieces = append(m.pieces, pieceOut{end: m.asked, n: len(x.data)})
		run.upBegun += int64(len(x.data))
		if !m.unchoked {
			violate("C08", "piece-while-choked", "%s: %s sent while the peer is choked", m, x)
		}
		var match *reqIn
		for _, r := range m.reqIn {
			if !r.done && r.idx == x.a && r.begin == x.b && r.n == len(x.data) && (match == nil || match.canceled && !r.canceled) {
				match = r
			}
		}
		if match == nil {
			violate("C08", "unsolicited", "%s: %s was not requested (or was answered before)", m, x)
		} else {
			match.done = true
		}
		want := t.piece(x.a)
		if x.b+len(x.data) > len(want) || !bytes.Equal(x.data, want[x.b:x.b+len(x.data)]) {
			violate("C08 C01", "wrong-data", "%s: %s carries wrong data", m, x)
		}
		if !run.held(x.a) {
			violate("C08 C01", "piece-not-held", "%s: %s sent although the piece is not held", m, x)
		}
	}
}

func (m *mon) sentBitfield(x *btMsg) {
	run := m.run
	sw := run.cl.sw
	n := sw.t.numPieces()
	if m.est {
		violate("C09", "second-bitfield", "%s: a second bitfield is sent", m)
		return
	}
	m.est, m.estAt = true, nowMs()
	m.change()
	probe("established")
	if m.hsIn == nil {
		violate("C10", "no-handshake", "%s: established before the peer's handshake was read", m)
	} else {
		if m.hsIn.infohash != sw.t.infohash {
			violate("C10", "wrong-infohash", "%s: established with a peer of another torrent", m)
		}
		if m.hsIn.peerID == run.cl.id {
			violate("C10", "self", "%s: established with a peer that has the client's own id", m)
		}
		if m.namedBad {
			violate("C10", "wrong-id", "%s: established although the tracker named another id for %s", m, m.c.dialAddr)
		}
		total := 0
		open := []*mon{}
		for _, o := range run.mons {
			if !o.est || o.closed || o.c.isClosed {
				continue
			}
			total++
			open = append(open, o)
			if o != m && o.hsIn != nil && o.hsIn.peerID == m.hsIn.peerID && o.c.remote.IP.Equal(m.c.remote.IP) {
				run.stillOpen([]*mon{m, o}, func() {
					violate("C10", "duplicate", "%s: a second connection with the same peer (%s is open)", m, o)
				})
			}
		}
		if total > 50 {
			run.stillOpen(open, func() {
				violate("C10", "too-many", "%s: %d connections are established", m, total)
			})
		}
		if total > run.maxEst {
			run.maxEst = total
		}
	}
	if run.stopDoneAt != 0 {
		violate("C14", "established-after-stop", "%s: established after Stop returned", m)
	}
	if len(x.data) != (n+7)/8 {
		violate("C09", "bitfield-size", "%s: bitfield of %d bytes for %d pieces", m, len(x.data), n)
	}
	for i := 0; i < 8*len(x.data); i++ {
		has := bitHas(x.data, i)
		if i >= n {
			if has {
				violate("C09", "spare-bits", "%s: spare bit %d of the bitfield is set", m, i)
			}
			continue
		}
		if has && !run.held(i) {
			violate("C09 C01", "bitfield-not-held", "%s: the bitfield announces piece %d, which is not held", m, i)
		}
		if !has && bitHas(m.hsHeld, i) {
			violate("C09", "bitfield-missing", "%s: the bitfield lacks piece %d, which was held before the handshake", m, i)
		}
		if has {
			m.told[i] = true
		}
	}
}

func (m *mon) sentRequest(x *btMsg) {
	run := m.run
	sw := run.cl.sw
	t := sw.t
	now := nowMs()
	probe("block-requested")
	m.lastReq = now
	if x.a >= t.numPieces() {
		violate("C17", "no-such-piece", "%s: %s", m, x)
		return
	}
	if m.remoteChokes {
		violate("C17", "request-while-choked", "%s: %s while the peer chokes the client", m, x)
	}
	if !m.announced[x.a] {
		violate("C17", "not-announced", "%s: %s although the peer has not announced the piece", m, x)
	}
	// A late block may complete a piece that has been chosen again
	if at, ok := run.heldAt[x.a]; ok && now-at > 1_000 && (!sw.stalls || now-at > earlyMs) {
		violate("C17", "already-held", "%s: %s although the piece is held", m, x)
	}
	if !m.interested {
		violate("C17", "not-interested", "%s: %s without having declared interest", m, x)
	}
	l := len(t.piece(x.a))
	if x.b%blockLen != 0 || x.b >= l || x.c != min(blockLen, l-x.b) {
		violate("C17", "off-grid", "%s: %s is not a block of the piece (%d bytes)", m, x, l)
	}
	for _, o := range run.mons {
		if o == m || sw.diskFaults {
			continue
		}
		if a := o.att[x.a]; a != nil && a.active(o, now) {
			violate("C17", "two-peers", "%s: %s while the piece is being fetched over %s", m, x, o)
		}
	}
	a := m.att[x.a]
	fresh := false
	if a == nil || a.dead || a.reqs[x.b] != nil {
		// It may be the last request of a fetch that is being given up
		left := a != nil && a.dead && (sw.stalls || now-a.deadAt < 1_000)
		// or of one that began before the peer choked and unchoked
		left = left || m.lastChoke != 0 && now-m.lastChoke < m.skipMs()
		a = &attempt{piece: x.a, start: now, reqs: map[int]*reqOut{}, fuzzy: left}
		m.att[x.a] = a
		fresh = true
		probe("fetch-started")
	}
	a.reqs[x.b] = &reqOut{at: now, n: x.c}
	k := [3]int{x.a, x.b, x.c}
	if e := m.early[k]; e != nil && !e.used && now-e.at < earlyMs {
		// The block was there before the request, which it may have answered
		e.used = true
		run.solicited += int64(x.c)
		a.reqs[x.b].answered = now
		a.fuzzy = true
	} else {
		m.asks[k]++
		if at := m.again[k]; at != 0 && now-at < earlyMs {
			delete(m.again, k)
			a.reqs[x.b].answered = now
			a.fuzzy = true
		}
	}
	for _, e := range run.early {
		if e.m == m && e.piece == x.a && now-e.at < m.skipMs() {
			e.maybe = true
		}
	}
	a.last = now
	run.lastFetch[x.a] = now
	open := 0
	for _, r := range a.reqs {
		if r.answered == 0 && now-r.at < max(1, sw.giveUp()) {
			open++
		}
	}
	if open == 16 {
		probe("window-full")
	}
	if open > 16 {
		violate("C17", "too-many-outstanding", "%s: %s is the %dth outstanding request of the fetch", m, x, open)
	}
	if fresh {
		m.checkRarest(x.a)
	}
}

const quiet = 60 // ms

// checkRarest judges the choice of piece i, made just now for this peer. It
// looks only at choices made while nothing else changed.
func (m *mon) checkRarest(i int) {
	run := m.run
	sw := run.cl.sw
	now := nowMs()
	prevFetch := map[int]int64{}
	for k, v := range run.lastFetch {
		prevFetch[k] = v
	}
	if sw.stalls || sw.slowDisk || sw.diskFaults || now-run.lastChange < quiet {
		return
	}
	for _, o := range run.mons {
		if o.annPending || o.writeAt != 0 && now-o.writeAt > 1 && !o.closed && o.c.writing {
			return
		}
		if o.busyAt != 0 && now-o.busyAt < 5_000 && !o.closed {
			return // requests for pieces chosen for it may wait for others
		}
	}
	counts := map[int]int{}
	for _, o := range run.mons {
		if o.est && !o.closed && (o.gone != 0 || o.c.peer.isClosed || o.c.in.reset || o.c.out.reset) {
			return // the client may not know yet
		}
		if o.est && !o.closed {
			for j := range o.announced {
				counts[j]++
			}
		}
	}
	var cand []int
	for j := 0; j < sw.t.numPieces(); j++ {
		if j == i || !m.announced[j] || run.held(j) {
			continue
		}
		if at, ok := prevFetch[j]; ok && now-at < 12_000 {
			continue
		}
		cand = append(cand, j)
	}
	if len(cand) == 0 {
		return
	}
	change := run.lastChange
	go func() {
		sleepMs(quiet)
		if run.lastChange != change {
			return
		}
		probe("rarest-judged")
		for _, j := range cand {
			if run.lastFetch[j] != prevFetch[j] {
				continue // chosen at the same time
			}
			if counts[j] < counts[i] {
				violate("C18", "not-rarest", "%s: started to fetch piece %d, announced by %d connected peers, although piece %d is announced by %d and idle", m, i, counts[i], j, counts[j])
				return
			}
			if counts[j] > counts[i] {
				probe("rarest-nontrivial")
			}
		}
	}()
}

// unsent allows for blocks that answered requests that will not be sent any
// more.
func (m *mon) unsent() {
	for _, e := range m.run.early {
		if e.m == m && nowMs()-e.at < m.skipMs() {
			e.maybe = true
		}
	}
}

func (m *mon) onClosed() {
	m.unsent()
	now := nowMs()
	m.closed, m.closedAt = true, now
	m.change()
	run := m.run
	note("%s closes conn %d (established %v)", run.cl.name, m.c.id, m.est)
	sw := run.cl.sw
	for _, a := range m.att {
		if a.expect != 0 {
			if m.c.dialAddr != "" {
				run.blocked[m.c.dialAddr] = now
				probe("corrupter-cut-off")
			}
			for _, addr := range m.alts {
				run.blocked[addr] = now
				probe("corrupter-cut-off-elsewhere")
			}
		}
	}
	m.met()
	m.refused()
	if !m.est || m.disturbed || m.misbehave || run.stopAt != 0 || run.killed || sw.diskFaults || sw.over {
		return
	}
	p := m.c.peer
	if p.isClosed || m.c.in.reset || m.c.out.reset || m.c.in.fin {
		return
	}
	if m.other == nil {
		m.parted()
		return
	}
	if !m.other.steady() {
		return
	}
	if now-m.estAt > 100_000 {
		probe("long-connection-closed")
	}
	props := "C28 C06"
	for _, q := range sw.peers {
		if q.corruptSeen {
			props = "C28 C07 C06"
		}
	}
	for _, r := range m.reqIn {
		if r.valid && !r.done && !r.canceled {
			props += " C08"
			break
		}
	}
	violate(props, "honest-dropped", "%s: the client closed an established connection with %s, which did nothing wrong", m, m.other.name)
}

// parted judges that the client closed its connection with another client of
// the repository, which reads and writes.
func (m *mon) parted() {
	sw := m.run.cl.sw
	them := sw.runOf(m.c.peer.node)
	if them == nil || them == m.run || them.stopAt != 0 || them.killed || sw.stalls || m.writeAt != 0 || m.slowWriteAt != 0 {
		return
	}
	for _, o := range them.mons {
		if o.c == m.c.peer && (!o.est || o.writeAt != 0 || o.slowWriteAt != 0) {
			return
		}
	}
	violate("C28", "parted", "%s: the client closed an established connection with another client, which did nothing wrong", m)
}

// stuck judges two clients that send to each other.
func (m *mon) stuck(now int64) {
	sw := m.run.cl.sw
	const limit = 15_000
	if m.silent || m.other != nil || m.writeAt == 0 || now-m.writeAt < limit || now-m.readAt < limit || sw.stalls || sw.slowDisk || sw.diskFaults {
		return
	}
	them := sw.runOf(m.c.peer.node)
	if them == nil || them == m.run || them.stopAt != 0 || them.killed {
		return
	}
	for _, o := range them.mons {
		if o.c == m.c.peer && !o.disturbed && o.writeAt != 0 && now-o.writeAt >= limit && now-o.readAt >= limit {
			m.silent, o.silent = true, true
			violate("C28 C05 C06", "stuck", "%s: for %d s both clients have been sending and neither has read", m, limit/1000)
		}
	}
}

// long notes that a connection lasted.
func (m *mon) long() {
	if !m.lasted {
		m.lasted = true
		probe("connection-lasted")
	}
}

// silenceMs is how long a client may send nothing to a peer, which may then
// take it for dead.
const silenceMs = 120_000

// met records that the client dialled a peer it is connected with, and
// refused that second connection.
func (m *mon) met() {
	if m.est || m.c.dialAddr == "" || m.hsIn == nil || m.namedBad || m.run.stopAt != 0 {
		return
	}
	var same *mon
	total := 0
	for _, o := range m.run.mons {
		if o.closed || o.c.isClosed {
			continue
		}
		total++
		if o.est && o.estAt < m.hsAt && o.hsIn != nil && o.hsIn.peerID == m.hsIn.peerID && o.c.remote.IP.Equal(m.c.remote.IP) {
			same = o
		}
	}
	if same != nil && total < 45 {
		same.alts = append(same.alts, m.c.dialAddr)
	}
}

// stillOpen calls f unless one of the connections is about to be closed: who
// closes it may have been overtaken on the way to doing so.
func (r *crun) stillOpen(ms []*mon, f func()) {
	d := int64(1)
	if r.cl.sw.stalls {
		d = 20_000
	}
	go func() {
		sleepMs(d)
		for _, o := range ms {
			if o.closed || o.c.isClosed || o.c.in.reset || o.c.out.reset {
				return
			}
		}
		if !r.killed && !r.cl.sw.over {
			f()
		}
	}()
}

// refused checks a connection that the client closes after the handshake: it
// must have had a reason.
func (m *mon) refused() {
	run := m.run
	sw := run.cl.sw
	now := m.closedAt
	if m.est || m.hsIn == nil || m.namedBad || m.hsIn.infohash != sw.t.infohash || m.hsIn.peerID == run.cl.id ||
		run.stopAt != 0 || run.killed || sw.over || now-m.opened > 5_000 || sw.slowDisk {
		return
	}
	if m.c.peer.isClosed || m.c.in.reset || m.c.out.reset || m.c.in.fin {
		return
	}
	const lag = 40_000 // a connection that ended may be known until then
	total := 0
	for _, o := range run.mons {
		if o == m || o.closed && now-o.closedAt > lag {
			continue
		}
		total++
		if o.hsIn != nil && o.hsIn.peerID == m.hsIn.peerID && o.c.remote.IP.Equal(m.c.remote.IP) {
			return
		}
	}
	probe("refusal-judged")
	if total < 45 {
		violate("C10", "refused", "%s: closed after the handshake although that peer is not connected, nor was within the last %d s", m, lag/1000)
	}
}

func (m *mon) offer(i int, now int64) {
	m.announced[i] = true
	if m.offers[i] == 0 {
		m.offers[i] = max(1, now)
	}
}

// idleMs is how long a peer that offers what is missing may be left alone: a
// request is given up after 10 s and the next attempt follows within 5 s. A
// peer that does not read may hold up an attempt for another 30 s.
func (r *crun) idleMs() int64 {
	d := int64(35_000)
	if r.cl.sw.stalls || r.cl.sw.hostile > 0 {
		d = 60_000
	}
	for _, o := range r.mons {
		if o.est && (!o.closed || nowMs()-o.closedAt < d) && (o.disturbed || o.other != nil && o.other.opt["slowread"] > 0) {
			d += 30_000
		}
	}
	return d
}

// idle checks that a peer that offers missing pieces is made use of: it is told
// of the client's interest, and when it unchokes it is asked for one of them
// unless others are being asked for them all.
func (m *mon) idle(now int64, hostile string) {
	run := m.run
	sw := run.cl.sw
	idleMs := run.idleMs()
	if m.idleTold || m.other == nil || !m.other.steady() || sw.diskFaults || sw.slowDisk || now-m.estAt <= idleMs {
		return
	}
	missing, free := -1, -1
	for i, at := range m.offers {
		if run.held(i) || now-at <= idleMs {
			continue
		}
		missing = max(missing, i)
		last, ok := run.lastFetch[i]
		if !ok || now-last > idleMs {
			free = max(free, i)
		}
	}
	if missing < 0 {
		return
	}
	probe("useful-peer-judged")
	if !m.interested && now-m.lostInterest > idleMs {
		m.idleTold = true
		violate("C25 C05"+hostile, "no-interest", "%s: the peer announced piece %d at least %d s ago, it is missing, and the client has declared no interest", m, missing, idleMs/1000)
	}
	if free < 0 || m.unchokedAt == 0 || now-m.unchokedAt <= idleMs || now-m.lastReq <= idleMs {
		return
	}
	m.idleTold = true
	violate("C25 C05"+hostile, "left-idle", "%s: the peer unchokes the client and offers piece %d, which is missing; for %d s nobody was asked for it and this peer for nothing", m, free, idleMs/1000)
}

// unchokeMs is how long a healthy peer may stay choked: a round of unchoking
// starts every 10 s and a peer that does not read holds one up for 30 s.
const unchokeMs = 75_000

// sweep checks what must have happened by now.
func (m *mon) sweep(now int64) {
	run := m.run
	sw := run.cl.sw
	if run.killed {
		return
	}
	if m.gone == 0 && (m.c.peer.isClosed || m.c.in.reset || m.c.out.reset) {
		m.gone = now
		m.change()
	}
	if m.closed || m.c.isClosed {
		return
	}
	if !m.est && now-m.opened > 40_000+sw.diskLag && !m.disturbed {
		violate("C10", "not-closed", "%s: neither established nor closed after %d s", m, (now-m.opened)/1000)
		m.est, m.estAt = true, now // once
		return
	}
	if m.gone != 0 {
		if now-m.gone > 180_000 && !sw.slowDisk {
			violate("C10", "finished-not-closed", "%s: the peer is gone for %d s and the client has not closed the connection", m, (now-m.gone)/1000)
			m.gone = now + 1<<40
		}
		return
	}
	for _, a := range m.att {
		if a.expect != 0 && now > a.expect && !m.disturbed {
			violate("C07", "corrupter-kept", "%s: the peer supplied a corrupt piece %d at least 30 s ago and is still connected", m, a.piece)
			a.expect = 0
		}
	}
	if m.disturbed || !m.est || m.probe || run.stopAt != 0 {
		return
	}
	limit := silenceMs + sw.slack()
	if sw.stalls {
		limit *= 2
	}
	if since := now - max(m.spokeAt, m.estAt); since > limit && !m.silent && m.writeAt == 0 {
		m.silent = true
		violate("C28", "silent", "%s: the client has sent nothing for %d s", m, since/1000)
	}
	m.stuck(now)
	if now-m.estAt > 2*silenceMs {
		m.long()
	}
	if m.other != nil && (m.other.kind == "hostile" || m.other.down) {
		return
	}
	hostile := ""
	if sw.hostile > 0 {
		hostile = " C06"
	}
	answerMs := int64(60_000)
	if sw.stalls || sw.slowDisk {
		answerMs = 240_000 // clients ask again every 10 s, for more than can be sent meanwhile
	}
	for _, r := range m.reqIn {
		if r.valid && !r.done && !r.canceled && !r.late && now-r.at > answerMs+sw.diskLag {
			r.late = true
			violate("C08"+hostile, "unanswered", "%s: the request for %d:%d+%d was not answered within %d s", m, r.idx, r.begin, r.n, (now-r.at)/1000)
		}
	}
	if since := now - max(m.estAt, m.chokedAt, m.wantsAt); m.wantsAt != 0 && !m.unchoked && !m.lateUnchoke && since > unchokeMs+sw.diskLag {
		m.lateUnchoke = true
		violate("C24"+hostile, "not-unchoked", "%s: the peer is interested and has been choked for %d s", m, since/1000)
	}
	m.idle(now, hostile)
	toldMs := int64(60_000)
	if !sw.stalls && !sw.slowDisk && !sw.diskFaults {
		toldMs = 20_000 // others' troubles must not delay it
	}
	toldMs += sw.diskLag
	for i := 0; i < sw.t.numPieces(); i++ {
		at, ok := run.heldAt[i]
		if ok && !m.told[i] && now-max(at, m.estAt) > toldMs {
			violate("C09"+hostile, "not-told", "%s: piece %d is held for %d s and was not announced on this connection", m, i, (now-max(at, m.estAt))/1000)
			m.told[i] = true
		}
	}
}
