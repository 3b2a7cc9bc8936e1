package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
)

// simNet is the network: TCP-like connections between addresses, with
// latency, fragmentation, bounded buffers, resets, partitions and hosts that
// refuse or swallow connection attempts. It holds no locks: nothing in it can
// be preempted.
type simNet struct {
	rng       *rng
	listeners map[string]*simListener
	conns     []*simConn
	latency   func(a, b string) time.Duration
	parts     map[[2]string]bool
	dns       map[string]string
	dialMode  map[string]string // "ip:port" -> "refuse", "hang", "reset"
	deadHosts map[string]string // ip -> what happens to connections for good: "hang", "refuse", "silent"
	fragMax   int               // largest segment (0: unlimited)
	readMax   int               // largest read (0: unlimited)
	bufSize   int
	nextPort  int
	nextID    int
	onConn    func(client, server *simConn) // before either side can use it
	onDial    func(node int32, from, addr string)
	onListen  func(node int32, addr string, open bool)
}

var theNet *simNet

func newNet(r *rng) *simNet {
	n := &simNet{rng: r, listeners: map[string]*simListener{}, parts: map[[2]string]bool{}, dns: map[string]string{}, dialMode: map[string]string{}, deadHosts: map[string]string{}, bufSize: 64 << 10, nextPort: 40000}
	n.latency = func(a, b string) time.Duration { return time.Millisecond }
	net.SimDial = n.dialHook
	net.SimListen = n.listenHook
	return n
}

func (n *simNet) partitioned(a, b string) bool {
	return n.parts[[2]string{a, b}]
}

// partition cuts (or heals) both directions between two addresses.
func (n *simNet) partition(a, b string, cut bool) {
	if cut {
		fault("net:partition")
		n.parts[[2]string{a, b}] = true
		n.parts[[2]string{b, a}] = true
		return
	}
	delete(n.parts, [2]string{a, b})
	delete(n.parts, [2]string{b, a})
	for _, c := range n.conns {
		if c.local.IP.String() == a && c.remote.IP.String() == b || c.local.IP.String() == b && c.remote.IP.String() == a {
			c.in.wake()
			c.out.wake()
		}
	}
}

// half is one direction of a connection.
type half struct {
	whole    bool // segments are not cut
	n        *simNet
	from, to string // IPs
	segs     []seg
	size     int // bytes written and not yet read
	cap      int
	lastAt   int64
	fin      bool // writer closed
	finAt    int64
	reset    bool
	resetAt  int64
	closed   bool // reader closed
	total    int64
	cutAt    int64 // reset after this many bytes (-1 never)
	stalled  bool  // nothing is delivered
	waiters  []chan struct{}
}

type seg struct {
	b  []byte
	at int64
}

func (h *half) wake() {
	ws := h.waiters
	h.waiters = nil
	for _, w := range ws {
		select {
		case w <- struct{}{}:
		default:
		}
	}
}

// wait blocks until something changes, the time t (0: none) or the deadline.
func (h *half) wait(t int64, deadline int64) {
	ch := make(chan struct{}, 1)
	h.waiters = append(h.waiters, ch)
	at := t
	if deadline != 0 && (at == 0 || deadline < at) {
		at = deadline
	}
	if at == 0 {
		<-ch
		return
	}
	d := at - nowNs()
	if d <= 0 {
		return
	}
	tm := time.NewTimer(time.Duration(d))
	select {
	case <-ch:
	case <-tm.C:
	}
	tm.Stop()
}

func (h *half) blocked() bool { return h.stalled || h.n.partitioned(h.from, h.to) }

// simConn is one end of a connection; it implements net.Conn.
type simConn struct {
	n             *simNet
	id            int
	in, out       *half
	local, remote *net.TCPAddr
	node          int32
	peer          *simConn
	isClosed      bool
	closedAt      int64
	rdl, wdl      int64
	accepted      bool // this is the listening side
	dialAddr      string

	// taps of the wire monitor (called on this end's own operations)
	onReadCall  func()         // a Read began
	onWriteCall func(b []byte) // a Write began
	onWrote     func(b []byte) // bytes accepted by the network
	onRead      func(b []byte) // bytes handed to the reader
	onClose     func()
	onReadErr   func(err error)
	readMax     int
	wmu         []chan struct{}
	writing     bool
}

func (c *simConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

func (c *simConn) Read(p []byte) (int, error) {
	if c.onReadCall != nil && len(p) > 0 {
		c.onReadCall()
	}
	n, err := c.read(p)
	raceWrite(p[:n])
	if err != nil && c.onReadErr != nil {
		c.onReadErr(err)
	}
	return n, err
}

func (c *simConn) read(p []byte) (int, error) {
	h := c.in
	for {
		if c.isClosed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		now := nowNs()
		if c.rdl != 0 && now >= c.rdl {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		var next int64
		if h.reset && (now >= h.resetAt || h.resetAt == 0) {
			return 0, c.opErr("read", sysErr("read", syscall.ECONNRESET))
		}
		if !h.blocked() {
			if len(h.segs) > 0 && h.segs[0].at <= now {
				n := 0
				limit := len(p)
				if m := c.readMax; m > 0 && limit > m {
					limit = 1 + c.n.rng.n(m)
				}
				for n < limit && len(h.segs) > 0 && h.segs[0].at <= now {
					s := &h.segs[0]
					k := copy(p[n:limit], s.b)
					n += k
					s.b = s.b[k:]
					if len(s.b) == 0 {
						h.segs = h.segs[1:]
					}
				}
				h.size -= n
				h.wake()
				if c.onRead != nil {
					c.onRead(p[:n])
				}
				return n, nil
			}
			if len(h.segs) > 0 {
				next = h.segs[0].at
			} else if h.fin {
				if now >= h.finAt {
					return 0, io.EOF
				}
				next = h.finAt
			}
		}
		if h.reset && (next == 0 || h.resetAt < next) {
			next = h.resetAt
		}
		h.wait(next, c.rdl)
	}
}

func (c *simConn) Write(p []byte) (int, error) {
	// Writes on one descriptor are serialised, as by the fd mutex.
	for c.writing {
		ch := make(chan struct{}, 1)
		c.wmu = append(c.wmu, ch)
		<-ch
	}
	c.writing = true
	raceRead(p)
	n, err := c.write(p)
	c.writing = false
	ws := c.wmu
	c.wmu = nil
	for _, w := range ws {
		w <- struct{}{}
	}
	return n, err
}

func (c *simConn) write(p []byte) (int, error) {
	h := c.out
	if c.onWriteCall != nil && !c.isClosed {
		c.onWriteCall(p)
	}
	done := 0
	for {
		if c.isClosed {
			return done, c.opErr("write", net.ErrClosed)
		}
		now := nowNs()
		if c.wdl != 0 && now >= c.wdl {
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if h.reset && now >= h.resetAt {
			return done, c.opErr("write", sysErr("write", syscall.EPIPE))
		}
		if c.in.reset && now >= c.in.resetAt {
			return done, c.opErr("write", sysErr("write", syscall.ECONNRESET))
		}
		if done == len(p) {
			return done, nil
		}
		if h.closed {
			// The other side closed its socket: it will answer with a reset.
			lat := int64(c.n.latency(h.from, h.to)) * 2
			c.setReset(lat)
			return len(p), nil
		}
		if room := h.cap - h.size; room > 0 {
			k := min(room, len(p)-done)
			if h.cutAt >= 0 && h.total+int64(k) > h.cutAt {
				k = int(h.cutAt - h.total)
			}
			b := append([]byte(nil), p[done:done+k]...)
			h.push(b)
			done += k
			if c.onWrote != nil && k > 0 {
				c.onWrote(b)
			}
			if h.cutAt >= 0 && h.total >= h.cutAt {
				fault("net:reset-at-byte")
				note("net: conn %d %s->%s reset after %d bytes", c.id, c.local, c.remote, h.total)
				h.cutAt = -1
				c.setReset(0)
			}
			if done == len(p) {
				return done, nil
			}
			continue
		}
		probe("net:backpressure")
		h.wait(0, c.wdl)
	}
}

// push queues bytes for delivery, cut into segments.
func (h *half) push(b []byte) {
	// Memory of the network is not the client's
	defer runtime.SimSetNode(runtime.SimNode())
	runtime.SimSetNode(0)
	n := h.n
	h.total += int64(len(b))
	h.size += len(b)
	for len(b) > 0 {
		k := len(b)
		if n.fragMax > 0 && k > n.fragMax && !h.whole {
			k = 1 + n.rng.n(n.fragMax)
		}
		at := nowNs() + int64(n.latency(h.from, h.to))
		if at < h.lastAt {
			at = h.lastAt
		}
		h.lastAt = at
		h.segs = append(h.segs, seg{b[:k], at})
		b = b[k:]
	}
	h.wake()
}

// setReset aborts the connection for both sides after d nanoseconds.
func (c *simConn) setReset(d int64) {
	at := nowNs() + d
	for _, h := range []*half{c.in, c.out} {
		if !h.reset {
			h.reset = true
			h.resetAt = at
		}
		h.wake()
	}
}

// abort resets the connection now (a fault, or a hostile peer).
func (c *simConn) abort() { c.setReset(0) }

func (c *simConn) Close() error {
	if c.isClosed {
		return c.opErr("close", net.ErrClosed)
	}
	c.shut()
	return nil
}

func (c *simConn) shut() {
	c.isClosed = true
	c.closedAt = nowNs()
	lat := int64(c.n.latency(c.local.IP.String(), c.remote.IP.String()))
	if !c.out.reset {
		c.out.fin = true
		c.out.finAt = max(c.out.lastAt, nowNs()+lat)
	}
	c.in.closed = true
	if c.in.size > 0 && !c.out.reset {
		// Unread data: the peer sees a reset.
		c.out.reset = true
		c.out.resetAt = max(c.out.lastAt, nowNs()+lat)
	}
	c.in.wake()
	c.out.wake()
	if c.onClose != nil {
		c.onClose()
	}
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(time.Until(t))
	at := nowNs() + d
	if at <= 0 {
		at = 1
	}
	return at
}

func (c *simConn) SetDeadline(t time.Time) error {
	if c.isClosed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl, c.wdl = dl(t), dl(t)
	c.in.wake()
	c.out.wake()
	return nil
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	if c.isClosed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl = dl(t)
	c.in.wake()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	if c.isClosed {
		return c.opErr("set", net.ErrClosed)
	}
	c.wdl = dl(t)
	c.out.wake()
	return nil
}

// alive reports whether neither side has closed or lost the connection.
func (c *simConn) alive() bool {
	return !c.isClosed && !c.peer.isClosed && !c.in.reset && !c.out.reset
}

func (n *simNet) pair(ca, sa *net.TCPAddr, cnode, snode int32) (*simConn, *simConn) {
	ci, si := ca.IP.String(), sa.IP.String()
	up := &half{n: n, from: ci, to: si, cap: n.bufSize, cutAt: -1}
	down := &half{n: n, from: si, to: ci, cap: n.bufSize, cutAt: -1}
	n.nextID++
	c := &simConn{n: n, id: n.nextID, in: down, out: up, local: ca, remote: sa, node: cnode, readMax: n.readMax}
	s := &simConn{n: n, id: n.nextID, in: up, out: down, local: sa, remote: ca, node: snode, accepted: true, readMax: n.readMax}
	c.peer, s.peer = s, c
	n.conns = append(n.conns, c, s)
	return c, s
}

type simListener struct {
	n       *simNet
	addr    *net.TCPAddr
	key     string
	node    int32
	queue   []*simConn
	closed  bool
	waiters []chan struct{}
	failing int // this many of the next Accepts fail with EMFILE
}

func (l *simListener) wake() {
	ws := l.waiters
	l.waiters = nil
	for _, w := range ws {
		select {
		case w <- struct{}{}:
		default:
		}
	}
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.queue) > 0 && l.failing > 0 {
			l.failing--
			fault("net:accept-emfile")
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: sysErr("accept4", syscall.EMFILE)}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		ch := make(chan struct{}, 1)
		l.waiters = append(l.waiters, ch)
		<-ch
	}
}

func (l *simListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	delete(l.n.listeners, l.key)
	for _, c := range l.queue {
		c.isClosed, c.closedAt = true, nowNs()
		c.setReset(0)
		if c.onClose != nil {
			c.onClose()
		}
	}
	l.queue = nil
	l.wake()
	if l.n.onListen != nil {
		l.n.onListen(l.node, l.key, false)
	}
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func (n *simNet) listen(node int32, ip string, port int) (*simListener, error) {
	if port == 0 {
		n.nextPort++
		port = n.nextPort
	}
	a := &net.TCPAddr{IP: net.ParseIP(ip), Port: port}
	key := net.JoinHostPort(ip, strconv.Itoa(port))
	if n.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: a, Err: sysErr("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{n: n, addr: a, key: key, node: node}
	n.listeners[key] = l
	if n.onListen != nil {
		n.onListen(node, key, true)
	}
	return l, nil
}

func (n *simNet) listenHook(ctx context.Context, network, address string) (net.Listener, error) {
	node := runtime.SimNode()
	h := nodeHosts[node]
	if h == nil {
		return nil, errors.New("simnet: no host")
	}
	hs, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: address}}
	}
	_ = hs
	l, err := n.listen(node, h.ip, port)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (n *simNet) dialHook(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	node := runtime.SimNode()
	h := nodeHosts[node]
	if h == nil {
		return nil, errors.New("simnet: no host")
	}
	deadline := int64(0)
	if d != nil && d.Timeout > 0 {
		deadline = nowNs() + int64(d.Timeout)
	}
	if d != nil && !d.Deadline.IsZero() {
		if t := dl(d.Deadline); deadline == 0 || t < deadline {
			deadline = t
		}
	}
	c, err := n.dial(ctx, node, h.ip, 0, address, deadline)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: nil, Err: err}
	}
	return c, nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// dial opens a connection from ip (any address) to address.
func (n *simNet) dial(ctx context.Context, node int32, ip string, fromPort int, address string, deadline int64) (*simConn, error) {
	hs, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: address}
	}
	if x, ok := n.dns[hs]; ok {
		hs = x
	}
	tip := net.ParseIP(hs)
	if tip == nil {
		return nil, &net.DNSError{Err: "no such host", Name: hs, IsNotFound: true}
	}
	hs = tip.String()
	key := net.JoinHostPort(hs, strconv.Itoa(port))
	if n.onDial != nil {
		n.onDial(node, ip, key)
	}
	lat := n.latency(ip, hs)
	limit := nowNs() + int64(127*time.Second)
	if deadline != 0 && deadline < limit {
		limit = deadline
	}
	pause := func(dur time.Duration) error {
		t := time.NewTimer(dur)
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			if errors.Is(ctx.Err(), context.DeadlineExceeded) {
				return timeoutErr{}
			}
			return errors.New("operation was canceled")
		}
	}
	// SYN and SYN-ACK
	start := nowNs()
	for n.dialMode[key] == "hang" || n.deadHosts[hs] == "hang" || n.partitioned(ip, hs) {
		if nowNs() >= limit {
			fault("net:dial-timeout")
			if deadline != 0 && limit == deadline {
				return nil, timeoutErr{}
			}
			return nil, sysErr("connect", syscall.ETIMEDOUT)
		}
		step := time.Second
		if r := time.Duration(limit - nowNs()); r < step {
			step = r
		}
		if err := pause(step); err != nil {
			return nil, err
		}
	}
	if nowNs() > start {
		fault("net:dial-delayed")
	}
	if err := pause(2 * lat); err != nil {
		return nil, err
	}
	if n.dialMode[key] == "refuse" {
		fault("net:dial-refused")
		return nil, sysErr("connect", syscall.ECONNREFUSED)
	}
	if n.deadHosts[hs] == "silent" {
		fault("net:dial-silent")
		n.nextPort++
		ca := &net.TCPAddr{IP: net.ParseIP(ip), Port: n.nextPort}
		c, s := n.pair(ca, &net.TCPAddr{IP: tip, Port: port}, node, 0)
		c.dialAddr = key
		if n.onConn != nil {
			n.onConn(c, s)
		}
		return c, nil
	}
	l := n.listeners[key]
	if l == nil || l.closed || len(l.queue) >= 128 {
		return nil, sysErr("connect", syscall.ECONNREFUSED)
	}
	if fromPort == 0 {
		n.nextPort++
		fromPort = n.nextPort
	}
	ca := &net.TCPAddr{IP: net.ParseIP(ip), Port: fromPort}
	c, s := n.pair(ca, &net.TCPAddr{IP: tip, Port: port}, node, l.node)
	c.dialAddr = key
	if n.onConn != nil {
		n.onConn(c, s)
	}
	if n.dialMode[key] == "reset" {
		fault("net:dial-reset")
		c.setReset(0)
	}
	l.queue = append(l.queue, s)
	l.wake()
	return c, nil
}

// procDied closes what a killed process had open.
func (n *simNet) procDied(p *proc, rst bool) {
	for k, l := range n.listeners {
		if l.node == p.node {
			l.closed = true
			delete(n.listeners, k)
			for _, c := range l.queue {
				c.setReset(0)
			}
		}
	}
	for _, c := range n.conns {
		if c.node != p.node || c.isClosed {
			continue
		}
		c.isClosed = true
		c.closedAt = nowNs()
		if rst {
			c.setReset(int64(n.latency(c.local.IP.String(), c.remote.IP.String())))
		} else {
			c.in.stalled, c.out.stalled = true, true
		}
	}
}

// openConns lists the connections a process has not closed.
func (n *simNet) openConns(node int32) []*simConn {
	var out []*simConn
	for _, c := range n.conns {
		if c.node == node && !c.isClosed {
			out = append(out, c)
		}
	}
	return out
}
