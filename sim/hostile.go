package main

// Hostile peers: each connection runs one script.

var hostileScripts = []string{
	"nohs", "shorths", "slowhs", "badproto", "wronghash", "selfid", "zeroid",
	"hugelen", "maxlen", "shortpl", "emptypl", "longpl", "unknown", "badhave", "badbitfield", "badrequest", "hugerequest",
	"unsolicited", "unsolicited-all", "cancelflood", "flap", "interestflood", "stallread", "slowloris", "midcut", "latebits",
	"randmsgs", "randbytes", "liar", "liarlen", "liardup", "liarother", "vanish", "requestchoked", "keepflood", "havesflood", "halfclose", "piecebomb", "choketrap",
}

// hostileRead consumes what the client sends.
func (pc *peerConn) hostileRead(f func(m *btMsg)) {
	buf := make([]byte, 16<<10)
	for {
		n, err := pc.c.Read(buf)
		if err != nil {
			pc.fail()
			return
		}
		for _, m := range pc.in.feed(buf[:n]) {
			if m.id == mUnchoke {
				pc.clChoke = false
			}
			if m.id == mInterested {
				pc.clInt = true
			}
			if f != nil {
				f(m)
			}
		}
	}
}

func (pc *peerConn) hostile() {
	p := pc.p
	r := p.r
	t := p.sw.t
	n := t.numPieces()
	c := pc.c
	note("hostile %s: conn %d runs %s", p.name, c.id, p.scr)
	fault("hostile:" + p.scr)
	w := func(b []byte) bool {
		if pc.dead {
			return false
		}
		if _, err := c.Write(b); err != nil {
			pc.fail()
			return false
		}
		return true
	}
	hs := handshakeBytes(t.infohash, p.id)
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	full := msg(mBitfield, bitMake(all, n))
	linger := func(ms int64) {
		for e := nowMs() + ms; nowMs() < e && !pc.dead && !p.sw.over; {
			sleepMs(500)
		}
		pc.fail()
	}
	corrupt := func(i, b, l int) []byte {
		d := r.bytes(l)
		if i >= 0 && i < n && b >= 0 && b+l <= len(t.piece(i)) {
			copy(d, t.piece(i)[b:b+l])
			if l > 0 {
				d[r.n(l)] ^= 0x41
			}
		}
		return d
	}
	randMsg := func() []byte {
		wild := func() int { return pick(r, r.n(n), r.n(n), n, n+7, 1<<31, 1<<32-1, 0, 1<<24) }
		switch r.n(14) {
		case 0:
			return msg(mKeepalive)
		case 1:
			return msg(mChoke)
		case 2, 3:
			return msg(mUnchoke)
		case 4:
			return msg(mInterested)
		case 5:
			return msg(mNotInterested)
		case 6:
			return msg(mHave, wild())
		case 7:
			return msg(mBitfield, r.bytes(pick(r, (n+7)/8, (n+7)/8, 0, 1, (n+7)/8+3)))
		case 8:
			return msg(mRequest, wild(), pick(r, 0, blockLen, 1, wild()), pick(r, blockLen, 1, 0, wild()))
		case 9:
			i := r.n(n)
			b := r.n(t.numBlocks(i))
			d := t.block(i, b)
			return msg(mPiece, i, b*blockLen, corrupt(i, b*blockLen, len(d)))
		case 10:
			return msg(mPiece, wild(), wild(), r.bytes(r.n(200)))
		case 11:
			return msg(mCancel, wild(), wild(), wild())
		case 12:
			return msg(r.in(9, 255), r.bytes(r.n(30)))
		}
		return msg(pick(r, mChoke, mUnchoke, mInterested, mNotInterested, mHave, mRequest, mCancel, mPiece, mBitfield), r.bytes(r.n(17)))
	}
	start := func() bool {
		go pc.hostileRead(nil)
		return w(hs)
	}
	switch p.scr {
	case "nohs":
		linger(300_000)
	case "shorths":
		go pc.hostileRead(nil)
		w(hs[:r.in(1, 67)])
		linger(pick(r, int64(100), 200_000))
	case "slowhs":
		go pc.hostileRead(nil)
		for _, b := range hs {
			if !w([]byte{b}) {
				return
			}
			sleepMs(int64(r.in(200, 2000)))
		}
		linger(60_000)
	case "badproto":
		go pc.hostileRead(nil)
		b := append([]byte(nil), hs...)
		switch r.n(4) {
		case 0:
			b = r.bytes(68)
		case 1:
			b[0] = byte(r.n(256))
		case 2:
			b[r.in(1, 19)] ^= 0x20
		case 3:
			b = append([]byte("GET / HTTP/1.1\r\n\r\n"), r.bytes(80)...)
		}
		w(b)
		linger(60_000)
	case "wronghash":
		go pc.hostileRead(nil)
		h := t.infohash
		h[r.n(20)] ^= 1
		w(handshakeBytes(h, p.id))
		w(full)
		w(msg(mUnchoke))
		linger(60_000)
	case "selfid":
		go pc.hostileRead(nil)
		for _, cl := range p.sw.clients {
			if cl.h.ip == c.remote.IP.String() {
				w(handshakeBytes(t.infohash, cl.id))
			}
		}
		w(full)
		w(msg(mUnchoke))
		linger(60_000)
	case "zeroid":
		go pc.hostileRead(nil)
		w(handshakeBytes(t.infohash, [20]byte{}))
		w(full)
		linger(30_000)
	case "hugelen":
		if start() && w(full) && w(msg(mUnchoke)) {
			l := pick(r, 0xffffffff, 0x7fffffff, 0x80000000, 1<<26, 1<<24)
			w(append(u32(l), byte(pick(r, 5, 7, 20))))
			for k := 0; k < 20 && w(r.bytes(1000)); k++ {
				sleepMs(50)
			}
		}
		linger(200_000)
	case "maxlen":
		if start() {
			w(append(u32(pick(r, 1<<20, 1<<20-1, 1<<19)), byte(pick(r, 5, 7, 20))))
			for k := 0; k < 200 && w(r.bytes(200)); k++ {
				sleepMs(100)
			}
		}
		linger(150_000)
	case "shortpl", "emptypl", "longpl":
		if start() && w(full) {
			id := pick(r, mHave, mRequest, mPiece, mCancel, mBitfield, mChoke)
			l := r.in(1, 11)
			if p.scr == "emptypl" {
				l = 0
			}
			if p.scr == "longpl" {
				l = r.in(13, 60)
			}
			for k := 0; k < 3; k++ {
				w(msg(id, make([]byte, l)))
			}
		}
		linger(60_000)
	case "unknown":
		if start() && w(full) {
			for k := 0; k < 30; k++ {
				if !w(msg(r.in(9, 255), r.bytes(r.n(400)))) {
					break
				}
				sleepMs(20)
			}
		}
		linger(60_000)
	case "badhave":
		if start() {
			w(msg(mHave, pick(r, n, n+1, 8*((n+7)/8), 1<<31, 1<<31-1, 1<<32-1)))
		}
		linger(60_000)
	case "badbitfield":
		if start() {
			k := (n + 7) / 8
			b := r.bytes(pick(r, 0, 1, k+1, k*3+8, k, 5000))
			if len(b) == k && len(b) > 0 {
				b[k-1] |= 1 // a spare bit, usually
			}
			w(msg(mBitfield, b))
		}
		linger(60_000)
	case "badrequest", "hugerequest":
		if start() && w(msg(mInterested)) {
			for k := 0; pc.clChoke && k < 60 && !pc.dead; k++ {
				sleepMs(500)
			}
			for k := 0; k < 5; k++ {
				a, b, l := r.n(n), 0, blockLen
				if p.scr == "hugerequest" {
					l = pick(r, 1<<32-1, 1<<31, 1<<30, 1<<28)
					b = pick(r, 0, 0, 1<<32-1, 1<<31)
				} else {
					switch r.n(5) {
					case 0:
						a = pick(r, n, n+1, 1<<31, 1<<32-1)
					case 1:
						b = pick(r, len(t.piece(a)), len(t.piece(a))+1, 1<<31, 1<<32-1)
					case 2:
						l = len(t.piece(a)) + r.in(1, 100)
					case 3:
						l = 0
					case 4:
						b, l = len(t.piece(a))-1, 2
					}
				}
				if !w(msg(mRequest, a, b, l)) {
					break
				}
				sleepMs(100)
			}
		}
		linger(60_000)
	case "unsolicited", "unsolicited-all":
		if start() && w(full) && w(msg(mUnchoke)) {
			for k := 0; k < 40 && !pc.dead; k++ {
				for _, i := range r.perm(n) {
					for b := 0; b < t.numBlocks(i); b++ {
						d := t.block(i, b)
						if p.scr == "unsolicited" && r.p(70) {
							continue
						}
						at := b * blockLen
						l := len(d)
						if r.p(10) {
							at += r.in(-1, 1)
						}
						if at < 0 {
							at = 0
						}
						if !w(msg(mPiece, i, at, corrupt(i, at, l))) {
							return
						}
					}
				}
				sleepMs(int64(r.in(100, 2000)))
			}
		}
		linger(120_000)
	case "cancelflood":
		if start() {
			w(msg(mInterested))
			for k := 0; k < 400; k++ {
				i := r.n(n)
				b := r.n(t.numBlocks(i))
				if !w(msg(mCancel, i, b*blockLen, len(t.block(i, b)))) {
					break
				}
				if r.p(5) {
					sleepMs(100)
				}
			}
		}
		linger(60_000)
	case "flap":
		if start() && w(full) {
			for k := 0; k < 200; k++ {
				if !w(msg(mUnchoke)) || !w(msg(mChoke)) {
					break
				}
				if r.p(50) {
					sleepMs(int64(r.n(300)))
				}
			}
		}
		linger(60_000)
	case "choketrap":
		// chokes as soon as something is requested
		go pc.hostileRead(func(m *btMsg) {
			if m.id == mRequest {
				w(msg(mChoke))
				sleepMs(int64(r.n(2000)))
				w(msg(mUnchoke))
			}
		})
		if w(hs) && w(full) {
			w(msg(mUnchoke))
		}
		linger(90_000)
	case "interestflood":
		if start() {
			for k := 0; k < 400; k++ {
				if !w(msg(pick(r, mInterested, mNotInterested))) {
					break
				}
			}
		}
		linger(60_000)
	case "keepflood":
		if start() {
			for k := 0; k < 500; k++ {
				if !w(msg(mKeepalive)) {
					break
				}
			}
		}
		linger(60_000)
	case "havesflood":
		if start() && w(msg(mUnchoke)) {
			for k := 0; k < 300; k++ {
				if !w(msg(mHave, r.n(n))) {
					break
				}
				if r.p(3) {
					sleepMs(200)
				}
			}
		}
		linger(60_000)
	case "stallread":
		// asks for a lot and reads nothing
		p.sw.disturb(c)
		if w(hs) && w(msg(mInterested)) {
			sleepMs(15_000)
			for k := 0; k < 400; k++ {
				i := r.n(n)
				b := r.n(t.numBlocks(i))
				if !w(msg(mRequest, i, b*blockLen, len(t.block(i, b)))) {
					break
				}
			}
		}
		linger(int64(r.in(30_000, 300_000)))
	case "slowloris":
		if start() && w(full) && w(msg(mUnchoke)) {
			b := append(u32(1+pick(r, 4, 12, 9, 1000)), 7)
			b = append(b, r.bytes(200)...)
			for _, x := range b {
				if !w([]byte{x}) {
					return
				}
				sleepMs(int64(r.in(2000, 20_000)))
			}
		}
		linger(60_000)
	case "midcut":
		if start() && w(full) && w(msg(mUnchoke)) {
			i := r.n(n)
			b := msg(mPiece, i, 0, t.block(i, 0))
			w(b[:r.n(len(b))])
			if r.p(50) {
				c.abort()
				return
			}
		}
		pc.fail()
	case "halfclose":
		if start() && w(full) {
			sleepMs(int64(r.n(2000)))
		}
		pc.fail()
	case "latebits":
		if start() && w(msg(mUnchoke)) {
			for k := 0; k < 20; k++ {
				if !w(full) || !w(msg(mBitfield, make([]byte, (n+7)/8))) {
					break
				}
				sleepMs(int64(r.n(500)))
			}
		}
		linger(60_000)
	case "randmsgs":
		if start() {
			if r.p(60) {
				w(full)
			}
			for k := 0; k < 200; k++ {
				if !w(randMsg()) {
					break
				}
				if r.p(10) {
					sleepMs(int64(r.n(1500)))
				}
			}
		}
		linger(30_000)
	case "randbytes":
		if start() {
			for k := 0; k < 50; k++ {
				if !w(r.bytes(r.in(1, 600))) {
					break
				}
				if r.p(20) {
					sleepMs(int64(r.n(3000)))
				}
			}
		}
		linger(130_000)
	case "liar", "liarlen", "liardup", "liarother":
		go pc.hostileRead(func(m *btMsg) {
			if m.id != mRequest || m.a >= n || m.b+m.c > len(t.piece(m.a)) {
				return
			}
			good := t.piece(m.a)[m.b : m.b+m.c]
			switch p.scr {
			case "liar": // other offsets, other pieces
				i := r.n(n)
				b := r.n(t.numBlocks(i))
				w(msg(mPiece, i, b*blockLen, corrupt(i, b*blockLen, len(t.block(i, b)))))
				w(msg(mPiece, m.a, m.b+1, good))
			case "liarlen":
				l := pick(r, 0, 1, len(good)-1, len(good)+1, len(good)*2)
				d := make([]byte, l)
				copy(d, good)
				w(msg(mPiece, m.a, m.b, d))
			case "liardup":
				p.corruptSeen = true
				w(msg(mPiece, m.a, m.b, good))
				w(msg(mPiece, m.a, m.b, corrupt(m.a, m.b, m.c)))
			case "liarother":
				// answers the request and adds garbage for everything else
				w(msg(mPiece, m.a, m.b, good))
				for i := 0; i < n; i++ {
					w(msg(mPiece, i, 0, corrupt(i, 0, len(t.block(i, 0)))))
				}
			}
		})
		if w(hs) && w(full) {
			w(msg(mUnchoke))
		}
		linger(120_000)
	case "piecebomb":
		// a block longer than any piece
		if start() && w(full) && w(msg(mUnchoke)) {
			for k := 0; k < 3; k++ {
				if !w(msg(mPiece, r.n(n), 0, r.bytes(300_000))) {
					break
				}
			}
		}
		linger(60_000)
	case "vanish":
		if start() && w(full) && w(msg(mUnchoke)) {
			sleepMs(int64(r.n(3000)))
		}
		c.in.stalled, c.out.stalled = true, true
		p.sw.disturb(c)
		linger(400_000)
	case "requestchoked":
		if start() {
			w(msg(mRequest, 0, 0, len(t.block(0, 0))))
		}
		linger(60_000)
	default:
		harnessError("unknown script %q", p.scr)
	}
}
