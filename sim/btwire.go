package main

import (
	"encoding/binary"
	"fmt"
)

// An independent implementation of the peer wire protocol: scripted peers
// speak it and the wire monitor parses with it.

const (
	mKeepalive     = -1
	mChoke         = 0
	mUnchoke       = 1
	mInterested    = 2
	mNotInterested = 3
	mHave          = 4
	mBitfield      = 5
	mRequest       = 6
	mPiece         = 7
	mCancel        = 8
)

var mNames = map[int]string{-1: "KEEPALIVE", 0: "CHOKE", 1: "UNCHOKE", 2: "INTERESTED", 3: "NOT_INTERESTED", 4: "HAVE", 5: "BITFIELD", 6: "REQUEST", 7: "PIECE", 8: "CANCEL"}

const protoName = "BitTorrent protocol"

func handshakeBytes(infohash, id [20]byte) []byte {
	b := append([]byte{19}, protoName...)
	b = append(b, make([]byte, 8)...)
	b = append(b, infohash[:]...)
	return append(b, id[:]...)
}

func u32(v int) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(v))
	return b[:]
}

// msg encodes a message: integers become big-endian words, byte slices are
// copied.
func msg(id int, parts ...any) []byte {
	if id == mKeepalive {
		return u32(0)
	}
	body := []byte{byte(id)}
	for _, p := range parts {
		switch p := p.(type) {
		case int:
			body = append(body, u32(p)...)
		case []byte:
			body = append(body, p...)
		}
	}
	return append(u32(len(body)), body...)
}

// btMsg is a parsed message; id -2 is the handshake.
type btMsg struct {
	id       int
	a, b, c  int
	data     []byte // bitfield, block, or what follows an unknown type
	raw      int    // bytes on the wire
	infohash [20]byte
	peerID   [20]byte
	bad      string // why it is not a valid message
}

// kind names the type of the message.
func (m *btMsg) kind() string {
	switch m.id {
	case -2:
		return "handshake"
	case mChoke:
		return "choke"
	case mUnchoke:
		return "unchoke"
	case mInterested:
		return "interested"
	case mNotInterested:
		return "notinterested"
	case mHave:
		return "have"
	case mBitfield:
		return "bitfield"
	case mRequest:
		return "request"
	case mPiece:
		return "piece"
	case mKeepalive:
		return "keepalive"
	}
	return "other"
}

func (m *btMsg) String() string {
	switch m.id {
	case -2:
		return fmt.Sprintf("HANDSHAKE(%q)", m.peerID[:])
	case mHave:
		return fmt.Sprintf("HAVE %d", m.a)
	case mRequest, mCancel:
		return fmt.Sprintf("%s %d:%d+%d", mNames[m.id], m.a, m.b, m.c)
	case mPiece:
		return fmt.Sprintf("PIECE %d:%d+%d", m.a, m.b, len(m.data))
	case mBitfield:
		return fmt.Sprintf("BITFIELD %x", m.data)
	}
	if n, ok := mNames[m.id]; ok {
		return n
	}
	return fmt.Sprintf("UNKNOWN(%d)", m.id)
}

// btParser cuts one direction of a connection into messages.
type btParser struct {
	buf    []byte
	hsDone bool
	broken string // the stream is not a valid sequence of messages
	max    int    // longest message accepted
	total  int64
}

// feed returns the messages completed by b.
func (p *btParser) feed(b []byte) []*btMsg {
	p.total += int64(len(b))
	if p.broken != "" {
		return nil
	}
	p.buf = append(p.buf, b...)
	var out []*btMsg
	for {
		m := p.next()
		if m == nil {
			return out
		}
		out = append(out, m)
		if p.broken != "" {
			return out
		}
	}
}

func (p *btParser) next() *btMsg {
	if !p.hsDone {
		if len(p.buf) > 0 && p.buf[0] != 19 {
			p.broken = fmt.Sprintf("handshake starts with %d", p.buf[0])
			return nil
		}
		if len(p.buf) < 68 {
			return nil
		}
		if string(p.buf[1:20]) != protoName {
			p.broken = fmt.Sprintf("handshake protocol %q", p.buf[1:20])
			return nil
		}
		m := &btMsg{id: -2, raw: 68}
		copy(m.infohash[:], p.buf[28:48])
		copy(m.peerID[:], p.buf[48:68])
		p.buf = p.buf[68:]
		p.hsDone = true
		return m
	}
	if len(p.buf) < 4 {
		return nil
	}
	n := int(binary.BigEndian.Uint32(p.buf))
	if p.max > 0 && n > p.max {
		p.broken = fmt.Sprintf("message of %d bytes", n)
		return nil
	}
	if len(p.buf) < 4+n {
		return nil
	}
	m := &btMsg{id: mKeepalive, raw: 4 + n}
	if n > 0 {
		body := append([]byte(nil), p.buf[5:4+n]...)
		m.id = int(p.buf[4])
		w := func(i int) int { return int(binary.BigEndian.Uint32(body[4*i:])) }
		need := map[int]int{mChoke: 0, mUnchoke: 0, mInterested: 0, mNotInterested: 0, mHave: 4, mRequest: 12, mCancel: 12}
		if want, ok := need[m.id]; ok && len(body) != want {
			m.bad = fmt.Sprintf("%s with %d bytes", mNames[m.id], len(body))
		} else if m.id == mPiece && len(body) < 8 {
			m.bad = "short PIECE"
		} else {
			switch m.id {
			case mHave:
				m.a = w(0)
			case mRequest, mCancel:
				m.a, m.b, m.c = w(0), w(1), w(2)
			case mPiece:
				m.a, m.b, m.data = w(0), w(1), body[8:]
			default:
				m.data = body
				if m.id > mCancel {
					m.bad = fmt.Sprintf("unknown type %d", m.id)
				}
			}
		}
	}
	p.buf = p.buf[4+n:]
	return m
}

// bitset helpers, independent of drip's bitfield package.
func bitHas(b []byte, i int) bool { return i >= 0 && i/8 < len(b) && b[i/8]>>(7-uint(i%8))&1 == 1 }
func bitSet(b []byte, i int)      { b[i/8] |= 1 << (7 - uint(i%8)) }
func bitMake(has map[int]bool, n int) []byte {
	b := make([]byte, (n+7)/8)
	for i := range has {
		if has[i] {
			bitSet(b, i)
		}
	}
	return b
}
