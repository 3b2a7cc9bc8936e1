package main

import (
	"fmt"
	"strings"
	"syscall"
)

// genSwarm draws a swarm. The property only shifts the weights: every oracle
// watches every run.
func genSwarm(prop string, r *rng, p *Plan) {
	g := &swarmGen{prop: prop, r: r, p: p}
	g.geometry()
	g.config()
	g.members()
	g.events()
}

type swarmGen struct {
	prop    string
	r       *rng
	p       *Plan
	np      int
	heal    int
	clients []string
	peers   []string // honest
	hosts   int
	tracks  int
	crowd   []string
	mutual  bool // clients exchange what they have with each other
}

func (g *swarmGen) is(props ...string) bool {
	for _, p := range props {
		if p == g.prop {
			return true
		}
	}
	return false
}

func (g *swarmGen) geometry() {
	r, p := g.r, g.p
	g.mutual = g.is("C05", "C08", "C24", "C25", "C28") && r.p(8) || r.p(1)
	if g.mutual || g.is("C17") && r.p(45) || r.p(5) {
		pl := r.in(16, 40) * blockLen
		if r.p(30) {
			pl -= r.in(1, blockLen-1)
		}
		np := r.in(1, 2)
		if g.mutual {
			np = r.in(2, 4)
		}
		last := pick(r, pl, r.in(1, pl), min(pl, 17*blockLen), min(pl, 16*blockLen))
		p.set("plen", pl)
		p.set("total", (np-1)*pl+last)
		if r.p(30) {
			p.set("files", r.in(1, 4))
			p.set("fcut", r.in(1, 1<<30))
		}
	} else {
		mp := pick(r, 3, 6, 10)
		if g.is("C18") {
			mp = pick(r, 8, 17, 24)
		}
		if g.is("C09") {
			mp = pick(r, 4, 9, 17)
		}
		genGeometry(r, p, mp)
	}
	g.np = (p.cfg("total") + p.cfg("plen") - 1) / p.cfg("plen")
	p.Str["name"] = pick(r, "content", "content", "a b", "data.bin")
	if r.p(4) {
		// as long as the file system allows, in bytes
		p.Str["name"] = pick(r, strings.Repeat("n", 255), strings.Repeat("長", 85), strings.Repeat("n", r.in(230, 255)))
	}
}

func (g *swarmGen) config() {
	r, p := g.r, g.p
	g.heal = pick(r, 2_000, 12_000, 30_000, 60_000)
	if g.is("C18") && r.p(70) {
		g.heal = 40_000
	}
	p.set("heal", g.heal)
	p.set("lat", pick(r, 1, 2, 10, 60, 300))
	if r.p(15) || g.is("C25") && r.p(40) {
		p.set("nojit", 1)
	}
	if g.is("C15") && r.p(80) || r.p(35) {
		p.set("frag", pick(r, 1, 3, 17, 100, 1000, 5000))
		if p.cfg("frag") < 17 && p.cfg("total") > 60_000 {
			p.set("frag", 17)
		}
	}
	if g.is("C15") && r.p(60) || r.p(20) {
		p.set("readmax", pick(r, 1, 5, 64, 1000))
		if p.cfg("readmax") < 64 && p.cfg("total") > 60_000 {
			p.set("readmax", 200)
		}
	}
	if g.is("C15", "C06") && r.p(60) || r.p(20) {
		p.set("buf", pick(r, 100, 1000, 5000, 20_000))
	}
	if g.mutual {
		p.set("buf", pick(r, 0, 0, 100_000)) // 64 KiB and more
	}
	if b := p.cfg("buf"); b > 0 {
		// The buffer bounds the bandwidth. A fetch asks for 16 blocks at once
		// and gives each 10 s: a link must be able to carry that.
		k := min(16, (p.cfg("plen")+blockLen-1)/blockLen)
		p.set("buf", max(b, k*7*p.cfg("lat")))
	}
	p.set("interval", pick(r, 20, 30, 30, 60, 120))
	if g.is("C11") && r.p(40) {
		p.set("tail", 300_000)
		p.set("interval", pick(r, 20, 30))
		if r.p(40) {
			// the trackers stay as they are
			p.set("badforever", 1)
			p.set("noliveness", 1)
			p.set("tail", 450_000)
		}
	}
	if g.is("C27") && r.p(60) {
		p.set("tail", pick(r, 100_000, 300_000, 600_000))
		p.set("interval", pick(r, 2, 10, 20, 30))
	}
	if g.is("C28") {
		p.set("tail", pick(r, 100_000, 200_000, 400_000))
		p.set("interval", pick(r, 20, 60, 120, 600))
		if r.p(40) {
			p.set("noliveness", 1)
		}
	}
	if g.is("C26") && r.p(75) || r.p(2) {
		p.set("leave", 1)
	}
	if r.p(20) {
		p.set("ids", 1)
	}
	p.set("tiers", r.n(3))
	if r.p(20) && p.cfg("ids") == 0 && !g.is("C27") {
		p.set("pex", 1)
	}
	if p.cfg("pex") == 0 && r.p(10) {
		p.set("v6", 1)
	}
	if r.p(15) {
		p.set("listself", 1)
	}
	if (g.is("C05", "C06", "C10", "C14") && r.p(15) || r.p(2)) && p.cfg("pex") == 0 && p.cfg("tail") == 0 {
		p.set("dead", pick(r, 10, 60, 120, 150))
		p.Str["deadmode"] = pick(r, "refuse", "hang", "silent", "mix")
		p.Str["deadorder"] = pick(r, "any", "first")
		if p.Str["deadmode"] != "refuse" {
			p.set("dead", min(80, p.cfg("dead")))
		}
		p.set("interval", pick(r, 20, 30))
	}
	if g.is("C07") && r.p(15) && p.cfg("pex") == 0 && p.cfg("tail") == 0 {
		// who is cut off may wait to be dialled, behind hosts that do not answer
		p.set("again", 1)
		p.set("dead", pick(r, 20, 30, 40))
		p.Str["deadmode"] = "hang"
		p.Str["deadorder"] = "any"
		p.set("interval", pick(r, 2, 5, 10))
	}
	if g.is("C18") || g.is("C07", "C17") && r.p(50) || !r.p(50) {
		p.Sched.steady()
	}
	if p.Sched.Stall > 0 {
		// Stalls per 2^20 yields; most runs make some ten thousand yields
		p.Sched.Stall = pick(r, uint32(100), 500, 3000, 20_000)
		p.Sched.StallMax = uint32(r.in(4, 12))
	}
	p.Sched.StepLimit = 60_000_000
	if g.is("C01", "C03", "C08", "C24") || r.p(10) {
		p.set("fetch", 1)
	}
}

func (g *swarmGen) addPeer(kind string, opts ...string) string {
	g.hosts++
	name := fmt.Sprintf("p%d", g.hosts)
	s := "kind=" + kind
	own := strings.Join(opts, " ")
	if !strings.Contains(own, "ip=") {
		if g.p.cfg("v6") != 0 && strings.Contains(own, "listed=1") && g.r.p(60) {
			s += fmt.Sprintf(" ip=fd00::%x", g.hosts+0x100)
		} else {
			s += fmt.Sprintf(" ip=10.0.1.%d", g.hosts)
		}
	}
	g.p.add(Step{Kind: "peer", Who: name, S: strings.TrimSpace(s + " " + own)})
	return name
}

// manner draws how an honest peer behaves.
func (g *swarmGen) manner() []string {
	r := g.r
	var o []string
	if r.p(40) {
		o = append(o, "eager=1")
	}
	if d := pick(r, 0, 0, 20, 300, 2500); d > 0 {
		o = append(o, fmt.Sprintf("delay=%d", d))
	}
	if r.p(20) {
		o = append(o, "haves=1")
	}
	if g.is("C28") && r.p(50) || r.p(3) {
		o = append(o, fmt.Sprintf("keep=%d", pick(r, 10, 60, 90, 110)))
	}
	if r.p(25) {
		o = append(o, fmt.Sprintf("lazy=%d", pick(r, 30, 100)))
	}
	if r.p(10) {
		o = append(o, fmt.Sprintf("port=%d", r.in(1024, 60000)))
	}
	return o
}

// reach draws how client and peer find each other.
func (g *swarmGen) reach() []string {
	r := g.r
	switch r.n(8) {
	case 0: // behind a firewall: dials in
		o := []string{"nolisten=1", fmt.Sprintf("redial=%d", r.in(3000, 15000))}
		if r.p(30) {
			o = append(o, fmt.Sprintf("ip=fd00::%x", g.hosts+16))
		}
		if r.p(30) {
			o = append(o, "listed=1")
		}
		return o
	case 1, 2:
		return []string{"listed=1", fmt.Sprintf("redial=%d", r.in(3000, 15000))}
	}
	return []string{"listed=1"}
}

func (g *swarmGen) members() {
	r, p := g.r, g.p
	nc := 1
	if r.p(25) || g.is("C09", "C08", "C24") && r.p(25) {
		nc = 2
	}
	if g.is("C18") {
		nc = 1
	}
	if g.mutual {
		nc = r.in(2, 3)
	}
	for i := 1; i <= nc; i++ {
		name := fmt.Sprintf("c%d", i)
		pre := pick(r, 0, 0, 0, 30, 60)
		if g.is("C08", "C24") {
			pre = pick(r, 0, 50, 90, 100)
		}
		if g.is("C09", "C12", "C15") {
			pre = pick(r, 0, 30, 60)
		}
		if i == 2 && r.p(40) {
			pre = 100
		}
		s := fmt.Sprintf("pre=%d", pre)
		if g.mutual {
			s = fmt.Sprintf("of=%d mod=%d", nc, i-1)
		}
		if r.p(15) {
			s += fmt.Sprintf(" port=%d", r.in(1024, 60000))
		}
		if r.p(10) && !g.mutual {
			s += " unlisted=1"
		}
		p.add(Step{Kind: "client", Who: name, S: s})
		g.clients = append(g.clients, name)
	}
	seeds := r.in(1, 3)
	leech := r.n(3)
	corrupt, hostile := 0, 0
	mute := 0
	if r.p(20) {
		corrupt = 1
	}
	if r.p(25) {
		hostile = r.in(1, 2)
	}
	if r.p(25) {
		mute = 1
	}
	switch g.prop {
	case "C05":
		mute = r.n(4)
		corrupt = r.n(2)
	case "C06":
		hostile = r.in(2, 8)
		leech = r.n(3)
		if r.p(40) {
			mute = 0
		}
	case "C07":
		corrupt = r.in(1, 3)
		if r.p(40) {
			hostile = r.in(1, 2)
		}
	case "C08", "C24":
		leech = r.in(1, 5)
		seeds = r.in(1, 2)
		corrupt = 0
	case "C09":
		leech = r.in(1, 4)
	case "C14":
		mute = r.n(2)
	case "C15":
		leech = r.in(0, 4)
	case "C18":
		seeds, leech, corrupt, hostile, mute = r.in(1, 2), 0, 0, 0, 0
	case "C17":
		seeds = r.in(1, 4)
	}
	// One peer always makes the download possible
	thin := g.is("C25") && r.p(70) || g.is("C26") && r.p(30)
	if thin {
		// Nobody has everything: the few who have something matter for long
		seeds, corrupt, mute = r.in(1, 3), 0, 0
		g.heal = pick(r, 60_000, 120_000, 180_000)
		p.set("heal", g.heal)
		p.set("noliveness", 1)
	}
	if g.mutual {
		seeds, leech, corrupt, hostile, mute = 0, 1, 0, 0, 0
	}
	for i := 0; i < seeds; i++ {
		o := append(g.manner(), "has=100")
		if thin {
			o = append(g.manner(), fmt.Sprintf("has=%d", pick(r, 20, 50, 80)))
		}
		if i == 0 {
			o = append(o, g.reach()...)
			if r.p(30) && g.prop == "C05" {
				o = append(o, fmt.Sprintf("mute=%d", pick(r, 20, 100)))
			}
		} else {
			o = append(o, g.reach()...)
			if r.p(25) {
				o = append(o, fmt.Sprintf("mute=%d", pick(r, 5, 30, 100)))
			}
		}
		g.peers = append(g.peers, g.addPeer("seed", o...))
	}
	if g.is("C18") || r.p(15) {
		for i := r.in(1, 5); i > 0; i-- {
			o := append(g.manner(), fmt.Sprintf("has=%d", pick(r, 10, 30, 50, 70, 90)))
			o = append(o, g.reach()...)
			g.peers = append(g.peers, g.addPeer("seed", o...))
		}
	}
	for i := 0; i < leech; i++ {
		o := append(g.manner(), fmt.Sprintf("has=%d", pick(r, 0, 0, 20, 60)), fmt.Sprintf("window=%d", pick(r, 1, 3, 10, 50)))
		o = append(o, g.reach()...)
		if r.p(30) {
			o = append(o, fmt.Sprintf("odd=%d", r.in(1, 3)))
		}
		if r.p(30) {
			o = append(o, fmt.Sprintf("cancel=%d", pick(r, 10, 50)))
		}
		if r.p(20) {
			o = append(o, fmt.Sprintf("dup=%d", pick(r, 10, 50)))
		}
		if r.p(20) {
			o = append(o, "hide=1")
		}
		if g.is("C15", "C06") && r.p(50) || r.p(10) {
			o = append(o, fmt.Sprintf("slowread=%d", pick(r, 1, 5, 30, 200)))
		}
		g.peers = append(g.peers, g.addPeer("leech", o...))
	}
	for i := 0; i < corrupt; i++ {
		o := append(g.manner(), fmt.Sprintf("has=%d", pick(r, 60, 100, 100)), fmt.Sprintf("corrupt=%d", pick(r, 3, 30, 100)))
		reach := g.reach()
		if p.cfg("again") != 0 {
			reach = []string{"listed=1", fmt.Sprintf("redial=%d", r.in(500, 4000))}
		}
		if (g.is("C07", "C28") && r.p(30) || r.p(5)) && len(g.peers) > 0 {
			// it takes the id of another
			o = append(o, "id="+g.peers[r.n(len(g.peers))])
		}
		bad := g.addPeer("seed", append(o, reach...)...)
		if g.is("C07", "C28") && r.p(30) || r.p(5) {
			// an innocent neighbour shares its address
			o := append(g.manner(), fmt.Sprintf("has=%d", pick(r, 50, 100)), "listed=1", fmt.Sprintf("ip=10.0.1.%s", bad[1:]), fmt.Sprintf("port=%d", r.in(61000, 62000)))
			g.peers = append(g.peers, g.addPeer("seed", o...))
		}
	}
	if g.is("C10", "C09") && r.p(10) {
		// cut off for corrupt data, it is back at once
		o := append(g.manner(), "has=100", "corrupt=100", "bounce=1", fmt.Sprintf("redial=%d", r.in(500, 4000)))
		if r.p(50) {
			o = append(o, "listed=1")
		}
		g.addPeer("seed", o...)
		p.Sched.keen(r)
	}
	for i := 0; i < mute; i++ {
		o := append(g.manner(), "has=100", fmt.Sprintf("mute=%d", pick(r, 10, 100)), "evermute=1")
		g.addPeer("seed", append(o, g.reach()...)...)
	}
	for i := 0; i < hostile; i++ {
		scr := hostileScripts[r.n(len(hostileScripts))]
		if g.is("C07") && r.p(60) {
			scr = pick(r, "unsolicited", "unsolicited-all", "liardup", "liarother", "liar", "liarlen")
		}
		if g.is("C17") && r.p(60) {
			scr = pick(r, "flap", "choketrap", "havesflood", "latebits")
		}
		if g.is("C08") && r.p(60) {
			scr = pick(r, "requestchoked", "badrequest", "cancelflood", "stallread", "hugerequest", "interestflood")
		}
		o := []string{"script=" + scr}
		if r.p(50) {
			o = append(o, fmt.Sprintf("redial=%d", r.in(2000, 20000)), fmt.Sprintf("dials=%d", r.in(1, 6)))
			if r.p(50) {
				o = append(o, "listed=1")
			}
		} else {
			o = append(o, "listed=1")
		}
		g.addPeer("hostile", o...)
	}
	if r.p(15) {
		g.addPeer("seed", "has=100", "listed=1", "nokeep=1")
	}
	if p.cfg("ids") != 0 && (g.is("C10") && r.p(60) || r.p(20)) {
		g.addPeer("seed", "has=100", "listed=1", "wrongid=1")
	}
	if g.is("C10") && r.p(60) || r.p(8) {
		// the same peer at several addresses, or many behind one address
		ip := fmt.Sprintf("10.0.2.%d", r.in(1, 200))
		for i := r.in(2, 3); i > 0; i-- {
			o := []string{"has=100", "ip=" + ip, fmt.Sprintf("port=%d", 7000+i)}
			if r.p(70) {
				o = append(o, "id=same")
			}
			if r.p(70) {
				o = append(o, "listed=1")
			}
			if r.p(60) {
				o = append(o, fmt.Sprintf("redial=%d", r.in(1000, 6000)))
			}
			g.peers = append(g.peers, g.addPeer("seed", append(o, g.manner()...)...))
		}
	}
	if g.is("C10") && r.p(12) || g.is("C28") && r.p(8) {
		n := r.in(50, 75)
		if g.is("C28") && r.p(50) {
			n = r.in(26, 45)
			if p.cfg("pex") == 0 && p.cfg("dead") == 0 && r.p(60) {
				p.set("dead", pick(r, 40, 80))
				p.Str["deadmode"] = "refuse"
				p.Str["deadorder"] = "any"
			}
		}
		p.set("crowd", n)
		for i := 0; i < n; i++ {
			o := []string{"has=0", "nolisten=1", fmt.Sprintf("redial=%d", r.in(2000, 5000))}
			if r.p(20) {
				o = []string{"has=0", "listed=1"}
			}
			g.crowd = append(g.crowd, g.addPeer("seed", o...))
		}
		p.set("heal", 30_000)
		g.heal = 30_000
		if r.p(50) && !g.is("C28") {
			p.set("noliveness", 1)
			p.set("tail", 60_000)
		}
	}
	if p.cfg("crowd") == 0 && p.cfg("dead") == 0 && p.cfg("pex") == 0 && p.cfg("tail") == 0 {
		switch {
		case g.is("C05", "C10") && r.p(6) || r.p(1):
			// more listed peers than are dialled at a time
			p.set("many", 1)
			p.set("interval", pick(r, 20, 30))
			for n := r.in(27, 33); n > 0; n-- {
				g.peers = append(g.peers, g.addPeer("seed", fmt.Sprintf("has=%d", pick(r, 0, 0, 30)), "listed=1"))
			}
			p.set("tail", 120_000)
		case g.is("C10") && r.p(10) || g.is("C05") && r.p(5) || r.p(1):
			// listed peers with which no handshake succeeds, time and again
			p.set("refusers", 1)
			p.set("interval", pick(r, 10, 20))
			for n := r.in(5, 9); n > 0; n-- {
				g.addPeer("hostile", "script="+pick(r, "nohs", "shorths", "badproto", "wronghash", "selfid"), "listed=1")
			}
			g.heal = pick(r, 120_000, 200_000)
			p.set("heal", g.heal)
			p.set("tail", 200_000)
			for k := r.in(1, 4); k > 0; k-- {
				p.add(Step{At: int64(g.heal - r.n(30_000)), Kind: "drop", Who: g.peers[r.n(len(g.peers))], A: r.n(2)})
			}
		}
	}
	if p.cfg("crowd") == 0 && p.cfg("dead") == 0 && (g.is("C24") && r.p(8) || r.p(1)) {
		// many that want to be served
		for n := r.in(6, 38-3*len(g.clients)); n > 0; n-- {
			o := []string{fmt.Sprintf("has=%d", pick(r, 0, 0, 50)), fmt.Sprintf("window=%d", r.in(1, 4)), "listed=1"}
			if r.p(60) {
				o = append(o, "nolisten=1", fmt.Sprintf("redial=%d", r.in(2000, 5000)))
			}
			g.addPeer("leech", o...)
		}
	}
	if p.cfg("pex") == 0 {
		g.tracks = pick(r, 1, 1, 2, 3)
		if g.is("C11") {
			g.tracks = r.in(1, 3)
		}
		if r.p(6) {
			p.set("query", r.in(1, 4))
		}
		if g.is("C07", "C27") && r.p(30) || r.p(5) {
			p.set("spell", 1)
		}
		for i := 1; i <= g.tracks; i++ {
			m := ""
			if r.p(25) || g.is("C11") && r.p(60) {
				m = "mode=" + g.trackerMode()
			}
			p.add(Step{Kind: "tracker", Who: fmt.Sprintf("t%d", i), S: m})
		}
	}
	for i, c := range g.clients {
		at := int64(0)
		if i > 0 {
			at = int64(r.n(10_000))
		}
		p.add(Step{Kind: "start", Who: c, At: at})
	}
}

func (g *swarmGen) trackerMode() string {
	if g.r.p(30) {
		return trackerGood[g.r.n(len(trackerGood))]
	}
	return trackerBad[g.r.n(len(trackerBad))]
}

// at draws a time: most happens while clients connect and download.
func (g *swarmGen) at() int64 {
	if g.r.p(50) {
		return int64(g.r.n(min(g.heal, pick(g.r, 50, 300, 2000, 8000))))
	}
	return int64(g.r.n(g.heal))
}

// whens draws events that happen when a client sends or receives something.
func (g *swarmGen) whens() {
	r, p := g.r, g.p
	k := 0
	if g.is("C04", "C05", "C07", "C08", "C09", "C10", "C14", "C15", "C17", "C18", "C24", "C25", "C26") && r.p(60) || r.p(30) {
		k = r.in(1, 5)
	}
	some := func() string { return g.peers[r.n(len(g.peers))] }
	for ; k > 0; k-- {
		c := g.clients[r.n(len(g.clients))]
		who := some()
		on := pick(r, ">handshake", "<handshake", ">bitfield", "<bitfield", "<have", ">interested", ">notinterested", "<unchoke", "<choke", ">request", ">request", ">request", "<piece", "<piece", "<piece", ">have", ">have", ">have", ">unchoke", "<interested", "<request", ">piece")
		n := r.in(1, 3)
		if strings.HasSuffix(on, "request") || strings.HasSuffix(on, "piece") {
			n = r.in(1, max(1, 2*(p.cfg("total")/blockLen)))
		} else if on == ">have" {
			n = r.in(1, 2*g.np)
		}
		if r.p(60) {
			on += "@" + who
		}
		if r.p(25) {
			who = some()
		}
		add := func(delay int, do string) {
			p.add(Step{Kind: "when", Who: c, A: n, B: delay, S: on + " " + do})
		}
		d := pick(r, 0, 0, 0, 1, 20, 300)
		switch x := r.n(20); {
		case x < 6:
			add(d, "choke "+who+" 0")
			add(d+pick(r, 0, 1, 30, 300, 4000), "unchoke "+who+" 0")
		case x < 9:
			add(d, fmt.Sprintf("drop %s %d", who, r.n(2)))
		case x < 11:
			add(d, fmt.Sprintf("down %s %d %d", who, r.n(2), pick(r, 200, 2000, 12_000)))
		case x < 12:
			add(d, fmt.Sprintf("stall %s %d %d", who, r.n(2), pick(r, 200, 2000, 12_000, 40_000)))
		case x < 14:
			add(d, fmt.Sprintf("cut %s %d %d", who, r.n(pick(r, 10, 1000, 40_000)), r.n(2)))
		case x < 16:
			add(d, fmt.Sprintf("gain %s %d", who, r.n(g.np)))
		case x < 17:
			add(d, fmt.Sprintf("dial %s 0", who))
		case x < 18:
			add(d, fmt.Sprintf("part %s 0 %d", who, pick(r, 200, 2000, 12_000)))
		case x < 19 && len(g.peers) > 1:
			add(d, fmt.Sprintf("gone %s %d", g.peers[1+r.n(len(g.peers)-1)], r.n(2)))
		default:
			if g.is("C14") {
				add(d, fmt.Sprintf("stop %s %d %d", c, pick(r, 0, 1, 500, 20_000), pick(r, 0, 0, 1)))
			} else if g.is("C12", "C05", "C01") {
				add(d, fmt.Sprintf("kill %s %d %d", c, r.in(1, 20_000), r.n(4)))
			} else {
				add(d, fmt.Sprintf("diskslow %s %d %d", c, pick(r, 1, 20), pick(r, 1, 3, 20)))
			}
		}
	}
	if g.is("C15") && r.p(40) {
		// a write is stuck until it is given up, while more is to be sent
		for k := r.in(1, 2); k > 0; k-- {
			on := pick(r, ">piece", ">piece", ">request", ">have", ">bitfield")
			who := some()
			p.add(Step{Kind: "when", Who: g.clients[r.n(len(g.clients))], A: r.in(1, 6), B: pick(r, 0, 0, 1), S: fmt.Sprintf("%s@%s stall %s 0 %d", on, who, who, pick(r, 12_000, 32_000, 40_000, 60_000))})
		}
		g.heal = 60_000
		p.set("heal", g.heal)
	}
	if g.is("C15") && r.p(25) || r.p(2) {
		// the same, in the middle of a short message
		for k := r.in(1, 3); k > 0; k-- {
			on := pick(r, ">keepalive", ">keepalive", ">have", ">request", ">interested", ">unchoke", ">notinterested", ">piece")
			who := some()
			p.add(Step{Kind: "when", Who: g.clients[r.n(len(g.clients))], A: r.in(1, 3), S: fmt.Sprintf("%s@%s narrow %s %d %d", on, who, who, r.n(9), pick(r, 12_000, 32_000, 40_000, 60_000))})
		}
		g.heal = 150_000
		p.set("heal", g.heal)
	}
	if g.is("C10", "C05", "C09") && r.p(25) {
		// the bitfield or what follows it meets a connection that is gone
		on := pick(r, ">bitfield", ">bitfield", "<handshake", ">interested", ">unchoke")
		who := some()
		for k := 1 + r.n(4); k > 0; k-- {
			do := pick(r, "drop %s 1", "drop %s 1", "cut %s 0 1", "down %s 1 3000")
			p.add(Step{Kind: "when", Who: g.clients[r.n(len(g.clients))], A: k, S: fmt.Sprintf("%s@%s "+do, on, who, who)})
		}
	}
	if g.is("C14") && r.p(8) {
		// stopped while the disk is busy with a piece
		c, n := g.clients[r.n(len(g.clients))], r.in(1, 2*g.np)
		p.add(Step{Kind: "when", Who: c, A: n, S: fmt.Sprintf("<piece diskslow %s %d %d", c, pick(r, 100, 700, 2500), pick(r, 1, 1, 3))})
		p.add(Step{Kind: "when", Who: c, A: n, B: pick(r, 1, 5, 100, 1500), S: fmt.Sprintf("<piece stop %s %d 0", c, pick(r, 0, 1, 500))})
	}
	if g.is("C14") && r.p(30) {
		c := g.clients[r.n(len(g.clients))]
		on := pick(r, ">handshake", "<bitfield", ">interested", "<unchoke", ">request", "<piece", ">have", ">piece", ">unchoke")
		p.add(Step{Kind: "when", Who: c, A: r.in(1, 2*g.np), B: pick(r, 0, 0, 1, 300), S: fmt.Sprintf("%s stop %s %d %d", on, c, pick(r, 0, 1, 500, 20_000), pick(r, 0, 0, 1))})
	}
}

func (g *swarmGen) events() {
	r, p := g.r, g.p
	if len(g.peers) == 0 {
		return
	}
	some := func() string { return g.peers[r.n(len(g.peers))] }
	cl := func() string { return g.clients[r.n(len(g.clients))] }
	add := func(at int64, kind, who string, a, b int, s string) {
		p.add(Step{At: at, Kind: kind, Who: who, A: a, B: b, S: s})
	}
	g.whens()
	n := r.n(5)
	if g.is("C05", "C09", "C10", "C14", "C15") {
		n = r.in(1, 8)
	}
	if g.is("C18") {
		n = r.n(3)
	}
	for ; n > 0; n-- {
		at := g.at()
		long := pick(r, 200, 2000, 12_000, 40_000)
		switch r.n(16) {
		case 0, 1:
			who := some()
			for k := r.in(1, 3); k > 0; k-- {
				add(at, "choke", who, 0, 0, "")
				at += int64(pick(r, 1, 30, 300, 4000, 12_000))
				add(at, "unchoke", who, 0, 0, "")
				at += int64(pick(r, 1, 30, 300, 4000))
			}
		case 2, 3:
			add(at, "drop", some(), r.n(2), 0, "")
		case 4, 5:
			add(at, "down", some(), r.n(2), long, "")
		case 6:
			add(at, "part", some(), 0, long, "")
		case 7:
			add(at, "stall", some(), r.n(2), long, "")
		case 8:
			add(at, "cut", some(), r.n(pick(r, 10, 1000, 40_000)), r.n(2), "")
		case 9:
			add(at, "dialmode", some(), 0, long, pick(r, "refuse", "hang", "reset"))
		case 10:
			for i := 1; i <= g.tracks; i++ {
				if r.p(60) {
					add(at, "tmode", fmt.Sprintf("t%d", i), 0, 0, g.trackerMode())
				}
			}
		case 11:
			add(at, "wall", cl(), pick(r, -1, 1)*pick(r, 1000, 60_000, 3_600_000, 86_400_000), 0, "")
		case 12:
			add(at, "dial", some(), 0, 0, "")
			if r.p(50) {
				add(at+int64(r.n(50)), "dial", some(), 0, 0, "")
			}
		case 13:
			add(at, "gain", some(), r.n(g.np), 0, "")
		case 14:
			if r.p(40) {
				add(at, "acceptfail", cl(), r.in(1, 4), 0, "")
			} else {
				add(at, "diskslow", cl(), pick(r, 1, 20, 300), pick(r, 1, 3, 20), "")
			}
		case 15:
			if len(g.peers) > 1 && r.p(50) {
				add(at, "gone", g.peers[1+r.n(len(g.peers)-1)], r.n(2), 0, "")
			}
		}
	}
	if g.is("C18") {
		for k := r.in(3, 25); k > 0; k-- {
			add(g.at(), "gain", some(), r.n(g.np), 0, "")
		}
		for k := r.n(5); k > 0; k-- {
			who := some()
			at := g.at()
			add(at, "choke", who, 0, 0, "")
			add(at+int64(r.in(500, 8000)), "unchoke", who, 0, 0, "")
		}
	}
	if g.is("C25") && r.p(40) || r.p(3) {
		// all at once
		at := g.at()
		back := at + int64(pick(r, 100, 3000, 12_000))
		for _, who := range g.peers {
			add(at, "choke", who, 0, 0, "")
			add(back, "unchoke", who, 0, 0, "")
		}
	}
	if g.is("C17") {
		who := some()
		at := g.at()
		for k := r.in(2, 12); k > 0; k-- {
			add(at, "choke", who, 0, 0, "")
			at += int64(pick(r, 1, 5, 30, 300, 3000))
			add(at, "unchoke", who, 0, 0, "")
			at += int64(pick(r, 1, 5, 30, 300, 3000))
		}
	}
	if g.is("C09") {
		for k := r.in(1, 6); k > 0; k-- {
			add(g.at(), pick(r, "drop", "dial", "down", "stall"), some(), r.n(2), pick(r, 500, 5000, 40_000), "")
		}
	}
	if g.is("C10") {
		for k := r.in(2, 8); k > 0; k-- {
			at := g.at()
			who := some()
			for j := r.in(1, 3); j > 0; j-- {
				add(at+int64(pick(r, 0, 0, 1, 20)), "dial", who, 0, 0, "")
			}
			if r.p(40) {
				add(at+int64(r.n(400)), "drop", who, r.n(2), 0, "")
			}
		}
		if r.p(20) {
			add(g.at(), "acceptfail", cl(), r.in(1, 6), 0, "")
		}
	}
	for i, c := range g.crowd {
		if p.cfg("noliveness") == 0 || r.p(20) {
			add(int64(20_000+r.n(8000)), "gone", c, i%2, 0, "")
		}
	}
	if g.is("C14") || r.p(8) {
		for _, c := range g.clients {
			if r.p(75) {
				at := int64(r.n(g.heal))
				if r.p(25) {
					at = int64(r.n(300)) // while starting
				}
				restart := 0
				if r.p(70) {
					restart = pick(r, 1, 500, 20_000)
				}
				add(at, "stop", c, restart, pick(r, 0, 0, 1, 3), "")
			}
		}
	} else if g.is("C12", "C05", "C01") && r.p(35) || r.p(5) {
		b := pick(r, 0, 1)
		if r.p(40) {
			b |= 2
		}
		add(g.at(), "kill", cl(), r.in(1, 20_000), b, "")
	} else if g.is("C12") && r.p(40) {
		add(g.at(), "stop", cl(), r.in(1, 20_000), 0, "")
	}
	if g.is("C12") && r.p(50) {
		for k := r.in(1, 3); k > 0; k-- {
			for i := 1; i <= g.tracks; i++ {
				if r.p(60) {
					add(g.at(), "tmode", fmt.Sprintf("t%d", i), 0, 0, g.trackerMode())
				}
			}
		}
	}
	if g.is("C08", "C24") && r.p(12) {
		p.add(Step{At: int64(r.n(g.heal)), Kind: "diskfault", Who: cl(), A: r.in(1, 6), B: r.in(1, 5), C: int(pick(r, syscall.EIO, syscall.EMFILE)), S: pick(r, "read", "open")})
	}
	if g.is("C01", "C05") && r.p(12) {
		op := pick(r, "write", "open", "rename", "fsync", "read", "mut@.piece", "any", "mkdir")
		st := Step{At: g.at(), Kind: "diskfault", Who: cl(), A: r.in(1, 6), B: r.in(1, 5), C: int(pick(r, syscall.EIO, syscall.ENOSPC, syscall.EMFILE, 0)), S: op}
		if st.C == 0 && op != "write" {
			st.C = int(syscall.EIO)
		}
		p.add(st)
	}
}

// inject arms a fault: op, or op@part of the path.
func (fs *simFS) inject(op string, nth, count, errno int) {
	o, sub, _ := strings.Cut(op, "@")
	fs.faults = append(fs.faults, &fsFault{op: o, sub: sub, nth: nth, count: count, errno: syscall.Errno(errno)})
}
