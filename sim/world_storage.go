package main

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"weak"

	"github.com/browles/drip/storage"
)

// World "storage": one process uses the storage package on a simulated disk
// through several lives (start, work, crash or stop, damage, start again).
// Concurrent workers write, read, retry and wait. Everything is judged through
// the public interface and the contents of the simulated disk.
//
// Steps (At is the life):
//
//	put/get/wait/twait/reset/fetch  Who=worker A=piece B=block C=variant
//	fault   S=op or op@substring A=nth B=count C=errno (0: short write or read, negative:
//	        first one that is short, then that error)
//	crash   A=nth mutating system call B=1 after, 0 before; C=1 power loss
//	power   power loss after the life ended
//	slow    A=ms B=every
//	damage  before the life; S=what A=piece

func init() { worlds["storage"] = world{genStorage, runStorage} }

const (
	sTarget = "/data/target"
	sWork   = "/data/work"
)

func genStorage(prop string, r *rng, p *Plan) {
	genGeometry(r, p, 4)
	lives := 1
	hostile := false
	crashes, faults, damage := 25, 25, 15
	switch prop {
	case "C01":
		lives = r.in(1, 3)
		damage, faults = 40, 40
	case "C02":
		lives = r.in(2, 4)
		crashes, damage = 85, 30
	case "C03":
		lives = r.in(1, 3)
		crashes, faults = pick(r, 0, 70), 50
		if r.p(70) && p.cfg("files") == 0 {
			p.set("files", r.in(1, 6))
			p.set("fcut", r.in(1, 1<<30))
		}
	case "C04":
		lives = r.in(1, 2)
		crashes, faults, damage = 10, 35, 5
	case "C12":
		lives = r.in(1, 3)
	case "C26":
		lives = r.in(1, 2)
		if r.p(20) {
			p.set("files", r.in(12, 50))
			p.set("fcut", r.in(1, 1<<30))
		}
		crashes, faults, damage = 5, 50, 20
	case "C19":
		hostile = r.p(45)
		if !hostile {
			faults = pick(r, 20, 60)
		}
	}
	p.set("lives", lives)
	p.set("samedir", 0)
	if r.p(10) {
		p.set("samedir", 1)
	}
	np := (p.cfg("total") + p.cfg("plen") - 1) / p.cfg("plen")
	nb := func(i int) int {
		l := p.cfg("plen")
		if i == np-1 {
			l = p.cfg("total") - i*p.cfg("plen")
		}
		return (l + blockLen - 1) / blockLen
	}
	p.Str["name"] = pick(r, "content", "my file.iso", "a", "0.piece", "temp", "x*y", "ünï", "...", "..x", "-rf")
	if p.cfg("samedir") != 0 && p.Str["name"] == "temp" {
		p.Str["name"] = "temperature"
	}
	if r.p(6) {
		// as long as the file system allows, in bytes
		p.Str["name"] = pick(r, strings.Repeat("n", 255), strings.Repeat("n", 246), strings.Repeat("長", 85), strings.Repeat("n", r.in(230, 255)))
	}
	if hostile {
		p.set("hostile", 1)
		bad := pick(r, "..", ".", "", "/", "../evil", "../../etc/cron", "/etc/passwd", "a/b", "../target2", "x/../../y", "..//..", "../work/evil", "a\x00b", "../target/other", "./", "other/..")
		where := r.n(4)
		if where == 0 || p.cfg("files") == 0 && where != 3 {
			p.Str["name"] = bad
		} else {
			if p.cfg("files") == 0 {
				p.set("files", r.in(1, 4))
				p.set("fcut", r.in(1, 1<<30))
			}
			p.Str["badcomp"] = bad
			p.set("badfile", r.n(p.cfg("files")))
			p.set("badkind", r.n(6)) // replace last, prepend, many .., only, empty path, conflicting paths
		}
	} else if prop == "C19" && r.p(50) || r.p(8) {
		p.set("foreign", r.in(1, 9))
	} else if prop == "C01" && r.p(20) {
		p.set("foreign", pick(r, 5, 5, 5, 9))
	}
	if !hostile && (r.p(12) || prop == "C19" && r.p(25)) {
		// another torrent shares the directories
		p.set("other", r.in(1, 1<<30))
		p.Str["oname"] = pick(r, p.Str["name"]+".2", "second", p.Str["name"]+" 2", "1.piece", "zz")
		if len(p.Str["oname"]) > 255 {
			p.Str["oname"] = p.Str["name"][:len(p.Str["name"])-3]
		}
	}
	nth := func(op string, most int) int {
		if op == "fsync" {
			return 3 // there are few
		}
		return most
	}
	appears := 1
	if prop == "C19" {
		appears = 20
	}
	for life := 0; life < lives; life++ {
		at := int64(life)
		if life > 0 && r.p(damage) {
			for k := r.in(1, 3); k > 0; k-- {
				p.add(Step{At: at, Kind: "damage", S: pick(r, "truncate", "flip", "extend", "empty", "junk", "huge-index", "neg-index", "dup-name", "dir", "temp", "piecedir", "swap", "zero"), A: r.n(np), B: r.n(1 << 20)})
			}
		}
		if r.p(faults) {
			for k := r.in(1, 2); k > 0; k-- {
				op := pick(r, "write", "write", "open", "mkdir", "rename", "fsync", "unlink", "read", "read", "mut", "any", "close", "stat", "getdents", "truncate")
				en := pick(r, int(syscall.EIO), int(syscall.ENOSPC), int(syscall.EIO), int(syscall.EMFILE), int(syscall.EINTR))
				if (op == "write" || op == "read") && r.p(40) {
					en = 0
				}
				if (op == "write" || op == "read") && en != 0 && r.p(40) {
					en = -en
				}
				if r.p(45) {
					// close to what is going on
					near := pick(r, "load", "get", "put")
					if prop == "C04" {
						near = pick(r, "put", "put", near)
					}
					if prop == "C01" {
						near = pick(r, "get", near)
					}
					switch near {
					case "load":
						op = pick(r, "stat", "stat", "open", "read", "getdents", "any", "mut")
						p.add(Step{At: at, Kind: "fault", S: op + "#load", A: r.in(1, 6), B: pick(r, 1, 1, 2, 1000), C: pick(r, int(syscall.EIO), int(syscall.EACCES), int(syscall.EMFILE))})
					case "get":
						op = pick(r, "open", "read", "any")
						en := pick(r, int(syscall.EIO), int(syscall.EIO), int(syscall.EMFILE), 0)
						if op == "read" && r.p(50) {
							en = -int(syscall.EIO)
						}
						p.add(Step{At: at, Kind: "fault", S: op + "#get" + pick(r, "", "@.piece"), A: r.in(1, 8), B: pick(r, 1, 1, 2, 1000), C: en})
					case "put":
						op = pick(r, "write", "open", "mkdir", "rename", "fsync", "fsync", "read", "close", "unlink", "mut")
						p.add(Step{At: at, Kind: "fault", S: op + "#put" + pick(r, "", "@temp"), A: r.in(1, nth(op, 12)), B: pick(r, 1, 1, 2, 1000), C: pick(r, int(syscall.EIO), int(syscall.ENOSPC))})
					}
					continue
				}
				p.add(Step{At: at, Kind: "fault", S: op + pick(r, "", "", "@temp", "@.piece", "@target"), A: r.in(1, nth(op, 30)), B: pick(r, 1, 1, 2, 1000), C: en})
			}
		}
		if r.p(crashes) {
			p.add(Step{At: at, Kind: "crash", A: r.in(1, 12*np+10), B: r.n(2), C: r.n(2)})
		} else if r.p(20) {
			p.add(Step{At: at, Kind: "power"})
		}
		if r.p(15) {
			p.add(Step{At: at, Kind: "slow", A: r.in(1, 300), B: r.in(1, 6)})
		}
		if r.p(appears) && p.cfg("foreign") == 0 && !hostile {
			p.add(Step{At: at, Kind: "appear", Who: "wz", B: r.n(2), C: pick(r, 0, r.n(300), r.n(3000))})
		}
		nw := r.in(1, 4)
		ops := r.in(2, 14)
		mostlyGood := r.p(50)
		reads := r.p(30) // each piece is read while the others are fetched
		for w := 0; w < nw; w++ {
			who := fmt.Sprintf("w%d", w)
			if mostlyGood {
				// a client fetching pieces
				for _, i := range r.perm(np) {
					if r.p(70) {
						p.add(Step{At: at, Kind: "fetch", Who: who, A: i, B: r.n(1000), C: pick(r, 0, 0, 0, 1, 2)})
						if reads {
							p.add(Step{At: at, Kind: "get", Who: who, A: i, B: r.n(nb(i))})
						}
					}
				}
			}
			for k := 0; k < ops; k++ {
				i := r.n(np)
				b := r.n(nb(i))
				switch x := r.n(100); {
				case x < 45:
					c := 0
					if r.p(25) {
						c = r.in(1, 12)
					}
					p.add(Step{At: at, Kind: "put", Who: who, A: i, B: b, C: c})
				case x < 65:
					c := 0
					if r.p(40) {
						c = r.in(1, 9)
					}
					p.add(Step{At: at, Kind: "get", Who: who, A: i, B: b, C: c})
				case x < 78:
					p.add(Step{At: at, Kind: "fetch", Who: who, A: i, B: r.n(1000), C: pick(r, 0, 0, 1, 2)})
				case x < 88:
					p.add(Step{At: at, Kind: "reset", Who: who, A: i})
				case x < 96:
					p.add(Step{At: at, Kind: "wait", Who: fmt.Sprintf("x%d.%d", w, k), A: i})
				default:
					p.add(Step{At: at, Kind: "twait", Who: fmt.Sprintf("x%d.%d", w, k)})
				}
			}
		}
	}
	if r.p(2) && !hostile && p.cfg("foreign") == 0 {
		// nothing but empty files
		p.set("total", 0)
		p.set("other", 0)
		steps := p.Steps
		p.Steps = nil
		for _, s := range steps {
			switch s.Kind {
			case "fault", "crash", "power", "slow", "twait":
				p.Steps = append(p.Steps, s)
			}
		}
	}
}

// sop is one recorded call on a piece.
type sop struct {
	kind      string // put, get, wait, reset
	block     int
	good      bool
	call, ret int
	res       string // ok exists checksum err
}

type storageWorld struct {
	t        *simTorrent
	h        *host
	target   string
	work     string
	expected map[string][]byte
	reject   bool // the torrent must be refused
	foreign  bool // someone else's data is in the way
	linked   bool // and is a link that leads nowhere

	life      int
	p         *proc
	st        *storage.Storage
	loaded    bool
	loadErr   error
	seq       int
	hist      map[int][]*sop
	faulty    bool // I/O faults may happen in this life
	running   int
	waiting   int
	peak      int                          // of open files
	gets      int                          // GetBlock calls in progress
	puts      int                          // PutBlock calls in progress
	calls     int                          // calls in progress that use files
	acked     map[int]bool                 // pieces seen complete before a crash
	seen      map[int]bool                 // pieces seen complete in this life
	blocks    map[int][]weak.Pointer[byte] // data handed to PutBlock in this life
	published bool
	everCrash bool
	noRemove  bool
	crashedAt int
	sentinels map[string][]byte

	// Another torrent in the same directories
	other      *simTorrent
	otherName  string
	otherOn    bool         // its goroutine is at work
	otherAcked map[int]bool // complete before the process ended
}

func runStorage() {
	w := &storageWorld{acked: map[int]bool{}}
	h := &host{name: "client", ip: "10.0.0.1", rng: newRng(plan.Seed, "host")}
	w.h = h
	fs := newFS(h, newRng(plan.Seed, "disk"))
	w.target, w.work = sTarget, sWork
	if plan.cfg("samedir") != 0 {
		w.work = sTarget
	}
	fs.mkdirAll(w.target)
	fs.mkdirAll(w.work)
	for _, s := range []string{"/etc/passwd", "/data/sentinel", "/sentinel", "/data/target/other", "/data/work/other", "/data/target2/x", "/data/target/otherdir/x", "/tmp/x", "/data/work2/y"} {
		fs.put(s, []byte("do not touch "+s))
	}
	fs.syncAll()
	w.t = makeTorrent(plan, plan.Str["name"])
	if plan.cfg("hostile") != 0 {
		w.makeHostile()
	}
	w.expected = w.t.expected()
	if k := plan.cfg("other"); k != 0 {
		w.makeOther(k)
	}
	if k := plan.cfg("foreign"); k != 0 && !w.reject {
		w.plantForeign(k)
	}
	w.sentinels = map[string][]byte{}
	for k, v := range fs.walk("/") {
		w.sentinels[k] = append([]byte(nil), v...)
	}
	fs.onMutate = w.onMutate
	fs.onOpen = func(p *proc, n int) {
		// A temporary file, the file copied from, directories being removed
		if n > 6*w.calls+4 {
			violate("C26", "many-files-open", "%d files are open while %d call(s) are in progress", n, w.calls)
		}
		w.peak = max(w.peak, n)
	}
	fs.phase = func(ph string) bool {
		switch ph {
		case "load":
			return !w.loaded
		case "get":
			return w.gets > 0
		}
		return w.puts > 0
	}

	lives := plan.cfg("lives")
	for w.life = 0; w.life < lives; w.life++ {
		if !w.runLife(false) {
			break
		}
		if len(res.Violations) > 0 {
			break
		}
	}
	if len(res.Violations) == 0 && !w.reject && !w.foreign {
		w.life = lives
		w.runLife(true)
		w.checkFinal()
	}
	w.checkSentinels()
	probe(fmt.Sprintf("peak-files:%02d", w.peak))
}

func (w *storageWorld) makeHostile() {
	w.reject = true
	bad := plan.Str["badcomp"]
	if _, ok := plan.Str["badcomp"]; ok && len(w.t.files) > 0 {
		f := &w.t.files[plan.cfg("badfile")%len(w.t.files)]
		switch plan.cfg("badkind") {
		case 0:
			f.path[len(f.path)-1] = bad
		case 1:
			f.path = append([]string{bad}, f.path...)
		case 2:
			f.path = append([]string{"..", "..", "..", "etc"}, "passwd")
		case 3:
			f.path = []string{bad}
		case 4:
			f.path = nil
		case 5: // two files that cannot both exist
			g := simTFile{append(append([]string(nil), f.path...), "below"), 0}
			w.t.files = append(w.t.files, g)
		}
		probe("hostile-path")
	} else {
		probe("hostile-name")
	}
	w.t.finish()
}

// plantForeign puts something under the target name before the first start.
func (w *storageWorld) plantForeign(k int) {
	fs := w.h.fs
	base := w.target + "/" + w.t.name
	switch k {
	case 1:
		w.foreign = true
		fs.put(base, []byte("my precious data"))
	case 2:
		w.foreign = true
		if w.t.files == nil {
			fs.mkdirAll(base)
		} else {
			fs.put(base+"/mine.txt", []byte("my precious data"))
			for _, n := range sortedKeys(w.expected)[:1] {
				fs.put(w.target+"/"+n, w.expected[n])
			}
			if len(w.expected) == 1 { // would be a complete copy
				fs.put(w.target+"/"+sortedKeys(w.expected)[0], []byte("other"))
			}
		}
	case 3: // a complete copy with one bit changed
		w.foreign = true
		ks := sortedKeys(w.expected)
		done := false
		for _, n := range ks {
			d := append([]byte(nil), w.expected[n]...)
			if len(d) > 0 && !done {
				d[newRng(plan.Seed, "flip").n(len(d))] ^= 4
				done = true
			}
			fs.put(w.target+"/"+n, d)
		}
		if !done {
			w.foreign = false
		}
	case 4: // a truncated copy
		w.foreign = true
		for _, n := range sortedKeys(w.expected) {
			d := w.expected[n]
			if len(d) > 0 {
				d = d[:len(d)-1]
			}
			fs.put(w.target+"/"+n, d)
		}
	case 6: // a copy with a file that is too long
		w.foreign = true
		g := newRng(plan.Seed, "longer")
		ks := sortedKeys(w.expected)
		longer := g.n(len(ks))
		for i, n := range ks {
			d := append([]byte(nil), w.expected[n]...)
			if i == longer {
				d = append(d, g.bytes(g.in(1, 3000))...)
			}
			fs.put(w.target+"/"+n, d)
		}
	case 7: // a link that leads nowhere, to an unmounted disk say
		w.foreign, w.linked = true, true
		fs.symlink(base, "/elsewhere/away")
	case 8: // a link to something else
		w.foreign = true
		fs.put("/elsewhere/data", []byte("my precious data"))
		fs.symlink(base, "/elsewhere/data")
	case 9: // a link to a correct copy
		for n, d := range w.expected {
			fs.put("/elsewhere/"+n, d)
		}
		fs.symlink(base, "/elsewhere/"+w.t.name)
		w.published = true
		probe("preexisting-copy")
	case 5: // a correct copy
		for n, d := range w.expected {
			fs.put(w.target+"/"+n, d)
		}
		w.published = true
		probe("preexisting-copy")
	}
	if w.foreign {
		probe("foreign-target")
	}
}

// targetState is "absent", "complete" or a description of what is wrong.
func (w *storageWorld) targetState() string {
	fs := w.h.fs
	base := w.target + "/" + w.t.name
	in := fs.get(base)
	if in == nil {
		return "absent"
	}
	got := fs.walk(base)
	for n, want := range w.expected {
		g, ok := got[w.target+"/"+n]
		if !ok {
			return fmt.Sprintf("file %q is missing", n)
		}
		if len(g) != len(want) {
			return fmt.Sprintf("file %q has %d bytes instead of %d", n, len(g), len(want))
		}
		if !bytes.Equal(g, want) {
			return fmt.Sprintf("file %q has wrong content", n)
		}
	}
	nf := 0
	for n := range got {
		if !strings.HasSuffix(n, "/") {
			nf++
		}
	}
	if nf != len(w.expected) {
		return fmt.Sprintf("%d files instead of %d", nf, len(w.expected))
	}
	return "complete"
}

func (w *storageWorld) onMutate(p *proc, op, p1, p2 string) {
	for _, x := range []string{p1, p2} {
		if x == "" {
			continue
		}
		c := path.Clean(x)
		if !strings.HasPrefix(c, w.target+"/") && !strings.HasPrefix(c, w.work+"/") {
			violate("C19", "escape", "%s %q is outside the target and work directories", op, x)
			return
		}
		if b, ok := w.sentinels[c]; ok {
			if in := w.h.fs.get(c); in == nil || in.dir || !bytes.Equal(in.data, b) {
				violate("C19", "replaced", "%s changed or removed %q, which is not the torrent's", op, x)
				return
			}
		}
	}
	if w.reject || w.foreign {
		return
	}
	switch s := w.targetState(); s {
	case "absent":
		if w.published {
			violate("C03 C02", "unpublished", "after %s %q %q the finished download is gone", op, p1, p2)
		}
	case "complete":
		if !w.published {
			note("published")
			probe("published")
		}
		w.published = true
	default:
		violate("C03 C01", "partial-target", "after %s %q %q the target is visible but %s", op, p1, p2, s)
	}
}

func (w *storageWorld) checkSentinels() {
	now := w.h.fs.walk("/")
	for _, k := range sortedKeys(w.sentinels) {
		v, ok := now[k]
		if !ok || !bytes.Equal(v, w.sentinels[k]) {
			violate("C19", "sentinel", "%q was changed or removed", k)
			return
		}
	}
	for _, k := range sortedKeys(now) {
		if _, ok := w.sentinels[k]; ok {
			continue
		}
		if !strings.HasPrefix(k, w.target+"/") && !strings.HasPrefix(k, w.work+"/") {
			violate("C19", "escape", "%q was created outside the target and work directories", k)
			return
		}
	}
}

func (w *storageWorld) has(i int) bool {
	bf := w.st.Torrent.Bitfield
	return i/8 < len(bf) && bf[i/8]&(0x80>>(i%8)) != 0
}

// observe looks for newly completed pieces and checks their data. It runs on
// a goroutine of the process.
func (w *storageWorld) observe() {
	if !w.loaded || w.loadErr != nil {
		return
	}
	for i := 0; i < w.t.numPieces(); i++ {
		if w.has(i) && !w.seen[i] {
			w.seen[i] = true
			w.acked[i] = true
			w.verifyPiece(i)
		}
	}
}

// verifyPiece reads a piece that is said to be complete.
func (w *storageWorld) verifyPiece(i int) {
	for b := 0; b < w.t.numBlocks(i); b++ {
		want := w.t.block(i, b)
		w.calls++
		got, err := w.st.GetBlock(i, b*blockLen, len(want))
		w.calls--
		if err != nil {
			if !w.faulty {
				violate("C01 C04", "complete-unreadable", "piece %d is reported complete but block %d cannot be read: %v", i, b, err)
			}
			return
		}
		if !bytes.Equal(got, want) {
			violate("C01", "complete-wrong", "piece %d is reported complete but block %d has wrong data", i, b)
			return
		}
	}
	probe("piece-verified")
}

func (w *storageWorld) rec(i int, kind string, block int, good bool) *sop {
	w.seq++
	o := &sop{kind: kind, block: block, good: good, call: w.seq, ret: 1 << 60}
	w.hist[i] = append(w.hist[i], o)
	return o
}

func (w *storageWorld) end(o *sop, res string) {
	w.seq++
	o.ret = w.seq
	o.res = res
}

func putClass(err error) string {
	var ce *storage.ChecksumError
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, storage.ErrBlockExists):
		return "exists"
	case errors.As(err, &ce):
		return "checksum"
	}
	return "err"
}

func (w *storageWorld) put(i, b int, good bool, seed int) error {
	d := append([]byte(nil), w.t.block(i, b)...)
	if !good {
		d[seed%len(d)] ^= 1 << (seed % 8)
	}
	o := w.rec(i, "put", b, good)
	if len(d) >= 64 { // smaller ones share memory
		w.blocks[i] = append(w.blocks[i], weak.Make(&d[0]))
	}
	w.puts++
	w.calls++
	err := w.st.PutBlock(i, b*blockLen, d)
	w.calls--
	w.puts--
	w.end(o, putClass(err))
	note("put %d/%d good=%v: %v", i, b, good, err)
	if o.res == "checksum" || o.res == "err" {
		w.checkReleased(i, o)
	}
	if err != nil && o.res == "err" && !w.faulty && !w.foreign {
		violate("C04", "put-error", "PutBlock(%d, %d, %d bytes) failed without an I/O fault: %v", i, b*blockLen, len(d), err)
	}
	w.observe()
	return err
}

// checkReleased checks that a failed attempt is reported to those who waited
// for the piece before it failed.
func (w *storageWorld) checkReleased(i int, put *sop) {
	pending := func() (ws []*sop) {
		for _, o := range w.hist[i] {
			if o.kind == "wait" && o.call < put.call && o.ret == 1<<60 {
				ws = append(ws, o)
			}
		}
		return
	}
	if len(pending()) == 0 {
		return
	}
	probe("failed-with-waiter:" + put.res)
	d := int64(1_000)
	if plan.Sched.stalls() {
		d = 20_000
	}
	waitFor(d, 100, func() bool { return len(pending()) == 0 })
	for _, o := range w.hist[i] {
		if o.kind == "reset" && o.ret > put.call {
			return // may have begun a new attempt before the waiter looked
		}
	}
	if n := len(pending()); n > 0 {
		violate("C04", "failure-not-reported", "a PutBlock of piece %d failed (%s) but %d waiter(s) on the piece do not hear of it", i, put.res, n)
	}
}

func (w *storageWorld) badPut(s Step) {
	i, b := s.A, s.B
	d := append([]byte(nil), w.t.block(i, b)...)
	begin := b * blockLen
	switch s.C {
	case 3:
		d = d[:len(d)-1]
	case 4:
		begin++
	case 5:
		begin = w.t.numBlocks(i) * blockLen
	case 6:
		begin = -blockLen
	case 7:
		i = pick(newRng(uint64(s.B), "idx"), -1, w.t.numPieces(), 1<<31-1, -1<<31)
	case 8:
		d = nil
	case 9:
		d = append(d, 0)
	case 10:
		begin = len(w.t.piece(i)) / blockLen * blockLen
		d = nil
		if begin < len(w.t.piece(i)) {
			d = []byte{1}
			if len(w.t.piece(i))-begin == 1 {
				d = nil
			}
		}
	case 11:
		begin = 1 << 40
	case 12:
		begin = len(w.t.piece(i))/blockLen*blockLen + blockLen
		d = make([]byte, blockLen)
	}
	w.calls++
	err := w.st.PutBlock(i, begin, d)
	w.calls--
	note("bad put %d %d+%d: %v", i, begin, len(d), err)
	if err == nil {
		violate("C04 C01", "bad-block-accepted", "PutBlock(%d, %d, %d bytes) was accepted", i, begin, len(d))
	}
	probe("bad-put")
}

func (w *storageWorld) get(s Step) {
	i := s.A
	begin := s.B * blockLen
	n := len(w.t.block(i, s.B))
	pl := len(w.t.piece(i))
	r := newRng(uint64(s.A*977+s.B*31+s.C), "range")
	must := true // must succeed if complete
	switch s.C {
	case 1:
		begin = r.n(pl)
		n = r.in(1, pl-begin)
	case 2:
		n = 0
		must = false
	case 3:
		n = pl - begin + r.in(1, 2*blockLen)
		must = false
	case 4:
		begin, must = -1-r.n(100000), false
	case 5:
		n, must = pick(r, 1<<40, 1<<62, -1), false
	case 6:
		i, must = pick(r, -1, w.t.numPieces(), 1<<31-1), false
	case 7:
		begin = 0
		n = pl
	case 8:
		begin, must = pl, false
	case 9:
		begin, n, must = 1<<62, 1<<62, false
	}
	var o *sop
	if must {
		o = w.rec(i, "get", s.B, true)
	}
	w.gets++
	w.calls++
	got, err := w.st.GetBlock(i, begin, n)
	w.calls--
	w.gets--
	if o != nil {
		w.end(o, "ok")
		if err != nil {
			o.res = "err"
		}
	}
	note("get %d %d+%d: %d bytes %v", i, begin, n, len(got), err)
	if err == nil && !(must || n == 0) {
		// A range beyond the piece: only correct bytes are acceptable.
		off := i*w.t.pieceLen + begin
		if i < 0 || begin < 0 || n < 0 || off < 0 || off+n > len(w.t.data) || len(got) != n || !bytes.Equal(got, w.t.data[off:off+n]) {
			violate("C01 C04", "bad-range-data", "GetBlock(%d, %d, %d) returned %d bytes", i, begin, n, len(got))
		}
		return
	}
	if err == nil {
		off := i*w.t.pieceLen + begin
		if len(got) != n || !bytes.Equal(got, w.t.data[off:off+n]) {
			violate("C01", "get-wrong", "GetBlock(%d, %d, %d) returned wrong data (%d bytes)", i, begin, n, len(got))
		}
		probe("get-ok")
	}
}

func (w *storageWorld) fetch(s Step) {
	i := s.A
	o := w.rec(i, "reset", 0, true)
	pc := w.st.ResetPiece(i)
	w.end(o, "ok")
	r := newRng(uint64(s.B), "fetch")
	nb := w.t.numBlocks(i)
	badBlock := -1
	if s.B%3 == 0 {
		// somebody waits for the outcome
		w.p.run(func() { w.wait(i) })
	}
	if s.C > 0 {
		badBlock = r.n(nb)
	}
	for _, b := range r.perm(nb) {
		if s.C == 2 && b == badBlock {
			continue
		}
		if err := w.put(i, b, !(s.C == 1 && b == badBlock), s.B+b); err != nil && !errors.Is(err, storage.ErrBlockExists) {
			break
		}
	}
	if s.C != 2 || r.p(20) {
		_ = pc
		probe("fetch")
	}
}

func (w *storageWorld) wait(i int) {
	o := w.rec(i, "wait", 0, true)
	w.waiting++
	err := w.st.GetPiece(i).Wait()
	w.waiting--
	w.end(o, "ok")
	if err != nil {
		o.res = "err"
	}
	note("wait %d: %v", i, err)
	probe("wait-released")
	w.observe()
}

func (w *storageWorld) twait() {
	w.waiting++
	err := w.st.Torrent.Wait()
	w.waiting--
	note("twait: %v", err)
	probe("twait-released")
	if err == nil {
		for i := 0; i < w.t.numPieces(); i++ {
			if !w.has(i) {
				violate("C04 C01", "torrent-wait", "Torrent.Wait returned success while piece %d is missing", i)
				return
			}
		}
		if !w.published {
			violate("C03 C04", "torrent-wait", "Torrent.Wait returned success but nothing is published")
		}
	} else if !w.faulty {
		violate("C04", "torrent-wait", "Torrent.Wait failed without an I/O fault: %v", err)
	}
}

func (w *storageWorld) runOps(steps []Step) {
	for _, s := range steps {
		if s.A >= w.t.numPieces() {
			continue
		}
		switch s.Kind {
		case "put":
			switch s.C {
			case 0:
				w.put(s.A, s.B, true, 0)
			case 1, 2:
				w.put(s.A, s.B, false, s.A*7919+s.B*31+s.C)
			default:
				w.badPut(s)
			}
		case "get":
			w.get(s)
		case "fetch":
			w.fetch(s)
		case "reset":
			o := w.rec(s.A, "reset", 0, true)
			w.st.ResetPiece(s.A)
			w.end(o, "ok")
			note("reset %d", s.A)
		case "wait":
			w.wait(s.A)
		case "twait":
			w.twait()
		case "appear":
			sleepMs(int64(s.C))
			w.appear(s.B == 1)
		}
	}
}

// appear puts something else under the target name while the torrent is being
// downloaded and nothing is being stored. The download cannot be finished then.
func (w *storageWorld) appear(dir bool) {
	x := w.target + "/" + w.t.name
	if w.puts != 0 || w.foreign || w.published || w.h.fs.get(x) != nil || w.otherName == w.t.name {
		return
	}
	w.foreign, w.faulty = true, true
	if dir {
		x += "/mine"
	}
	b := []byte("came while the download was under way")
	w.h.fs.put(x, b)
	w.sentinels[x] = b
	fault("foreign:appears")
	note("appears %s", x)
}

// drain finishes every piece so that nobody has to wait any more.
func (w *storageWorld) drain() {
	for i := 0; i < w.t.numPieces(); i++ {
		for try := 0; try < 3 && !w.has(i); try++ {
			o := w.rec(i, "reset", 0, true)
			w.st.ResetPiece(i)
			w.end(o, "ok")
			for b := 0; b < w.t.numBlocks(i); b++ {
				w.put(i, b, true, 0)
			}
		}
	}
}

const stuckMs = 2 * 3600 * 1000

func (w *storageWorld) runLife(final bool) bool {
	fs := w.h.fs
	at := int64(w.life)
	if !final {
		w.damage()
	}
	fs.faults, fs.crashAt, fs.slowMs, fs.slowEvery = nil, 0, 0, 0
	fs.writes = 0
	w.faulty = w.linked
	power := false
	byWho := map[string][]Step{}
	for _, s := range plan.Steps {
		if s.At != at || final {
			continue
		}
		switch s.Kind {
		case "fault":
			op, sub, _ := strings.Cut(s.S, "@")
			op, phase, _ := strings.Cut(op, "#")
			f := &fsFault{op: op, sub: sub, phase: phase, nth: s.A, count: s.B, errno: syscall.Errno(s.C)}
			if s.C < 0 {
				f.torn, f.errno, f.count = true, syscall.Errno(-s.C), s.B+1
			}
			fs.faults = append(fs.faults, f)
			w.faulty = true
			switch op {
			case "read", "write", "fsync", "rename", "mkdir":
			default:
				w.noRemove = true // may keep temporary data from being removed
			}
		case "crash":
			fs.crashAt = s.A
			fs.crashMode = "before"
			if s.B == 1 {
				fs.crashMode = "after"
			}
			pw := s.C == 1
			fs.onCrash = func(p *proc) {
				w.everCrash = true
				if pw {
					power = true
				}
			}
		case "power":
			power = true
		case "slow":
			fs.slowMs, fs.slowEvery = int64(s.A), s.B
		case "put", "get", "fetch", "reset", "wait", "twait", "appear":
			byWho[s.Who] = append(byWho[s.Who], s)
		}
	}
	w.hist = map[int][]*sop{}
	w.seen = map[int]bool{}
	w.blocks = map[int][]weak.Pointer[byte]{}
	w.loaded, w.loadErr = false, nil
	w.waiting, w.running = 0, 0
	w.gets, w.puts, w.calls = 0, 0, 0
	p := newProc(w.h)
	w.p = p
	note("life %d", w.life)
	switch {
	case w.reject:
		crashProps("C19 C04")
	case w.foreign:
		crashProps("C19 C04 C02")
	default:
		crashProps("C02 C04")
	}
	if w.other != nil {
		w.otherOn = true
		p.run(func() {
			w.runOther(final)
			w.otherOn = false
		})
	}
	p.run(func() {
		w.st = storage.New(w.target, w.work, w.t.info())
		w.calls++
		w.loadErr = w.st.Load()
		w.calls--
		w.loaded = true
		note("load: %v", w.loadErr)
		if w.loadErr == nil && !w.reject && !w.foreign {
			w.afterLoad()
		}
		w.loaded = true
		w.p.made.give()
		w.running = -1
	})
	ok := w.waitStage("Load", func() bool { return w.running == -1 })
	if !ok {
		return false
	}
	if !p.dead {
		if w.reject {
			if w.loadErr == nil {
				violate("C19", "not-refused", "a torrent with name %q and files %q was not refused", w.t.name, w.filePaths())
			}
			p.kill(false)
			return false
		}
		if w.foreign {
			if w.loadErr == nil && !w.linked {
				for i := 0; i < w.t.numPieces(); i++ {
					if w.has(i) && !w.pieceInTarget(i) {
						violate("C01", "foreign-counted", "piece %d is reported complete although the data under the target name is not the torrent's", i)
						return false
					}
				}
				if w.has(0) && plan.cfg("foreign") == 6 {
					violate("C03 C01", "longer-accepted", "what is under the target name is taken for the complete download, and %s", w.targetState())
					return false
				}
			}
			if w.loadErr != nil {
				p.kill(false)
				return true
			}
		}
		if w.loadErr != nil && !w.faulty && !w.foreign {
			violate("C02", "load-failed", "opening the directories failed: %v; disk: %s", w.loadErr, fs.snapshot())
			return false
		}
	}
	if !p.dead && w.loadErr == nil {
		w.running = 0
		crashProps("C04")
		for _, who := range sortedKeys(byWho) {
			steps := byWho[who]
			if who[0] != 'x' {
				w.running++
			}
			p.run(func() {
				w.runOps(steps)
				if who[0] != 'x' {
					w.running--
				}
			})
		}
		if !w.waitStage("the workers", func() bool { return w.running == 0 }) {
			return false
		}
		if !p.dead {
			fs.faults, fs.slowMs, fs.crashAt = nil, 0, 0
			hadFaults := w.faulty
			if w.waiting > 0 || final {
				w.running = 1
				p.run(func() {
					w.drain()
					w.running = 0
				})
				if !w.waitStage("finishing the pieces", func() bool { return w.running == 0 }) {
					return false
				}
				if !p.dead && !waitFor(stuckMs, 1000, func() bool { return w.waiting == 0 || p.dead }) {
					violate("C04", "waiter-stuck", "%d waiter(s) were not released although every piece is complete", w.waiting)
					return false
				}
			}
			if !p.dead {
				w.running = 1
				p.run(func() {
					w.endOfLife(hadFaults)
					w.running = 0
				})
				if !w.waitStage("the last reads", func() bool { return w.running == 0 }) {
					return false
				}
				if w.other != nil && !w.waitStage("the other torrent", func() bool { return !w.otherOn }) {
					return false
				}
				w.checkHistories()
				if len(res.Violations) == 0 {
					w.checkReleases(p)
				}
			}
		}
	}
	st := ""
	if !p.dead {
		if w.otherOn || w.running != 0 || w.calls != 0 {
			w.noRemove = true // something is going on still
		}
		p.kill(false)
		st = "stopped"
	} else {
		st = "crashed"
		w.everCrash = true
		// The pieces known to be complete when it died.
		if w.loaded && w.loadErr == nil {
			for i := 0; i < w.t.numPieces(); i++ {
				if w.has(i) {
					w.acked[i] = true
				}
			}
		}
	}
	if power {
		fault("power-loss")
		w.everCrash = true
		fs.powerLoss()
		w.acked, w.otherAcked = map[int]bool{}, map[int]bool{}
		s := w.targetState()
		if !w.foreign && !w.reject {
			if s != "absent" && s != "complete" {
				violate("C03 C02", "partial-target", "after a power loss the target is visible but %s", s)
				return false
			}
			w.published = s == "complete"
			if s == "absent" && !w.piecesRecoverable() {
				probe("power-loss:pieces-lost")
			}
		}
		st += ", power lost"
	}
	note("life %d %s: %s", w.life, st, fs.snapshot())
	return true
}

func (w *storageWorld) piecesRecoverable() bool { return true }

func (w *storageWorld) filePaths() string {
	var sb strings.Builder
	for _, f := range w.t.files {
		fmt.Fprintf(&sb, "%q ", f.path)
	}
	return sb.String()
}

// pieceInTarget says whether the target on disk really holds piece i.
func (w *storageWorld) pieceInTarget(i int) bool {
	got := w.h.fs.walk(w.target + "/" + w.t.name)
	var all []byte
	for _, f := range w.orderedFiles() {
		want := w.expected[f]
		g := got[w.target+"/"+f]
		b := make([]byte, len(want))
		copy(b, g)
		all = append(all, b...)
	}
	a := i * w.t.pieceLen
	return bytes.Equal(all[a:a+len(w.t.piece(i))], w.t.piece(i))
}

func (w *storageWorld) orderedFiles() []string {
	if w.t.files == nil {
		return []string{w.t.name}
	}
	var out []string
	for _, f := range w.t.files {
		out = append(out, w.t.name+"/"+strings.Join(f.path, "/"))
	}
	return out
}

func (w *storageWorld) waitStage(what string, cond func() bool) bool {
	if waitFor(stuckMs, 50, func() bool { return cond() || w.p.dead }) {
		return true
	}
	if runtime.SimSnapshot().LimitHit {
		violate("C04", "livelock", "%s did not finish within the step limit", what)
	} else {
		violate("C04", "deadlock", "%s did not finish within %d simulated minutes; operations under way: %s", what, stuckMs/60000, w.pending())
	}
	return false
}

func (w *storageWorld) pending() string {
	var out []string
	for i, h := range w.hist {
		for _, o := range h {
			if o.ret == 1<<60 {
				out = append(out, fmt.Sprintf("%s(piece %d, block %d)", o.kind, i, o.block))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// afterLoad compares what was loaded with what must have survived.
func (w *storageWorld) afterLoad() {
	fs := w.h.fs
	_ = fs
	for i := 0; i < w.t.numPieces(); i++ {
		if w.acked[i] && !w.has(i) {
			if !w.faulty {
				violate("C02", "piece-lost", "piece %d was complete before the process ended and is not after the restart; disk: %s", i, fs.snapshot())
			}
			return
		}
		if w.published && !w.has(i) && !w.faulty {
			violate("C02 C03", "published-lost", "the download is published but piece %d is not reported complete after the restart", i)
			return
		}
	}
	w.observe()
	w.checkDownloaded()
}

func (w *storageWorld) checkDownloaded() {
	sum := 0
	for i := 0; i < w.t.numPieces(); i++ {
		if w.has(i) {
			sum += len(w.t.piece(i))
		}
	}
	if d := w.st.Downloaded(); d != int64(sum) {
		violate("C12", "downloaded", "storage reports %d bytes present; the complete pieces have %d", d, sum)
	}
}

func (w *storageWorld) endOfLife(hadFaults bool) {
	w.observe()
	for i := 0; i < w.t.numPieces(); i++ {
		w.get(Step{A: i, B: 0})
	}
	if w.running == 1 {
		w.checkDownloaded()
	}
	all := true
	for i := 0; i < w.t.numPieces(); i++ {
		all = all && w.has(i)
	}
	if all && !hadFaults && !w.published && !w.foreign && w.st.Torrent != nil {
		violate("C03 C04", "not-published", "every piece is complete but nothing is published; disk: %s", w.h.fs.snapshot())
	}
}

// checkReleases looks, while no call is in progress, for what calls have left
// behind: open files, and the data of complete pieces in memory.
func (w *storageWorld) checkReleases(p *proc) {
	if !waitFor(10_000, 100, func() bool { return p.dead || len(p.openFDs()) == 0 }) {
		violate("C26", "files-open", "no call is in progress and %d file(s) are open: %q", len(p.openFDs()), p.openFDs())
		return
	}
	if p.dead {
		return
	}
	probe("no-file-open")
	if plan.Prop != "C26" || raceBuild || len(w.blocks) == 0 {
		return
	}
	w.hist = map[int][]*sop{}
	runtime.GC()
	n := 0
	for i := 0; i < w.t.numPieces(); i++ {
		if !w.seen[i] {
			continue
		}
		n++
		held := 0
		for _, b := range w.blocks[i] {
			if b.Value() != nil {
				held++
			}
		}
		if held > 0 {
			violate("C26", "data-kept", "piece %d is complete and %d of its blocks are still in memory", i, held)
			return
		}
	}
	probeN("complete-pieces-not-in-memory", n)
}

// makeOther makes a torrent that is downloaded into the same directories.
func (w *storageWorld) makeOther(k int) {
	r := newRng(uint64(k), "other")
	p := *plan
	p.Seed ^= uint64(k)
	p.Cfg = map[string]int{}
	for n, v := range plan.Cfg {
		p.Cfg[n] = v
	}
	p.set("total", r.in(1, 3*p.cfg("plen")))
	p.set("files", pick(r, 0, 0, 2))
	p.set("fcut", k)
	w.otherName = plan.Str["oname"]
	w.other = makeTorrent(&p, w.otherName)
	w.otherAcked = map[int]bool{}
	probe("other-torrent")
}

// runOther downloads the other torrent, all of it in the final life.
func (w *storageWorld) runOther(final bool) {
	t := w.other
	r := newRng(plan.Seed+uint64(w.life), "other-life")
	bad := func(kind, format string, args ...any) {
		if !w.faulty {
			violate("C19 C04", kind, "another torrent in the same directories: "+format, args...)
		}
	}
	call := func(f func() error) error {
		w.calls++
		defer func() { w.calls-- }()
		return f()
	}
	st := storage.New(w.target, w.work, t.info())
	has := func(i int) bool {
		bf := st.Torrent.Bitfield
		return i/8 < len(bf) && bf[i/8]&(0x80>>(i%8)) != 0
	}
	if err := call(st.Load); err != nil {
		bad("other-load", "opening failed: %v", err)
		return
	}
	for i := range w.otherAcked {
		if !has(i) {
			bad("other-lost", "piece %d was complete before", i)
		}
	}
	for _, i := range r.perm(t.numPieces()) {
		if !final && r.p(30) {
			continue
		}
		for try := 0; !has(i) && try < 3; try++ {
			st.ResetPiece(i)
			for b := 0; b < t.numBlocks(i); b++ {
				if r.p(50) {
					sleepMs(int64(r.n(40)))
				}
				err := call(func() error { return st.PutBlock(i, b*blockLen, append([]byte(nil), t.block(i, b)...)) })
				if err != nil {
					bad("other-put", "PutBlock(%d, %d) failed: %v", i, b*blockLen, err)
				}
			}
			if !has(i) {
				bad("other-piece", "piece %d is not complete although all of it was stored", i)
			}
		}
		for k := 0; k < 2; k++ {
			b := r.n(t.numBlocks(i))
			want := t.block(i, b)
			var got []byte
			err := call(func() (err error) { got, err = st.GetBlock(i, b*blockLen, len(want)); return })
			if err == nil && !bytes.Equal(got, want) {
				violate("C01 C19", "other-data", "another torrent in the same directories is served wrong data for piece %d", i)
			}
			if err != nil && has(i) {
				bad("other-get", "GetBlock(%d, %d) failed: %v", i, b*blockLen, err)
			}
		}
	}
	for i := 0; i < t.numPieces(); i++ {
		if has(i) {
			w.otherAcked[i] = true
		}
	}
	if !final {
		return
	}
	got := w.h.fs.walk(w.target + "/" + t.name)
	for n, b := range t.expected() {
		if g, ok := got[w.target+"/"+n]; !ok || !bytes.Equal(g, b) {
			violate("C03 C19", "other-target", "another torrent in the same directories is finished but %q is not right", n)
			return
		}
	}
	for n := range w.h.fs.walk(w.work) {
		if strings.Contains(n, fmt.Sprintf("/%x", t.infohash)) && !strings.Contains(n, "/temp/") {
			violate("C03 C19", "other-work-left", "another torrent in the same directories is finished but %q is left", n)
			return
		}
	}
	probe("other-finished")
}

// checkFinal runs after the last, fault-free life, which completed everything.
func (w *storageWorld) checkFinal() {
	if len(res.Violations) > 0 {
		return
	}
	fs := w.h.fs
	if s := w.targetState(); s != "complete" {
		violate("C03 C02", "not-published", "after the download was finished the target is: %s", s)
		return
	}
	if w.st != nil {
		for i := 0; i < w.t.numPieces(); i++ {
			if !w.has(i) {
				violate("C02 C04", "unfinished", "piece %d could not be completed", i)
				return
			}
		}
	}
	for n := range fs.walk(w.work) {
		if strings.Contains(n, fmt.Sprintf("/%x", w.t.infohash)) && !strings.Contains(n, "/temp/") {
			violate("C03", "work-left", "working data is left after publication: %s", fs.snapshot())
			return
		}
		if !w.everCrash && !w.noRemove && strings.HasPrefix(n, w.work+"/temp/") && n != w.work+"/temp/" && w.sentinels[n] == nil && !w.tempDamage(n) {
			violate("C03", "temp-left", "temporary data is left after publication: %s", fs.snapshot())
			return
		}
	}
	probe("finished")
}

func (w *storageWorld) tempDamage(n string) bool { return strings.Contains(n, "leftover") }

// damage changes the work directory the way a crash or a user might.
func (w *storageWorld) damage() {
	fs := w.h.fs
	dir := fmt.Sprintf("%s/%x", w.work, w.t.infohash)
	for _, s := range plan.Steps {
		if s.At != int64(w.life) || s.Kind != "damage" || w.reject {
			continue
		}
		if fs.get(dir) == nil && w.published {
			continue
		}
		f := fmt.Sprintf("%s/%d.piece", dir, s.A)
		in := fs.get(f)
		hit := func() { delete(w.acked, s.A) }
		r := newRng(uint64(s.B), "damage")
		set := func(d []byte) {
			fs.put(f, d)
			hit()
		}
		fault("damage:" + s.S)
		note("damage %s %d", s.S, s.A)
		switch s.S {
		case "truncate":
			if in != nil && len(in.data) > 0 {
				set(in.data[:r.n(len(in.data))])
			}
		case "flip":
			if in != nil && len(in.data) > 0 {
				d := append([]byte(nil), in.data...)
				d[r.n(len(d))] ^= 1 << r.n(8)
				set(d)
			}
		case "extend":
			if in != nil {
				set(append(append([]byte(nil), in.data...), r.bytes(r.in(1, 5000))...))
			}
		case "empty":
			set(nil)
		case "zero":
			set(make([]byte, len(w.t.piece(s.A))))
		case "junk":
			fs.put(dir+"/"+pick(r, "junk", "x.piece", ".piece", "piece", "1piece", "0.piece.tmp", "0x1.piece"), r.bytes(100))
		case "huge-index":
			fs.put(dir+"/"+pick(r, fmt.Sprintf("%d.piece", w.t.numPieces()), "999999.piece", "99999999999999999999.piece"), r.bytes(100))
		case "neg-index":
			fs.put(dir+"/-1.piece", r.bytes(100))
		case "dup-name":
			pre, suf := pick(r, "0", "+", "00", " ", ""), pick(r, "", "", "~")
			if pre+suf == "" {
				suf = ".bak"
			}
			fs.put(fmt.Sprintf("%s/%s%d.piece%s", dir, pre, s.A, suf), pick(r, w.t.piece(s.A), r.bytes(50)))
		case "dir":
			if in == nil {
				fs.mkdirAll(f)
				if r.p(50) {
					fs.put(f+"/inside", r.bytes(20))
				}
			}
		case "temp":
			fs.put(fmt.Sprintf("%s/temp/%s%d", w.work, "leftover", s.B), r.bytes(300))
		case "piecedir":
			if fs.get(dir) == nil {
				fs.mkdirAll(dir)
			}
		case "swap":
			set(w.t.piece((s.A + 1) % w.t.numPieces()))
			if bytes.Equal(w.t.piece((s.A+1)%w.t.numPieces()), w.t.piece(s.A)) {
				break
			}
		}
	}
}

// --- linearizability of the calls on one piece

type pstate struct {
	status int // 0 open, 1 failed, 2 complete
	have   uint64
	bad    bool
}

func (w *storageWorld) checkHistories() {
	for i := 0; i < w.t.numPieces(); i++ {
		h := w.hist[i]
		if len(h) > 60 {
			probe("history-too-long")
			continue
		}
		init := pstate{}
		if w.initialComplete(i) {
			init.status = 2
		}
		if !linearizable(h, init, w.t.numBlocks(i), w.faulty) {
			var sb strings.Builder
			for _, o := range h {
				fmt.Fprintf(&sb, " [%d-%d %s b%d good=%v -> %s]", o.call, o.ret, o.kind, o.block, o.good, o.res)
			}
			violate("C04", "not-linearizable", "calls on piece %d fit no sequential order (complete at start: %v):%s", i, init.status == 2, sb.String())
			return
		}
		probe("histories-checked")
	}
}

var loadedComplete map[int]bool

func (w *storageWorld) initialComplete(i int) bool {
	// A piece was complete from the start iff no accepted put of this life
	// precedes the first observation; simply: it was in the bitfield after Load.
	return w.seen[i] && !w.anyAccepted(i)
}

func (w *storageWorld) anyAccepted(i int) bool {
	for _, o := range w.hist[i] {
		if o.kind == "put" && (o.res == "ok" || o.res == "err") {
			return true
		}
	}
	return false
}

func linearizable(h []*sop, init pstate, nb int, faulty bool) bool {
	full := uint64(1)<<nb - 1
	type key struct {
		done uint64
		s    pstate
	}
	seen := map[key]bool{}
	var rec func(done uint64, s pstate) bool
	rec = func(done uint64, s pstate) bool {
		if done == uint64(1)<<len(h)-1 {
			return true
		}
		k := key{done, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := 1 << 61
		for j, o := range h {
			if done&(1<<j) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for j, o := range h {
			if done&(1<<j) != 0 || o.call > minRet {
				continue
			}
			for _, n := range modelStep(s, o, full, faulty) {
				if rec(done|1<<j, n) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

// modelStep returns the states the model can be in after o, given its result.
func modelStep(s pstate, o *sop, full uint64, faulty bool) []pstate {
	switch o.kind {
	case "reset":
		if s.status == 2 {
			return []pstate{s}
		}
		return []pstate{{}}
	case "get":
		if o.res == "ok" {
			if s.status == 2 {
				return []pstate{s}
			}
			return nil
		}
		if s.status != 2 || faulty {
			return []pstate{s}
		}
		return nil
	case "wait":
		if (o.res == "ok") == (s.status == 2) {
			return []pstate{s}
		}
		return nil
	case "put":
		bit := uint64(1) << o.block
		if s.status != 0 || s.have&bit != 0 {
			if o.res == "exists" {
				return []pstate{s}
			}
			return nil
		}
		n := pstate{0, s.have | bit, s.bad || !o.good}
		if n.have != full {
			if o.res == "ok" {
				return []pstate{n}
			}
			return nil
		}
		switch o.res {
		case "ok":
			if !n.bad {
				return []pstate{{status: 2}}
			}
		case "checksum":
			if n.bad {
				return []pstate{{status: 1}}
			}
		case "err":
			if faulty {
				if n.bad {
					return []pstate{{status: 1}}
				}
				return []pstate{{status: 1}, {status: 2}}
			}
		}
	}
	return nil
}
