package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// simFS is an in-memory disk with a durability model.
//
// Namespace operations go to an ordered journal; a power loss keeps a prefix
// of it (as the metadata journals of ext4 and XFS do). File contents written
// since the last fsync of the file may be lost wholly or in part, page by
// page, with the size already extended. fsync of anything commits the journal
// up to that point. A process kill keeps everything.
type simFS struct {
	host    *host
	root    *inode
	nextIno uint64
	journal []jop
	links   int // symbolic links there are
	rng     *rng

	calls     int            // system calls seen
	writes    int            // mutating system calls seen
	perOp     map[string]int // calls by operation name
	faults    []*fsFault
	phase     func(string) bool
	full      bool // every allocation fails with ENOSPC
	slowMs    int64
	slowEvery int
	onMutate  func(p *proc, op, path, path2 string)
	onCall    func(p *proc, op, path string) // may kill the process
	crashAt   int                            // kill at this mutating call (1-based), 0 = never
	crashMode string                         // "before", "after"
	onOpen    func(p *proc, n int)           // called when n files are open
	onCrash   func(p *proc)
	inodes    []*inode
}

type inode struct {
	ino     uint64
	dir     bool
	link    string // what a symbolic link names
	mode    uint32
	data    []byte
	entries map[string]*inode

	durData    []byte
	durEntries map[string]*inode
	dirty      bool
	mtime      int64
}

// jop is a pending namespace operation.
type jop struct {
	dir   *inode
	name  string
	to    *inode // nil: removal
	dir2  *inode // rename: second half in the same transaction
	name2 string
	to2   *inode
}

type simFile struct {
	in    *inode
	path  string
	pos   int64
	flags int
	names []string // directory stream
	dpos  int
}

// fsFault makes a system call fail: the nth call of op counted from when the
// fault was armed, on paths containing sub, for count calls.
type fsFault struct {
	op    string // "write", "openat", ..., "mut" (any mutating), "any"
	sub   string
	nth   int
	count int
	errno syscall.Errno // 0: short write or read
	torn  bool          // the first of the calls is cut short, the rest fail
	phase string        // only while the harness is in this phase
	seen  int
}

func newFS(h *host, r *rng) *simFS {
	fs := &simFS{host: h, rng: r, perOp: map[string]int{}}
	fs.root = fs.newInode(true)
	h.fs = fs
	return fs
}

func (fs *simFS) newInode(dir bool) *inode {
	fs.nextIno++
	in := &inode{ino: fs.nextIno + 1000, dir: dir, mode: 0o644, mtime: nowNs()}
	if dir {
		in.entries = map[string]*inode{}
		in.durEntries = map[string]*inode{}
		in.mode = 0o755
	}
	fs.inodes = append(fs.inodes, in)
	return in
}

func splitPath(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// lookup resolves a path (".." included; there are no symbolic links).
// It returns the parent directory, the last name and the inode if it exists.
func (fs *simFS) lookup(base *inode, path string, follow bool) (dir *inode, name string, in *inode, err syscall.Errno) {
	links := 0
again:
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	var parts []string
	cur := base
	if strings.HasPrefix(path, "/") {
		cur = fs.root
	}
	parts = splitPath(path)
	if len(parts) == 0 {
		return nil, "", cur, 0
	}
	for i, c := range parts {
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		last := i == len(parts)-1
		if c == ".." {
			cur = fs.parentOf(cur)
			if last {
				return nil, "", cur, 0
			}
			continue
		}
		nx := cur.entries[c]
		if nx != nil && nx.link != "" && (!last || follow) {
			if links++; links > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			base, path = cur, nx.link+"/"+strings.Join(parts[i+1:], "/")
			if last {
				path = nx.link
			}
			goto again
		}
		if last {
			if nx != nil && !nx.dir && strings.HasSuffix(path, "/") {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, nx, 0
		}
		if nx == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = nx
	}
	return nil, "", cur, 0
}

func (fs *simFS) parentOf(d *inode) *inode {
	for _, in := range fs.inodes {
		if in.dir {
			for _, c := range in.entries {
				if c == d {
					return in
				}
			}
		}
	}
	return fs.root
}

func (fs *simFS) pathOf(base string, p string) string {
	if strings.HasPrefix(p, "/") {
		base = ""
	}
	var out []string
	for _, c := range splitPath(base + "/" + p) {
		if c == ".." {
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			continue
		}
		out = append(out, c)
	}
	return "/" + strings.Join(out, "/")
}

func (fs *simFS) link(dir *inode, name string, in *inode) {
	dir.entries[name] = in
	fs.journal = append(fs.journal, jop{dir: dir, name: name, to: in})
}

func (fs *simFS) unlink(dir *inode, name string) {
	delete(dir.entries, name)
	fs.journal = append(fs.journal, jop{dir: dir, name: name})
}

func (j *jop) commit() {
	set := func(d *inode, n string, to *inode) {
		if to == nil {
			delete(d.durEntries, n)
		} else {
			d.durEntries[n] = to
		}
	}
	set(j.dir, j.name, j.to)
	if j.dir2 != nil {
		set(j.dir2, j.name2, j.to2)
	}
}

func (fs *simFS) commitJournal(n int) {
	for i := 0; i < n; i++ {
		fs.journal[i].commit()
	}
	fs.journal = append([]jop(nil), fs.journal[n:]...)
}

func (fs *simFS) fsync(in *inode) {
	fs.commitJournal(len(fs.journal))
	if !in.dir {
		in.durData = append([]byte(nil), in.data...)
		in.dirty = false
	}
}

// syncAll makes everything durable (a clean shutdown, or long idle time).
func (fs *simFS) syncAll() {
	fs.commitJournal(len(fs.journal))
	for _, in := range fs.inodes {
		if !in.dir && in.dirty {
			in.durData = append([]byte(nil), in.data...)
			in.dirty = false
		}
	}
}

// powerLoss reverts the disk to what had to be, or happened to be, durable.
func (fs *simFS) powerLoss() {
	keep := len(fs.journal)
	switch fs.rng.n(4) {
	case 0:
		keep = 0
	case 1, 2:
		keep = fs.rng.n(len(fs.journal) + 1)
	}
	lost := len(fs.journal) - keep
	fs.commitJournal(keep)
	fs.journal = nil
	if lost > 0 {
		fault("power-loss:lost-metadata")
	}
	for _, in := range fs.inodes {
		if in.dir {
			in.entries = map[string]*inode{}
			for k, v := range in.durEntries {
				in.entries[k] = v
			}
			continue
		}
		if !in.dirty {
			continue
		}
		switch fs.rng.n(5) {
		case 0: // nothing of it reached the disk
			in.data = append([]byte(nil), in.durData...)
			fault("power-loss:lost-writes")
		case 1: // everything did
			in.durData = append([]byte(nil), in.data...)
		case 2: // size extended, some pages never written
			nd := make([]byte, len(in.data))
			copy(nd, in.durData)
			for o := 0; o < len(nd); o += 4096 {
				if fs.rng.p(50) {
					copy(nd[o:min(o+4096, len(nd))], in.data[o:])
				}
			}
			in.data = nd
			fault("power-loss:torn-writes")
		case 3: // truncated at a page boundary
			n := 0
			if len(in.data) > 0 {
				n = fs.rng.n(len(in.data)/4096+1) * 4096
			}
			in.data = append([]byte(nil), in.data[:min(n, len(in.data))]...)
			fault("power-loss:short-file")
		case 4: // one page lost
			nd := append([]byte(nil), in.data...)
			if len(nd) > 0 {
				o := fs.rng.n(len(nd)/4096+1) * 4096
				for i := o; i < min(o+4096, len(nd)); i++ {
					nd[i] = 0
				}
			}
			in.data = nd
			fault("power-loss:lost-page")
		}
		in.durData = append([]byte(nil), in.data...)
		in.dirty = false
	}
}

// --- direct access for the harness (no faults, no journal)

func (fs *simFS) get(path string) *inode {
	_, _, in, err := fs.lookup(fs.root, path, true)
	if err != 0 {
		return nil
	}
	return in
}

func (fs *simFS) mkdirAll(path string) *inode {
	cur := fs.root
	for _, c := range splitPath(path) {
		nx := cur.entries[c]
		if nx == nil {
			nx = fs.newInode(true)
			cur.entries[c] = nx
			cur.durEntries[c] = nx
		}
		cur = nx
	}
	return cur
}

func (fs *simFS) put(path string, data []byte) {
	parts := splitPath(path)
	d := fs.mkdirAll(strings.Join(parts[:len(parts)-1], "/"))
	in := fs.newInode(false)
	in.data = append([]byte(nil), data...)
	in.durData = append([]byte(nil), data...)
	d.entries[parts[len(parts)-1]] = in
	d.durEntries[parts[len(parts)-1]] = in
}

// symlink makes a symbolic link.
func (fs *simFS) symlink(path, target string) {
	fs.put(path, []byte("-> "+target))
	_, _, in, _ := fs.lookup(fs.root, path, false)
	in.link = target
	fs.links++
}

// realPath is the path of a directory or link, without links.
func (fs *simFS) realPath(d *inode) string {
	if d == fs.root {
		return "/"
	}
	var rec func(prefix string, in *inode) string
	rec = func(prefix string, in *inode) string {
		for _, n := range sortedKeys(in.entries) {
			c := in.entries[n]
			if c == d {
				return prefix + "/" + n
			}
			if c.dir {
				if s := rec(prefix+"/"+n, c); s != "" {
					return s
				}
			}
		}
		return ""
	}
	return rec("", fs.root)
}

// walk lists every path below p with its contents (directories end in /).
func (fs *simFS) walk(p string) map[string][]byte {
	out := map[string][]byte{}
	in := fs.get(p)
	if in == nil {
		return out
	}
	var rec func(prefix string, in *inode)
	rec = func(prefix string, in *inode) {
		if !in.dir {
			out[prefix] = in.data
			return
		}
		if prefix != p {
			out[prefix+"/"] = nil
		}
		for n, c := range in.entries {
			rec(strings.TrimSuffix(prefix, "/")+"/"+n, c)
		}
	}
	rec(p, in)
	return out
}

func (fs *simFS) snapshot() string {
	var sb strings.Builder
	w := fs.walk("/")
	for _, k := range sortedKeys(w) {
		fmt.Fprintf(&sb, "%s(%d) ", k, len(w[k]))
	}
	return sb.String()
}

// --- system calls

func installKernel() {
	syscall.SimSyscall = kernel
}

const atFDCWD = -100

//go:nocheckptr
func cstr(p uintptr) string {
	var b []byte
	for q := (*byte)(unsafe.Pointer(p)); *q != 0; q = (*byte)(unsafe.Add(unsafe.Pointer(q), 1)) {
		b = append(b, *q)
		if len(b) > 1<<16 {
			break
		}
	}
	return string(b)
}

//go:nocheckptr
func ubuf(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

// unowned allocates what is the disk's, not the client's.
func unowned(f func()) {
	defer runtime.SimSetNode(runtime.SimNode())
	runtime.SimSetNode(0)
	f()
}

func parkForever() {
	select {}
}

const (
	sysRenameat2     = 316
	sysCopyFileRange = 326
	sysStatx         = 332
	sysGetrandom     = 318
	sysFaccessat2    = 439
)

func kernel(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	p := curProc()
	if p == nil {
		harnessError("system call %d from an unknown node %d", trap, runtime.SimNode())
		return ^uintptr(0), 0, syscall.EPERM
	}
	r, e := p.h.fs.call(p, trap, a1, a2, a3, a4, a5)
	if p.dead {
		parkForever()
	}
	if e != 0 {
		return ^uintptr(0), 0, e
	}
	return r, 0, 0
}

// before counts the call, applies delays, crashes and faults. A non-zero
// errno means the call fails; short means a write must be cut short.
func (fs *simFS) before(p *proc, op, path string, mut bool) (e syscall.Errno, short bool) {
	fs.calls++
	fs.perOp[op]++
	if mut {
		fs.writes++
	}
	if fs.slowMs > 0 && fs.slowEvery > 0 && fs.calls%fs.slowEvery == 0 {
		fault("disk:slow")
		time.Sleep(time.Duration(fs.slowMs) * time.Millisecond)
		if p.dead {
			parkForever()
		}
	}
	if fs.onCall != nil {
		fs.onCall(p, op, path)
	}
	if mut && fs.crashAt > 0 && fs.writes == fs.crashAt && fs.crashMode == "before" {
		fs.crash(p)
	}
	for _, f := range fs.faults {
		if f.op != op && f.op != "any" && !(f.op == "mut" && mut) {
			continue
		}
		if f.phase != "" && (fs.phase == nil || !fs.phase(f.phase)) {
			continue
		}
		if f.sub != "" && !strings.Contains(path, f.sub) {
			continue
		}
		f.seen++
		if f.seen >= f.nth && f.seen < f.nth+f.count {
			if f.errno == 0 || f.torn && f.seen == f.nth {
				if op != "read" && op != "write" {
					continue
				}
				short = true
				fault("disk:short-" + op)
				note("disk: short %s %s", op, path)
				continue
			}
			fault("disk:" + op + ":" + errName(f.errno))
			note("disk: %s %s fails with %s", op, path, errName(f.errno))
			return f.errno, false
		}
	}
	return 0, short
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EDQUOT:
		return "EDQUOT"
	}
	return e.Error()
}

func (fs *simFS) crash(p *proc) {
	fault("crash:at-syscall")
	note("crash of %s (node %d) at mutating call %d", p.h.name, p.node, fs.writes)
	fs.crashAt = 0
	p.kill(true)
	if fs.onCrash != nil {
		fs.onCrash(p)
	}
	parkForever()
}

func (fs *simFS) after(p *proc, mut bool) {
	if mut && fs.crashAt > 0 && fs.writes == fs.crashAt && fs.crashMode == "after" {
		fs.crash(p)
	}
}

func (fs *simFS) mutate(p *proc, op, path, path2 string) {
	if traceOn {
		note("fs[%s] %s %s %s", p.h.name, op, path, path2)
	}
	if fs.onMutate != nil {
		fs.onMutate(p, op, path, path2)
	}
}

func (p *proc) file(fd uintptr) *simFile {
	return p.fds[int(int32(fd))]
}

func (p *proc) openFD(f *simFile) uintptr {
	if p.dead {
		parkForever()
	}
	p.nfd++
	p.fds[p.nfd] = f
	if p.h.fs.onOpen != nil {
		p.h.fs.onOpen(p, len(p.fds))
	}
	return uintptr(p.nfd)
}

func (p *proc) base(dirfd uintptr) (*inode, string, syscall.Errno) {
	if int32(dirfd) == atFDCWD {
		return p.h.fs.root, "/", 0
	}
	f := p.file(dirfd)
	if f == nil {
		return nil, "", syscall.EBADF
	}
	return f.in, f.path, 0
}

func (fs *simFS) call(p *proc, trap, a1, a2, a3, a4, a5 uintptr) (uintptr, syscall.Errno) {
	at := func(dirfd, path uintptr) (dir *inode, name string, in *inode, full string, e syscall.Errno) {
		s := cstr(path)
		b, bp, e := p.base(dirfd)
		if e != 0 && !strings.HasPrefix(s, "/") {
			return nil, "", nil, "", e
		}
		if b == nil {
			b, bp = fs.root, "/"
		}
		full = fs.pathOf(bp, s)
		follow := true
		switch trap {
		case syscall.SYS_LSTAT, syscall.SYS_UNLINK, syscall.SYS_UNLINKAT, syscall.SYS_RMDIR, syscall.SYS_MKDIR, syscall.SYS_MKDIRAT, syscall.SYS_RENAME, syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_LINKAT, syscall.SYS_READLINK, syscall.SYS_READLINKAT:
			follow = false
		case syscall.SYS_NEWFSTATAT:
			follow = a4&0x100 == 0
		case syscall.SYS_OPEN:
			follow = a2&syscall.O_NOFOLLOW == 0 && a2&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
		case syscall.SYS_OPENAT:
			follow = a3&syscall.O_NOFOLLOW == 0 && a3&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
		}
		dir, name, in, e = fs.lookup(b, s, follow)
		if e == 0 && fs.links > 0 {
			// where it really is
			switch {
			case dir != nil:
				full = strings.TrimSuffix(fs.realPath(dir), "/") + "/" + name
			case in != nil:
				full = fs.realPath(in)
			}
		}
		return
	}
	switch trap {
	case syscall.SYS_OPEN:
		return fs.openat(p, at, ^uintptr(99), a1, int(a2), uint32(a3))
	case syscall.SYS_OPENAT:
		return fs.openat(p, at, a1, a2, int(a3), uint32(a4))
	case syscall.SYS_CLOSE:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		e, _ := fs.before(p, "close", f.path, false)
		delete(p.fds, int(int32(a1)))
		return 0, e
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		e, short := fs.before(p, "read", f.path, false)
		if e != 0 {
			return 0, e
		}
		if f.in.dir {
			return 0, syscall.EISDIR
		}
		off := f.pos
		if trap == syscall.SYS_PREAD64 {
			off = int64(a4)
		}
		if off < 0 {
			return 0, syscall.EINVAL
		}
		buf := ubuf(a2, a3)
		if short && len(buf) > 1 {
			buf = buf[:1+fs.rng.n(len(buf)-1)]
		}
		n := 0
		if off < int64(len(f.in.data)) {
			n = copy(buf, f.in.data[off:])
		}
		if trap == syscall.SYS_READ {
			f.pos += int64(n)
		}
		return uintptr(n), 0
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		e, short := fs.before(p, "write", f.path, true)
		if e != 0 {
			return 0, e
		}
		if f.in.dir || f.flags&3 == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		if fs.full {
			fault("disk:full")
			return 0, syscall.ENOSPC
		}
		buf := ubuf(a2, a3)
		if short && len(buf) > 1 {
			buf = buf[:1+fs.rng.n(len(buf)-1)]
		}
		off := f.pos
		if trap == syscall.SYS_PWRITE64 {
			off = int64(a4)
		} else if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(f.in.data))
		}
		end := off + int64(len(buf))
		if end > int64(len(f.in.data)) {
			unowned(func() { f.in.data = append(f.in.data, make([]byte, end-int64(len(f.in.data)))...) })
		}
		copy(f.in.data[off:end], buf)
		f.in.dirty = true
		f.in.mtime = nowNs()
		if trap == syscall.SYS_WRITE {
			f.pos = end
		}
		fs.mutate(p, "write", f.path, "")
		fs.after(p, true)
		return uintptr(len(buf)), 0
	case syscall.SYS_LSEEK:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		switch int(a3) {
		case 0:
			f.pos = int64(a2)
		case 1:
			f.pos += int64(a2)
		case 2:
			f.pos = int64(len(f.in.data)) + int64(a2)
		default:
			return 0, syscall.EINVAL
		}
		if f.in.dir && f.pos == 0 {
			f.names, f.dpos = nil, 0
		}
		return uintptr(f.pos), 0
	case syscall.SYS_FSTAT:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		if e, _ := fs.before(p, "stat", f.path, false); e != 0 {
			return 0, e
		}
		fillStat(f.in, a2)
		return 0, 0
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		_, _, in, full, e := at(^uintptr(99), a1)
		return fs.stat(p, in, full, e, a2)
	case syscall.SYS_NEWFSTATAT:
		s := cstr(a2)
		if s == "" {
			f := p.file(a1)
			if f == nil {
				return 0, syscall.EBADF
			}
			return fs.stat(p, f.in, f.path, 0, a3)
		}
		_, _, in, full, e := at(a1, a2)
		return fs.stat(p, in, full, e, a3)
	case syscall.SYS_GETDENTS64:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		if e, _ := fs.before(p, "getdents", f.path, false); e != 0 {
			return 0, e
		}
		return fs.getdents(f, ubuf(a2, a3))
	case syscall.SYS_MKDIR, syscall.SYS_MKDIRAT:
		fd, path := ^uintptr(99), a1
		if trap == syscall.SYS_MKDIRAT {
			fd, path = a1, a2
		}
		dir, name, in, full, e := at(fd, path)
		if e2, _ := fs.before(p, "mkdir", full, true); e2 != 0 {
			return 0, e2
		}
		dir, name, in, full, e = at(fd, path) // before may take time
		if e != 0 {
			return 0, e
		}
		if in != nil || dir == nil {
			return 0, syscall.EEXIST
		}
		if fs.full {
			fault("disk:full")
			return 0, syscall.ENOSPC
		}
		fs.link(dir, name, fs.newInode(true))
		fs.mutate(p, "mkdir", full, "")
		fs.after(p, true)
		return 0, 0
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR, syscall.SYS_UNLINKAT:
		fd, path, rmdir := ^uintptr(99), a1, trap == syscall.SYS_RMDIR
		if trap == syscall.SYS_UNLINKAT {
			fd, path, rmdir = a1, a2, a3&0x200 != 0
		}
		dir, name, in, full, e := at(fd, path)
		if e2, _ := fs.before(p, "unlink", full, true); e2 != 0 {
			return 0, e2
		}
		dir, name, in, full, e = at(fd, path)
		if e != 0 {
			return 0, e
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		if dir == nil {
			return 0, syscall.EBUSY
		}
		if rmdir {
			if !in.dir {
				return 0, syscall.ENOTDIR
			}
			if len(in.entries) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if in.dir {
			return 0, syscall.EISDIR
		}
		fs.unlink(dir, name)
		fs.mutate(p, "unlink", full, "")
		fs.after(p, true)
		return 0, 0
	case syscall.SYS_RENAME, syscall.SYS_RENAMEAT, sysRenameat2:
		fd1, p1, fd2, p2 := ^uintptr(99), a1, ^uintptr(99), a2
		if trap != syscall.SYS_RENAME {
			fd1, p1, fd2, p2 = a1, a2, a3, a4
		}
		return fs.rename(p, at, fd1, p1, fd2, p2, trap == sysRenameat2 && a5&1 != 0)
	case syscall.SYS_LINKAT:
		_, _, in, full, e := at(a1, a2)
		dir2, name2, in2, full2, e2 := at(a3, a4)
		if e3, _ := fs.before(p, "link", full2, true); e3 != 0 {
			return 0, e3
		}
		_, _, in, full, e = at(a1, a2)
		dir2, name2, in2, full2, e2 = at(a3, a4)
		if e != 0 {
			return 0, e
		}
		if e2 != 0 {
			return 0, e2
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		if in2 != nil || dir2 == nil {
			return 0, syscall.EEXIST
		}
		if in.dir {
			return 0, syscall.EPERM
		}
		fs.link(dir2, name2, in)
		fs.mutate(p, "link", full, full2)
		fs.after(p, true)
		return 0, 0
	case syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE, syscall.SYS_FALLOCATE:
		var in *inode
		var full string
		size := int64(a2)
		if trap == syscall.SYS_TRUNCATE {
			var e syscall.Errno
			_, _, in, full, e = at(^uintptr(99), a1)
			if e != 0 {
				return 0, e
			}
			if in == nil {
				return 0, syscall.ENOENT
			}
		} else {
			f := p.file(a1)
			if f == nil {
				return 0, syscall.EBADF
			}
			in, full = f.in, f.path
			if trap == syscall.SYS_FALLOCATE {
				size = max(int64(len(in.data)), int64(a3)+int64(a4))
			}
		}
		if e, _ := fs.before(p, "truncate", full, true); e != 0 {
			return 0, e
		}
		if in.dir {
			return 0, syscall.EISDIR
		}
		if size < 0 || size > 1<<32 {
			return 0, syscall.EFBIG
		}
		if size > int64(len(in.data)) && fs.full {
			fault("disk:full")
			return 0, syscall.ENOSPC
		}
		unowned(func() {
			nd := make([]byte, size)
			copy(nd, in.data)
			in.data = nd
		})
		in.dirty = true
		fs.mutate(p, "truncate", full, "")
		fs.after(p, true)
		return 0, 0
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		f := p.file(a1)
		if f == nil {
			return 0, syscall.EBADF
		}
		if e, _ := fs.before(p, "fsync", f.path, true); e != 0 {
			return 0, e
		}
		unowned(func() { fs.fsync(f.in) })
		if traceOn {
			note("fs[%s] fsync %s", p.h.name, f.path)
		}
		fs.after(p, true)
		return 0, 0
	case syscall.SYS_SYNC:
		unowned(fs.syncAll)
		return 0, 0
	case syscall.SYS_FCHMOD, syscall.SYS_FCHMODAT, syscall.SYS_CHMOD, syscall.SYS_UTIMENSAT:
		return 0, 0
	case syscall.SYS_FACCESSAT, sysFaccessat2:
		_, _, in, _, e := at(a1, a2)
		if e != 0 {
			return 0, e
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		return 0, 0
	case syscall.SYS_FLOCK:
		return 0, 0
	case syscall.SYS_READLINKAT, syscall.SYS_READLINK:
		fd, path, buf, n := a1, a2, a3, a4
		if trap == syscall.SYS_READLINK {
			fd, path, buf, n = ^uintptr(99), a1, a2, a3
		}
		_, _, in, _, e := at(fd, path)
		switch {
		case e != 0:
			return 0, e
		case in == nil:
			return 0, syscall.ENOENT
		case in.link == "":
			return 0, syscall.EINVAL
		}
		return uintptr(copy(ubuf(buf, n), in.link)), 0
	case syscall.SYS_FCNTL:
		return 0, syscall.EINVAL
	case sysGetrandom:
		copy(ubuf(a1, a2), p.h.rng.bytes(int(a2)))
		return a2, 0
	case sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, sysStatx:
		return 0, syscall.ENOSYS
	case syscall.SYS_GETCWD:
		b := ubuf(a1, a2)
		if len(b) < 2 {
			return 0, syscall.ERANGE
		}
		b[0], b[1] = '/', 0
		return 2, 0
	case syscall.SYS_UNAME, syscall.SYS_PRLIMIT64:
		return 0, 0
	}
	probe(fmt.Sprintf("syscall-refused:%d", trap))
	return 0, syscall.EPERM
}

type atFunc func(dirfd, path uintptr) (dir *inode, name string, in *inode, full string, e syscall.Errno)

func (fs *simFS) openat(p *proc, at atFunc, dirfd, path uintptr, flags int, mode uint32) (uintptr, syscall.Errno) {
	dir, name, in, full, e := at(dirfd, path)
	mut := flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	if e2, _ := fs.before(p, "open", full, mut); e2 != 0 {
		return 0, e2
	}
	dir, name, in, full, e = at(dirfd, path)
	if e != 0 {
		return 0, e
	}
	if in == nil {
		if flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT
		}
		if dir == nil {
			return 0, syscall.ENOENT
		}
		if fs.full {
			fault("disk:full")
			return 0, syscall.ENOSPC
		}
		in = fs.newInode(false)
		fs.link(dir, name, in)
		fs.mutate(p, "create", full, "")
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if in.link != "" {
			return 0, syscall.ELOOP
		}
		if in.dir && flags&3 != syscall.O_RDONLY {
			return 0, syscall.EISDIR
		}
		if !in.dir && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.ENOTDIR
		}
		if flags&syscall.O_TRUNC != 0 && !in.dir {
			in.data = nil
			in.dirty = true
			fs.mutate(p, "truncate", full, "")
		}
	}
	fd := p.openFD(&simFile{in: in, path: full, flags: flags})
	fs.after(p, mut)
	return fd, 0
}

func (fs *simFS) rename(p *proc, at atFunc, fd1, p1, fd2, p2 uintptr, noreplace bool) (uintptr, syscall.Errno) {
	dir, name, in, full, e := at(fd1, p1)
	dir2, name2, in2, full2, e2 := at(fd2, p2)
	if e3, _ := fs.before(p, "rename", full2, true); e3 != 0 {
		return 0, e3
	}
	dir, name, in, full, e = at(fd1, p1)
	dir2, name2, in2, full2, e2 = at(fd2, p2)
	if e != 0 {
		return 0, e
	}
	if e2 != 0 {
		return 0, e2
	}
	if in == nil {
		return 0, syscall.ENOENT
	}
	if dir == nil || dir2 == nil {
		return 0, syscall.EBUSY
	}
	if in == in2 {
		return 0, 0
	}
	if in2 != nil {
		switch {
		case noreplace:
			return 0, syscall.EEXIST
		case in.dir && !in2.dir:
			return 0, syscall.ENOTDIR
		case !in.dir && in2.dir:
			return 0, syscall.EISDIR
		case in2.dir && len(in2.entries) > 0:
			return 0, syscall.ENOTEMPTY
		}
	}
	if in.dir && strings.HasPrefix(full2+"/", full+"/") {
		return 0, syscall.EINVAL
	}
	delete(dir.entries, name)
	dir2.entries[name2] = in
	fs.journal = append(fs.journal, jop{dir: dir, name: name, dir2: dir2, name2: name2, to2: in})
	fs.mutate(p, "rename", full, full2)
	fs.after(p, true)
	return 0, 0
}

func (fs *simFS) stat(p *proc, in *inode, full string, e syscall.Errno, buf uintptr) (uintptr, syscall.Errno) {
	if e2, _ := fs.before(p, "stat", full, false); e2 != 0 {
		return 0, e2
	}
	if e != 0 {
		return 0, e
	}
	if in == nil {
		return 0, syscall.ENOENT
	}
	fillStat(in, buf)
	return 0, 0
}

func fillStat(in *inode, buf uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(buf))
	*st = syscall.Stat_t{}
	st.Ino = in.ino
	st.Dev = 77
	st.Nlink = 1
	st.Size = int64(len(in.data))
	st.Blksize = 4096
	st.Mtim = syscall.NsecToTimespec(in.mtime)
	if in.dir {
		st.Mode = syscall.S_IFDIR | in.mode
		st.Size = 4096
	} else if in.link != "" {
		st.Mode = syscall.S_IFLNK | 0o777
		st.Size = int64(len(in.link))
	} else {
		st.Mode = syscall.S_IFREG | in.mode
	}
}

func (fs *simFS) getdents(f *simFile, buf []byte) (uintptr, syscall.Errno) {
	if !f.in.dir {
		return 0, syscall.ENOTDIR
	}
	if f.names == nil {
		for n := range f.in.entries {
			f.names = append(f.names, n)
		}
		sort.Strings(f.names)
		for i, j := range fs.rng.perm(len(f.names)) {
			if i < j {
				f.names[i], f.names[j] = f.names[j], f.names[i]
			}
		}
		if f.names == nil {
			f.names = []string{}
		}
	}
	n := 0
	for f.dpos < len(f.names) {
		name := f.names[f.dpos]
		in := f.in.entries[name]
		if in == nil {
			f.dpos++
			continue
		}
		l := (19 + len(name) + 1 + 7) &^ 7
		if n+l > len(buf) {
			break
		}
		b := buf[n : n+l]
		for i := range b {
			b[i] = 0
		}
		binary.LittleEndian.PutUint64(b[0:], in.ino)
		binary.LittleEndian.PutUint64(b[8:], uint64(f.dpos+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(l))
		b[18] = 8
		if in.dir {
			b[18] = 4
		} else if in.link != "" {
			b[18] = 10
		}
		copy(b[19:], name)
		n += l
		f.dpos++
	}
	return uintptr(n), 0
}

// sameTree compares a directory with expected files.
func (fs *simFS) sameFile(path string, want []byte) bool {
	in := fs.get(path)
	return in != nil && !in.dir && bytes.Equal(in.data, want)
}

// openFDs counts descriptors a process holds.
func (p *proc) openFDs() []string {
	var out []string
	for _, f := range p.fds {
		out = append(out, f.path)
	}
	sort.Strings(out)
	return out
}
