package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"sort"
	"strings"

	"github.com/browles/drip/api/metainfo"
)

const blockLen = 1 << 14

// simTorrent is a torrent made up by the harness: contents and metainfo.
type simTorrent struct {
	name     string
	pieceLen int
	data     []byte
	hashes   [][20]byte
	files    []simTFile // nil for single-file torrents
	infohash [20]byte
}

type simTFile struct {
	path []string
	n    int
}

func (t *simTorrent) numPieces() int { return len(t.hashes) }

func (t *simTorrent) piece(i int) []byte {
	if i < 0 || i >= len(t.hashes) {
		return nil
	}
	a := i * t.pieceLen
	return t.data[a:min(a+t.pieceLen, len(t.data))]
}

func (t *simTorrent) numBlocks(i int) int { return (len(t.piece(i)) + blockLen - 1) / blockLen }

func (t *simTorrent) block(i, b int) []byte {
	p := t.piece(i)
	return p[b*blockLen : min((b+1)*blockLen, len(p))]
}

// benc is an independent bencoder for the harness's own documents.
func benc(v any) []byte {
	var b bytes.Buffer
	var enc func(v any)
	enc = func(v any) {
		switch v := v.(type) {
		case int:
			fmt.Fprintf(&b, "i%de", v)
		case string:
			fmt.Fprintf(&b, "%d:%s", len(v), v)
		case []byte:
			fmt.Fprintf(&b, "%d:%s", len(v), v)
		case []any:
			b.WriteByte('l')
			for _, x := range v {
				enc(x)
			}
			b.WriteByte('e')
		case map[string]any:
			b.WriteByte('d')
			ks := make([]string, 0, len(v))
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				enc(k)
				enc(v[k])
			}
			b.WriteByte('e')
		default:
			panic(fmt.Sprintf("benc: %T", v))
		}
	}
	enc(v)
	return b.Bytes()
}

// bdec is an independent, strict bencode parser; it returns the value and the
// number of bytes used, or an error.
func bdec(b []byte) (v any, n int, err error) {
	if len(b) == 0 {
		return nil, 0, fmt.Errorf("empty")
	}
	switch {
	case b[0] == 'i':
		e := bytes.IndexByte(b, 'e')
		if e < 0 {
			return nil, 0, fmt.Errorf("unterminated int")
		}
		var x int
		s := string(b[1:e])
		if _, err := fmt.Sscanf(s, "%d", &x); err != nil || fmt.Sprint(x) != s {
			return nil, 0, fmt.Errorf("bad int %q", s)
		}
		return x, e + 1, nil
	case b[0] == 'l':
		out := []any{}
		n = 1
		for n < len(b) && b[n] != 'e' {
			x, k, err := bdec(b[n:])
			if err != nil {
				return nil, 0, err
			}
			out = append(out, x)
			n += k
		}
		if n >= len(b) {
			return nil, 0, fmt.Errorf("unterminated list")
		}
		return out, n + 1, nil
	case b[0] == 'd':
		out := map[string]any{}
		n = 1
		last := ""
		first := true
		for n < len(b) && b[n] != 'e' {
			k, used, err := bdec(b[n:])
			if err != nil {
				return nil, 0, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, 0, fmt.Errorf("key is %T", k)
			}
			if !first && ks <= last {
				return nil, 0, fmt.Errorf("keys not sorted")
			}
			first, last = false, ks
			n += used
			x, used, err := bdec(b[n:])
			if err != nil {
				return nil, 0, err
			}
			out[ks] = x
			n += used
		}
		if n >= len(b) {
			return nil, 0, fmt.Errorf("unterminated dict")
		}
		return out, n + 1, nil
	case b[0] >= '0' && b[0] <= '9':
		c := bytes.IndexByte(b, ':')
		if c < 0 || c > 12 {
			return nil, 0, fmt.Errorf("bad string")
		}
		var l int
		if _, err := fmt.Sscanf(string(b[:c]), "%d", &l); err != nil || fmt.Sprint(l) != string(b[:c]) {
			return nil, 0, fmt.Errorf("bad string length %q", b[:c])
		}
		if c+1+l > len(b) {
			return nil, 0, fmt.Errorf("short string")
		}
		return string(b[c+1 : c+1+l]), c + 1 + l, nil
	}
	return nil, 0, fmt.Errorf("bad prefix %q", b[0])
}

func (t *simTorrent) infoDict() map[string]any {
	var ps []byte
	for _, h := range t.hashes {
		ps = append(ps, h[:]...)
	}
	d := map[string]any{"name": t.name, "piece length": t.pieceLen, "pieces": ps}
	if t.files == nil {
		d["length"] = len(t.data)
	} else {
		var fs []any
		for _, f := range t.files {
			var p []any
			for _, c := range f.path {
				p = append(p, c)
			}
			if p == nil {
				p = []any{}
			}
			fs = append(fs, map[string]any{"length": f.n, "path": p})
		}
		d["files"] = fs
	}
	return d
}

func (t *simTorrent) finish() {
	t.hashes = nil
	for a := 0; a < len(t.data); a += t.pieceLen {
		t.hashes = append(t.hashes, sha1.Sum(t.data[a:min(a+t.pieceLen, len(t.data))]))
	}
	t.infohash = sha1.Sum(benc(t.infoDict()))
}

// info builds the structure drip works with.
func (t *simTorrent) info() *metainfo.Info {
	i := &metainfo.Info{SHA1: t.infohash, PieceLength: t.pieceLen, Name: t.name}
	i.Pieces = append(i.Pieces, t.hashes...)
	if t.files == nil {
		i.Length = int64(len(t.data))
	} else {
		for _, f := range t.files {
			i.Files = append(i.Files, &metainfo.File{Length: int64(f.n), Path: append([]string(nil), f.path...)})
		}
	}
	return i
}

// expected lists the published files: path below the target directory ->
// contents.
func (t *simTorrent) expected() map[string][]byte {
	out := map[string][]byte{}
	if t.files == nil {
		out[t.name] = t.data
		return out
	}
	o := 0
	for _, f := range t.files {
		out[t.name+"/"+strings.Join(f.path, "/")] = t.data[o : o+f.n]
		o += f.n
	}
	return out
}

// Geometry parameters go into the plan so that the minimiser can see them.
//
//	plen: piece length, total: total length, files: number of files (0 single)
//	fcut: seed of the file boundaries
func genGeometry(r *rng, p *Plan, maxPieces int) {
	pl := pick(r, blockLen, blockLen, 2*blockLen, 2*blockLen, 3*blockLen, blockLen+blockLen/2, 2*blockLen+100, blockLen/2, 1000, 4*blockLen)
	np := r.in(1, maxPieces)
	if r.p(4) {
		// more pieces than a byte counts, and files of a few bytes
		pl = r.in(1, 40)
		np = pick(r, 255, 256, 257, 300, 520)
		if maxPieces < 5 {
			np = pick(r, 100, 257, 300)
		}
	}
	last := pl
	switch r.n(5) {
	case 0:
		last = r.in(1, pl)
	case 1:
		last = 1
	case 2:
		last = min(pl, blockLen)
	case 3:
		last = max(1, pl-r.in(1, 1000))
		last = min(last, pl)
	}
	p.set("plen", pl)
	p.set("total", (np-1)*pl+last)
	if r.p(50) {
		p.set("files", r.in(1, 5))
		p.set("fcut", r.in(1, 1<<30))
	}
}

func makeTorrent(p *Plan, name string) *simTorrent {
	t := &simTorrent{name: name, pieceLen: p.cfg("plen")}
	t.data = newRng(p.Seed, "data").bytes(p.cfg("total"))
	if nf := p.cfg("files"); nf > 0 {
		r := newRng(uint64(p.cfg("fcut")), "files")
		cuts := []int{0, len(t.data)}
		for i := 0; i < nf-1; i++ {
			c := r.n(len(t.data) + 1)
			switch r.n(4) {
			case 0:
				c = min(len(t.data), (c/t.pieceLen)*t.pieceLen)
			case 1:
				c = cuts[r.n(len(cuts))] // an empty file
			case 2:
				c = min(len(t.data), (c/blockLen)*blockLen)
			}
			cuts = append(cuts, c)
		}
		sort.Ints(cuts)
		for i := 0; i < nf; i++ {
			var path []string
			for d := r.n(3); d > 0; d-- {
				path = append(path, pick(r, "d", "e e", "sub"))
			}
			path = append(path, fmt.Sprintf("f%d.bin", i))
			t.files = append(t.files, simTFile{path, cuts[i+1] - cuts[i]})
		}
	}
	t.finish()
	return t
}
