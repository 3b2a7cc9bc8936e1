package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"

	"crypto/sha1"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/bitfield"
)

// World "codec": the streaming decoders and encoders at the mercy of the
// connection. Several goroutines read values and messages from streams that
// arrive in arbitrary fragments, stall, end early, fail or are damaged, and
// write to connections that fail after some bytes.
//
// Steps (each is a stream of its own, Who names the goroutine that works on
// it, A seeds its content, C places the fault):
//
//	dec   B=fault    bencoded values are read
//	enc   B=fault    values are encoded
//	msgs  B=fault    a handshake and messages are read
//	menc  B=fault    a handshake and messages are written
func init() { worlds["codec"] = world{genCodec, runCodec} }

const (
	cfNone    = iota
	cfCut     // the stream ends early
	cfFail    // the stream fails with an error
	cfFailEOF // the last bytes arrive together with the error
	cfDamage  // some bytes are changed
	cfClaim   // a length is claimed that is never delivered
	cfDeep    // nested as deep as the bytes allow
	cfJunk    // not a document at all
	cfKinds
)

var cfNames = []string{"none", "end-early", "read-error", "data-with-error", "damaged", "huge-claim", "deep-nesting", "junk"}

func genCodec(prop string, r *rng, p *Plan) {
	p.Sched.steady()
	p.set("workers", r.in(1, 4))
	n := r.in(20, 60)
	for i := 0; i < n; i++ {
		kinds := []string{"dec", "dec", "dec", "enc", "msgs", "menc"}
		if prop == "C15" {
			kinds = []string{"dec", "msgs", "msgs", "menc"}
		} else if prop == "C16" {
			kinds = []string{"dec", "dec", "dec", "enc"}
		}
		s := Step{Kind: kinds[r.n(len(kinds))], Who: fmt.Sprint(r.n(p.cfg("workers"))), A: r.n(1 << 40), C: r.n(1 << 20)}
		switch s.Kind {
		case "dec":
			s.B = pick(r, cfNone, cfNone, cfCut, cfCut, cfFail, cfFailEOF, cfDamage, cfDamage, cfClaim, cfJunk, cfJunk)
			if r.p(1) {
				s.B = cfDeep
			}
		case "msgs":
			s.B = pick(r, cfNone, cfNone, cfCut, cfCut, cfFail, cfFailEOF, cfDamage, cfClaim, cfJunk)
		default:
			s.B = pick(r, cfNone, cfCut, cfFail)
		}
		p.add(s)
	}
}

var errInjected = errors.New("simulated stream error")

// fragReader delivers data in fragments.
type fragReader struct {
	r      *rng
	data   []byte
	mode   int
	err    error // after the data
	joined bool  // err comes with the last bytes
	after  int   // reads after the end
	zeros  int
	worker *codecWorker
}

type codecWorker struct {
	id   string
	node int32
	cur  string
}

// on runs f as a program whose allocations are measured.
func (w *codecWorker) on(f func()) {
	runtime.SimSetNode(w.node)
	defer runtime.SimSetNode(0)
	f()
}

func (f *fragReader) Read(b []byte) (int, error) {
	defer runtime.SimSetNode(f.worker.node)
	runtime.SimSetNode(0)
	if f.mode != 0 {
		switch f.r.n(24) { // stalls, empty reads and other goroutines' turns
		case 0, 1, 2:
			runtime.Gosched()
		case 3:
			sleepMs(int64(f.r.in(0, 400)))
		case 4, 5:
			if f.zeros < 20 {
				f.zeros++
				return 0, nil
			}
		}
	}
	f.zeros = 0
	if len(b) == 0 {
		return 0, nil
	}
	if len(f.data) == 0 {
		f.after++
		if f.after > 20000 {
			violate("C16", "reads-forever", "%s: the decoder keeps reading from a stream that is over (%v)", f.worker.cur, f.err)
			runtime.Goexit()
		}
		return 0, f.err
	}
	n := len(f.data)
	switch f.mode {
	case 1:
		n = 1
	case 2:
		n = f.r.in(1, 7)
	case 3:
		n = f.r.in(1, 2000)
	case 4:
		if f.r.p(50) {
			n = 1
		}
	}
	n = copy(b, f.data[:min(n, len(f.data))])
	f.data = f.data[n:]
	if len(f.data) == 0 && f.joined {
		return n, f.err
	}
	return n, nil
}

// failWriter accepts budget bytes.
type failWriter struct {
	got    []byte
	budget int
	calls  int
	failed bool
	worker *codecWorker
}

func (f *failWriter) Write(b []byte) (int, error) {
	defer runtime.SimSetNode(f.worker.node)
	runtime.SimSetNode(0)
	f.calls++
	runtime.Gosched()
	if f.failed {
		return 0, errInjected
	}
	if len(b) > f.budget {
		n := f.budget
		f.got = append(f.got, b[:n]...)
		f.budget = 0
		f.failed = true
		return n, errInjected
	}
	f.got = append(f.got, b...)
	f.budget -= len(b)
	return len(b), nil
}

// Shapes of values. Keys are what drip documents: the tag, or the field name in
// lower case.
type codecInner struct {
	X int    `bencode:"x"`
	Y string `bencode:"y,omitempty"`
}

type codecBase struct {
	BaseID   int `bencode:"base id"`
	BaseList []string
}

type codecOuter struct {
	codecBase
	Zed    string
	Count  uint32      `bencode:"count"`
	Inner  codecInner  `bencode:"inner"`
	Ptr    *codecInner `bencode:"ptr,omitempty"`
	List   []codecInner
	Raw    bencode.RawMessage `bencode:"raw"`
	Skip   int                `bencode:"-"`
	Blob   []byte             `bencode:"blob"`
	Any    any                `bencode:"any"`
	M      map[string]int64
	hidden int
}

type codecSmall struct {
	A int8
	B *string `bencode:"b"`
	C [2]uint16
}

var codecShapes = []reflect.Type{
	reflect.TypeFor[any](), reflect.TypeFor[any](), reflect.TypeFor[any](),
	reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int64](), reflect.TypeFor[uint16](), reflect.TypeFor[uint64](),
	reflect.TypeFor[string](), reflect.TypeFor[[]byte](), reflect.TypeFor[bencode.RawMessage](),
	reflect.TypeFor[[]int](), reflect.TypeFor[[]string](), reflect.TypeFor[[][]string](), reflect.TypeFor[[3]int](), reflect.TypeFor[[]any](),
	reflect.TypeFor[map[string]int](), reflect.TypeFor[map[string][]string](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[string]bencode.RawMessage](),
	reflect.TypeFor[*int](), reflect.TypeFor[[]*int](), reflect.TypeFor[map[string]*int](), reflect.TypeFor[**string](), reflect.TypeFor[[]*bencode.RawMessage](),
	reflect.TypeFor[codecInner](), reflect.TypeFor[codecOuter](), reflect.TypeFor[codecOuter](), reflect.TypeFor[*codecSmall](), reflect.TypeFor[[]codecSmall](), reflect.TypeFor[map[string]codecInner](),
}

// reusable shapes mean the same decoded into a used variable.
var codecReusable = map[reflect.Type]bool{
	reflect.TypeFor[any](): true, reflect.TypeFor[int](): true, reflect.TypeFor[string](): true, reflect.TypeFor[[]byte](): true,
	reflect.TypeFor[bencode.RawMessage](): true, reflect.TypeFor[[]int](): true, reflect.TypeFor[[]string](): true, reflect.TypeFor[[3]int](): true,
	reflect.TypeFor[[]any](): true, reflect.TypeFor[uint64](): true,
}

func codecString(r *rng) string {
	switch r.n(12) {
	case 0:
		return ""
	case 1:
		return string(r.bytes(r.in(1, 40)))
	case 2:
		return string(r.bytes(r.in(30, 600)))
	case 3:
		return pick(r, "e", "i1e", "1:", "le", "d", ":", "0:", "-1:", "%s%d")
	case 4:
		if r.p(20) {
			return string(r.bytes(r.in(4000, 20000)))
		}
	}
	return fmt.Sprintf("s%d", r.n(1000))
}

func codecKey(r *rng) string {
	for {
		if s := codecString(r); s != "" && len(s) < 700 {
			return s
		}
	}
}

func codecInt(r *rng, bits int) int {
	lo, hi := -(1 << (bits - 1)), 1<<(bits-1)-1
	switch r.n(6) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return 0
	case 3:
		return lo + r.n(200)
	case 4:
		x := int(r.u64())
		return x >> (64 - bits)
	}
	return r.in(-100, 100)
}

// anyModel makes a value and what decoding it into an any must give.
func anyModel(r *rng, depth int) any {
	k := r.n(5)
	if depth <= 0 {
		k = r.n(2)
	}
	switch k {
	case 0:
		return codecInt(r, 64)
	case 1, 2:
		return codecString(r)
	case 3:
		l := []any{}
		for i := r.n(5); i > 0; i-- {
			l = append(l, anyModel(r, depth-1))
		}
		return l
	default:
		m := map[string]any{}
		for i := r.n(5); i > 0; i-- {
			m[codecKey(r)] = anyModel(r, depth-1)
		}
		return m
	}
}

// fill gives v a random value and returns the document it stands for. canon
// leaves out what an encoder would not write.
func fill(r *rng, v reflect.Value, canon bool, depth int) any {
	t := v.Type()
	if t == reflect.TypeFor[bencode.RawMessage]() {
		m := anyModel(r, 2)
		v.SetBytes(benc(m))
		return rawDoc(benc(m))
	}
	switch v.Kind() {
	case reflect.Interface:
		m := anyModel(r, depth)
		v.Set(reflect.ValueOf(m))
		return m
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := codecInt(r, t.Bits())
		v.SetInt(int64(x))
		return x
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := r.u64() >> (64 - t.Bits())
		switch r.n(4) {
		case 0:
			x = uint64(r.n(100))
		case 1:
			x = math.MaxUint64 >> (64 - t.Bits())
		}
		v.SetUint(x)
		return rawDoc(fmt.Sprintf("i%de", x))
	case reflect.String:
		s := codecString(r)
		v.SetString(s)
		return s
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b := []byte(codecString(r))
			v.SetBytes(b)
			return b
		}
		n := r.n(5)
		if r.p(5) {
			n = r.n(200)
		}
		v.Set(reflect.MakeSlice(t, n, n))
		l := []any{}
		for i := 0; i < n; i++ {
			l = append(l, fill(r, v.Index(i), canon, depth-1))
		}
		return l
	case reflect.Array:
		l := []any{}
		n := v.Len()
		if !canon {
			n = r.n(v.Len() + 3)
		}
		for i := 0; i < n; i++ {
			if i < v.Len() {
				l = append(l, fill(r, v.Index(i), canon, depth-1))
			} else {
				l = append(l, anyModel(r, 1))
			}
		}
		return l
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		m := map[string]any{}
		for i := r.n(5); i > 0; i-- {
			k := codecKey(r)
			e := reflect.New(t.Elem()).Elem()
			m[k] = fill(r, e, canon, depth-1)
			v.SetMapIndex(reflect.ValueOf(k), e)
		}
		return m
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		return fill(r, v.Elem(), canon, depth-1)
	case reflect.Struct:
		m := map[string]any{}
		fillStruct(r, v, canon, depth, m)
		if !canon {
			for i := r.n(4); i > 0; i-- {
				k := pick(r, "", "zz", "unknown", "\x00\xff", "skip", "hidden", "A", "c2", "i1e") + codecKey(r)
				if _, ok := m[k]; !ok && len(k) > 7 {
					m[k] = anyModel(r, 2)
				}
			}
		}
		return m
	}
	panic(fmt.Sprintf("fill: %v", t))
}

func fillStruct(r *rng, v reflect.Value, canon bool, depth int, m map[string]any) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			fillStruct(r, v.Field(i), canon, depth, m)
			continue
		}
		name, opt, _ := strings.Cut(f.Tag.Get("bencode"), ",")
		if !f.IsExported() || name == "-" {
			continue
		}
		if name == "" {
			name = strings.ToLower(f.Name)
		}
		if f.Type.Kind() == reflect.Pointer && r.p(40) {
			continue // stays nil
		}
		if !canon && r.p(20) {
			continue // not in the document
		}
		x := fill(r, v.Field(i), canon, min(depth-1, 2))
		if canon && opt == "omitempty" && (v.Field(i).IsZero() || v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0) {
			continue
		}
		m[name] = x
	}
}

// rawDoc is encoded text inside a model.
type rawDoc string

func bencModel(m any) []byte {
	var b bytes.Buffer
	var enc func(m any)
	enc = func(m any) {
		switch m := m.(type) {
		case rawDoc:
			b.WriteString(string(m))
		case []any:
			b.WriteByte('l')
			for _, x := range m {
				enc(x)
			}
			b.WriteByte('e')
		case map[string]any:
			b.WriteByte('d')
			for _, k := range sortedKeys(m) {
				b.Write(benc(k))
				enc(m[k])
			}
			b.WriteByte('e')
		default:
			b.Write(benc(m))
		}
	}
	enc(m)
	return b.Bytes()
}

type codecValue struct {
	typ  reflect.Type
	want reflect.Value
	doc  []byte
}

func genValue(r *rng, t reflect.Type, canon bool) codecValue {
	v := reflect.New(t).Elem()
	return codecValue{t, v, bencModel(fill(r, v, canon, 4))}
}

// genLong is a document of more values than may be nested.
func genLong(r *rng) codecValue {
	var x any
	switch r.n(4) {
	case 0:
		x = r.n(10)
	case 1:
		x = "ab"
	case 2:
		x = []any{}
	case 3:
		x = map[string]any{}
	}
	list := make([]any, r.in(10_001, 10_300))
	for i := range list {
		list[i] = x
	}
	doc := bencModel(list)
	switch r.n(3) {
	case 0:
		raw := bencode.RawMessage(doc)
		return codecValue{reflect.TypeFor[bencode.RawMessage](), reflect.ValueOf(raw), doc}
	case 1:
		return codecValue{reflect.TypeFor[struct{}](), reflect.ValueOf(struct{}{}), bencModel(map[string]any{"a": list})}
	}
	return codecValue{reflect.TypeFor[[]any](), reflect.ValueOf(list), doc}
}

// genMany is a list of more values than may be nested, each of which nests.
func genMany(r *rng) codecValue {
	n := pick(r, 999, 1001, r.in(1002, 1300))
	var plain []any
	switch r.n(3) {
	case 0:
		for i := 0; i < n; i++ {
			plain = append(plain, map[string]any{"a": i})
		}
	case 1:
		for i := 0; i < n; i++ {
			plain = append(plain, []any{i})
		}
	case 2:
		var list []metainfo.File
		for i := 0; i < n; i++ {
			f := metainfo.File{Length: int64(i), Path: []string{"dir", fmt.Sprint(i)}}
			list = append(list, f)
			plain = append(plain, map[string]any{"length": i, "path": []any{"dir", f.Path[1]}})
		}
		return codecValue{reflect.TypeFor[[]metainfo.File](), reflect.ValueOf(list), bencModel(plain)}
	}
	return codecValue{reflect.TypeFor[[]any](), reflect.ValueOf(plain), bencModel(plain)}
}

// genMetainfo is a torrent file in the order and with the extras of real ones.
func genMetainfo(r *rng) codecValue {
	var mi metainfo.Metainfo
	top := map[string]any{}
	mi.Info = &metainfo.Info{}
	info := map[string]any{}
	mi.Info.Name = codecKey(r)
	info["name"] = mi.Info.Name
	mi.Info.PieceLength = 1 << r.in(14, 20)
	info["piece length"] = mi.Info.PieceLength
	np := r.n(60)
	var hs []byte
	for i := 0; i < np; i++ {
		h := sha1.Sum([]byte{byte(i)})
		hs = append(hs, h[:]...)
		mi.Info.Pieces = append(mi.Info.Pieces, h)
	}
	info["pieces"] = hs
	if r.p(50) {
		mi.Info.Length = int64(r.n(1 << 40))
		info["length"] = int(mi.Info.Length)
	} else {
		fs := []any{}
		mi.Info.Files = []*metainfo.File{}
		for i := r.n(4); i >= 0; i-- {
			f := &metainfo.File{Length: int64(r.n(1 << 30)), Path: []string{codecString(r), codecString(r)}}
			mi.Info.Files = append(mi.Info.Files, f)
			fs = append(fs, map[string]any{"length": int(f.Length), "path": []any{f.Path[0], f.Path[1]}, "unknown": anyModel(r, 2)})
		}
		info["files"] = fs
	}
	if r.p(50) {
		info["unknown"] = anyModel(r, 3)
	}
	top["info"] = info
	mi.Info.SHA1 = sha1.Sum(bencModel(info))
	if r.p(80) {
		mi.Announce = "http://" + fmt.Sprint(r.n(99)) + "/announce"
		top["announce"] = mi.Announce
	}
	if r.p(50) {
		mi.AnnounceList = [][]string{}
		l := []any{}
		for i := r.n(4); i > 0; i-- {
			s := codecString(r)
			mi.AnnounceList = append(mi.AnnounceList, []string{s})
			l = append(l, []any{s})
		}
		top["announce-list"] = l
	}
	if r.p(50) {
		mi.Comment = codecString(r)
		top["comment"] = mi.Comment
	}
	if r.p(30) {
		top["unknown"] = anyModel(r, 3)
	}
	return codecValue{reflect.TypeFor[metainfo.Metainfo](), reflect.ValueOf(mi), bencModel(top)}
}

func runCodec() {
	crashProps("C16 C15")
	h := &host{name: "codec", ip: "10.0.0.1"}
	done := make(chan bool)
	n := 0
	for i := 0; i < plan.cfg("workers"); i++ {
		w := &codecWorker{id: fmt.Sprint(i), node: newProc(h).node}
		n++
		go func() {
			defer func() { done <- true }()
			for k, s := range plan.Steps {
				if s.Who != w.id {
					continue
				}
				w.cur = fmt.Sprintf("stream %d (%s, %s)", k, s.Kind, cfNames[s.B%cfKinds])
				if s.Kind == "dec" || s.Kind == "msgs" {
					fault("fragmented-stream")
				}
				if s.B != cfNone {
					fault(cfNames[s.B%cfKinds])
				}
				switch s.Kind {
				case "dec":
					w.dec(s)
				case "enc":
					w.enc(s)
				case "msgs":
					w.msgs(s)
				case "menc":
					w.menc(s)
				}
				note("%s done", w.cur)
			}
		}()
	}
	for ; n > 0; n-- {
		<-done
	}
	if a := runtime.SimSnapshot().MaxAlloc; a > 4<<20 {
		violate("C16", "alloc", "%d bytes were allocated at once while less than 1 MiB had arrived", a)
	}
}

func hashVal(v any) string { return fmt.Sprintf("%.200q", fmt.Sprintf("%v", v)) }

// dec: a stream of bencoded values.
func (w *codecWorker) dec(s Step) {
	r := newRng(uint64(s.A), "codec")
	shape := codecShapes[r.n(len(codecShapes))]
	mixed := r.p(30)
	reuse := !mixed && codecReusable[shape] && r.p(50)
	meta := r.p(8)
	bufsize := pick(r, 0, 0, 16, 17, 64, 4096, 70000)
	perValue := bufsize > 0 && r.p(40) // a new decoder for each value
	mode := r.n(5)
	var vals []codecValue
	var stream []byte
	for i := pick(r, 1, 1, 2, 3, r.in(1, 12)); i > 0; i-- {
		t := shape
		if mixed {
			t = codecShapes[r.n(len(codecShapes))]
		}
		v := genValue(r, t, false)
		if meta {
			v = genMetainfo(r)
			reuse = false
		}
		if r.n(300) == 0 {
			v = genLong(r)
			reuse = false
		}
		vals = append(vals, v)
		stream = append(stream, v.doc...)
	}
	trailer := r.bytes(r.n(40)) // what follows belongs to someone else
	if bufsize == 0 || s.B != cfNone {
		trailer = nil
	}
	stream = append(stream, trailer...)
	rd := &fragReader{r: newRng(uint64(s.A), "frag"), mode: mode, err: io.EOF, joined: r.p(30), worker: w}
	strong := true // the outcome is known from the generated values alone
	at := len(stream)
	if len(stream) > 0 {
		at = s.C % len(stream)
	}
	switch s.B {
	case cfCut:
		stream = stream[:at]
	case cfFail:
		stream = stream[:at]
		rd.err, rd.joined = errInjected, false
	case cfFailEOF:
		stream = stream[:at]
		rd.err, rd.joined = pick(r, errInjected, io.ErrUnexpectedEOF, io.EOF), true
	case cfDamage:
		strong = false
		for i := r.in(1, 3); i > 0; i-- {
			j := r.n(len(stream))
			stream[j] = pick(r, byte(r.n(256)), 'e', 'i', 'l', 'd', ':', '0', '9', '-', '1')
		}
	case cfClaim:
		strong = false
		claim := pick(r, "1099511627776", "9223372036854775807", "9223372036854775808", "-1", "-9223372036854775808", "268435456", "67108864", "99999999999999999999999", "+5", "0x10", "1e3", "4294967296", "2147483648")
		p := pick(r, "", "l", "d", "d1:a", "li1e", "d3:rawl", "d4:info", "d4:infod4:name", "d5:inner", "d4:infod6:pieces")
		stream = append([]byte(p+claim+":"), stream...)
	case cfDeep:
		strong = false
		n := pick(r, 1000, 9000, 20000, 200000)
		stream = bytes.Repeat([]byte(pick(r, "l", "d1:a", "li1e")), n)
		if r.p(50) {
			stream = append(stream, bytes.Repeat([]byte("e"), n)...)
		}
	case cfJunk:
		strong = false
		stream = nil
		for i := r.n(60); i > 0; i-- {
			stream = append(stream, pick(r, "i", "e", "l", "d", ":", "1:", "3:abc", "i5e", "i-0e", "i00e", "i-5e", "2:", "-", "+1:a", "01:a", "1:a", "1:b", "d1:a", "ie", "le", "de", "i9223372036854775807e", "i18446744073709551615e", "i99999999999999999999e", string(r.bytes(1)))...)
		}
	}
	orig := append([]byte(nil), stream...)
	rd.data = stream
	var src io.Reader = rd
	if bufsize > 0 {
		src = bufio.NewReaderSize(rd, bufsize)
	}
	var got []reflect.Value
	var errs []error
	decodeAll := func(src io.Reader, perValue bool) (got []reflect.Value, errs []error) {
		d := bencode.NewDecoder(src)
		var prev reflect.Value
		for i := range vals {
			target := reflect.New(vals[i].typ)
			if reuse && i > 0 && prev.IsValid() {
				target = prev
			}
			prev = target
			if perValue && i > 0 {
				d = bencode.NewDecoder(src)
			}
			err := d.Decode(target.Interface())
			cp := reflect.New(vals[i].typ).Elem()
			cp.Set(deepCopy(target.Elem()))
			got = append(got, cp)
			errs = append(errs, err)
			if err != nil {
				break
			}
		}
		return
	}
	w.on(func() { got, errs = decodeAll(src, perValue) })
	if strong {
		end := 0
		for i, v := range vals {
			end += len(v.doc)
			whole := end <= len(orig)
			if i >= len(errs) {
				break
			}
			if !whole {
				if errs[i] == nil {
					violate("C16", "value-from-truncated", "%s: %d of the %d bytes of a %v arrived, then %v; Decode returned %s and no error", w.cur, len(v.doc)-(end-len(orig)), len(v.doc), v.typ, rd.err, hashVal(got[i].Interface()))
				}
				probe("truncated-value")
				break
			}
			if errs[i] != nil {
				// An error that comes with the data may be reported early only
				// by a reader below the decoder; the decoder must not lose data.
				violate("C16", "whole-value-refused", "%s: all %d bytes of value %d (%v) arrived in fragments (mode %d), Decode failed: %v\ndocument %.300q", w.cur, len(v.doc), i, v.typ, mode, errs[i], v.doc)
				break
			}
			if !sameValue(got[i], v.want) {
				violate("C16", "wrong-value", "%s: value %d (%v, mode %d, reused target %v): got %s, want %s\ndocument %.300q", w.cur, i, v.typ, mode, reuse && i > 0, hashVal(got[i].Interface()), hashVal(v.want.Interface()), v.doc)
				break
			}
			probe("value")
			if i > 0 {
				probe("later-value")
			}
			if reuse && i > 0 {
				probe("reused-target")
			}
		}
		if s.B == cfNone && bufsize > 0 && len(errs) == len(vals) && errs[len(errs)-1] == nil {
			rest, _ := io.ReadAll(src)
			if !bytes.Equal(rest, trailer) {
				violate("C16", "trailer", "%s: %d bytes followed the values, %d are left to read: %.60q, want %.60q", w.cur, len(trailer), len(rest), rest, trailer)
			}
		}
		return
	}
	// The document is damaged: whatever it means, it must mean the same read
	// at once.
	var got2 []reflect.Value
	var errs2 []error
	w.on(func() { got2, errs2 = decodeAll(bytes.NewReader(orig), false) })
	pos := 0
	for i := range errs {
		if i >= len(errs2) {
			break
		}
		if (errs[i] == nil) != (errs2[i] == nil) {
			violate("C16", "depends-on-fragments", "%s: value %d (%v): in fragments (mode %d) %v, at once %v\nstream %.300q", w.cur, i, vals[i].typ, mode, errs[i], errs2[i], orig)
			break
		}
		if errs[i] != nil {
			probe("damaged-refused")
			break
		}
		if !sameValue(got[i], got2[i]) {
			violate("C16", "depends-on-fragments", "%s: value %d (%v): in fragments (mode %d) %s, at once %s\nstream %.300q", w.cur, i, vals[i].typ, mode, hashVal(got[i].Interface()), hashVal(got2[i].Interface()), orig)
			break
		}
		probe("damaged-accepted")
		if v, n, err := bdec(orig[pos:]); err == nil && vals[i].typ.Kind() == reflect.Interface {
			if x := got[i].Interface(); !reflect.DeepEqual(x, v) {
				violate("C16", "wrong-value", "%s: value %d: got %s, the document says %s\nstream %.300q", w.cur, i, hashVal(x), hashVal(v), orig)
			}
			pos += n
		} else if err != nil && (err.Error() == "short string" || strings.HasPrefix(err.Error(), "unterminated")) && noLaxNumbers(orig[pos:]) {
			violate("C16", "value-from-truncated", "%s: value %d (%v) of a document that ends early (%v) is %s\nstream %.300q", w.cur, i, vals[i].typ, err, hashVal(got[i].Interface()), orig)
			break
		} else {
			break
		}
	}
}

// noLaxNumbers excludes documents whose numbers a lenient parser may read
// differently.
func noLaxNumbers(b []byte) bool {
	return !bytes.ContainsAny(b, "+_") && !bytes.Contains(b, []byte(":0"))
}

func deepCopy(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Slice && !v.IsNil() {
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, v)
		return c
	}
	return v
}

// sameValue compares values; RawMessages and byte strings by content.
func sameValue(a, b reflect.Value) bool {
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// enc: values are encoded to a connection that may fail.
func (w *codecWorker) enc(s Step) {
	r := newRng(uint64(s.A), "codec")
	var vals []codecValue
	var want []byte
	for i := pick(r, 1, 1, 2, 4); i > 0; i-- {
		v := genValue(r, codecShapes[r.n(len(codecShapes))], true)
		if r.n(100) == 0 {
			v = genMany(r)
		}
		vals = append(vals, v)
		want = append(want, v.doc...)
	}
	f := &failWriter{budget: 1 << 40, worker: w}
	if s.B != cfNone {
		f.budget = s.C % len(want)
	}
	limit := f.budget
	var err error
	sent := 0
	w.on(func() {
		e := bencode.NewEncoder(f)
		for _, v := range vals {
			if r.p(50) {
				p := reflect.New(v.typ)
				p.Elem().Set(v.want)
				err = e.Encode(p.Interface())
			} else {
				err = e.Encode(v.want.Interface())
			}
			if err != nil {
				return
			}
			sent += len(v.doc)
			if sent > limit {
				return
			}
		}
	})
	if s.B == cfNone {
		if err != nil {
			violate("C16", "encode-refused", "%s: encoding to a healthy writer failed: %v", w.cur, err)
		} else if !bytes.Equal(f.got, want) {
			violate("C16", "encode-wrong", "%s: encoded %.300q, want %.300q", w.cur, f.got, want)
		}
		probe("encoded")
		return
	}
	if err == nil && sent > limit {
		violate("C16", "encode-error-lost", "%s: the writer failed after %d of %d bytes, Encode returned no error", w.cur, limit, len(want))
	} else if err != nil && !errors.Is(err, errInjected) {
		violate("C16", "encode-error-lost", "%s: the writer failed after %d bytes with %v, Encode returned %v", w.cur, limit, errInjected, err)
	}
	if !bytes.HasPrefix(want, f.got) {
		violate("C16", "encode-wrong", "%s: before the writer failed %.300q was written, want a prefix of %.300q", w.cur, f.got, want)
	}
	probe("encode-failed")
}

type codecMsg struct {
	raw []byte
	m   *btMsg // nil: must be refused
}

func genMsg(r *rng, damaged bool) []byte {
	w := func() int { return pick(r, 0, 1, r.n(100000), 1<<31-1, 1<<31, 1<<32-1, 16384) }
	switch r.n(12) {
	case 0:
		return msg(mKeepalive)
	case 1, 2:
		return msg(r.in(mChoke, mNotInterested))
	case 3:
		return msg(mHave, w())
	case 4:
		n := r.n(300)
		if r.p(10) {
			n = r.in(10000, 200000)
		}
		return msg(mBitfield, r.bytes(n))
	case 5, 6:
		return msg(mRequest, w(), w(), w())
	case 7:
		return msg(mCancel, w(), w(), w())
	case 8, 9:
		return msg(mPiece, w(), w(), r.bytes(pick(r, 0, 1, 16384, r.n(20000))))
	case 10:
		return msg(r.in(9, 255), r.bytes(r.n(100))) // an extension
	default:
		if damaged {
			return msg(r.in(mHave, mCancel), r.bytes(r.n(14)))
		}
		return msg(r.in(mChoke, mNotInterested))
	}
}

// checkMsg compares what ReadMessage returned with what was on the wire.
func checkMsg(m *peer.Message, want *btMsg) string {
	if int(m.Type) != want.id {
		return fmt.Sprintf("type %v, want %s", m.Type, want)
	}
	switch want.id {
	case mHave:
		if m.Index() != want.a {
			return fmt.Sprintf("HAVE %d, want %s", m.Index(), want)
		}
	case mRequest, mCancel:
		if m.Index() != want.a || m.Begin() != want.b || m.Length() != want.c {
			return fmt.Sprintf("%v %d:%d+%d, want %s", m.Type, m.Index(), m.Begin(), m.Length(), want)
		}
	case mPiece:
		if m.Index() != want.a || m.Begin() != want.b || !bytes.Equal(m.Piece(), want.data) {
			return fmt.Sprintf("PIECE %d:%d+%d, want %s with its bytes", m.Index(), m.Begin(), len(m.Piece()), want)
		}
	case mBitfield:
		if !bytes.Equal(m.Bitfield(), want.data) {
			return fmt.Sprintf("BITFIELD of %d bytes, want the %d sent", len(m.Bitfield()), len(want.data))
		}
	}
	return ""
}

// msgs: a handshake and messages are read.
func (w *codecWorker) msgs(s Step) {
	r := newRng(uint64(s.A), "codec")
	var ih, id [20]byte
	copy(ih[:], r.bytes(20))
	copy(id[:], r.bytes(20))
	stream := handshakeBytes(ih, id)
	copy(stream[20:28], r.bytes(8)) // reserved bits mean nothing to us
	for i := r.in(0, 10); i > 0; i-- {
		stream = append(stream, genMsg(r, s.B == cfDamage)...)
	}
	rd := &fragReader{r: newRng(uint64(s.A), "frag"), mode: r.n(5), err: io.EOF, joined: r.p(30), worker: w}
	at := s.C % len(stream)
	if r.p(20) {
		at = s.C % min(len(stream), 73)
	}
	switch s.B {
	case cfCut:
		stream = stream[:at]
	case cfFail:
		stream = stream[:at]
		rd.err, rd.joined = errInjected, false
	case cfFailEOF:
		stream = stream[:at]
		rd.err, rd.joined = errInjected, true
	case cfDamage:
		if r.p(50) {
			stream[at] ^= byte(1 + r.n(255))
		}
	case cfClaim:
		b := make([]byte, 4, 64)
		binary.BigEndian.PutUint32(b, uint32(pick(r, 1<<32-1, 1<<31, 1<<31-1, 1<<30, 1<<24+1, 1<<21)))
		stream = append(stream, append(b, r.bytes(r.n(60))...)...)
	case cfJunk:
		stream = append(stream[:pick(r, 0, 68)], r.bytes(r.n(200))...)
	}
	orig := append([]byte(nil), stream...)
	rd.data = stream
	var src io.Reader = rd
	if r.p(30) {
		src = bufio.NewReaderSize(rd, pick(r, 16, 100, 4096))
	}
	// What is on the wire, by our own parser.
	ps := &btParser{max: 1 << 20}
	want := ps.feed(orig)
	i := 0
	var bad string
	w.on(func() {
		hs, err := peer.ReadHandshake(src)
		if len(want) == 0 {
			if err == nil {
				bad = fmt.Sprintf("no handshake arrived (%d bytes, %s), ReadHandshake returned one", len(orig), ps.broken)
			}
			return
		}
		if err != nil {
			bad = fmt.Sprintf("a handshake arrived, ReadHandshake failed: %v", err)
			return
		}
		if hs.InfoHash != want[0].infohash || hs.PeerID != want[0].peerID {
			bad = fmt.Sprintf("ReadHandshake returned %x %q, want %x %q", hs.InfoHash, hs.PeerID, want[0].infohash, want[0].peerID)
			return
		}
		for i = 1; i < len(want); i++ {
			m, err := peer.ReadMessage(src)
			x := want[i]
			if x.bad != "" && !strings.HasPrefix(x.bad, "unknown") {
				// Too short must be refused; trailing bytes may be.
				if short := x.raw < map[int]int{mHave: 9, mRequest: 17, mCancel: 17, mPiece: 13}[x.id]; short && err == nil {
					bad = fmt.Sprintf("message %d is %s, ReadMessage returned %v", i, x.bad, m.Type)
				}
				if err != nil {
					return
				}
				continue
			}
			if err != nil {
				bad = fmt.Sprintf("message %d (%s) arrived, ReadMessage failed: %v", i, x, err)
				return
			}
			if bad = checkMsg(m, x); bad != "" {
				bad = fmt.Sprintf("message %d: %s", i, bad)
				return
			}
		}
		m, err := peer.ReadMessage(src)
		if err == nil {
			bad = fmt.Sprintf("the stream ended inside message %d (%d bytes of it, %s), ReadMessage returned %v", i, len(ps.buf), ps.broken, m.Type)
		}
	})
	if bad != "" {
		violate("C15", "parse", "%s: %s (mode %d, %d bytes)", w.cur, bad, rd.mode, len(orig))
	}
	probeN("message", len(want))
}

// menc: a handshake and messages are written to a connection that may fail.
func (w *codecWorker) menc(s Step) {
	r := newRng(uint64(s.A), "codec")
	var hs peer.Handshake
	copy(hs.InfoHash[:], r.bytes(20))
	copy(hs.PeerID[:], r.bytes(20))
	want := handshakeBytes(hs.InfoHash, hs.PeerID)
	type one struct {
		m    *peer.Message
		size int
	}
	var ms []one
	u := func() int { return pick(r, 0, r.n(100000), 1<<31-1, 1<<32-1) }
	for i := r.in(0, 8); i > 0; i-- {
		var m *peer.Message
		var b []byte
		x, y, z := u(), u(), u()
		switch r.n(9) {
		case 0:
			m, b = peer.Keepalive(), msg(mKeepalive)
		case 1:
			m, b = peer.Choke(), msg(mChoke)
		case 2:
			m, b = peer.Unchoke(), msg(mUnchoke)
		case 3:
			m, b = peer.Interested(), msg(mInterested)
		case 4:
			m, b = peer.NotInterested(), msg(mNotInterested)
		case 5:
			m, b = peer.Have(x), msg(mHave, x)
		case 6:
			bf := r.bytes(r.n(50))
			m, b = peer.Bitfield(bitfield.Bitfield(bf)), msg(mBitfield, bf)
		case 7:
			if r.p(50) {
				m, b = peer.Request(x, y, z), msg(mRequest, x, y, z)
			} else {
				m, b = peer.Cancel(x, y, z), msg(mCancel, x, y, z)
			}
		case 8:
			d := r.bytes(r.n(17000))
			m, b = peer.Piece(x, y, d), msg(mPiece, x, y, d)
		}
		ms = append(ms, one{m, len(b)})
		want = append(want, b...)
	}
	f := &failWriter{budget: 1 << 40, worker: w}
	if s.B != cfNone {
		f.budget = s.C % len(want)
		if r.p(30) {
			f.budget = s.C % min(len(want), 90)
		}
	}
	limit := f.budget
	var err error
	sent := 0
	w.on(func() {
		if err = peer.Write(f, &hs); err != nil {
			return
		}
		sent = 68
		for _, m := range ms {
			if sent > limit {
				return
			}
			if err = peer.Write(f, m.m); err != nil {
				return
			}
			sent += m.size
		}
	})
	if sent > limit && err == nil {
		violate("C15", "write-error-lost", "%s: the connection took %d bytes and failed, Write returned no error", w.cur, limit)
	} else if s.B == cfNone && err != nil {
		violate("C15", "write-refused", "%s: writing to a healthy connection failed: %v", w.cur, err)
	}
	if !bytes.HasPrefix(want, f.got) || s.B == cfNone && len(f.got) != len(want) {
		violate("C15", "encode-wrong", "%s: wrote %.200q, want a prefix of %.200q", w.cur, f.got, want)
	}
	probe("written")
}
