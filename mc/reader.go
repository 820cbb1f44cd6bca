// P05 (file search) and P06 (reader call histories).

package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	register(&Family{Prop: "P05", Name: "filesearch-small", Run: fileSearchSmall})
	register(&Family{Prop: "P05", Name: "filesearch-subsets", Run: fileSearchSubsets})
	register(&Family{Prop: "P05", Name: "filesearch-history", Run: fileSearchHistory})
	register(&Family{Prop: "P05", Name: "filesearch-shapes", Run: fileSearchShapes})
	register(&Family{Prop: "P05", Name: "filesearch-written", Run: fileSearchWritten})
	register(&Family{Prop: "P06", Name: "reader-graph", Run: readerGraph})
	register(&Family{Prop: "P06", Name: "reader-sequences", Run: readerSequences})
	register(&Family{Prop: "P06", Name: "reader-batches", Run: readerBatches})
	register(&Family{Prop: "P06", Name: "reader-counts", Run: readerCounts})
}

// Kinds of reader calls.
const (
	opHeader = iota
	opIndex
	opSearch
	opData
	opDataRem
	opRewind
	opClose
)

type rop struct {
	kind int
	k    int // batch size
	q    Box
}

func (o rop) String() string {
	switch o.kind {
	case opHeader:
		return "Header"
	case opIndex:
		return "Index"
	case opSearch:
		return "IndexSearch" + boxStr(o.q)
	case opData:
		return fmt.Sprintf("Data(%d)", o.k)
	case opDataRem:
		return "DataRem"
	case opRewind:
		return "Rewind"
	}
	return "Close"
}

// Reader model states.
const (
	rsNew = iota
	rsHdr
	rsIndex
	rsData
	rsEOF
)

// rdriver runs reader calls in lockstep with the reference protocol model.
type rdriver struct {
	c        *Ctx
	f        *fgb
	s        *src
	r        *flatgeobuf.FileReader
	seekable bool
	closable bool
	badClose bool // closing the stream fails
	st, pos  int
	closed   bool
	hist     []string
	hdr      *flat.Header
}

func newReader(c *Ctx, f *fgb, s *src, seekable, closable bool) *rdriver {
	d := &rdriver{c: c, f: f, s: s, seekable: seekable, closable: closable}
	d.r = flatgeobuf.NewFileReader(s.asReader(seekable, closable))
	return d
}

func (d *rdriver) fail(format string, a ...interface{}) {
	d.c.Fail("after %s: %s", strings.Join(d.hist, ", "), fmt.Sprintf(format, a...))
}

func (d *rdriver) hasIndex() bool { return d.f.index != nil }

// wantErr checks the error of a call which must be rejected in this state.
func (d *rdriver) wantErr(err error, n int) {
	if d.closed {
		if !errors.Is(err, flatgeobuf.ErrClosed) {
			d.fail("error is %v, expected ErrClosed", err)
		}
	} else if err == nil {
		d.fail("call succeeded, but must be rejected in this state")
	} else if err == io.EOF || errors.Is(err, flatgeobuf.ErrClosed) || errors.Is(err, flatgeobuf.ErrNoIndex) {
		d.fail("wrong kind of error: %v", err)
	}
	if n != 0 {
		d.fail("rejected call returned %d features", n)
	}
}

func (d *rdriver) rest() []int { return seqInts(d.pos, len(d.f.feats)) }

// do performs one call and compares it with the model.
func (d *rdriver) do(o rop) {
	d.hist = append(d.hist, o.String())
	d.c.Logf("%v", o)
	d.c.Step(1)
	switch o.kind {
	case opHeader:
		h, err := d.r.Header()
		if d.closed || d.st != rsNew {
			d.wantErr(err, 0)
			return
		}
		if err != nil || h == nil {
			d.fail("error %v", err)
		}
		t := h.Table()
		if string(t.Bytes) != string(d.f.hdr) {
			d.fail("header bytes differ")
		}
		d.hdr = h
		d.st = rsHdr
	case opIndex:
		t, err := d.r.Index()
		if d.closed || d.st != rsHdr {
			d.wantErr(err, 0)
			return
		}
		if err != nil {
			d.fail("error %v", err)
		}
		if d.hasIndex() {
			if t == nil {
				d.fail("returned no index")
			}
			checkTreeInfo(d.c, t, d.f.refs, d.f.nodeSize)
			all := bx(-1e9, -1e9, 1e9, 1e9)
			checkSearch(d.c, "Search of returned index", t.Search(all), d.f.refs, all)
		} else if t != nil {
			d.fail("returned an index, but there is none")
		}
		d.st = rsIndex
	case opSearch:
		fs, err := d.r.IndexSearch(o.q)
		if d.closed || d.st != rsHdr {
			d.wantErr(err, len(fs))
			return
		}
		if !d.hasIndex() {
			if !errors.Is(err, flatgeobuf.ErrNoIndex) || len(fs) != 0 {
				d.fail("error is %v, expected ErrNoIndex", err)
			}
			d.st = rsIndex
			return
		}
		if err != nil {
			d.fail("error %v", err)
		}
		d.f.checkFeatures(d.c, strings.Join(d.hist, ", "), fs, d.f.matching(o.q))
		d.st = rsEOF
	case opData:
		p := make([]flat.Feature, o.k)
		n, err := d.r.Data(p)
		if d.closed || d.st == rsNew {
			d.wantErr(err, n)
			return
		}
		if d.st == rsEOF {
			if n != 0 || err != io.EOF {
				d.fail("returned %d, %v; expected 0, EOF", n, err)
			}
			return
		}
		rest := len(d.f.feats) - d.pos
		m, eof := o.k, false
		if d.f.known {
			if m >= rest {
				m, eof = rest, true
			}
		} else if m > rest {
			m, eof = rest, true
		}
		if n != m || eof && err != io.EOF || !eof && err != nil {
			d.fail("returned %d, %v; expected %d, EOF=%v", n, err, m, eof)
		}
		d.f.checkFeatures(d.c, strings.Join(d.hist, ", "), p[:n], seqInts(d.pos, d.pos+m))
		d.pos += m
		d.st = rsData
		if eof {
			d.st = rsEOF
		}
	case opDataRem:
		fs, err := d.r.DataRem()
		if d.closed || d.st == rsNew {
			d.wantErr(err, len(fs))
			return
		}
		if err != nil {
			d.fail("error %v", err)
		}
		if d.st == rsEOF {
			if len(fs) != 0 {
				d.fail("returned %d features at the end of data", len(fs))
			}
			return
		}
		d.f.checkFeatures(d.c, strings.Join(d.hist, ", "), fs, d.rest())
		d.pos = len(d.f.feats)
		d.st = rsEOF
	case opRewind:
		err := d.r.Rewind()
		if d.closed || d.st == rsNew {
			d.wantErr(err, 0)
			return
		}
		if d.st == rsHdr {
			if err != nil {
				d.fail("error %v right after the header", err)
			}
			return
		}
		if !d.seekable {
			d.wantErr(err, 0)
			return
		}
		if err != nil {
			d.fail("error %v", err)
		}
		d.st, d.pos = rsHdr, 0
	case opClose:
		err := d.r.Close()
		if d.closed {
			d.wantErr(err, 0)
		} else if d.badClose != errors.Is(err, errInjected) || !d.badClose && err != nil {
			d.fail("error %v", err)
		}
		d.closed = true
		want := 0
		if d.closable {
			want = 1
		}
		if d.s.closed != want {
			d.fail("underlying stream closed %d times, expected %d", d.s.closed, want)
		}
	}
}

// deepHash hashes the complete private state reachable from a value, except
// streams, which the driver hashes itself.
func deepHash(w io.Writer, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Invalid:
		fmt.Fprint(w, "nil;")
	case reflect.Bool:
		fmt.Fprint(w, v.Bool(), ";")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(w, v.Int(), ";")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(w, v.Uint(), ";")
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(w, v.Float(), ";")
	case reflect.String:
		fmt.Fprintf(w, "%q;", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(w, v.Pointer() != 0, ";")
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		if t := v.Type().String(); t == "*main.src" || t == "*main.sink" {
			return
		}
		if seen[v.Pointer()] {
			fmt.Fprint(w, "cycle;")
			return
		}
		seen[v.Pointer()] = true
		deepHash(w, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(w, "nil;")
			return
		}
		fmt.Fprint(w, v.Elem().Type().String(), ":")
		deepHash(w, v.Elem(), seen)
	case reflect.Struct:
		fmt.Fprint(w, "{")
		for i := 0; i < v.NumField(); i++ {
			deepHash(w, v.Field(i), seen)
		}
		fmt.Fprint(w, "}")
	case reflect.Slice, reflect.Array:
		fmt.Fprint(w, "[", v.Len(), ":")
		for i := 0; i < v.Len(); i++ {
			deepHash(w, v.Index(i), seen)
		}
		fmt.Fprint(w, "]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			h := fnv.New64a()
			deepHash(h, k, seen)
			deepHash(h, v.MapIndex(k), seen)
			ks = append(ks, fmt.Sprint(h.Sum64()))
		}
		sort.Strings(ks)
		fmt.Fprint(w, ks)
	default:
		fmt.Fprint(w, v.Kind(), ";")
	}
}

func (d *rdriver) hash() uint64 {
	h := fnv.New64a()
	deepHash(h, reflect.ValueOf(d.r), map[uintptr]bool{})
	fmt.Fprint(h, "|", d.s.pos, d.s.closed, d.st, d.pos, d.closed)
	return h.Sum64()
}

// rconfig is a reader configuration.
type rconfig struct {
	n        int
	known    bool
	nodeSize int
	start    int
	seekable bool
	closable bool
	badClose bool
}

func (g rconfig) String() string {
	return fmt.Sprintf("n=%d known=%v nodeSize=%d start=%d seekable=%v closable=%v failing=%v", g.n, g.known, g.nodeSize, g.start, g.seekable, g.closable, g.badClose)
}

var histBoxes = []Box{bx(0, 0, 1, 1), bx(4, 4, 5, 5), bx(1, 1, 4, 4), bx(9, 9, 9, 9), bx(2, 2, 2, 2)}

func (g rconfig) file() *fgb {
	// Data order differs from index order.
	return simpleFile(histBoxes[:g.n], g.nodeSize, g.known, []int{3, 0, 17}, nil)
}

func (g rconfig) open(c *Ctx, f *fgb) *rdriver {
	data := append(make([]byte, g.start), f.bytes()...)
	s := &src{data: data, pos: int64(g.start)}
	d := newReader(c, f, s, g.seekable, g.closable)
	if g.badClose {
		d.badClose, s.onClose = true, func() error { return errInjected }
	}
	return d
}

func chooseConfig(c *Ctx, maxN int) rconfig {
	g := rconfig{}
	g.n = c.Choose("features", maxN+1)
	g.known = c.Bool("known count")
	if g.n == 0 && g.known {
		c.Stop()
	}
	g.nodeSize = []int{0, 2, 16}[c.Choose("nodeSize", 3)]
	g.seekable = c.Bool("seekable")
	return g
}

var readerOps = []rop{
	{kind: opHeader}, {kind: opIndex}, {kind: opData, k: 1}, {kind: opDataRem}, {kind: opRewind},
	{kind: opSearch, q: bx(1, 1, 1.5, 1.5)}, {kind: opSearch, q: bx(-9, -9, 99, 99)}, {kind: opSearch, q: bx(-9, -9, -8, -8)},
	{kind: opSearch, q: bx(4.5, 4.5, 5, 5)}, {kind: opSearch, q: bx(9, 9, 9, 9)},
	{kind: opData, k: 0}, {kind: opData, k: 2}, {kind: opData, k: 7}, {kind: opClose},
}

// readerGraph explores the reachable state graph of one configuration to a
// fixpoint by breadth-first search; every transition is a real call checked
// against the model. The depth and number of states are bounded in case the
// reader's state is unbounded, e.g. has a counter.
func readerGraph(c *Ctx) {
	g := chooseConfig(c, pickInt(c, 4, 5))
	switch c.Choose("close", 3) {
	case 1:
		g.closable = true
	case 2:
		g.closable, g.badClose = true, true
	}
	g.start = []int{0, 1, 1000}[c.Choose("start", 3)]
	f := g.file()
	limit, maxLen := pickInt(c, 1500, 4000), pickInt(c, 12, 14)
	depth := 0
	seen := map[uint64]bool{}
	frontier := [][]rop{{}}
	d := g.open(c, f)
	seen[d.hash()] = true
	transitions := 0
	for len(frontier) > 0 {
		hist := frontier[0]
		frontier = frontier[1:]
		for _, o := range readerOps {
			d := g.open(c, f)
			for _, p := range hist {
				d.do(p)
			}
			d.do(o)
			transitions++
			if h := d.hash(); !seen[h] {
				seen[h] = true
				if len(seen) < limit && len(hist)+1 < maxLen {
					frontier = append(frontier, append(append([]rop{}, hist...), o))
				}
				if len(hist) >= depth {
					depth = len(hist) + 1
				}
				c.State(h ^ uint64(len(c.trace))<<60 ^ hashInts(values(c.trace)))
			}
		}
	}
	c.Eval(transitions)
	c.Logf("%v: %d states, %d transitions, depth %d", g, len(seen), transitions, depth)
}

func hashInts(v []int) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, v)
	return h.Sum64()
}

// readerSequences runs all call sequences to a depth, without merging states.
func readerSequences(c *Ctx) {
	configs := []rconfig{
		{n: 3, known: true, nodeSize: 2}, {n: 2, known: false, nodeSize: 0}, {n: 1, known: true, nodeSize: 16},
		{n: 2, known: true, nodeSize: 0}, {n: 0, known: false, nodeSize: 16}, {n: 2, known: false, nodeSize: 16},
	}
	g := configs[c.Choose("config", len(configs))]
	g.seekable = c.Bool("seekable")
	g.start = 3
	g.closable = true
	f := c.cachedFile(g)
	d := g.open(c, f)
	// First call: Header in the deep half, anything in the shallow half.
	depth := pickInt(c, 3, 4)
	if c.Bool("open first") {
		d.do(rop{kind: opHeader})
		depth = pickInt(c, 4, 5)
	}
	for i := 0; i < depth; i++ {
		o := readerOps[c.Choose("call", len(readerOps))]
		d.do(o)
	}
	c.State(d.hash() ^ hashInts(values(c.trace[:3])))
}

func (c *Ctx) cachedFile(g rconfig) *fgb {
	c.x.mu.Lock()
	defer c.x.mu.Unlock()
	if fileCache == nil {
		fileCache = map[string]*fgb{}
	}
	k := g.String()
	f := fileCache[k]
	if f == nil {
		f = g.file()
		fileCache[k] = f
	}
	return f
}

var fileCache map[string]*fgb

// readerBatches reads files in every composition of batch sizes.
func readerBatches(c *Ctx) {
	g := chooseConfig(c, 5)
	f := c.cachedFile(g)
	d := g.open(c, f)
	ch := c.Choose("delivery", numChunkings)
	_, d.s.onRead = chunking(ch)
	d.do(rop{kind: opHeader})
	if c.Bool("load index") {
		d.do(rop{kind: opIndex})
	}
	for i := 0; d.st != rsEOF && i < 12; i++ {
		k := c.Choose("batch", g.n+3)
		if k == g.n+2 {
			d.do(rop{kind: opDataRem})
		} else {
			d.do(rop{kind: opData, k: k})
			if k == 0 && i > 1 {
				return
			}
		}
	}
	d.do(rop{kind: opData, k: 1})
	d.do(rop{kind: opDataRem})
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// readerCounts reads files whose feature counts lie around the reader's
// internal thresholds.
func readerCounts(c *Ctx) {
	counts := []int{0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 3072, 3073}
	if c.thorough {
		counts = append(counts, 65535, 65536, 65537, 70000, 131073, 1<<20+1)
	} else {
		counts = append(counts, 65536, 65537, 1<<20+1)
	}
	n := counts[c.Choose("features", len(counts))]
	known := c.Bool("known count")
	if n == 0 && known {
		c.Stop()
	}
	ns := 0
	if known && c.Bool("index") {
		ns = 16
	}
	seekable, how := c.Bool("seekable"), c.Choose("how", 7)
	if n > 1<<20 {
		if !c.thorough && (seekable || how != 0 && how != 3 && how != 4) {
			c.Stop()
		}
		hugeLock.Lock()
		defer hugeLock.Unlock()
	}
	f := bigFile(n, known, ns)
	s := &src{data: f.bytes()}
	d := newReader(c, f, s, seekable, false)
	d.do(rop{kind: opHeader})
	switch how {
	case 0:
		d.do(rop{kind: opDataRem})
	case 1:
		d.do(rop{kind: opData, k: 1})
		d.do(rop{kind: opDataRem})
	case 2:
		d.do(rop{kind: opData, k: 1024})
		d.do(rop{kind: opDataRem})
	case 3:
		for d.st != rsEOF {
			d.do(rop{kind: opData, k: 1000})
		}
	case 4:
		d.do(rop{kind: opData, k: n + 1})
	case 5:
		d.do(rop{kind: opIndex})
		d.do(rop{kind: opData, k: n / 2})
		d.do(rop{kind: opDataRem})
	default:
		if ns == 0 {
			c.Stop()
		}
		d.do(rop{kind: opSearch, q: bx(1000, 0, 1100, 1)})
		d.do(rop{kind: opDataRem})
		d.do(rop{kind: opData, k: 5})
	}
	if d.st == rsEOF {
		d.do(rop{kind: opDataRem})
		if d.seekable {
			d.do(rop{kind: opRewind})
			d.do(rop{kind: opDataRem})
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// bigFile makes a file with many tiny features.
func bigFile(n int, known bool, ns int) *fgb {
	f := &fgb{nodeSize: ns, known: known}
	cnt := 0
	if known {
		cnt = n
	}
	f.hdr = encRoot(hdrTable(cnt, ns, nil), 1)
	proto := simpleFeature(bx(0, 0, 0, 0), 0, 0, 0)
	idAt := -1
	// Find the payload by encoding two different ids.
	other := simpleFeature(bx(0, 0, 0, 0), 0x0101, 0, 0)
	for i := range proto {
		if proto[i] != other[i] {
			idAt = i
			break
		}
	}
	all := make([]byte, 0, n*len(proto))
	for i := 0; i < n; i++ {
		at := len(all)
		all = append(all, proto...)
		all[at+idAt] = byte(i)
		all[at+idAt+1] = byte(i >> 8)
		f.feats = append(f.feats, all[at:at+len(proto):at+len(proto)])
		f.boxes = append(f.boxes, bx(float64(i), 0, float64(i)+0.5, 1))
	}
	if ns > 0 {
		f.buildIndex(nil)
	}
	return f
}

// ---- P05

var searchAlphabet = []Box{bx(0, 0, 1, 1), bx(2, 2, 3, 3), bx(1, 1, 1, 1), bx(0, 0, 3, 3), emptyBox}

var fileQueries = []Box{bx(0, 0, 0.5, 0.5), bx(1, 1, 2, 2), bx(1.5, 1.5, 1.6, 1.6), bx(3, 3, 4, 4), bx(-1, -1, 9, 9), bx(-5, -5, -4, -4), bx(1, 0, 1, 5)}

func permutation(c *Ctx, n int) []int {
	var r []int
	left := seqInts(0, n)
	for len(left) > 0 {
		i := c.Choose("order", len(left))
		r = append(r, left[i])
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
	}
	return r
}

func openSearch(c *Ctx, f *fgb, seekable bool, start int) *rdriver {
	data := append(make([]byte, start), f.bytes()...)
	d := newReader(c, f, &src{data: data, pos: int64(start)}, seekable, false)
	d.do(rop{kind: opHeader})
	return d
}

// fileSearchSmall: all assignments of boxes to up to 4 (5) features, in
// every data order or as the writer orders them.
func fileSearchSmall(c *Ctx) {
	n := 1 + c.Choose("n", pickInt(c, 4, 5))
	var boxes []Box
	for _, k := range multiset(c, n, len(searchAlphabet), true) {
		boxes = append(boxes, searchAlphabet[k])
	}
	var order []int
	if !c.Bool("hilbert") {
		order = permutation(c, n)
	}
	for _, ns := range []int{2, 3, 16} {
		f := simpleFile(boxes, ns, true, []int{1, 0, 9}, order)
		for _, seekable := range []bool{true, false} {
			for _, q := range fileQueries {
				d := openSearch(c, f, seekable, 0)
				d.do(rop{kind: opSearch, q: q})
				c.Eval(1)
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// fileSearchSubsets searches for every subset of features, with gaps of
// every interesting size to skip.
func fileSearchSubsets(c *Ctx) {
	n := pickInt(c, 4, 6)
	in, out := bx(0, 0, 1, 1), bx(5, 5, 6, 6)
	var boxes []Box
	for i := 0; i < n; i++ {
		if c.Bool("match") {
			boxes = append(boxes, in)
		} else {
			boxes = append(boxes, out)
		}
	}
	padSets := [][]int{{0}, {8000, 1, 60, 8096, 12}, {8096 - 92, 8096 - 91, 8096 - 90, 8096 - 93}, {16192, 16300, 3}, {20000, 0, 65536}, {1<<20 + 5, 1 << 20, 7}}
	pads := padSets[c.Choose("sizes", len(padSets))]
	order := seqInts(0, n)
	if c.Bool("reverse index order") {
		for i := range order {
			order[i] = n - 1 - i
		}
	}
	ns := []int{2, 16}[c.Choose("nodeSize", 2)]
	f := simpleFile(boxes, ns, true, pads, order)
	b := f.bytes()
	for _, seekable := range []bool{true, false} {
		for ch := 0; ch < numChunkings; ch++ {
			if len(b) > 100000 && ch > 0 && ch < 5 {
				continue
			}
			for _, pre := range []int{0, 1} {
				s := &src{data: b}
				_, s.onRead = chunking(ch)
				d := newReader(c, f, s, seekable, false)
				d.do(rop{kind: opHeader})
				if pre == 1 {
					if !seekable {
						continue
					}
					d.do(rop{kind: opIndex})
					d.do(rop{kind: opRewind})
				}
				d.do(rop{kind: opSearch, q: bx(0.5, 0.5, 2, 2)})
				c.Eval(1)
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// fileSearchHistory searches after every short history of other calls.
func fileSearchHistory(c *Ctx) {
	ns := []int{2, 16}[c.Choose("nodeSize", 2)]
	known := true
	if c.Bool("no index") {
		ns = 0
	}
	f := simpleFile(histBoxes, ns, known, []int{3, 0, 17}, nil)
	d := openSearch(c, f, true, []int{0, 1000}[c.Choose("start", 2)])
	hist := []rop{{kind: opIndex}, {kind: opSearch, q: bx(4, 4, 4, 4)}, {kind: opData, k: 1}, {kind: opData, k: 3}, {kind: opDataRem}, {kind: opData, k: 0}}
	n := c.Choose("history", pickInt(c, 4, 5))
	for i := 0; i < n; i++ {
		d.do(hist[c.Choose("call", len(hist))])
		if c.Bool("more before rewind") {
			d.do(hist[c.Choose("call2", len(hist))])
		}
		d.do(rop{kind: opRewind})
	}
	qs := fileQueries
	q := qs[c.Choose("query", len(qs))]
	d.do(rop{kind: opSearch, q: q})
	d.do(rop{kind: opRewind})
	d.do(rop{kind: opSearch, q: bx(1, 1, 4, 4)})
	c.Eval(2)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// fileSearchShapes: tree shapes around block limits, searched on seekable
// and unseekable streams with the index loaded or not.
func fileSearchShapes(c *Ctx) {
	counts := []int{1, 2, 3, 15, 16, 17, 31, 32, 33, 100, 201, 202, 203, 256, 257, 300, 1000}
	n := counts[c.Choose("n", len(counts))]
	ns := []int{2, 3, 15, 16, 17, 65535}[c.Choose("nodeSize", 6)]
	k := c.Choose("layout", numLayouts)
	f := simpleFile(layout(k, n), ns, true, []int{0, 5, 100, 1}, nil)
	b := f.bytes()
	for _, q := range layoutQueries(f.refs, pickInt(c, 2, 8)) {
		for _, mode := range []int{0, 1, 2} {
			d := newReader(c, f, &src{data: b}, mode != 1, false)
			d.do(rop{kind: opHeader})
			if mode == 2 {
				d.do(rop{kind: opIndex})
				d.do(rop{kind: opRewind})
			}
			d.do(rop{kind: opSearch, q: q})
			c.Eval(1)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// fileSearchWritten searches files made by the writer, whichever way the
// features are held in memory: exact buffers, buffers with spare bytes after
// the table, tables that share a buffer, tables built in place.
func fileSearchWritten(c *Ctx) {
	n := 1 + c.Choose("n", pickInt(c, 3, 4))
	var boxes []Box
	for i := 0; i < n; i++ {
		boxes = append(boxes, searchAlphabet[c.Choose("box", len(searchAlphabet))])
	}
	ns := []int{2, 16}[c.Choose("nodeSize", 2)]
	f := simpleFile(boxes, ns, true, []int{1, 0, 9}, nil)
	var all []byte
	held := make([][]byte, n)
	for i := range f.feats {
		b := append([]byte{}, f.feats[i]...)
		switch c.Choose("held", 4) {
		case 1:
			b = append(b, 9, 9, 9, 9, 9)
		case 2: // whatever else is in the buffer comes after it
			b = append(b, bytes.Repeat([]byte{0xFF}, 40+8*i)...)
		case 3:
			b = append(b, 7)
			all = append(all, b...)
			b = all[len(all)-len(b):]
		}
		held[i] = b
	}
	fs := make([]flat.Feature, n)
	ps := make([]*flat.Feature, n)
	for i := range fs {
		fs[i] = *asFeature(held[i])
		ps[i] = asFeature(held[i])
	}
	for way := 0; way < 2; way++ {
		s := &sink{}
		w := flatgeobuf.NewFileWriter(plainW{s})
		_, err := w.Header(asHeader(f.hdr))
		c.Check(err == nil, "Header: %v", err)
		if way == 0 {
			_, err = w.IndexData(fs)
		} else {
			_, err = w.IndexDataPtr(ps)
		}
		c.Check(err == nil, "writing: %v", err)
		c.Check(w.Close() == nil, "Close fails")
		p, err := parseFile(s.buf)
		c.Check(err == nil, "written file: %v", err)
		c.Check(len(p.feats) == n, "%d features written, not %d", len(p.feats), n)
		// The order of the features is the writer's choice.
		g := &fgb{hdr: f.hdr, nodeSize: ns, known: true, feats: p.feats}
		used := make([]bool, n)
		for _, b := range p.feats {
			at := -1
			for i := range f.feats {
				if !used[i] && bytes.Equal(b, f.feats[i]) {
					at = i
					break
				}
			}
			c.Check(at >= 0, "a feature is written that was not given")
			used[at] = true
			g.boxes = append(g.boxes, boxes[at])
		}
		for _, q := range fileQueries {
			for _, seekable := range []bool{true, false} {
				d := newReader(c, g, &src{data: s.buf}, seekable, false)
				d.do(rop{kind: opHeader})
				fs, err := d.r.IndexSearch(q)
				c.Step(1)
				c.Check(err == nil, "IndexSearch: %v", err)
				g.checkFeatures(c, "search of a written file", fs, g.matching(q))
				c.Eval(1)
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}
