// P07 (writer call histories) and P10 (write failures).

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P07", Name: "writer-graph", Run: writerGraph})
	register(&Family{Prop: "P07", Name: "writer-sequences", Run: writerSequences})
	register(&Family{Prop: "P07", Name: "writer-tables", Run: writerTables})
	register(&Family{Prop: "P07", Name: "writer-damaged", Run: writerDamaged})
	register(&Family{Prop: "P10", Name: "writefault-histories", Quick: 1, Thorough: 2, Run: writeFaultHistories})
	register(&Family{Prop: "P10", Name: "writefault-retries", Quick: 3, Thorough: 4, Run: writeFaultRetries})
	register(&Family{Prop: "P10", Name: "writefault-index", Quick: 2, Thorough: 2, Run: writeFaultIndex})
	register(&Family{Prop: "P10", Name: "writefault-large", Run: writeFaultLarge})
	register(&Family{Prop: "P10", Name: "writefault-properties", Quick: 2, Thorough: 3, Run: writeFaultProps})
	register(&Family{Prop: "P10", Name: "writefault-close", Run: writeFaultClose})
	faultLevel["P10"] = "case = (call history, index of the failing write, bytes it accepted); all combinations within the bounds; distinct = distinct choice lists that reached a fault or ended"
}

// Kinds of writer calls.
const (
	wHeader = iota
	wIndex
	wIndexData
	wIndexDataPtr
	wData
	wClose
)

// Variants of arguments.
const (
	vOK = iota
	vTrailing
	vBuilt
	vPlainRoot // root table without size prefix
	vOffset    // size-prefixed root not at offset zero
	vShort     // buffer smaller than the size prefix
	vEmpty     // zero value
	vNodeSize1
	vOverflow
	vFewer
	vMore
	vNone
	vOtherNodeSize
	vBadFirst
	vBadLast
	vInner // a nested table rather than the root
)

var variantNames = []string{"", "trailing bytes", "built", "no size prefix", "offset", "short buffer", "zero value", "node size 1", "count overflow",
	"fewer", "more", "none", "other node size", "bad first", "bad last", "inner table"}

type wop struct{ kind, v int }

func (o wop) String() string {
	n := []string{"Header", "Index", "IndexData", "IndexDataPtr", "Data", "Close"}[o.kind]
	if o.v != vOK {
		n += "(" + variantNames[o.v] + ")"
	}
	return n
}

func (o wop) valid() bool { return o.v == vOK || o.v == vTrailing || o.v == vBuilt }

// wconfig is a writer configuration.
type wconfig struct {
	n, nodeSize int
	closable    bool
	badClose    bool // closing the stream fails
}

func (g wconfig) String() string {
	return fmt.Sprintf("n=%d nodeSize=%d closable=%v failing=%v", g.n, g.nodeSize, g.closable, g.badClose)
}

// wmaterial holds the arguments for one configuration.
type wmaterial struct {
	g      wconfig
	hdr    []byte
	feats  [][]byte
	boxes  []Box
	refs   []Ref // of the n features, Hilbert sorted
	index  []byte
	auto   []byte // the index IndexData writes
	tree   *packedrtree.PackedRTree
	fewer  *packedrtree.PackedRTree
	more   *packedrtree.PackedRTree
	other  *packedrtree.PackedRTree
	hdrGo  []byte
	featGo [][]byte
}

func refsOf(feats [][]byte, boxes []Box) []Ref {
	var refs []Ref
	o := int64(0)
	for i := range feats {
		refs = append(refs, Ref{Box: boxes[i], Offset: o})
		o += int64(len(feats[i]))
	}
	return refs
}

var wBoxes = []Box{bx(4, 4, 5, 5), bx(0, 0, 1, 1), bx(1, 4, 1, 4), bx(9, 9, 9, 9), bx(2, 2, 3, 3), bx(7, 1, 8, 2)}

func newMaterial(c *Ctx, g wconfig) *wmaterial {
	m := &wmaterial{g: g}
	ht := hdrTable(g.n, g.nodeSize, tbl{hName: "w"})
	m.hdr = encRoot(ht, 0)
	m.hdrGo = goRoot("Header", ht, false, true)
	for i := 0; i < g.n+2; i++ {
		b := wBoxes[i%len(wBoxes)]
		m.boxes = append(m.boxes, b)
		m.feats = append(m.feats, simpleFeature(b, i, []int{0, 5, 1}[i%3], i%2))
		t := tbl{fGeometry: boxGeom(b), fProperties: []byte{byte(i), 9}}
		m.featGo = append(m.featGo, goRoot("Feature", t, i%2 == 1, true))
	}
	if g.n > 0 && g.nodeSize > 1 {
		m.refs = sortedCopy(refsOf(m.feats[:g.n], m.boxes[:g.n]))
		m.index = buildRefTree(m.refs, g.nodeSize).bytes()
		m.tree = mustTree(c, m.refs, g.nodeSize)
		if g.n > 1 {
			m.fewer = mustTree(c, m.refs[:g.n-1], g.nodeSize)
		}
	}
	ns := g.nodeSize
	if ns < 2 {
		ns = 2
	}
	m.more = mustTree(c, sortedCopy(refsOf(m.feats[:g.n+1], m.boxes[:g.n+1])), ns)
	on := g.n
	if on == 0 {
		on = 1
	}
	m.other = mustTree(c, sortedCopy(refsOf(m.feats[:on], m.boxes[:on])), ns+1)
	if m.tree != nil {
		// What IndexData writes is learnt from a fault-free run, and
		// checked against the format.
		s := &sink{}
		w := flatgeobuf.NewFileWriter(s.asWriter(false))
		if _, err := w.Header(asHeader(m.hdr)); err != nil {
			c.Fail("Header: %v", err)
		}
		at := len(s.buf)
		fs := make([]flat.Feature, g.n)
		for i := range fs {
			fs[i] = *asFeature(m.feats[i])
		}
		if _, err := w.IndexData(fs); err != nil {
			c.Fail("IndexData: %v", err)
		}
		m.auto = s.buf[at : at+len(m.index)]
		if d := checkAutoIndex(m.auto, refsOf(m.feats[:g.n], m.boxes[:g.n]), g.nodeSize); d != "" {
			c.Fail("IndexData wrote a wrong index: %s", d)
		}
	}
	return m
}

// checkAutoIndex checks that an index is well formed and that its leaves are
// exactly the references, in any order.
func checkAutoIndex(b []byte, refs []Ref, ns int) string {
	n := refTotalNodes(len(refs), ns)
	if len(b) < 40*n {
		return fmt.Sprintf("%d bytes, expected %d", len(b), 40*n)
	}
	leaves := b[40*(n-len(refs)) : 40*n]
	var got []Ref
	count := map[Ref]int{}
	for _, r := range refs {
		count[normRef(r)]++
	}
	for i := range refs {
		r := decodeRef(leaves[40*i:])
		got = append(got, r)
		k := normRef(r)
		if count[k] == 0 {
			return fmt.Sprintf("leaf %d is %s@%d, which is no feature's bounds and position (expected %s)", i, boxStr(r.Box), r.Offset, refsStr(refs))
		}
		count[k]--
	}
	return sameNodes(b[:40*n], buildRefTree(got, ns).bytes())
}

func decodeRef(b []byte) Ref {
	f := func(j int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[8*j:])) }
	return Ref{Box: bx(f(0), f(1), f(2), f(3)), Offset: int64(binary.LittleEndian.Uint64(b[32:]))}
}

func normRef(r Ref) Ref {
	z := func(f float64) float64 {
		if f == 0 {
			return 0
		}
		return f
	}
	r.Box = bx(z(r.XMin), z(r.YMin), z(r.XMax), z(r.YMax))
	return r
}

var materials map[wconfig]*wmaterial

func (c *Ctx) material(g wconfig) *wmaterial {
	g.closable, g.badClose = false, false
	c.x.mu.Lock()
	defer c.x.mu.Unlock()
	if materials == nil {
		materials = map[wconfig]*wmaterial{}
	}
	m := materials[g]
	if m == nil {
		m = newMaterial(c, g)
		materials[g] = m
	}
	return m
}

// badFeature makes a feature argument which is not a complete size-prefixed
// root table.
func badTable(good []byte, plain []byte, v int) (b []byte, pos uint32) {
	root := 4 + binary.LittleEndian.Uint32(good[4:])
	switch v {
	case vPlainRoot:
		return plain, binary.LittleEndian.Uint32(plain)
	case vOffset:
		return append(make([]byte, 8), good...), 8 + root
	case vShort:
		return good[: len(good)-1 : len(good)-1], root
	case vEmpty:
		return nil, 0
	case vInner:
		return good, root + 4
	}
	panic("harness error")
}

// Writer model states.
const (
	wsNew = iota
	wsHdr
	wsIndex // data may be written
	wsEOF
	wsBroken
)

// wdriver runs writer calls in lockstep with the reference model.
type wdriver struct {
	c      *Ctx
	m      *wmaterial
	g      wconfig
	s      *sink
	w      *flatgeobuf.FileWriter
	st     int
	nw     int // features written
	named  bool
	closed bool
	exp    []byte
	hist   []string
	cur    wop
	// unsure: after a fault in the data part of IndexData, the writer may
	// be broken or may continue with the failed feature.
	unsure bool
	// maybe: after a header whose table is invalid was rejected before
	// anything was emitted, the writer may be broken or may accept another.
	maybe bool
	// fault observed in the current call
	faulted  bool
	accepted int
	faults   int
}

func newWriter(c *Ctx, g wconfig) *wdriver { return newWriterTo(c, g, &sink{}) }

func newWriterTo(c *Ctx, g wconfig, s *sink) *wdriver {
	d := &wdriver{c: c, m: c.material(g), g: g, s: s}
	if g.closable {
		d.w = flatgeobuf.NewFileWriter(d.s.asWriter(true))
		if g.badClose {
			d.s.onClose = func() error { return errInjected }
		}
	} else {
		d.w = flatgeobuf.NewFileWriter(d.s.asWriter(false))
	}
	return d
}

// out is the output so far.
func (d *wdriver) out() []byte {
	if d.s.refresh != nil {
		d.s.refresh()
	}
	return d.s.buf
}

func (d *wdriver) fail(format string, a ...interface{}) {
	d.c.Fail("%v, after %s: %s", d.g, strings.Join(d.hist, ", "), fmt.Sprintf(format, a...))
}

// reject checks that a call failed without emitting anything.
func (d *wdriver) reject(n int, err error) {
	if err == nil {
		d.fail("call succeeded, but must be rejected")
	}
	if n != 0 {
		d.fail("rejected call reports %d bytes written", n)
	}
	if d.closed && d.cur.valid() && !errors.Is(err, flatgeobuf.ErrClosed) {
		d.fail("error is %v, expected ErrClosed", err)
	}
}

// wrote checks a call which must emit want, unless the stream failed.
func (d *wdriver) wrote(n int, err error, want []byte) (ok bool) {
	got := len(d.out()) - len(d.exp)
	if d.faulted {
		if err == nil {
			d.fail("succeeded although the stream failed")
		}
		if !errors.Is(err, errInjected) {
			d.fail("error %v does not carry the cause", err)
		}
		if got > len(want) {
			d.fail("emitted %d bytes, expected at most %d", got, len(want))
		}
		if n != got {
			d.fail("reports %d bytes written, but the stream accepted %d", n, got)
		}
		d.exp = append(d.exp, want[:got]...)
		return false
	}
	if err != nil {
		d.fail("error %v", err)
	}
	if n != len(want) {
		d.fail("reports %d bytes written, expected %d", n, len(want))
	}
	d.exp = append(d.exp, want...)
	return true
}

func (d *wdriver) featureArgs(o wop) []flat.Feature {
	n := d.g.n
	switch o.v {
	case vFewer:
		n--
	case vMore:
		n++
	case vNone:
		n = 0
	}
	if n < 0 {
		n = 0
	}
	fs := make([]flat.Feature, n)
	for i := range fs {
		b := d.m.feats[i]
		if o.v == vTrailing {
			b = append(append([]byte{}, b...), 1, 2, 3, 4, 5)
		}
		fs[i] = *asFeature(b)
	}
	bad := -1
	if o.v == vBadFirst {
		bad = 0
	} else if o.v == vBadLast {
		bad = n - 1
	}
	if bad >= 0 && bad < n {
		b, pos := badTable(d.m.feats[bad], nil, vShort)
		fs[bad] = flat.Feature{}
		fs[bad].Init(b, unsafePos(pos))
	}
	return fs
}

// do performs one call and compares it with the model.
func (d *wdriver) do(o wop) {
	d.hist = append(d.hist, o.String())
	d.c.Logf("%v", o)
	d.c.Step(1)
	d.faulted, d.accepted, d.cur = false, 0, o
	d.call(o)
	if !bytes.Equal(d.out(), d.exp) {
		d.fail("output is %d bytes, expected %d (or they differ): got tail %x", len(d.out()), len(d.exp), tail(d.out()))
	}
}

func tail(b []byte) []byte {
	if len(b) > 48 {
		return b[len(b)-48:]
	}
	return b
}

func (d *wdriver) call(o wop) {
	g := d.g
	open := !d.closed && d.st != wsBroken
	switch o.kind {
	case wHeader:
		var h *flat.Header
		want := append(append([]byte{}, refMagic...), d.m.hdr...)
		switch o.v {
		case vOK:
			h = asHeader(d.m.hdr)
		case vTrailing:
			h = asHeader(append(append([]byte{}, d.m.hdr...), 9, 9, 9))
		case vBuilt:
			h = asHeader(d.m.hdrGo)
			want = append(append([]byte{}, refMagic...), d.m.hdrGo...)
		case vNodeSize1:
			h = asHeader(encRoot(hdrTable(g.n, 1, nil), 0))
		case vOverflow:
			h = asHeader(encRoot(tbl{hCount: uint64(1) << 63, hNodeSize: uint16(g.nodeSize)}, 0))
		default:
			plain := goRoot("Header", hdrTable(g.n, g.nodeSize, nil), false, false)
			b, pos := badTable(d.m.hdr, plain, o.v)
			h = &flat.Header{}
			h.Init(b, unsafePos(pos))
		}
		n, err := d.w.Header(h)
		if !open || d.st != wsNew {
			d.reject(n, err)
			return
		}
		if o.v == vNodeSize1 || o.v == vOverflow || o.v == vEmpty {
			d.reject(n, err)
			return
		}
		if !o.valid() {
			// The magic number may have been written by then; after
			// that nothing more may be.
			if err == nil {
				d.fail("invalid header table accepted")
			}
			got := len(d.out())
			if n != got {
				d.fail("reports %d bytes written, but emitted %d", n, got)
			}
			if got > len(refMagic) {
				d.fail("emitted %d bytes for an invalid header", got)
			}
			d.exp = append(d.exp, refMagic[:got]...)
			if got > 0 || d.faulted {
				d.st = wsBroken
			} else {
				d.maybe = true
			}
			return
		}
		if d.maybe && err != nil && n == 0 && len(d.out()) == 0 && !d.faulted {
			d.maybe, d.st = false, wsBroken
			return
		}
		d.maybe = false
		if d.wrote(n, err, want) {
			d.st = wsHdr
			d.named = true
		} else {
			d.st = wsBroken
		}
	case wIndex:
		t := d.m.tree
		switch o.v {
		case vFewer:
			t = d.m.fewer
		case vMore:
			t = d.m.more
		case vOtherNodeSize:
			t = d.m.other
		}
		if t == nil {
			t = d.m.more
		}
		n, err := d.w.Index(t)
		if !open || d.st != wsHdr || g.nodeSize == 0 || g.n == 0 || t != d.m.tree {
			d.reject(n, err)
			return
		}
		if d.wrote(n, err, d.m.index) {
			d.st = wsIndex
		} else {
			d.st = wsBroken
		}
	case wIndexData, wIndexDataPtr:
		fs := d.featureArgs(o)
		var n int
		var err error
		if o.kind == wIndexData {
			n, err = d.w.IndexData(fs)
		} else {
			ps := make([]*flat.Feature, len(fs))
			for i := range fs {
				ps[i] = &fs[i]
			}
			n, err = d.w.IndexDataPtr(ps)
		}
		if !open || d.st != wsHdr || g.nodeSize == 0 || g.n == 0 || !o.valid() {
			d.reject(n, err)
			return
		}
		want := append([]byte{}, d.m.auto...)
		for i := 0; i < g.n; i++ {
			want = append(want, d.m.feats[i]...)
		}
		base := len(d.exp)
		if d.wrote(n, err, want) {
			d.st, d.nw = wsEOF, g.n
			return
		}
		// A fault at a feature boundary leaves a consistent output; the
		// writer may either continue from there or stay failed.
		at := len(d.exp) - base - len(d.m.auto)
		d.st = wsBroken
		for i, o := 0, 0; i < g.n; i++ {
			if at == o && !(d.accepted > 0) {
				d.st, d.nw, d.unsure = wsIndex, i, true
			}
			o += len(d.m.feats[i])
		}
	case wData:
		i := d.nw
		if i >= len(d.m.feats) {
			i = len(d.m.feats) - 1
		}
		b := d.m.feats[i]
		want := b
		f := &flat.Feature{}
		switch o.v {
		case vOK:
			f = asFeature(b)
		case vTrailing:
			f = asFeature(append(append([]byte{}, b...), 7, 7))
		case vBuilt:
			want = d.m.featGo[i]
			f = asFeature(want)
		default:
			plain := goRoot("Feature", tbl{fGeometry: boxGeom(d.m.boxes[i]), fProperties: []byte{1}}, false, false)
			bb, pos := badTable(b, plain, o.v)
			f.Init(bb, unsafePos(pos))
		}
		n, err := d.w.Data(f)
		switch {
		case !open, d.st == wsNew, d.st == wsEOF, d.st == wsHdr && g.nodeSize > 0 && g.n > 0, !o.valid():
			d.reject(n, err)
			return
		case d.st == wsHdr && g.nodeSize > 0:
			// Count unknown, but an index announced: the writer may
			// insist on the index or, as there is none in such a
			// file, accept the feature.
			if err != nil {
				d.reject(n, err)
				return
			}
		case d.unsure:
			d.unsure = false
			if err != nil && !d.faulted {
				d.reject(n, err)
				d.st = wsBroken
				return
			}
		}
		if d.wrote(n, err, want) {
			d.nw++
			d.st = wsIndex
			if g.n > 0 && d.nw == g.n {
				d.st = wsEOF
			}
		} else if d.accepted > 0 {
			d.st = wsBroken
		}
	case wClose:
		err := d.w.Close()
		d.out()
		if d.closed {
			if !errors.Is(err, flatgeobuf.ErrClosed) {
				d.fail("second Close returned %v", err)
			}
		} else if d.named && d.nw < g.n {
			if err == nil {
				d.fail("Close returned no error, but only %d of %d features were written", d.nw, g.n)
			}
		} else if g.badClose {
			if !errors.Is(err, errInjected) {
				d.fail("Close returned %v although closing the stream failed", err)
			}
		} else if err != nil {
			d.fail("Close returned %v", err)
		}
		d.closed = true
		want := 0
		if g.closable {
			want = 1
		}
		if d.s.closed != want {
			d.fail("underlying stream closed %d times, expected %d", d.s.closed, want)
		}
	}
}

func (d *wdriver) hash() uint64 {
	h := fnv.New64a()
	deepHash(h, reflect.ValueOf(d.w), map[uintptr]bool{})
	fmt.Fprint(h, "|", d.st, d.nw, d.named, d.closed, d.maybe, d.s.closed, len(d.exp))
	h.Write(d.exp)
	return h.Sum64()
}

var writerOps = []wop{
	{wHeader, vOK}, {wIndex, vOK}, {wIndexData, vOK}, {wIndexDataPtr, vOK}, {wData, vOK}, {wClose, vOK},
	{wData, vShort}, {wData, vPlainRoot}, {wIndex, vMore}, {wIndex, vOtherNodeSize}, {wIndexDataPtr, vBadLast}, {wIndexData, vFewer},
	{wData, vTrailing}, {wIndexData, vNone},
	// In the graph search only:
	{wHeader, vTrailing}, {wHeader, vBuilt}, {wHeader, vPlainRoot}, {wHeader, vOffset}, {wHeader, vShort}, {wHeader, vEmpty}, {wHeader, vNodeSize1}, {wHeader, vOverflow}, {wHeader, vInner},
	{wIndex, vFewer}, {wIndexData, vMore}, {wIndexData, vBadFirst}, {wIndexData, vTrailing}, {wIndexDataPtr, vBadFirst}, {wIndexDataPtr, vFewer}, {wIndexDataPtr, vMore}, {wIndexDataPtr, vNone},
	{wIndexData, vBadLast}, {wData, vBuilt}, {wData, vOffset}, {wData, vEmpty}, {wData, vInner},
}

const writerSeqOps = 14

func writerConfigs(maxN int) []wconfig {
	var r []wconfig
	for _, ns := range []int{0, 2, 3, 16} {
		for n := 0; n <= maxN; n++ {
			r = append(r, wconfig{n: n, nodeSize: ns})
		}
	}
	return r
}

// writerGraph explores the reachable state graph of one configuration to a
// fixpoint.
func writerGraph(c *Ctx) {
	cs := writerConfigs(pickInt(c, 3, 5))
	g := cs[c.Choose("config", len(cs))]
	switch c.Choose("close", 3) {
	case 1:
		g.closable = true
	case 2:
		g.closable, g.badClose = true, true
	}
	limit := pickInt(c, 3000, 20000)
	maxLen := g.n + 6 // an unknown count allows endlessly many features
	seen := map[uint64]bool{newWriter(c, g).hash(): true}
	frontier := [][]wop{{}}
	transitions := 0
	for len(frontier) > 0 {
		hist := frontier[0]
		frontier = frontier[1:]
		for _, o := range writerOps {
			d := newWriter(c, g)
			for _, p := range hist {
				d.do(p)
			}
			d.do(o)
			transitions++
			if h := d.hash(); !seen[h] {
				seen[h] = true
				if len(seen) < limit && len(hist)+1 < maxLen {
					frontier = append(frontier, append(append([]wop{}, hist...), o))
				}
				c.State(h ^ hashInts(values(c.trace)))
			}
		}
	}
	c.Eval(transitions)
	c.Logf("%v: %d states, %d transitions", g, len(seen), transitions)
}

// writerSequences runs all call sequences to a depth, without merging states.
func writerSequences(c *Ctx) {
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 1, nodeSize: 16}, {n: 2, nodeSize: 0}, {n: 0, nodeSize: 0}, {n: 3, nodeSize: 2}, {n: 0, nodeSize: 16}}
	g := configs[c.Choose("config", len(configs))]
	g.closable = true
	d := newWriter(c, g)
	depth := pickInt(c, 4, 5)
	if c.Bool("header first") {
		d.do(wop{wHeader, vOK})
		depth = pickInt(c, 5, 6)
		if c.Bool("index first") {
			d.do(wop{wIndex, vOK})
		}
	}
	for i := 0; i < depth; i++ {
		d.do(writerOps[c.Choose("call", writerSeqOps)])
	}
	c.State(d.hash() ^ hashInts(values(c.trace[:3])))
}

// writerTables offers every cut and every position of a table.
func writerTables(c *Ctx) {
	ft := tbl{fGeometry: boxGeom(bx(1, 2, 3, 4)), fProperties: []byte{1, 2, 3}}
	ht := hdrTable(1, 0, tbl{hName: "x"})
	layout := c.Choose("layout", 3)
	var f, h []byte
	if layout < 2 {
		f, h = encRoot(ft, layout), encRoot(ht, layout)
	} else {
		f, h = goRoot("Feature", ft, false, true), goRoot("Header", ht, false, true)
	}
	what := c.Choose("what", 3)
	good := f
	if what == 0 {
		good = h
	}
	// cut == len(good) is the complete table; beyond it has trailing bytes.
	cut := c.Choose("bytes", len(good)+20)
	b := make([]byte, cut)
	copy(b, good)
	root := 4 + binary.LittleEndian.Uint32(good[4:])
	pos := int(root)
	if c.Bool("other position") {
		pos = c.Choose("position", len(good))
	}
	valid := cut >= len(good) && pos == int(root)
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	var n int
	var err error
	c.Step(2)
	var want []byte
	base := 0
	if what == 0 {
		var hdr flat.Header
		hdr.Init(b, unsafePos(uint32(pos)))
		want = append(append([]byte{}, refMagic...), h...)
		n, err = w.Header(&hdr)
		if err != nil && !valid {
			c.Check(len(s.buf) == n && (n == 0 || n == 8) && bytes.HasPrefix(want, s.buf), "failed Header (%d of %d bytes, position %d instead of %d): n=%d, emitted %d", cut, len(good), pos, root, n, len(s.buf))
			c.StateStr(fmt.Sprint(values(c.trace)))
			return
		}
	} else {
		if _, err = w.Header(asHeader(encRoot(hdrTable(1, map[int]int{1: 0, 2: 2}[what], nil), 0))); err != nil {
			c.Fail("Header: %v", err)
		}
		base = len(s.buf)
		var ff flat.Feature
		ff.Init(b, unsafePos(uint32(pos)))
		want = f
		if what == 1 {
			n, err = w.Data(&ff)
		} else {
			n, err = w.IndexData([]flat.Feature{ff})
			want = append(buildRefTree([]Ref{{Box: bx(1, 2, 3, 4)}}, 2).bytes(), f...)
		}
	}
	if valid {
		c.Check(err == nil, "complete table rejected: %v", err)
		c.Check(n == len(want) && bytes.Equal(s.buf[base:], want), "complete table with %d trailing bytes written wrongly", cut-len(good))
	} else {
		c.Check(err != nil, "incomplete or non-root table accepted (%d of %d bytes, position %d instead of %d)", cut, len(good), pos, root)
		c.Check(n == 0 && len(s.buf) == base, "rejected table emitted %d bytes, n=%d", len(s.buf)-base, n)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writerDamaged: headers whose feature count or node size, and features whose
// bounds, cannot be read because they lie outside the buffer. They are
// rejected with nothing written, and the correct calls then work.
func writerDamaged(c *Ctx) {
	layout := c.Choose("layout", 2)
	n := c.Choose("features", 4)
	nodeSize := []int{0, 2, 16}[c.Choose("node size", 3)]
	var fs []flat.Feature
	var refs []Ref
	var feats [][]byte
	for i := 0; i < n; i++ {
		b := bx(float64(i), 2, float64(i+1), 4)
		feats = append(feats, encRoot(tbl{fGeometry: boxGeom(b), fProperties: []byte{byte(i)}}, layout))
		refs = append(refs, Ref{Box: b, Offset: int64(i)})
		fs = append(fs, *asFeature(feats[i]))
	}
	h := encRoot(hdrTable(n, nodeSize, tbl{hName: "x"}), layout)
	indexed := nodeSize > 0 && n > 0
	what := c.Choose("damaged", 4)
	far := []int{0, 1, 40, 0x7000, 0xf000}[c.Choose("distance", 5)]
	le := binary.LittleEndian
	// damage moves a field out of the buffer.
	damage := func(b []byte, tp, slot int) {
		vt := tp - int(int32(u32at(b, tp)))
		if 4+2*slot >= u16at(b, vt) || u16at(b, vt+4+2*slot) == 0 {
			c.Stop()
		}
		le.PutUint16(b[vt+4+2*slot:], uint16(len(b)-tp+far))
	}
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	if what < 2 {
		b := append([]byte{}, h...)
		damage(b, 4+u32at(b, 4), []int{hCount, hNodeSize}[what])
		k, err := w.Header(asHeader(b))
		c.Step(1)
		c.Check(err != nil, "header accepted although its field %d lies outside the buffer", what)
		c.Check(k == 0 && len(s.buf) == 0, "rejected header emitted %d bytes, n=%d", len(s.buf), k)
	}
	_, err := w.Header(asHeader(h))
	c.Check(err == nil, "Header: %v", err)
	base := len(s.buf)
	if what >= 2 {
		if !indexed {
			c.Stop()
		}
		bad := c.Choose("feature", n)
		b := append([]byte{}, feats[bad]...)
		if what == 2 {
			damage(b, 4+u32at(b, 4), fGeometry)
		} else {
			tp := 4 + u32at(b, 4)
			vt := tp - int(int32(u32at(b, tp)))
			at := tp + u16at(b, vt+4+2*fGeometry)
			damage(b, at+u32at(b, at), gXy)
		}
		good := fs[bad]
		fs[bad] = *asFeature(b)
		k, err := w.IndexData(fs)
		fs[bad] = good
		c.Step(1)
		c.Check(err != nil, "features accepted although geometry of number %d lies outside its buffer", bad)
		c.Check(k == 0 && len(s.buf) == base, "rejected features emitted %d bytes, n=%d", len(s.buf)-base, k)
	}
	if indexed {
		_, err = w.IndexData(fs)
		c.Check(err == nil, "IndexData: %v", err)
	} else {
		for i := range fs {
			_, err = w.Data(&fs[i])
			c.Check(err == nil, "Data: %v", err)
		}
	}
	c.Check(w.Close() == nil, "Close failed")
	p, err := parseFile(s.buf)
	c.Check(err == nil, "the output is not a well-formed file: %v", err)
	c.Check(bytes.Equal(p.hdr, h) && len(p.feats) == n, "wrong output")
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// ---- P10

// devWrite lets each write accept everything (default), or fail after
// accepting any number of bytes.
func (d *wdriver) devWrite(c *Ctx, limit int) {
	d.s.onWrite = func(p []byte) (int, error) {
		k := acceptChoice(c, len(p), limit)
		if k < 0 {
			d.accepted = 0
			return len(p), nil
		}
		d.faulted, d.accepted = true, k
		d.faults++
		return k, errInjected
	}
}

// acceptChoice returns -1 for success, else how many bytes a failing write
// accepts: every length if there are few, otherwise the ends and the middle.
func acceptChoice(c *Ctx, n, limit int) int {
	if n+1 <= limit {
		return c.Dev("accept", n+2) - 1
	}
	half := (limit - 2) / 2
	k := c.Dev("accept", 2*half+2) - 1
	switch {
	case k <= half:
		return k
	default:
		return n - (2*half - k)
	}
}

// writePrograms are complete ways to write a file.
func writePrograms(g wconfig) [][]wop {
	var progs [][]wop
	data := []wop{}
	k := g.n
	if k == 0 {
		k = 2
	}
	for i := 0; i < k; i++ {
		data = append(data, wop{wData, vOK})
	}
	h := []wop{{wHeader, vOK}}
	if g.nodeSize == 0 || g.n == 0 {
		progs = append(progs, append(append([]wop{}, h...), data...))
	} else {
		progs = append(progs, append(append(append([]wop{}, h...), wop{wIndex, vOK}), data...))
		progs = append(progs, append(append([]wop{}, h...), wop{wIndexData, vOK}))
		progs = append(progs, append(append([]wop{}, h...), wop{wIndexDataPtr, vOK}))
	}
	return progs
}

// writeFaultHistories: every program, every failing write, every accepted
// length, followed by every short continuation.
func writeFaultHistories(c *Ctx) {
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 3, nodeSize: 16}, {n: 2, nodeSize: 0}, {n: 0, nodeSize: 0}, {n: 1, nodeSize: 16}}
	g := configs[c.Choose("config", len(configs))]
	g.closable = true
	progs := writePrograms(g)
	prog := progs[c.Choose("program", len(progs))]
	d := newWriter(c, g)
	d.devWrite(c, 1<<20)
	for _, o := range prog {
		d.do(o)
		if d.faults > 0 {
			break
		}
	}
	if d.faults > 0 {
		cont := []wop{{wData, vOK}, {wHeader, vOK}, {wIndex, vOK}, {wIndexDataPtr, vOK}, {wClose, vOK}}
		for i := 0; i < pickInt(c, 3, 3); i++ {
			d.do(cont[c.Choose("next", len(cont))])
		}
	}
	d.do(wop{wClose, vOK})
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writeFaultRetries: features written one at a time, each failing call being
// retried, until the program is complete or the writer refuses.
func writeFaultRetries(c *Ctx) {
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 3, nodeSize: 0}, {n: 0, nodeSize: 0}}
	g := configs[c.Choose("config", len(configs))]
	g.closable = true
	prog := writePrograms(g)[0]
	d := newWriter(c, g)
	d.devWrite(c, 6)
	for i := 0; i < len(prog); {
		d.do(prog[i])
		if !d.faulted {
			i++
			continue
		}
		if d.st == wsBroken {
			// Everything else must fail from here on.
			for _, o := range prog[i:] {
				d.do(o)
			}
			break
		}
	}
	d.do(wop{wClose, vOK})
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writeFaultIndex: a standalone index write failing anywhere.
func writeFaultIndex(c *Ctx) {
	counts := []int{1, 2, 3, 5, 17, 190, 203, 205, 500}
	n := counts[c.Choose("n", len(counts))]
	ns := []int{2, 3, 16}[c.Choose("nodeSize", 3)]
	writeFaultIndexOf(c, n, ns, pickInt(c, 400, 1<<20))
}

func writeFaultIndexOf(c *Ctx, n, ns, limit int) {
	refs := layoutRefs(1, n, 0)
	t := mustTree(c, refs, ns)
	want := buildRefTree(refs, ns).bytes()
	s := &sink{}
	failed := false
	s.onWrite = func(p []byte) (int, error) {
		c.Check(!failed, "Marshal writes on after the stream failed")
		k := acceptChoice(c, len(p), limit)
		if k < 0 {
			return len(p), nil
		}
		failed = true
		return k, errInjected
	}
	m, err := t.Marshal(s.asWriter(false))
	c.Step(1)
	c.Check(m == len(s.buf), "Marshal returned %d, but the stream accepted %d bytes", m, len(s.buf))
	c.Check(bytes.HasPrefix(want, s.buf), "output is not a prefix of the index")
	if failed {
		c.Check(errors.Is(err, errInjected), "error is %v, expected the stream's", err)
		failed = false
		s.buf = nil
		s.onWrite = nil
		// The index is unharmed.
		m, err = t.Marshal(s.asWriter(false))
	}
	c.Check(err == nil && m == len(want) && bytes.Equal(s.buf, want), "Marshal: %d bytes, error %v", m, err)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writeFaultLarge: things too large for one buffer of whatever size, the
// stream failing once it has accepted a number of bytes; every multiple of a
// step, and its neighbours.
func writeFaultLarge(c *Ctx) {
	kind := c.Choose("what", 8)
	n := []int{1700, 3300, 6000}[c.Choose("amount", 3)]
	size := 40 * n // approximately
	s := &sink{}
	var want []byte
	pre := 0 // bytes written before
	var call func() (int, error)
	refs := layoutRefs(1, n, 0)
	payload := make([]byte, size)
	for i := range payload {
		payload[i] = byte(i * 7 >> 3)
	}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	header := func(t tbl) {
		b := encRoot(t, 0)
		_, err := w.Header(asHeader(b))
		c.Check(err == nil, "Header: %v", err)
		pre = len(s.buf)
	}
	switch kind {
	case 0, 1:
		t := mustTree(c, refs, 16)
		want = buildRefTree(refs, 16).bytes()
		if kind == 0 {
			call = func() (int, error) { return t.Marshal(s.asWriter(false)) }
			break
		}
		header(hdrTable(n, 16, nil))
		call = func() (int, error) { return w.Index(t) }
	case 2, 3:
		f := bigFile(n, true, 16)
		fs := make([]flat.Feature, n)
		ps := make([]*flat.Feature, n)
		off := 0
		var refs []Ref
		for i := range fs {
			fs[i] = *asFeature(f.feats[i])
			ps[i] = &fs[i]
			refs = append(refs, Ref{Box: bx(0, 0, 0, 0), Offset: int64(off)})
			off += len(f.feats[i])
			want = append(want, f.feats[i]...)
		}
		want = append(buildRefTree(refs, 16).bytes(), want...)
		header(hdrTable(n, 16, nil))
		if kind == 2 {
			call = func() (int, error) { return w.IndexData(fs) }
		} else {
			call = func() (int, error) { return w.IndexDataPtr(ps) }
		}
	case 4:
		want = append(append([]byte{}, refMagic...), encRoot(tbl{hName: "x", hMeta: string(payload)}, 0)...)
		h := asHeader(want[len(refMagic):])
		call = func() (int, error) { return w.Header(h) }
	case 5:
		want = encRoot(tbl{fProperties: payload}, 0)
		header(hdrTable(0, 0, nil))
		call = func() (int, error) { return w.Data(asFeature(want)) }
	default:
		want = encProp(ctBinary, payload)
		p := flatgeobuf.NewPropWriter(s.asWriter(false))
		if kind == 6 {
			call = func() (int, error) { return p.WriteBinary(payload) }
		} else {
			call = func() (int, error) { return p.WriteString(string(payload)) }
		}
	}
	step := pickInt(c, 8192, 1024)
	at := c.Choose("accepted", len(want)/step+2) * step
	at += c.Choose("neighbour", 3) - 1
	if at < 0 || at > len(want)+1 {
		c.Stop()
	}
	failed := false
	s.onWrite = func(p []byte) (int, error) {
		c.Check(!failed, "writes on after the stream failed")
		if left := pre + at - len(s.buf); len(p) > left {
			failed = true
			return left, errInjected
		}
		return len(p), nil
	}
	m, err := call()
	c.Step(1)
	got := s.buf[pre:]
	c.Check(m == len(got), "returned %d, but the stream accepted %d bytes", m, len(got))
	c.Check(failed == (at < len(want)), "%d bytes emitted, expected %d", len(got), len(want))
	c.Check(failed == errors.Is(err, errInjected) && failed == (err != nil), "error is %v, stream failed: %v", err, failed)
	if kind != 2 && kind != 3 {
		// The index IndexData writes is checked by P03, P05 and P07.
		c.Check(bytes.HasPrefix(want, got), "output is not a prefix of what it should be")
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writeFaultProps: property writes failing anywhere.
func writeFaultProps(c *Ctx) {
	s := &sink{}
	failed, acc := false, 0
	s.onWrite = func(p []byte) (int, error) {
		c.Check(!failed, "property writer writes on after the stream failed")
		k := acceptChoice(c, len(p), 64)
		if k < 0 {
			acc += len(p)
			return len(p), nil
		}
		failed = true
		acc += k
		return k, errInjected
	}
	w := flatgeobuf.NewPropWriter(s.asWriter(false))
	ops := []struct {
		name string
		want []byte
		f    func() (int, error)
	}{
		{"WriteUShort", []byte{1, 2}, func() (int, error) { return w.WriteUShort(0x0201) }},
		{"WriteBinary", []byte{3, 0, 0, 0, 7, 8, 9}, func() (int, error) { return w.WriteBinary([]byte{7, 8, 9}) }},
		{"WriteString", []byte{2, 0, 0, 0, 'h', 'i'}, func() (int, error) { return w.WriteString("hi") }},
		{"WriteByte", []byte{0xff}, func() (int, error) { return w.WriteByte(-1) }},
		{"WriteUByte", []byte{0xfe}, func() (int, error) { return w.WriteUByte(254) }},
		{"WriteBool", []byte{1}, func() (int, error) { return w.WriteBool(true) }},
		{"WriteShort", []byte{0xfe, 0xff}, func() (int, error) { return w.WriteShort(-2) }},
		{"WriteInt", []byte{1, 2, 3, 4}, func() (int, error) { return w.WriteInt(0x04030201) }},
		{"WriteUInt", []byte{1, 2, 3, 0xf4}, func() (int, error) { return w.WriteUInt(0xf4030201) }},
		{"WriteLong", []byte{1, 2, 3, 4, 5, 6, 7, 8}, func() (int, error) { return w.WriteLong(0x0807060504030201) }},
		{"WriteULong", []byte{1, 2, 3, 4, 5, 6, 7, 0xf8}, func() (int, error) { return w.WriteULong(0xf807060504030201) }},
		{"WriteFloat", []byte{0, 0, 0xc0, 0x3f}, func() (int, error) { return w.WriteFloat(1.5) }},
		{"WriteDouble", []byte{0, 0, 0, 0, 0, 0, 0xf8, 0x3f}, func() (int, error) { return w.WriteDouble(1.5) }},
		{"WriteBinary(empty)", []byte{0, 0, 0, 0}, func() (int, error) { return w.WriteBinary(nil) }},
		{"WriteString(empty)", []byte{0, 0, 0, 0}, func() (int, error) { return w.WriteString("") }},
	}
	for i := 0; i < 2; i++ {
		o := ops[c.Choose("write", len(ops))]
		before := len(s.buf)
		failed, acc = false, 0
		n, err := o.f()
		c.Step(1)
		c.Check(n == acc && n == len(s.buf)-before, "%s returned %d, but the stream accepted %d bytes", o.name, n, acc)
		if failed {
			c.Check(errors.Is(err, errInjected), "%s: error is %v, expected the stream's", o.name, err)
			c.Check(bytes.HasPrefix(o.want, s.buf[before:]), "%s emitted %x", o.name, s.buf[before:])
		} else {
			c.Check(err == nil && bytes.Equal(s.buf[before:], o.want), "%s emitted %x, error %v", o.name, s.buf[before:], err)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writeFaultClose: the underlying stream's Close fails.
func writeFaultClose(c *Ctx) {
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 1, nodeSize: 0}, {n: 0, nodeSize: 0}}
	g := configs[c.Choose("config", len(configs))]
	g.closable = true
	prog := writePrograms(g)[0]
	d := newWriter(c, g)
	d.s.onClose = func() error { return errInjected }
	k := c.Choose("calls before", len(prog)+1)
	for _, o := range prog[:k] {
		d.do(o)
	}
	err := d.w.Close()
	c.Step(2)
	c.Check(errors.Is(err, errInjected), "Close returned %v although the underlying stream failed to close", err)
	err = d.w.Close()
	c.Check(errors.Is(err, flatgeobuf.ErrClosed) && d.s.closed == 1, "second Close returned %v, underlying stream closed %d times", err, d.s.closed)
	n, err := d.w.Data(asFeature(d.m.feats[0]))
	c.Check(n == 0 && errors.Is(err, flatgeobuf.ErrClosed), "Data after Close returned %d, %v", n, err)
	// Readers likewise.
	f := simpleFile(wBoxes[:2], 2, true, nil, nil)
	s := &src{data: f.bytes(), onClose: func() error { return errInjected }}
	r := flatgeobuf.NewFileReader(s.asReader(true, true))
	if k > 0 {
		_, _ = r.Header()
	}
	err = r.Close()
	c.Check(errors.Is(err, errInjected), "reader Close returned %v although the underlying stream failed to close", err)
	c.Check(errors.Is(r.Close(), flatgeobuf.ErrClosed) && s.closed == 1, "reader closed its stream %d times", s.closed)
	c.StateStr(fmt.Sprint(values(c.trace)))
	_ = io.EOF
}
