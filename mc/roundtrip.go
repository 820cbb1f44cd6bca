// P01: what the writer writes, a reader gets back.

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	register(&Family{Prop: "P01", Name: "roundtrip-paths", Run: roundtripPaths})
	register(&Family{Prop: "P01", Name: "roundtrip-geometry", Run: roundtripGeometry})
	register(&Family{Prop: "P01", Name: "roundtrip-sizes", Run: roundtripSizes})
	register(&Family{Prop: "P01", Name: "roundtrip-counts", Run: roundtripCounts})
	register(&Family{Prop: "P01", Name: "roundtrip-headers", Run: roundtripHeaders})
	register(&Family{Prop: "P01", Name: "roundtrip-copy", Run: roundtripCopy})
}

// geomBox is the specification of a geometry's bounds.
func geomBox(g tbl) Box {
	b := emptyBox
	xy, _ := g[gXy].([]float64)
	for i := 0; i+1 < len(xy); i += 2 {
		b = refUnion(b, bx(xy[i], xy[i+1], xy[i], xy[i+1]))
	}
	parts, _ := g[gParts].([]tbl)
	for _, p := range parts {
		b = refUnion(b, geomBox(p))
	}
	return b
}

func featBox(t tbl) Box {
	if g, ok := t[fGeometry].(tbl); ok {
		return geomBox(g)
	}
	return emptyBox
}

// Ways to write.
const (
	wayData = iota // Header, (Index,) Data...
	wayIndexData
	wayIndexDataPtr
	numWays
)

// rt is one round trip.
type rt struct {
	c        *Ctx
	hdr      []byte
	feats    [][]byte
	boxes    []Box
	nodeSize int // 0: no index
	known    bool
	trailing int
	way      int
}

// write writes the file through the writer and checks it against the format.
func (r *rt) write() []byte {
	c := r.c
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	tr := func(b []byte) []byte {
		return append(append([]byte{}, b...), bytes.Repeat([]byte{0xee}, r.trailing)...)
	}
	total := 0
	step := func(what string, n int, err error) {
		c.Step(1)
		total += n
		c.Check(err == nil, "%s: %v", what, err)
		c.Check(total == len(s.buf), "%s: reported %d bytes in total, but emitted %d", what, total, len(s.buf))
	}
	n, err := w.Header(asHeader(tr(r.hdr)))
	step("Header", n, err)
	indexed := r.nodeSize > 0 && r.known && len(r.feats) > 0
	var refs []Ref
	if indexed && r.way == wayData {
		refs = sortedCopy(refsOf(r.feats, r.boxes))
		t := mustTree(c, refs, r.nodeSize)
		n, err = w.Index(t)
		step("Index", n, err)
	}
	if indexed && r.way != wayData {
		fs := make([]flat.Feature, len(r.feats))
		ps := make([]*flat.Feature, len(r.feats))
		for i := range fs {
			fs[i] = *asFeature(tr(r.feats[i]))
			ps[i] = &fs[i]
		}
		if r.way == wayIndexData {
			n, err = w.IndexData(fs)
		} else {
			n, err = w.IndexDataPtr(ps)
		}
		step("IndexData", n, err)
	} else {
		for _, f := range r.feats {
			n, err = w.Data(asFeature(tr(f)))
			step("Data", n, err)
		}
	}
	c.Check(w.Close() == nil, "Close failed")
	p, err := parseFile(s.buf)
	c.Check(err == nil, "the output is not a well-formed file: %v", err)
	c.Check(bytes.Equal(p.hdr, r.hdr), "header bytes differ")
	c.Check(len(p.feats) == len(r.feats), "file has %d features, expected %d", len(p.feats), len(r.feats))
	c.Check((p.index != nil) == indexed, "file has index: %v, expected %v", p.index != nil, indexed)
	if !indexed || r.way == wayData {
		for i := range p.feats {
			c.Check(bytes.Equal(p.feats[i], r.feats[i]), "feature %d differs in the file", i)
		}
		if indexed {
			d := sameNodes(p.index, buildRefTree(refs, r.nodeSize).bytes())
			c.Check(d == "", "index: %s", d)
		}
		return s.buf
	}
	// The order of the features is up to IndexData: match them up.
	byBytes := map[string][]int{}
	for i := range r.feats {
		byBytes[string(r.feats[i])] = append(byBytes[string(r.feats[i])], i)
	}
	var boxes []Box
	for i, b := range p.feats {
		is := byBytes[string(b)]
		c.Check(len(is) > 0, "feature %d of the file is none of the features written (or is repeated)", i)
		byBytes[string(b)] = is[1:]
		boxes = append(boxes, r.boxes[is[0]])
	}
	r.feats, r.boxes = p.feats, boxes
	d := checkAutoIndex(p.index, refsOf(p.feats, boxes), r.nodeSize)
	c.Check(d == "", "index: %s", d)
	return s.buf
}

// read reads a file back in every way.
func (r *rt) read(b []byte, full bool) {
	c := r.c
	f := &fgb{hdr: r.hdr, feats: r.feats, boxes: r.boxes, known: r.known && len(r.feats) > 0, nodeSize: r.nodeSize}
	if r.nodeSize > 0 && f.known {
		f.index = b[len(f.prefix()) : len(f.prefix())+40*refTotalNodes(len(r.feats), r.nodeSize)]
		f.refs = leavesOf(f.index, len(r.feats))
	}
	n := len(r.feats)
	chs := []int{0, 7}
	if n > 3000 {
		chs = []int{0, 6}
	} else if full {
		chs = seqInts(0, numChunkings)
	}
	ways := []bool{true, false}
	if n > 1<<20 {
		chs, ways = chs[:1], ways[:1]
	}
	for _, ch := range chs {
		for _, seekable := range ways {
			open := func() *rdriver {
				s := &src{data: b}
				_, s.onRead = chunking(ch)
				d := newReader(c, f, s, seekable, false)
				d.do(rop{kind: opHeader})
				return d
			}
			d := open()
			d.do(rop{kind: opDataRem})
			for _, k := range []int{1, 2, n, n + 1} {
				if k == 0 || k == 1 && n > 300 || k == 2 && n > 3000 {
					continue
				}
				d = open()
				for i := 0; d.st != rsEOF && i <= n; i++ {
					d.do(rop{kind: opData, k: k})
				}
			}
			d = open()
			d.do(rop{kind: opIndex})
			d.do(rop{kind: opDataRem})
			qs := []Box{bx(-math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64, math.MaxFloat64)}
			for i := 0; i < n && i < 3; i++ {
				if r.boxes[i] != emptyBox {
					qs = append(qs, r.boxes[i])
				}
			}
			for _, q := range qs {
				d = open()
				d.do(rop{kind: opSearch, q: q})
			}
			c.Eval(7)
		}
	}
}

func leavesOf(index []byte, n int) []Ref {
	var refs []Ref
	leaves := index[len(index)-40*n:]
	for i := 0; i < n; i++ {
		refs = append(refs, decodeRef(leaves[40*i:]))
	}
	return refs
}

// wFeatures is an alphabet of features.
func wFeatures() []tbl {
	pt := func(x, y float64) tbl { return tbl{gXy: []float64{x, y}, gType: uint8(1)} }
	return []tbl{
		{fGeometry: pt(1, 2), fProperties: []byte{0, 0, 5}},
		{fGeometry: tbl{gXy: []float64{3, 1, 0, 4}, gZ: []float64{100, -100}, gM: []float64{200, -200}, gType: uint8(2)}},
		{fGeometry: tbl{gXy: []float64{5, 5, 6, 5, 6, 7, 5, 5}, gEnds: []uint32{4}, gType: uint8(3)}, fProperties: []byte{1, 0, 1, 2, 3, 4}},
		{fGeometry: tbl{gType: uint8(7), gParts: []tbl{pt(-5, 0), {gType: uint8(7), gParts: []tbl{pt(0, 9), pt(0.5, -9)}}}}},
		{}, // no geometry at all
		{fGeometry: tbl{gType: uint8(1), gXy: []float64{}}, fProperties: []byte{}},
		{fGeometry: tbl{gXy: []float64{-0.125, 1e300, -1e300, 0}, gType: uint8(4)}, fColumns: []tbl{{cName: "own", cType: uint8(11)}}},
		{fGeometry: pt(1, 2), fProperties: []byte{0, 0, 5}}, // a duplicate of the first
	}
}

func encAny(name string, t tbl, layout int) []byte {
	if layout < 2 {
		return encRoot(t, layout)
	}
	return goRoot(name, t, layout == 3, true)
}

// roundtripPaths: all feature lists of up to 5 (6) over an alphabet of
// features, each written through every write path and read through every
// read path.
func roundtripPaths(c *Ctx) {
	alpha := wFeatures()
	n := c.Choose("n", pickInt(c, 5, 6))
	var ts []tbl
	for _, k := range multiset(c, n, len(alpha), true) {
		ts = append(ts, alpha[k])
	}
	roundtripOf(c, ts, n > 0 && c.Bool("known count"), []int{0, 3})
}

func roundtripOf(c *Ctx, ts []tbl, known bool, trailing []int) {
	n := len(ts)
	r := &rt{c: c, known: known}
	if known {
		r.nodeSize = []int{0, 2, 16}[c.Choose("nodeSize", 3)]
		if r.nodeSize > 0 {
			r.way = c.Choose("way", numWays)
		}
	}
	layout := c.Choose("layout", 4)
	cnt := 0
	if known {
		cnt = n
	}
	r.hdr = encAny("Header", hdrTable(cnt, r.nodeSize, tbl{hName: "file", hColumns: []tbl{{cName: "a", cType: uint8(1)}, {cName: "b", cType: uint8(6)}}}), layout)
	for _, t := range ts {
		r.feats = append(r.feats, encAny("Feature", t, layout))
		r.boxes = append(r.boxes, featBox(t))
	}
	r.trailing = trailing[c.Choose("trailing", len(trailing))]
	r.read(r.write(), c.thorough && n < 4)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// chooseGeom makes every ordered tree of parts with a node budget.
func chooseGeom(c *Ctx, budget *int, depth int) tbl {
	xys := [][]float64{nil, {1, 1}, {-3, 2, 4, -1}, {7, -7}, {0, 0, 0, 9, 9, 0}}
	g := tbl{gType: uint8(7)}
	if k := c.Choose("xy", len(xys)); k > 0 {
		g[gXy] = xys[k]
		g[gZ] = []float64{1e6}
	}
	*budget--
	var parts []tbl
	for *budget > 0 && c.Bool("part") {
		parts = append(parts, chooseGeom(c, budget, depth+1))
	}
	if len(parts) > 0 {
		g[gParts] = parts
	}
	return g
}

// roundtripGeometry checks the bounds which IndexData computes.
func roundtripGeometry(c *Ctx) {
	var g tbl
	if c.Bool("large") {
		// Deep chains and wide collections.
		k := 1 + c.Choose("size", 16)
		if c.Bool("wide") {
			k *= 20
			g = tbl{gType: uint8(7)}
			var parts []tbl
			for i := 0; i < k; i++ {
				parts = append(parts, tbl{gXy: []float64{float64(i * i % 17), float64(-i)}})
			}
			g[gParts] = parts
		} else {
			for i := 0; i < k; i++ {
				h := tbl{gXy: []float64{float64(i), float64(-i * i)}}
				if g != nil {
					h[gParts] = []tbl{g}
				}
				g = h
			}
		}
	} else {
		budget := pickInt(c, 4, 5)
		g = chooseGeom(c, &budget, 0)
	}
	layout := c.Choose("layout", 3)
	other := tbl{fGeometry: boxGeom(bx(20, 20, 21, 21))}
	r := &rt{c: c, known: true, nodeSize: 2, way: wayIndexDataPtr}
	r.hdr = encRoot(hdrTable(3, 2, nil), 0)
	for _, t := range []tbl{{fGeometry: g}, other, {fProperties: []byte{1}}} {
		r.feats = append(r.feats, encAny("Feature", t, layout))
		r.boxes = append(r.boxes, featBox(t))
	}
	b := r.write()
	d := openSearch(c, &fgb{hdr: r.hdr, feats: r.feats, boxes: r.boxes, known: true, nodeSize: 2, index: b[len(refMagic)+len(r.hdr) : len(refMagic)+len(r.hdr)+40*6],
		refs: leavesOf(b[len(refMagic)+len(r.hdr):len(refMagic)+len(r.hdr)+40*6], 3)}, true, 0)
	d.do(rop{kind: opSearch, q: bx(-1, -1, 0.5, 0.5)})
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// padTable extends a size-prefixed table to a total size (if it is larger).
func padTable(b []byte, size int) []byte {
	r := append([]byte{}, b...)
	for i := 0; len(r) < size; i++ {
		r = append(r, byte(i))
	}
	binary.LittleEndian.PutUint32(r, uint32(len(r)-4))
	return r
}

// roundtripSizes uses tables whose sizes lie around internal buffer sizes.
func roundtripSizes(c *Ctx) {
	marks := []int{0, 8096, 16192, 65536, 1 << 20, 1<<20 + 65536}
	if c.thorough {
		marks = append(marks, 2<<20, 1024, 4096, 8192, 32768)
	}
	roundtripSizesOf(c, marks)
}

func roundtripSizesOf(c *Ctx, marks []int) {
	m := marks[c.Choose("mark", len(marks))]
	delta := c.Choose("delta", 13) - 6
	what := c.Choose("what", 2)
	n := 3
	r := &rt{c: c, known: true, nodeSize: []int{0, 2}[c.Choose("nodeSize", 2)]}
	if r.nodeSize > 0 {
		r.way = c.Choose("way", numWays)
	}
	ht := hdrTable(n, r.nodeSize, nil)
	r.hdr = encRoot(ht, 0)
	if what == 1 {
		r.hdr = padTable(r.hdr, m+delta)
	}
	for i := 0; i < n; i++ {
		b := wBoxes[i]
		ft := simpleFeature(b, i, 1, 0)
		if what == 0 && i == 1 {
			ft = padTable(ft, m+delta)
		}
		r.feats = append(r.feats, ft)
		r.boxes = append(r.boxes, b)
	}
	b := r.write()
	// A few ways of reading, with big and small deliveries.
	f := &fgb{hdr: r.hdr, feats: r.feats, boxes: r.boxes, known: true, nodeSize: r.nodeSize}
	if r.nodeSize > 0 {
		at := len(f.prefix())
		f.index = b[at : at+40*refTotalNodes(n, r.nodeSize)]
		f.refs = leavesOf(f.index, n)
	}
	for _, ch := range []int{0, 5, 8} {
		for _, seekable := range []bool{true, false} {
			for way := 0; way < 3; way++ {
				s := &src{data: b}
				_, s.onRead = chunking(ch)
				d := newReader(c, f, s, seekable, false)
				d.do(rop{kind: opHeader})
				switch way {
				case 0:
					d.do(rop{kind: opDataRem})
				case 1:
					d.do(rop{kind: opData, k: 1})
					d.do(rop{kind: opDataRem})
				default:
					d.do(rop{kind: opSearch, q: wBoxes[2]})
				}
				c.Eval(1)
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// roundtripCounts writes many features.
func roundtripCounts(c *Ctx) {
	counts := []int{}
	for i := 1; i <= pickInt(c, 40, 120); i++ {
		counts = append(counts, i)
	}
	counts = append(counts, 202, 203, 204, 255, 256, 257, 500, 1023, 1024, 1025)
	if c.thorough {
		counts = append(counts, 2047, 2048, 2049, 5000, 65535, 65536, 65537, 1<<20+1)
	} else {
		counts = append(counts, 65537, 1<<20+1)
	}
	n := counts[c.Choose("n", len(counts))]
	r := &rt{c: c, known: c.Bool("known count")}
	if r.known {
		r.nodeSize = []int{0, 2, 3, 4, 5, 15, 16, 17, 65535}[c.Choose("nodeSize", 9)]
		if n > 3000 && r.nodeSize > 2 && r.nodeSize < 16 {
			c.Stop()
		}
		if r.nodeSize > 0 {
			r.way = c.Choose("way", numWays)
		}
	}
	if n > 1<<20 {
		if !c.thorough && (r.nodeSize != 0 && r.nodeSize != 16 || r.way > 1) {
			c.Stop()
		}
		hugeLock.Lock()
		defer hugeLock.Unlock()
	}
	cnt := 0
	if r.known {
		cnt = n
	}
	r.hdr = encRoot(hdrTable(cnt, r.nodeSize, nil), 0)
	bs := layout(1, n)
	for i := 0; i < n; i++ {
		r.feats = append(r.feats, simpleFeature(bs[i], i, i%5, i%2))
		r.boxes = append(r.boxes, bs[i])
	}
	b := r.write()
	if n <= 2000 || r.nodeSize == 0 || r.nodeSize == 16 {
		r.read(b, false)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// roundtripHeaders uses every subset of header fields.
func roundtripHeaders(c *Ctx) {
	t := tbl{}
	for _, f := range fbSchema["Header"] {
		if f.slot == hCount || f.slot == hNodeSize {
			continue
		}
		if c.Bool(f.name) {
			t[f.slot] = fieldValue(f, 0)
		}
	}
	r := &rt{c: c}
	count := c.Choose("count", 3)
	ns := []int{-1, 0, 2, 65535}[c.Choose("nodeSize", 4)]
	if count == 0 && ns != 0 {
		// The writer does not write features of a file which has an
		// index node size, but no count.
		ns = 0
	}
	if count > 0 {
		t[hCount] = uint64(count)
		r.known = true
	}
	r.nodeSize = ns
	if ns >= 0 {
		t[hNodeSize] = uint16(ns)
	} else {
		r.nodeSize = 16
	}
	if r.nodeSize > 0 {
		r.way = c.Choose("way", 2)
	}
	r.hdr = encAny("Header", t, c.Choose("layout", 3))
	n := count
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		r.feats = append(r.feats, simpleFeature(wBoxes[i], i, 2, 0))
		r.boxes = append(r.boxes, wBoxes[i])
	}
	b := r.write()
	s := &src{data: b}
	rd := flatgeobuf.NewFileReader(s.asReader(c.Bool("seekable"), false))
	h, err := rd.Header()
	c.Step(2)
	c.Check(err == nil, "Header: %v", err)
	d := diffTbl(accHeader(h), expected(t, "Header"), "Header")
	c.Check(d == "", "header read back differs: %s", d)
	fs, err := rd.DataRem()
	c.Check(err == nil && len(fs) == n, "DataRem returned %d features, %v", len(fs), err)
	for i := range fs {
		d := sameFeature(&fs[i], r.feats[i])
		c.Check(d == "", "feature %d: %s", i, d)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// roundtripCopy reads a file with a reader and writes what was read with a
// writer: the copy must be identical.
func roundtripCopy(c *Ctx) {
	n := 1 + c.Choose("n", 5)
	ns := []int{0, 2, 16}[c.Choose("nodeSize", 3)]
	known := c.Bool("known count")
	if !known {
		ns = 0
	}
	var order []int
	if ns > 0 && c.Bool("any order") {
		order = permutation(c, n)
	}
	f := simpleFile(wBoxes[:n], ns, known, []int{0, 9, 100}, order)
	b := f.bytes()
	src := &src{data: b}
	ch := c.Choose("delivery", numChunkings)
	_, src.onRead = chunking(ch)
	r := flatgeobuf.NewFileReader(src.asReader(c.Bool("seekable"), false))
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	h, err := r.Header()
	c.Check(err == nil, "Header: %v", err)
	_, err = w.Header(h)
	c.Check(err == nil, "writing the header read: %v", err)
	t, err := r.Index()
	c.Check(err == nil, "Index: %v", err)
	if t != nil {
		_, err = w.Index(t)
		c.Check(err == nil, "writing the index read: %v", err)
	}
	p := make([]flat.Feature, 1+c.Choose("batch", 3))
	for {
		k, err := r.Data(p)
		for i := 0; i < k; i++ {
			_, e := w.Data(&p[i])
			c.Check(e == nil, "writing a feature read: %v", e)
		}
		if err == io.EOF {
			break
		}
		c.Check(err == nil, "Data: %v", err)
	}
	c.Check(w.Close() == nil, "Close failed")
	c.Check(bytes.Equal(s.buf, b), "the copy differs from the original")
	c.Step(2*n + 5)
	// Two copies through different ways hold the same features.
	sort.Ints(order)
	c.StateStr(fmt.Sprint(values(c.trace)))
}
