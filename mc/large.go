// Inputs beyond the sizes at which implementations switch strategy: work lists,
// result lists, features and values larger than a chunk or a 16-bit count.

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"sync"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P02", Name: "search-wide", Run: searchWide})
	register(&Family{Prop: "P03", Name: "seek-wide", Run: seekWide})
	register(&Family{Prop: "P05", Name: "filesearch-many", Run: fileSearchMany})
	register(&Family{Prop: "P08", Name: "fault-large", Quick: 1, Thorough: 2, Run: faultLarge})
	register(&Family{Prop: "P08", Name: "fault-large-index", Quick: 1, Thorough: 1, Run: faultLargeIndex})
	register(&Family{Prop: "P08", Name: "fault-large-property", Quick: 1, Thorough: 2, Run: faultLargeProp})
	register(&Family{Prop: "P12", Name: "prop-many", Run: propMany})
	register(&Family{Prop: "P12", Name: "prop-big", Run: propBig})
	register(&Family{Prop: "P01", Name: "roundtrip-big", Run: roundtripBig})
	register(&Family{Prop: "P01", Name: "roundtrip-bounds", Run: roundtripBounds})
	register(&Family{Prop: "P22", Name: "summary-bounds", Run: summaryBounds})
	register(&Family{Prop: "P19", Name: "alias-writer-headers", Run: aliasWriterHeaders})
}

// wideShapes are dimensions with many nodes of one level waiting at a time.
func wideShape(c *Ctx) (n, ns int) {
	shapes := [][2]int{{300 * 300, 300}, {1100 * 1100, 1100}, {1100*1100 + 1, 1100}, {65535*3 + 1, 65535}, {65536, 65535}, {200000, 2}, {200000, 16}, {1 << 17, 257}, {1<<20 + 1, 16}, {2100 * 2048, 2100}}
	if c.thorough {
		shapes = append(shapes, [2]int{1 << 21, 1 << 11}, [2]int{4100 * 1025, 4100}, [2]int{1 << 21, 2}, [2]int{5000000, 65535}, [2]int{3000 * 1500, 3000}, [2]int{4100 * 4099, 4100})
	}
	s := shapes[c.Choose("shape", len(shapes))]
	return s[0], s[1]
}

func wideQueries(n, ns int) [][2]int {
	return [][2]int{{0, n - 1}, {1, n - 2}, {n / 3, n - 1}, {0, n / 2}, {n - ns, n - 1}, {0, ns}, {n/2 - ns, n/2 + ns}}
}

// searchWide: queries which leave as many nodes to search as there can be.
func searchWide(c *Ctx) {
	n, ns := wideShape(c)
	t := mustTree(c, deepRefs(n), ns)
	for _, q := range wideQueries(n, ns) {
		if q[0] < 0 || q[1] >= n {
			continue
		}
		checkDeep(c, fmt.Sprintf("search of %d references with node size %d", n, ns), n, q, t.Search(bx(float64(q[0]), 0, float64(q[1]), 0)))
		c.Step(1)
	}
	c.StateStr(fmt.Sprint(n, ns))
}

// seekWide: as search-wide, through a stream.
func seekWide(c *Ctx) {
	n, ns := wideShape(c)
	b := buildRefTree(deepRefs(n), ns).bytes()
	for _, q := range wideQueries(n, ns) {
		if q[0] < 0 || q[1] >= n {
			continue
		}
		s := &src{data: b}
		got, err := packedrtree.Seek(s.asReadSeeker(), n, uint16(ns), bx(float64(q[0]), 0, float64(q[1]), 0))
		what := fmt.Sprintf("Seek of %d references with node size %d", n, ns)
		c.Check(err == nil, "%s: %v", what, err)
		for i := 1; i < len(got); i++ {
			c.Check(got[i].Offset >= got[i-1].Offset, "%s for references %d to %d: results are not in ascending order", what, q[0], q[1])
		}
		checkDeep(c, what, n, q, got)
		c.Check(s.pos == int64(len(b)), "%s leaves the stream at %d", what, s.pos)
		c.Step(1)
	}
	c.StateStr(fmt.Sprint(n, ns))
}

var bigFiles struct {
	sync.Mutex
	m map[[3]int]*fgb
}

func cachedBigFile(n, ns int, reverse bool) (*fgb, []byte) {
	bigFiles.Lock()
	defer bigFiles.Unlock()
	k := [3]int{n, ns, 0}
	if reverse {
		k[2] = 1
	}
	f := bigFiles.m[k]
	if f == nil {
		f = bigFile(n, true, ns)
		if reverse { // the index in the reverse order of the data
			order := seqInts(0, n)
			for i := range order {
				order[i] = n - 1 - i
			}
			f.buildIndex(order)
		}
		if bigFiles.m == nil {
			bigFiles.m = map[[3]int]*fgb{}
		}
		bigFiles.m[k] = f
	}
	return f, f.bytes()
}

// fileSearchMany: searches with many results.
func fileSearchMany(c *Ctx) {
	ns := pickInts(c, "n", []int{1023, 1025, 4097, 65535, 65536, 65537, 70000, 1<<20 + 1}, []int{131071, 131073, 200000})
	few := ns > 1<<20 && !c.thorough
	var f *fgb
	var b []byte
	if few {
		f, b = cachedBigFile(ns, 16, true)
	} else {
		f, b = cachedBigFile(ns, []int{16, 1000}[c.Choose("node size", 2)], c.Bool("reverse index order"))
	}
	n := len(f.feats)
	q := []Box{bx(0, 0, float64(n), 1), bx(1, 0, float64(n-1), 1), bx(float64(n)/2, 0, float64(n), 1), bx(0, 0, 1024.25, 1)}[c.Choose("query", 4)]
	mode := 0
	if few {
		mode = c.Choose("mode", 2)
	} else {
		mode = c.Choose("mode", 4)
	}
	s := &src{data: b}
	if mode == 3 {
		_, s.onRead = chunking(6)
	}
	d := newReader(c, f, s, mode != 1, false)
	d.do(rop{kind: opHeader})
	if mode == 2 {
		d.do(rop{kind: opIndex})
		d.do(rop{kind: opRewind})
	}
	d.do(rop{kind: opSearch, q: q})
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

func pickInts(c *Ctx, what string, quick, more []int) int {
	if c.thorough {
		quick = append(append([]int{}, quick...), more...)
	}
	return quick[c.Choose(what, len(quick))]
}

// faultLarge: features which are read in several pieces.
func faultLarge(c *Ctx) {
	base := len(simpleFeature(bx(0, 0, 1, 1), 0, 0, 0)) - 4
	pads := [][]int{{1<<20 - base, 5}, {1<<20 - base + 8, 5}, {1<<21 - base, 1}, {5, 3<<20 + 7}}
	k := c.Choose("sizes", len(pads))
	ns := []int{0, 2}[c.Choose("node size", 2)]
	largeFiles.Lock()
	key := [2]int{k, ns}
	if largeFiles.m == nil {
		largeFiles.m = map[[2]int]*fgb{}
	}
	f := largeFiles.m[key]
	if f == nil {
		f = simpleFile([]Box{bx(0, 0, 1, 1), bx(1, 1, 2, 2)}, ns, true, pads[k], nil)
		largeFiles.m[key] = f
	}
	largeFiles.Unlock()
	h, rew := rop{kind: opHeader}, rop{kind: opRewind}
	progs := [][]rop{
		{h, {kind: opDataRem}},
		{h, {kind: opData, k: 1}, {kind: opData, k: 1}},
		{h, {kind: opSearch, q: bx(2, 2, 2, 2)}, rew, {kind: opSearch, q: bx(0, 0, 3, 3)}},
	}
	faultRun(c, f, progs[c.Choose("program", len(progs))], c.Bool("seekable"), true)
}

var largeFiles struct {
	sync.Mutex
	m map[[2]int]*fgb
}

// faultLargeIndex: an index which is read in several pieces.
func faultLargeIndex(c *Ctx) {
	n := []int{65534, 65535, 65536, 140000}[c.Choose("n", 4)]
	const ns = 65535
	b := largeIndexes.get(n, ns)
	s := &src{data: append(b[:len(b):len(b)], 1, 2, 3)}
	ft := &faulty{deliveries: true}
	ft.attach(c, s)
	t, err := packedrtree.Unmarshal(s.asReader(false, false), n, ns)
	c.Step(1)
	checkFaultErr(c, ft, "Unmarshal", err)
	if err != nil {
		c.Check(t == nil, "Unmarshal returned an index along with error %v", err)
	} else {
		var o bytes.Buffer
		_, _ = t.Marshal(&o)
		c.Check(bytes.Equal(o.Bytes(), b), "index differs from the stream")
		c.Check(s.pos == int64(len(b)), "Unmarshal consumed %d bytes, expected %d", s.pos, len(b))
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

type indexCache struct {
	sync.Mutex
	m map[[2]int][]byte
}

var largeIndexes indexCache

func (x *indexCache) get(n, ns int) []byte {
	x.Lock()
	defer x.Unlock()
	if x.m == nil {
		x.m = map[[2]int][]byte{}
	}
	b := x.m[[2]int{n, ns}]
	if b == nil {
		b = buildRefTree(deepRefs(n), ns).bytes()
		x.m[[2]int{n, ns}] = b
	}
	return b
}

// faultLargeProp: a value which is read in several pieces, between others.
func faultLargeProp(c *Ctx) {
	n := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 + 5}[c.Choose("length", 4)]
	t := []int{ctString, ctBinary}[c.Choose("type", 2)]
	schema := schemaOf([]int{ctByte, t}, false)
	v := make([]byte, n)
	for i := range v {
		v[i] = byte(i*7 + i>>9)
	}
	var val interface{} = v
	if t == ctString {
		val = string(v)
	}
	b := append([]byte{0, 0, 5, 1, 0}, encProp(t, val)...)
	b = append(b, 0, 0, 6)
	s := &src{data: b}
	ft := &faulty{deliveries: true}
	ft.attach(c, s)
	vals, err := flatgeobuf.NewPropReader(s.asReader(false, false)).ReadSchema(schema)
	c.Step(1)
	checkFaultErr(c, ft, "ReadSchema", err)
	if err != nil {
		c.Check(len(vals) == 0, "ReadSchema returned %d values along with error %v", len(vals), err)
	} else {
		c.Check(len(vals) == 3, "ReadSchema returned %d values, expected 3", len(vals))
		checkVal(c, "value 0", vals[0].Value, int8(5))
		checkVal(c, "value 1", vals[1].Value, val)
		checkVal(c, "value 2", vals[2].Value, int8(6))
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propMany: very many properties in one stream.
func propMany(c *Ctx) {
	n := pickInts(c, "properties", []int{255, 256, 257, 1000, 65535, 65536, 65537, 70000, 1<<20 + 1}, []int{131072, 131073, 1 << 20})
	how := c.Choose("columns", 3)
	var types []int
	for i := range columnTypeNames {
		types = append(types, i)
	}
	if how == 1 {
		types = []int{ctString}
	} else if how == 2 {
		types = []int{ctByte}
	}
	schema := schemaOf(types, false)
	var b []byte
	var cols, ts []int
	var want []interface{}
	for i := 0; i < n; i++ {
		col := i * 7 % len(types)
		v := sampleValue(types[col], i%numSamples)
		b = append(append(b, byte(col), byte(col>>8)), encProp(types[col], v)...)
		cols, ts, want = append(cols, col), append(ts, types[col]), append(want, v)
	}
	vals, err := flatgeobuf.NewPropReader(bytes.NewReader(b)).ReadSchema(schema)
	c.Step(1)
	c.Check(err == nil && len(vals) == n, "ReadSchema of %d properties: %d values, error %v", n, len(vals), err)
	for i, v := range vals {
		if int(v.ColIndex) != cols[i] || int(v.Type) != ts[i] || v.Col.Type() != flat.ColumnType(ts[i]) {
			c.Fail("value %d of %d is of column %d, type %v", i, n, v.ColIndex, v.Type)
		}
		if d := sameValue(v.Value, want[i]); d != "" {
			c.Fail("value %d of %d: %s", i, n, d)
		}
	}
	c.Eval(n)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasWriterHeaders: headers with every combination of the fields the writer
// looks at, and more.
func aliasWriterHeaders(c *Ctx) {
	t := tbl{}
	if k := c.Choose("count", 6); k > 0 {
		t[hCount] = []uint64{0, 1, 2, 1 << 40, 1 << 63}[k-1]
	}
	if k := c.Choose("node size", 7); k > 0 {
		t[hNodeSize] = []uint16{0, 1, 2, 16, 256, 65535}[k-1]
	}
	for _, f := range fbSchema["Header"] {
		if f.slot != hCount && f.slot != hNodeSize && c.Bool(f.name) {
			t[f.slot] = fieldValue(f, 0)
		}
	}
	k := &keeper{c: c}
	hdrB := append(encRoot(t, 0), 1, 2, 3)
	k.keep("the header", hdrB)
	h := asHeader(hdrB)
	tab, pos := h.Table().Bytes, h.Table().Pos
	same := func(what string) {
		k.verify(what)
		x := h.Table()
		c.Check(&x.Bytes[0] == &tab[0] && len(x.Bytes) == len(tab) && x.Pos == pos, "%s: the caller's header refers to something else", what)
		c.Step(1)
	}
	for _, fault := range []int{-1, 0, 1} {
		s := &sink{}
		if fault >= 0 {
			s.onWrite = func(p []byte) (int, error) {
				if s.writes > fault {
					return len(p) / 2, errors.New("fault")
				}
				return len(p), nil
			}
		}
		w := flatgeobuf.NewFileWriter(s.asWriter(false))
		_, _ = w.Header(h)
		same("Header")
		_, _ = w.Header(h)
		same("Header, Header")
		_, _ = w.IndexData(nil)
		same("Header, Header, IndexData")
		_ = w.Close()
		same("Header, Header, IndexData, Close")
	}
	_ = flatgeobuf.HeaderString(h)
	same("HeaderString")
	c.Eval(1)
	c.StateBytes(hdrB)
}

// manyCoords makes a geometry of many coordinates, or of many parts, one of
// which, anywhere, extends it.
func manyCoords(c *Ctx) tbl {
	where := c.Choose("where", 4)
	sizes := []int{2, 3, 4, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000, 1024, 1025, 4097, 32769, 65537}
	sizes = append(sizes, 131073)
	if where != 1 {
		sizes = append(sizes, 1<<20+3)
	}
	n := sizes[c.Choose("n", len(sizes))]
	var at []int
	for i := 0; i < n; i++ {
		switch i {
		case 0, 1, n / 2, n - 2, n - 1, 15, 16, 63, 64, 127, 128, 255, 256, 1023, 1024, 2047, 2048, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 1 << 20:
			at = append(at, i)
		default:
			if n <= 17 {
				at = append(at, i)
			}
		}
	}
	huge := n > 70000 && !c.thorough
	if huge {
		at = []int{0, n / 2, n - 1}
	}
	k := at[c.Choose("at", len(at))]
	dir := 4
	if !huge {
		dir = c.Choose("direction", 5)
	}
	point := func(i int) (x, y float64) {
		x, y = float64(i%7), float64(i%5)
		if i == k {
			switch dir {
			case 0:
				x = -1000
			case 1:
				x = 1000.5
			case 2:
				y = -77
			case 3:
				y = 1e9
			default:
				x, y = -500, 2000
			}
		}
		return
	}
	g := tbl{gType: uint8(4)}
	if where == 1 {
		var parts []tbl
		for i := 0; i < n; i++ {
			x, y := point(i)
			parts = append(parts, tbl{gType: uint8(1), gXy: []float64{x, y}})
		}
		g[gParts] = parts
		return g
	}
	var xy []float64
	for i := 0; i < n; i++ {
		x, y := point(i)
		xy = append(xy, x, y)
	}
	g[gXy] = xy
	switch where {
	case 2: // Both in a part and in the geometry itself.
		g = tbl{gType: uint8(7), gXy: []float64{3, 3}, gParts: []tbl{{gType: uint8(1), gXy: []float64{1, 1}}, g, {gType: uint8(1)}}}
	case 3: // With further coordinates, and ends, which do not count.
		z := make([]float64, n)
		for i := range z {
			z[i] = 1e12
		}
		g[gZ], g[gM], g[gEnds] = z, z, []uint32{uint32(n / 2), uint32(n)}
	}
	return g
}

func pickSlice(c *Ctx, quick, thorough []int) []int {
	if c.thorough {
		return thorough
	}
	return quick
}

// roundtripBounds: the bounds of geometries with many coordinates or parts,
// in the index which the writer makes.
func roundtripBounds(c *Ctx) {
	g := manyCoords(c)
	want := geomBox(g)
	layout := 0
	if len(c.trace) > 0 {
		layout = int(c.trace[len(c.trace)-1].v) % 2
	}
	feats := [][]byte{encRoot(tbl{fGeometry: g, fProperties: []byte{1, 2}}, layout), simpleFeature(bx(2, 2, 3, 3), 1, 0, 0)}
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	_, err := w.Header(asHeader(encRoot(hdrTable(2, 16, nil), 0)))
	c.Check(err == nil, "Header: %v", err)
	_, err = w.IndexData([]flat.Feature{*asFeature(feats[0]), *asFeature(feats[1])})
	c.Check(err == nil, "IndexData: %v", err)
	c.Check(w.Close() == nil, "Close failed")
	c.Step(3)
	p, err := parseFile(s.buf)
	c.Check(err == nil && len(p.feats) == 2, "the output is not a well-formed file: %v", err)
	d := checkAutoIndex(p.index, refsOf(feats, []Box{want, bx(2, 2, 3, 3)}), 16)
	c.Check(d == "", "bounds %v: index: %s", want, d)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// summaryBounds: the same in the summary of a feature.
func summaryBounds(c *Ctx) { checkFeatureString(c, tbl{fGeometry: manyCoords(c)}, nil, 0, nil, nil) }

// roundtripBig: features of many megabytes among small ones.
func roundtripBig(c *Ctx) {
	size := pickInts(c, "size", []int{1<<24 - 1, 1 << 24, 1<<24 + 5, 32<<20 - 1, 32<<20 + 9, 40 << 20}, []int{64 << 20, 1<<26 + 1, 1<<27 + 3, 1 << 28, 300 << 20})
	at := c.Choose("position", 3)
	ns := []int{0, 2}[c.Choose("node size", 2)]
	way := 0
	if ns > 0 {
		way = c.Choose("way", numWays)
	}
	hugeLock.Lock()
	defer hugeLock.Unlock()
	r := &rt{c: c, known: true, nodeSize: ns, way: way, hdr: encRoot(hdrTable(3, ns, nil), 0)}
	for i := 0; i < 3; i++ {
		ft := simpleFeature(wBoxes[i], i, 1, 0)
		if i == at {
			ft = append(make([]byte, 0, size), ft...)[:size]
			for j := size - 1; j > 200 && j > size-1000; j-- {
				ft[j] = byte(j)
			}
			for j := 1 << 12; j < size; j += 4093 {
				ft[j] = byte(j >> 12)
			}
			binary.LittleEndian.PutUint32(ft, uint32(size-4))
		}
		r.feats = append(r.feats, ft)
		r.boxes = append(r.boxes, wBoxes[i])
	}
	b := r.write()
	f := &fgb{hdr: r.hdr, feats: r.feats, boxes: r.boxes, known: true, nodeSize: ns}
	if ns > 0 {
		p := len(f.prefix())
		f.index = b[p : p+40*refTotalNodes(3, ns)]
		f.refs = leavesOf(f.index, 3)
	}
	for _, seekable := range []bool{true, false} {
		for way := 0; way < 4; way++ {
			d := newReader(c, f, &src{data: b}, seekable, false)
			d.do(rop{kind: opHeader})
			switch way {
			case 0:
				d.do(rop{kind: opDataRem})
			case 1:
				d.do(rop{kind: opData, k: 1})
				d.do(rop{kind: opData, k: 1})
				d.do(rop{kind: opData, k: 1})
			default:
				d.do(rop{kind: opSearch, q: wBoxes[(at+way)%3]})
			}
			c.Eval(1)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propBig: values of many megabytes.
func propBig(c *Ctx) {
	t := []int{ctString, ctDateTime, ctJson, ctBinary}[c.Choose("type", 4)]
	n := pickInts(c, "length", []int{1<<24 - 1, 1 << 24, 1<<24 + 3, 32<<20 - 4, 33 << 20, 40 << 20}, []int{1 << 26, 1<<27 + 1, 300 << 20})
	hugeLock.Lock()
	defer hugeLock.Unlock()
	b := make([]byte, n)
	for j := 0; j < n; j += 4093 {
		b[j] = byte(j>>12) + 1
	}
	b[n-1] = 99
	var v interface{} = b
	if t == ctString || t == ctDateTime {
		v = string(b)
	}
	enc := encProp(t, v)
	w := &sink{}
	m, err := writeProp(flatgeobuf.NewPropWriter(w.asWriter(false)), t, v)
	c.Check(err == nil && m == n+4 && bytes.Equal(w.buf, enc), "writing %d bytes of %s: %d, %v", n, columnTypeNames[t], m, err)
	got, err := readProp(flatgeobuf.NewPropReader((&src{data: enc}).asReader(false, false)), t)
	c.Check(err == nil && reflect.DeepEqual(got, v), "reading %d bytes of %s: %v", n, columnTypeNames[t], err)
	in := append(append([]byte{1, 0}, enc...), 0, 0, 7)
	vals, err := flatgeobuf.NewPropReader((&src{data: in}).asReader(false, false)).ReadSchema(schemaOf([]int{ctByte, t}, true))
	c.Check(err == nil && len(vals) == 2 && reflect.DeepEqual(vals[0].Value, v) && vals[1].Value == int8(7), "reading %d bytes of %s by schema: %v", n, columnTypeNames[t], err)
	c.Step(3)
	c.Eval(3)
	c.StateStr(fmt.Sprint(values(c.trace)))
}
