package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

// Long histories: a short history, any of a bounded set, repeated very often
// on one object. Everything the object remembers between calls has to be
// right after the thousandth call as well.

func init() {
	register(&Family{Prop: "P06", Name: "reader-long", Run: readerLong})
	register(&Family{Prop: "P06", Name: "reader-single", Run: readerSingle})
	register(&Family{Prop: "P07", Name: "writer-long", Run: writerLong})
	register(&Family{Prop: "P02", Name: "search-long", Run: searchLong})
	register(&Family{Prop: "P12", Name: "prop-long", Run: propLong})
	register(&Family{Prop: "P22", Name: "summary-long", Run: summaryLong})
}

// readerLong: all cycles of up to two calls and a rewind, repeated on a file.
func readerLong(c *Ctx) {
	boxes := []Box{bx(0, 0, 1, 1), bx(5, 5, 6, 6), bx(1, 1, 5, 5)}
	ns := []int{0, 2}[c.Choose("node size", 2)]
	f := simpleFile(boxes, ns, true, []int{0, 3, 1}, nil)
	ops := []rop{
		{kind: opData, k: 1}, {kind: opData, k: 2}, {kind: opDataRem}, {kind: opIndex},
		{kind: opSearch, q: bx(0, 0, 9, 9)}, {kind: opSearch, q: bx(5.5, 5.5, 7, 7)}, {kind: opSearch, q: bx(50, 50, 60, 60)}, {kind: opData},
	}
	a := ops[c.Choose("first call", len(ops))]
	b := c.Choose("second call", len(ops)+1)
	d := newReader(c, f, &src{data: f.bytes()}, true, false)
	d.do(rop{kind: opHeader})
	for i := 0; i < pickInt(c, 300, 2100); i++ {
		d.hist = append(d.hist[:0], fmt.Sprintf("%d cycles", i))
		d.do(a)
		if b < len(ops) {
			d.do(ops[b])
		}
		d.do(rop{kind: opRewind})
	}
	d.do(rop{kind: opDataRem})
	d.do(rop{kind: opClose})
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// readerSingle: very many features, read in batches of few.
func readerSingle(c *Ctx) {
	n := pickInts(c, "features", []int{257, 1025, 33000, 66000}, []int{140000})
	known := c.Bool("known count")
	ns := 0
	if known && c.Bool("index") {
		ns = 16
	}
	f := bigFile(n, known, ns)
	k := []int{1, 2, 3, 255}[c.Choose("batch", 4)]
	d := newReader(c, f, &src{data: f.bytes()}, c.Bool("seekable"), false)
	d.do(rop{kind: opHeader})
	for i := 0; d.st != rsEOF; i++ {
		d.hist = append(d.hist[:0], fmt.Sprintf("%d calls", i))
		d.do(rop{kind: opData, k: k})
	}
	d.do(rop{kind: opData, k: k})
	d.do(rop{kind: opDataRem})
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writerLong: very many features, written one by one, with calls in between
// which must be rejected.
func writerLong(c *Ctx) {
	n := pickInts(c, "features", []int{255, 256, 257, 1025, 33000, 66000, 1<<20 + 1}, []int{140000, 1 << 22})
	known := c.Bool("known count")
	between := c.Choose("calls in between", 4)
	every := []int{1, 100}[c.Choose("every", 2)]
	if between == 0 && every > 1 {
		c.Stop()
	}
	cnt := 0
	if known {
		cnt = n
	}
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	hdr := encRoot(hdrTable(cnt, 0, nil), 0)
	_, err := w.Header(asHeader(hdr))
	c.Check(err == nil, "Header: %v", err)
	want := append(append([]byte{}, refMagic...), hdr...)
	feats := make([][]byte, 5)
	for i := range feats {
		feats[i] = simpleFeature(wBoxes[i], i, i, 0)
	}
	short, pos := badTable(feats[0], nil, vShort)
	bad := &flat.Feature{}
	bad.Init(short, unsafePos(pos))
	for i := 0; i < n; i++ {
		if between > 0 && i%every == 0 {
			var m int
			var err error
			switch between {
			case 1:
				m, err = w.Data(bad)
			case 2:
				m, err = w.Header(asHeader(hdr))
			default:
				m, err = w.IndexData(nil)
			}
			c.Check(m == 0 && err != nil, "before feature %d: an invalid call returned %d, %v", i, m, err)
		}
		b := feats[i%len(feats)]
		m, err := w.Data(asFeature(b))
		c.Check(m == len(b) && err == nil, "feature %d: %d, %v", i, m, err)
		want = append(want, b...)
	}
	if known {
		m, err := w.Data(asFeature(feats[0]))
		c.Check(m == 0 && err != nil, "one feature too many: %d, %v", m, err)
	}
	c.Check(w.Close() == nil, "Close failed after %d features", n)
	c.Check(bytes.Equal(s.buf, want), "output of %d features differs", n)
	c.Step(n)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// searchLong: very many searches of, and other calls to, one index.
func searchLong(c *Ctx) {
	n := []int{1, 5, 40}[c.Choose("references", 3)]
	ns := []int{2, 3, 16}[c.Choose("node size", 3)]
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		x := float64(i * 7 % n)
		refs[i] = packedrtree.Ref{Box: bx(x, x/2, x+1, x+2), Offset: int64(i) * 3}
	}
	b := buildRefTree(refs, ns).bytes()
	var t *packedrtree.PackedRTree
	var err error
	if c.Bool("loaded") {
		t, err = packedrtree.Unmarshal(bytes.NewReader(b), n, uint16(ns))
	} else {
		t, err = packedrtree.New(refs, uint16(ns))
	}
	c.Check(err == nil, "making the index: %v", err)
	qs := []Box{bx(-1, -1, 100, 100), bx(2, 0, 3.5, 9), bx(0, 0, 0, 0), bx(-5, -5, -4, -4)}
	other := c.Choose("other call", 4)
	rd := bytes.NewReader(b)
	for i := 0; i < pickInt(c, 3000, 70000); i++ {
		q := qs[i%len(qs)]
		checkSearch(c, fmt.Sprintf("search %d", i), t.Search(q), refs, q)
		switch other {
		case 1:
			var o bytes.Buffer
			m, err := t.Marshal(&o)
			c.Check(err == nil && m == len(b) && bytes.Equal(o.Bytes(), b), "Marshal %d: %d, %v, or wrong bytes", i, m, err)
		case 2:
			_, _ = rd.Seek(0, io.SeekStart)
			rs, err := packedrtree.Seek(rd, n, uint16(ns), q)
			c.Check(err == nil, "Seek %d: %v", i, err)
			checkSearch(c, fmt.Sprintf("Seek %d", i), rs, refs, q)
		case 3:
			checkTreeInfo(c, t, refs, ns)
		}
	}
	c.Step(1)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propLong: very many values through one property writer and one reader.
func propLong(c *Ctx) {
	n := pickInts(c, "values", []int{300, 70000}, []int{1 << 20})
	ts := []int{c.Choose("type", len(columnTypeNames))}
	if k := c.Choose("other type", len(columnTypeNames)+1); k > 0 {
		ts = append(ts, k-1)
	}
	s := &sink{}
	w := flatgeobuf.NewPropWriter(s.asWriter(false))
	var want []byte
	for i := 0; i < n; i++ {
		t := ts[i%len(ts)]
		v := sampleValue(t, i/2%numSamples)
		e := encProp(t, v)
		m, err := writeProp(w, t, v)
		c.Check(m == len(e) && err == nil, "writing value %d: %d, %v", i, m, err)
		want = append(want, e...)
	}
	c.Check(bytes.Equal(s.buf, want), "%d values are written wrongly", n)
	r := flatgeobuf.NewPropReader(bytes.NewReader(want))
	for i := 0; i < n; i++ {
		t := ts[i%len(ts)]
		v, err := readProp(r, t)
		c.Check(err == nil, "reading value %d: %v", i, err)
		if d := sameValue(v, sampleValue(t, i/2%numSamples)); d != "" {
			c.Fail("value %d: %s", i, d)
		}
	}
	c.Step(2 * n)
	c.Eval(n)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// longText is a text without punctuation that a summary could use, different
// everywhere.
func longText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i+i/36+i/4096*5)%36]
	}
	return string(b)
}

// summaryLong: summaries of headers and features with long texts, or lists.
func summaryLong(c *Ctx) {
	n := pickInts(c, "size", []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 10001, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000}, []int{131073, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20})
	layout := c.Choose("layout", 2)
	text := longText(n)
	what := c.Choose("what", 17)
	switch what {
	case 0, 1, 2, 3:
		checkHeaderString(c, tbl{[]int{hName, hTitle, hDesc, hMeta}[what]: text, hNodeSize: uint16(5)}, layout)
	case 4, 5, 6, 7:
		checkHeaderString(c, tbl{hCrs: tbl{[]int{sOrg, sName, sCodeString, sWkt}[what-4]: text}, hMeta: "m"}, layout)
	case 8:
		env := make([]float64, n)
		for i := range env {
			env[i] = float64(i) + 0.5
		}
		checkHeaderString(c, tbl{hEnvelope: env}, layout)
	case 9:
		cols := make([]tbl, n)
		for i := range cols {
			cols[i] = tbl{cName: "c"}
		}
		checkHeaderString(c, tbl{hColumns: cols}, layout)
	case 10, 11, 12, 13:
		t := []int{ctString, ctDateTime, ctJson, ctBinary}[what-10]
		var v interface{} = text
		if what >= 12 {
			v = []byte(text)
		}
		cols := []tbl{{cName: "first", cType: uint8(t)}, {cName: "second", cType: uint8(ctByte)}}
		b := append(append([]byte{0, 0}, encProp(t, v)...), 1, 0, 7)
		checkFeatureString(c, tbl{fProperties: b, fColumns: cols}, nil, layout, []string{"first", "second"}, []interface{}{v, int8(7)})
	case 14, 15:
		types := []int{ctByte, ctString, ctDouble}
		seq := make([]int, n)
		for i := range seq {
			seq[i] = i % 3
		}
		cols, b, names, vals := makeProps(c, "prop", types, seq)
		if what == 14 {
			checkFeatureString(c, tbl{fProperties: b, fColumns: cols}, nil, layout, names, vals)
		} else {
			checkFeatureString(c, tbl{fProperties: b}, asHeader(encRoot(tbl{hColumns: cols}, 0)), layout, names, vals)
		}
	default: // A long name, of the last of many columns.
		m := n
		if m > 1<<16 {
			m = 1 << 16
		}
		cols := make([]tbl, m)
		for i := range cols {
			cols[i] = tbl{cName: "c", cType: uint8(ctByte)}
		}
		cols[m-1][cName] = text
		b := []byte{0, 0, 5, byte(m - 1), byte((m - 1) >> 8), 9}
		checkFeatureString(c, tbl{fProperties: b}, asHeader(encRoot(tbl{hColumns: cols}, 0)), layout, []string{"c", text}, []interface{}{int8(5), int8(9)})
	}
}
