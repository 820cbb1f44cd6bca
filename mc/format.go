// P21 (recognition and limits) and P22 (summary strings).

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	for _, v := range []string{"", "386"} {
		s := ""
		if v != "" {
			s = "-" + v
		}
		register(&Family{Prop: "P21", Name: "limit-counts" + s, Variant: v, Run: limitCounts})
		register(&Family{Prop: "P21", Name: "limit-nodesizes" + s, Variant: v, Run: limitNodeSizes})
		register(&Family{Prop: "P21", Name: "limit-header-length" + s, Variant: v, Run: limitHeaderLen})
	}
	register(&Family{Prop: "P21", Name: "magic-pairs", Run: magicPairs})
	register(&Family{Prop: "P21", Name: "magic-alphabet", Run: magicAlphabet})
	register(&Family{Prop: "P21", Name: "magic-delivery", Quick: 3, Thorough: 5, Run: magicDelivery})
	register(&Family{Prop: "P21", Name: "magic-writer", Run: magicWriter})
	register(&Family{Prop: "P22", Name: "header-subsets", Run: headerSubsets})
	register(&Family{Prop: "P22", Name: "header-values", Run: headerValues})
	register(&Family{Prop: "P22", Name: "header-crs", Run: headerCrs})
	register(&Family{Prop: "P22", Name: "feature-properties", Run: featureProps})
	register(&Family{Prop: "P22", Name: "feature-schema", Run: featureSchema})
	register(&Family{Prop: "P22", Name: "feature-geometry", Run: featureGeom})
	register(&Family{Prop: "P22", Name: "summary-cut", Run: summaryCut})
	register(&Family{Prop: "P22", Name: "summary-nesting", Run: summaryNesting})
}

// ---- P21

func validMagic(b []byte) bool {
	return b[0] == 'f' && b[1] == 'g' && b[2] == 'b' && b[4] == 'f' && b[5] == 'g' && b[6] == 'b'
}

var limitHdr = encRoot(tbl{hName: "limits", hNodeSize: uint16(0)}, 0)

// magicOnce checks recognition of 8 bytes, alone and by a file reader.
func magicOnce(c *Ctx, m []byte, full bool) {
	buf := append(append([]byte{}, m...), limitHdr...)
	r := bytes.NewReader(buf)
	v, err := flatgeobuf.Magic(r)
	c.Eval(1)
	c.Step(1)
	if n := len(buf) - r.Len(); n != 8 {
		c.Fail("Magic of %x consumed %d bytes", m, n)
	}
	if validMagic(m) {
		if err != nil || v.Major != m[3] || v.Patch != m[7] {
			c.Fail("Magic of %x is %v, %v", m, v, err)
		}
	} else if err == nil {
		c.Fail("Magic of %x is %v without an error", m, v)
	}
	if !full {
		return
	}
	r.Reset(buf)
	fr := flatgeobuf.NewFileReader(r)
	h, err := fr.Header()
	c.Step(1)
	if validMagic(m) && m[3] == 3 {
		if err != nil || h == nil || string(h.Name()) != "limits" {
			c.Fail("a file starting with %x is rejected: %v", m, err)
		}
		return
	}
	if err == nil || h != nil {
		c.Fail("a file starting with %x is accepted", m)
	}
	if _, err = fr.Header(); err == nil {
		c.Fail("after rejecting %x, Header succeeds", m)
	}
	if _, err = fr.DataRem(); err == nil {
		c.Fail("after rejecting %x, DataRem succeeds", m)
	}
}

// magicPairs: every value of every pair of bytes.
func magicPairs(c *Ctx) {
	i := c.Choose("first byte", 7)
	j := i + 1 + c.Choose("second byte", 7-i)
	a := c.Choose("value", 256)
	m := append([]byte{}, refMagic...)
	m[i] = byte(a)
	for b := 0; b < 256; b++ {
		m[j] = byte(b)
		magicOnce(c, m, true)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// magicAlphabet: every sequence of 8 bytes over an alphabet.
func magicAlphabet(c *Ctx) {
	al := []byte{'f', 'g', 'b', 3, 1, 0, 'F', 0xff}
	n := pickInt(c, 4, 8)
	k := make([]byte, 8)
	for i := 0; i < 4; i++ {
		k[i] = al[c.Choose("byte", n)]
	}
	if k[0] != 'f' && !c.thorough {
		c.Stop()
	}
	idx := [4]int{}
	for {
		for i := range idx {
			k[4+i] = al[idx[i]]
		}
		magicOnce(c, k, false)
		i := 0
		for ; i < 4; i++ {
			if idx[i]++; idx[i] < n {
				break
			}
			idx[i] = 0
		}
		if i == 4 {
			break
		}
	}
	c.StateBytes(k[:4])
}

// magicDelivery: short streams, delivered in all ways.
func magicDelivery(c *Ctx) {
	n := c.Choose("length", 12)
	bad := c.Choose("wrong byte", 7) // 6: none
	b := append(append([]byte{}, refMagic...), 7, 7, 7)
	if bad < 6 {
		b[[]int{0, 1, 2, 4, 5, 6}[bad]] ^= 0x20
	}
	s := &src{data: b[:n]}
	s.onRead = devRead(c)
	v, err := flatgeobuf.Magic(s.asReader(c.Bool("seekable"), false))
	c.Step(1)
	ok := n >= 8 && bad == 6
	c.Check(ok == (err == nil), "Magic of %d bytes %x: %v, %v", n, b[:n], v, err)
	if ok {
		c.Check(v.Major == 3 && v.Patch == 1, "Magic is %v", v)
	}
	want := n
	if n > 8 {
		want = 8
	}
	c.Check(s.pos == int64(want), "Magic of %d bytes consumed %d", n, s.pos)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// magicWriter: the writer emits the version 3 magic number, which is
// recognized.
func magicWriter(c *Ctx) {
	t := hdrTable(c.Choose("count", 3), []int{0, 2, 16, 65535}[c.Choose("node size", 4)], nil)
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	n, err := w.Header(asHeader(encRoot(t, c.Choose("layout", 2))))
	c.Check(err == nil && n == len(s.buf) && n > 8, "Header: %d, %v", n, err)
	c.Check(bytes.Equal(s.buf[:8], refMagic) || validMagic(s.buf[:8]) && s.buf[3] == 3, "the writer emitted magic number %x", s.buf[:8])
	c.Check(flatgeobuf.MinSpecMajorVersion == 3 && flatgeobuf.MaxSpecMajorVersion == 3, "spec versions %d to %d", flatgeobuf.MinSpecMajorVersion, flatgeobuf.MaxSpecMajorVersion)
	_, err = flatgeobuf.NewFileReader(bytes.NewReader(s.buf)).Header()
	c.Check(err == nil, "reading it back: %v", err)
	c.Step(2)
	c.Eval(1)
	c.StateBytes(s.buf)
}

// headerVerdict writes and reads a header, and checks that both accept or
// both reject it.
func headerVerdict(c *Ctx, hdr []byte, ok bool, what string) {
	s := &src{data: append(append(append([]byte{}, refMagic...), hdr...), make([]byte, 100)...)}
	r := flatgeobuf.NewFileReader(s.asReader(false, false))
	_, err := r.Header()
	c.Step(2)
	c.Eval(1)
	if ok != (err == nil) {
		c.Fail("reading a header with %s: error %v", what, err)
	}
	if !ok {
		_, err = r.Header()
		_, err2 := r.Index()
		_, err3 := r.DataRem()
		if err == nil || err2 == nil || err3 == nil {
			c.Fail("after rejecting a header with %s: later calls succeed: %v, %v, %v", what, err, err2, err3)
		}
	}
	k := &sink{}
	w := flatgeobuf.NewFileWriter(k.asWriter(false))
	n, err := w.Header(asHeader(hdr))
	if ok {
		if err != nil || n != 8+len(hdr) || !bytes.Equal(k.buf, s.data[:8+len(hdr)]) {
			c.Fail("writing a header with %s: %d bytes reported, %d emitted, error %v", what, n, len(k.buf), err)
		}
	} else if err == nil || n != 0 || len(k.buf) != 0 {
		c.Fail("writing a header with %s: %d bytes reported, %d emitted, error %v", what, n, len(k.buf), err)
	}
}

// limitCounts: feature counts of every magnitude.
func limitCounts(c *Ctx) {
	bit := c.Choose("bit", 65)
	ns := []int{-1, 0, 2, 16, 65535}[c.Choose("node size", 5)]
	layout := c.Choose("layout", 2)
	base := uint64(0)
	if bit < 64 {
		base = uint64(1) << bit
	}
	// Around each power of two and with lower bits set.
	seen := map[uint64]bool{}
	vals := []uint64{base, base - 1, base + 1, base - 2, base + 2}
	for j := 0; j < bit && j < 64; j++ {
		vals = append(vals, base|uint64(1)<<j, base-uint64(1)<<j)
	}
	for _, v := range vals {
		if seen[v] {
			continue
		}
		seen[v] = true
		t := tbl{hCount: v}
		if ns >= 0 {
			t[hNodeSize] = uint16(ns)
		}
		headerVerdict(c, encRoot(t, layout), v <= math.MaxInt, fmt.Sprintf("feature count %d, node size %d", v, ns))
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// limitNodeSizes: every index node size.
func limitNodeSizes(c *Ctx) {
	hi := c.Choose("high byte", 256)
	count := []uint64{0, 1, 2, 100000, math.MaxInt32}[c.Choose("count", 5)]
	for lo := 0; lo < 256; lo++ {
		ns := hi<<8 | lo
		t := tbl{hNodeSize: uint16(ns)}
		if count > 0 {
			t[hCount] = count
		}
		headerVerdict(c, encRoot(t, 0), ns != 1, fmt.Sprintf("feature count %d, node size %d", count, ns))
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// limitHeaderLen: header lengths.
func limitHeaderLen(c *Ctx) {
	const limit = 32 << 20
	min := len(limitHdr) - 4
	var lens []int64
	for i := 0; i < 4; i++ {
		lens = append(lens, int64(i)) // too small
	}
	for i := 0; i < 70; i++ {
		lens = append(lens, int64(min+i))
	}
	for b := 8; b < 32; b++ {
		for d := int64(-1); d <= 1; d++ {
			if v := int64(1)<<b + d; v >= int64(min) && v < limit-1 && v <= 1<<20+1 || v > limit {
				lens = append(lens, v)
			}
		}
	}
	lens = append(lens, 4095, 4096, 4097, limit/2, limit-1, limit, limit+1, limit+2, limit+4, limit+255, limit+256, 1<<26, 1<<31-1, 1<<31, 1<<32-1, 1<<32-2, 1<<32-4, 0xffffff00, 1<<25+limit)
	n := lens[c.Choose("length", len(lens))]
	seekable := c.Bool("seekable")
	data := append([]byte{}, refMagic...)
	data = binary.LittleEndian.AppendUint32(data, uint32(n))
	data = append(data, limitHdr[4:]...)
	ok := n >= 4 && n <= limit
	total := 12 + int(n)
	if !ok {
		total = len(data) + 5000
	}
	if total > len(data) {
		if n > 1<<22 && ok {
			bigHeaders <- struct{}{}
			defer func() { <-bigHeaders }()
		}
		d := make([]byte, total+3)
		copy(d, data)
		data = d
	}
	s := &src{data: data}
	r := flatgeobuf.NewFileReader(s.asReader(seekable, false))
	h, err := r.Header()
	c.Step(1)
	c.Eval(1)
	if ok {
		c.Check(err == nil && h != nil && string(h.Name()) == "limits", "header length %d: error %v", n, err)
	} else {
		c.Check(err != nil && h == nil, "header length %d: accepted", n)
		c.Check(s.pos <= 12, "header length %d: consumed %d bytes", n, s.pos)
		_, err = r.Header()
		_, err2 := r.DataRem()
		c.Check(err != nil && err2 != nil, "after rejecting header length %d, later calls succeed", n)
	}
	c.StateStr(fmt.Sprint(n))
}

var bigHeaders = make(chan struct{}, 2)

// ---- P22

// splitSummary splits a summary like "X{a:b,c:{d:e},[1,2]}" into its name
// and its top-level parts.
func splitSummary(s string) (name string, parts []string, ok bool) {
	i := strings.IndexByte(s, '{')
	if i < 0 || !strings.HasSuffix(s, "}") {
		return "", nil, false
	}
	name = s[:i]
	depth, start := 0, i+1
	body := s[:len(s)-1]
	for j := i + 1; j < len(body); j++ {
		switch body[j] {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case ',':
			if depth == 0 {
				parts = append(parts, body[start:j])
				start = j + 1
			}
		}
		if depth < 0 {
			return "", nil, false
		}
	}
	if start < len(body) {
		parts = append(parts, body[start:])
	}
	var r []string
	for _, p := range parts {
		if p != "" {
			r = append(r, p)
		}
	}
	return name, r, depth == 0
}

// summaryMap turns parts into key to value.
func summaryMap(c *Ctx, s string, parts []string) map[string]string {
	m := map[string]string{}
	for _, p := range parts {
		k, v, _ := strings.Cut(p, ":")
		if _, dup := m[k]; dup {
			c.Fail("summary %s has %q twice", s, k)
		}
		m[k] = v
	}
	return m
}

func sortedStrKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// checkHeaderString compares a summary with the header's content.
func checkHeaderString(c *Ctx, t tbl, layout int) {
	h := asHeader(encAny("Header", t, layout))
	s := flatgeobuf.HeaderString(h)
	c.Step(1)
	c.Eval(1)
	c.Logf("%s", s)
	name, parts, ok := splitSummary(s)
	c.Check(ok && name == "Header", "summary %s of %v", s, t)
	m := summaryMap(c, s, parts)
	want := map[string]string{}
	str := func(slot int, key string) {
		if v, ok := t[slot].(string); ok {
			want[key] = v
		}
	}
	str(hName, "Name")
	str(hTitle, "Title")
	str(hDesc, "Desc")
	str(hMeta, "Meta")
	gt, _ := t[hType].(uint8)
	want["Type"] = geometryTypeNames[gt]
	var flags []string
	for i, slot := range []int{hHasZ, hHasM, hHasT, hHasTM} {
		if v, _ := t[slot].(bool); v {
			flags = append(flags, []string{"Z", "M", "T", "TM"}[i])
		}
	}
	if len(flags) > 0 {
		want[strings.Join(flags, "|")] = ""
	}
	cols, _ := t[hColumns].([]tbl)
	want["NumColumns"] = fmt.Sprint(len(cols))
	if n, _ := t[hCount].(uint64); n > 0 {
		want["NumFeatures"] = fmt.Sprint(n)
	} else {
		want["NumFeatures"] = "UNKNOWN"
	}
	ns, ok := t[hNodeSize].(uint16)
	if !ok {
		ns = 16
	}
	if ns > 0 {
		want["NodeSize"] = fmt.Sprint(ns)
	} else {
		want["NO INDEX"] = ""
	}
	env, _ := t[hEnvelope].([]float64)
	if len(env) > 0 {
		want["Envelope"] = ""
		v, err := parseBox(m["Envelope"])
		c.Check(err == nil && len(v) == len(env), "summary %s: envelope should be %v", s, env)
		for i := range v {
			c.Check(close8(v[i], env[i]), "summary %s: envelope should be %v", s, env)
		}
		m["Envelope"] = ""
	}
	crs, hasCrs := t[hCrs].(tbl)
	if !hasCrs {
		want["CRS"] = "<nil>"
	} else {
		name, parts, ok := splitSummary(m["CRS"])
		c.Check(ok && name == "", "summary %s: CRS should be %v", s, crs)
		got := summaryMap(c, s, parts)
		w := map[string]string{"Code": "0", "WKT": "<nil>"}
		for slot, key := range map[int]string{sOrg: "Org", sName: "Name", sCodeString: "CodeString"} {
			if v, ok := crs[slot].(string); ok {
				w[key] = v
			}
		}
		if v, ok := crs[sCode].(int32); ok {
			w["Code"] = fmt.Sprint(v)
		}
		if v, ok := crs[sWkt].(string); ok {
			w["WKT"] = fmt.Sprintf("%d bytes", len(v))
			if got["WKT"] == v {
				w["WKT"] = v // showing it in full is fine too
			}
		}
		delete(got, "Desc") // not part of the summary today, harmless if added
		c.Check(sameStrMap(got, w), "summary %s: CRS is shown as %v, expected %v", s, got, w)
		want["CRS"] = m["CRS"]
	}
	c.Check(sameStrMap(m, want), "summary %s has %v, expected %v", s, sortedStrKeys(m), want)
	c.StateStr(s)
}

func sameStrMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// headerSubsets: every combination of present fields.
func headerSubsets(c *Ctx) {
	t := tbl{}
	for slot, v := range []interface{}{hName: "the name", hEnvelope: []float64{-1.5, 2, 3.25, 4}, hType: uint8(3), hHasZ: true, hHasM: true, hHasT: true, hHasTM: true,
		hColumns: []tbl{{cName: "a", cType: uint8(1)}, {cName: "b", cType: uint8(2)}, {cName: "c", cType: uint8(3)}}, hCount: uint64(77), hNodeSize: uint16(0),
		hCrs: tbl{sOrg: "EPSG", sCode: int32(4326), sName: "WGS 84", sWkt: "0123456789", sCodeString: "EPSG code"}, hTitle: "the title", hDesc: "the description", hMeta: "the metadata"} {
		if c.Bool(fbSchema["Header"][slot].name) {
			t[slot] = v
		}
	}
	checkHeaderString(c, t, c.Choose("layout", pickInt(c, 2, 4)))
}

// headerValues: values of each field, with others present or absent.
func headerValues(c *Ctx) {
	t := tbl{}
	if c.Bool("others present") {
		t = tbl{hName: "nnn", hEnvelope: []float64{9, 8, 7, 6}, hColumns: []tbl{{cName: "x"}}, hCount: uint64(5), hNodeSize: uint16(3), hTitle: "ttt", hDesc: "ddd", hMeta: "mmm", hCrs: tbl{sCode: int32(1)}}
	}
	texts := []string{"", "x", "héllo wörld", "UNKNOWN", "<nil>", "a b", strings.Repeat("long", 500), "%d%s%!"}
	switch f := c.Choose("field", 9); f {
	case 0, 1, 2, 3:
		t[[]int{hName, hTitle, hDesc, hMeta}[f]] = texts[c.Choose("text", len(texts))]
	case 4:
		n := c.Choose("envelope length", 9)
		env := []float64{}
		for i := 0; i < n; i++ {
			env = append(env, []float64{-179.5, 1e100, 0.1, 12345678.9, 0, -1e-7, 3, 8}[i])
		}
		t[hEnvelope] = env
	case 5:
		t[hType] = uint8(c.Choose("geometry type", len(geometryTypeNames)))
	case 6:
		n := []int{0, 1, 2, 10, 255, 256, 1000}[c.Choose("columns", 7)]
		cols := make([]tbl, n)
		for i := range cols {
			cols[i] = tbl{cName: "c", cType: uint8(i % 15)}
		}
		t[hColumns] = cols
	case 7:
		b := c.Choose("count", 66)
		switch {
		case b < 64:
			t[hCount] = uint64(1) << b
		case b == 64:
			t[hCount] = uint64(math.MaxUint64)
		default:
			t[hCount] = uint64(0)
		}
	default:
		t[hNodeSize] = []uint16{0, 1, 2, 15, 16, 17, 255, 256, 257, 32768, 65535}[c.Choose("node size", 11)]
	}
	for l := 0; l < 4; l++ {
		checkHeaderString(c, t, l)
	}
}

// headerCrs: every combination of fields of the coordinate reference
// system.
func headerCrs(c *Ctx) {
	crs := tbl{}
	for slot, v := range []interface{}{sOrg: "ORG", sCode: int32(-77), sName: "the CRS", sDesc: "desc", sWkt: strings.Repeat("w", 321), sCodeString: "code string"} {
		switch c.Choose(fbSchema["Crs"][slot].name, 3) {
		case 1:
			crs[slot] = v
		case 2:
			crs[slot] = map[int]interface{}{sOrg: "", sCode: int32(math.MaxInt32), sName: "", sDesc: "", sWkt: "", sCodeString: ""}[slot]
		}
	}
	t := tbl{hCrs: crs}
	if c.Bool("others present") {
		t[hName], t[hTitle] = "n", "t"
	}
	checkHeaderString(c, t, c.Choose("layout", 2))
}

// propCol is a column with a value.
type propCol struct {
	typ int
	val interface{}
}

// valueShown tells whether a text shows a value.
func valueShown(s string, v interface{}) bool {
	if s == fmt.Sprint(v) {
		return true
	}
	switch x := v.(type) {
	case []byte:
		return s == string(x) || s == fmt.Sprintf("%q", x) || s == fmt.Sprintf("% x", x) || s == fmt.Sprintf("%x", x)
	case string:
		return s == fmt.Sprintf("%q", x)
	}
	return false
}

// checkFeatureString compares a summary with the feature's content: the
// properties are in the order of the stream.
func checkFeatureString(c *Ctx, t tbl, schema flatgeobuf.Schema, layout int, names []string, vals []interface{}) {
	f := asFeature(encAny("Feature", t, layout))
	s := flatgeobuf.FeatureString(f, schema)
	c.Step(1)
	c.Eval(1)
	c.Logf("%s", s)
	c.StateStr(s)
	name, parts, ok := splitSummary(s)
	c.Check(ok && name == "Feature", "summary %s of %v", s, t)
	m := summaryMap(c, s, parts)
	c.Check(len(m) == 2, "summary %s of %v", s, t)
	g, hasGeom := t[fGeometry].(tbl)
	if !hasGeom {
		c.Check(m["Geometry"] == "<nil>", "summary %s: there is no geometry", s)
	} else {
		_, parts, ok := splitSummary(m["Geometry"])
		gm := summaryMap(c, s, parts)
		gt, _ := g[gType].(uint8)
		c.Check(ok && gm["Type"] == geometryTypeNames[gt], "summary %s: geometry type should be %s", s, geometryTypeNames[gt])
		b := geomBox(g)
		if b == emptyBox {
			c.Check(gm["Bounds"] == "<nil>", "summary %s: the geometry has no bounds", s)
		} else {
			v, err := parseBox(gm["Bounds"])
			c.Check(err == nil && len(v) == 4, "summary %s: bounds should be %v", s, b)
			for i, w := range []float64{b.XMin, b.YMin, b.XMax, b.YMax} {
				c.Check(close8(v[i], w), "summary %s: bounds should be %v", s, b)
			}
		}
	}
	p := m["Properties"]
	c.Check(strings.HasPrefix(p, "{") && strings.HasSuffix(p, "}"), "summary %s: no properties", s)
	p = p[1 : len(p)-1]
	// Values may contain anything, so match them from left to right.
	for i := range names {
		if i > 0 {
			c.Check(strings.HasPrefix(p, ","), "summary %s: expected property %s", s, names[i])
			p = strings.TrimLeft(p[1:], " ")
		}
		c.Check(strings.HasPrefix(p, names[i]+":"), "summary %s: expected property %s, at %s", s, names[i], p)
		p = p[len(names[i])+1:]
		end := len(p)
		if i+1 < len(names) {
			// Up to the next name.
			if k := strings.Index(p, ","+names[i+1]+":"); k >= 0 {
				end = k
			} else {
				c.Fail("summary %s: property %s is missing", s, names[i+1])
			}
		}
		c.Check(valueShown(p[:end], vals[i]), "summary %s: property %s is shown as %q, expected %v", s, names[i], p[:end], vals[i])
		p = p[end:]
	}
	c.Check(p == "", "summary %s: unexpected %q", s, p)
}

// makeProps makes a property stream and its expected names and values. The
// columns of types are named with a prefix.
func makeProps(c *Ctx, prefix string, types []int, seq []int) (cols []tbl, b []byte, names []string, vals []interface{}) {
	for i, t := range types {
		cols = append(cols, tbl{cName: fmt.Sprint(prefix, i), cType: uint8(t)})
	}
	for k, i := range seq {
		v := sampleValue(types[i], k%numSamples)
		if s, ok := v.(string); ok && s == "" {
			v = "x"
		}
		b = append(append(b, byte(i), byte(i>>8)), encProp(types[i], v)...)
		names = append(names, fmt.Sprint(prefix, i))
		vals = append(vals, v)
	}
	return
}

// featureProps: every sequence of properties of all types.
func featureProps(c *Ctx) {
	var types []int
	for i := range columnTypeNames {
		types = append(types, i)
	}
	n := c.Choose("properties", pickInt(c, 4, 5))
	var seq []int
	for i := 0; i < n; i++ {
		seq = append(seq, c.Choose("column", len(types)))
	}
	own := c.Bool("own columns")
	cols, b, names, vals := makeProps(c, "prop", types, seq)
	t := tbl{fProperties: b}
	if n == 0 && c.Bool("no properties field") {
		delete(t, fProperties)
	}
	var schema flatgeobuf.Schema
	if own {
		t[fColumns] = cols
	} else {
		schema = asHeader(encRoot(tbl{hColumns: cols}, 0))
	}
	checkFeatureString(c, t, schema, n%2, names, vals)
}

// featureSchema: which schema is used.
func featureSchema(c *Ctx) {
	own := c.Choose("own columns", 4)           // absent, empty, 1, 3
	supplied := c.Choose("supplied schema", 6)  // nil, header without, empty, 1, 3, a feature with 3
	num := c.Choose("properties", 3)            // 0, 1, 2
	big := c.Bool("column index of two bytes?") // many columns
	mk := func(prefix string, n int, rot int) (cols []tbl) {
		for i := 0; i < n; i++ {
			cols = append(cols, tbl{cName: fmt.Sprint(prefix, i), cType: uint8([]int{ctUByte, ctBool, ctUByte}[(i+rot)%3])})
		}
		return cols
	}
	three := 3
	if big {
		three = 300
	}
	t := tbl{}
	ownCols, supCols := []tbl(nil), []tbl(nil)
	switch own {
	case 1:
		t[fColumns] = []tbl{}
	case 2:
		ownCols = mk("own", 1, 0)
	case 3:
		ownCols = mk("own", three, 0)
	}
	if ownCols != nil {
		t[fColumns] = ownCols
	}
	var schema flatgeobuf.Schema
	switch supplied {
	case 1:
		schema = asHeader(encRoot(tbl{hName: "h"}, 0))
	case 2:
		schema = asHeader(encRoot(tbl{hColumns: []tbl{}}, 0))
	case 3:
		supCols = mk("sup", 1, 0)
		schema = asHeader(encRoot(tbl{hColumns: supCols}, 0))
	case 4:
		supCols = mk("sup", three, 1)
		schema = asHeader(encRoot(tbl{hColumns: supCols}, 0))
	case 5:
		supCols = mk("sup", three, 2)
		schema = asFeature(encRoot(tbl{fColumns: supCols}, 0))
	}
	use := ownCols
	if len(use) == 0 {
		use = supCols
	}
	var b []byte
	var names []string
	var vals []interface{}
	for k := 0; k < num; k++ {
		i := 0
		if len(use) > 1 {
			i = len(use) - 1 - k
		}
		b = append(b, byte(i), byte(i>>8), 1)
		if len(use) > 0 {
			names = append(names, use[i][cName].(string))
			if use[i][cType] == uint8(ctBool) {
				vals = append(vals, true)
			} else {
				vals = append(vals, uint8(1))
			}
		}
	}
	if num > 0 {
		t[fProperties] = b
	}
	if len(use) == 0 && num > 0 {
		s := flatgeobuf.FeatureString(asFeature(encRoot(t, 0)), schema)
		c.Step(1)
		c.Check(strings.Contains(s, "error"), "summary %s of a feature with properties but no columns", s)
		return
	}
	checkFeatureString(c, t, schema, 0, names, vals)
}

// featureGeom: geometries with nested parts.
func featureGeom(c *Ctx) {
	t := tbl{}
	if c.Bool("geometry") {
		budget := pickInt(c, 4, 5)
		g := chooseGeom(c, &budget, 0)
		if g == nil {
			g = tbl{}
		}
		if c.Bool("type") {
			g[gType] = uint8((len(c.trace)*7 + c.Choose("type", 3)*5) % len(geometryTypeNames))
		} else {
			delete(g, gType)
		}
		t[fGeometry] = g
	} else {
		// Every type, with one box.
		ty := c.Choose("type", len(geometryTypeNames)+1)
		if ty < len(geometryTypeNames) {
			t[fGeometry] = tbl{gType: uint8(ty), gXy: []float64{-1.25, 100, 3, -1e-9, 2, 5}, gZ: []float64{7, 8, 9}}
		}
	}
	for l := 0; l < 4; l++ {
		checkFeatureString(c, t, nil, l, nil, nil)
	}
}

// summaryCut: headers and features of which only the first bytes are there,
// at every length. The summary is the whole one, if everything it shows is
// there, or an error.
func summaryCut(c *Ctx) {
	layout := c.Choose("layout", 4)
	schema := asHeader(encRoot(tbl{hColumns: []tbl{{cName: "a", cType: uint8(ctInt)}, {cName: "b", cType: uint8(ctString)}}}, 0))
	props := append([]byte{0, 0, 1, 2, 3, 4, 1, 0, 3, 0, 0, 0}, "xyz"...)
	part := tbl{gXy: []float64{1, 2, 3, 4, -5, 6}, gType: uint8(2)}
	cols := []tbl{{cName: "first", cType: uint8(ctInt)}, {cName: "second", cType: uint8(ctString)}}
	kinds := []struct {
		name string
		t    tbl
	}{
		{"Header", tbl{hName: "the name", hEnvelope: []float64{1, 2, 3, 4}, hType: uint8(3), hCount: uint64(9), hTitle: "title", hDesc: "description", hMeta: "metadata"}},
		{"Header", tbl{hCrs: tbl{sOrg: "EPSG", sCode: int32(4326), sName: "WGS 84", sWkt: "0123456789", sCodeString: "code"}, hColumns: cols, hNodeSize: uint16(0), hHasZ: true}},
		{"Header", tbl{hDesc: "only a description"}},
		{"Header", tbl{}},
		{"Feature", tbl{fGeometry: tbl{gParts: []tbl{part, {gParts: []tbl{part, {gXy: []float64{100, 200}}}}}, gType: uint8(7)}, fProperties: props}},
		{"Feature", tbl{fGeometry: part}},
		{"Feature", tbl{fGeometry: tbl{gXy: []float64{7, 8}}, fProperties: props, fColumns: cols}},
		{"Feature", tbl{fProperties: props, fColumns: cols}},
		{"Feature", tbl{}},
	}
	k := kinds[c.Choose("table", len(kinds))]
	b := encAny(k.name, k.t, layout)
	summary := func(b []byte) string {
		c.Step(1)
		if k.name == "Header" {
			h := &flat.Header{}
			h.Init(b, unsafePos(4+binary.LittleEndian.Uint32(b[4:])))
			return flatgeobuf.HeaderString(h)
		}
		f := &flat.Feature{}
		f.Init(b, unsafePos(4+binary.LittleEndian.Uint32(b[4:])))
		return flatgeobuf.FeatureString(f, schema)
	}
	whole := summary(b)
	c.Check(strings.HasPrefix(whole, k.name+"{"), "summary %s of %v", whole, k.t)
	bad := 0
	for n := 8; n < len(b); n++ {
		s := summary(append(make([]byte, 0, n), b[:n]...))
		if strings.HasPrefix(s, "error") {
			bad++
		} else if s != whole {
			c.Fail("summary of the first %d of %d bytes of %v is %s", n, len(b), k.t, s)
		}
		c.Eval(1)
	}
	c.Check(bad > 0, "the first bytes of %v are enough for its summary", k.t)
	c.StateStr(fmt.Sprint(whole, layout, bad))
}

// summaryNesting: the geometry's parts nested up to 40 deep are shown, also
// in a file written with an index; a part which contains itself is an error
// in both.
func summaryNesting(c *Ctx) {
	var edges [][]int
	var what string
	cyclic := c.Bool("cyclic")
	n := 1 + c.Choose("levels", 40)
	fan := 1 + c.Choose("extra parts", 3)
	for i := 0; i < n; i++ {
		e := []int{i + 1}
		for j := 1; j < fan; j++ {
			e = append(e, n+1+i*(fan-1)+j-1)
		}
		edges = append(edges, e)
	}
	edges = append(edges, nil)
	for i := 0; i < n*(fan-1); i++ {
		edges = append(edges, nil)
	}
	what = fmt.Sprintf("parts nested %d deep, %d per level", n, fan)
	if cyclic {
		to := c.Choose("to", n+1)
		edges[n] = []int{to}
		what += fmt.Sprintf(", the last contains level %d", to)
	}
	b := rawNest(edges, true)
	f := asFeature(b)
	s := flatgeobuf.FeatureString(f, nil)
	c.Logf("%s", s)
	sk := &sink{}
	w := flatgeobuf.NewFileWriter(sk.asWriter(false))
	_, err := w.Header(asHeader(encRoot(hdrTable(1, 16, nil), 0)))
	c.Check(err == nil, "Header: %v", err)
	_, err = w.IndexData([]flat.Feature{*f})
	c.Step(3)
	if cyclic {
		c.Check(strings.HasPrefix(s, "error"), "%s: summary %s", what, s)
		c.Check(err != nil, "%s: written with an index", what)
	} else {
		c.Check(err == nil, "%s: not written: %v", what, err)
		_, parts, ok := splitSummary(s)
		c.Check(ok, "%s: summary %s", what, s)
		m := summaryMap(c, s, parts)
		_, parts, ok = splitSummary(m["Geometry"])
		gm := summaryMap(c, s, parts)
		v, err := parseBox(gm["Bounds"])
		c.Check(ok && err == nil && len(v) == 4 && v[0] == 1 && v[1] == 2 && v[2] == 1 && v[3] == 2, "%s: summary %s", what, s)
	}
	c.StateStr(what)
}

var _ = flat.ColumnTypeInt
var _ = io.EOF
