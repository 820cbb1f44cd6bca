// P11: corrupt input yields an error or data: no panic, no endless loop, no
// allocation out of proportion.

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"runtime/metrics"
	"sort"
	"sync"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	for _, v := range []string{"", "386"} {
		n := ""
		if v != "" {
			n = "-" + v
		}
		register(&Family{Prop: "P11", Name: "corrupt-bytes" + n, Variant: v, Run: corruptBytes, ThoroughOnly: v != ""})
		register(&Family{Prop: "P11", Name: "corrupt-words" + n, Variant: v, Run: corruptWords})
		register(&Family{Prop: "P11", Name: "corrupt-counts" + n, Variant: v, Run: corruptCounts})
		register(&Family{Prop: "P11", Name: "corrupt-offsets" + n, Variant: v, Run: corruptOffsets, ThoroughOnly: v != ""})
		register(&Family{Prop: "P11", Name: "corrupt-tree" + n, Variant: v, Run: corruptTree})
		register(&Family{Prop: "P11", Name: "corrupt-tree-params" + n, Variant: v, Run: corruptTreeParams})
		register(&Family{Prop: "P11", Name: "corrupt-properties" + n, Variant: v, Run: corruptProps})
		register(&Family{Prop: "P11", Name: "corrupt-nesting" + n, Variant: v, Run: corruptNesting})
	}
	register(&Family{Prop: "P11", Name: "corrupt-short-files", Run: corruptShort})
	register(&Family{Prop: "P11", Name: "corrupt-lengths", Run: corruptLengths})
	register(&Family{Prop: "P11", Name: "corrupt-word-pairs", Run: corruptPairs, ThoroughOnly: true})
}

// Allocation is measured per case while other workers run; a case which
// exceeds its limit is measured again alone.
var allocLock sync.RWMutex

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// bounded runs f, which must return, and whose allocations must not exceed
// the limit.
func bounded(c *Ctx, limit uint64, what func() string, f func()) {
	run := func() (n uint64) {
		defer func() {
			if r := recover(); r != nil {
				if v, ok := r.(violation); ok {
					panic(violation{what() + ": " + v.msg})
				}
				panic(violation{fmt.Sprintf("%s: panic: %v", what(), r)})
			}
		}()
		a := allocated()
		f()
		return allocated() - a
	}
	var n uint64
	func() {
		allocLock.RLock()
		defer allocLock.RUnlock()
		n = run()
	}()
	if n > limit {
		allocLock.Lock()
		defer allocLock.Unlock()
		if n = run(); n > limit {
			c.Fail("%s: allocated %d bytes, more than %d", what(), n, limit)
		}
	}
	c.Eval(1)
}

const allocBase = 32 << 20

func allocLimit(n int) uint64 { return allocBase + 100*uint64(n) }

// corruptBases are small files which together exercise all parts of the
// format.
func corruptBases(c *Ctx) []*fgb {
	if v, ok := c.x.shared.Load("bases"); ok {
		return v.([]*fgb)
	}
	cols := []tbl{{cName: "id", cType: uint8(ctShort)}, {cName: "s", cType: uint8(ctString)}}
	prop := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
	p1 := prop([]byte{0, 0, 7, 0, 1, 0}, encProp(ctString, "xyz"))
	pt := func(x, y float64) tbl { return tbl{gXy: []float64{x, y}, gType: uint8(1)} }
	f1 := &fgb{nodeSize: 2, known: true, hdr: encRoot(hdrTable(2, 2, tbl{hName: "ab", hColumns: cols}), 0)}
	f1.feats = [][]byte{encRoot(tbl{fGeometry: pt(1, 2), fProperties: p1}, 0), encRoot(tbl{fGeometry: pt(3, 4), fProperties: p1[:4]}, 1)}
	f1.boxes = []Box{bx(1, 2, 1, 2), bx(3, 4, 3, 4)}
	f1.buildIndex(nil)
	f2 := &fgb{hdr: encRoot(hdrTable(0, 0, tbl{hTitle: "t"}), 1)}
	f2.feats = [][]byte{
		encRoot(tbl{fGeometry: tbl{gType: uint8(7), gParts: []tbl{pt(1, 1), {gType: uint8(7), gParts: []tbl{pt(2, 2), pt(3, 3)}}}}}, 0),
		encRoot(tbl{fColumns: []tbl{{cName: "o", cType: uint8(ctBinary)}, {cType: uint8(ctDouble)}}, fProperties: prop([]byte{0, 0}, encProp(ctBinary, []byte{1, 2}), []byte{1, 0}, encProp(ctDouble, 1.5))}, 0),
	}
	f3 := &fgb{hdr: encRoot(hdrTable(1, 0, tbl{hEnvelope: []float64{0, 1, 2, 3}, hCrs: tbl{sOrg: "EPSG", sCode: int32(4326), sWkt: "w", sCodeString: "c"}, hDesc: "d", hMeta: "{}", hHasZ: true, hHasM: true}), 0)}
	f3.feats = [][]byte{encRoot(tbl{fGeometry: pt(0, 0)}, 0)}
	boxes := []Box{bx(0, 0, 1, 1), bx(2, 2, 3, 3), bx(4, 4, 5, 5), bx(6, 6, 7, 7), bx(8, 8, 9, 9)}
	f4 := simpleFile(boxes, 2, true, nil, nil)
	r := []*fgb{f1, f2, f3, f4}
	c.x.shared.Store("bases", r)
	return r
}

var worldBox = bx(-1e9, -1e9, 1e9, 1e9)

const numCorruptPrograms = 8

var allPrograms = []int{0, 1, 2, 3, 4, 5, 6, 7}

func quickPrograms(c *Ctx, p ...int) []int {
	if c.thorough {
		return nil
	}
	return p
}

// corruptRun runs one program on a corrupt file. Whatever the outcome of a
// call, the next one is made.
func corruptRun(c *Ctx, b []byte, prog int, ch int) {
	seekable := prog%2 == 1
	s := &src{data: b}
	_, s.onRead = chunking(ch)
	// Reads at most: an endless loop is a loop of more operations.
	r := flatgeobuf.NewFileReader(s.asReader(seekable, false))
	hdr, err := r.Header()
	if hdr != nil {
		_ = flatgeobuf.HeaderString(hdr)
	} else if err == nil {
		c.Fail("Header returned neither a header nor an error")
	}
	steps := 3
	str := func(fs []flat.Feature) {
		for i := range fs {
			var sc flatgeobuf.Schema
			if hdr != nil && i%2 == 0 {
				sc = hdr
			}
			_ = flatgeobuf.FeatureString(&fs[i], sc)
			if hdr != nil && i < 2 {
				_ = flatgeobuf.FeatureString(&fs[i], nil)
			}
			steps++
		}
	}
	index := func() {
		t, err := r.Index()
		if t != nil {
			_ = t.Search(worldBox)
			_ = t.Search(bx(0, 0, 2, 2))
			_ = t.Bounds()
			_ = t.NumRefs()
			_ = t.String()
		}
		_ = err
	}
	rem := func() {
		fs, err := r.DataRem()
		str(fs)
		_ = err
	}
	search := func(q Box) {
		fs, err := r.IndexSearch(q)
		if err == nil {
			str(fs)
		}
	}
	switch prog / 2 {
	case 0:
		index()
		rem()
	case 1:
		search(worldBox)
		_ = r.Rewind()
		search(bx(0, 0, 2, 2))
		rem()
	case 2:
		p := make([]flat.Feature, 2)
		for i := 0; ; i++ {
			n, err := r.Data(p)
			if n < 0 || n > len(p) {
				c.Fail("Data returned count %d", n)
			}
			str(p[:n])
			if err != nil {
				break
			}
			if i > len(b)+4 {
				c.Fail("Data keeps succeeding after %d calls on a file of %d bytes", i, len(b))
			}
		}
		_ = r.Rewind()
		rem()
	case 3:
		_ = r.Rewind()
		index()
		_ = r.Rewind()
		search(worldBox)
		_ = r.Rewind()
		rem()
		_ = r.Rewind()
		index()
	}
	_ = r.Close()
	c.Step(steps)
	if int64(s.ops) > 64*(int64(len(b))+64) {
		c.Fail("%d stream operations on a file of %d bytes", s.ops, len(b))
	}
}

// corruptCase runs every program on one corrupt file.
func corruptCase(c *Ctx, b []byte, what func() string, limit uint64, ch int, progs ...int) {
	ps := progs
	if ps == nil {
		ps = allPrograms
	}
	if l := binary.LittleEndian.Uint32(b[8:]); l > 1<<18 && l <= 32<<20 {
		ps = ps[:1] // up to 32 MiB are allocated, then the header is cut off
	}
	for _, p := range ps {
		p := p
		bounded(c, limit, func() string { return fmt.Sprintf("%s, program %d, file %x", what(), p, b) }, func() { corruptRun(c, b, p, ch) })
	}
}

func (f *fgb) limitAt(pos, width int) uint64 {
	n := len(f.bytes())
	// The header length field: the documented limit allows 32 MiB.
	if pos < len(refMagic)+4 && pos+width > len(refMagic) {
		return allocLimit(n) + 40<<20
	}
	return allocLimit(n)
}

// corruptBytes: every byte of every base file has every value.
func corruptBytes(c *Ctx) {
	bases := corruptBases(c)
	k := c.Choose("file", len(bases))
	f := bases[k]
	good := f.bytes()
	i := c.Choose("byte", len(good))
	ch := pickInt(c, 0, c.Choose("delivery", pickInt(c, 1, 3)))
	b := append([]byte{}, good...)
	for v := 0; v < 256; v++ {
		b[i] = byte(v)
		corruptCase(c, b, func() string { return fmt.Sprintf("file %d, byte %d set to %d", k, i, v) }, f.limitAt(i, 1), ch, quickPrograms(c, 0, 3, 7)...)
	}
	c.StateStr(fmt.Sprint(k, i))
}

// wordValues are the values put into 32-bit words.
var wordValues = []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 24, 28, 32, 40, 48, 64, 100, 255, 256, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 1 << 17,
	1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20, 32 << 20, 32<<20 + 1, 1<<28 - 1, 1 << 28, 1 << 29, 1<<30 - 1, 1 << 30, 1<<31 - 8, 1<<31 - 5, 1<<31 - 4, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30,
	1<<32 - 1000, 1<<32 - 64, 1<<32 - 32, 1<<32 - 16, 1<<32 - 12, 1<<32 - 8, 1<<32 - 5, 1<<32 - 4, 1<<32 - 3, 1<<32 - 2, 1<<32 - 1}

// corruptWords: a 32-bit word at any position has any of a list of values.
func corruptWords(c *Ctx) {
	bases := corruptBases(c)
	k := c.Choose("file", len(bases))
	f := bases[k]
	good := f.bytes()
	i := c.Choose("position", len(good)-3)
	b := append([]byte{}, good...)
	for _, v := range wordValues {
		binary.LittleEndian.PutUint32(b[i:], v)
		corruptCase(c, b, func() string { return fmt.Sprintf("file %d, word at %d set to %d", k, i, v) }, f.limitAt(i, 4), 0)
	}
	c.StateStr(fmt.Sprint(k, i))
}

// sections lists the FlatBuffers tables of a file (start, end).
func (f *fgb) sections() (r [][2]int) {
	at := len(refMagic)
	r = append(r, [2]int{at, at + len(f.hdr)})
	at += len(f.hdr) + len(f.index)
	for _, x := range f.feats {
		r = append(r, [2]int{at, at + len(x)})
		at += len(x)
	}
	return
}

// corruptOffsets: any word of any table refers to any position of its table,
// before or after it: vtables, tables, vectors and strings which overlap or
// contain themselves.
func corruptOffsets(c *Ctx) {
	bases := corruptBases(c)
	k := c.Choose("file", len(bases))
	f := bases[k]
	good := f.bytes()
	ss := f.sections()
	t := ss[c.Choose("table", len(ss))]
	n := (t[1] - t[0] - 4) / 4
	i := t[0] + 4 + 4*c.Choose("word", n)
	if c.Bool("unaligned") {
		i += 2
		if i+4 > t[1] {
			c.Stop()
		}
	}
	b := append([]byte{}, good...)
	for j := t[0] + 4; j < t[1]; j += 2 {
		d := uint32(j - i)
		// As an unsigned forward offset (with wrap), and as the signed
		// backward offset of a vtable.
		binary.LittleEndian.PutUint32(b[i:], d)
		what := func() string { return fmt.Sprintf("file %d, word at %d refers to %d", k, i, j) }
		corruptCase(c, b, what, f.limitAt(i, 4), 0)
		binary.LittleEndian.PutUint32(b[i:], -d)
		corruptCase(c, b, what, f.limitAt(i, 4), 0)
	}
	c.StateStr(fmt.Sprint(k, i))
}

// corruptPairs: any two words of a table have any of a short list of values.
func corruptPairs(c *Ctx) {
	bases := corruptBases(c)
	k := c.Choose("file", len(bases))
	f := bases[k]
	good := f.bytes()
	ss := f.sections()
	t := ss[c.Choose("table", len(ss))]
	n := (t[1] - t[0]) / 4
	i := t[0] + 4*c.Choose("word", n)
	j := t[0] + 4*c.Choose("other word", n)
	if j <= i {
		c.Stop()
	}
	b := append([]byte{}, good...)
	vals := []uint32{0, 1, 4, 8, uint32(j - i), uint32(i - j), 16, 255, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 8, 1<<32 - 4, 1<<32 - 1}
	for _, v := range vals {
		for _, w := range vals {
			binary.LittleEndian.PutUint32(b[i:], v)
			binary.LittleEndian.PutUint32(b[j:], w)
			for p := 0; p < 4; p++ {
				p := p
				bounded(c, f.limitAt(i, 4), func() string {
					return fmt.Sprintf("file %d, word at %d set to %d, word at %d set to %d, program %d", k, i, v, j, w, p)
				}, func() { corruptRun(c, b, p, 0) })
			}
		}
	}
	c.StateStr(fmt.Sprint(k, i, j))
}

// corruptCounts: the header announces any feature count and node size, on a
// file with less, more or no data.
func corruptCounts(c *Ctx) {
	bases := corruptBases(c)
	k := c.Choose("file", len(bases))
	f := bases[k]
	var counts []uint64
	for _, e := range []uint{0, 1, 2, 3, 8, 10, 15, 16, 17, 20, 24, 28, 31, 32, 33, 36, 40, 47, 53, 56, 57, 58, 59, 60, 61, 62, 63} {
		counts = append(counts, 1<<e-1, 1<<e, 1<<e+1)
	}
	counts = append(counts, 1<<64-1, 1<<64-2, math.MaxInt64/40, math.MaxInt64/40+1, math.MaxInt32/40, math.MaxInt32/40+1, 5, 6, 7)
	n := counts[c.Choose("count", len(counts))]
	h := decRoot(f.hdr, "Header")
	h[hCount] = n
	body := append(append([]byte{}, f.index...), bytes.Join(f.feats, nil)...)
	full := len(body)
	sizes, cuts := []uint16{0, 1, 2, 16, 65535}, []int{0, 40, full}
	if c.thorough {
		sizes, cuts = []uint16{0, 1, 2, 3, 15, 16, 17, 255, 256, 4095, 32767, 32768, 65534, 65535}, []int{0, 1, 39, 40, 41, 80, full / 2, full}
	}
	for _, ns := range sizes {
		h[hNodeSize] = ns
		hdr := encRoot(h, 0)
		for _, cut := range cuts {
			if cut > full {
				continue
			}
			b := append(append(append([]byte{}, refMagic...), hdr...), body[:cut]...)
			corruptCase(c, b, func() string {
				return fmt.Sprintf("file %d, count %d, node size %d, %d bytes after the header", k, n, ns, cut)
			}, allocLimit(len(b)), 0)
		}
	}
	c.StateStr(fmt.Sprint(k, n))
}

// corruptLengths: feature and header length fields of any size, in files
// whose tables are long enough to be read in pieces.
func corruptLengths(c *Ctx) {
	size := []int{8, 100, 1<<20 - 4, 1 << 20, 1<<20 + 4, 5<<20 + 12}[c.Choose("feature size", 6)]
	lens := []uint32{0, 3, 4, uint32(size) - 5, uint32(size) - 4, uint32(size) - 3, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5 << 20, 32 << 20, 32<<20 + 1, 1<<30 - 1, 1 << 30, 1<<31 - 5, 1<<31 - 4, 1<<31 - 1, 1 << 31, 1<<32 - 5, 1<<32 - 4, 1<<32 - 1}
	n := lens[c.Choose("length", len(lens))]
	known := c.Bool("known count")
	f := &fgb{hdr: encRoot(hdrTable(boolToInt(known), 0, nil), 0)}
	x := make([]byte, size)
	copy(x, encRoot(tbl{}, 0))
	binary.LittleEndian.PutUint32(x, n)
	f.feats = [][]byte{x}
	b := f.bytes()
	corruptCase(c, b, func() string { return fmt.Sprintf("feature of %d bytes with length field %d", size, n) }, allocLimit(len(b)), 0)
	c.StateStr(fmt.Sprint(size, n, known))
}

// corruptShort: every file made of the magic number, a length and a few bytes.
func corruptShort(c *Ctx) {
	n := c.Choose("bytes", pickInt(c, 6, 7))
	alpha := []byte{0, 1, 4, 8, 12, 0xfc, 0xff}
	v := make([]byte, n)
	for i := range v {
		v[i] = alpha[c.Choose("byte", len(alpha))]
	}
	for _, l := range []uint32{0, 1, 3, 4, 5, 6, 7, 8, uint32(n), 12} {
		b := append([]byte{}, refMagic...)
		b = binary.LittleEndian.AppendUint32(b, l)
		b = append(b, v...)
		ps := quickPrograms(c, 0, 1, 4, 7)
		if ps == nil {
			ps = allPrograms
		}
		for _, p := range ps {
			p := p
			bounded(c, allocLimit(len(b)), func() string { return fmt.Sprintf("program %d, file %x", p, b) }, func() { corruptRun(c, b, p, 0) })
		}
	}
	// As the only feature of a file without index.
	if n >= 1 {
		h := encRoot(hdrTable(0, 0, nil), 0)
		for _, l := range []uint32{0, 4, 5, uint32(n)} {
			b := append(append([]byte{}, refMagic...), h...)
			b = binary.LittleEndian.AppendUint32(b, l)
			b = append(b, v...)
			for _, p := range []int{0, 5} {
				p := p
				bounded(c, allocLimit(len(b)), func() string { return fmt.Sprintf("program %d, feature %x", p, b[16:]) }, func() { corruptRun(c, b, p, 0) })
			}
		}
	}
	c.StateBytes(v)
}

// nodeValues are the values put into the offset field of a node.
func nodeOffsets(total int) []int64 {
	r := []int64{-1, -40, math.MinInt64, math.MaxInt64, 1 << 31, 1<<32 + 1, 1<<31 - 1, -1 << 31, 1 << 40, math.MaxInt64/40 + 1}
	for i := 0; i <= total+1; i++ {
		r = append(r, int64(i))
	}
	return r
}

// treeCase loads and searches a corrupt index both ways.
func treeCase(c *Ctx, b []byte, n int, ns uint16, what func() string) {
	bounded(c, allocLimit(len(b)+40*int(ns)), func() string { return fmt.Sprintf("%s (%d references, node size %d)", what(), n, ns) }, func() {
		s := &src{data: b}
		max := n * int(ns)
		qs := []Box{worldBox, {XMin: math.Inf(-1), YMin: math.Inf(-1), XMax: math.Inf(1), YMax: math.Inf(1)}, bx(0, 0, 2.5, 2.5), bx(3, 3, 3, 3)}
		t, err := packedrtree.Unmarshal(s.asReader(false, false), n, ns)
		if (t == nil) == (err == nil) {
			c.Fail("Unmarshal returned %v and error %v", t, err)
		}
		if err == nil {
			for _, q := range qs {
				if r := t.Search(q); len(r) > max && max/int(ns) == n {
					c.Fail("search returned %d results", len(r))
				}
			}
			_ = t.Bounds()
			_ = t.String()
			if _, err = t.Marshal(io.Discard); err != nil {
				c.Fail("Marshal after Unmarshal: %v", err)
			}
		}
		for _, q := range qs {
			s := &src{data: b}
			r, err := packedrtree.Seek(seekR{s}, n, ns, q)
			if err == nil && len(r) > max && max/int(ns) == n {
				c.Fail("streaming search returned %d results", len(r))
			}
			if s.ops > 64*(len(b)+64) {
				c.Fail("streaming search made %d stream operations on an index of %d bytes", s.ops, len(b))
			}
		}
		c.Step(2 + 2*len(qs))
	})
}

// corruptTree: one or two nodes of an index have corrupt offsets or
// coordinates, among them all cycles and shared children.
func corruptTree(c *Ctx) {
	shapes := [][2]int{{1, 2}, {2, 2}, {3, 2}, {5, 2}, {4, 3}, {7, 3}, {10, 3}, {5, 4}}
	if c.thorough {
		shapes = append(shapes, [][2]int{{6, 2}, {8, 2}, {9, 2}, {9, 3}, {17, 4}, {16, 16}, {17, 16}}...)
	}
	sh := shapes[c.Choose("shape", len(shapes))]
	n, ns := sh[0], sh[1]
	var refs []Ref
	for i := 0; i < n; i++ {
		refs = append(refs, Ref{Box: bx(float64(i), float64(i), float64(i)+0.5, float64(i)+0.5), Offset: int64(100 * i)})
	}
	good := buildRefTree(refs, ns).bytes()
	total := len(good) / 40
	i := c.Choose("node", total)
	b := append([]byte{}, good...)
	offs := nodeOffsets(total)
	for _, v := range offs {
		binary.LittleEndian.PutUint64(b[40*i+32:], uint64(v))
		treeCase(c, b, n, uint16(ns), func() string { return fmt.Sprintf("offset of node %d is %d", i, v) })
		for j := i + 1; j < total; j++ {
			for _, w := range offs {
				if w > int64(total)+1 && !c.thorough {
					continue
				}
				binary.LittleEndian.PutUint64(b[40*j+32:], uint64(w))
				treeCase(c, b, n, uint16(ns), func() string {
					return fmt.Sprintf("offset of node %d is %d, of node %d is %d", i, v, j, w)
				})
			}
			copy(b[40*j:40*j+40], good[40*j:])
		}
	}
	copy(b, good)
	for k := 0; k < 4; k++ {
		for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, -1e300, math.MaxFloat64, math.Copysign(0, -1), math.SmallestNonzeroFloat64} {
			binary.LittleEndian.PutUint64(b[40*i+8*k:], math.Float64bits(v))
			treeCase(c, b, n, uint16(ns), func() string { return fmt.Sprintf("coordinate %d of node %d is %v", k, i, v) })
		}
		copy(b, good)
	}
	// All inner nodes refer to the same child, with all-embracing boxes.
	for v := int64(0); v < int64(total); v++ {
		for j := 0; j < total; j++ {
			for k, e := range []float64{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)} {
				binary.LittleEndian.PutUint64(b[40*j+8*k:], math.Float64bits(e))
			}
			if j <= i {
				binary.LittleEndian.PutUint64(b[40*j+32:], uint64(v))
			}
		}
		treeCase(c, b, n, uint16(ns), func() string { return fmt.Sprintf("nodes 0 to %d refer to node %d", i, v) })
		copy(b, good)
	}
	c.StateStr(fmt.Sprint(sh, i))
}

// corruptTreeParams: an index is read with any reference count and node size.
func corruptTreeParams(c *Ctx) {
	var counts []int
	for e := uint(0); e < 31; e++ {
		counts = append(counts, 1<<e, 1<<e+1)
	}
	for e := uint(31); e < 63 && math.MaxInt > 1<<31; e++ {
		v := uint64(1) << e
		counts = append(counts, int(v-1), int(v), int(v+1))
	}
	counts = append(counts, math.MaxInt, math.MaxInt-1, math.MaxInt/40, math.MaxInt/40+1, math.MaxInt/80, 3)
	sort.Ints(counts)
	n := counts[c.Choose("references", len(counts))]
	lens := []int{0, 1, 8, 39, 40, 41, 80, 120, 400, 4000}
	l := lens[c.Choose("length", len(lens))]
	fill := c.Choose("content", 4)
	b := make([]byte, l)
	switch fill {
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3: // nodes which cover the plane; each refers to the next, or to node 2i+1
		for i := 0; 40*i+40 <= l; i++ {
			for k, e := range []float64{math.Inf(-1), math.Inf(-1), math.Inf(1), math.Inf(1)} {
				binary.LittleEndian.PutUint64(b[40*i+8*k:], math.Float64bits(e))
			}
			v := uint64(i + 1)
			if fill == 3 {
				v = uint64(2*i + 1)
			}
			binary.LittleEndian.PutUint64(b[40*i+32:], v)
		}
	}
	for _, ns := range []uint16{2, 3, 4, 16, 255, 256, 4096, 65535} {
		treeCase(c, b, n, ns, func() string { return fmt.Sprintf("%d bytes of content %d", l, fill) })
	}
	c.StateStr(fmt.Sprint(n, l, fill))
}

// corruptProps: every short property stream, decoded with good and corrupt
// schemas.
func corruptProps(c *Ctx) {
	var all []int
	for i := range columnTypeNames {
		all = append(all, i)
	}
	read := func(schema flatgeobuf.Schema, b []byte, what func() string) {
		bounded(c, allocLimit(len(b)), what, func() {
			vals, err := flatgeobuf.NewPropReader(bytes.NewReader(b)).ReadSchema(schema)
			if err == nil && len(vals)*3 > len(b)+2 {
				c.Fail("%d values from %d bytes", len(vals), len(b))
			}
			c.Step(1)
		})
	}
	switch c.Choose("kind", 3) {
	case 0: // all streams of up to 2 (3) bytes, and any type's primitive reader
		schema := schemaOf(all, c.Bool("feature"))
		first := c.Choose("first", 256)
		var rec func(b []byte, max int)
		rec = func(b []byte, max int) {
			read(schema, b, func() string { return fmt.Sprintf("properties %x", b) })
			if len(b) == max {
				return
			}
			for v := 0; v < 256; v++ {
				rec(append(b[:len(b):len(b)], byte(v)), max)
			}
		}
		rec([]byte{byte(first)}, pickInt(c, 2, 3))
		for t := range columnTypeNames {
			for v := 0; v < 256; v++ {
				if !c.thorough && v > 2 && v < 255 && v != 127 && v != 128 {
					continue
				}
				for _, b := range [][]byte{{byte(first)}, {byte(first), byte(v)}, {byte(first), byte(v), 0}, {byte(first), byte(v), 0, 0}, {byte(first), byte(v), 0xff, 0x7f}, {byte(first), byte(v), 0xff, 0xff, 1}} {
					bounded(c, allocLimit(len(b)), func() string { return fmt.Sprintf("%s from %x", columnTypeNames[t], b) }, func() {
						_, _ = readProp(flatgeobuf.NewPropReader(bytes.NewReader(b)), t)
						c.Step(1)
					})
				}
			}
		}
		c.StateStr(fmt.Sprint(first))
	case 1: // one property of each type with every stream over an alphabet
		t := c.Choose("type", len(columnTypeNames)+3)
		schema := schemaOf([]int{t}, false)
		if t >= len(columnTypeNames) {
			schema = schemaOf([]int{[]int{15, 127, 255}[t-len(columnTypeNames)]}, true)
		}
		alpha := []byte{0, 1, 2, 0x7f, 0x80, 0xff}
		n := c.Choose("bytes", pickInt(c, 6, 8))
		b := make([]byte, n+2)
		i := 0
		for ; i < n && i < 2; i++ {
			b[2+i] = alpha[c.Choose("byte", len(alpha))]
		}
		var rec func(i int)
		rec = func(i int) {
			if i >= n {
				read(schema, b, func() string { return fmt.Sprintf("type %d, properties %x", t, b) })
				return
			}
			for _, a := range alpha {
				b[2+i] = a
				rec(i + 1)
			}
		}
		rec(i)
		c.StateStr(fmt.Sprint(t, b))
	case 2: // corrupt schemas
		feature := c.Bool("feature")
		var cols []tbl
		for _, t := range []int{ctShort, ctString, ctByte} {
			cols = append(cols, tbl{cName: "n", cType: uint8(t)})
		}
		root := tbl{hColumns: cols}
		if feature {
			root = tbl{fColumns: cols}
		}
		good := encRoot(root, c.Choose("layout", 2))
		i := 4 + c.Choose("position", len(good)-7)
		b := append([]byte{}, good...)
		props := [][]byte{{0, 0, 7, 0, 1, 0, 1, 0, 0, 0, 65, 2, 0, 9}, {2, 0, 9}, {1, 0, 0, 0, 0, 0}, {0, 0}, {5, 0, 1}, {0xff, 0xff, 1, 1}}
		try := func(v uint32) {
			for k, p := range props {
				read(asAnySchema(b, feature), p, func() string { return fmt.Sprintf("schema %x (word at %d is %d), properties %d", b, i, v, k) })
			}
		}
		for _, v := range wordValues {
			binary.LittleEndian.PutUint32(b[i:], v)
			try(v)
		}
		for j := 4; j < len(good); j += 2 {
			binary.LittleEndian.PutUint32(b[i:], uint32(j-i))
			try(uint32(j - i))
			binary.LittleEndian.PutUint32(b[i:], uint32(i-j))
			try(uint32(i - j))
		}
		c.StateBytes(b[:i])
	}
}

func asAnySchema(b []byte, feature bool) (s flatgeobuf.Schema) {
	if feature {
		f := &flat.Feature{}
		f.Init(b, unsafePos(4+binary.LittleEndian.Uint32(b[4:])))
		return f
	}
	h := &flat.Header{}
	h.Init(b, unsafePos(4+binary.LittleEndian.Uint32(b[4:])))
	return h
}

// rawNest builds a feature whose geometry is a hand-made graph of parts.
// edges[i] lists the parts of geometry i; geometry 0 is the root. A part may
// be listed many times, and may be an ancestor.
func rawNest(edges [][]int, xy bool) []byte {
	le := binary.LittleEndian
	b := make([]byte, 8)
	// Shared vtables: feature {geometry at 4}, geometry {xy at 8, parts at 4}.
	fvt := len(b)
	b = le.AppendUint16(b, 6)
	b = le.AppendUint16(b, 8)
	b = le.AppendUint16(b, 4)
	b = le.AppendUint16(b, 0)
	gvt := len(b)
	b = le.AppendUint16(b, 20)
	b = le.AppendUint16(b, 12)
	for s := 0; s < 8; s++ {
		o := 0
		if s == gParts {
			o = 4
		}
		if s == gXy && xy {
			o = 8
		}
		b = le.AppendUint16(b, uint16(o))
	}
	feat := len(b)
	b = le.AppendUint32(b, uint32(int32(feat-fvt)))
	b = le.AppendUint32(b, 0) // geometry
	var xyPos int
	pos := make([]int, len(edges))
	var vecs []int
	for i := range edges {
		pos[i] = len(b)
		b = le.AppendUint32(b, uint32(int32(pos[i]-gvt)))
		b = le.AppendUint32(b, 0)
		b = le.AppendUint32(b, 0)
	}
	le.PutUint32(b[feat+4:], uint32(pos[0]-(feat+4)))
	for i, es := range edges {
		vecs = append(vecs, len(b))
		le.PutUint32(b[pos[i]+4:], uint32(len(b)-(pos[i]+4)))
		b = le.AppendUint32(b, uint32(len(es)))
		for _, e := range es {
			at := len(b)
			b = le.AppendUint32(b, uint32(pos[e]-at)) // wraps if backwards
		}
	}
	if xy {
		for len(b)%8 != 4 {
			b = append(b, 0)
		}
		xyPos = len(b)
		b = le.AppendUint32(b, 2)
		b = le.AppendUint64(b, math.Float64bits(1))
		b = le.AppendUint64(b, math.Float64bits(2))
		for i := range edges {
			le.PutUint32(b[pos[i]+8:], uint32(xyPos-(pos[i]+8)))
		}
	}
	le.PutUint32(b, uint32(len(b)-4))
	le.PutUint32(b[4:], uint32(feat-4))
	return b
}

// corruptNesting: geometries whose parts nest very deeply, contain
// themselves, or share parts so that there are exponentially many paths.
func corruptNesting(c *Ctx) {
	xy := c.Bool("coordinates")
	var edges [][]int
	var what string
	switch c.Choose("kind", 4) {
	case 0: // chains
		ns := []int{1, 2, 3, 16, 17, 62, 63, 64, 65, 66, 67, 100, 1000, 10000, 100000}
		if !xy { // 2 million levels of recursion exhaust the stack
			ns = append(ns, 2000000)
		}
		n := ns[c.Choose("depth", len(ns))]
		for i := 0; i < n; i++ {
			edges = append(edges, []int{i + 1})
		}
		edges = append(edges, nil)
		what = fmt.Sprintf("parts nested %d deep", n)
	case 1: // k-fold references to the next level: k^n paths
		n := []int{1, 2, 3, 10, 20, 30, 40, 50, 60, 63, 64, 65}[c.Choose("depth", 12)]
		k := []int{2, 3, 7, 100}[c.Choose("width", 4)]
		for i := 0; i < n; i++ {
			var e []int
			for j := 0; j < k; j++ {
				e = append(e, i+1)
			}
			edges = append(edges, e)
		}
		edges = append(edges, nil)
		what = fmt.Sprintf("%d levels which each refer %d times to the next", n, k)
	case 2: // cycles of length n, entered after m, with fan-out k
		n := 1 + c.Choose("cycle", 5)
		m := []int{0, 1, 2, 30, 62, 63}[c.Choose("entry", 6)]
		k := []int{1, 2, 50}[c.Choose("width", 3)]
		for i := 0; i < m+n; i++ {
			next := i + 1
			if next == m+n {
				next = m
			}
			var e []int
			for j := 0; j < k; j++ {
				e = append(e, next)
			}
			edges = append(edges, e)
		}
		what = fmt.Sprintf("cycle of %d entered after %d, width %d", n, m, k)
	case 3: // every graph of 3 geometries with up to 2 parts each
		for i := 0; i < 3; i++ {
			var e []int
			for j := c.Choose("parts", 3); j > 0; j-- {
				e = append(e, c.Choose("part", 3))
			}
			edges = append(edges, e)
		}
		what = fmt.Sprintf("parts %v", edges)
	}
	b := rawNest(edges, xy)
	lim := allocLimit(len(b))
	f := asFeature(b)
	var str string
	bounded(c, lim, func() string { return what + ": FeatureString" }, func() { str = flatgeobuf.FeatureString(f, nil) })
	c.Check(str != "", "%s: FeatureString is empty", what)
	c.Step(1)
	// Writing the feature with an index made from its bounds.
	for way := 0; way < 2; way++ {
		bounded(c, lim, func() string { return what + ": IndexData" }, func() {
			sk := &sink{}
			w := flatgeobuf.NewFileWriter(plainW{sk})
			if _, err := w.Header(asHeader(encRoot(hdrTable(1, 16, nil), 0))); err != nil {
				c.Fail("Header: %v", err)
			}
			h := len(sk.buf)
			var n int
			var err error
			if way == 0 {
				n, err = w.IndexData([]flat.Feature{*f})
			} else {
				n, err = w.IndexDataPtr([]*flat.Feature{f})
			}
			if err != nil && (n != 0 || len(sk.buf) != h) {
				c.Fail("failed after writing %d bytes: %v", n, err)
			}
			c.Step(2)
		})
	}
	// Reading it from a file.
	g := &fgb{hdr: encRoot(hdrTable(1, 0, nil), 0), feats: [][]byte{b}}
	bounded(c, lim, func() string { return what + ": reading" }, func() { corruptRun(c, g.bytes(), 0, 0) })
	c.StateStr(what)
}
