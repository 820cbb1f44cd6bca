// P02 (in-memory search), P03 (streaming search), P04 (serialization).

package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P02", Name: "search-grid", Run: searchGrid})
	register(&Family{Prop: "P02", Name: "search-shapes", Run: searchShapes})
	register(&Family{Prop: "P02", Name: "search-extreme", Run: searchExtreme})
	register(&Family{Prop: "P02", Name: "search-deep", Run: searchDeep})
	register(&Family{Prop: "P03", Name: "seek-deep", Run: seekDeep})
	register(&Family{Prop: "P04", Name: "serialize-deep", Run: serializeDeep})
	register(&Family{Prop: "P02", Name: "search-history", Run: searchHistory})
	register(&Family{Prop: "P03", Name: "seek-grid", Run: seekGrid})
	register(&Family{Prop: "P03", Name: "seek-shapes", Run: seekShapes})
	register(&Family{Prop: "P03", Name: "results-sort", Run: resultsSort})
	register(&Family{Prop: "P03", Name: "seek-delivery", Quick: 2, Thorough: 3, Run: seekDelivery})
	register(&Family{Prop: "P04", Name: "serialize-shapes", Run: serializeShapes})
	register(&Family{Prop: "P04", Name: "serialize-large", Run: serializeLarge})
	register(&Family{Prop: "P04", Name: "serialize-grid", Run: serializeGrid})
	register(&Family{Prop: "P04", Name: "unmarshal-delivery", Quick: 2, Thorough: 3, Run: unmarshalDelivery})
}

var (
	coords01    = []float64{0, 1}
	coords012   = []float64{0, 1, 2}
	grid9       = gridBoxes(coords01)                            // 9
	grid36      = gridBoxes(coords012)                           // 36
	query225    = gridBoxes([]float64{-1, 0, 0.5, 1, 2})         // 225
	query784    = gridBoxes([]float64{-1, 0, 0.5, 1, 1.5, 2, 3}) // 784
	boxesExtr   = gridBoxes([]float64{math.Inf(-1), -math.MaxFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, math.Inf(1)})
	alphaNode   = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 65535}
	alphaNodeSm = []int{2, 3, 4, 16}
)

// multiset chooses n elements of an alphabet of size k in non-decreasing
// order (or any order).
func multiset(c *Ctx, n, k int, ordered bool) []int {
	r := make([]int, n)
	lo := 0
	for i := range r {
		if ordered {
			lo = 0
		}
		r[i] = lo + c.Choose("box", k-lo)
		lo = r[i]
	}
	return r
}

func mustTree(c *Ctx, refs []Ref, ns int) *packedrtree.PackedRTree {
	t, err := packedrtree.New(refs, uint16(ns))
	c.Step(1)
	if err != nil {
		c.Fail("New(%s, %d): %v", refsStr(refs), ns, err)
	}
	return t
}

// checkSearch compares a result set with a linear scan.
func checkSearch(c *Ctx, what string, got Results, refs []Ref, q Box) {
	want := refSearch(refs, q)
	ok := len(got) == len(want)
	if ok {
		// Cheap path for small results, otherwise sort.
		sorted := true
		for i := 1; i < len(got); i++ {
			if got[i].RefIndex < got[i-1].RefIndex {
				sorted = false
				break
			}
		}
		g := got
		if !sorted {
			g = byIndex(got)
		}
		ok = sameResults(g, want)
	}
	if !ok {
		c.Fail("%s of %s in %s returned %v, expected %v", what, boxStr(q), refsStr(refs), got, want)
	}
}

func checkTreeInfo(c *Ctx, t *packedrtree.PackedRTree, refs []Ref, ns int) {
	u := emptyBox
	for i := range refs {
		u = refUnion(u, refs[i].Box)
	}
	c.Step(3)
	if t.Bounds() != u {
		c.Fail("Bounds of %s (node size %d) is %s, expected %s", refsStr(refs), ns, boxStr(t.Bounds()), boxStr(u))
	}
	if t.NumRefs() != len(refs) || int(t.NodeSize()) != ns {
		c.Fail("tree of %d refs with node size %d reports %d refs, node size %d", len(refs), ns, t.NumRefs(), t.NodeSize())
	}
}

// searchGrid: every list of references over the boxes of a small grid,
// every query of a finer grid, every node size that matters.
func searchGrid(c *Ctx) {
	maxN := 3
	if c.thorough {
		maxN = 5
	}
	var refs []Ref
	queries := query225
	small := c.Bool("alphabet")
	if small {
		// Longer lists over fewer boxes: three tree levels and more.
		n := 4 + c.Choose("n", pickInt(c, 4, 6))
		for i, k := range multiset(c, n, len(grid9), false) {
			refs = append(refs, Ref{Box: grid9[k], Offset: int64(1000 + i)})
		}
	} else {
		n := 1 + c.Choose("n", maxN)
		for i, k := range multiset(c, n, len(grid36), n <= 2) {
			refs = append(refs, Ref{Box: grid36[k], Offset: int64(1000 + i)})
		}
		if n <= 3 {
			queries = query784
		}
	}
	refs = sortedCopy(refs)
	var sig []byte
	for ns := 2; ns <= 4; ns++ {
		t := mustTree(c, refs, ns)
		checkTreeInfo(c, t, refs, ns)
		for _, q := range queries {
			r := t.Search(q)
			checkSearch(c, fmt.Sprintf("Search (node size %d)", ns), r, refs, q)
			if ns == 2 {
				sig = append(sig, byte(len(r)))
			}
		}
		c.Step(len(queries))
		c.Eval(len(queries))
	}
	c.StateBytes(sig)
}

func pickInt(c *Ctx, quick, thorough int) int {
	if c.thorough {
		return thorough
	}
	return quick
}

const numLayouts = 9

// layout makes n boxes in a pattern.
func layout(k, n int) []Box {
	bs := make([]Box, n)
	side := int(math.Ceil(math.Sqrt(float64(n))))
	for i := range bs {
		f := float64(i)
		switch k {
		case 0: // diagonal points
			bs[i] = bx(f, f, f, f)
		case 1: // touching unit cells
			x, y := float64(i%side), float64(i/side)
			bs[i] = bx(x, y, x+1, y+1)
		case 2: // identical
			bs[i] = bx(3, 4, 5, 6)
		case 3: // nested
			bs[i] = bx(-f, -2*f, f, 2*f)
		case 4: // horizontal line of segments with gaps
			bs[i] = bx(3*f, 7, 3*f+1, 7)
		case 5: // every third has no box
			bs[i] = bx(f, -f, f+0.5, -f+0.5)
			if i%3 == 0 {
				bs[i] = emptyBox
			}
		case 6: // one huge outlier, others clustered in two corners
			if i == n/2 {
				bs[i] = bx(-1e300, -1e300, 1e300, 1e300)
			} else if i%2 == 0 {
				bs[i] = bx(f/1024, f/1024, f/1024, f/1024)
			} else {
				bs[i] = bx(1e6+f, 1e6-f, 1e6+f+2, 1e6-f+2)
			}
		case 7: // pseudo-random cells from a fixed permutation
			x, y := float64(i*7919%251), float64(i*104729%241)
			bs[i] = bx(x, y, x+float64(i%3), y+float64(i%2))
		default: // vertical line of points, descending
			bs[i] = bx(-1, -f, -1, -f)
		}
	}
	return bs
}

// offsetPattern assigns offsets to (sorted) references.
func offsetPattern(k int, refs []Ref) {
	n := len(refs)
	for i := range refs {
		switch k {
		case 0: // ascending
			refs[i].Offset = int64(i) * 104
		case 1: // descending
			refs[i].Offset = int64(n-i) * 3
		case 2: // extremes
			refs[i].Offset = []int64{math.MaxInt64, math.MinInt64, 0, -1, 1 << 40}[i%5] - int64(i)*boolInt(i%5 != 1)
		default: // equal
			refs[i].Offset = 77
		}
	}
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func layoutRefs(k, n, op int) []Ref {
	refs := make([]Ref, n)
	for i, b := range layout(k, n) {
		refs[i] = Ref{Box: b, Offset: int64(i)}
	}
	refs = sortedCopy(refs)
	offsetPattern(op, refs)
	return refs
}

// layoutQueries makes queries which exercise the boundaries of the boxes.
func layoutQueries(refs []Ref, max int) []Box {
	qs := []Box{emptyBox, bx(-1e9, -1e9, 1e9, 1e9), bx(0, 0, 0, 0), bx(0.5, 0.5, 0.6, 0.6), bx(1e12, 1e12, 1e13, 1e13), bx(0, -5, 5, 0)}
	step := 1
	if len(refs) > max {
		step = len(refs) / max
	}
	for i := 0; i < len(refs); i += step {
		b := refs[i].Box
		if b.XMin > b.XMax {
			continue
		}
		qs = append(qs, b,
			bx(b.XMax, b.YMax, b.XMax, b.YMax),
			bx(b.XMin-1, b.YMin-1, b.XMin, b.YMin),
			bx(b.XMax, b.YMin, b.XMax+1.5, b.YMin),
			bx(math.Nextafter(b.XMax, math.Inf(1)), b.YMin, b.XMax+1, b.YMax),
			bx(b.XMin, math.Nextafter(b.YMax, math.Inf(1)), b.XMax, b.YMax+1),
			bx(b.XMin-1, b.YMin, math.Nextafter(b.XMin, math.Inf(-1)), b.YMax),
			bx(b.XMin, b.YMin-1, b.XMax, math.Nextafter(b.YMin, math.Inf(-1))))
	}
	var r []Box
	for _, q := range qs {
		if q.XMin <= q.XMax && q.YMin <= q.YMax || q == emptyBox {
			r = append(r, q)
		}
	}
	return r
}

var (
	shapeCountsQuick = func() []int {
		var r []int
		for i := 1; i <= 70; i++ {
			r = append(r, i)
		}
		return append(r, 80, 81, 82, 120, 127, 128, 129, 143, 144, 145, 255, 256, 257, 272, 273, 288, 289, 290, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097)
	}()
	shapeCountsThorough = func() []int {
		var r []int
		for i := 1; i <= 600; i++ {
			r = append(r, i)
		}
		return append(r, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4912, 4913, 4914, 10000, 65535, 65536, 65537)
	}()
)

func shapeCounts(c *Ctx) []int {
	if c.thorough {
		return shapeCountsThorough
	}
	return shapeCountsQuick
}

func chooseShape(c *Ctx) (n, ns int) {
	counts := shapeCounts(c)
	n = counts[c.Choose("count", len(counts))]
	k := c.Choose("nodeSize", len(alphaNode)+3)
	if k < len(alphaNode) {
		ns = alphaNode[k]
	} else {
		ns = n - 1 + (k - len(alphaNode))
		if ns < 2 || ns > 65535 {
			c.Stop()
		}
	}
	return
}

// searchShapes: every tree shape up to a few hundred references and shapes
// around the powers of usual node sizes, in several spatial layouts.
func searchShapes(c *Ctx) {
	n, ns := chooseShape(c)
	k := c.Choose("layout", numLayouts)
	op := c.Choose("offsets", 2) * 2
	refs := layoutRefs(k, n, op)
	t := mustTree(c, refs, ns)
	checkTreeInfo(c, t, refs, ns)
	qs := layoutQueries(refs, pickInt(c, 24, 60))
	total := 0
	for _, q := range qs {
		r := t.Search(q)
		total += len(r)
		checkSearch(c, fmt.Sprintf("Search (node size %d, layout %d)", ns, k), r, refs, q)
	}
	c.Step(len(qs))
	c.Eval(len(qs))
	c.StateStr(fmt.Sprint(n, ns, k, op, total))
	c.Logf("%d queries, %d matches", len(qs), total)
}

// searchExtreme: pairs of boxes and queries over infinities, zeros of both
// signs, subnormal and largest numbers.
func searchExtreme(c *Ctx) {
	n := 1 + c.Choose("n", 2)
	var refs []Ref
	for i, k := range multiset(c, n, len(boxesExtr), false) {
		refs = append(refs, Ref{Box: boxesExtr[k], Offset: int64(-i)})
	}
	refs = sortedCopy(refs)
	t := mustTree(c, refs, 2)
	checkTreeInfo(c, t, refs, 2)
	var sig []byte
	for _, q := range boxesExtr {
		r := t.Search(q)
		checkSearch(c, "Search", r, refs, q)
		sig = append(sig, byte(len(r)))
	}
	c.Step(len(boxesExtr))
	c.Eval(len(boxesExtr))
	c.StateBytes(sig)
}

// searchHistory interleaves every operation on one tree.
func searchHistory(c *Ctx) {
	n := []int{1, 5, 9}[c.Choose("n", 3)]
	ns := []int{2, 3}[c.Choose("nodeSize", 2)]
	refs := layoutRefs(1, n, 1)
	t := mustTree(c, refs, ns)
	ref := buildRefTree(refs, ns)
	want := ref.bytes()
	qs := []Box{bx(0, 0, 0.5, 0.5), bx(1, 1, 1, 1), bx(-1, -1, 9, 9), bx(8, 8, 9, 9), emptyBox, bx(0, 1.5, 9, 1.6)}
	depth := pickInt(c, 4, 5)
	for i := 0; i < depth; i++ {
		switch op := c.Choose("op", len(qs)+2); op {
		case len(qs):
			var b bytes.Buffer
			m, err := t.Marshal(&b)
			if err != nil || m != len(want) || sameNodes(b.Bytes(), want) != "" {
				c.Fail("Marshal after %d operations: n=%d err=%v %s", i, m, err, sameNodes(b.Bytes(), want))
			}
		case len(qs) + 1:
			checkTreeInfo(c, t, refs, ns)
			_ = t.String()
		default:
			checkSearch(c, fmt.Sprintf("Search (operation %d, node size %d)", i, ns), t.Search(qs[op]), refs, qs[op])
		}
		c.Step(1)
	}
	c.StateStr(fmt.Sprint(n, ns, values(c.trace)))
}

// ---- P03

// seekOnce runs a streaming search and checks everything about it.
func seekOnce(c *Ctx, idx []byte, refs []Ref, ns int, q Box, start int, f func(want, avail int) (int, error), what string) {
	data := make([]byte, 0, start+len(idx)+50)
	data = append(data, bytes.Repeat([]byte{0xEE}, start)...)
	data = append(data, idx...)
	data = append(data, bytes.Repeat([]byte{0xDD}, 50)...)
	s := &src{data: data, pos: int64(start), onRead: f}
	bad := ""
	s.touched = func(from, to int64) {
		if to > from && (from < int64(start) || to > int64(start+len(idx))) {
			bad = fmt.Sprintf("read bytes [%d,%d) outside of the index [%d,%d)", from, to, start, start+len(idx))
		}
	}
	r, err := packedrtree.Seek(s.asReadSeeker(), len(refs), uint16(ns), q)
	c.Step(1)
	c.Eval(1)
	if err != nil {
		c.Fail("%s: Seek(%s) failed: %v", what, boxStr(q), err)
	}
	if bad != "" {
		c.Fail("%s: Seek(%s) %s", what, boxStr(q), bad)
	}
	if s.pos != int64(start+len(idx)) {
		c.Fail("%s: Seek(%s) left the stream at %d, expected %d", what, boxStr(q), s.pos, start+len(idx))
	}
	checkSearch(c, what+": Seek", r, refs, q)
	for i := 1; i < len(r); i++ {
		if r[i].Offset < r[i-1].Offset {
			// Not in offset order: the known finding covers index order only.
			for j := 1; j < len(r); j++ {
				if r[j].RefIndex <= r[j-1].RefIndex {
					c.Fail("%s: Seek(%s) results are neither in offset nor in index order: %v", what, boxStr(q), r)
				}
			}
			for j := 1; j < len(refs); j++ {
				if refs[j].Offset < refs[j-1].Offset {
					c.Known("seek-index-order", "%s: Seek(%s) results are not in ascending offset order: %v", what, boxStr(q), r)
					return
				}
			}
			c.Fail("%s: Seek(%s) results are not in ascending offset order: %v", what, boxStr(q), r)
		}
	}
}

// seekGrid: as search-grid, through a stream, from several start positions.
func seekGrid(c *Ctx) {
	var refs []Ref
	small := c.Bool("alphabet")
	if small {
		n := 4 + c.Choose("n", pickInt(c, 3, 5))
		for i, k := range multiset(c, n, len(grid9), false) {
			refs = append(refs, Ref{Box: grid9[k], Offset: int64(i)})
		}
	} else {
		n := 1 + c.Choose("n", 3)
		for i, k := range multiset(c, n, len(grid36), false) {
			refs = append(refs, Ref{Box: grid36[k], Offset: int64(i)})
		}
	}
	start := []int{0, 9}[c.Choose("start", 2)]
	refs = sortedCopy(refs)
	offsetPattern(c.Choose("offsets", 2), refs)
	for ns := 2; ns <= 3; ns++ {
		idx := buildRefTree(refs, ns).bytes()
		for i, q := range query225 {
			if !c.thorough && len(refs) > 2 && i%3 != 0 {
				continue
			}
			seekOnce(c, idx, refs, ns, q, start, nil, fmt.Sprintf("node size %d", ns))
		}
	}
	c.StateStr(refsStr(refs))
}

// seekShapes: as search-shapes, through a stream in several chunkings.
func seekShapes(c *Ctx) {
	n := 1 + c.Choose("n", pickInt(c, 40, 130))
	if c.Bool("large") {
		n = []int{255, 256, 257, 272, 273, 300, 1000, 4097}[c.Choose("largeN", pickInt(c, 6, 8))]
		if len(c.trace) > 0 && c.trace[0].v != 0 {
			c.Stop()
		}
	}
	ns := []int{2, 3, 4, 5, 15, 16, 17, 64, 65535}[c.Choose("nodeSize", 9)]
	k := c.Choose("layout", numLayouts)
	op := c.Choose("offsets", 4)
	start := []int{0, 1, 8, 1000}[c.Choose("start", 4)]
	refs := layoutRefs(k, n, op)
	idx := buildRefTree(refs, ns).bytes()
	qs := layoutQueries(refs, 2)
	if c.thorough {
		qs = layoutQueries(refs, 6)
	}
	mem := mustTree(c, refs, ns)
	for _, q := range qs {
		for ch := 0; ch < numChunkings; ch++ {
			if !c.thorough && ch > 0 && (n%5 != 1 && n != 12) {
				break
			}
			name, f := chunking(ch)
			seekOnce(c, idx, refs, ns, q, start, f, fmt.Sprintf("n=%d node size %d start %d delivery %q", n, ns, start, name))
		}
		checkSearch(c, "Search", mem.Search(q), refs, q)
	}
	c.StateStr(fmt.Sprint(n, ns, k, op, start))
}

// devRead returns a read hook in which each read may deviate from delivering
// everything at once.
func devRead(c *Ctx) func(want, avail int) (int, error) {
	return func(want, avail int) (int, error) {
		n := want
		if avail < n {
			n = avail
		}
		var err error
		if n == 0 && want > 0 {
			err = errEOF
		}
		switch c.Dev("read", 6) {
		case 1:
			if n > 1 {
				n = 1
			}
		case 2:
			if n > 1 {
				n = n - 1
			}
		case 3:
			if n > 1 {
				n = n / 2
			}
		case 4:
			n, err = 0, nil
		case 5:
			if n == avail && n > 0 {
				err = errEOF
			} else if n > 40 {
				n = 40
			}
		}
		return n, err
	}
}

// seekDelivery: every read of a streaming search may be short, empty or
// come with io.EOF.
func seekDelivery(c *Ctx) {
	n := []int{1, 3, 7, 12}[c.Choose("n", 4)]
	ns := []int{2, 3, 4}[c.Choose("nodeSize", 3)]
	k := []int{0, 1, 7}[c.Choose("layout", 3)]
	refs := layoutRefs(k, n, 0)
	qs := []Box{bx(-1e9, -1e9, 1e9, 1e9), refs[0].Box, refs[n-1].Box, bx(1e12, 1e12, 1e12, 1e12)}
	q := qs[c.Choose("query", len(qs))]
	idx := buildRefTree(refs, ns).bytes()
	seekOnce(c, idx, refs, ns, q, 5, devRead(c), fmt.Sprintf("n=%d node size %d layout %d", n, ns, k))
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// ---- P04

// unmarshalOnce loads an index from a stream with trailing bytes and checks
// position, re-serialization and searches.
func unmarshalOnce(c *Ctx, want []byte, refs []Ref, ns int, f func(want, avail int) (int, error), what string, qs []Box) {
	data := append(append(make([]byte, 0, len(want)+8), want...), 1, 2, 3, 4, 5)
	s := &src{data: data, onRead: f}
	t, err := packedrtree.Unmarshal(s.asReader(false, false), len(refs), uint16(ns))
	c.Step(1)
	c.Eval(1)
	if err != nil {
		c.Fail("%s: Unmarshal failed: %v", what, err)
	}
	if s.pos != int64(len(want)) {
		c.Fail("%s: Unmarshal consumed %d bytes, expected %d", what, s.pos, len(want))
	}
	checkTreeInfo(c, t, refs, ns)
	var b bytes.Buffer
	n, err := t.Marshal(&b)
	c.Step(1)
	if err != nil || n != len(want) || !bytes.Equal(b.Bytes(), want) {
		c.Fail("%s: re-serialization differs: n=%d err=%v: %s", what, n, err, sameNodes(b.Bytes(), want))
	}
	for _, q := range qs {
		checkSearch(c, what+": Search after Unmarshal", t.Search(q), refs, q)
		c.Step(1)
	}
}

func marshalCheck(c *Ctx, refs []Ref, ns int, what string) []byte {
	t := mustTree(c, refs, ns)
	want := buildRefTree(refs, ns).bytes()
	sz, err := packedrtree.Size(len(refs), uint16(ns))
	if err != nil || sz != len(want) {
		c.Fail("%s: Size = %d, %v; expected %d", what, sz, err, len(want))
	}
	var b bytes.Buffer
	n, err := t.Marshal(&b)
	c.Step(2)
	c.Eval(1)
	if err != nil || n != len(want) {
		c.Fail("%s: Marshal returned %d, %v; expected %d", what, n, err, len(want))
	}
	if d := sameNodes(b.Bytes(), want); d != "" {
		c.Fail("%s: Marshal wrote the wrong bytes: %s", what, d)
	}
	return want
}

// serializeShapes: every tree shape up to a few hundred references, several
// layouts and offset patterns, all chunkings.
func serializeShapes(c *Ctx) {
	n, ns := chooseShape(c)
	k := c.Choose("layout", numLayouts)
	op := c.Choose("offsets", 4)
	if n > 1100 && (k > 1 || op > 1) {
		c.Stop()
	}
	refs := layoutRefs(k, n, op)
	what := fmt.Sprintf("n=%d node size %d layout %d", n, ns, k)
	want := marshalCheck(c, refs, ns, what)
	qs := layoutQueries(refs, 1)
	for ch := 0; ch < numChunkings; ch++ {
		if ch > 0 && (op > 0 || k > 1 && k < 7) {
			break
		}
		name, f := chunking(ch)
		unmarshalOnce(c, want, refs, ns, f, what+" delivery "+name, qs)
	}
	c.StateStr(fmt.Sprint(n, ns, k, op))
}

// serializeLarge covers indexes around the implementation's chunk sizes.
func serializeLarge(c *Ctx) {
	ns := []int{2, 16, 65535}[c.Choose("nodeSize", 3)]
	total := []int{65535, 65536, 65537, 65536*2 - 1, 65536 * 2, 65536*2 + 1, 65536*3 + 5}[c.Choose("nodes", 7)]
	// Largest reference count whose tree has at most that many nodes.
	n := total
	for refTotalNodes(n, ns) > total {
		n--
	}
	n += c.Choose("plus", 2)
	refs := make([]Ref, n)
	for i := range refs {
		f := float64(i)
		refs[i] = Ref{Box: bx(f, 1, f+0.5, 2), Offset: int64(i) * 7}
	}
	// Already in Hilbert order or not: serialization does not depend on it,
	// and neither do searches, which prune by bounding boxes.
	what := fmt.Sprintf("n=%d node size %d", n, ns)
	want := marshalCheck(c, refs, ns, what)
	qs := []Box{bx(0, 0, 10, 3), bx(float64(n-1), 0, float64(n), 3), bx(65530, 1, 65540, 1)}
	chs := []int{0, 3, 5, 8}
	name, f := chunking(chs[c.Choose("delivery", len(chs))])
	unmarshalOnce(c, want, refs, ns, f, what+" delivery "+name, qs)
	for _, q := range qs {
		s := &src{data: want}
		r, err := packedrtree.Seek(s.asReadSeeker(), n, uint16(ns), q)
		if err != nil {
			c.Fail("%s: Seek: %v", what, err)
		}
		checkSearch(c, what+": Seek", r, refs, q)
		c.Step(1)
	}
	c.StateStr(fmt.Sprint(n, ns))
}

// serializeGrid: every list of references over the boxes of a small grid.
func serializeGrid(c *Ctx) {
	n := 1 + c.Choose("n", 3)
	var refs []Ref
	for i, k := range multiset(c, n, len(grid36), n < 3) {
		refs = append(refs, Ref{Box: grid36[k], Offset: int64(i) << 33})
	}
	refs = sortedCopy(refs)
	for ns := 2; ns <= 3; ns++ {
		want := marshalCheck(c, refs, ns, "grid")
		unmarshalOnce(c, want, refs, ns, nil, "grid", []Box{bx(0, 0, 0, 0), bx(0.5, 0.5, 3, 3)})
	}
	c.StateStr(refsStr(refs))
}

// unmarshalDelivery: every read while loading an index may be short, empty
// or come with io.EOF.
func unmarshalDelivery(c *Ctx) {
	n := []int{1, 2, 5, 9}[c.Choose("n", 4)]
	ns := []int{2, 3, 16}[c.Choose("nodeSize", 3)]
	refs := layoutRefs(1, n, 0)
	want := buildRefTree(refs, ns).bytes()
	unmarshalOnce(c, want, refs, ns, devRead(c), fmt.Sprintf("n=%d node size %d", n, ns), nil)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// deepParams are reference counts and node sizes around which the index gets
// another level.
func deepParams(c *Ctx) (n, ns int) {
	ns = []int{2, 3, 4, 5, 7, 16, 100, 1000}[c.Choose("node size", 8)]
	max := pickInt(c, 1<<18, 1<<20)
	if ns > 2 {
		max = pickInt(c, 1<<16, 1<<19)
	}
	levels := 0
	for k := ns; k <= max/ns; k *= ns {
		levels++
	}
	k := ns
	for i := c.Choose("levels", levels+1); i > 0; i-- {
		k *= ns
	}
	n = k - 1 + c.Choose("count", 3)
	if n == 1 {
		n = 2
	}
	return
}

// deepRefs are n disjoint boxes in a row.
func deepRefs(n int) []Ref {
	refs := make([]Ref, n)
	for i := range refs {
		refs[i] = Ref{Box: bx(float64(i), 0, float64(i)+0.5, 1), Offset: int64(i) * 48}
	}
	return refs
}

// deepQueries give ranges of references.
func deepQueries(n int) [][2]int {
	r := [][2]int{{0, 0}, {n - 1, n - 1}, {n / 2, n/2 + 1}, {n - 2, n - 1}, {0, 3}}
	for k := 2; k < n; k *= 2 {
		r = append(r, [2]int{k - 1, k}, [2]int{n - k, n - k})
	}
	return r
}

func checkDeep(c *Ctx, what string, n int, q [2]int, got Results) {
	lo, hi := q[0], q[1]
	if hi >= n {
		hi = n - 1
	}
	if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].RefIndex < got[j].RefIndex }) {
		got = byIndex(got)
	}
	ok := len(got) == hi-lo+1
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].RefIndex == lo+i && got[i].Offset == int64(lo+i)*48
	}
	c.Check(ok, "%s for references %d to %d: found %v", what, lo, hi, got)
	c.Eval(1)
}

// searchDeep: node size 2 and 3 with up to 2^17 references, sizes around
// every power; queries at the edges of every level.
func searchDeep(c *Ctx) {
	n, ns := deepParams(c)
	t := mustTree(c, deepRefs(n), ns)
	c.Check(t.Bounds() == bx(0, 0, float64(n)-0.5, 1), "Bounds of %d references with node size %d: %v", n, ns, t.Bounds())
	for _, q := range deepQueries(n) {
		checkDeep(c, fmt.Sprintf("search of %d references with node size %d", n, ns), n, q, t.Search(bx(float64(q[0]), 0, float64(q[1]), 0)))
		c.Step(1)
	}
	all := t.Search(bx(0, 0, float64(n), 0))
	checkDeep(c, fmt.Sprintf("search of %d references with node size %d", n, ns), n, [2]int{0, n - 1}, all)
	c.StateStr(fmt.Sprint(n, ns))
}

// seekDeep: as search-deep, through a stream.
func seekDeep(c *Ctx) {
	n, ns := deepParams(c)
	b := buildRefTree(deepRefs(n), ns).bytes()
	for _, q := range deepQueries(n) {
		s := &src{data: b}
		got, err := packedrtree.Seek(s.asReadSeeker(), n, uint16(ns), bx(float64(q[0]), 0, float64(q[1]), 0))
		c.Check(err == nil, "Seek of %d references with node size %d: %v", n, ns, err)
		checkDeep(c, fmt.Sprintf("Seek of %d references with node size %d", n, ns), n, q, got)
		c.Check(s.pos == int64(len(b)), "Seek of %d references with node size %d leaves the stream at %d", n, ns, s.pos)
		c.Step(1)
	}
	c.StateStr(fmt.Sprint(n, ns))
}

// serializeDeep: as search-deep, through serialization and back.
func serializeDeep(c *Ctx) {
	n, ns := deepParams(c)
	refs := deepRefs(n)
	want := buildRefTree(refs, ns).bytes()
	t := mustTree(c, refs, ns)
	var buf bytes.Buffer
	m, err := t.Marshal(&buf)
	c.Check(err == nil && m == len(want), "Marshal of %d references with node size %d: %d, %v", n, ns, m, err)
	c.Check(bytes.Equal(buf.Bytes(), want), "Marshal of %d references with node size %d: wrong bytes", n, ns)
	r := bytes.NewReader(append(want, 1, 2, 3))
	u, err := packedrtree.Unmarshal(r, n, uint16(ns))
	c.Check(err == nil && r.Len() == 3, "Unmarshal of %d references with node size %d: %v, %d bytes left", n, ns, err, r.Len())
	c.Check(u.NumRefs() == n && int(u.NodeSize()) == ns && u.Bounds() == t.Bounds(), "Unmarshal of %d references with node size %d: %v", n, ns, u)
	for _, q := range deepQueries(n) {
		checkDeep(c, fmt.Sprintf("search of a loaded index of %d references with node size %d", n, ns), n, q, u.Search(bx(float64(q[0]), 0, float64(q[1]), 0)))
	}
	buf.Reset()
	_, err = u.Marshal(&buf)
	c.Check(err == nil && bytes.Equal(buf.Bytes(), want[:len(want):len(want)]), "loaded index of %d references with node size %d: serializes differently", n, ns)
	c.Step(4)
	c.Eval(1)
	c.StateStr(fmt.Sprint(n, ns))
}

// resultsSort: every list of up to five (thorough: six) results with
// offsets from all magnitudes, equal ones included, through the
// sort.Interface methods.
func resultsSort(c *Ctx) {
	offs := []int64{0, 1, 1 << 31, 1<<32 + 1, math.MaxInt64}
	n := c.Choose("results", pickInt(c, 6, 7))
	rs := Results{}
	for i := 0; i < n; i++ {
		rs = append(rs, packedrtree.Result{Offset: offs[c.Choose("offset", len(offs))], RefIndex: i})
	}
	orig := append(Results{}, rs...)
	c.Check(rs.Len() == n, "Len of %v: %d", rs, rs.Len())
	for i := range rs {
		for j := range rs {
			c.Check(rs.Less(i, j) == (rs[i].Offset < rs[j].Offset), "Less(%d, %d) of %v: %v", i, j, rs, rs.Less(i, j))
			rs.Swap(i, j)
			c.Check(rs[i] == orig[j] && rs[j] == orig[i], "Swap(%d, %d) of %v: %v", i, j, orig, rs)
			rs.Swap(i, j)
			c.Check(sameResults(rs, orig), "Swap(%d, %d) twice changes %v to %v", i, j, orig, rs)
		}
	}
	sort.Sort(rs)
	for i := 1; i < n; i++ {
		c.Check(rs[i-1].Offset <= rs[i].Offset, "%v sorted: %v", orig, rs)
	}
	c.Check(sameResults(byIndex(rs), orig), "%v sorted: %v", orig, rs)
	c.Step(2 + 5*n*n)
	c.Eval(1)
	c.StateStr(fmt.Sprint(orig))
}
