// P14 (Hilbert sort), P15 (index size), P16 (box algebra).

package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P14", Name: "hilbert-reference", Run: hilbertReference})
	register(&Family{Prop: "P14", Name: "hilbert-cells", Run: hilbertCells})
	register(&Family{Prop: "P14", Name: "hilbert-scaling", Run: hilbertScaling})
	register(&Family{Prop: "P14", Name: "hilbert-precise", Run: hilbertPrecise})
	register(&Family{Prop: "P14", Name: "hilbert-lists", Run: hilbertLists})
	register(&Family{Prop: "P14", Name: "hilbert-degenerate", Run: hilbertDegenerate})
	register(&Family{Prop: "P14", Name: "hilbert-large", Run: hilbertLarge})
	register(&Family{Prop: "P14", Name: "hilbert-file-large", Run: hilbertFileLarge})
	register(&Family{Prop: "P14", Name: "hilbert-file", Run: hilbertFile})
	register(&Family{Prop: "P14", Name: "hilbert-blocks", Run: hilbertBlocks})
	for _, v := range []string{"", "386"} {
		suffix := ""
		if v != "" {
			suffix = "-" + v
		}
		register(&Family{Prop: "P15", Name: "size-small" + suffix, Variant: v, Run: sizeSmall})
		register(&Family{Prop: "P15", Name: "size-powers" + suffix, Variant: v, Run: sizePowers})
		register(&Family{Prop: "P15", Name: "size-limit" + suffix, Variant: v, Run: sizeLimit})
		register(&Family{Prop: "P15", Name: "size-bits" + suffix, Variant: v, Run: sizeBits})
		register(&Family{Prop: "P15", Name: "size-invalid" + suffix, Variant: v, Run: sizeInvalid})
	}
	register(&Family{Prop: "P16", Name: "box-pairs", Run: boxPairs})
	register(&Family{Prop: "P16", Name: "box-triples", Run: boxTriples})
	register(&Family{Prop: "P16", Name: "box-points", Run: boxPoints})
	register(&Family{Prop: "P16", Name: "box-sequences", Run: boxSequences})
	register(&Family{Prop: "P16", Name: "box-string", Run: boxString})
	register(&Family{Prop: "P22", Name: "summary-index", Run: summaryIndex})
}

// ---- P14

// refHilbert is the position of a cell on the Hilbert curve which starts in
// the (0,0) corner and ends in the (max,0) corner, by recursion over
// quadrants.
func refHilbert(x, y uint32, order int) uint64 {
	if order == 0 {
		return 0
	}
	half := uint32(1) << (order - 1)
	cells := uint64(half) * uint64(half)
	switch {
	case x < half && y < half: // first quadrant: transposed
		return refHilbert(y, x, order-1)
	case x < half: // second
		return cells + refHilbert(x, y-half, order-1)
	case y >= half: // third
		return 2*cells + refHilbert(x-half, y-half, order-1)
	default: // fourth: anti-transposed
		return 3*cells + refHilbert(half-1-y, half-1-(x-half), order-1)
	}
}

// hilbertReference checks that the reference is a Hilbert curve: a bijection
// whose consecutive positions are adjacent cells (for orders up to a bound;
// the recursion is uniform in the order).
func hilbertReference(c *Ctx) {
	order := c.Choose("order", pickInt(c, 10, 12)) + 1
	n := 1 << order
	pos := make([][2]int32, n*n)
	seen := make([]bool, n*n)
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			h := refHilbert(uint32(x), uint32(y), order)
			c.Check(h < uint64(n*n) && !seen[h], "reference curve of order %d: position %d twice", order, h)
			seen[h] = true
			pos[h] = [2]int32{int32(x), int32(y)}
		}
	}
	for i := 1; i < len(pos); i++ {
		dx, dy := pos[i][0]-pos[i-1][0], pos[i][1]-pos[i-1][1]
		c.Check(dx*dx+dy*dy == 1, "reference curve of order %d: positions %d and %d are not adjacent", order, i-1, i)
	}
	c.Check(pos[0] == [2]int32{0, 0} && pos[len(pos)-1] == [2]int32{int32(n - 1), 0}, "reference curve of order %d: wrong ends", order)
	c.Eval(n * n)
	c.StateStr(fmt.Sprint(order))
}

// cellBox is a box whose center is safely inside a cell of the grid over
// bounds (0,0)-(65535,65535).
func cellBox(x, y uint32, k int) Box {
	at := func(v uint32) float64 {
		if v == 0xffff {
			return 0xffff
		}
		return float64(v) + 0.5
	}
	cx, cy := at(x), at(y)
	w, h := float64(k%3), float64(k%4)
	return bx(cx-w, cy-h, cx+w, cy+h)
}

var cellBounds = bx(0, 0, 65535, 65535)

// checkOrder sorts the cells (given in some order) and checks that the result
// is in exactly the order of the reference.
func checkCells(c *Ctx, what string, cells []uint32) {
	refs := make([]Ref, len(cells))
	for i, v := range cells {
		refs[i] = Ref{Box: cellBox(v>>16, v&0xffff, i), Offset: int64(v)}
	}
	packedrtree.HilbertSort(refs, cellBounds)
	c.Step(1)
	c.Eval(len(cells))
	// Cells are distinct, so descending positions also mean each is there
	// once if all results are cells that were put in.
	var sum, want uint64
	prev := uint64(math.MaxUint64)
	for i := range refs {
		v := uint32(refs[i].Offset)
		h := refHilbert(v>>16, v&0xffff, 16)
		if h >= prev {
			c.Fail("%s: cell (%d,%d), position %d, sorted after position %d", what, v>>16, v&0xffff, h, prev)
		}
		prev = h
		sum += uint64(v) * 0x9e3779b97f4a7c15
		want += uint64(cells[i]) * 0x9e3779b97f4a7c15
		b := refs[i].Box
		if math.Abs((b.XMin+b.XMax)/2-float64(v>>16)) > 0.5 || math.Abs((b.YMin+b.YMax)/2-float64(v&0xffff)) > 0.5 {
			c.Fail("%s: a reference was torn apart: box %v with offset of cell (%d,%d)", what, b, v>>16, v&0xffff)
		}
	}
	c.Check(sum == want, "%s: not the same references after sorting", what)
}

// hilbertCells sorts the cells of grids made of some bit positions of the
// coordinates: all values of a window of bits, with the others fixed.
func hilbertCells(c *Ctx) {
	window := pickInt(c, 5, 7)
	shift := c.Choose("bit window", 17-window)
	pats := []uint32{0, 0xffff, 0x5555, 0xaaaa, 0x3333, 0x0ff0, 0x1234, 0xc3a5}
	px := pats[c.Choose("other x bits", pickInt(c, 4, 8))]
	py := pats[c.Choose("other y bits", pickInt(c, 4, 8))]
	mask := uint32(1<<window-1) << shift
	var cells []uint32
	for x := uint32(0); x < 1<<window; x++ {
		for y := uint32(0); y < 1<<window; y++ {
			cells = append(cells, (px&^mask|x<<shift)<<16|(py&^mask|y<<shift))
		}
	}
	checkCells(c, "grid", cells)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hilbertBlocks sorts aligned blocks of cells, and the extreme cells of all
// blocks together: the thorough tier covers all 2^32 cells.
func hilbertBlocks(c *Ctx) {
	bits := pickInt(c, 4, 8) // block side
	n := 1 << (16 - bits)
	if !c.thorough {
		// Blocks along the diagonals and edges, and the overall order.
		n = 1 << 8
	}
	i := c.Choose("block row", n+1)
	if i == n {
		// The first and last cell of each block of 256 x 256.
		var cells []uint32
		for x := uint32(0); x < 256; x++ {
			for y := uint32(0); y < 256; y++ {
				lo, hi := uint64(math.MaxUint64), uint64(0)
				var first, last uint32
				for _, dx := range []uint32{0, 255} {
					for _, dy := range []uint32{0, 255} {
						h := refHilbert(x<<8|dx, y<<8|dy, 16)
						v := (x<<8|dx)<<16 | (y<<8 | dy)
						if h < lo {
							lo, first = h, v
						}
						if h >= hi {
							hi, last = h, v
						}
					}
				}
				cells = append(cells, first, last)
			}
		}
		checkCells(c, "block ends", cells)
		return
	}
	var cols []int
	if c.thorough {
		cols = []int{c.Choose("block column", n)}
	} else {
		j := c.Choose("block column", 8)
		cols = []int{[]int{i, 255 - i, 0, 255, 127, 128, (i * 7) % 256, (i * 91) % 256}[j]}
	}
	for _, j := range cols {
		var cells []uint32
		side := uint32(1) << bits
		x0, y0 := uint32(i)*65536/uint32(n), uint32(j)*65536/uint32(n)
		// Handing the cells over in the expected order makes sorting
		// linear, and still fails if any pair is out of order.
		cells = make([]uint32, side*side)
		for x := uint32(0); x < side; x++ {
			for y := uint32(0); y < side; y++ {
				h := refHilbert(x0+x, y0+y, 16)
				cells[uint64(side*side-1)-h%uint64(side*side)] = (x0+x)<<16 | (y0 + y)
			}
		}
		checkCells(c, fmt.Sprintf("block at (%d,%d)", x0, y0), cells)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// safeCell returns the grid coordinate of a center by exact arithmetic, and
// whether it is safely inside the cell (so that no rounding matters).
func safeCell(lo, hi, min, width float64) (uint32, bool) {
	if width == 0 {
		return 0, true
	}
	if math.IsInf(lo, 0) || math.IsInf(hi, 0) || math.IsInf(min, 0) || math.IsInf(width, 0) {
		return 0, false
	}
	r := func(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
	v := new(big.Rat).Add(r(lo), r(hi))
	v.Quo(v, big.NewRat(2, 1))
	v.Sub(v, r(min))
	v.Mul(v, big.NewRat(65535, 1))
	v.Quo(v, r(width))
	f, _ := v.Float64()
	n := math.Floor(f)
	if f == 0 || f == 65535 {
		return uint32(f), v.IsInt()
	}
	return uint32(n), f-n > 1e-4 && f-n < 1-1e-4 && f > 0 && f < 65535
}

// refPosition is the reference position of a box center over bounds.
func refPosition(b, bounds Box) (uint64, bool) {
	x, ok1 := safeCell(b.XMin, b.XMax, bounds.XMin, bounds.XMax-bounds.XMin)
	y, ok2 := safeCell(b.YMin, b.YMax, bounds.YMin, bounds.YMax-bounds.YMin)
	return refHilbert(x, y, 16), ok1 && ok2
}

// checkSorted sorts refs and checks the permutation and the order.
func checkSorted(c *Ctx, what string, refs []Ref, bounds Box) {
	got := append([]Ref{}, refs...)
	packedrtree.HilbertSort(got, bounds)
	c.Step(1)
	c.Eval(len(refs))
	count := map[Ref]int{}
	for _, r := range refs {
		count[r]++
	}
	for _, r := range got {
		count[r]--
		if count[r] < 0 {
			c.Fail("%s: after sorting there are more of %v than before", what, r)
		}
	}
	prev, prevRef := uint64(math.MaxUint64), Ref{}
	for _, r := range got {
		h, ok := refPosition(r.Box, bounds)
		if !ok {
			continue
		}
		if h > prev {
			c.Fail("%s: %v, position %d, sorted after %v, position %d, over %v", what, r, h, prevRef, prev, bounds)
		}
		prev, prevRef = h, r
	}
}

var scalingBounds = []Box{
	bx(-180, -90, 180, 90), bx(0, 0, 1, 1), bx(-1, -1, 1, 1), bx(1e6, 2e6, 1e6+1, 2e6+3), bx(-1e300, -1e300, 1e300, 1e300),
	bx(-7, 3, 1e9, 3.5), bx(1e-300, 1e-300, 3e-300, 2e-300), bx(500000, 5000000, 834000, 9300000), bx(-3, -4, -1, -2),
	bx(0, 0, math.MaxFloat32, 1),
}

// hilbertScaling: pairs of boxes over bounds of many scales and origins.
func hilbertScaling(c *Ctx) {
	b := scalingBounds[c.Choose("bounds", len(scalingBounds))]
	n := pickInt(c, 9, 17)
	frac := func(i int) float64 { // the first and the last are the limits
		return []float64{0, 1, 0.5000123, 0.25003, 0.7499, 0.1, 0.9, 1.0 / 3, 0.99999, 0.000013, 0.6180339, 0.374, 0.8751, 0.06251, 0.00007, 0.4375001, 0.01}[i]
	}
	pt := func(i, j int) (x, y float64) {
		x, y = b.XMin+(b.XMax-b.XMin)*frac(i), b.YMin+(b.YMax-b.YMin)*frac(j)
		if i == 1 {
			x = b.XMax
		}
		if j == 1 {
			y = b.YMax
		}
		return
	}
	x1, y1 := pt(c.Choose("x1", n), c.Choose("y1", n))
	var refs []Ref
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			x2, y2 := pt(i, j)
			w, h := math.Min(x2-b.XMin, b.XMax-x2)*float64(i%2), math.Min(y2-b.YMin, b.YMax-y2)*float64(j%2)
			r := []Ref{{Box: bx(x1, y1, x1, y1), Offset: 1}, {Box: bx(x2-w, y2-h, x2+w, y2+h), Offset: 2}}
			checkSorted(c, "pair", r, b)
			r[0], r[1] = r[1], r[0]
			checkSorted(c, "pair", r, b)
			refs = append(refs, r...)
		}
	}
	checkSorted(c, "all", refs, b)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hilbertPrecise: centers close to the limits of every column and every row
// of cells, in all of the grid.
func hilbertPrecise(c *Ctx) {
	const chunk = 512
	first := c.Choose("first cells", 65536/chunk) * chunk
	rows := c.Bool("rows")
	b := []Box{bx(0, 0, 65535, 65535), bx(-180, -90, 180, 90), bx(1e6, 2e6, 1e6+1, 2e6+3), bx(-1e-20, -1, 3e-20, 1e20)}[c.Choose("bounds", 4)]
	other := []float64{0.2, 777.7, 32767.3, 65534.6}[c.Choose("other", pickInt(c, 2, 4))]
	var refs []Ref
	for i := first; i < first+chunk && i < 65535; i++ {
		for _, f := range []float64{0.0005, 0.5, 0.9995} {
			x, y := float64(i)+f, other
			if rows {
				x, y = y, x
			}
			x, y = b.XMin+(b.XMax-b.XMin)*(x/65535), b.YMin+(b.YMax-b.YMin)*(y/65535)
			refs = append(refs, Ref{Box: bx(x, y, x, y), Offset: int64(len(refs))})
		}
	}
	checkSorted(c, "close to cell limits", refs, b)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hilbertLists: all lists (with repetitions and in every order) over an
// alphabet of boxes.
func hilbertLists(c *Ctx) {
	var alpha []Box
	for _, x := range []float64{0, 3, 7} {
		for _, y := range []float64{0, 4, 7} {
			alpha = append(alpha, bx(x, y, x, y))
		}
	}
	alpha = append(alpha, bx(0, 0, 7, 7), bx(2, 2, 5, 5), bx(1, 5, 2, 7))
	bounds := []Box{bx(0, 0, 7, 7), bx(-1, -2, 8, 9), bx(0, 0, 7, 1000)}[c.Choose("bounds", 3)]
	n := c.Choose("n", pickInt(c, 5, 6))
	var refs []Ref
	for i := 0; i < n; i++ {
		k := c.Choose("box", len(alpha))
		refs = append(refs, Ref{Box: alpha[k], Offset: int64(i * k % 3)})
	}
	checkSorted(c, "list", refs, bounds)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hilbertFile: the index a file writer builds of all lists of features has
// its leaves in curve order over the bounds of all features.
func hilbertFile(c *Ctx) {
	var alpha []Box
	for _, x := range []float64{0, 3.1, 7} {
		for _, y := range []float64{0, 4.3, 7} {
			alpha = append(alpha, bx(x, y, x, y))
		}
	}
	alpha = append(alpha, bx(0, 0, 7, 7), bx(2.2, 2.4, 5, 5.1), bx(1, 5, 2, 7.5))
	nodeSize := []int{2, 3, 16}[c.Choose("node size", 3)]
	ptrs := c.Bool("pointers")
	n := c.Choose("n", pickInt(c, 4, 5)) + 1
	var fs []flat.Feature
	var ps []*flat.Feature
	for i := 0; i < n; i++ {
		b := alpha[c.Choose("box", len(alpha))]
		f := asFeature(encRoot(tbl{fGeometry: boxGeom(b), fProperties: []byte{byte(i)}}, 0))
		fs, ps = append(fs, *f), append(ps, f)
	}
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	_, err := w.Header(asHeader(encRoot(hdrTable(n, nodeSize, nil), 0)))
	c.Check(err == nil, "Header: %v", err)
	if ptrs {
		_, err = w.IndexDataPtr(ps)
	} else {
		_, err = w.IndexData(fs)
	}
	c.Check(err == nil, "IndexData: %v", err)
	c.Step(1)
	p, err := parseFile(s.buf)
	c.Check(err == nil, "the output is not a well-formed file: %v", err)
	checkCurveOrder(c, "index in file", leavesOf(p.index, n))
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hilbertFileLarge: the same with many features.
func hilbertFileLarge(c *Ctx) {
	n := pickInts(c, "n", []int{11, 12, 13, 17, 49, 50, 51, 100, 255, 256, 257, 1023, 1025, 4097, 40000, 65537, 110000}, []int{500, 20000, 131073, 1<<20 + 1})
	kind := c.Choose("layout", 6)
	nodeSize := []int{2, 16, 65535}[c.Choose("node size", 3)]
	ptrs := c.Bool("pointers")
	if n > 30000 && (kind != 1 && kind != 3 || (nodeSize == 16) != ptrs) {
		c.Stop()
	}
	fs := make([]flat.Feature, n)
	var ps []*flat.Feature
	var off int64
	refs := layoutRefs(kind, n, 0)
	for i := range refs {
		j := i * 7919 % n // A permutation, as 7919 is a prime and divides no n.
		fs[i] = *asFeature(encRoot(tbl{fGeometry: boxGeom(refs[j].Box), fProperties: []byte{byte(i)}}, 0))
		ps = append(ps, &fs[i])
	}
	want := make([]Ref, n)
	for i := range refs {
		want[i] = Ref{Box: refs[i*7919%n].Box, Offset: off}
		off += int64(len(fs[i].Table().Bytes))
	}
	s := &sink{}
	w := flatgeobuf.NewFileWriter(s.asWriter(false))
	_, err := w.Header(asHeader(encRoot(hdrTable(n, nodeSize, nil), 0)))
	c.Check(err == nil, "Header: %v", err)
	if ptrs {
		_, err = w.IndexDataPtr(ps)
	} else {
		_, err = w.IndexData(fs)
	}
	c.Check(err == nil && w.Close() == nil, "IndexData: %v", err)
	c.Step(1)
	p, err := parseFile(s.buf)
	c.Check(err == nil, "the output is not a well-formed file: %v", err)
	leaves := leavesOf(p.index, n)
	checkCurveOrder(c, "index in file", leaves)
	d := checkAutoIndex(p.index, want, nodeSize)
	c.Check(d == "", "index: %s", d)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// checkCurveOrder checks that references are in descending order of the
// curve over their own bounds.
func checkCurveOrder(c *Ctx, what string, refs []Ref) {
	bounds := emptyBox
	for _, r := range refs {
		bounds = refUnion(bounds, r.Box)
	}
	prev := uint64(math.MaxUint64)
	for i, r := range refs {
		h, ok := refPosition(r.Box, bounds)
		if !ok {
			continue
		}
		c.Check(h <= prev, "%s: reference %d (%v) at curve position %d comes after position %d", what, i, r.Box, h, prev)
		prev = h
		c.Eval(1)
	}
}

// hilbertDegenerate: bounds of no width or height, at ordinary and extreme
// positions.
func hilbertDegenerate(c *Ctx) {
	at := []float64{0, -3, 1e300, 5e-324, math.MaxFloat64 / 4}
	x0, y0 := at[c.Choose("x", len(at))], at[c.Choose("y", len(at))]
	kind := c.Choose("kind", 3)
	n := c.Choose("n", 6)
	b := bx(x0, y0, x0, y0)
	if kind == 1 {
		b.XMax = x0 + math.Max(8, math.Abs(x0)/2)
	} else if kind == 2 {
		b.YMax = y0 + math.Max(8, math.Abs(y0)/2)
	}
	var refs []Ref
	for i := 0; i < n; i++ {
		f := []float64{0, 1, 0.30001, 0.9001, 0.50003}[c.Choose("at", 5)]
		p := bx(x0, y0, x0, y0)
		if kind == 1 {
			p.XMin = x0 + f*(b.XMax-x0)
			p.XMax = p.XMin
		} else if kind == 2 {
			p.YMin = y0 + f*(b.YMax-y0)
			p.YMax = p.YMin
		}
		refs = append(refs, Ref{Box: p, Offset: int64(i)})
	}
	if n == 0 {
		packedrtree.HilbertSort(nil, b)
		packedrtree.HilbertSort(nil, packedrtree.EmptyBox)
		packedrtree.HilbertSort([]Ref{}, packedrtree.EmptyBox)
	}
	checkSorted(c, "degenerate bounds", refs, b)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hilbertLarge: longer lists of many layouts, orders and sizes, around the
// thresholds of sorting algorithms.
func hilbertLarge(c *Ctx) {
	ns := []int{11, 12, 13, 14, 49, 50, 51, 127, 500, 1023, 1024, 3000, 40000, 70001, 1<<20 + 1}
	if c.thorough {
		ns = append(ns, 20000, 65537, 300000)
		for i := 15; i < 300; i++ {
			ns = append(ns, i)
		}
	}
	n := ns[c.Choose("n", len(ns))]
	kind := c.Choose("layout", 6)
	order := c.Choose("order", 4)
	if n > 30000 && !c.thorough && (kind%2 == 0 || order%2 == 0) || n > 1<<20 && (kind > 1 || order != 3) {
		c.Stop()
	}
	refs := layoutRefs(kind, n, 0)
	bounds := emptyBox
	for i := range refs {
		refs[i].Offset = int64(i)
		bounds = refUnion(bounds, refs[i].Box)
	}
	switch order {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			refs[i], refs[j] = refs[j], refs[i]
		}
	case 2:
		sort.SliceStable(refs, func(i, j int) bool {
			a, _ := refPosition(refs[i].Box, bounds)
			b, _ := refPosition(refs[j].Box, bounds)
			return a < b
		})
	case 3:
		for i := range refs {
			j := (i * 7919) % n
			refs[i], refs[j] = refs[j], refs[i]
		}
	}
	checkSorted(c, fmt.Sprintf("layout %d of %d", kind, n), refs, bounds)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// ---- P15

var maxInt = uint64(math.MaxInt)

// exactSize is the exact size of an index, and whether it fits an int.
func exactSize(n uint64, ns uint64) (uint64, bool) {
	total := n
	for m := n; ; {
		q := m / ns
		if m%ns != 0 {
			q++
		}
		m = q
		var carry uint64
		if total, carry = bits.Add64(total, m, 0); carry != 0 {
			return 0, false
		}
		if m == 1 {
			break
		}
	}
	hi, lo := bits.Mul64(total, 40)
	return lo, hi == 0 && lo <= maxInt
}

func checkSize(c *Ctx, n, ns uint64) {
	want, ok := exactSize(n, ns)
	got, err := packedrtree.Size(int(n), uint16(ns))
	if ok && (err != nil || uint64(got) != want) {
		c.Fail("Size(%d, %d) is %d, %v; expected %d", n, ns, got, err, want)
	}
	if !ok && err == nil {
		c.Fail("Size(%d, %d) is %d; expected an overflow error", n, ns, got)
	}
	c.Step(1)
	c.Eval(1)
}

// sizeSmall: every count up to a bound with every node size of a list, and
// every node size with every count of a list.
func sizeSmall(c *Ctx) {
	if c.Bool("all node sizes") {
		n := uint64(c.Choose("n", pickInt(c, 64, 2048)) + 1)
		for ns := uint64(2); ns <= math.MaxUint16; ns++ {
			checkSize(c, n, ns)
		}
	} else {
		list := []uint64{2, 3, 4, 5, 7, 8, 10, 15, 16, 17, 31, 32, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 32767, 32768, 65534, 65535}
		ns := list[c.Choose("node size", len(list))]
		for n := uint64(1); n <= uint64(pickInt(c, 1<<17, 1<<23)); n++ {
			checkSize(c, n, ns)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// sizePowers: every node size, around every power of it and its multiples.
func sizePowers(c *Ctx) {
	ns := uint64(c.Choose("node size high", 256) << 8)
	for lo := uint64(0); lo < 256; lo++ {
		m := ns + lo
		if m < 2 {
			continue
		}
		p := uint64(1)
		for {
			for _, k := range []uint64{1, 2, 3, m - 1} {
				hi, v := bits.Mul64(p, k)
				for d := uint64(0); d < 5 && hi == 0; d++ {
					if x := v + d - 2; x >= 1 && x <= maxInt {
						checkSize(c, x, m)
					}
				}
			}
			hi, q := bits.Mul64(p, m)
			if hi != 0 || q > maxInt {
				break
			}
			p = q
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// sizeLimit: around the largest count which fits, for every node size.
func sizeLimit(c *Ctx) {
	hi8 := uint64(c.Choose("node size high", 256) << 8)
	for lo := uint64(0); lo < 256; lo++ {
		ns := hi8 + lo
		if ns < 2 {
			continue
		}
		a, b := uint64(1), maxInt // a fits, b does not
		for b-a > 1 {
			m := a + (b-a)/2
			if _, ok := exactSize(m, ns); ok {
				a = m
			} else {
				b = m
			}
		}
		r := uint64(pickInt(c, 3, 300))
		for d := uint64(0); d <= 2*r; d++ {
			checkSize(c, a-r+d, ns)
		}
		for d := uint64(0); d <= r; d++ {
			checkSize(c, maxInt-d, ns)
			// Where the node count and the byte count wrap around.
			for k := uint64(1); k <= 40; k++ {
				for _, base := range []uint64{maxInt / 40 * k, maxInt / 80 * k, maxInt/40*k + maxInt/40/ns} {
					if base-d <= maxInt {
						checkSize(c, base-d, ns)
					}
					if base+d <= maxInt {
						checkSize(c, base+d, ns)
					}
				}
				if !c.thorough && (lo > 20 && lo%64 != 0) && k > 3 {
					break
				}
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// sizeBits: counts of few set bits.
func sizeBits(c *Ctx) {
	i := c.Choose("bit", bits.Len64(maxInt))
	list := []uint64{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 255, 256, 257, 4096, 65534, 65535}
	if c.thorough {
		list = nil
		for ns := uint64(2); ns < 2000; ns++ {
			list = append(list, ns)
		}
	}
	for _, ns := range list {
		for j := 0; j <= i; j++ {
			for k := 0; k <= j; k++ {
				v := uint64(1)<<i | uint64(1)<<j | uint64(1)<<k
				checkSize(c, v, ns)
				checkSize(c, (uint64(1)<<i)+(uint64(1)<<j-1), ns)
				if w := uint64(2)<<i - uint64(1)<<k; w <= maxInt {
					checkSize(c, w, ns)
				}
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// sizeInvalid: arguments which must panic.
func sizeInvalid(c *Ctx) {
	ns := []int{0, 1, 2, 3, 16, 65535, 255, 256}[c.Choose("node size", 8)]
	n := []int{0, -1, -2, -40, math.MinInt, math.MinInt + 1, math.MinInt32, -1 << 16, 1, 2, 16, math.MaxInt32, math.MaxInt, math.MaxInt / 40, -65536}[c.Choose("n", 15)]
	bad := ns < 2 || n < 1
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		_, _ = packedrtree.Size(n, uint16(ns))
		return
	}()
	c.Step(1)
	c.Eval(1)
	c.Check(panicked == bad, "Size(%d, %d): panicked is %v", n, ns, panicked)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// ---- P16

var boxCoords = []float64{0, 1, math.Inf(1), math.Inf(-1), -1.5, math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, math.Copysign(0, -1), 1e-8, 123456789.125}

// boxAlphabet returns all boxes over some coordinates, and the empty box.
func boxAlphabet(n int) []Box {
	var iv [][2]float64
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if boxCoords[i] <= boxCoords[j] {
				iv = append(iv, [2]float64{boxCoords[i], boxCoords[j]})
			}
		}
	}
	r := []Box{emptyBox}
	for _, x := range iv {
		for _, y := range iv {
			r = append(r, bx(x[0], y[0], x[1], y[1]))
		}
	}
	return r
}

func isEmptyBox(b Box) bool { return b.XMin > b.XMax }

var boxAlphabets = map[int][]Box{}

// alphabetOf returns an alphabet, made before the executions.
func init() {
	for _, n := range []int{3, 4, 5, 7, 9, 12} {
		boxAlphabets[n] = boxAlphabet(n)
	}
}

// boxPairs: all pairs of boxes of an alphabet.
func boxPairs(c *Ctx) {
	al := boxAlphabets[pickInt(c, 7, 12)]
	a := al[c.Choose("box", len(al))]
	for _, b := range al {
		x, y := a, b
		x.Expand(&y)
		w := refUnion(a, b)
		if x != w {
			c.Fail("%v expanded by %v is %v, expected %v", a, b, x, w)
		}
		if y != b {
			c.Fail("expanding %v by %v changed the argument to %v", a, b, y)
		}
		z := x
		z.Expand(&y)
		z.Expand(&x)
		v := b
		v.Expand(&a)
		if z != x || v != x {
			c.Fail("expanding %v by %v: again gives %v, the other way round %v, expected %v", a, b, z, v, x)
		}
	}
	if e := a; true {
		e.Expand(&e)
		c.Check(e == a, "%v expanded by itself is %v", a, e)
	}
	if w, h := a.Width(), a.Height(); !isEmptyBox(a) {
		same := func(x, y float64) bool { return x == y || x != x && y != y }
		c.Check(same(w, a.XMax-a.XMin) && same(h, a.YMax-a.YMin), "%v has width %v, height %v", a, w, h)
	}
	e := packedrtree.EmptyBox
	c.Check(e == emptyBox, "EmptyBox is %v", e)
	c.Step(3 * len(al))
	c.Eval(len(al))
	c.StateStr(fmt.Sprint(a))
}

// boxTriples: all triples: independence of order.
func boxTriples(c *Ctx) {
	al := boxAlphabets[pickInt(c, 4, 5)]
	a, b := al[c.Choose("a", len(al))], al[c.Choose("b", len(al))]
	for _, d := range al {
		x := a
		x.Expand(&b)
		x.Expand(&d)
		y := b
		y.Expand(&d)
		z := a
		z.Expand(&y)
		if x != z || x != refUnion(refUnion(a, b), d) {
			c.Fail("union of %v, %v, %v is %v or %v", a, b, d, x, z)
		}
	}
	c.Step(4 * len(al))
	c.Eval(len(al))
	c.StateStr(fmt.Sprint(a, b))
}

// boxPoints: boxes with all points of an alphabet.
func boxPoints(c *Ctx) {
	n := pickInt(c, 9, 12)
	al := boxAlphabets[n]
	a := al[c.Choose("box", len(al))]
	for _, x := range boxCoords[:n] {
		for _, y := range boxCoords[:n] {
			b := a
			b.ExpandXY(x, y)
			if w := refUnion(a, bx(x, y, x, y)); b != w {
				c.Fail("%v expanded by (%v,%v) is %v, expected %v", a, x, y, b, w)
			}
			p := bx(x, y, x, y)
			d := a
			d.Expand(&p)
			e := b
			e.ExpandXY(x, y)
			if d != b || e != b {
				c.Fail("%v expanded by (%v,%v): %v, by the box of the point: %v, again: %v", a, x, y, b, d, e)
			}
		}
	}
	c.Step(3 * n * n)
	c.Eval(n * n)
	c.StateStr(fmt.Sprint(a))
}

// boxSequences: all sequences of expansions from the empty box.
func boxSequences(c *Ctx) {
	al := boxAlphabets[3]
	b, want := packedrtree.EmptyBox, emptyBox
	for i := 0; i < pickInt(c, 3, 4); i++ {
		k := c.Choose("expansion", len(al)+9)
		if k < len(al) {
			x := al[k]
			b.Expand(&x)
			want = refUnion(want, x)
		} else {
			k -= len(al)
			x, y := boxCoords[k/3+2], boxCoords[k%3+3]
			b.ExpandXY(x, y)
			want = refUnion(want, bx(x, y, x, y))
		}
		if b != want {
			c.Fail("after %d expansions: %v, expected %v", i+1, b, want)
		}
		c.Step(1)
	}
	c.Eval(1)
	c.Check(packedrtree.EmptyBox == emptyBox, "EmptyBox was changed")
	c.StateStr(fmt.Sprint(b))
}

// parseBox reads the four numbers of a printed box.
func parseBox(s string) ([]float64, error) {
	if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
		return nil, fmt.Errorf("not in brackets: %s", s)
	}
	var r []float64
	for _, p := range strings.Split(s[1:len(s)-1], ",") {
		v, err := strconv.ParseFloat(strings.TrimSpace(p), 64)
		if err != nil {
			return nil, err
		}
		r = append(r, v)
	}
	return r, nil
}

// close8 tells whether a printed number is right to 8 significant digits.
func close8(got, want float64) bool {
	if got == want {
		return true
	}
	if math.Abs(want) > 1e308 && math.IsInf(got, 0) {
		return math.Signbit(got) == math.Signbit(want) // rounds up to more than the maximum
	}
	return math.Abs(got-want) <= math.Abs(want)*6e-8+5e-324
}

// boxString: printed boxes with every value in every position.
func boxString(c *Ctx) {
	al := []float64{0, 1, -1.5, math.Inf(1), math.Inf(-1), 1e-9, 123456789.125, -179.12345678, 85.0511287798, math.MaxFloat64, -1e-300, 4096, 99999999.5, 0.1, 5e-324}
	n := pickInt(c, 8, len(al))
	w := []float64{al[c.Choose("xmin", n)], al[c.Choose("ymin", n)], al[c.Choose("xmax", n)], al[c.Choose("ymax", n)]}
	b := bx(w[0], w[1], w[2], w[3])
	s := b.String()
	v, err := parseBox(s)
	c.Check(err == nil && len(v) == 4, "box %v is printed as %s", w, s)
	for i := range v {
		c.Check(close8(v[i], w[i]), "box %v is printed as %s", w, s)
	}
	if t := fmt.Sprint(b); t != s {
		c.Fail("box printed as %s and %s", s, t)
	}
	c.Step(1)
	c.Eval(1)
	c.StateStr(s)
}

var numberRE = regexp.MustCompile(`[-+]?(Inf|NaN|[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?)`)

// numbersIn lists the numbers in a text.
func numbersIn(s string) (r []string) {
	for _, m := range numberRE.FindAllString(s, -1) {
		r = append(r, m)
	}
	return
}

// summaryIndex: printed references, and indexes, made and loaded.
func summaryIndex(c *Ctx) {
	n := pickInts(c, "references", []int{1, 2, 3, 5, 17}, []int{300, 70000})
	ns := []int{2, 3, 16, 1000, 65535}[c.Choose("node size", 5)]
	al := []float64{0, -1.5, 123456789.125, -179.12345678, math.MaxFloat64, 5e-324, math.Inf(1), math.Inf(-1)}
	lim := make([]float64, 4)
	for i, what := range []string{"xmin", "ymin", "xmax", "ymax"} {
		lim[i] = al[c.Choose(what, pickInt(c, 4, len(al)))]
	}
	offs := []int64{0, 1, -1, 1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	refs := make([]packedrtree.Ref, n)
	u := emptyBox
	for i := range refs {
		b := bx(lim[0], lim[1], lim[2], lim[3])
		if i > 0 {
			b = bx(float64(i), 2, float64(i+3), 9)
		}
		u = refUnion(u, b)
		refs[i] = packedrtree.Ref{Box: b, Offset: offs[i%len(offs)]}
	}
	box := func(what, s string, v []string, b Box) {
		for i, w := range []float64{b.XMin, b.YMin, b.XMax, b.YMax} {
			g, err := strconv.ParseFloat(v[i], 64)
			c.Check((err == nil || math.IsInf(g, 0)) && close8(g, w), "%s with box %v is printed as %s", what, boxStr(b), s)
		}
	}
	for i, r := range refs[:min(n, len(offs))] {
		r.Box = refs[0].Box
		s := r.String()
		v := numbersIn(s)
		c.Check(len(v) == 5 && strings.Contains(s, r.Box.String()), "reference %d is printed as %s", i, s)
		box("reference", s, v, r.Box)
		c.Check(v[4] == fmt.Sprint(r.Offset), "reference with offset %d is printed as %s", r.Offset, s)
		c.Check(s == fmt.Sprint(r), "reference is printed as %s, and as %v", s, r)
		c.Step(1)
	}
	t, err := packedrtree.New(refs, uint16(ns))
	c.Check(err == nil, "New: %v", err)
	l, err := packedrtree.Unmarshal(bytes.NewReader(buildRefTree(refs, ns).bytes()), n, uint16(ns))
	c.Check(err == nil, "Unmarshal: %v", err)
	for _, x := range []*packedrtree.PackedRTree{t, l} {
		s := x.String()
		v := numbersIn(s)
		c.Check(len(v) == 6, "index is printed as %s", s)
		box("index", s, v, u)
		c.Check(v[4] == fmt.Sprint(n) && v[5] == fmt.Sprint(ns), "index of %d references, node size %d, is printed as %s", n, ns, s)
		c.Check(x.Bounds() == u && x.NumRefs() == n && int(x.NodeSize()) == ns, "index of %d references, node size %d, bounds %s: %d, %d, %s", n, ns, boxStr(u), x.NumRefs(), x.NodeSize(), boxStr(x.Bounds()))
		c.Step(1)
	}
	c.Eval(1)
	c.StateStr(t.String())
}
