// P23 (which bytes of a stream are read).

package main

import (
	"fmt"
	"strings"

	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P23", Name: "economy-seek", Run: economySeek})
	register(&Family{Prop: "P23", Name: "economy-levels", Run: economyLevels})
	register(&Family{Prop: "P23", Name: "economy-file", Run: economyFile})
	register(&Family{Prop: "P23", Name: "economy-shapes", Run: economyShapes})
}

// span is a range of bytes of a stream.
type span struct{ from, to int64 }

// addSpan appends a range to ascending ranges.
func addSpan(r []span, from, to int64) []span {
	if n := len(r); n > 0 && r[n-1].to == from {
		r[n-1].to = to
		return r
	}
	if from == to {
		return r
	}
	return append(r, span{from, to})
}

// searchSpans gives the bytes of an index a search may read: the root, and
// each group of siblings whose parent is in a read group and intersects the
// query.
func (t *refTree) searchSpans(q Box, start int64) []span {
	r := []span{{start, start + 40}}
	marked := make([]bool, len(t.nodes))
	marked[0] = true
	for i := 0; i < t.leaf0; i++ {
		if !marked[i] || !refIntersects(q, t.nodes[i].b) {
			continue
		}
		// The group ends with its level.
		lo, hi := int(t.nodes[i].off), int(t.nodes[i].off)+t.nodeSize
		for _, end := range t.levelEnds() {
			if lo < end {
				if hi > end {
					hi = end
				}
				break
			}
		}
		for j := lo; j < hi; j++ {
			marked[j] = true
		}
		r = addSpan(r, start+40*int64(lo), start+40*int64(hi))
	}
	return r
}

// levelEnds are the indices one past the last node of each level, root first.
func (t *refTree) levelEnds() []int {
	counts := refLevelCounts(t.numRefs, t.nodeSize)
	var r []int
	end := 0
	for i := len(counts) - 1; i >= 0; i-- {
		end += counts[i]
		r = append(r, end)
	}
	return r
}

// meter watches the reads of one call.
type meter struct {
	allowed []span
	last    int64 // end of the last read
	bytes   int64
	bad     string
}

func (m *meter) touched(from, to int64) {
	if from == to || m.bad != "" {
		return
	}
	m.bytes += to - from
	if from < m.last {
		m.bad = fmt.Sprintf("reads bytes [%d,%d) after having read up to %d", from, to, m.last)
		return
	}
	m.last = to
	for _, s := range m.allowed {
		if from < s.to && from >= s.from {
			if to <= s.to {
				return
			}
			break
		}
	}
	m.bad = fmt.Sprintf("reads bytes [%d,%d), needs only %v", from, to, m.allowed)
}

func economySeekOnce(c *Ctx, t *refTree, idx []byte, q Box, start int, f func(want, avail int) (int, error), what string) int64 {
	data := append(append(make([]byte, start, start+len(idx)+60), idx...), make([]byte, 60)...)
	s := &src{data: data, pos: int64(start), onRead: f}
	m := &meter{allowed: t.searchSpans(q, int64(start))}
	s.touched = m.touched
	_, err := packedrtree.Seek(s.asReadSeeker(), t.numRefs, uint16(t.nodeSize), q)
	c.Step(1)
	c.Eval(1)
	c.Check(err == nil, "%s: Seek(%s): %v", what, boxStr(q), err)
	c.Check(m.bad == "", "%s: Seek(%s) in an index at offset %d %s", what, boxStr(q), start, m.bad)
	return m.bytes
}

// economySeek: every tree shape of up to 40 (130) references and some larger
// ones, 9 spatial layouts, queries at the edges of the boxes, each read
// checked against the groups a search needs, in 9 ways of delivery.
func economySeek(c *Ctx) {
	n := 1 + c.Choose("n", pickInt(c, 40, 130))
	if c.Bool("large") {
		if c.trace[0].v != 0 {
			c.Stop()
		}
		n = []int{64, 81, 125, 255, 256, 257, 1000, 4097}[c.Choose("largeN", pickInt(c, 7, 8))]
	}
	ns := []int{2, 3, 4, 5, 15, 16, 17, 64, 65535}[c.Choose("nodeSize", 9)]
	k := c.Choose("layout", numLayouts)
	start := []int{0, 9}[c.Choose("start", 2)]
	refs := layoutRefs(k, n, 0)
	t := buildRefTree(refs, ns)
	idx := t.bytes()
	total := int64(0)
	for _, q := range layoutQueries(refs, pickInt(c, 2, 6)) {
		for ch := 0; ch < numChunkings; ch++ {
			if ch > 0 && n%5 != 1 {
				break
			}
			name, f := chunking(ch)
			total += economySeekOnce(c, t, idx, q, start, f, fmt.Sprintf("n=%d node size %d layout %d delivery %q", n, ns, k, name))
		}
	}
	c.StateStr(fmt.Sprint(n, ns, k, start, total))
}

// economyLevels: indexes with up to 2^18 (2^20) references, around every
// size which gets another level; single references and ranges at the edges
// of every level.
func economyLevels(c *Ctx) {
	n, ns := deepParams(c)
	t := buildRefTree(deepRefs(n), ns)
	idx := t.bytes()
	total := int64(0)
	for _, q := range deepQueries(n) {
		total += economySeekOnce(c, t, idx, bx(float64(q[0]), 0, float64(q[1]), 0), 8, nil, fmt.Sprintf("n=%d node size %d", n, ns))
	}
	c.StateStr(fmt.Sprint(n, ns, total))
}

// edriver watches the reads of each call of a reader.
type edriver struct {
	*rdriver
	t      *refTree
	start  int64
	offs   []int
	cached bool
	front  int64 // how far an unseekable stream may have been read
	total  int64
}

func newEdriver(c *Ctx, f *fgb, t *refTree, data []byte, start int, seekable bool, chunk func(want, avail int) (int, error)) *edriver {
	s := &src{data: data, pos: int64(start), onRead: chunk}
	return &edriver{rdriver: newReader(c, f, s, seekable, false), t: t, start: int64(start), offs: f.offsets(), front: int64(start)}
}

// startedFile is a file after some other bytes, followed by others if its
// feature count is known, and the tree of its index.
func startedFile(f *fgb, start int) ([]byte, *refTree) {
	var t *refTree
	if f.index != nil {
		t = buildRefTree(f.refs, f.nodeSize)
	}
	data := append(make([]byte, start), f.bytes()...)
	if f.known {
		data = append(data, 24, 0, 0, 0, 0xee, 0xee, 0xee, 0xee, 0xee)
	}
	return data, t
}

// feats gives the bytes of features [i,j).
func (e *edriver) feats(r []span, i, j int) []span {
	d := e.start + int64(e.f.dataStart())
	return addSpan(r, d+int64(e.offs[i]), d+int64(e.offs[j]))
}

// needs gives the bytes a call needs to read in the present state of a
// seekable stream.
func (e *edriver) needs(o rop) []span {
	pre := e.start + int64(len(refMagic)+len(e.f.hdr))
	data := e.start + int64(e.f.dataStart())
	switch {
	case o.kind == opHeader && e.st == rsNew:
		return []span{{e.start, pre}}
	case o.kind == opIndex && e.st == rsHdr && e.hasIndex() && !e.cached:
		return []span{{pre, data}}
	case o.kind == opSearch && e.st == rsHdr && e.hasIndex():
		var r []span
		if !e.cached {
			r = e.t.searchSpans(o.q, pre)
		}
		for _, i := range e.f.matching(o.q) {
			r = e.feats(r, i, i+1)
		}
		return r
	case (o.kind == opData || o.kind == opDataRem) && (e.st == rsHdr || e.st == rsIndex || e.st == rsData):
		n := len(e.f.feats)
		if o.kind == opData && e.pos+o.k < n {
			n = e.pos + o.k
		}
		return e.feats(nil, e.pos, n)
	}
	return nil
}

// call performs a call and checks which bytes it reads.
func (e *edriver) call(o rop) {
	need := e.needs(o)
	m := &meter{allowed: need}
	if !e.seekable {
		// What is not needed has to be read over.
		m.last = e.s.pos
		if n := len(need); n > 0 && need[n-1].to > e.front {
			e.front = need[n-1].to
		}
		if data := e.start + int64(e.f.dataStart()); o.kind != opHeader && o.kind != opRewind && e.st != rsNew && e.front < data {
			e.front = data
		}
		m.allowed = []span{{e.start, e.front}}
	}
	e.s.touched = m.touched
	st := e.st
	e.do(o)
	if o.kind == opIndex && st == rsHdr && e.hasIndex() {
		e.cached = true
	}
	if m.bad != "" {
		e.fail("%v %s", o, m.bad)
	}
	e.total += m.bytes
	e.c.Eval(1)
}

// economyFile: all histories of Header and 5 (6) further calls on files with
// features of different sizes, known and unknown count, with and without an
// index, on seekable and unseekable streams.
func economyFile(c *Ctx) {
	configs := []rconfig{
		{n: 5, known: true, nodeSize: 2}, {n: 5, known: true, nodeSize: 16}, {n: 3, known: true, nodeSize: 2},
		{n: 3, known: true, nodeSize: 0}, {n: 2, known: false, nodeSize: 0}, {n: 2, known: false, nodeSize: 16}, {n: 1, known: true, nodeSize: 3},
	}
	g := configs[c.Choose("config", len(configs))]
	g.seekable = c.Bool("seekable")
	g.start = []int{0, 3}[c.Choose("start", 2)]
	ops := []rop{
		{kind: opIndex}, {kind: opSearch, q: bx(1, 1, 1.5, 1.5)}, {kind: opSearch, q: bx(-9, -9, -8, -8)}, {kind: opSearch, q: bx(2, 2, 2, 2)},
		{kind: opSearch, q: bx(9, 9, 9, 9)}, {kind: opData, k: 1}, {kind: opData, k: 3}, {kind: opDataRem}, {kind: opRewind}, {kind: opHeader},
	}
	f := c.cachedFile(g)
	data, t := startedFile(f, g.start)
	e := newEdriver(c, f, t, data, g.start, g.seekable, nil)
	e.call(rop{kind: opHeader})
	for i := pickInt(c, 5, 6); i > 0; i-- {
		o := ops[c.Choose("call", len(ops))]
		if o.kind == opHeader && i > 3 {
			c.Stop()
		}
		e.call(o)
	}
	c.StateStr(fmt.Sprint(g, strings.Join(e.hist, ","), e.total))
}

// economyShapes: files of 1 to 40 (120) features, of equal or very different
// sizes, searched with boundary queries directly, after a rewind, and with
// the index loaded before; scanned in batches; in 9 ways of delivery.
func economyShapes(c *Ctx) {
	n := 1 + c.Choose("n", pickInt(c, 24, 80))
	ns := []int{0, 2, 3, 4, 16, 17}[c.Choose("nodeSize", 6)]
	k := []int{0, 1, 5, 7}[c.Choose("layout", 4)]
	pads := [][]int{{0}, {3, 0, 17}, {9000, 1, 20000, 8096, 0}}[c.Choose("sizes", 3)]
	seekable := c.Bool("seekable")
	boxes := layout(k, n)
	f := simpleFile(boxes, ns, true, pads, nil)
	name, chunk := chunking([]int{0, 3, 5, 8}[c.Choose("delivery", 4)])
	script := [][]rop{
		{{kind: opSearch}, {kind: opRewind}, {kind: opSearch}, {kind: opRewind}, {kind: opIndex}, {kind: opRewind}, {kind: opSearch}},
		{{kind: opIndex}, {kind: opData, k: n/2 + 1}, {kind: opRewind}, {kind: opSearch}, {kind: opRewind}, {kind: opData, k: 1}, {kind: opDataRem}},
		{{kind: opData, k: n / 2}, {kind: opRewind}, {kind: opSearch}, {kind: opRewind}, {kind: opDataRem}, {kind: opRewind}, {kind: opIndex}, {kind: opDataRem}},
		{{kind: opDataRem}, {kind: opRewind}, {kind: opIndex}, {kind: opRewind}, {kind: opIndex}, {kind: opRewind}, {kind: opSearch}},
	}[c.Choose("script", 4)]
	var total int64
	data, t := startedFile(f, 5)
	for _, q := range layoutQueries(f.refs, 2) {
		e := newEdriver(c, f, t, data, 5, seekable, chunk)
		e.call(rop{kind: opHeader})
		for _, o := range script {
			if o.kind == opSearch {
				o.q = q
			}
			e.call(o)
		}
		total += e.total
	}
	c.StateStr(fmt.Sprint(n, ns, k, len(pads), seekable, name, total))
}
