// Indexes and files far too large to exist: their content is a function of
// the position, so that counts and offsets beyond 2 and 4 GiB can be explored.

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"sync"
	"syscall"
	"unsafe"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P03", Name: "seek-virtual", Run: seekVirtual})
	register(&Family{Prop: "P05", Name: "filesearch-virtual", Run: fileSearchVirtual})
	register(&Family{Prop: "P05", Name: "filesearch-huge", Run: fileSearchHuge})
	register(&Family{Prop: "P06", Name: "reader-virtual", Run: readerVirtual})
	register(&Family{Prop: "P07", Name: "writer-huge", Run: writerHuge})
	register(&Family{Prop: "P12", Name: "property-huge", Run: propHuge})
}

// vsrc is a stream whose content is computed.
type vsrc struct {
	pos, size int64
	at        func(off int64, p []byte)
	lo, hi    int64 // range of what has been read
}

func (s *vsrc) Read(p []byte) (int, error) {
	if s.pos >= s.size {
		return 0, io.EOF
	}
	if int64(len(p)) > s.size-s.pos {
		p = p[:s.size-s.pos]
	}
	s.at(s.pos, p)
	if s.pos < s.lo {
		s.lo = s.pos
	}
	s.pos += int64(len(p))
	if s.pos > s.hi {
		s.hi = s.pos
	}
	return len(p), nil
}

type vseek struct{ *vsrc }

func (s vseek) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

// vread hides Seek.
type vread struct{ s *vsrc }

func (r vread) Read(p []byte) (int, error) { return r.s.Read(p) }

// vindex is an index of n references; reference i has the box
// [i, 0, i+0.5, 1] and the offset i*step.
type vindex struct {
	n, ns, step int64
	rev         bool    // offsets in descending order
	marks       []int64 // references whose boxes reach up to 11
	counts      []int64 // per level, leaves first
	start       []int64 // first node of each level
	total       int64
}

func newVindex(n, ns, step int64) *vindex {
	v := &vindex{n: n, ns: ns, step: step}
	for k := n; ; {
		v.counts = append(v.counts, k)
		v.total += k
		if len(v.counts) > 1 && k == 1 {
			break
		}
		k = (k-1)/ns + 1
	}
	v.start = make([]int64, len(v.counts))
	at := int64(0)
	for l := len(v.counts) - 1; l >= 0; l-- {
		v.start[l] = at
		at += v.counts[l]
	}
	return v
}

func (v *vindex) node(k int64) (b Box, offset int64) {
	l := 0
	for v.start[l] > k {
		l++
	}
	first, span := k-v.start[l], int64(1)
	if l == 0 {
		offset = first * v.step
		if v.rev {
			offset = (v.n - 1 - first) * v.step
		}
		return bx(float64(first), 0, float64(first)+0.5, v.top(first, first)), offset
	}
	offset = v.start[l-1] + first*v.ns
	for i := 0; i < l; i++ {
		if first > v.n/v.ns+1 || span > v.n/v.ns+1 {
			span = v.n
		} else {
			span *= v.ns
		}
	}
	lo := (k - v.start[l]) * span
	hi := v.n - 1
	if lo <= v.n-span {
		hi = lo + span - 1
	}
	return bx(float64(lo), 0, float64(hi)+0.5, v.top(lo, hi)), offset
}

// mark makes a few references, far apart, reach higher than the others.
func (v *vindex) mark(most int) {
	for _, m := range []int64{0, v.n / 2, v.n/2 + 1, v.n - 1, (1 << 31) / v.step, (1<<32)/v.step + 1, 3 << 30, 5 << 32}[:most] {
		if m >= 0 && m < v.n {
			v.marks = append(v.marks, m)
		}
	}
	sort.Slice(v.marks, func(i, j int) bool { return v.marks[i] < v.marks[j] })
	for i := 1; i < len(v.marks); i++ {
		if v.marks[i] == v.marks[i-1] {
			v.marks = append(v.marks[:i], v.marks[i+1:]...)
			i--
		}
	}
}

func (v *vindex) top(lo, hi int64) float64 {
	for _, m := range v.marks {
		if lo <= m && m <= hi {
			return 11
		}
	}
	return 1
}

// markedBox is the query for all marked references.
func (v *vindex) markedBox() Box { return bx(-1, 10, float64(v.n)+1, 12) }

func (v *vindex) fill(off int64, p []byte) {
	var b [40]byte
	for len(p) > 0 {
		k := off / 40
		box, o := v.node(k)
		for i, f := range []float64{box.XMin, box.YMin, box.XMax, box.YMax} {
			binary.LittleEndian.PutUint64(b[8*i:], math.Float64bits(f))
		}
		binary.LittleEndian.PutUint64(b[32:], uint64(o))
		m := copy(p, b[off%40:])
		p = p[m:]
		off += int64(m)
	}
}

// virtualCounts are reference counts around which sizes, node numbers or
// offsets exceed 31, 32 or more bits.
func virtualCounts(c *Ctx) []int64 {
	r := []int64{1000, 1 << 16, 53687091, 53687092, 107374182, 107374183, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<40 + 7, 1 << 48}
	if c.thorough {
		r = append(r, 1<<16-1, 1<<16+1, 51130563, 51130564, 102261126, 102261127, 1<<33, 1<<36+5, 1<<44-1, 1<<47+1, 1<<49-1)
	}
	return r
}

// virtualQueries gives ranges of at most a few references.
func virtualQueries(c *Ctx, v *vindex) [][2]int64 {
	n := v.n
	var r [][2]int64
	marks := []int64{0, 1, n / 3, n / 2, n - 2, n - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 47}
	// References whose node is where numbers get long.
	for _, k := range []int64{1<<31 - 1, 1 << 31, (1 << 31) / 40, (1<<31)/40 + 1, (1 << 32) / 40, (1<<32)/40 + 1, 1 << 32} {
		marks = append(marks, k-v.start[0], (1<<31)/v.step, (1<<31)/v.step+1, (1<<32)/v.step)
	}
	if c.thorough {
		for i := uint(0); i < 62; i++ {
			marks = append(marks, 1<<i, 1<<i-1, n-1<<i)
		}
	}
	for _, m := range marks {
		if m >= 0 && m < n {
			r = append(r, [2]int64{m, m})
			if m+3 < n {
				r = append(r, [2]int64{m, m + 3})
			}
		}
	}
	if n > 10 {
		r = append(r, [2]int64{n - 5, n + 5}, [2]int64{-5, 1})
	}
	return append(r, [2]int64{n + 1, n + 2}, [2]int64{-3, -2})
}

func clampRange(q [2]int64, n int64) (lo, hi int64) {
	lo, hi = q[0], q[1]
	if lo < 0 {
		lo = 0
	}
	if hi > n-1 {
		hi = n - 1
	}
	return
}

func vbox(q [2]int64) Box { return bx(float64(q[0]), 0.25, float64(q[1]), 0.5) }

func pick64(c *Ctx, what string, a []int64) int64 { return a[c.Choose(what, len(a))] }

// seekVirtual: streaming search of enormous indexes at enormous positions.
func seekVirtual(c *Ctx) {
	n := pick64(c, "n", virtualCounts(c))
	ns := pick64(c, "node size", []int64{2, 3, 16, 1000})
	base := pick64(c, "start", []int64{0, 5, 1<<31 - 41, 1 << 31, 1<<32 - 3, 1 << 32, 1 << 61})
	v := newVindex(n, ns, 97)
	v.rev = c.Bool("descending offsets")
	v.mark(8)
	size := 40 * v.total
	if int64(int(size)) != size || base > math.MaxInt64-size-10 {
		c.Stop()
	}
	search := func(q Box, want []int64) {
		s := &vsrc{pos: base, size: base + size + 10, at: func(off int64, p []byte) { v.fill(off-base, p) }, lo: math.MaxInt64}
		got, err := packedrtree.Seek(vseek{s}, int(n), uint16(ns), q)
		c.Step(1)
		c.Check(err == nil, "n=%d node size %d start %d query %v: %v", n, ns, base, q, err)
		var others Results
		for _, i := range want {
			_, o := v.node(v.start[0] + i)
			others = append(others, packedrtree.Result{Offset: o, RefIndex: int(i)})
		}
		if v.rev {
			for i, j := 0, len(others)-1; i < j; i, j = i+1, j-1 {
				others[i], others[j] = others[j], others[i]
			}
		}
		if len(got) != len(others) {
			c.Fail("n=%d node size %d start %d query %v: found %v, expected %v", n, ns, base, q, got, others)
		}
		for i := range got {
			if got[i] != others[i] {
				for j := 1; j < len(got); j++ {
					c.Check(v.rev && got[j].RefIndex > got[j-1].RefIndex, "n=%d node size %d start %d query %v: found %v, neither in offset nor in index order", n, ns, base, q, got)
				}
				c.Known("seek-index-order", "n=%d node size %d start %d query %v: found %v, expected %v", n, ns, base, q, got, others)
				sort.Sort(got)
				if got[i] != others[i] {
					c.Fail("n=%d node size %d start %d query %v: found %v, expected %v", n, ns, base, q, got, others)
				}
			}
		}
		c.Check(s.pos == base+size, "n=%d node size %d start %d: stream left at %d, index ends at %d", n, ns, base, s.pos, base+size)
		c.Check(s.lo >= base && s.hi <= base+size, "n=%d node size %d start %d: read bytes %d to %d", n, ns, base, s.lo, s.hi)
		c.Eval(1)
	}
	for _, q := range virtualQueries(c, v) {
		lo, hi := clampRange(q, n)
		search(vbox(q), span64(lo, hi))
	}
	search(v.markedBox(), v.marks)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// span64 lists the numbers from lo to hi.
func span64(lo, hi int64) (r []int64) {
	for ; lo <= hi; lo++ {
		r = append(r, lo)
	}
	return
}

// vfile is a file with an enormous number of features.
type vfile struct {
	*vindex
	pre       []byte // magic number and header
	proto     []byte
	idAt      int
	dataStart int64
	size      int64
}

func newVfile(n, ns int64, pad int) *vfile {
	f := &vfile{}
	f.pre = append(append([]byte{}, refMagic...), encRoot(tbl{hCount: uint64(n), hNodeSize: uint16(ns)}, 0)...)
	mk := func(id uint64) []byte {
		p := make([]byte, 8+pad)
		binary.LittleEndian.PutUint64(p, id)
		return encRoot(tbl{fProperties: p}, 0)
	}
	f.proto = mk(0)
	other := mk(math.MaxUint64)
	for f.proto[f.idAt] == other[f.idAt] {
		f.idAt++
	}
	step := int64(len(f.proto))
	if ns > 0 {
		f.vindex = newVindex(n, ns, step)
	} else {
		f.vindex = &vindex{n: n, step: step}
	}
	f.dataStart = int64(len(f.pre)) + 40*f.total
	f.size = f.dataStart + n*step
	return f
}

func (f *vfile) feature(i int64) []byte {
	b := append([]byte{}, f.proto...)
	binary.LittleEndian.PutUint64(b[f.idAt:], uint64(i))
	return b
}

func (f *vfile) at(off int64, p []byte) {
	if off < int64(len(f.pre)) {
		m := copy(p, f.pre[off:])
		off, p = off+int64(m), p[m:]
	}
	if off < f.dataStart && len(p) > 0 {
		m := int64(len(p))
		if m > f.dataStart-off {
			m = f.dataStart - off
		}
		f.fill(off-int64(len(f.pre)), p[:m])
		off, p = off+m, p[m:]
	}
	for len(p) > 0 {
		i, o := (off-f.dataStart)/f.step, (off-f.dataStart)%f.step
		m := copy(p, f.feature(i)[o:])
		off, p = off+int64(m), p[m:]
	}
}

// fits tells whether the file's size can be represented.
func (f *vfile) fits(base int64) bool {
	return f.total < math.MaxInt64/40-1 && int64(int(40*f.total)) == 40*f.total && f.n < (math.MaxInt64-base-f.dataStart)/f.step
}

func (f *vfile) open(c *Ctx, base int64) (*flatgeobuf.FileReader, *vsrc) {
	s := &vsrc{pos: base, size: base + f.size, at: func(off int64, p []byte) { f.at(off-base, p) }}
	r := flatgeobuf.NewFileReader(vseek{s})
	_, err := r.Header()
	c.Check(err == nil, "Header: %v", err)
	return r, s
}

// check compares features with those at the given data positions.
func (f *vfile) check(c *Ctx, what string, got []flat.Feature, want []int64) {
	if len(got) != len(want) {
		c.Fail("%s: %d features, expected numbers %v", what, len(got), want)
	}
	for i := range got {
		if d := sameFeature(&got[i], f.feature(want[i])); d != "" {
			c.Fail("%s: feature number %d: %s", what, want[i], d)
		}
	}
}

// placed gives the ascending data positions of references.
func (f *vfile) placed(refs []int64) []int64 {
	if !f.rev {
		return refs
	}
	r := make([]int64, len(refs))
	for i, k := range refs {
		r[len(r)-1-i] = f.n - 1 - k
	}
	return r
}

// fileSearchVirtual searches enormous files.
func fileSearchVirtual(c *Ctx) {
	n := pick64(c, "n", virtualCounts(c))
	ns := pick64(c, "node size", []int64{2, 16, 1000})
	base := pick64(c, "start", []int64{0, 1<<31 - 100, 1 << 32})
	f := newVfile(n, ns, []int{0, 5, 1000}[c.Choose("feature size", 3)])
	if !f.fits(base) {
		c.Stop()
	}
	f.rev = c.Bool("descending offsets")
	f.mark(8)
	r, _ := f.open(c, base)
	search := func(q Box, want []int64) {
		got, err := r.IndexSearch(q)
		c.Step(1)
		what := fmt.Sprintf("n=%d node size %d start %d query %v", n, ns, base, q)
		c.Check(err == nil, "%s: %v", what, err)
		f.check(c, what, got, f.placed(want))
		c.Check(r.Rewind() == nil, "Rewind fails")
		c.Eval(1)
	}
	for _, q := range virtualQueries(c, f.vindex) {
		lo, hi := clampRange(q, n)
		search(vbox(q), span64(lo, hi))
	}
	search(f.markedBox(), f.marks)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// readerVirtual: short histories on enormous files.
func readerVirtual(c *Ctx) {
	n := pick64(c, "n", virtualCounts(c))
	ns := pick64(c, "node size", []int64{0, 2, 16})
	base := pick64(c, "start", []int64{0, 1<<31 - 100, 1 << 32})
	f := newVfile(n, ns, 3)
	if !f.fits(base) {
		c.Stop()
	}
	r, s := f.open(c, base)
	pos, eof := int64(0), false
	fresh := true
	hist := fmt.Sprintf("n=%d node size %d start %d: ", n, ns, base)
	for i := 0; i < pickInt(c, 3, 4); i++ {
		switch k := c.Choose("call", 5); k {
		case 0, 1:
			m := []int64{1, 1000}[k]
			hist += fmt.Sprintf("Data(%d), ", m)
			p := make([]flat.Feature, m)
			g, err := r.Data(p)
			if eof {
				c.Check(g == 0 && err == io.EOF, "%s: %d, %v", hist, g, err)
				break
			}
			if m >= n-pos {
				m = n - pos
				c.Check(err == io.EOF, "%s: error %v, expected EOF", hist, err)
				eof = true
			} else {
				c.Check(err == nil, "%s: %v", hist, err)
			}
			f.check(c, hist, p[:g], span64(pos, pos+m-1))
			pos += m
			fresh = false
			c.Check(s.pos == base+f.dataStart+pos*f.step, "%s: stream at %d", hist, s.pos)
		case 2, 3:
			x := n - 2
			if k == 3 {
				x = n / 2
			}
			hist += fmt.Sprintf("IndexSearch(%d), ", x)
			got, err := r.IndexSearch(vbox([2]int64{x, x}))
			switch {
			case !fresh:
				c.Check(err != nil && len(got) == 0, "%s: %d, %v", hist, len(got), err)
			case ns == 0:
				c.Check(errors.Is(err, flatgeobuf.ErrNoIndex), "%s: %v", hist, err)
			default:
				c.Check(err == nil, "%s: %v", hist, err)
				f.check(c, hist, got, f.placed([]int64{x}))
				eof = true
			}
			fresh = false
		default:
			hist += "Rewind, "
			err := r.Rewind()
			c.Check(err == nil, "%s: %v", hist, err)
			pos, eof, fresh = 0, false, true
		}
		c.Step(1)
	}
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hugeSizes are sizes of features to be skipped.
var hugeSizes = []int64{100, 1<<31 - 1, 1 << 31, 1<<32 + 3}

// fileSearchHuge: the features found are far apart, since those between them
// are enormous. Streams without Seek have to read past them.
func fileSearchHuge(c *Ctx) {
	seekable := c.Bool("seekable")
	n := 4
	ns := []int{2, 16}[c.Choose("node size", 2)]
	first := c.Choose("first big feature", 2)
	// Big features at odd positions.
	var sizes []int64
	var feats [][]byte
	var starts []int64
	at := int64(0)
	var boxes []Box
	for i := 0; i < n; i++ {
		b := simpleFeature(bx(float64(i), 0, float64(i), 0), i, 3*i, i%2)
		size := int64(len(b))
		if i%2 == first {
			size = hugeSizes[c.Choose("size", len(hugeSizes))]
			binary.LittleEndian.PutUint32(b, uint32(size-4))
		}
		feats, sizes, starts = append(feats, b), append(sizes, size), append(starts, at)
		boxes = append(boxes, bx(float64(i), 0, float64(i), 0))
		at += size
	}
	if at > 6<<30 && !seekable && !c.thorough {
		c.Stop() // takes seconds
	}
	refs := make([]Ref, n)
	for i := range refs {
		refs[i] = Ref{Box: boxes[i], Offset: starts[i]}
	}
	refs = sortedCopy(refs)
	pre := append(append([]byte{}, refMagic...), encRoot(hdrTable(n, ns, nil), 0)...)
	pre = append(pre, buildRefTree(refs, ns).bytes()...)
	data := int64(len(pre))
	fill := func(off int64, p []byte) {
		if off < data {
			m := copy(p, pre[off:])
			off, p = off+int64(m), p[m:]
		}
		for i := range feats {
			// Whatever of the feature's beginning is in range.
			a, b := data+starts[i], data+starts[i]+int64(len(feats[i]))
			lo, hi := off, off+int64(len(p))
			if lo < a {
				lo = a
			}
			if hi > b {
				hi = b
			}
			if lo < hi {
				copy(p[lo-off:hi-off], feats[i][lo-a:hi-a])
			}
		}
	}
	for x := 0; x < n; x++ {
		if sizes[x] != int64(len(feats[x])) {
			continue // would have to be read completely
		}
		s := &vsrc{size: data + at, at: fill}
		var r *flatgeobuf.FileReader
		if seekable {
			r = flatgeobuf.NewFileReader(vseek{s})
		} else {
			r = flatgeobuf.NewFileReader(vread{s})
		}
		_, err := r.Header()
		c.Check(err == nil, "Header: %v", err)
		got, err := r.IndexSearch(boxes[x])
		c.Step(1)
		c.Check(err == nil && len(got) == 1, "sizes %v, search for feature %d: %d features, error %v", sizes, x, len(got), err)
		if d := sameFeature(&got[0], feats[x]); d != "" {
			c.Fail("sizes %v, search for feature %d: %s", sizes, x, d)
		}
		c.Eval(1)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// hugeBuf is memory that is never touched beyond its beginning.
func hugeBuf(c *Ctx, size int64) []byte {
	if int64(int(size)) != size {
		c.Stop()
	}
	hugeOnce.Do(func() {
		n := int64(4<<30 + 4096)
		b, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err == nil {
			hugeMem = b
		}
	})
	if hugeMem == nil {
		c.Logf("no address space for huge buffers")
		c.Stop()
	}
	return hugeMem[:size]
}

var (
	hugeOnce sync.Once
	hugeMem  []byte
)

// countW counts, and keeps the beginning of each write and all of short ones.
type countW struct {
	total  int64
	small  []byte
	writes []int64
}

func (w *countW) Write(p []byte) (int, error) {
	w.total += int64(len(p))
	w.writes = append(w.writes, int64(len(p)))
	if len(p) < 1<<20 {
		w.small = append(w.small, p...)
	}
	return len(p), nil
}

// writerHuge: features of 2 GiB and more, up to the format's limit, written
// with an index built by the writer.
func writerHuge(c *Ctx) {
	sizes := []int64{1<<31 - 1, 1 << 31, 3 << 30, 1<<32 - 1, 1<<32 + 3}
	size := pick64(c, "size", sizes)
	n := 2 + c.Choose("n", 3)
	way := c.Choose("way", 3)
	hugeLock.Lock()
	defer hugeLock.Unlock()
	buf := hugeBuf(c, size)
	head := simpleFeature(bx(1, 2, 3, 4), 7, 5, 0)
	copy(buf, head)
	binary.LittleEndian.PutUint32(buf, uint32(size-4))
	small := simpleFeature(bx(5, 6, 7, 8), 8, 1, 0)
	var fs []flat.Feature
	var ps []*flat.Feature
	var refs []Ref
	var want []byte // of the small features
	at := int64(0)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			fs = append(fs, *flat.GetSizePrefixedRootAsFeature(buf, 0))
			refs = append(refs, Ref{Box: bx(1, 2, 3, 4), Offset: at})
			at += size
		} else {
			fs = append(fs, *asFeature(small))
			refs = append(refs, Ref{Box: bx(5, 6, 7, 8), Offset: at})
			at += int64(len(small))
			want = append(want, small...)
		}
	}
	for i := range fs {
		ps = append(ps, &fs[i])
	}
	w := &countW{}
	fw := flatgeobuf.NewFileWriter(w)
	hdr := encRoot(hdrTable(n, 2, nil), 0)
	total, err := fw.Header(asHeader(hdr))
	c.Check(err == nil, "Header: %v", err)
	pre := len(refMagic) + len(hdr)
	c.Check(total == pre, "Header returned %d", total)
	idx := int64(40 * refTotalNodes(n, 2))
	switch way {
	case 0, 1:
		var m int
		if way == 0 {
			m, err = fw.IndexData(fs)
		} else {
			m, err = fw.IndexDataPtr(ps)
		}
		c.Check(err == nil, "size %d: %v", size, err)
		c.Check(int64(m) == idx+at, "size %d: returned %d, expected %d", size, m, idx+at)
	default:
		t := mustTree(c, refs, 2)
		_, err = fw.Index(t)
		c.Check(err == nil, "size %d: %v", size, err)
		for i := range ps {
			m, err := fw.Data(ps[i])
			l := int64(len(small))
			if i%2 == 0 {
				l = size
			}
			c.Check(err == nil && int64(m) == l, "size %d: feature %d: %d, %v", size, i, m, err)
		}
	}
	c.Check(fw.Close() == nil, "Close fails")
	c.Check(w.total == int64(pre)+idx+at, "size %d: %d bytes emitted, expected %d", size, w.total, int64(pre)+idx+at)
	if len(w.small) >= pre+int(idx) {
		if d := checkAutoIndex(w.small[pre:], refs, 2); d != "" {
			c.Fail("size %d: wrong index: %s", size, d)
		}
	}
	c.Step(n)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

var hugeLock sync.Mutex

// propHuge: values whose length is near or beyond what the format can tell.
func propHuge(c *Ctx) {
	size := pick64(c, "size", []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5})
	str := c.Bool("string")
	hugeLock.Lock()
	defer hugeLock.Unlock()
	buf := hugeBuf(c, size)
	w := &countW{}
	pw := flatgeobuf.NewPropWriter(w)
	var n int
	var err error
	if str {
		n, err = pw.WriteString(unsafe.String(&buf[0], len(buf)))
	} else {
		n, err = pw.WriteBinary(buf)
	}
	c.Step(1)
	if size > math.MaxUint32 {
		c.Check(err != nil && n == 0 && w.total == 0, "%d bytes: returned %d, %v, emitted %d", size, n, err, w.total)
	} else {
		c.Check(err == nil && int64(n) == size+4 && w.total == size+4, "%d bytes: returned %d, %v, emitted %d", size, n, err, w.total)
		l := binary.LittleEndian.AppendUint32(nil, uint32(size))
		c.Check(len(w.small) == 4 && string(w.small) == string(l) || w.writes[0] > 4, "%d bytes: wrong length %x", size, w.small)
	}
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}
