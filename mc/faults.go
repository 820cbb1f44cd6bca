// P08 (stream behaviour and stream errors) and P09 (truncation).

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P08", Name: "fault-reader", Quick: 1, Thorough: 2, Run: faultReader})
	register(&Family{Prop: "P08", Name: "fault-kinds-reader", Quick: 1, Thorough: 2, Run: faultReaderKinds})
	register(&Family{Prop: "P08", Name: "fault-kinds-other", Quick: 2, Thorough: 3, Run: faultOtherKinds})
	register(&Family{Prop: "P08", Name: "fault-reader-deep", Quick: 2, Thorough: 3, Run: faultReaderDeep})
	register(&Family{Prop: "P08", Name: "fault-skip", Quick: 2, Thorough: 2, Run: faultSkip})
	register(&Family{Prop: "P08", Name: "fault-unmarshal", Quick: 2, Thorough: 3, Run: faultUnmarshal})
	register(&Family{Prop: "P08", Name: "fault-seek", Quick: 2, Thorough: 3, Run: faultSeek})
	register(&Family{Prop: "P08", Name: "fault-properties", Quick: 2, Thorough: 3, Run: faultProps})
	register(&Family{Prop: "P08", Name: "fault-magic", Quick: 2, Thorough: 3, Run: faultMagic})
	faultLevel["P08"] = "case = (call history, stream operation index, delivery or failure); every operation x every alternative up to the deviation bound; distinct = distinct choice lists"
	register(&Family{Prop: "P09", Name: "cut-file", Run: cutFile})
	register(&Family{Prop: "P09", Name: "cut-histories", Run: cutHistories})
	register(&Family{Prop: "P09", Name: "cut-many", Run: cutMany})
	register(&Family{Prop: "P09", Name: "cut-large", Run: cutLarge})
	register(&Family{Prop: "P09", Name: "cut-index", Run: cutIndex})
	register(&Family{Prop: "P09", Name: "cut-properties", Run: cutProps})
	faultLevel["P09"] = "case = (file, cut position, way of reading); every cut position; distinct = distinct (file, way, outcome class)"
}

// res is what one reader call returned.
type res struct {
	fs   []flat.Feature
	tree *packedrtree.PackedRTree
	hdr  *flat.Header
	err  error
}

func execOp(r *flatgeobuf.FileReader, o rop) (x res) {
	switch o.kind {
	case opHeader:
		x.hdr, x.err = r.Header()
	case opIndex:
		x.tree, x.err = r.Index()
	case opSearch:
		x.fs, x.err = r.IndexSearch(o.q)
	case opData:
		p := make([]flat.Feature, o.k)
		var n int
		n, x.err = r.Data(p)
		x.fs = p[:n]
	case opDataRem:
		x.fs, x.err = r.DataRem()
	case opRewind:
		x.err = r.Rewind()
	case opClose:
		x.err = r.Close()
	}
	return
}

func featBytes(f *flat.Feature) []byte {
	t := f.Table()
	return t.Bytes
}

// prefixOf tells whether got is a prefix of want.
func prefixOf(got, want []flat.Feature) string {
	if len(got) > len(want) {
		return fmt.Sprintf("%d features, expected at most %d", len(got), len(want))
	}
	for i := range got {
		g, w := got[i].Table(), want[i].Table()
		if !bytes.Equal(g.Bytes, w.Bytes) || g.Pos != w.Pos {
			return fmt.Sprintf("feature %d differs", i)
		}
	}
	return ""
}

// sameRes compares two results of the same call.
func sameRes(got, want res) string {
	if (got.err == nil) != (want.err == nil) || (got.err == io.EOF) != (want.err == io.EOF) ||
		errors.Is(got.err, flatgeobuf.ErrNoIndex) != errors.Is(want.err, flatgeobuf.ErrNoIndex) {
		return fmt.Sprintf("error is %v, expected %v", got.err, want.err)
	}
	if len(got.fs) != len(want.fs) {
		return fmt.Sprintf("%d features, expected %d", len(got.fs), len(want.fs))
	}
	if d := prefixOf(got.fs, want.fs); d != "" {
		return d
	}
	if (got.tree == nil) != (want.tree == nil) || (got.hdr == nil) != (want.hdr == nil) {
		return "result missing"
	}
	if got.tree != nil {
		var a, b bytes.Buffer
		_, _ = got.tree.Marshal(&a)
		_, _ = want.tree.Marshal(&b)
		if !bytes.Equal(a.Bytes(), b.Bytes()) {
			return "index differs"
		}
	}
	if got.hdr != nil {
		g, w := got.hdr.Table(), want.hdr.Table()
		if !bytes.Equal(g.Bytes, w.Bytes) || g.Pos != w.Pos {
			return "header differs"
		}
	}
	return ""
}

// faulty makes every operation of a stream a decision. hard is set when an
// operation failed, soft when an error came along with all the bytes asked
// for.
type faulty struct {
	hard, soft bool
	deliveries bool // also vary legal deliveries
	ops        int
	err        error // what the stream fails with; errInjected by default
	seekErr    error // what a failing seek returns, if not err
}

// temporary is an error that claims to be transient.
type temporary struct{}

func (temporary) Error() string   { return "injected timeout" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

// faultKinds are errors which are easily mistaken for the end of the stream
// or for something to be retried. None of them is io.EOF itself, so each is
// a failure.
var faultKinds = []error{fmt.Errorf("injected: connection lost: %w", io.EOF), io.ErrUnexpectedEOF, temporary{}, io.ErrNoProgress}

func (f *faulty) attach(c *Ctx, s *src) {
	if f.err == nil {
		f.err = errInjected
	}
	s.onRead = func(want, avail int) (int, error) {
		f.ops++
		n := want
		if n > avail {
			n = avail
		}
		var eof error
		if avail == 0 && want > 0 {
			eof = io.EOF
		}
		type alt struct {
			n    int
			err  error
			hard bool
		}
		alts := []alt{{n, eof, false}, {0, f.err, true}}
		if n > 1 {
			alts = append(alts, alt{n / 2, f.err, true}, alt{n - 1, f.err, true})
		}
		if n > 0 && n == want {
			alts = append(alts, alt{n, f.err, false})
		} else if n > 0 {
			alts = append(alts, alt{n, f.err, true})
		}
		if f.deliveries {
			alts = append(alts, alt{0, nil, false})
			if n > 1 {
				alts = append(alts, alt{1, nil, false}, alt{n - 1, nil, false})
			}
			if n == avail && n > 0 {
				alts = append(alts, alt{n, io.EOF, false})
			}
		}
		a := alts[c.Dev("read", len(alts))]
		if a.err == f.err {
			if a.hard {
				f.hard = true
			} else {
				f.soft = true
			}
		}
		return a.n, a.err
	}
	s.onSeek = func(off int64, whence int) error {
		f.ops++
		if c.Dev("seek", 2) == 1 {
			f.hard = true
			if f.seekErr != nil {
				return f.seekErr
			}
			return f.err
		}
		return nil
	}
}

// is tells whether an error carries the injected one.
func (f *faulty) is(err error) bool {
	return errors.Is(err, f.err) || f.seekErr != nil && errors.Is(err, f.seekErr)
}

// faultRun runs a program on a healthy and on a faulty stream.
func faultRun(c *Ctx, f *fgb, prog []rop, seekable bool, deliveries bool) {
	faultRunKind(c, f, prog, seekable, &faulty{deliveries: deliveries})
}

func faultRunKind(c *Ctx, f *fgb, prog []rop, seekable bool, ft *faulty) {
	b := f.bytes()
	healthy := flatgeobuf.NewFileReader((&src{data: b}).asReader(seekable, true))
	s := &src{data: b}
	r := flatgeobuf.NewFileReader(s.asReader(seekable, true))
	ft.attach(c, s)
	var hist []string
	for _, o := range prog {
		hist = append(hist, o.String())
		ft.hard, ft.soft = false, false
		want := execOp(healthy, o)
		got := execOp(r, o)
		c.Step(1)
		fail := func(format string, a ...interface{}) {
			c.Fail("%s (seekable=%v): %s", strings.Join(hist, ", "), seekable, fmt.Sprintf(format, a...))
		}
		if ft.hard && got.err == nil {
			fail("succeeded although the stream failed")
		}
		if (ft.hard || ft.soft) && got.err != nil && got.err != io.EOF && !(want.err != nil && sameRes(got, want) == "") {
			if !ft.is(got.err) {
				fail("error %q does not carry the cause", got.err)
			}
			if d := prefixOf(got.fs, want.fs); d != "" {
				fail("with error %v, returned %s", got.err, d)
			}
			if got.hdr != nil || got.tree != nil {
				fail("returned a result along with error %v", got.err)
			}
			afterFault(c, r, s, hist)
			return
		}
		if ft.hard && got.err == io.EOF {
			fail("reported end of file although the stream failed")
		}
		if d := sameRes(got, want); d != "" {
			fail("differs from reading from memory: %s", d)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// afterFault checks that a reader stays failed.
func afterFault(c *Ctx, r *flatgeobuf.FileReader, s *src, hist []string) {
	s.onRead, s.onSeek = nil, nil // the fault was transient
	all := bx(-99, -99, 99, 99)
	order := []rop{{kind: opData, k: 1}, {kind: opRewind}, {kind: opDataRem}, {kind: opIndex}, {kind: opSearch, q: all}, {kind: opHeader}, {kind: opData, k: 0}, {kind: opRewind}, {kind: opData, k: 2}}
	switch c.Choose("first call after the failure", 3) {
	case 1: // Nothing needs to be read for an empty batch.
		order = append([]rop{{kind: opData, k: 0}}, order...)
	case 2:
		order = append([]rop{{kind: opRewind}, {kind: opIndex}}, order...)
	}
	for _, o := range order {
		x := execOp(r, o)
		c.Step(1)
		if x.err == nil || x.err == io.EOF || len(x.fs) > 0 || x.hdr != nil || x.tree != nil {
			c.Fail("%s: failed, but then %v returned %d features, error %v (reads must keep failing)", strings.Join(hist, ", "), o, len(x.fs), x.err)
		}
	}
	if err := r.Close(); err != nil || s.closed != 1 {
		c.Fail("%s: failed, then Close returned %v and closed the stream %d times", strings.Join(hist, ", "), err, s.closed)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

var faultOps = []rop{
	{kind: opData, k: 1}, {kind: opDataRem}, {kind: opIndex}, {kind: opSearch, q: bx(1, 1, 1.5, 1.5)}, {kind: opRewind}, {kind: opData, k: 2},
	{kind: opSearch, q: bx(-9, -9, 99, 99)}, {kind: opData, k: 9},
}

var faultConfigs = []rconfig{
	{n: 3, known: true, nodeSize: 2}, {n: 2, known: false, nodeSize: 0}, {n: 2, known: true, nodeSize: 0}, {n: 2, known: true, nodeSize: 16}, {n: 0, known: false, nodeSize: 0},
	{n: 5, known: true, nodeSize: 2},
}

// faultReader: all short programs, one or two deviations.
func faultReader(c *Ctx) {
	f := c.cachedFile(faultConfigs[c.Choose("config", len(faultConfigs))])
	seekable := c.Bool("seekable")
	prog := []rop{{kind: opHeader}}
	max := 5
	if c.x.fam.Rich {
		max = pickInt(c, 4, 5)
	}
	n := c.Choose("length", max)
	for i := 0; i < n; i++ {
		prog = append(prog, faultOps[c.Choose("call", len(faultOps))])
	}
	faultRun(c, f, prog, seekable, n < 4)
}

// faultReaderDeep: representative programs with more deviations.
func faultReaderDeep(c *Ctx) { faultReaderProgs(c, &faulty{deliveries: true}) }

// faultReaderKinds: the same with errors that resemble others.
func faultReaderKinds(c *Ctx) {
	faultReaderProgs(c, faultOfKind(c))
}

func faultOfKind(c *Ctx) *faulty {
	k := c.Choose("kind of error", len(faultKinds)+1)
	if k == len(faultKinds) { // A seek is not where io.EOF means the end.
		return &faulty{seekErr: io.EOF}
	}
	return &faulty{err: faultKinds[k]}
}

func faultReaderProgs(c *Ctx, ft *faulty) {
	f := c.cachedFile(faultConfigs[c.Choose("config", len(faultConfigs))])
	seekable := c.Bool("seekable")
	h, ix, rem, rew := rop{kind: opHeader}, rop{kind: opIndex}, rop{kind: opDataRem}, rop{kind: opRewind}
	d1, d2, d9 := rop{kind: opData, k: 1}, rop{kind: opData, k: 2}, rop{kind: opData, k: 9}
	s1, sA := rop{kind: opSearch, q: bx(1, 1, 1.5, 1.5)}, rop{kind: opSearch, q: bx(-9, -9, 99, 99)}
	progs := [][]rop{
		{h, rem}, {h, d1, d1, d1, d1}, {h, d9}, {h, ix, rem}, {h, s1}, {h, sA}, {h, ix, rew, s1}, {h, s1, rew, rem}, {h, d1, rew, ix, d2}, {h, rem, rew, rem},
	}
	faultRunKind(c, f, progs[c.Choose("program", len(progs))], seekable, ft)
}

// faultOtherKinds: the other operations with errors that resemble others.
func faultOtherKinds(c *Ctx) {
	ft := faultOfKind(c)
	refs := layoutRefs(1, 17, 0)
	tree := buildRefTree(refs, 4).bytes()
	s := &src{}
	ft.attach(c, s)
	var err error
	what := [...]string{"Unmarshal", "Seek", "ReadSchema", "Magic"}[c.Choose("operation", 4)]
	empty := false
	switch what {
	case "Unmarshal":
		s.data = tree
		var t *packedrtree.PackedRTree
		t, err = packedrtree.Unmarshal(s.asReader(false, false), len(refs), 4)
		empty = t == nil
	case "Seek":
		s.data = tree
		var r packedrtree.Results
		r, err = packedrtree.Seek(s.asReadSeeker(), len(refs), 4, bx(-9, -9, 99, 99))
		empty = len(r) == 0
	case "ReadSchema":
		s.data = propSampleVal.bytes
		var v []flatgeobuf.PropValue
		v, err = flatgeobuf.NewPropReader(s.asReader(false, false)).ReadSchema(propSampleVal.schema)
		empty = len(v) == 0
	case "Magic":
		s.data = refMagic
		_, err = flatgeobuf.Magic(s.asReader(false, false))
		empty = true
	}
	c.Step(1)
	checkFaultErr(c, ft, what, err)
	c.Check(err == nil || empty, "%s returned a result along with error %v", what, err)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// faultSkip: long skips on unseekable and seekable streams.
func faultSkip(c *Ctx) {
	k := c.Choose("file", 2)
	c.x.mu.Lock()
	if skipFiles[k] == nil {
		if k == 0 {
			boxes := []Box{bx(5, 5, 6, 6), bx(0, 0, 1, 1), bx(5, 5, 6, 6), bx(0, 0, 1, 1)}
			skipFiles[k] = simpleFile(boxes, 2, true, []int{16200, 1, 8100, 40}, nil)
		} else {
			skipFiles[k] = simpleFile(layout(1, 420), 16, true, []int{1}, nil)
		}
	}
	f := skipFiles[k]
	c.x.mu.Unlock()
	var prog []rop
	if c.Bool("search") {
		prog = []rop{{kind: opHeader}, {kind: opSearch, q: bx(0, 0, 1, 1)}, {kind: opRewind}, {kind: opSearch, q: bx(0, 0, 0.5, 0.5)}}
		if k == 1 {
			prog = prog[:2]
		}
	} else {
		prog = []rop{{kind: opHeader}, {kind: opData, k: 1}}
	}
	faultRun(c, f, prog, c.Bool("seekable"), true)
}

var skipFiles [2]*fgb

// faultUnmarshal: every delivery and failure while loading an index.
func faultUnmarshal(c *Ctx) {
	n := []int{1, 2, 5, 17}[c.Choose("n", 4)]
	ns := []int{2, 16}[c.Choose("nodeSize", 2)]
	refs := layoutRefs(1, n, 0)
	b := append(buildRefTree(refs, ns).bytes(), 1, 2, 3)
	s := &src{data: b}
	ft := &faulty{deliveries: true}
	ft.attach(c, s)
	t, err := packedrtree.Unmarshal(s.asReader(false, false), n, uint16(ns))
	c.Step(1)
	checkFaultErr(c, ft, "Unmarshal", err)
	if err != nil {
		c.Check(t == nil, "Unmarshal returned an index along with error %v", err)
	} else {
		checkTreeInfo(c, t, refs, ns)
		var o bytes.Buffer
		_, _ = t.Marshal(&o)
		c.Check(bytes.Equal(o.Bytes(), b[:len(b)-3]), "index differs from the stream")
		c.Check(s.pos == int64(len(b)-3), "Unmarshal consumed %d bytes, expected %d", s.pos, len(b)-3)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

func checkFaultErr(c *Ctx, ft *faulty, what string, err error) {
	if ft.hard {
		c.Check(err != nil, "%s succeeded although the stream failed", what)
	}
	if err != nil {
		c.Check(ft.hard || ft.soft, "%s failed (%v) although the stream did not", what, err)
		c.Check(ft.is(err), "%s: error %q does not carry the cause", what, err)
	}
}

// faultSeek: every delivery and failure of a streaming search.
func faultSeek(c *Ctx) {
	n := []int{1, 2, 5, 17}[c.Choose("n", 4)]
	ns := []int{2, 3, 16}[c.Choose("nodeSize", 3)]
	refs := layoutRefs(1, n, 0)
	b := append(make([]byte, 7), buildRefTree(refs, ns).bytes()...)
	end := int64(len(b))
	b = append(b, 1, 2, 3)
	s := &src{data: b, pos: 7}
	ft := &faulty{deliveries: true}
	ft.attach(c, s)
	qs := layoutQueries(refs, 4)
	q := qs[c.Choose("query", len(qs))]
	r, err := packedrtree.Seek(s.asReadSeeker(), n, uint16(ns), q)
	c.Step(1)
	checkFaultErr(c, ft, "Seek", err)
	if err != nil {
		c.Check(len(r) == 0, "Seek returned results along with error %v", err)
	} else {
		checkSearch(c, "Seek", r, refs, q)
		c.Check(s.pos == end, "Seek left the stream at %d, expected %d", s.pos, end)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propSample is a property stream with one property of every type.
type propSample struct {
	schema  *flat.Header
	bytes   []byte
	bounds  []int // positions between properties
	columns []int
	want    []interface{}
}

func makePropSample() *propSample {
	p := &propSample{}
	var cols []tbl
	for i := range columnTypeNames {
		cols = append(cols, tbl{cName: fmt.Sprint("c", i), cType: uint8(i)})
	}
	p.schema = asHeader(encRoot(tbl{hColumns: cols}, 0))
	p.bounds = []int{0}
	for i := range columnTypeNames {
		v := sampleValue(i, 0)
		p.bytes = append(p.bytes, byte(i), 0)
		p.bytes = append(p.bytes, encProp(i, v)...)
		p.bounds = append(p.bounds, len(p.bytes))
		p.columns = append(p.columns, i)
		p.want = append(p.want, v)
	}
	return p
}

func (p *propSample) compare(vals []flatgeobuf.PropValue, n int) string {
	if len(vals) != n {
		return fmt.Sprintf("%d values, expected %d", len(vals), n)
	}
	for i := range vals {
		if int(vals[i].ColIndex) != p.columns[i] || int(vals[i].Type) != p.columns[i] {
			return fmt.Sprintf("value %d is of column %d, type %v; expected %d", i, vals[i].ColIndex, vals[i].Type, p.columns[i])
		}
		if d := sameValue(vals[i].Value, p.want[i]); d != "" {
			return fmt.Sprintf("value %d: %s", i, d)
		}
	}
	return ""
}

var propSampleVal = makePropSample()

// faultProps: every delivery and failure while decoding properties of all
// types.
func faultProps(c *Ctx) {
	p := propSampleVal
	s := &src{data: p.bytes}
	ft := &faulty{deliveries: true}
	ft.attach(c, s)
	vals, err := flatgeobuf.NewPropReader(s.asReader(false, false)).ReadSchema(p.schema)
	c.Step(1)
	checkFaultErr(c, ft, "ReadSchema", err)
	if err != nil {
		c.Check(len(vals) == 0, "ReadSchema returned %d values along with error %v", len(vals), err)
	} else {
		d := p.compare(vals, len(p.want))
		c.Check(d == "", "ReadSchema: %s", d)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// faultMagic: every delivery and failure while recognizing a file.
func faultMagic(c *Ctx) {
	s := &src{data: append(append([]byte{}, refMagic...), 9, 9)}
	ft := &faulty{deliveries: true}
	ft.attach(c, s)
	v, err := flatgeobuf.Magic(s.asReader(false, false))
	c.Step(1)
	checkFaultErr(c, ft, "Magic", err)
	if err == nil {
		c.Check(v.Major == 3 && v.Patch == 1 && s.pos == 8, "Magic returned %v, consumed %d bytes", v, s.pos)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// ---- P09

// cutState follows what a truncated file still holds.
type cutState struct {
	f        *fgb
	cut      int
	complete int // features wholly before the cut
	boundary bool
}

func newCut(f *fgb, cut int) *cutState {
	k := &cutState{f: f, cut: cut}
	at := f.dataStart()
	if cut == at {
		k.boundary = true
	}
	for i := range f.feats {
		at += len(f.feats[i])
		if at <= cut {
			k.complete = i + 1
		}
		if at == cut {
			k.boundary = true
		}
	}
	return k
}

// whole tells whether the cut file is itself complete.
func (k *cutState) whole() bool {
	if k.f.known {
		return k.complete == len(k.f.feats)
	}
	return k.boundary
}

// check checks the features returned from a position, and tells whether the
// reader failed.
func (k *cutState) check(c *Ctx, hist string, o rop, x res, pos *int) (failed bool) {
	fail := func(format string, a ...interface{}) {
		c.Fail("file of %d bytes cut at %d: %s: %s", len(k.f.bytes()), k.cut, hist, fmt.Sprintf(format, a...))
	}
	hdrEnd := len(k.f.prefix())
	switch o.kind {
	case opHeader:
		if k.cut < hdrEnd {
			if x.err == nil || x.hdr != nil {
				fail("accepted a truncated header")
			}
			if k.cut > 0 && errors.Is(x.err, io.EOF) {
				fail("truncation reported as an end of file: %v", x.err)
			}
			return true
		}
		if x.err != nil {
			fail("error %v", x.err)
		}
	case opIndex:
		if k.cut < hdrEnd+len(k.f.index) {
			if x.err == nil || x.tree != nil {
				fail("accepted a truncated index")
			}
			if errors.Is(x.err, io.EOF) {
				fail("truncation reported as an end of file: %v", x.err)
			}
			return true
		}
		if x.err != nil || (x.tree != nil) != (k.f.index != nil) {
			fail("error %v", x.err)
		}
	case opSearch:
		if x.err == nil {
			k.f.checkFeatures(c, fmt.Sprintf("cut at %d: %s", k.cut, hist), x.fs, k.f.matching(o.q))
			return false
		}
		if errors.Is(x.err, io.EOF) {
			fail("truncation reported as an end of file: %v", x.err)
		}
		return true
	case opData, opDataRem:
		rest := seqInts(*pos, k.complete)
		if len(x.fs) > len(rest) {
			fail("returned %d features, but only %d are complete", len(x.fs), len(rest))
		}
		k.f.checkFeatures(c, fmt.Sprintf("cut at %d: %s", k.cut, hist), x.fs, rest[:len(x.fs)])
		*pos += len(x.fs)
		want := len(rest)
		if o.kind == opData && o.k < want {
			want = o.k
		}
		done := o.kind == opData && o.k <= len(rest) // did not need anything missing
		if k.cut < hdrEnd+len(k.f.index) {
			// Nothing can be read; a batch of no features need not.
			if x.err == nil && o.kind == opData && o.k == 0 {
				return false
			}
			if x.err == nil || errors.Is(x.err, io.EOF) {
				fail("truncated index: error is %v", x.err)
			}
			return true
		}
		if len(x.fs) != want {
			fail("returned %d features, expected %d (error %v)", len(x.fs), want, x.err)
		}
		if done {
			if x.err != nil && !(x.err == io.EOF && k.whole() && *pos == k.complete) {
				fail("error %v although all features asked for are complete", x.err)
			}
			return false
		}
		if k.whole() {
			if o.kind == opDataRem && x.err != nil || o.kind == opData && x.err != io.EOF {
				fail("error %v at the end of a complete file", x.err)
			}
			return false
		}
		if x.err == nil || errors.Is(x.err, io.EOF) {
			fail("truncation reported as error %v", x.err)
		}
		return true
	}
	return false
}

func cutRun(c *Ctx, f *fgb, cut int, prog []rop, seekable bool, ch int) string {
	s := &src{data: f.bytes()[:cut]}
	_, s.onRead = chunking(ch)
	return cutRunOn(c, f, cut, prog, seekable, ch, s)
}

func cutRunOn(c *Ctx, f *fgb, cut int, prog []rop, seekable bool, ch int, s *src) string {
	k := newCut(f, cut)
	r := flatgeobuf.NewFileReader(s.asReader(seekable, false))
	pos := 0
	hist := fmt.Sprintf("(seekable=%v, delivery %d)", seekable, ch)
	failed := false
	out := ""
	for _, o := range prog {
		hist += " " + o.String()
		x := execOp(r, o)
		c.Step(1)
		out += fmt.Sprint(x.err == nil, x.err == io.EOF, len(x.fs), ";")
		if failed && (o.kind != opRewind || x.err != nil) {
			// Nothing may be delivered past the missing part, nor may
			// the end of the data be reported.
			if (x.err == nil && o.kind != opData || x.err == nil && o.k > 0 || x.err == io.EOF || len(x.fs) > 0) && o.kind != opRewind {
				c.Fail("file cut at %d: %s: after the truncation was reported, returned %d features, error %v", cut, hist, len(x.fs), x.err)
			}
			continue
		}
		if o.kind == opRewind {
			if x.err == nil {
				failed, pos = false, 0
			} else if seekable {
				c.Fail("file cut at %d: %s: error %v", cut, hist, x.err)
			} else {
				return out
			}
			continue
		}
		failed = k.check(c, hist, o, x, &pos)
		if o.kind == opSearch && !failed {
			pos = len(f.feats)
			return out
		}
	}
	return out
}

var cutFiles = []rconfig{
	{n: 3, known: true, nodeSize: 2}, {n: 2, known: false, nodeSize: 0}, {n: 2, known: true, nodeSize: 0}, {n: 1, known: true, nodeSize: 16}, {n: 3, known: false, nodeSize: 16},
	{n: 5, known: true, nodeSize: 3}, {n: 0, known: false, nodeSize: 0},
}

// cutFile: every cut position of several files, read by every program of a
// list.
func cutFile(c *Ctx) {
	f := c.cachedFile(cutFiles[c.Choose("file", len(cutFiles))])
	total := len(f.bytes())
	cut := c.Choose("cut", total)
	h, ix, rem := rop{kind: opHeader}, rop{kind: opIndex}, rop{kind: opDataRem}
	d := func(k int) rop { return rop{kind: opData, k: k} }
	s := func(b Box) rop { return rop{kind: opSearch, q: b} }
	rew := rop{kind: opRewind}
	n := len(f.feats)
	progs := [][]rop{
		{h, rem, rem, d(1), rem}, {h, d(n + 5), d(1), rem}, {h, d(1), d(1), d(1), d(1), d(1), d(1), d(1)}, {h, d(2), rem, d(3)}, {h, d(0), d(n), d(1)},
		{h, ix, rem, d(1)}, {h, ix, d(1), d(9)}, {h, rem, rew, rem}, {h, ix, rew, d(1), rem}, {h, d(1), rew, d(n), d(1)},
	}
	if f.index != nil {
		progs = append(progs, []rop{h, s(bx(-99, -99, 99, 99)), d(1)}, []rop{h, s(bx(4.5, 4.5, 5, 5))}, []rop{h, s(bx(0, 0, 0.5, 0.5)), rem}, []rop{h, s(bx(-5, -5, -4, -4))},
			[]rop{h, ix, rew, s(bx(-99, -99, 99, 99))}, []rop{h, d(1), rew, s(bx(-99, -99, 99, 99))}, []rop{h, s(bx(1, 1, 2, 2)), rew, rem})
	}
	out := ""
	for i, p := range progs {
		for _, seekable := range []bool{true, false} {
			for _, ch := range []int{0, 1, 5, 7} {
				o := cutRun(c, f, cut, p, seekable, ch)
				c.Eval(1)
				c.StateStr(fmt.Sprint(values(c.trace)[0], i, seekable, o))
				out += o
			}
		}
	}
}

// cutHistories reads truncated files by all short call sequences.
func cutHistories(c *Ctx) {
	f := c.cachedFile(cutFiles[c.Choose("file", 4)])
	total := len(f.bytes())
	cut := c.Choose("cut", total)
	ops := []rop{{kind: opData, k: 1}, {kind: opDataRem}, {kind: opIndex}, {kind: opRewind}, {kind: opData, k: 2}}
	prog := []rop{{kind: opHeader}}
	for i := 0; i < pickInt(c, 4, 6); i++ {
		prog = append(prog, ops[c.Choose("call", len(ops))])
	}
	// Out-of-order calls are the business of P06.
	st := 0
	for _, o := range prog[1:] {
		switch o.kind {
		case opIndex:
			if st != 0 {
				return
			}
			st = 1
		case opData, opDataRem:
			st = 1
		case opRewind:
			st = 0
		}
	}
	for _, seekable := range []bool{true, false} {
		o := cutRun(c, f, cut, prog, seekable, 0)
		c.StateStr(o + fmt.Sprint(seekable))
	}
}

// cutMany cuts files with many features, around the batch and preallocation
// sizes of the reader.
func cutMany(c *Ctx) {
	ns := []int{1023, 1024, 1025, 2048, 2049, 65536, 65537}
	n := ns[c.Choose("n", len(ns))]
	known := c.Bool("known count")
	key := fmt.Sprint(n, known)
	c.x.mu.Lock()
	if manyFiles == nil {
		manyFiles = map[string]*fgb{}
	}
	f := manyFiles[key]
	if f == nil {
		f = bigFile(n, known, 0)
		manyFiles[key] = f
	}
	c.x.mu.Unlock()
	size := len(f.feats[0])
	at := []int{0, 1, 1023, 1024, 1025, 2047, 2048, n - 2, n - 1, n}[c.Choose("feature", 10)]
	if at > n {
		c.Stop()
	}
	cut := f.dataStart() + at*size + []int{0, 1, 4, 5, size - 1, -1, -size + 4}[c.Choose("byte", 7)]
	if cut < 0 || cut >= f.dataStart()+n*size {
		c.Stop()
	}
	h, rem := rop{kind: opHeader}, rop{kind: opDataRem}
	progs := [][]rop{{h, rem, rem}, {h, {kind: opData, k: 1}, rem, rem}, {h, {kind: opData, k: 1024}, rem, {kind: opData, k: 1}}, {h, {kind: opData, k: n}, {kind: opData, k: 1}}}
	o := cutRun(c, f, cut, progs[c.Choose("program", len(progs))], c.Bool("seekable"), 0)
	c.StateStr(o)
}

var manyFiles map[string]*fgb

// cutLarge cuts files with large skips.
func cutLarge(c *Ctx) {
	k := c.Choose("file", 2)
	c.x.mu.Lock()
	if cutSkip[k] == nil {
		if k == 0 {
			boxes := []Box{bx(5, 5, 6, 6), bx(0, 0, 1, 1), bx(5, 5, 6, 6), bx(0, 0, 1, 1)}
			cutSkip[k] = simpleFile(boxes, 2, true, []int{16200, 1, 8100, 40}, nil)
		} else {
			cutSkip[k] = simpleFile(layout(1, 420), 16, true, []int{1}, nil)
		}
	}
	f := cutSkip[k]
	c.x.mu.Unlock()
	total := len(f.bytes())
	step := pickInt(c, 97, 3)
	i := c.Choose("cut", total/step+40)
	cut := i * step
	if i >= total/step {
		// Around the section borders.
		cut = []int{len(f.prefix()), f.dataStart(), f.dataStart() + len(f.feats[0]), total - 10}[(i-total/step)/10] + (i-total/step)%10 - 5
	}
	if cut >= total {
		c.Stop()
	}
	h, rem := rop{kind: opHeader}, rop{kind: opDataRem}
	s := func(b Box) rop { return rop{kind: opSearch, q: b} }
	for _, p := range [][]rop{{h, s(bx(0, 0, 1, 1))}, {h, s(bx(-9999, -9999, 9999, 9999))}, {h, rem}, {h, {kind: opIndex}, {kind: opRewind}, s(bx(0, 0, 1, 1))}} {
		for _, seekable := range []bool{true, false} {
			c.StateStr(cutRun(c, f, cut, p, seekable, 0))
		}
	}
}

var cutSkip [2]*fgb

// cutIndex: every cut position of an index, loaded and searched, in all
// chunkings.
func cutIndex(c *Ctx) {
	counts := []int{1, 2, 3, 4, 5, 17, 33, 100}
	if c.thorough {
		counts = append(counts, 400)
	}
	n := counts[c.Choose("n", len(counts))]
	ns := []int{2, 3, 16}[c.Choose("nodeSize", 3)]
	cutIndexOf(c, n, ns, 5)
}

func cutIndexOf(c *Ctx, n, ns, numQ int) {
	refs := layoutRefs(1, n, 0)
	b := buildRefTree(refs, ns).bytes()
	cut := c.Choose("cut", len(b))
	for _, ch := range []int{0, 1, 5, 7} {
		s := &src{data: b[:cut]}
		_, s.onRead = chunking(ch)
		t, err := packedrtree.Unmarshal(s.asReader(false, false), n, uint16(ns))
		c.Step(1)
		c.Check(err != nil && t == nil, "Unmarshal accepted an index of %d refs cut at %d of %d", n, cut, len(b))
		for _, q := range layoutQueries(refs, numQ) {
			s = &src{data: b[:cut]}
			_, s.onRead = chunking(ch)
			r, err := packedrtree.Seek(s.asReadSeeker(), n, uint16(ns), q)
			c.Step(1)
			if err != nil {
				c.Check(len(r) == 0, "Seek returned results along with error %v", err)
			} else {
				checkSearch(c, fmt.Sprintf("Seek in an index cut at %d of %d", cut, len(b)), r, refs, q)
			}
			c.Eval(1)
		}
	}
	// Large indexes are read in several portions.
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// cutProps: every cut position of a property stream, in all chunkings.
func cutProps(c *Ctx) {
	p := propSampleVal
	cut := c.Choose("cut", len(p.bytes)+1)
	ch := c.Choose("delivery", numChunkings)
	s := &src{data: p.bytes[:cut]}
	_, s.onRead = chunking(ch)
	vals, err := flatgeobuf.NewPropReader(s.asReader(false, false)).ReadSchema(p.schema)
	c.Step(1)
	whole := -1
	for i, b := range p.bounds {
		if b == cut {
			whole = i
		}
	}
	if whole >= 0 {
		c.Check(err == nil, "properties cut between two properties: %v", err)
		d := p.compare(vals, whole)
		c.Check(d == "", "properties cut between two properties: %s", d)
	} else {
		c.Check(err != nil && len(vals) == 0, "properties cut at %d of %d decoded to %d values, error %v", cut, len(p.bytes), len(vals), err)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}
