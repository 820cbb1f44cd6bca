// P18: operations which may run concurrently, and their free-running pairs
// for the race detector. The controlled scheduler is in sched.go.

package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P18", Name: "race-pairs", Variant: "race", Run: racePairs})
	register(&Family{Prop: "P18", Name: "race-triples", Variant: "race", Run: raceTriples})
}

// concEnv is what concurrent operations share.
type concEnv struct {
	file   *fgb
	raw    []byte
	tree   *packedrtree.PackedRTree // from New
	loaded *packedrtree.PackedRTree // from Unmarshal
	index  *packedrtree.PackedRTree // from a file reader, which stays in use
	reader *flatgeobuf.FileReader
	hdr    *flat.Header
	feats  []*flat.Feature
	refs   []Ref
	// Another index, of which nothing is like the first.
	refs2  []Ref
	tree2  *packedrtree.PackedRTree
	index2 []byte
}

func concFile(n, ns int) *fgb {
	cols := []tbl{{cName: "id", cType: uint8(ctShort)}, {cName: "s", cType: uint8(ctString)}, {cName: "b", cType: uint8(ctBinary)}}
	f := &fgb{nodeSize: ns, known: true, hdr: encRoot(hdrTable(n, ns, tbl{hName: "ab", hColumns: cols, hEnvelope: []float64{0, 1, 2, 3}, hCrs: tbl{sOrg: "EPSG", sCode: int32(4326)}}), 0)}
	for i := 0; i < n; i++ {
		b := bx(float64(i), float64(n-i), float64(i)+1, float64(n-i))
		p := []byte{0, 0, byte(i), 0, 1, 0}
		p = append(p, encProp(ctString, fmt.Sprint("value ", i))...)
		p = append(append(p, 2, 0), encProp(ctBinary, bytes.Repeat([]byte{byte(i)}, i+1))...)
		f.feats = append(f.feats, encRoot(tbl{fGeometry: tbl{gType: uint8(7), gParts: []tbl{boxGeom(b)}}, fProperties: p}, i%2))
		f.boxes = append(f.boxes, b)
	}
	f.buildIndex(nil)
	// The code for big-endian hosts may be compiled in. To this host, it
	// speaks a format with reversed bytes.
	if t, err := packedrtree.New(f.refs, uint16(ns)); err == nil {
		var b bytes.Buffer
		if _, err = t.Marshal(&b); err == nil && bytes.Equal(b.Bytes(), swap8(f.index)) {
			f.index = b.Bytes()
		}
	}
	return f
}

// swap8 reverses each group of 8 bytes.
func swap8(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[i^7]
	}
	return r
}

func newConcEnv(f *fgb, raw []byte) *concEnv {
	e := &concEnv{file: f, raw: raw, refs: f.refs}
	must := func(err error) {
		if err != nil {
			panic(violation{"preparing: " + err.Error()})
		}
	}
	var err error
	e.tree, err = packedrtree.New(f.refs, uint16(f.nodeSize))
	must(err)
	for i := 0; i < 5; i++ {
		e.refs2 = append(e.refs2, Ref{Box: bx(-float64(i)-7.5, float64(i)*3+0.25, -float64(i)-6.125, float64(i)*3+50), Offset: 1<<40 + int64(i)*0x123456789})
	}
	e.tree2, err = packedrtree.New(e.refs2, 2)
	must(err)
	var b2 bytes.Buffer
	_, err = e.tree2.Marshal(&b2)
	must(err)
	e.index2 = b2.Bytes()
	e.loaded, err = packedrtree.Unmarshal(bytes.NewReader(f.index), len(f.refs), uint16(f.nodeSize))
	must(err)
	e.reader = flatgeobuf.NewFileReader(seekR{&src{data: raw}})
	_, err = e.reader.Header()
	must(err)
	e.index, err = e.reader.Index()
	must(err)
	e.hdr = asHeader(append([]byte{}, f.hdr...))
	for _, x := range f.feats {
		e.feats = append(e.feats, asFeature(append([]byte{}, x...)))
	}
	return e
}

func digestFeats(fs []flat.Feature) string {
	var b bytes.Buffer
	for i := range fs {
		fmt.Fprintf(&b, "%x;", fs[i].Table().Bytes)
	}
	return b.String()
}

// A concOp performs one operation and describes its result. Exclusive
// operations use the shared reader, which is not safe for concurrent use.
type concOp struct {
	name      string
	exclusive bool
	run       func(e *concEnv) string
}

// The matches of qLast are at the end, so that others must be skipped.
var qBig, qSmall, qLast = bx(-10, -10, 100, 100), bx(1, 0, 1.5, 10), bx(2.5, 0, 2.5, 100)

var concOps = []concOp{
	{"Search", false, func(e *concEnv) string { return fmt.Sprint(e.tree.Search(qBig)) }},
	{"Search (small)", false, func(e *concEnv) string { return fmt.Sprint(e.tree.Search(qSmall)) }},
	{"inspect", false, func(e *concEnv) string {
		return fmt.Sprint(e.tree.Bounds(), e.tree.NumRefs(), e.tree.NodeSize(), e.tree.String())
	}},
	{"Marshal", false, func(e *concEnv) string {
		sk := &sink{}
		n, err := e.tree.Marshal(plainW{sk})
		return fmt.Sprintf("%d %v %x", n, err, sk.buf)
	}},
	{"Marshal (other)", false, func(e *concEnv) string {
		sk := &sink{}
		n, err := e.tree2.Marshal(plainW{sk})
		return fmt.Sprintf("%d %v %x", n, err, sk.buf)
	}},
	{"Search (other)", false, func(e *concEnv) string { return fmt.Sprint(e.tree2.Search(bx(-10, 0, -8, 9)), e.tree2.String()) }},
	{"New (other)", false, func(e *concEnv) string {
		t, err := packedrtree.New(e.refs2, 3)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(t.Search(bx(-10, 0, -8, 9)), t.Bounds())
	}},
	{"HilbertSort (other)", false, func(e *concEnv) string {
		r := append([]Ref{}, e.refs2...)
		packedrtree.HilbertSort(r, bx(-100, -10, 50, 100))
		return fmt.Sprint(r)
	}},
	{"Unmarshal (other)", false, func(e *concEnv) string {
		t, err := packedrtree.Unmarshal(plainR{&src{data: e.index2}}, len(e.refs2), 2)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(t.Search(bx(-10, 0, -8, 9)), t.Bounds())
	}},
	{"Seek (other)", false, func(e *concEnv) string {
		r, err := packedrtree.Seek(seekR{&src{data: e.index2}}, len(e.refs2), 2, bx(-10, 0, -8, 9))
		return fmt.Sprint(r, err)
	}},
	{"Search (loaded)", false, func(e *concEnv) string {
		return fmt.Sprint(e.loaded.Search(qBig), e.loaded.Bounds())
	}},
	{"Search (reader's index)", false, func(e *concEnv) string { return fmt.Sprint(e.index.Search(qSmall), e.index.Search(qBig)) }},
	{"HeaderString", false, func(e *concEnv) string { return flatgeobuf.HeaderString(e.hdr) }},
	{"FeatureString", false, func(e *concEnv) string { return flatgeobuf.FeatureString(e.feats[0], e.hdr) }},
	{"FeatureString (other)", false, func(e *concEnv) string { return flatgeobuf.FeatureString(e.feats[1], e.hdr) }},
	{"ReadSchema", false, func(e *concEnv) string {
		vals, err := flatgeobuf.NewPropReader(bytes.NewReader(e.feats[1].PropertiesBytes())).ReadSchema(e.hdr)
		s := fmt.Sprint(err)
		for i := range vals {
			s += fmt.Sprintf(" %d=%s:%v", vals[i].ColIndex, vals[i].Col.Name(), vals[i].Value)
		}
		return s
	}},
	{"HilbertSort", false, func(e *concEnv) string {
		r := append([]Ref{}, e.refs...)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		packedrtree.HilbertSort(r, bx(0, 0, 16, 16))
		return fmt.Sprint(r)
	}},
	{"New", false, func(e *concEnv) string {
		t, err := packedrtree.New(e.refs, uint16(e.file.nodeSize))
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(t.Search(qSmall), t.Bounds())
	}},
	{"Unmarshal", false, func(e *concEnv) string {
		t, err := packedrtree.Unmarshal(plainR{&src{data: e.file.index}}, len(e.refs), uint16(e.file.nodeSize))
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(t.Search(qSmall), t.Bounds())
	}},
	{"Seek", false, func(e *concEnv) string {
		r, err := packedrtree.Seek(seekR{&src{data: e.file.index}}, len(e.refs), uint16(e.file.nodeSize), qSmall)
		return fmt.Sprint(r, err)
	}},
	{"Seek (big)", false, func(e *concEnv) string {
		r, err := packedrtree.Seek(seekR{&src{data: e.file.index}}, len(e.refs), uint16(e.file.nodeSize), qBig)
		return fmt.Sprint(r, err)
	}},
	{"Data", false, func(e *concEnv) string {
		r := flatgeobuf.NewFileReader(plainR{&src{data: e.raw}})
		h, err := r.Header()
		if err != nil {
			return err.Error()
		}
		s := fmt.Sprintf("%x ", h.Table().Bytes)
		p := make([]flat.Feature, 2)
		for {
			n, err := r.Data(p)
			s += digestFeats(p[:n]) + "|"
			if err != nil {
				return s + err.Error()
			}
		}
	}},
	{"IndexSearch (unseekable)", false, func(e *concEnv) string {
		r := flatgeobuf.NewFileReader(plainR{&src{data: e.raw}})
		if _, err := r.Header(); err != nil {
			return err.Error()
		}
		fs, err := r.IndexSearch(qLast)
		return digestFeats(fs) + fmt.Sprint(err)
	}},
	{"IndexSearch (seekable)", false, func(e *concEnv) string {
		r := flatgeobuf.NewFileReader(seekR{&src{data: e.raw}})
		if _, err := r.Header(); err != nil {
			return err.Error()
		}
		fs, err := r.IndexSearch(qLast)
		s := digestFeats(fs) + fmt.Sprint(err, r.Rewind())
		fs, err = r.DataRem()
		return s + digestFeats(fs) + fmt.Sprint(err)
	}},
	{"shared index in its reader", true, func(e *concEnv) string {
		s := fmt.Sprint(e.reader.Rewind())
		fs, err := e.reader.IndexSearch(qLast)
		s += digestFeats(fs) + fmt.Sprint(err, e.reader.Rewind())
		t, err := e.reader.Index()
		return s + fmt.Sprint(err, t.Bounds(), t == e.index)
	}},
	{"IndexDataPtr", false, func(e *concEnv) string {
		sk := &sink{}
		w := flatgeobuf.NewFileWriter(plainW{sk})
		_, err := w.Header(e.hdr)
		n, err2 := w.IndexDataPtr(append([]*flat.Feature{}, e.feats...))
		return fmt.Sprintf("%v %v %d %x %v", err, err2, n, sk.buf, w.Close())
	}},
	{"Index and Data", false, func(e *concEnv) string {
		sk := &sink{}
		w := flatgeobuf.NewFileWriter(closeW{sk})
		_, err := w.Header(e.hdr)
		_, err2 := w.Index(e.tree)
		s := fmt.Sprint(err, err2)
		for _, f := range e.feats {
			n, err := w.Data(f)
			s += fmt.Sprint(" ", n, err)
		}
		return s + fmt.Sprintf("%x %v", sk.buf, w.Close())
	}},
	{"properties", false, func(e *concEnv) string {
		sk := &sink{}
		w := flatgeobuf.NewPropWriter(plainW{sk})
		for t := range columnTypeNames {
			if _, err := writeProp(w, t, sampleValue(t, 1)); err != nil {
				return err.Error()
			}
		}
		s := fmt.Sprintf("%x", sk.buf)
		r := flatgeobuf.NewPropReader(plainR{&src{data: sk.buf}})
		for t := range columnTypeNames {
			v, err := readProp(r, t)
			s += fmt.Sprint(" ", v, err)
		}
		return s
	}},
	{"Magic and Size", false, func(e *concEnv) string {
		v, err := flatgeobuf.Magic(plainR{&src{data: e.raw}})
		n, err2 := packedrtree.Size(1000, 16)
		b := packedrtree.EmptyBox
		b.ExpandXY(1, 2)
		return fmt.Sprint(v, err, n, err2, b.String(), packedrtree.EmptyBox)
	}},
	{"failing calls", false, func(e *concEnv) string {
		r := flatgeobuf.NewFileReader(plainR{&src{data: e.raw[:len(e.raw)-5]}})
		_, err := r.Header()
		_, err2 := r.DataRem()
		_, err3 := r.Data(make([]flat.Feature, 1))
		w := flatgeobuf.NewFileWriter(plainW{&sink{}})
		_, err4 := w.Data(e.feats[0])
		_, err5 := packedrtree.Unmarshal(plainR{&src{data: e.file.index[:50]}}, len(e.refs), uint16(e.file.nodeSize))
		return fmt.Sprint(err, err2, err3, err4, err5, r.Close(), r.Close())
	}},
}

// concAlone computes what each operation returns when alone.
func concAlone(f *fgb, raw []byte) []string {
	var r []string
	for _, o := range concOps {
		r = append(r, o.run(newConcEnv(f, raw)))
	}
	return r
}

type concFiles struct {
	f     *fgb
	raw   []byte
	alone []string
}

func (c *Ctx) concFile(n, ns int) *concFiles {
	k := fmt.Sprint("conc", n, ns)
	if v, ok := c.x.shared.Load(k); ok {
		return v.(*concFiles)
	}
	f := concFile(n, ns)
	v := &concFiles{f, f.bytes(), nil}
	v.alone = concAlone(v.f, v.raw)
	c.x.shared.Store(k, v)
	return v
}

// racePairs: every pair of operations, free running under the race
// detector.
func racePairs(c *Ctx) { raceRun(c, 2) }

// raceTriples: triples of operations under the race detector.
func raceTriples(c *Ctx) { raceRun(c, 3) }

// raceRun starts k operations at once, several times; the race detector
// reports unsynchronized conflicting accesses whatever their order was.
//
// They run at the same time, but also one after the other, as the detector
// only knows the latest few accesses to a word.
func raceRun(c *Ctx, k int) {
	var ops []int
	excl := 0
	for i := 0; i < k; i++ {
		from := 0
		if i > 0 {
			from = ops[i-1]
		}
		o := from + c.Choose("operation", len(concOps)-from)
		ops = append(ops, o)
		if concOps[o].exclusive {
			excl++
		}
	}
	if excl > 1 {
		c.Stop()
	}
	n, ns := 5, 2
	if k == 2 {
		n = []int{5, 40}[c.Choose("features", 2)]
		ns = []int{2, 16}[c.Choose("node size", 2)]
	}
	f := c.concFile(n, ns)
	for rep := 0; rep < pickInt(c, 4, 20); rep++ {
		e := newConcEnv(f.f, f.raw)
		out := make([]string, k)
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		var g gate
		for i, o := range ops {
			ready.Add(1)
			done.Add(1)
			go func(i, o int) {
				defer done.Done()
				defer func() {
					if r := recover(); r != nil {
						out[i] = fmt.Sprint("panic: ", r)
					}
				}()
				ready.Done()
				<-start
				// At the same time, or one after the other in any order.
				switch rep % 4 {
				case 1:
					g.await(i)
				case 2:
					g.await(k - 1 - i)
				}
				// The detector forgets what goroutines did that are gone.
				defer g.await(k)
				defer g.pass(i)
				out[i] = concOps[o].run(e)
			}(i, o)
		}
		ready.Wait()
		close(start)
		done.Wait()
		for i, o := range ops {
			c.Check(out[i] == f.alone[o], "%s, concurrently with %s: got %.300s, alone %.300s", concOps[o].name, opNames(ops), out[i], f.alone[o])
		}
		c.Step(k)
		c.Eval(k)
	}
	c.StateStr(fmt.Sprint(ops, n, ns))
}

// A gate knows which goroutines have passed it. The race detector does not
// see it and so does not take it for synchronization.
type gate [3]bool

//go:norace
func (g *gate) await(n int) {
	for {
		k := 0
		for i := range g {
			if g[i] {
				k++
			}
		}
		if k >= n {
			return
		}
		runtime.Gosched()
	}
}

//go:norace
func (g *gate) pass(i int) { g[i] = true }

func opNames(ops []int) string {
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += " + "
		}
		s += concOps[o].name
	}
	return s
}
