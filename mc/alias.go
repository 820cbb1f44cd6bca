// P19: results and inputs are never aliased or modified.

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P19", Name: "alias-reader", Run: aliasReader})
	register(&Family{Prop: "P19", Name: "alias-reader-sizes", Run: aliasReaderSizes})
	register(&Family{Prop: "P19", Name: "alias-reader-tiny", Run: aliasReaderTiny})
	register(&Family{Prop: "P19", Name: "alias-tree", Run: aliasTree})
	register(&Family{Prop: "P19", Name: "alias-properties", Run: aliasProps})
	register(&Family{Prop: "P19", Name: "alias-property-pairs", Run: aliasPropPairs})
	register(&Family{Prop: "P19", Name: "alias-writer", Run: aliasWriter})
	register(&Family{Prop: "P19", Name: "alias-property-writer", Run: aliasPropWriter})
	register(&Family{Prop: "P19", Name: "alias-strings", Run: aliasStrings})
}

// kept is a result with its content when it was returned.
type kept struct {
	what string
	live []byte // shares memory with the result
	want []byte
}

type keeper struct {
	c    *Ctx
	list []*kept
}

func (k *keeper) keep(what string, live []byte) {
	k.list = append(k.list, &kept{what, live, append([]byte{}, live...)})
}

func (k *keeper) features(what string, fs []flat.Feature) {
	for i := range fs {
		k.keep(fmt.Sprintf("feature %d of %s", i, what), fs[i].Table().Bytes)
	}
}

func (k *keeper) verify(after string) {
	for _, x := range k.list {
		if !bytes.Equal(x.live, x.want) {
			k.c.Fail("%s changed: % .60x, was % .60x, after %s", x.what, x.live, x.want, after)
		}
	}
	k.c.Eval(len(k.list))
}

// scribble overwrites one result after another, spare capacity included, and
// checks that the others do not change.
func (k *keeper) scribble(hist string) {
	for i, x := range k.list {
		full := x.live[:cap(x.live)]
		for j := range full {
			full[j] ^= 0xa5
		}
		x.want = append([]byte{}, x.live...)
		for j, y := range k.list {
			if j != i && !bytes.Equal(y.live, y.want) {
				k.c.Fail("overwriting %s changed %s, after %s", x.what, y.what, hist)
			}
		}
		k.c.Eval(1)
	}
}

// aliasReader: all call sequences; every result is kept, the source buffer
// is reused, results are overwritten, and what is read afterwards must still
// be right.
func aliasReader(c *Ctx) {
	kinds := c.Choose("file", 3)
	seekable := c.Bool("seekable")
	boxes := []Box{bx(0, 0, 1, 1), bx(4, 4, 5, 5), bx(0, 0, 5, 5)}
	f := simpleFile(boxes, []int{2, 16, 0}[kinds], kinds < 2, []int{0, 3, 40}, nil)
	s := &src{data: f.bytes()}
	scribbleMid := c.Bool("overwrite results at once")
	depth := pickInt(c, 4, 5)
	r := flatgeobuf.NewFileReader(s.asReader(seekable, true))
	k := &keeper{c: c}
	var hist []string
	ops := []rop{{kind: opHeader}, {kind: opIndex}, {kind: opSearch, q: bx(0, 0, 2, 2)}, {kind: opData, k: 1}, {kind: opDataRem}, {kind: opRewind}, {kind: opData, k: 5}}
	var tree *packedrtree.PackedRTree
	all := bx(-10, -10, 10, 10)
	pos := 0 // which feature comes next
	step := func(o rop) {
		hist = append(hist, o.String())
		h := strings.Join(hist, ", ")
		var fs []flat.Feature
		c.Step(1)
		switch o.kind {
		case opHeader:
			hdr, err := r.Header()
			if err == nil {
				c.Check(bytes.Equal(hdr.Table().Bytes, f.hdr), "%s: wrong header", h)
				k.keep("header", hdr.Table().Bytes)
			}
		case opIndex:
			t, err := r.Index()
			if err == nil && t != nil {
				tree = t
				checkSearch(c, h, t.Search(all), f.refs, all)
			}
		case opSearch:
			got, err := r.IndexSearch(o.q)
			if err == nil {
				f.checkFeatures(c, h, got, f.matching(o.q))
				pos = len(f.feats)
				fs = got
			}
		case opData:
			p := make([]flat.Feature, o.k)
			n, _ := r.Data(p)
			f.checkFeatures(c, h, p[:n], seqInts(pos, len(f.feats))[:n])
			pos += n
			fs = p[:n]
		case opDataRem:
			got, err := r.DataRem()
			if err == nil {
				f.checkFeatures(c, h, got, seqInts(pos, len(f.feats)))
				pos = len(f.feats)
				fs = got
			}
		case opRewind:
			if r.Rewind() == nil && len(hist) > 2 {
				pos = 0
			}
		}
		k.verify(h)
		k.features(h, fs)
		if scribbleMid {
			k.scribble(h)
		}
	}
	step(ops[0])
	for i := 0; i < depth; i++ {
		step(ops[1+c.Choose("call", len(ops)-1)])
	}
	_ = r.Close()
	h := strings.Join(hist, ", ")
	k.verify(h + ", Close")
	// The buffer the stream was reading from is reused.
	for i := range s.data {
		s.data[i] = 0xEE
	}
	k.verify(h + ", Close, reuse of the source buffer")
	if tree != nil {
		checkSearch(c, "index after reuse of the source buffer", tree.Search(all), f.refs, all)
	}
	k.scribble(h)
	c.StateStr(fmt.Sprint(kinds, seekable, h))
}

// aliasReaderSizes: features of many sizes, read in batches, then each
// overwritten and appended to.
func aliasReaderSizes(c *Ctx) {
	var pads []int
	for i := 0; i < 6; i++ {
		pads = append(pads, []int{0, 1, 30, 470, 990, 4000, 17000, 70000}[c.Choose("size", pickInt(c, 4, 6))+c.Choose("bigger", 2)*2])
		if i == 1 {
			pads = append(pads, pads[0], pads[1], 5, 300)
			break
		}
	}
	var boxes []Box
	for range pads {
		boxes = append(boxes, bx(0, 0, 1, 1))
	}
	batch := 1 + c.Choose("batch", 4)
	f := simpleFile(boxes, []int{0, 2}[c.Choose("index", 2)], true, pads, nil)
	s := &src{data: f.bytes()}
	_, s.onRead = chunking(c.Choose("delivery", 3) * 2)
	r := flatgeobuf.NewFileReader(s.asReader(false, false))
	k := &keeper{c: c}
	_, err := r.Header()
	c.Check(err == nil, "Header: %v", err)
	p := make([]flat.Feature, batch)
	pos := 0
	for {
		n, err := r.Data(p)
		c.Step(1)
		f.checkFeatures(c, "Data", p[:n], seqInts(pos, pos+n))
		k.verify("later Data")
		k.features(fmt.Sprintf("batch at %d", pos), p[:n])
		pos += n
		if err != nil {
			break
		}
	}
	c.Check(pos == len(f.feats), "read %d of %d features", pos, len(f.feats))
	k.scribble("reading everything")
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasReaderTiny: all pairs of small sizes, from the empty table on.
func aliasReaderTiny(c *Ctx) {
	a, b := c.Choose("size", pickInt(c, 70, 200)), c.Choose("other size", pickInt(c, 70, 200))
	how := c.Choose("how", 5)
	f := &fgb{known: how != 1, nodeSize: []int{0, 0, 0, 2, 2}[how], hdr: nil}
	cnt := 4
	if !f.known {
		cnt = 0
	}
	f.hdr = encRoot(hdrTable(cnt, f.nodeSize, nil), 1)
	for i, n := range []int{a, b, a, b} {
		t := tbl{}
		if n > 0 {
			t[fProperties] = bytes.Repeat([]byte{byte(0x31 + 16*i)}, n-1)
		}
		f.feats = append(f.feats, encRoot(t, (i+a)%2))
		f.boxes = append(f.boxes, bx(0, 0, 1, 1))
	}
	if f.nodeSize > 0 {
		f.buildIndex(nil)
	}
	s := &src{data: f.bytes()}
	r := flatgeobuf.NewFileReader(s.asReader(how == 4, false))
	k := &keeper{c: c}
	h, err := r.Header()
	c.Check(err == nil, "Header: %v", err)
	k.keep("the header", h.Table().Bytes)
	pos := 0
	got := func(what string, fs []flat.Feature) {
		c.Step(1)
		k.verify(what)
		f.checkFeatures(c, what, fs, seqInts(pos, pos+len(fs)))
		k.features(what, fs)
		pos += len(fs)
	}
	switch how {
	case 0, 1:
		for i := 0; i < 4; i += how + 1 {
			p := make([]flat.Feature, how+1)
			n, err := r.Data(p)
			c.Check(err == nil || pos+n == 4, "Data: %v", err)
			got("Data", p[:n])
		}
	case 2:
		fs, err := r.DataRem()
		c.Check(err == nil, "DataRem: %v", err)
		got("DataRem", fs)
	default:
		fs, err := r.IndexSearch(bx(0, 0, 1, 1))
		c.Check(err == nil, "IndexSearch: %v", err)
		got("IndexSearch", fs)
		if how == 4 {
			c.Check(r.Rewind() == nil, "Rewind fails")
			pos = 0
			fs, err = r.DataRem()
			c.Check(err == nil, "DataRem: %v", err)
			got("DataRem", fs)
		}
	}
	c.Check(pos == 4, "read %d of 4 features", pos)
	for i := range s.data {
		s.data[i] = 0xEE
	}
	k.verify("reuse of the source buffer")
	k.scribble("reading everything")
	c.StateStr(fmt.Sprint(values(c.trace)))
}

func keepResults(rs Results) Results { return append(Results{}, rs...) }

// aliasTree: the list the index was built from, the serialized bytes it was
// loaded from, and returned results are overwritten between searches.
func aliasTree(c *Ctx) {
	n := []int{1, 2, 3, 5, 17, 40, 300}[c.Choose("n", 7)]
	ns := []int{2, 3, 16}[c.Choose("node size", 3)]
	kind := c.Choose("layout", 6)
	refs := layoutRefs(kind, n, 1)
	orig := append([]Ref{}, refs...)
	tree := mustTree(c, refs, ns)
	same := func(what string) {
		for i := range refs {
			if refs[i] != orig[i] {
				c.Fail("%s changed the caller's list", what)
			}
		}
	}
	if c.Bool("loaded") {
		b := buildRefTree(refs, ns).bytes()
		s := &src{data: b}
		t, err := packedrtree.Unmarshal(s.asReader(false, false), n, uint16(ns))
		c.Check(err == nil, "Unmarshal: %v", err)
		for i := range b {
			b[i] = 0xEE
		}
		tree = t
	}
	same("New")
	var sink1 sink
	_, err := tree.Marshal(sink1.asWriter(false))
	c.Check(err == nil, "Marshal: %v", err)
	want := append([]byte{}, sink1.buf...)
	qs := layoutQueries(orig, pickInt(c, 5, 12))
	var got []Results
	var copies []Results
	for _, q := range qs {
		rs := tree.Search(q)
		checkSearch(c, "search", rs, orig, q)
		got, copies = append(got, rs), append(copies, keepResults(rs))
	}
	same("searching")
	// The list is overwritten.
	for i := range refs {
		refs[i] = Ref{Box: bx(-1e6, -1e6, 1e6, 1e6), Offset: 0x77}
	}
	check := func(after string) {
		for i := range got {
			if !sameResults(got[i], copies[i]) {
				c.Fail("results of search %d changed after %s", i, after)
			}
		}
		for _, q := range qs {
			checkSearch(c, "search after "+after, tree.Search(q), orig, q)
		}
		checkTreeInfo(c, tree, orig, ns)
		var s2 sink
		_, _ = tree.Marshal(s2.asWriter(false))
		if !bytes.Equal(s2.buf, want) {
			c.Fail("the index serializes differently after %s", after)
		}
		c.Eval(len(qs))
	}
	check("the list it was built from was overwritten")
	for i := range got {
		full := got[i][:cap(got[i])]
		for j := range full {
			full[j] = packedrtree.Result{Offset: -7, RefIndex: -7}
		}
		copies[i] = keepResults(got[i])
		if i < 3 || i == len(got)-1 {
			check("a result list was overwritten")
		}
	}
	c.Step(3 * len(qs))
	for _, q := range qs {
		for i := 0; i < 2; i++ {
			rs := tree.Search(q)
			checkSearch(c, "the same search again", rs, orig, q)
			for j := range rs {
				rs[j] = packedrtree.Result{Offset: -7, RefIndex: -7}
			}
			_ = append(rs, packedrtree.Result{Offset: -8, RefIndex: -8})
		}
	}
	b := tree.Bounds()
	b.XMin, b.YMax = -99, 99
	check("the returned bounds were changed")
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasProps: decoded values stay, whatever happens to the source, the
// reader and the other values.
func aliasProps(c *Ctx) {
	n := 2 + c.Choose("properties", pickInt(c, 2, 3))
	var types []int
	for i := 0; i < n; i++ {
		types = append(types, []int{ctString, ctBinary, ctJson, ctDateTime, ctULong}[c.Choose("type", 5)])
	}
	lens := c.Choose("lengths", 4)
	var b []byte
	var cols, ts []int
	var want []interface{}
	var schemaTypes []int
	for i, t := range types {
		l := []int{1, 8, 40, 600}[(lens+i)%4]
		p := bytes.Repeat([]byte{byte('a' + i)}, l)
		var v interface{}
		switch t {
		case ctString, ctDateTime:
			v = string(p)
		case ctBinary, ctJson:
			v = p
		default:
			v = uint64(i + 5)
		}
		b = append(append(b, byte(i), 0), encProp(t, v)...)
		cols, ts, want = append(cols, i), append(ts, t), append(want, v)
		schemaTypes = append(schemaTypes, t)
	}
	kind := c.Choose("stream", len(reusableKinds))
	schema := schemaOf(schemaTypes, c.Bool("feature schema"))
	src1 := append(append([]byte{}, b...), b...)
	s1, spoil1 := reusable(kind, src1)
	r := flatgeobuf.NewPropReader(s1)
	vals, err := r.ReadSchema(schema)
	c.Step(1)
	c.Check(err == nil && len(vals) == 2*n, "ReadSchema: %d, %v", len(vals), err)
	check := func(after string, skip int) {
		for i, v := range vals {
			if i == skip {
				continue
			}
			d := sameValue(v.Value, want[i%n])
			c.Check(d == "", "value %d after %s: %s", i, after, d)
			c.Check(string(v.Col.Name()) == fmt.Sprint("c", cols[i%n]), "value %d after %s refers to column %s", i, after, v.Col.Name())
		}
		c.Eval(1)
	}
	check("decoding", -1)
	// Single reads give independent values, too.
	s2, spoil2 := reusable(kind, src1)
	pr := flatgeobuf.NewPropReader(s2)
	var singles []interface{}
	for i := 0; i < 2*n; i++ {
		_, err = pr.ReadUShort()
		c.Check(err == nil, "reading: %v", err)
		v, err := readProp(pr, ts[i%n])
		c.Check(err == nil, "reading: %v", err)
		singles = append(singles, v)
	}
	spoil1()
	spoil2()
	check("reuse of the source buffer", -1)
	for i, v := range singles {
		d := sameValue(v, want[i%n])
		c.Check(d == "", "single value %d: %s", i, d)
	}
	for i := range vals {
		if p, ok := vals[i].Value.([]byte); ok {
			full := p[:cap(p)]
			for j := range full {
				full[j] = 0xDD
			}
			vals[i].Value = append([]byte{}, want[i%n].([]byte)...)
			check(fmt.Sprintf("overwriting value %d", i), -1)
			for j, v := range singles {
				d := sameValue(v, want[j%n])
				c.Check(d == "", "single value %d after overwriting a list's value: %s", j, d)
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasPropPairs: all pairs of types and of small lengths, with a different
// content for each value.
func aliasPropPairs(c *Ctx) {
	ts := []int{ctString, ctBinary, ctJson, ctDateTime}
	t1, t2 := ts[c.Choose("type", 4)], ts[c.Choose("other type", 4)]
	n1, n2 := c.Choose("length", pickInt(c, 36, 130)), c.Choose("other length", pickInt(c, 36, 130))
	value := func(t, n, i int) interface{} {
		p := bytes.Repeat([]byte{byte('a' + i)}, n)
		if t == ctString || t == ctDateTime {
			return string(p)
		}
		return p
	}
	var b []byte
	var want []interface{}
	for i := 0; i < 4; i++ {
		v := value(t1, n1, i)
		if i%2 == 1 {
			v = value(t2, n2, i)
		}
		want = append(want, v)
		b = append(append(b, byte(i%2), 0), encProp([]int{t1, t2}[i%2], v)...)
	}
	buf := append([]byte{}, b...)
	r := flatgeobuf.NewPropReader(bytes.NewReader(buf))
	vals, err := r.ReadSchema(schemaOf([]int{t1, t2}, false))
	c.Check(err == nil && len(vals) == 4, "ReadSchema: %d, %v", len(vals), err)
	var got []interface{}
	for _, v := range vals {
		got = append(got, v.Value)
	}
	pr := flatgeobuf.NewPropReader(bytes.NewReader(buf))
	for i := 0; i < 4; i++ {
		_, err = pr.ReadUShort()
		c.Check(err == nil, "reading: %v", err)
		v, err := readProp(pr, []int{t1, t2}[i%2])
		c.Check(err == nil, "reading: %v", err)
		got = append(got, v)
	}
	for i := range buf {
		buf[i] = 0xEE
	}
	c.Step(9)
	for i, v := range got {
		if d := sameValue(v, want[i%4]); d != "" {
			c.Fail("value %d (types %d, %d of lengths %d, %d): %s", i, t1, t2, n1, n2, d)
		}
	}
	for i, v := range got {
		if p, ok := v.([]byte); ok {
			for j := range p[:cap(p)] {
				p[:cap(p)][j] = 0xDD
			}
			got[i] = nil
			for j, v := range got {
				if v == nil {
					continue
				}
				if d := sameValue(v, want[j%4]); d != "" {
					c.Fail("value %d after overwriting value %d: %s", j, i, d)
				}
			}
		}
	}
	c.Eval(len(got))
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasWriter: no writing call modifies what it is given; neither does what
// the caller does with it afterwards change the output already made.
func aliasWriter(c *Ctx) {
	configs := []wconfig{{n: 1, nodeSize: 2}, {n: 3, nodeSize: 2}, {n: 4, nodeSize: 16}, {n: 3, nodeSize: 0}, {n: 0, nodeSize: 0}}
	g := configs[c.Choose("config", len(configs))]
	prog := c.Choose("program", 5)
	order := c.Choose("feature order", 6)
	fail := c.Choose("fault", 3)
	m := c.material(g)
	// Private copies of everything, in one arena with guard bytes.
	hdrB := append(append([]byte{}, m.hdr...), 1, 2, 3)
	k := &keeper{c: c}
	k.keep("the header", hdrB)
	n := g.n
	if n == 0 {
		n = 2
	}
	perm := []int{}
	for i := 0; i < n; i++ {
		perm = append(perm, i)
	}
	for i, o := 0, order; i < n; i++ { // the order-th permutation
		j := i + o%(n-i)
		o /= n - i
		perm[i], perm[j] = perm[j], perm[i]
	}
	var feats [][]byte
	var fs []flat.Feature
	var ps []*flat.Feature
	for _, i := range perm {
		b := append(append([]byte{}, m.feats[i]...), 7, 7)
		k.keep(fmt.Sprint("feature ", i), b)
		feats = append(feats, m.feats[i])
		fs = append(fs, *asFeature(b))
	}
	for i := range fs {
		ps = append(ps, &fs[i])
	}
	fsCopy, psCopy := append([]flat.Feature{}, fs...), append([]*flat.Feature{}, ps...)
	hist := ""
	check := func(what string) {
		hist += what
		c.Step(1)
		k.verify(hist)
		for i := range fs {
			a, b := fs[i].Table(), fsCopy[i].Table()
			c.Check(a.Pos == b.Pos && len(a.Bytes) == len(b.Bytes) && &a.Bytes[0] == &b.Bytes[0], "%s: entry %d of the caller's feature list changed", hist, i)
			c.Check(ps[i] == psCopy[i], "%s: entry %d of the caller's pointer list changed", hist, i)
		}
		hist += ", "
	}
	s := &sink{}
	switch fail {
	case 1: // everything from the third write on
		s.onWrite = func(p []byte) (int, error) {
			if s.writes > 2 {
				return len(p) / 2, errInjected
			}
			return len(p), nil
		}
	case 2:
		s.onWrite = func(p []byte) (int, error) {
			if s.writes > 3 {
				return 0, errInjected
			}
			return len(p), nil
		}
	}
	w := flatgeobuf.NewFileWriter(s.asWriter(true))
	var refs, refsCopy []Ref
	h := asHeader(hdrB)
	_, _ = w.Header(h)
	check("Header")
	switch prog {
	case 0:
		_, _ = w.IndexData(fs)
		check("IndexData")
	case 1:
		_, _ = w.IndexDataPtr(ps)
		check("IndexDataPtr")
	case 2, 3:
		if g.n > 0 && g.nodeSize > 0 {
			refs = append([]Ref{}, m.refs...)
			refsCopy = append([]Ref{}, refs...)
			t := mustTree(c, refs, g.nodeSize)
			_, _ = w.Index(t)
			check("Index")
			for i := range refs {
				c.Check(refs[i] == refsCopy[i], "%s: the list of references changed", hist)
			}
			checkSearch(c, "Search of a written index", t.Search(bx(-100, -100, 100, 100)), refs, bx(-100, -100, 100, 100))
		}
	}
	for i := range fs {
		_, _ = w.Data(&fs[i])
		check(fmt.Sprintf("Data(%d)", i))
	}
	if prog == 3 {
		_, _ = w.IndexData(fs)
		check("IndexData")
		_, _ = w.IndexDataPtr(ps)
		check("IndexDataPtr")
		_, _ = w.Data(&fs[0])
		check("Data")
	}
	out := append([]byte{}, s.buf...)
	_ = w.Close()
	check("Close")
	c.Check(bytes.Equal(out, s.buf) || len(s.buf) > len(out), "closing changed the output")
	if fail == 0 && prog < 2 && g.n > 0 && g.nodeSize > 0 {
		var want []byte
		for _, b := range feats {
			want = append(want, b...)
		}
		c.Check(bytes.HasSuffix(s.buf, want), "%s: wrong output", hist)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasPropWriter: strings and byte slices given to the property writer.
func aliasPropWriter(c *Ctx) {
	n := []int{0, 1, 2, 3, 4, 5, 100, 255, 256, 5000, 70000}[c.Choose("length", 11)]
	twice := c.Bool("twice")
	kind := c.Choose("fault", 3)
	back := make([]byte, n+9)
	for i := range back {
		back[i] = byte(i)
	}
	want := append([]byte{}, back...)
	str := string(back[:n])
	s := &sink{}
	if kind > 0 {
		s.onWrite = func(p []byte) (int, error) {
			if s.writes == kind {
				return len(p) / 2, errInjected
			}
			return len(p), nil
		}
	}
	w := flatgeobuf.NewPropWriter(s.asWriter(false))
	for i := 0; i < 1+boolToInt(twice); i++ {
		_, _ = w.WriteBinary(back[:n])
		c.Check(bytes.Equal(back, want), "WriteBinary of %d bytes changed its argument or what follows it", n)
		_, _ = w.WriteString(str)
		c.Check(str == string(want[:n]), "WriteString of %d bytes changed its argument", n)
	}
	out := append([]byte{}, s.buf...)
	for i := range back {
		back[i] = 0xEE
	}
	c.Check(bytes.Equal(out, s.buf), "output changed with the argument")
	c.Step(2)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

func boolToInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// aliasStrings: summaries do not modify tables and do not change with them.
func aliasStrings(c *Ctx) {
	t := tbl{hName: "nm", hTitle: "tt", hEnvelope: []float64{1, 2, 3, 4}, hCrs: tbl{sOrg: "o", sWkt: "w"}, hColumns: []tbl{{cName: "a", cType: uint8(ctString)}, {cName: "b", cType: uint8(ctBinary)}}}
	layout := c.Choose("layout", 4)
	b := encAny("Header", t, layout)
	k := &keeper{c: c}
	k.keep("the header", b)
	h := asHeader(b)
	s1 := flatgeobuf.HeaderString(h)
	k.verify("HeaderString")
	s1c := strings.Clone(s1)
	props := append(append([]byte{0, 0}, encProp(ctString, "text")...), append([]byte{1, 0}, encProp(ctBinary, []byte{1, 2})...)...)
	ft := tbl{fProperties: props, fGeometry: tbl{gXy: []float64{1, 2, 3, 4}, gParts: []tbl{{gXy: []float64{7, 8}}}}}
	fb := encAny("Feature", ft, layout)
	k.keep("the feature", fb)
	f := asFeature(fb)
	s2 := flatgeobuf.FeatureString(f, h)
	k.verify("FeatureString")
	s2c := strings.Clone(s2)
	// Decode the properties in place, and overwrite the values.
	vals, err := flatgeobuf.NewPropReader(bytes.NewReader(f.PropertiesBytes())).ReadSchema(h)
	c.Check(err == nil && len(vals) == 2, "ReadSchema: %v", err)
	if p, ok := vals[1].Value.([]byte); ok {
		for i := range p[:cap(p)] {
			p[:cap(p)][i] = 0xEE
		}
	}
	k.verify("overwriting a decoded value")
	c.Check(flatgeobuf.FeatureString(f, h) == s2c && flatgeobuf.HeaderString(h) == s1c, "summaries differ the second time")
	for i := range fb {
		fb[i] = 0
	}
	for i := range b {
		b[i] = 0
	}
	c.Check(s1 == s1c && s2 == s2c, "summaries changed with the tables")
	c.Check(vals[0].Value == "text", "a decoded string changed with the table: %q", vals[0].Value)
	c.Step(4)
	c.Eval(1)
	c.StateStr(fmt.Sprint(layout))
}
