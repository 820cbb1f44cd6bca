// Streams of the types that programs really use, and streams with all the
// optional methods which the standard library's streams have (ReadByte,
// ReadAt, WriteTo, WriteString, ...): which type a stream has must not matter.

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	register(&Family{Prop: "P08", Name: "stream-types", Run: streamTypes})
	register(&Family{Prop: "P08", Name: "stream-types-other", Run: streamTypesOther})
	register(&Family{Prop: "P07", Name: "writer-types", Run: writerTypes})
	register(&Family{Prop: "P07", Name: "writer-nil", Run: writerNil})
	register(&Family{Prop: "P12", Name: "prop-types", Run: propTypes})
	register(&Family{Prop: "P19", Name: "alias-types", Run: aliasTypes})
	register(&Family{Prop: "P09", Name: "cut-types", Run: cutTypes})
	rich := func(prop, name string, quick, thorough int, run func(c *Ctx)) {
		register(&Family{Prop: prop, Name: name + "-rich", Quick: quick, Thorough: thorough, Rich: true, Run: run})
	}
	rich("P01", "roundtrip-sizes", 0, 0, roundtripSizes)
	rich("P01", "roundtrip-copy", 0, 0, roundtripCopy)
	rich("P03", "seek-shapes", 0, 0, seekShapes)
	rich("P03", "seek-delivery", 2, 3, seekDelivery)
	rich("P04", "unmarshal-delivery", 2, 3, unmarshalDelivery)
	rich("P05", "filesearch-shapes", 0, 0, fileSearchShapes)
	rich("P06", "reader-sequences", 0, 0, readerSequences)
	rich("P08", "fault-reader", 1, 2, faultReader)
	rich("P08", "fault-kinds-reader", 1, 2, faultReaderKinds)
	rich("P08", "fault-kinds-other", 2, 3, faultOtherKinds)
	rich("P08", "fault-skip", 1, 2, faultSkip)
	rich("P08", "fault-unmarshal", 1, 2, faultUnmarshal)
	rich("P08", "fault-seek", 1, 2, faultSeek)
	rich("P08", "fault-properties", 2, 3, faultProps)
	rich("P08", "fault-magic", 2, 3, faultMagic)
	rich("P09", "cut-histories", 0, 0, cutHistories)
	rich("P09", "cut-properties", 0, 0, cutProps)
	rich("P10", "writefault-histories", 1, 2, writeFaultHistories)
	rich("P10", "writefault-retries", 2, 3, writeFaultRetries)
	rich("P10", "writefault-index", 2, 2, writeFaultIndex)
	rich("P10", "writefault-properties", 2, 3, writeFaultProps)
	rich("P12", "prop-lengths", 0, 0, propLengths)
	rich("P12", "prop-primitives", 0, 0, propPrimitives)
	rich("P12", "prop-schema", 0, 0, propSchema)
	rich("P13", "badprop-cut", 0, 0, badPropCut)
	rich("P13", "badprop-cut-primitives", 0, 0, badPropCutPrim)
	rich("P13", "badprop-fault", 0, 0, badPropFault)
	rich("P13", "badprop-fault-primitives", 0, 0, badPropFaultPrim)
	rich("P19", "alias-reader", 0, 0, aliasReader)
	rich("P19", "alias-reader-tiny", 0, 0, aliasReaderTiny)
	rich("P19", "alias-property-writer", 0, 0, aliasPropWriter)
	rich("P21", "magic-delivery", 3, 5, magicDelivery)
	rich("P23", "economy-seek", 0, 0, economySeek)
	rich("P23", "economy-file", 0, 0, economyFile)
}

// readerTypes are the types of readers.
var readerTypes = []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "bufio.Reader of 16 bytes", "bufio.Reader", "os.File", "io.SectionReader", "io.LimitedReader", "io.MultiReader", "io.TeeReader", "io.PipeReader", "bufio.ReadWriter"}

// typedReader makes a reader of some type over data, the first skip bytes of
// which have been consumed already. The function returned reads what is left.
func typedReader(c *Ctx, kind, skip int, data []byte) (r io.Reader, seekable bool, done func() []byte) {
	rest := func(r io.Reader) func() []byte {
		return func() []byte {
			b, err := io.ReadAll(r)
			if err != nil {
				c.Fail("reading what is left of the %s: %v", readerTypes[kind], err)
			}
			return b
		}
	}
	switch readerTypes[kind] {
	case "bytes.Reader":
		r, seekable = bytes.NewReader(data), true
	case "bytes.Buffer":
		r = bytes.NewBuffer(data)
	case "strings.Reader":
		r, seekable = strings.NewReader(string(data)), true
	case "bufio.Reader of 16 bytes":
		r = bufio.NewReaderSize(plainR{&src{data: data}}, 16)
	case "bufio.Reader":
		r = bufio.NewReader(bytes.NewReader(data))
	case "bufio.ReadWriter":
		r = bufio.NewReadWriter(bufio.NewReader(bytes.NewReader(data)), bufio.NewWriter(io.Discard))
	case "os.File":
		f := tempFile(c, data)
		r, seekable = f, true
		g := f
		done = func() []byte {
			b, err := io.ReadAll(g)
			if err != nil && !errors.Is(err, os.ErrClosed) {
				c.Fail("reading what is left of the file: %v", err)
			}
			_ = g.Close()
			return b
		}
	case "io.SectionReader":
		r, seekable = io.NewSectionReader(strings.NewReader("xy"+string(data)+"z"), 2, int64(len(data))), true
	case "io.LimitedReader":
		r = io.LimitReader(bytes.NewReader(append(append([]byte{}, data...), 9, 9, 9)), int64(len(data)))
	case "io.MultiReader":
		var rs []io.Reader
		for i := 0; i < len(data); i += 33 {
			j := i + 33
			if j > len(data) {
				j = len(data)
			}
			rs = append(rs, bytes.NewReader(data[i:j]))
		}
		r = io.MultiReader(rs...)
	case "io.TeeReader":
		r = io.TeeReader(bytes.NewReader(data), io.Discard)
	case "io.PipeReader":
		pr, pw := io.Pipe()
		go func() {
			for i := 0; i < len(data); i += 50 {
				j := i + 50
				if j > len(data) {
					j = len(data)
				}
				if _, err := pw.Write(data[i:j]); err != nil {
					return
				}
			}
			_ = pw.Close()
		}()
		r = pr
		done = func() []byte {
			b, _ := io.ReadAll(pr)
			_ = pr.Close()
			return b
		}
	}
	if done == nil {
		done = rest(r)
	}
	if n, err := io.ReadFull(r, make([]byte, skip)); err != nil {
		panic(fmt.Sprintf("harness error: %d, %v", n, err))
	}
	return
}

// tempFile returns an open file with some content.
func tempFile(c *Ctx, data []byte) *os.File {
	f, err := os.CreateTemp(*flagTmp, "stream")
	if err != nil {
		panic("harness error: " + err.Error())
	}
	_ = os.Remove(f.Name())
	if _, err = f.Write(data); err == nil {
		_, err = f.Seek(0, io.SeekStart)
	}
	if err != nil {
		panic("harness error: " + err.Error())
	}
	return f
}

// typesFile is one with tables of more than one chunk.
func typesFile(c *Ctx, k int) *fgb {
	if k < len(faultConfigs) {
		return c.cachedFile(faultConfigs[k])
	}
	v, _ := c.x.shared.LoadOrStore(fmt.Sprint("types", k), simpleFile([]Box{bx(5, 5, 6, 6), bx(0, 0, 1, 1), bx(5, 5, 6, 6)}, 2, k == len(faultConfigs), []int{9000, 17000, 3}, nil))
	return v.(*fgb)
}

// streamTypes: short call histories on readers of all types, which need not
// be at their beginning, and where more may follow the file.
func streamTypes(c *Ctx) {
	kind := c.Choose("type", len(readerTypes))
	k := c.Choose("file", len(faultConfigs)+2)
	f := typesFile(c, k)
	skip := []int{0, 7}[c.Choose("skipped", 2)]
	data := append(bytes.Repeat([]byte{'f'}, skip), f.bytes()...)
	tail := []byte("fgbtail!")
	if f.known {
		data = append(data, tail...)
	}
	s := &src{}
	r, seekable, done := typedReader(c, kind, skip, data)
	defer func() { done() }()
	s.as = func(bool, bool) io.Reader { return r }
	d := newReader(c, f, s, seekable, false)
	ops := []rop{{kind: opIndex}, {kind: opSearch, q: bx(0, 0, 1.5, 1.5)}, {kind: opSearch, q: bx(-9, -9, 99, 99)}, {kind: opData, k: 1}, {kind: opData, k: 3}, {kind: opDataRem}, {kind: opRewind}}
	d.do(rop{kind: opHeader})
	n := c.Choose("length", pickInt(c, 4, 5))
	for i := 0; i < n; i++ {
		d.do(ops[c.Choose("call", len(ops))])
	}
	if d.st == rsEOF && d.pos == len(f.feats) && f.known {
		// All features have been read, and nothing else.
		if rest := done(); !bytes.Equal(rest, tail) {
			c.Fail("%s, after %s: %d bytes are left, expected the %d which do not belong to the file", readerTypes[kind], strings.Join(d.hist, ", "), len(rest), len(tail))
		}
	}
	if d.st != rsEOF {
		d.do(rop{kind: opClose})
		d.do(rop{kind: opData, k: 1})
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// streamTypesOther: the other operations on readers of all types.
func streamTypesOther(c *Ctx) {
	kind := c.Choose("type", len(readerTypes))
	skip := []int{0, 1, 40}[c.Choose("skipped", 3)]
	what := c.Choose("operation", 4)
	n := []int{1, 2, 17, 130, 600}[c.Choose("n", 5)]
	ns := []int{2, 16}[c.Choose("node size", 2)]
	var data []byte
	refs := layoutRefs(1, n, 0)
	switch what {
	case 0, 1:
		data = buildRefTree(refs, ns).bytes()
	case 2:
		data = propSampleVal.bytes
	default:
		data = refMagic
	}
	tail := []byte("tail")
	if what == 2 {
		tail = nil
	}
	r, seekable, done := typedReader(c, kind, skip, append(append(bytes.Repeat([]byte{0xfe}, skip), data...), tail...))
	defer func() { done() }()
	c.Step(1)
	switch what {
	case 0:
		t, err := packedrtree.Unmarshal(r, n, uint16(ns))
		c.Check(err == nil, "%s: Unmarshal: %v", readerTypes[kind], err)
		checkTreeInfo(c, t, refs, ns)
		all := bx(-1e9, -1e9, 1e9, 1e9)
		checkSearch(c, "Search of returned index", t.Search(all), refs, all)
	case 1:
		if !seekable {
			c.Stop()
		}
		q := bx(-1e9, -1e9, 1e9, 1e9)
		got, err := packedrtree.Seek(r.(io.ReadSeeker), n, uint16(ns), q)
		c.Check(err == nil, "%s: Seek: %v", readerTypes[kind], err)
		checkSearch(c, "Seek of "+readerTypes[kind], got, refs, q)
	case 2:
		vals, err := flatgeobuf.NewPropReader(r).ReadSchema(propSampleVal.schema)
		want, _ := flatgeobuf.NewPropReader(plainR{&src{data: data}}).ReadSchema(propSampleVal.schema)
		c.Check(err == nil && len(vals) == len(want) && len(vals) > 0, "%s: ReadSchema: %d values, %v", readerTypes[kind], len(vals), err)
		for i := range vals {
			c.Check(fmt.Sprint(vals[i].Value) == fmt.Sprint(want[i].Value), "%s: ReadSchema: value %d is %v, expected %v", readerTypes[kind], i, vals[i].Value, want[i].Value)
		}
	default:
		v, err := flatgeobuf.Magic(r)
		c.Check(err == nil && v.Major == refMagic[3], "%s: Magic: %v, %v", readerTypes[kind], v, err)
	}
	if rest := done(); !bytes.Equal(rest, tail) {
		c.Fail("%s, operation %d: %d bytes are left, expected %d", readerTypes[kind], what, len(rest), len(tail))
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writerTypes: all ways to write small files, and files with large tables, to
// writers of all types; close included.
func writerTypes(c *Ctx) {
	kinds := []string{"bytes.Buffer", "strings.Builder", "bufio.Writer of 16 bytes", "bufio.Writer", "os.File", "io.MultiWriter", "io.PipeWriter", "bufio.ReadWriter", "rich"}
	kind := kinds[c.Choose("type", len(kinds))]
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 3, nodeSize: 16}, {n: 2, nodeSize: 0}, {n: 0, nodeSize: 0}, {n: 1, nodeSize: 16}}
	g := configs[c.Choose("config", len(configs))]
	progs := writePrograms(g)
	prog := progs[c.Choose("program", len(progs))]
	s := &sink{}
	switch kind {
	case "bytes.Buffer":
		b := &bytes.Buffer{}
		s.as, s.refresh = func(bool) io.Writer { return b }, func() { s.buf = append([]byte{}, b.Bytes()...) }
	case "strings.Builder":
		b := &strings.Builder{}
		s.as, s.refresh = func(bool) io.Writer { return b }, func() { s.buf = []byte(b.String()) }
	case "bufio.Writer of 16 bytes", "bufio.Writer":
		b := bufio.NewWriter(plainW{s})
		if kind != "bufio.Writer" {
			b = bufio.NewWriterSize(plainW{s}, 16)
		}
		s.as, s.refresh = func(bool) io.Writer { return b }, func() { _ = b.Flush() }
	case "bufio.ReadWriter":
		b := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("")), bufio.NewWriter(plainW{s}))
		s.as, s.refresh = func(bool) io.Writer { return b }, func() { _ = b.Flush() }
	case "os.File":
		f := tempFile(c, nil)
		g.closable = true
		s.as = func(bool) io.Writer { return f }
		var last []byte
		s.refresh = func() {
			if st, err := f.Stat(); err != nil {
				s.closed = 1
			} else {
				last = make([]byte, st.Size())
				_, _ = f.ReadAt(last, 0)
			}
			s.buf = last
		}
		defer f.Close()
	case "io.MultiWriter":
		w := io.MultiWriter(io.Discard, plainW{s})
		s.as = func(bool) io.Writer { return w }
	case "io.PipeWriter":
		pr, pw := io.Pipe()
		g.closable = true
		ended := make(chan bool)
		go func() {
			b := make([]byte, 1000)
			for {
				n, err := pr.Read(b)
				s.buf = append(s.buf, b[:n]...)
				if err != nil {
					s.closed = 1
					close(ended)
					return
				}
			}
		}()
		s.as = func(bool) io.Writer { return pw }
		// An empty write ends when everything before has been taken.
		s.refresh = func() {
			if _, err := pw.Write(nil); err != nil {
				<-ended
			}
		}
		defer pw.Close()
	case "rich":
		s.as = func(bool) io.Writer { return richW{s} }
	}
	d := newWriterTo(c, g, s)
	for _, o := range prog {
		d.do(o)
	}
	d.do(wop{wData, vOK})
	d.do(wop{wClose, vOK})
	d.do(wop{wClose, vOK})
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propTypes: all values of samples through readers and writers of all types.
func propTypes(c *Ctx) {
	kind := c.Choose("type", len(readerTypes))
	wkind := c.Choose("writer", 4)
	t := c.Choose("column type", len(columnTypeNames))
	k := c.Choose("value", numSamples)
	sk := &sink{}
	b := &bytes.Buffer{}
	bw := bufio.NewWriterSize(plainW{sk}, 16)
	sb := &strings.Builder{}
	w := flatgeobuf.NewPropWriter([]io.Writer{richW{sk}, b, bw, sb}[wkind])
	var want []byte
	var vals []interface{}
	for i := 0; i < 3; i++ {
		v := sampleValue(t, (k+i)%numSamples)
		n, err := writeProp(w, t, v)
		e := encProp(t, v)
		c.Check(err == nil && n == len(e), "writing %s %v: %d, %v", columnTypeNames[t], v, n, err)
		want, vals = append(want, e...), append(vals, v)
	}
	_ = bw.Flush()
	got := [][]byte{sk.buf, b.Bytes(), sk.buf, []byte(sb.String())}[wkind]
	c.Check(bytes.Equal(got, want), "wrote % x, expected % x", got, want)
	r, _, done := typedReader(c, kind, 5, append([]byte("12345"), append(append([]byte{}, want...), "tail"...)...))
	defer func() { done() }()
	pr := flatgeobuf.NewPropReader(r)
	for i, v := range vals {
		x, err := readProp(pr, t)
		c.Check(err == nil, "%s: reading %s: %v", readerTypes[kind], columnTypeNames[t], err)
		checkVal(c, fmt.Sprintf("%s: %s %d", readerTypes[kind], columnTypeNames[t], i), x, v)
	}
	rest := done()
	c.Check(string(rest) == "tail", "%s: %q is left after reading %s", readerTypes[kind], rest, columnTypeNames[t])
	c.Step(6)
	c.Eval(3)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// aliasTypes: everything read from streams that are backed by memory stays
// the same when that memory is overwritten, and overwriting what was read
// does not change what is read later.
func aliasTypes(c *Ctx) {
	ki := c.Choose("type", len(reusableKinds))
	kind := reusableKinds[ki]
	f := typesFile(c, c.Choose("file", len(faultConfigs)+2))
	mid := c.Bool("overwrite results at once")
	data := append([]byte{}, f.bytes()...)
	stream, spoil := reusable(ki, data)
	_, seekable := stream.(io.Seeker)
	s := &src{as: func(bool, bool) io.Reader { return stream }}
	r := flatgeobuf.NewFileReader(s.asReader(seekable, false))
	k := &keeper{c: c}
	hist := kind
	h, err := r.Header()
	c.Check(err == nil, "%s: Header: %v", kind, err)
	k.keep("header", h.Table().Bytes)
	got := func(what string, fs []flat.Feature, want []int) {
		hist += ", " + what
		c.Step(1)
		k.verify(hist)
		f.checkFeatures(c, hist, fs, want)
		k.features(what, fs)
		if mid {
			k.scribble(hist)
		}
	}
	n := len(f.feats)
	switch c.Choose("way", 3) {
	case 0:
		for i := 0; i < n; i++ {
			p := make([]flat.Feature, 1)
			m, err := r.Data(p)
			c.Check(m == 1 && (err == nil || err == io.EOF), "%s: Data: %d, %v", hist, m, err)
			got("Data", p[:m], []int{i})
		}
	case 1:
		fs, err := r.DataRem()
		c.Check(err == nil, "%s: DataRem: %v", hist, err)
		got("DataRem", fs, seqInts(0, n))
	default:
		if f.index == nil {
			c.Stop()
		}
		all := bx(-1e9, -1e9, 1e9, 1e9)
		fs, err := r.IndexSearch(all)
		c.Check(err == nil, "%s: IndexSearch: %v", hist, err)
		got("IndexSearch", fs, f.matching(all))
	}
	if seekable {
		c.Check(r.Rewind() == nil, "%s: Rewind fails", hist)
		fs, err := r.DataRem()
		c.Check(err == nil, "%s: DataRem: %v", hist, err)
		got("DataRem", fs, seqInts(0, n))
	}
	spoil()
	k.verify(hist + ", reuse of the source buffer")
	k.scribble(hist + ", reuse of the source buffer")
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// cutTypes: every cut position of several files, delivered by readers of all
// types, and read in several ways.
func cutTypes(c *Ctx) {
	f := c.cachedFile(cutFiles[c.Choose("file", len(cutFiles))])
	total := len(f.bytes())
	cut := c.Choose("cut", total)
	kind := c.Choose("type", len(readerTypes))
	h := rop{kind: opHeader}
	all, none := rop{kind: opSearch, q: bx(-9, -9, 99, 99)}, rop{kind: opSearch, q: bx(500, 500, 501, 501)}
	progs := [][]rop{
		{h, {kind: opDataRem}, {kind: opDataRem}},
		{h, {kind: opData, k: 1}, {kind: opData, k: 5}, {kind: opData, k: 1}},
		{h, {kind: opIndex}, {kind: opDataRem}, {kind: opRewind}, {kind: opDataRem}},
	}
	if f.index != nil {
		progs = append(progs, []rop{h, all}, []rop{h, none}, []rop{h, {kind: opSearch, q: bx(0, 0, 0.5, 0.5)}})
	}
	prog := progs[c.Choose("program", len(progs))]
	r, seekable, done := typedReader(c, kind, 0, f.bytes()[:cut])
	defer func() { done() }()
	s := &src{as: func(bool, bool) io.Reader { return r }}
	o := cutRunOn(c, f, cut, prog, seekable, 0, s)
	c.StateStr(o + fmt.Sprint(kind))
}

// reusableKinds are types of streams whose memory is used again.
var reusableKinds = []string{"bytes.Reader", "bytes.Buffer", "bufio.Reader", "bufio.Reader of 1 MiB", "rich"}

// reusable makes a stream which delivers data, and a function which
// overwrites the memory from which it delivered.
func reusable(kind int, data []byte) (r io.Reader, spoil func()) {
	overwrite := func() {
		for i := range data {
			data[i] ^= 0x55
		}
	}
	buffered := func(n int) {
		b := bufio.NewReaderSize(plainR{&src{data: data}}, n)
		r, spoil = b, func() {
			b.Reset(bytes.NewReader(bytes.Repeat([]byte{0xEE}, n)))
			_, _ = b.Peek(n)
			overwrite()
		}
	}
	switch reusableKinds[kind] {
	case "bytes.Reader":
		return bytes.NewReader(data), overwrite
	case "bytes.Buffer":
		return bytes.NewBuffer(data), overwrite
	case "bufio.Reader":
		buffered(4096)
	case "bufio.Reader of 1 MiB":
		buffered(1 << 20)
	default:
		s := &src{data: data}
		return struct {
			richR
			seekOnly
		}{richR{s}, seekOnly{s}}, overwrite
	}
	return
}

// writerNil: all short call sequences, with calls in between whose argument
// is a nil pointer. These panic or fail, but neither emit anything nor change
// what later calls do.
func writerNil(c *Ctx) {
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 1, nodeSize: 16}, {n: 2, nodeSize: 0}, {n: 0, nodeSize: 0}}
	d := newWriter(c, configs[c.Choose("config", len(configs))])
	n := 1 + c.Choose("length", pickInt(c, 3, 4))
	for i := 0; i < n; i++ {
		if k := c.Choose("nil call", 6); k > 0 {
			d.nilCall(k)
		}
		d.do(wop{c.Choose("call", 6), vOK})
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

func (d *wdriver) nilCall(k int) {
	what := []string{"", "Header(nil)", "Index(nil)", "Data(nil)", "IndexDataPtr(nil pointers)", "IndexDataPtr(last pointer nil)"}[k]
	d.hist = append(d.hist, what)
	d.c.Step(1)
	n, err, panicked := 0, error(nil), false
	func() {
		defer func() { panicked = recover() != nil }()
		switch k {
		case 1:
			n, err = d.w.Header(nil)
		case 2:
			n, err = d.w.Index(nil)
		case 3:
			n, err = d.w.Data(nil)
		case 4:
			n, err = d.w.IndexDataPtr(make([]*flat.Feature, d.g.n))
		default:
			p := make([]*flat.Feature, d.g.n)
			for i := 0; i+1 < len(p); i++ {
				p[i] = asFeature(d.m.feats[i])
			}
			n, err = d.w.IndexDataPtr(p)
		}
	}()
	if !panicked && err == nil {
		d.fail("call succeeded, but must be rejected")
	}
	if n != 0 || !bytes.Equal(d.out(), d.exp) {
		d.fail("rejected call reports %d bytes written, emitted %d", n, len(d.out())-len(d.exp))
	}
}
