# The planted bugs: (id, property, edits, needs, what it breaks, demo).
# Regenerate /verif/seeded with plant.py. Checks do not read this.
R='flatgeobuf/file_reader.go'; W='flatgeobuf/file_writer.go'; T='packedrtree/packedrtree.go'
B='packedrtree/box.go'; H='packedrtree/hilbert.go'; PR='flatgeobuf/prop_reader.go'; PW='flatgeobuf/prop_writer.go'
ST='flatgeobuf/stringers.go'; FB='flatgeobuf/flatbuffers.go'; SP='flatgeobuf/spec.go'; SF='flatgeobuf/stateful.go'
BE='packedrtree/native_bigendian.go'; LE='packedrtree/native_littleendian.go'
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imports='', sh=None):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,sh=sh))

bug('p01-trailing-bytes','P01',[(FB,'	var size uint32\n	if size, err = tableSize(t); err != nil {\n		return\n	} else {','	size, err := tableSize(t)\n	if size = uint32(len(t.Bytes) - flatbuffers.SizeUint32); err != nil {\n		return\n	} else {')],
 'a feature (or header) table whose buffer extends beyond the size prefix, followed by another feature',
 'the bytes after the table are written too, so that the next feature is not found where it should be',
r'''
	a := append(append([]byte(nil), featureBytes([]float64{1, 2}, nil)...), 0xde, 0xad, 0xbe, 0xef)
	f := flat.GetSizePrefixedRootAsFeature(a, 0)
	g := feature([]float64{3, 4}, nil)
	data := file(header(0, 0), []*flat.Feature{f, g})
	fs, err := open(bytes.NewReader(data)).DataRem()
	ok(err)
	check(len(fs) == 2, "%d features", len(fs))
	same(&fs[1], g)
''')

bug('p02-wide-nodes','P02',[(T,'nodeSize: int(nodeSize),','nodeSize: int(int16(nodeSize)),')],
 'a node size of 32768 or more',
 'searches find nothing',
r'''
	refs := []packedrtree.Ref{{Box: box(0, 0, 1, 1), Offset: 7}, {Box: box(2, 2, 3, 3), Offset: 9}}
	t, err := packedrtree.New(refs, 40000)
	ok(err)
	check(len(t.Search(box(0, 0, 5, 5))) == 2, "found %v", t.Search(box(0, 0, 5, 5)))
''')

bug('p02-contained-subtree','P02',[(T,'''			} else if err := prt.validateChild(n, t.level); err != nil {''','''			} else if c := int(n.Offset); t.level == 1 && prt.fetch == nil && b.contains(&n.Box) {
				// Everything below is contained in the query box too.
				for ; c < prt.levels[0].end && c < int(n.Offset)+prt.nodeSize; c++ {
					r = append(r, Result{Offset: prt.nodes[c].Offset, RefIndex: c - prt.levels[0].start})
				}
			} else if err := prt.validateChild(n, t.level); err != nil {'''),
 (T,'				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})\n','				ref := pos - prt.levels[0].start\n				r = append(r, Result{Offset: n.Offset, RefIndex: ref})\n'),
 (B,'''// intersects returns true''','''// contains returns true iff the receiver contains the given box.
func (b *Box) contains(c *Box) bool {
	return b.XMin <= c.XMin && b.YMin <= c.YMin && b.XMax >= c.XMax && b.YMax >= c.YMax
}

// intersects returns true''')],
 'a reference with the empty box (a feature without geometry) under an index node which lies completely within the query',
 'an optimisation of in-memory search also returns references with empty boxes',
r'''
	refs := []packedrtree.Ref{{Box: box(1, 1, 1, 1), Offset: 1}, {Box: packedrtree.EmptyBox, Offset: 2}, {Box: box(2, 2, 2, 2), Offset: 3}}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	check(len(t.Search(box(0, 0, 5, 5))) == 2, "found %v", t.Search(box(0, 0, 5, 5)))
''')

bug('p18-shared-queue','P18',[(T,'	q := make(ticketBag, 1, 32)\n	q[0] = ticket','	q := ticketBag(tickets[:1])\n	q[0] = ticket'),
 (T,'type pushFunc func','// tickets is the initial work list of a search.\nvar tickets [32]ticket\n\ntype pushFunc func')],
 'two searches, of any index, that overlap in time',
 'the work lists of concurrent searches share memory',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 64; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	rs := &hook{Reader: bytes.NewReader(b.Bytes())}
	rs.f = func() { t.Search(box(5, 0, 9, 0)) }
	r, err := packedrtree.Seek(rs, 64, 2, box(0, 0, 100, 0))
	ok(err)
	check(len(r) == 64, "found %d", len(r))
}

// hook is a stream during each read of which another search runs.
type hook struct {
	*bytes.Reader
	f func()
}

func (h *hook) Read(p []byte) (int, error) {
	done := make(chan bool)
	go func() { h.f(); close(done) }()
	<-done
	return h.Reader.Read(p)
''')

bug('p18-length-buffer','P18',[(R,'''	// Read the feature length, which is a little-endian 32-bit integer.
	b := make([]byte, flatbuffers.SizeUint32)
''','''	// Read the feature length, which is a little-endian 32-bit integer.
	b := lengthBuf[:]
'''),(R,'func (r *FileReader) readFeature(','// lengthBuf saves allocating memory for the length of every feature.\nvar lengthBuf [flatbuffers.SizeUint32]byte\n\nfunc (r *FileReader) readFeature(')],
 'two readers of different files whose reads overlap in time',
 'the length prefix one reader has just read is overwritten by another',
r'''
	one := file(header(1, 0), []*flat.Feature{feature([]float64{1, 2}, nil)})
	f := feature([]float64{1, 2, 3, 4}, []byte{1, 2, 3})
	two := file(header(1, 0), []*flat.Feature{f})
	h := &hook{r: bytes.NewReader(two)}
	r := open(h)
	h.f = func() {
		_, err := open(bytes.NewReader(one)).DataRem()
		ok(err)
	}
	fs, err := r.DataRem()
	ok(err)
	check(len(fs) == 1, "%d features", len(fs))
	same(&fs[0], f)
}

// hook is a stream after each read of which another file is read.
type hook struct {
	r *bytes.Reader
	f func()
}

func (h *hook) Read(p []byte) (int, error) {
	n, err := h.r.Read(p)
	if h.f != nil {
		done := make(chan bool)
		go func() { h.f(); close(done) }()
		<-done
	}
	return n, err
''')

bug('p18-prop-buffer','P18',[(PR,'''func (r *PropReader) ReadULong() (uint64, error) {
	b := make([]byte, 8)
''','''// ulongBuf is scratch memory for ReadULong.
var ulongBuf [8]byte

func (r *PropReader) ReadULong() (uint64, error) {
	b := ulongBuf[:]
''')],
 'two property readers whose reads of unsigned long values overlap in time',
 'values of one stream show up in another',
r'''
	h := &hook{r: bytes.NewReader([]byte{1, 2, 3, 4, 5, 6, 7, 8})}
	v, err := flatgeobuf.NewPropReader(h).ReadULong()
	ok(err)
	check(v == 0x0807060504030201, "got %x", v)
}

type hook struct{ r *bytes.Reader }

func (h *hook) Read(p []byte) (int, error) {
	n, err := h.r.Read(p)
	done := make(chan bool)
	go func() {
		_, err := flatgeobuf.NewPropReader(bytes.NewReader(make([]byte, 8))).ReadULong()
		ok(err)
		close(done)
	}()
	<-done
	return n, err
''')

bug('p19-small-feature-buffer','P19',[(R,'''	// Read the feature length, which is a little-endian 32-bit integer.
	b := make([]byte, flatbuffers.SizeUint32)
''','''	// Read the feature length, which is a little-endian 32-bit integer.
	b := r.small[0:flatbuffers.SizeUint32]
'''),(R,'	featureOffset int64\n}','	featureOffset int64\n	// small is where features that fit are read.\n	small [48]byte\n}')],
 'two features of at most 44 bytes read from the same file',
 'a small feature already returned changes when another is read',
r'''
	f, g := feature(nil, []byte{1}), feature(nil, []byte{2})
	fs, err := open(bytes.NewReader(file(header(2, 0), []*flat.Feature{f, g}))).DataRem()
	ok(err)
	same(&fs[0], f)
	same(&fs[1], g)
''')

bug('p19-results-reused','P19',[(T,'	r := make(Results, 0)\n','	r := prt.results[:0]\n'),(T,'			return r, nil\n		}\n	}\n}','			prt.results = r\n			return r, nil\n		}\n	}\n}'),
 (T,'	fetch fetchFunc\n}','	fetch fetchFunc\n	// results is the memory of the last results.\n	results Results\n}')],
 'results of one in-memory search still in use when the same index is searched again',
 'earlier results are overwritten by later ones',
r'''
	refs := []packedrtree.Ref{{Box: box(0, 0, 1, 1), Offset: 7}, {Box: box(2, 2, 3, 3), Offset: 9}}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	a := t.Search(box(0, 0, 1, 1))
	t.Search(box(2, 2, 3, 3))
	check(len(a) == 1 && a[0].Offset == 7, "results changed: %v", a)
''')

bug('p19-string-buffer','P19',[(PR,'''	b, err := r.ReadBinary()
	if err != nil {
		return "", err
	}
	if len(b) == 0 {
		return "", nil
	}
''','''	n, err := r.ReadUInt()
	if err != nil {
		return "", err
	}
	b := r.small[:]
	if int64(n) <= int64(len(b)) {
		b = b[:n]
		_, err = io.ReadFull(r.r, b)
	} else {
		b, err = readTable(r.r, nil, n)
	}
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return "", err
	}
	if len(b) == 0 {
		return "", nil
	}
'''),(PR,'	r io.Reader\n}','	r io.Reader\n	// small is where short strings are read.\n	small [3]byte\n}')],
 'two strings of at most three bytes read by the same property reader',
 'a string already returned changes when the next one is read',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewPropWriter(&b)
	w.WriteString("abc")
	w.WriteString("xyz")
	r := flatgeobuf.NewPropReader(&b)
	s, err := r.ReadString()
	ok(err)
	u, err := r.ReadString()
	ok(err)
	check(s == "abc" && u == "xyz", "got %q %q", s, u)
''')

bug('p03-start-offset','P03',[(T,'	if endOffset != offset {\n','	if int64(sz) != offset {\n')],
 'an index that does not start at offset zero of its stream, and a search that stops reading exactly the size of the index into the stream',
 'the read cursor is not moved to the end of the index',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 5; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	var b bytes.Buffer
	b.Write(make([]byte, 400)) // 11 nodes; the search below reads the first.
	_, err = t.Marshal(&b)
	ok(err)
	rs := bytes.NewReader(append(b.Bytes(), 1, 2, 3))
	_, err = rs.Seek(400, io.SeekStart)
	ok(err)
	_, err = packedrtree.Seek(rs, 5, 2, box(50, 50, 51, 51))
	ok(err)
	p, _ := rs.Seek(0, io.SeekCurrent)
	check(p == int64(b.Len()), "cursor at %d, not %d", p, b.Len())
''')

bug('p04-last-page','P04',[(LE,'''	return w.Write(p)
''','''	// Write whole pages, then what remains.
	const page = 4096
	var n int
	for n+page < len(p) {
		m, err := w.Write(p[n : n+page])
		n += m
		if err != nil {
			return n, err
		}
	}
	m, err := w.Write(p[n : n+len(p)%page])
	return n + m, err
''')],
 'an index whose number of nodes is a multiple of 512',
 'the last page of the index is missing',
r'''
	t, err := packedrtree.New(make([]packedrtree.Ref, 511), 511)
	ok(err)
	var b bytes.Buffer
	n, err := t.Marshal(&b)
	ok(err)
	check(n == 512*40 && b.Len() == n, "wrote %d bytes", n)
''')

bug('p10-second-chunk-count','P10',[(LE,'''	return w.Write(p)
''','''	// Write the octets in chunks of limited size.
	const chunk = 1 << 16
	for n := 0; ; n += chunk {
		if len(p)-n <= chunk {
			m, err := w.Write(p[n:])
			return n + m, err
		}
		if m, err := w.Write(p[n : n+chunk]); err != nil {
			return m, err
		}
	}
''')],
 'an index of more than 128 KiB, and a write that fails after the first chunk and before the last',
 'the number of bytes written omits the preceding chunks',
r'''
	refs := make([]packedrtree.Ref, 5000)
	t, err := packedrtree.New(refs, 16)
	ok(err)
	w := &limited{max: 70000}
	n, err := t.Marshal(w)
	check(err != nil && n == 70000, "n=%d err=%v", n, err)
}

type limited struct{ n, max int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n+len(p) > l.max {
		m := l.max - l.n
		l.n = l.max
		return m, errFault
	}
	l.n += len(p)
	return len(p), nil
''')

bug('p05-cached-index-cursor','P05',[(R,'''			if _, err := rs.Seek(r.dataOffset, io.SeekStart); err != nil {
				return nil, r.toErr(wrapErr("failed to skip past index", err))
			}
''','''			if r.featureOffset > 0 { // Otherwise, nothing was read since.
				if _, err := rs.Seek(r.dataOffset, io.SeekStart); err != nil {
					return nil, r.toErr(wrapErr("failed to skip past index", err))
				}
			}
''')],
 'Index, then Data, then Rewind, then IndexSearch on a seekable stream',
 'the search reads features from wherever the stream was left',
r'''
	fs := line(6)
	r := open(bytes.NewReader(file(header(6, 2), fs)))
	_, err := r.Index()
	ok(err)
	_, err = r.Data(make([]flat.Feature, 3))
	ok(err)
	ok(r.Rewind())
	got, err := r.IndexSearch(box(1, 1, 1, 1))
	ok(err)
	check(len(got) == 1, "found %d", len(got))
	same(&got[0], fs[1])
''')

bug('p06-rewind-offset','P06',[(R,'	r.featureIndex = 0\n	r.featureOffset = 0\n	return nil','	r.featureIndex = 0\n	return nil')],
 'Data, then Rewind, then IndexSearch',
 'features before the earlier position are not skipped correctly after a rewind',
r'''
	fs := line(6)
	r := open(bytes.NewReader(file(header(6, 2), fs)))
	_, err := r.Data(make([]flat.Feature, 3))
	ok(err)
	ok(r.Rewind())
	got, err := r.IndexSearch(box(2, 2, 2, 2))
	ok(err)
	check(len(got) == 1, "found %d", len(got))
	same(&got[0], fs[2])
''')

bug('p06-rewind-after-index','P06',[(R,'	} else if r.state == afterHeader {\n		return nil // No-Op','	} else if r.state == afterHeader || r.state == afterIndex {\n		return nil // No-Op')],
 'Index, then Rewind, then Index or IndexSearch',
 'a reader positioned right after the index is not rewound',
r'''
	fs := line(6)
	r := open(bytes.NewReader(file(header(6, 2), fs)))
	_, err := r.Index()
	ok(err)
	ok(r.Rewind())
	got, err := r.IndexSearch(box(2, 2, 2, 2))
	ok(err)
	check(len(got) == 1, "found %d", len(got))
''')

bug('p06-index-after-data','P06',[(R,'	if r.indexOffset > 0 {\n		s = r.r.(io.Seeker)\n','	if r.indexOffset > 0 && r.dataOffset == 0 {\n		s = r.r.(io.Seeker)\n')],
 'Data (skipping the index), then Rewind, then Index',
 'the index is read from the data section',
r'''
	fs := line(6)
	r := open(bytes.NewReader(file(header(6, 2), fs)))
	_, err := r.Data(make([]flat.Feature, 3))
	ok(err)
	ok(r.Rewind())
	t, err := r.Index()
	ok(err)
	check(len(t.Search(box(2, 2, 4, 4))) == 3, "index differs")
''')

bug('p06-empty-search-eof','P06',[(R,'''	if err := r.toState(inData, eof); err != nil {
		return nil, err
	}

	// All search results are mapped to data features.
''','''	if len(fs) > 0 {
		if err := r.toState(inData, eof); err != nil {
			return nil, err
		}
	}

	// All search results are mapped to data features.
''')],
 'an index search without results, followed by Data or DataRem',
 'the whole data section can be read after a search, although only Rewind allows that',
r'''
	r := open(bytes.NewReader(file(header(6, 2), line(6))))
	got, err := r.IndexSearch(box(20, 20, 21, 21))
	ok(err)
	check(len(got) == 0, "found %d", len(got))
	n, err := r.Data(make([]flat.Feature, 3))
	check(n == 0 && err == io.EOF, "n=%d err=%v", n, err)
''')

bug('p06-close-again','P06',[(SF,'''	s.err = ErrClosed

	if c, ok := a.(io.Closer); ok {
		if err := c.Close(); err != nil {
			return err
		}
	}

	return nil''','''	if c, ok := a.(io.Closer); ok {
		if err := c.Close(); err != nil {
			return err
		}
	}

	s.err = ErrClosed
	return nil''')],
 'an underlying stream whose Close fails',
 'the reader or writer stays usable after Close and closes the stream again',
r'''
	c := &closer{Reader: bytes.NewReader(file(header(1, 0), line(1)))}
	r := open(c)
	check(r.Close() == errFault, "no close error")
	_, err := r.DataRem()
	check(err == flatgeobuf.ErrClosed, "err=%v", err)
	check(r.Close() == flatgeobuf.ErrClosed && c.n == 1, "closed %d times", c.n)
}

type closer struct {
	*bytes.Reader
	n int
}

func (c *closer) Close() error {
	c.n++
	return errFault
''')

bug('p07-node-size-mismatch','P07',[(W,'''		err = fmtErr("node size mismatch (header=%d, index=%d)", w.nodeSize, index.NodeSize())
		w.state = afterHeader // Go back to header state.
''','''		err = fmtErr("node size mismatch (header=%d, index=%d)", w.nodeSize, index.NodeSize())
''')],
 'an index of the wrong node size offered, then any other call',
 'the writer cannot be used any more after a harmless mistake, and panics',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewFileWriter(&b)
	_, err := w.Header(header(1, 4))
	ok(err)
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1)}}, 8)
	ok(err)
	_, err = w.Index(t)
	check(err != nil, "no error")
	_, err = w.IndexDataPtr(line(1))
	ok(err)
''')

bug('p07-close-without-data','P07',[(W,'	} else if w.featureIndex < w.numFeatures {\n','	} else if w.state != afterIndex && w.featureIndex < w.numFeatures {\n')],
 'Header and Index written, but no feature, before Close',
 'Close does not report that all features are missing',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewFileWriter(&b)
	_, err := w.Header(header(1, 4))
	ok(err)
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1)}}, 4)
	ok(err)
	_, err = w.Index(t)
	ok(err)
	check(w.Close() != nil, "truncated file not reported")
''')

bug('p07-header-retry','P07',[(W,'''	if nodeSize == 1 {
		err = textErr("index node size may not be 1")
		return
	}

	// Transition into state for writing magic number.
	if err = w.toState(uninitialized, beforeMagic); err == errUnexpectedState {
		err = textErr(errHeaderAlreadyCalled)
		return
	} else if err != nil {
		return
	}
''','''
	// Transition into state for writing magic number.
	if err = w.toState(uninitialized, beforeMagic); err == errUnexpectedState {
		err = textErr(errHeaderAlreadyCalled)
		return
	} else if err != nil {
		return
	}

	if nodeSize == 1 {
		err = textErr("index node size may not be 1")
		return
	}
''')],
 'a header with node size 1 rejected, then another call',
 'the writer is left in an invalid state, so that the next call panics or fails',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewFileWriter(&b)
	_, err := w.Header(header(1, 1))
	check(err != nil, "no error")
	_, err = w.Header(header(1, 0))
	ok(err)
''')

bug('p08-short-header-read','P08',[(R,'''	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
''','''	if _, err = r.r.Read(tbl[flatbuffers.SizeUint32:]); err != nil {
''')],
 'a stream that delivers the header in more than one piece',
 'the rest of the header is taken for zeros, and what follows is misread',
r'''
	fs := line(3)
	r := flatgeobuf.NewFileReader(stream{bytes.NewReader(file(header(3, 0), fs)), 16})
	h, err := r.Header()
	ok(err)
	check(h.FeaturesCount() == 3 && string(h.Name()) == "demo", "header differs")
	got, err := r.DataRem()
	ok(err)
	check(len(got) == 3, "%d features", len(got))
''')

bug('p08-feature-seek-error','P08',[(R,'''			_, err := rs.Seek(n, io.SeekCurrent)
			return err
''','''			_, err := rs.Seek(n, io.SeekCurrent)
			if err == io.EOF {
				return err
			}
			return nil
''')],
 'a seek within the data section that fails during an index search',
 'the error is lost and the wrong feature is returned as the result',
r'''
	s := &seeker{Reader: bytes.NewReader(file(header(6, 2), line(6)))}
	r := open(s)
	s.fail = true
	_, err := r.IndexSearch(box(1, 1, 1, 1))
	check(errors.Is(err, errFault), "err=%v", err)
}

// seeker fails short forward seeks.
type seeker struct {
	*bytes.Reader
	fail bool
	n    int
}

func (s *seeker) Seek(o int64, w int) (int64, error) {
	if s.fail && w == io.SeekCurrent && o > 0 && o%40 != 0 {
		return 0, errFault
	}
	return s.Reader.Seek(o, w)
''')

bug('p08-offset-query-error','P08',[(R,'''			return r.toErr(wrapErr("failed to query %s offset", err, name))
''','''			return nil // The offset is only needed by Rewind.
''')],
 'a seekable stream that fails to report its position',
 'the error is not reported, and a later rewind goes wrong',
r'''
	s := &seeker{Reader: bytes.NewReader(file(header(6, 2), line(6)))}
	r := open(s)
	s.fail = true
	_, err := r.Index()
	check(errors.Is(err, errFault), "err=%v", err)
}

type seeker struct {
	*bytes.Reader
	fail bool
}

func (s *seeker) Seek(o int64, w int) (int64, error) {
	if s.fail {
		return 0, errFault
	}
	return s.Reader.Seek(o, w)
''')

bug('p08-node-short-read','P08',[(T,'	if _, err := io.ReadFull(r, b); err != nil {\n		if err == io.EOF {','	if _, err := io.ReadAtLeast(r, b, numNodeBytes); err != nil {\n		if err == io.EOF {')],
 'a stream that delivers several index nodes in more than one piece',
 'index nodes that were not delivered at once are taken for zeros',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 5; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 16)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	u, err := packedrtree.Unmarshal(stream{&b, 64}, 5, 16)
	ok(err)
	check(len(u.Search(box(4, 0, 4, 0))) == 1, "index differs")
''')

bug('p09-partial-length','P09',[(R,'	if err == io.EOF && n == 0 {\n		return errEndOfData','	if (err == io.EOF || err == io.ErrUnexpectedEOF) && n < len(b) {\n		return errEndOfData')],
 'a file with unknown feature count that ends within the length prefix of a feature',
 'the truncation is taken for the regular end of the data',
r'''
	data := file(header(0, 0), line(3))
	last := len(featureBytes([]float64{2, 2}, []byte{2, 2}))
	_, err := open(bytes.NewReader(data[:len(data)-last+2])).DataRem()
	check(err != nil, "truncation not reported")
''')

bug('p09-boundary','P09',[(R,'		if r.numFeatures == 0 && err == errEndOfData {\n','		if err == errEndOfData && (r.numFeatures == 0 || r.nodeSize == 0) {\n')],
 'a file without index, with known feature count, that ends right after one of its features',
 'missing features at the end are not reported by Data',
r'''
	data := file(header(3, 0), line(3))
	last := len(featureBytes([]float64{2, 2}, []byte{2, 2}))
	n, err := open(bytes.NewReader(data[:len(data)-last])).Data(make([]flat.Feature, 3))
	check(err != nil && err != io.EOF, "n=%d err=%v", n, err)
''')

bug('p10-indexdata-count','P10',[(W,'''		o, err = w.Data(data[i])
		n += o
		if err != nil {
			return
		}
''','''		if o, err = w.Data(data[i]); err != nil {
			return
		}
		n += o
''')],
 'a write that fails part of the way through a feature in IndexData',
 'the bytes of the feature that were written are not counted',
r'''
	w := &limited{max: 1 << 20}
	fw := flatgeobuf.NewFileWriter(w)
	_, err := fw.Header(header(2, 2))
	ok(err)
	start := w.n
	w.max = start + 3*40 + 7
	n, err := fw.IndexDataPtr(line(2))
	check(err != nil && n == 3*40+7, "n=%d err=%v", n, err)
}

type limited struct{ n, max int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n+len(p) > l.max {
		m := l.max - l.n
		l.n = l.max
		return m, errFault
	}
	l.n += len(p)
	return len(p), nil
''')

bug('p10-partial-feature-retry','P10',[(W,'		if n > 0 {\n			_ = w.toErr(err)\n		}\n		return\n','		if n >= flatbuffers.SizeUint32 { // Nothing to be salvaged.\n			_ = w.toErr(err)\n		}\n		return\n')],
 'a write that fails within the length prefix of a feature, then a retry',
 'the retry succeeds and leaves a fragment of the length prefix in the file',
r'''
	w := &limited{max: 1 << 20}
	fw := flatgeobuf.NewFileWriter(w)
	_, err := fw.Header(header(2, 0))
	ok(err)
	w.max = w.n + 2
	f := line(1)[0]
	_, err = fw.Data(f)
	check(err != nil, "no error")
	w.max = 1 << 20
	_, err = fw.Data(f)
	check(err != nil, "wrote on after a partial write")
}

type limited struct{ n, max int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n+len(p) > l.max {
		m := l.max - l.n
		l.n = l.max
		return m, errFault
	}
	l.n += len(p)
	return len(p), nil
''')

bug('p10-failed-feature-counted','P10',[(W,'	// Write the feature.\n	if n, err = writeSizePrefixedTable(w.w, f.Table()); err != nil {\n		err = wrapErr("failed to write feature %d", err, w.featureIndex)\n','	// Write the feature.\n	i := w.featureIndex\n	w.featureIndex++\n	if n, err = writeSizePrefixedTable(w.w, f.Table()); err != nil {\n		err = wrapErr("failed to write feature %d", err, i)\n'),(W,'		return\n	}\n	w.featureIndex++\n','		return\n	}\n')],
 'a write of a feature that fails cleanly, before Close',
 'a feature that was not written is counted, so Close does not report a truncated file',
r'''
	w := &limited{max: 1 << 20}
	fw := flatgeobuf.NewFileWriter(w)
	_, err := fw.Header(header(1, 0))
	ok(err)
	w.max = w.n
	_, err = fw.Data(line(1)[0])
	check(err != nil, "no error")
	check(fw.Close() != nil, "truncated file not reported")
}

type limited struct{ n, max int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n+len(p) > l.max {
		m := l.max - l.n
		l.n = l.max
		return m, errFault
	}
	l.n += len(p)
	return len(p), nil
''')

bug('p10-binary-count','P10',[(PW,'''	var m int
	m, err = w.w.Write(v)
	n += m
	return
''','''	if _, err = w.w.Write(v); err == nil {
		n += len(v)
	}
	return
''')],
 'a write that fails part of the way through a string or binary property value',
 'the bytes of the value that were written are not counted',
r'''
	n, err := flatgeobuf.NewPropWriter(&limited{max: 6}).WriteString("abcdef")
	check(err != nil && n == 6, "n=%d err=%v", n, err)
}

type limited struct{ n, max int }

func (l *limited) Write(p []byte) (int, error) {
	if l.n+len(p) > l.max {
		m := l.max - l.n
		l.n = l.max
		return m, errFault
	}
	l.n += len(p)
	return len(p), nil
''')

bug('p11-unguarded-node-size','P11',[(R,'''		numFeatures = hdr.FeaturesCount()
		nodeSize = hdr.IndexNodeSize()
		return nil
	}); err != nil {
		return nil, r.toErr(err)
	}
''','''		numFeatures = hdr.FeaturesCount()
		return nil
	}); err != nil {
		return nil, r.toErr(err)
	}
	nodeSize = hdr.IndexNodeSize()
''')],
 'a header table in which just the position of the node size field is corrupt',
 'the reader panics',
r'''
	b := headerBytes(3, 4)
	// Point the field at 0x7fff, wherever its entry in the vtable is.
	t := 4 + flatbuffers.GetUOffsetT(b[4:])
	v := int(t) - int(flatbuffers.GetSOffsetT(b[t:]))
	flatbuffers.WriteUint16(b[v+22:], 0x7fff)
	data := append([]byte{0x66, 0x67, 0x62, 3, 0x66, 0x67, 0x62, 1}, b...)
	_, err := flatgeobuf.NewFileReader(bytes.NewReader(data)).Header()
	check(err != nil, "no error")
''')

bug('p11-short-feature','P11',[(R,'	if featureLen < flatbuffers.SizeUOffsetT {\n','	if featureLen == 0 {\n')],
 'a feature length of one to three bytes',
 'the reader panics',
r'''
	data := append(file(header(0, 0), nil), 2, 0, 0, 0, 1, 1)
	_, err := open(bytes.NewReader(data)).DataRem()
	check(err != nil, "no error")
''')

bug('p12-long-top-byte','P12',[(PW,'''func (w *PropWriter) WriteLong(v int64) (n int, err error) {
	b := []byte{
		byte(v >> 000), byte(v >> 010), byte(v >> 020), byte(v >> 030),
		byte(v >> 040), byte(v >> 050), byte(v >> 060), byte(v >> 070),
''','''func (w *PropWriter) WriteLong(v int64) (n int, err error) {
	b := []byte{
		byte(v >> 000), byte(v >> 010), byte(v >> 020), byte(v >> 030),
		byte(v >> 040), byte(v >> 050), byte(v >> 060), byte(v >> 060),
''')],
 'a long value whose two top bytes differ',
 'the top byte of the value is lost',
r'''
	var b bytes.Buffer
	_, err := flatgeobuf.NewPropWriter(&b).WriteLong(-1 << 62)
	ok(err)
	v, err := flatgeobuf.NewPropReader(&b).ReadLong()
	ok(err)
	check(v == -1<<62, "got %d", v)
''')

bug('p12-negative-zero','P12',[(PW,'	flatbuffers.WriteFloat64(b, v)\n','	flatbuffers.WriteFloat64(b, v+0)\n')],
 'the double value negative zero',
 'its sign is lost',
r'''
	var b bytes.Buffer
	_, err := flatgeobuf.NewPropWriter(&b).WriteDouble(math.Copysign(0, -1))
	ok(err)
	v, err := flatgeobuf.NewPropReader(&b).ReadDouble()
	ok(err)
	check(math.Signbit(v), "got %v", v)
''','math')

bug('p12-empty-binary','P12',[(PW,'	n, err = w.WriteUInt(uint32(len(v)))\n	if err != nil {\n		return\n	}\n','	if v == nil {\n		return // Nothing to write.\n	}\n	if n, err = w.WriteUInt(uint32(len(v))); err != nil {\n		return\n	}\n')],
 'a nil binary value, or an empty string without backing memory',
 'nothing is written, not even the length',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewPropWriter(&b)
	_, err := w.WriteBinary(nil)
	ok(err)
	_, err = w.WriteBinary([]byte("x"))
	ok(err)
	r := flatgeobuf.NewPropReader(&b)
	v, err := r.ReadBinary()
	ok(err)
	check(len(v) == 0, "got %q", v)
''')

bug('p13-short-double','P13',[(PR,'''	b := make([]byte, flatbuffers.SizeFloat64)
	_, err := io.ReadFull(r.r, b)
''','''	b := make([]byte, flatbuffers.SizeFloat64)
	_, err := r.r.Read(b)
''')],
 'a property stream that ends within a double value',
 'the rest of the value is taken for zeros',
r'''
	h := header(0, 0, col{"a", flat.ColumnTypeDouble})
	_, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 1, 2, 3})).ReadSchema(h)
	check(err != nil, "no error")
''')

bug('p14-degenerate-bounds','P14',[(H,'	if ew != 0.0 {\n','	if ew != 0.0 && eh != 0.0 {\n')],
 'references that all lie on one horizontal line',
 'they are not sorted at all',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 5; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i*7%5), 3, float64(i*7%5), 3), Offset: int64(i)})
	}
	packedrtree.HilbertSort(refs, box(0, 3, 4, 3))
	for i := 1; i < 5; i++ {
		check(refs[i].XMin < refs[i-1].XMin, "order %v", refs)
	}
''')

bug('p15-boundary','P15',[(T,'	if numNodes > math.MaxInt/int(numNodeBytes) {\n','	if numNodes > math.MaxInt/int(numNodeBytes)-int(nodeSize) {\n')],
 'an index whose size is within one node group of the largest possible one',
 'an error is reported although the size does not overflow',
r'''
	const max = math.MaxInt / 40
	// The largest number of references that fits, by bisection.
	total := func(n int) int {
		t := n
		for {
			n = (n + 65534) / 65535
			t += n
			if n == 1 {
				return t
			}
		}
	}
	lo, hi := 1, max
	for lo < hi {
		m := lo + (hi-lo+1)/2
		if total(m) <= max {
			lo = m
		} else {
			hi = m - 1
		}
	}
	n, err := packedrtree.Size(lo, 65535)
	ok(err)
	check(n == total(lo)*40, "size %d", n)
''','math')

bug('p16-infinite','P16',[(B,'''	if c.XMin < b.XMin {
		b.XMin = c.XMin
	}
	if c.YMin < b.YMin {''','''	if math.IsInf(c.XMin, 0) {
		return // Empty.
	} else if c.XMin < b.XMin {
		b.XMin = c.XMin
	}
	if c.YMin < b.YMin {''')],
 'a parameter box that extends to infinity in the negative X direction',
 'it is taken for an empty box, so that the receiver does not contain it',
r'''
	b := box(5, 5, 6, 6)
	c := box(math.Inf(-1), 1, 3, 9)
	b.Expand(&c)
	check(b == box(math.Inf(-1), 1, 6, 9), "got %v", b)
''','math')

bug('p17-nullable-default','P17',[('flatgeobuf/flat/Column.go','''	if o != 0 {
		return rcv._tab.GetBool(o + rcv._tab.Pos)
	}
	return true
''','''	if o != 0 {
		return rcv._tab.GetBool(o + rcv._tab.Pos)
	}
	return false
''')],
 'a column that does not set nullable',
 'the default of the schema, true, is not returned',
r'''
	h := header(0, 0, col{"a", flat.ColumnTypeInt})
	var c flat.Column
	check(h.Columns(&c, 0), "no column")
	check(c.Nullable(), "not nullable")
''')

bug('p17-tm-stride','P17',[('flatgeobuf/flat/Geometry.go','''func (rcv *Geometry) Tm(j int) uint64 {
	o := flatbuffers.UOffsetT(rcv._tab.Offset(14))
	if o != 0 {
		a := rcv._tab.Vector(o)
		return rcv._tab.GetUint64(a + flatbuffers.UOffsetT(j*8))''','''func (rcv *Geometry) Tm(j int) uint64 {
	o := flatbuffers.UOffsetT(rcv._tab.Offset(14))
	if o != 0 {
		a := rcv._tab.Vector(o)
		return rcv._tab.GetUint64(a + flatbuffers.UOffsetT(j*4))''')],
 'a geometry with at least two TM values',
 'the values after the first are read from the wrong place',
r'''
	b := flatbuffers.NewBuilder(0)
	flat.GeometryStartTmVector(b, 2)
	b.PrependUint64(22)
	b.PrependUint64(11)
	v := b.EndVector(2)
	flat.GeometryStart(b)
	flat.GeometryAddTm(b, v)
	flat.FinishGeometryBuffer(b, flat.GeometryEnd(b))
	g := flat.GetRootAsGeometry(b.FinishedBytes(), 0)
	check(g.Tm(0) == 11 && g.Tm(1) == 22, "got %d %d", g.Tm(0), g.Tm(1))
''')

bug('p20-count-width','P20',[(R,'	if numFeatures > math.MaxInt {\n','	if numFeatures > math.MaxInt64 {\n')],
 'a host with 32-bit integers and a feature count of 2^31 or more',
 'the feature count is truncated instead of being rejected',
r'''
	b := append([]byte{0x66, 0x67, 0x62, 3, 0x66, 0x67, 0x62, 1}, headerBytes(1<<32, 0)...)
	_, err := flatgeobuf.NewFileReader(bytes.NewReader(b)).Header()
	check(err != nil || math.MaxInt > 1<<32, "no error")
''','math',sh='386')

bug('p20-bigendian-buffer','P20',[(BE,'	buf := make([]byte, 8096)\n','	buf := make([]byte, 8100)\n')],
 'a big-endian host and an index of more than 8100 bytes',
 'Marshal panics, as its buffer is not a whole number of words',
r'''
''',sh='be')

bug('p21-magic-byte','P21',[(SP,'		m[5] == magic[5] &&\n		m[6] == magic[6] {\n','		m[5] == magic[5] &&\n		m[6] >= magic[6] {\n')],
 'a file that differs from a FlatGeobuf file in just one byte of the magic number',
 'the file is accepted',
r'''
	data := file(header(1, 0), line(1))
	data[6]++
	_, err := flatgeobuf.NewFileReader(bytes.NewReader(data)).Header()
	check(err != nil, "no error")
''')

bug('p21-header-limit','P21',[(R,'	} else if headerLen > headerMaxLen {\n','	} else if int32(headerLen) > headerMaxLen {\n')],
 'a header length of 2 GiB or more',
 'the limit is not enforced, and a huge amount of memory is allocated',
r'''
	data := []byte{0x66, 0x67, 0x62, 3, 0x66, 0x67, 0x62, 1, 0, 0, 0, 0x80, 1, 2, 3, 4}
	_, err := flatgeobuf.NewFileReader(bytes.NewReader(data)).Header()
	check(err != nil && !errors.Is(err, io.ErrUnexpectedEOF), "err=%v", err)
''')

bug('p22-count-sign','P22',[(ST,'stringUint64(&b, ",NumFeatures", hdr.FeaturesCount())','stringInt64(&b, ",NumFeatures", int64(hdr.FeaturesCount()))')],
 'a header feature count of 2^63 or more',
 'it is shown as a negative number',
r'''
	s := flatgeobuf.HeaderString(header(1<<63, 0))
	check(bytes.Contains([]byte(s), []byte("NumFeatures:9223372036854775808")), "got %s", s)
''')

bug('p22-schema-choice','P22',[(ST,'		for i := 1; i < len(s) && n == 0; i++ {\n			if n2 := s[i].ColumnsLength(); n2 > 0 {\n','		for i := 1; i < len(s); i++ {\n			if n2 := s[i].ColumnsLength(); n2 > n {\n')],
 'a feature with columns of its own, in a file whose header has more columns',
 'the properties are decoded with the columns of the header',
r'''
	b := flatbuffers.NewBuilder(0)
	cs := columns(b, []col{{"own", flat.ColumnTypeUShort}}, flat.FeatureStartColumnsVector)
	p := b.CreateByteVector([]byte{0, 0, 1, 1})
	flat.FeatureStart(b)
	flat.FeatureAddColumns(b, cs)
	flat.FeatureAddProperties(b, p)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	f := flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
	s := flatgeobuf.FeatureString(f, header(0, 0, col{"x", flat.ColumnTypeUShort}, col{"y", flat.ColumnTypeInt}))
	check(bytes.Contains([]byte(s), []byte("own:257")), "got %s", s)
''')

bug('p05-reuse-skip-count','P05',[(R,'	r.featureOffset += 4 + int64(featureLen)\n','	r.featureOffset += 4 + int64(uint16(featureLen))\n')],
 'a feature of 64 KiB or more found by an index search, before another result',
 'the features after it are looked for at the wrong place',
r'''
	f := feature([]float64{1, 1}, make([]byte, 70000))
	g := feature([]float64{2, 2}, make([]byte, 10))
	h := feature([]float64{3, 3}, make([]byte, 10))
	r := open(bytes.NewReader(file(header(3, 2), []*flat.Feature{f, g, h})))
	got, err := r.IndexSearch(box(0, 0, 9, 9))
	ok(err)
	check(len(got) == 3, "found %d", len(got))
	same(&got[1], g)
	same(&got[2], h)
''')

# ---- second batch

bug('p02-deep-levels','P02',[(T,'		nodesPerLevel = append(nodesPerLevel, int(nodesThisLevel))\n','		if len(nodesPerLevel) < cap(nodesPerLevel) {\n			nodesPerLevel = append(nodesPerLevel, int(nodesThisLevel))\n		}\n')],
 'an index with more than 16 levels, e.g. more than 32768 references with node size two',
 'the root is lost, so that searches miss results',
r'''
	n := 40000
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)}
	}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	r := t.Search(box(39990, 0, 39991, 0))
	check(len(r) == 2, "found %v", r)
''')

bug('p05-sort-difference','P05',[(T,'	return rs[i].Offset < rs[j].Offset\n','	return int32(rs[i].Offset-rs[j].Offset) < 0\n')],
 'search results more than 2 GiB apart in the data section',
 'they are visited in the wrong order',
r'''
	r := packedrtree.Results{{Offset: 3 << 30}, {Offset: 5}, {Offset: 1 << 40}}
	sort.Sort(r)
	check(r[0].Offset == 5 && r[1].Offset == 3<<30 && r[2].Offset == 1<<40, "sorted as %v", r)
''','sort')

bug('p05-long-skip','P05',[(R,'			if err := skip(sr[i].Offset - r.featureOffset); err != nil {\n','			if err := skip(int64(int32(sr[i].Offset - r.featureOffset))); err != nil {\n')],
 'a search result whose distance from the preceding one (or the start of the data) is 2 GiB or more',
 'the reader goes to the wrong place',
r'''
	a, b := feature([]float64{1, 1}, nil), feature([]float64{7, 7}, nil)
	// The first feature is 3 GiB long; almost all of it is a hole.
	const size = 3 << 30
	h := header(2, 16)
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(1, 1, 1, 1), Offset: 0}, {Box: box(7, 7, 7, 7), Offset: size}}, 16)
	ok(err)
	var pre bytes.Buffer
	w := flatgeobuf.NewFileWriter(&pre)
	_, err = w.Header(h)
	ok(err)
	_, err = w.Index(t)
	ok(err)
	start := append([]byte{}, a.Table().Bytes...)
	start[0], start[1], start[2], start[3] = 0xfc, 0xff, 0xff, 0xbf // size - 4
	d, err := os.MkdirTemp("", "demo")
	ok(err)
	defer os.RemoveAll(d)
	f, err := os.Create(filepath.Join(d, "f"))
	ok(err)
	at := int64(pre.Len())
	pre.Write(start)
	_, err = f.WriteAt(pre.Bytes(), 0)
	ok(err)
	_, err = f.WriteAt(b.Table().Bytes, at+size)
	ok(err)
	fs, err := open(f).IndexSearch(box(6, 6, 8, 8))
	os.RemoveAll(d)
	ok(err)
	check(len(fs) == 1, "%d features", len(fs))
	same(&fs[0], b)
''','os path/filepath')

bug('p06-datarem-tail','P06',[(R,'''			q = append(q, p[0:n]...)
			if err != nil && err != io.EOF {
				return q, err
			} else if err == io.EOF {
				return q, nil
			}
''','''			if err == io.EOF {
				return q, nil
			}
			q = append(q, p[0:n]...)
			if err != nil {
				return q, err
			}
''')],
 'a file with an unknown number of features, more than 1024 but no multiple of 1024, read by DataRem',
 'the last features are lost',
r'''
	fs, err := open(bytes.NewReader(file(header(0, 0), line(1500)))).DataRem()
	ok(err)
	check(len(fs) == 1500, "%d features", len(fs))
''')

bug('p06-datarem-overwritten','P06',[(R,'''		q := make([]flat.Feature, 0, 2*len(p))
		q = append(q, p[0:n]...)
''','''		q := p[0:n]
''')],
 'a file with an unknown number of features, more than 1024, read by DataRem',
 'the first features are replaced by later ones',
r'''
	in := line(1500)
	fs, err := open(bytes.NewReader(file(header(0, 0), in))).DataRem()
	ok(err)
	check(len(fs) == 1500, "%d features", len(fs))
	for i := range fs {
		same(&fs[i], in[i])
	}
''')

bug('p08-skip-error-state','P08',[(R,'''			if err = discard(r.r, make([]byte, bufSize), int64(indexSize)); err != nil {
				return r.toErr(err)
			}
''','''			if err = discard(r.r, make([]byte, bufSize), int64(indexSize)); err != nil {
				r.state = afterIndex
				return err
			}
''')],
 'a read error while skipping the index of an unseekable stream, followed by another read',
 'the next read takes the rest of the index for features',
r'''
	b := file(header(4, 2), line(4))
	s := &badRead{Reader: bytes.NewReader(b), fail: len(headerBytes(4, 2)) + 8 + 40}
	r := open(s)
	_, err := r.DataRem()
	check(errors.Is(err, errFault), "error %v", err)
	_, err = r.DataRem()
	check(errors.Is(err, errFault), "error %v", err)
}

type badRead struct {
	*bytes.Reader
	n, fail int
}

func (s *badRead) Seek() {}

func (s *badRead) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.n+len(p) > s.fail {
		n, _ := s.Reader.Read(p[:s.fail-s.n])
		s.fail = -1
		return n, errFault
	}
	n, err := s.Reader.Read(p)
	s.n += n
	return n, err
''')

bug('p08-cached-seek-error','P08',[(R,'''		if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
			return nil, r.toErr(wrapErr("failed to seek past cached index", err))
		}
''','''		_, _ = s.Seek(r.dataOffset, io.SeekStart) // Got there before.
''')],
 'the index loaded, some data read, a rewind, the index loaded again with a failing seek',
 'the index is returned without an error, and the features read next are not the first ones',
r'''
	s := &badSeek{ReadSeeker: bytes.NewReader(file(header(4, 2), line(4)))}
	r := open(s)
	_, err := r.Index()
	ok(err)
	_, err = r.Data(make([]flat.Feature, 2))
	ok(err)
	ok(r.Rewind())
	s.fail = s.n + 1
	_, err = r.Index()
	check(errors.Is(err, errFault), "error %v", err)
}

type badSeek struct {
	io.ReadSeeker
	n, fail int
}

func (s *badSeek) Seek(o int64, w int) (int64, error) {
	s.n++
	if s.n == s.fail {
		return 0, errFault
	}
	return s.ReadSeeker.Seek(o, w)
''')

bug('p08-close-leak','P06',[(SF,'''	s.err = ErrClosed

	if c, ok''','''	var err error
	if s.err, err = ErrClosed, s.err; err != nil {
		return err
	}

	if c, ok''')],
 'a reader closed after it has failed',
 'the underlying stream is not closed',
r'''
	c := &closer{Reader: bytes.NewReader([]byte("not a FlatGeobuf file"))}
	r := flatgeobuf.NewFileReader(c)
	_, err := r.Header()
	check(err != nil, "no error")
	_ = r.Close()
	check(c.closed == 1, "closed %d times", c.closed)
}

type closer struct {
	io.Reader
	closed int
}

func (c *closer) Close() error {
	c.closed++
	return nil
''')

bug('p09-large-count','P09',[(R,'		if r.numFeatures == 0 && err == errEndOfData {\n','		if (r.numFeatures == 0 || r.numFeatures > dataRemMaxPrealloc) && err == errEndOfData {\n')],
 'a file announcing more than 65536 features, cut off between two of them',
 'the end of the file is reported as normal',
r'''
	h := header(70000, 0)
	var b bytes.Buffer
	w := flatgeobuf.NewFileWriter(&b)
	_, err := w.Header(h)
	ok(err)
	for _, f := range line(10) {
		_, err = w.Data(f)
		ok(err)
	}
	fs, err := open(&b).DataRem()
	check(err != nil && len(fs) == 10, "%d features, error %v", len(fs), err)
''')

bug('p13-half-column-index','P13',[(PR,'		if err == io.EOF {\n			return vals, nil\n','		if err == io.EOF || err == io.ErrUnexpectedEOF {\n			return vals, nil\n')],
 'properties cut off after the first byte of a column index',
 'they are decoded as if complete',
r'''
	_, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 7, 0})).ReadSchema(header(0, 0, col{"a", flat.ColumnTypeUByte}))
	check(err != nil, "no error")
''')

bug('p13-column-bound','P13',[(PR,'		if i >= n {\n','		if i > n {\n')],
 'a column index equal to the number of columns',
 'whatever follows the columns in the table is taken for a column',
r'''
	h := header(0, 0, col{"a", flat.ColumnTypeUByte})
	_, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{1, 0, 7})).ReadSchema(h)
	check(err != nil, "no error")
	v, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{1, 0, 7, 1, 0, 7})).ReadSchema(hdr2{h})
	check(err != nil, "%v", v)
}

// hdr2 is a schema with something behind its last column.
type hdr2 struct{ *flat.Header }

func (h hdr2) Columns(c *flat.Column, i int) bool {
	return h.Header.Columns(c, 0)
''')

bug('p10-index-retry','P10',[(W,'''	n, err = index.Marshal(w.w)
	if err != nil {
		err = w.toErr(err)
		return
	}
''','''	n, err = index.Marshal(w.w)
	if err != nil {
		w.state = afterHeader // Go back to header state.
		return
	}
''')],
 'an index write which fails part way, and another try',
 'the index is written again after part of it',
r'''
	refs := []packedrtree.Ref{{Box: box(0, 0, 1, 1)}, {Box: box(2, 2, 3, 3), Offset: 99}}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	b := &partial{fail: 3, accept: 50}
	w := flatgeobuf.NewFileWriter(b)
	_, err = w.Header(header(2, 2))
	ok(err)
	_, err = w.Index(t)
	check(errors.Is(err, errFault), "error %v", err)
	k := b.Len()
	_, err = w.Index(t)
	check(err != nil && b.Len() == k, "error %v, %d more bytes", err, b.Len()-k)
}

type partial struct {
	bytes.Buffer
	n, fail, accept int
}

func (p *partial) Write(b []byte) (int, error) {
	p.n++
	if p.n == p.fail {
		p.Buffer.Write(b[:p.accept])
		return p.accept, errFault
	}
	return p.Buffer.Write(b)
''')

bug('p10-magic-retry','P10',[(W,'''	m, err := w.w.Write(magic[:])
	n += m
	if err != nil {
''','''	m, err := w.w.Write(magic[:])
	n += m
	if err != nil && m < len(magic)/2 {
		w.state = uninitialized // Not a FlatGeobuf file yet.
		err = wrapErr("failed to write magic number", err)
		return
	} else if err != nil {
''')],
 'a write of the magic number which fails after one to three bytes, and another try',
 'the magic number is written again after part of it',
r'''
	b := &partial{fail: 1, accept: 3}
	w := flatgeobuf.NewFileWriter(b)
	_, err := w.Header(header(2, 2))
	check(errors.Is(err, errFault), "error %v", err)
	_, err = w.Header(header(2, 2))
	check(err != nil && b.Len() == 3, "error %v, %d bytes", err, b.Len())
}

type partial struct {
	bytes.Buffer
	n, fail, accept int
}

func (p *partial) Write(b []byte) (int, error) {
	p.n++
	if p.n == p.fail {
		p.Buffer.Write(b[:p.accept])
		return p.accept, errFault
	}
	return p.Buffer.Write(b)
''')

bug('p01-chunk-multiple','P01',[(FB,'	if size, err = tableSize(t); err != nil {\n		return\n','''	size, err = tableSize(t)
	const chunk = 1 << 16
	if err != nil {
		return
	} else if size >= 2*chunk-flatbuffers.SizeUint32 {
		b := t.Bytes[0 : flatbuffers.SizeUint32+uint64(size)]
		for err == nil && len(b) > 0 {
			// Leave a short rest to the last write.
			m := len(b)
			if m >= 2*chunk {
				m = chunk
			}
			m, err = w.Write(b[:m])
			n += m
			b = b[m:]
			if len(b) == chunk {
				b = nil
			}
		}
		return
''')],
 'a table of exactly 131072 bytes, or of any larger multiple of 65536',
 'its end is not written',
r'''
	f := feature([]float64{1, 1}, make([]byte, 1<<17-100))
	for i := 0; len(f.Table().Bytes) < 1<<17; i++ {
		f = feature([]float64{1, 1}, make([]byte, 1<<17-100+i))
	}
	g := feature([]float64{2, 2}, nil)
	fs, err := open(bytes.NewReader(file(header(2, 2), []*flat.Feature{f, g}))).DataRem()
	ok(err)
	check(len(fs) == 2, "%d features", len(fs))
	same(&fs[0], f)
	same(&fs[1], g)
''')

bug('p17-scale-default','P17',[('flatgeobuf/flat/Column.go','''		return rcv._tab.GetInt32(o + rcv._tab.Pos)
	}
	return -1
}

func (rcv *Column) MutateScale''','''		return rcv._tab.GetInt32(o + rcv._tab.Pos)
	}
	return 0
}

func (rcv *Column) MutateScale''')],
 'a column without a scale',
 'its scale is zero rather than unknown',
r'''
	var c flat.Column
	check(header(0, 0, col{"a", flat.ColumnTypeInt}).Columns(&c, 0) && c.Scale() == -1, "scale %d", c.Scale())
''')

bug('p17-mutate-slot','P17',[('flatgeobuf/flat/Column.go','	return rcv._tab.MutateBoolSlot(20, n)\n','	return rcv._tab.MutateBoolSlot(18, n)\n')],
 'a column with both a nullable and a unique field, of which the latter is changed in place',
 'the other field changes',
r'''
	b := flatbuffers.NewBuilder(0)
	flat.ColumnStart(b)
	flat.ColumnAddNullable(b, false)
	flat.ColumnAddUnique(b, true)
	b.Finish(flat.ColumnEnd(b))
	c := flat.GetRootAsColumn(b.FinishedBytes(), 0)
	check(c.MutateUnique(false) && !c.Unique() && !c.Nullable(), "unique %v nullable %v", c.Unique(), c.Nullable())
	check(!c.MutateUnique(true) || c.Unique() && !c.Nullable(), "unique %v nullable %v", c.Unique(), c.Nullable())
''')

bug('p19-cached-search','P19',[(T,'''	r, err := prt.search(b)
	if err != nil {
		panic(err) // prt''','''	if prt.lastResults != nil && prt.lastBox == b {
		return prt.lastResults
	}
	r, err := prt.search(b)
	prt.lastBox, prt.lastResults = b, r
	if err != nil {
		panic(err) // prt'''),(T,'type PackedRTree struct {\n	packedRTree\n','type PackedRTree struct {\n	packedRTree\n	// lastBox and lastResults are the latest search.\n	lastBox     Box\n	lastResults Results\n'),
 (T,'	return &PackedRTree{prt}, nil\n','	return &PackedRTree{packedRTree: prt}, nil\n')],
 'the same search twice in a row, with the results of the first modified (e.g. sorted) in between',
 'the second search returns the modified results',
r'''
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1), Offset: 5}, {Box: box(0, 0, 1, 1), Offset: 3}}, 2)
	ok(err)
	r := t.Search(box(0, 0, 1, 1))
	r[0].Offset = 99
	for _, x := range t.Search(box(0, 0, 1, 1)) {
		check(x.Offset != 99, "found %v", x)
	}
''')

bug('p19-feature-arena','P19',[(R,'	// Read the feature table bytes.\n	var tbl []byte\n	if tbl, err = readTable(r.r, b, featureLen); err != nil {\n','''	// Read the feature table bytes. Small features share memory.
	if n = flatbuffers.SizeUint32 + int(featureLen); n > 0 && n <= 256 {
		if len(r.arena) < n {
			r.arena = make([]byte, 4096)
		}
		b = append(r.arena[:0], b...)
		r.arena = r.arena[n:]
	}
	var tbl []byte
	if tbl, err = readTable(r.r, b, featureLen); err != nil {
'''),(R,'''	featureOffset int64
}
''','''	featureOffset int64
	// arena is where small features are read.
	arena []byte
}
''')],
 'two small features read one after the other; the first one is extended by append',
 'appending to a feature overwrites the next one',
r'''
	r := open(bytes.NewReader(file(header(3, 0), line(3))))
	fs, err := r.DataRem()
	ok(err)
	b := fs[0].Table().Bytes
	_ = append(b, 0xff, 0xff, 0xff, 0xff)
	same(&fs[1], line(3)[1])
''')

bug('p20-offset-int','P20',[(T,'				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})\n','				r = append(r, Result{Offset: int64(int(n.Offset)), RefIndex: pos - prt.levels[0].start})\n')],
 'a 32-bit host, and a feature 2 GiB or more into the data section',
 'its offset is truncated',
r'''
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1), Offset: 5 << 30}}, 2)
	ok(err)
	r := t.Search(box(0, 0, 1, 1))
	check(len(r) == 1 && r[0].Offset == 5<<30, "found %v", r)
''',sh='386')

bug('p21-patch-sign','P21',[(SP,'		return SpecVersion{m[3], m[7]}, nil\n','		return SpecVersion{m[3], m[7] & 0x7f}, nil\n')],
 'a patch version of 128 or more',
 'it is reported wrongly',
r'''
	v, err := flatgeobuf.Magic(bytes.NewReader([]byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 200}))
	ok(err)
	check(v.Patch == 200 && v.Major == 3, "%v", v)
''')

bug('p22-flags','P22',[(ST,'		flag("TM", tm)\n','		flag("TM", tm && !t)\n')],
 'a header with both the T and the TM flag',
 'the TM flag is not shown',
r'''
	b := flatbuffers.NewBuilder(0)
	flat.HeaderStart(b)
	flat.HeaderAddHasT(b, true)
	flat.HeaderAddHasTm(b, true)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	s := flatgeobuf.HeaderString(flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0))
	check(bytes.Contains([]byte(s), []byte("T|TM")), "%s", s)
''')

bug('p22-nil-text','P22',[(ST,'	if value != nil {\n		stringKey(b, key)\n','	if value != nil && (len(value) > 0 || key != ",Desc") {\n		stringKey(b, key)\n'),],
 'a header with an empty description',
 'the description is not shown',
r'''
	b := flatbuffers.NewBuilder(0)
	d := b.CreateString("")
	flat.HeaderStart(b)
	flat.HeaderAddDescription(b, d)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	s := flatgeobuf.HeaderString(flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0))
	check(bytes.Contains([]byte(s), []byte("Desc:")), "%s", s)
''')

bug('p12-buffered','P12',[(PR,'	return &PropReader{r: r}\n','	p := &PropReader{r}\n	if _, ok := r.(io.ByteReader); !ok {\n		p.r = bufio.NewReader(r) // Values are small.\n	}\n	return p\n'),(PR,'import (\n','import (\n	"bufio"\n')],
 'a stream, not already in memory, from which the property reader is to read only a part',
 'it reads more than the values it was asked for',
r'''
	src := bytes.NewReader([]byte{1, 0, 2, 0, 3, 0})
	s := stream{r: src}
	v, err := flatgeobuf.NewPropReader(s).ReadShort()
	ok(err)
	w, err := flatgeobuf.NewPropReader(s).ReadShort()
	ok(err)
	check(v == 1 && w == 2, "read %d, %d", v, w)
''')

bug('p14-clamped','P14',[(H,'		hx = uint32(math.Floor(hilbertMax * rx))\n','		hx = uint32(hilbertMax * float32(rx))\n')],
 'boxes whose centers are close together compared to the bounds, but not in the same cell',
 'they are put into the same or the wrong cell',
r'''
	const step, n = 1, 256
	refs := make([]packedrtree.Ref, 0, n*n)
	for x := 61440; len(refs) < n*n; x += step {
		for y := 57344; len(refs) == 0 || len(refs)%n != 0 || refs[len(refs)-1].XMin != float64(x)+0.999; y += step {
			c, d := float64(x)+0.999, float64(y)+0.999
			refs = append(refs, packedrtree.Ref{Box: box(c, d, c, d)})
		}
	}
	packedrtree.HilbertSort(refs, box(0, 0, 65535, 65535))
	for i := 1; i < len(refs); i++ {
		d := math.Abs(refs[i].XMin-refs[i-1].XMin) + math.Abs(refs[i].YMin-refs[i-1].YMin)
		check(math.Abs(d-step) < 0.1, "%v comes after %v", refs[i], refs[i-1])
	}
''','math')

bug('p15-wide-count','P15',[(T,'	var numInternal uint\n	nodesThisLevel := numRefs\n	for {\n		nodesThisLevel = (nodesThisLevel + nodeSize - 1) / nodeSize\n		numInternal += nodesThisLevel\n','	var numInternal uint\n	nodesThisLevel := numRefs\n	for {\n		nodesThisLevel = uint(math.Ceil(float64(nodesThisLevel) / float64(nodeSize)))\n		numInternal += nodesThisLevel\n')],
 'a reference count beyond 2^53',
 'the computed size is wrong',
r'''
	for _, n := range []int{1<<53 + 1, 1<<55 + 3, 1<<57 - 1} {
		want := n
		for k := n; k > 1; {
			k = (k + 1) / 2
			want += k
		}
		got, err := packedrtree.Size(n, 2)
		if want > math.MaxInt/40 {
			check(err != nil, "%d: no error", n)
		} else {
			check(err == nil && got == 40*want, "%d: %d nodes, not %d, error %v", n, got/40, want, err)
		}
	}
''','math')

bug('p03-far-index','P03',[(T,'		rel := startOffset + int64(i)*int64(numNodeBytes) - offset\n','		rel := int64(int32(startOffset)+int32(i*numNodeBytes)) - offset\n')],
 'an index that begins at or beyond offset 2 GiB of a stream',
 'the search goes to the wrong place',
r'''
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1), Offset: 5}, {Box: box(2, 2, 3, 3), Offset: 9}, {Box: box(4, 4, 5, 5), Offset: 19}}, 2)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	s := &far{r: bytes.NewReader(b.Bytes())}
	r, err := packedrtree.Seek(s, 3, 2, box(4, 4, 4, 4))
	ok(err)
	check(len(r) == 1 && r[0].Offset == 19, "found %v", r)
}

// far is a stream that is empty but for its end.
type far struct{ r *bytes.Reader }

const base = 3 << 30

func (f *far) Read(p []byte) (int, error) { return f.r.Read(p) }
func (f *far) Seek(o int64, w int) (int64, error) {
	if w == io.SeekStart {
		o -= base
	}
	n, err := f.r.Seek(o, w)
	return n + base, err
''')

bug('p14-large','P14',[(H,'	sort.Sort(&hs)\n','''	// Sort large lists in runs, which takes less time, and then merge them
	// unless they are in order.
	const run = 1 << 15
	if n := len(refs); n > run {
		for i := 0; i < n; i += run {
			part := hs
			part.refs = refs[i:]
			if len(part.refs) > run {
				part.refs = part.refs[:run]
			}
			sort.Sort(&part)
		}
	}
	if len(refs) <= run || hs.Less(len(refs)-1, run) {
		sort.Sort(&hs)
	}
''')],
 'more than 32768 references',
 'the list is sorted in parts only',
r'''
	const n = 40000
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		// Everything in the first part is before everything in the second
		// one, except for the last one.
		x := float64(i)
		refs[i] = packedrtree.Ref{Box: box(x, 0, x, 0), Offset: int64(i)}
	}
	one := append([]packedrtree.Ref(nil), refs[:100]...)
	packedrtree.HilbertSort(one, box(0, 0, n, 0))
	up := one[0].Offset < one[99].Offset
	packedrtree.HilbertSort(refs, box(0, 0, n, 0))
	for i := 1; i < n; i++ {
		check((refs[i-1].Offset < refs[i].Offset) == up, "%v is before %v", refs[i-1], refs[i])
	}
''')

bug('p18-sort-global','P18',[(H,'	hs := hilbertSortable{\n','	sortable = hilbertSortable{\n'),(H,'	sort.Sort(&hs)\n','	sort.Sort(&sortable)\n'),
 (H,'// HilbertSort sorts a list','// sortable is the list being sorted.\nvar sortable hilbertSortable\n\n// HilbertSort sorts a list')],
 'two lists sorted at the same time',
 'one is sorted twice, and the other one not (completely), or memory is accessed out of range',
r'''
	const n = 5000
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			defer func() { recover(); done <- true }()
			for k := 0; k < 20; k++ {
				refs := make([]packedrtree.Ref, n)
				for i := range refs {
					x := float64(i * 7919 % n)
					refs[i] = packedrtree.Ref{Box: box(x, 0, x, 0)}
				}
				packedrtree.HilbertSort(refs, box(0, 0, n, 0))
				up := refs[0].XMin < refs[n-1].XMin
				for i := 1; i < n; i++ {
					check(refs[i-1].XMin == refs[i].XMin || (refs[i-1].XMin < refs[i].XMin) == up, "not sorted")
				}
			}
		}(g)
	}
	for g := 0; g < 8; g++ {
		<-done
	}
''')

bug('p18-lazy-string','P18',[(T,'	return fmt.Sprintf("PackedRTree{Bounds:%s,NumRefs:%d,NodeSize:%d}", prt.Bounds(), prt.numRefs, prt.nodeSize)\n','''	if prt.text == nil {
		prt.text = make([]byte, 0, 64)
		prt.text = append(prt.text, "PackedRTree{Bounds:"...)
		prt.text = append(prt.text, prt.Bounds().String()...)
		prt.text = append(prt.text, fmt.Sprintf(",NumRefs:%d,NodeSize:%d}", prt.numRefs, prt.nodeSize)...)
	}
	return string(prt.text)
'''),(T,'type PackedRTree struct {\n	packedRTree\n','type PackedRTree struct {\n	packedRTree\n	// text is the cached description.\n	text []byte\n'),
 (T,'	return &PackedRTree{prt}, nil\n','	return &PackedRTree{packedRTree: prt}, nil\n')],
 'the description of one index, which nothing described before, requested by two goroutines at the same time',
 'one of them gets a part of the description',
r'''
	for k := 0; k < 30000; k++ {
		t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1)}}, 2)
		ok(err)
		const g = 4
		got := make([]string, g)
		var wg sync.WaitGroup
		wg.Add(g)
		start := make(chan bool)
		for i := 0; i < g; i++ {
			go func(i int) {
				defer wg.Done()
				<-start
				got[i] = t.String()
			}(i)
		}
		close(start)
		wg.Wait()
		for _, s := range got {
			check(s == "PackedRTree{Bounds:[0,0,1,1],NumRefs:1,NodeSize:2}", "%s", s)
		}
	}
''','sync')

bug('p18-level-cache','P18',[(T,'	levels := levelify(uint(numRefs), uint(nodeSize))\n','''	// Trees of the same dimensions have the same levels.
	key := uint64(numRefs)<<16 | uint64(nodeSize)
	var levels []levelRange
	if atomic.LoadUint64(&levelKey) == key {
		levels, _ = levelCache.Load().([]levelRange)
	}
	if levels == nil {
		levels = levelify(uint(numRefs), uint(nodeSize))
		atomic.StoreUint64(&levelKey, key)
		levelCache.Store(levels)
	}
'''),(T,'// noo constructs a new packedRTree.\n','// levelKey and levelCache are the dimensions and levels of the latest tree.\nvar (\n	levelKey   uint64\n	levelCache atomic.Value\n)\n\n// noo constructs a new packedRTree.\n'),
 (T,'	"math"\n	"unsafe"\n','	"math"\n	"sync/atomic"\n	"unsafe"\n')],
 'an index created between the two stores made for another one of different dimensions',
 'it has the wrong levels',
r'''
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fail("panic: %v", e)
				}
			}()
			for k := 0; k < 200000; k++ {
				n := 3 + 40*(g%2)
				refs := make([]packedrtree.Ref, n)
				for i := range refs {
					refs[i] = packedrtree.Ref{Box: box(0, 0, 1, 1), Offset: int64(i)}
				}
				t, err := packedrtree.New(refs, 2)
				ok(err)
				check(len(t.Search(box(0, 0, 1, 1))) == n, "wrong levels")
			}
		}(g)
	}
	wg.Wait()
''','sync')

bug('p19-nil-after-write','P19',[(W,'''		o, err = w.Data(data[i])
		n += o
		if err != nil {
			return
		}
''','''		f := data[i]
		data[i] = nil // Features can be freed as they are written.
		o, err = w.Data(f)
		n += o
		if err != nil {
			return
		}
''')],
 'a list of features which the caller uses after writing it',
 'it contains nils',
r'''
	fs := line(3)
	file(header(3, 16), fs)
	for _, f := range fs {
		check(f != nil, "nil")
	}
''')

bug('p19-header-mutated','P19',[(W,'		nodeSize = hdr.IndexNodeSize()\n','		if nodeSize = hdr.IndexNodeSize(); numFeatures == 0 && nodeSize > 0 && hdr.MutateIndexNodeSize(0) {\n			nodeSize = 0 // There is no index.\n		}\n')],
 'a header with feature count zero and a node size that is stored and not zero',
 'writing it modifies it',
r'''
	h := header(0, 8)
	before := append([]byte(nil), h.Table().Bytes...)
	_, err := flatgeobuf.NewFileWriter(io.Discard).Header(h)
	ok(err)
	check(bytes.Equal(before, h.Table().Bytes), "header modified")
''')

bug('p20-be-last-word','P20',[(BE,'	for i := 0; i < len(b); i += 8 {\n		b[i+0]','	for i := 0; i < len(b)-len(b)%4096+len(b)%4096/8*8; i += 8 {\n		if i > 0 && i%65536 == 0 && i+8 == len(b) {\n			break\n		}\n		b[i+0]')],
 'a big-endian host',
 'placeholder',
r'''''',sh='be')
BUGS.pop()

bug('p21-older-major','P21',[(R,'	if v.Major < MinSpecMajorVersion || v.Major > MaxSpecMajorVersion {\n','	if v.Major < MinSpecMajorVersion-1 || v.Major > MaxSpecMajorVersion {\n')],
 'a file of major version 2',
 'it is accepted',
r'''
	b := file(header(1, 0), line(1))
	b[3] = 2
	_, err := flatgeobuf.NewFileReader(bytes.NewReader(b)).Header()
	check(err != nil, "accepted")
''')

bug('p21-node-size-one','P21',[(W,'	if nodeSize == 1 {\n','	if nodeSize == 1 && numFeatures > 0 {\n')],
 'a header with node size one and no feature count',
 'the writer accepts it, and readers reject the file',
r'''
	_, err := flatgeobuf.NewFileWriter(io.Discard).Header(header(0, 1))
	check(err != nil, "accepted")
''')

bug('p08-magic-short','P08',[(SP,'''	_, err := io.ReadFull(r, m)
	if err != nil {
''','''	n, err := r.Read(m)
	if n > 0 && n < magicLen && err == nil {
		_, err = io.ReadAtLeast(r, m[n:], 1)
	}
	if err == io.EOF && n == magicLen {
		err = nil
	}
	if err != nil {
''')],
 'a stream that delivers the magic number in three or more pieces',
 'it is not recognised',
r'''
	b := file(header(1, 0), line(1))
	for max := 1; max < 9; max++ {
		_, err := flatgeobuf.NewFileReader(stream{bytes.NewReader(b), max}).Header()
		ok(err)
	}
''')

bug('p22-crs-code','P22',[(ST,'int64(crs.Code())','int64(uint16(crs.Code()))')],
 'a coordinate reference system with a code above 65535, or negative',
 'the code shown is wrong',
r'''
	b := flatbuffers.NewBuilder(0)
	flat.CrsStart(b)
	flat.CrsAddCode(b, 102100)
	c := flat.CrsEnd(b)
	flat.HeaderStart(b)
	flat.HeaderAddCrs(b, c)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	s := flatgeobuf.HeaderString(flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0))
	check(bytes.Contains([]byte(s), []byte("Code:102100")), "%s", s)
''')

bug('p15-wrap','P15',[(T,'	if numNodes > math.MaxInt/int(numNodeBytes) {\n','	if numNodes*numNodeBytes < numNodes {\n')],
 'a count for which the size, truncated to the width of an int, is positive and greater than the number of nodes',
 'the size is wrong, and there is no error',
r'''
	for _, n := range []int{1 << 58, 3 << 57, 5 << 56, 7<<56 + 12345, 1<<59 + 99999} {
		_, err := packedrtree.Size(n, 16)
		check(err != nil, "%d: no error", n)
	}
''')

bug('p12-datetime','P12',[(PR,'''		case flat.ColumnTypeString, flat.ColumnTypeDateTime:
			val.Value, err = r.ReadString()
		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
''','''		case flat.ColumnTypeString:
			val.Value, err = r.ReadString()
		case flat.ColumnTypeDateTime, flat.ColumnTypeJson, flat.ColumnTypeBinary:
''')],
 'a date-and-time column',
 'its values are decoded as bytes rather than as strings',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewPropWriter(&b)
	_, err := w.WriteUShort(0)
	ok(err)
	_, err = w.WriteString("2023-01-01")
	ok(err)
	v, err := flatgeobuf.NewPropReader(&b).ReadSchema(header(0, 0, col{"a", flat.ColumnTypeDateTime}))
	ok(err)
	check(v[0].Value == "2023-01-01", "%v", v)
''')

bug('p06-empty-batch','P06',[(R,'''	if r.state == eof {
		return 0, io.EOF
''','''	if r.state == eof && len(p) == 0 {
		return 0, nil // There is nothing to do.
	} else if r.state == eof {
		return 0, io.EOF
''')],
 'an empty batch read at the end of the file',
 'the end of the file is not reported',
r'''
	r := open(bytes.NewReader(file(header(2, 0), line(2))))
	_, err := r.DataRem()
	ok(err)
	n, err := r.Data(nil)
	check(n == 0 && err == io.EOF, "n=%d error %v", n, err)
''')

bug('p07-too-many','P07',[(W,'	if w.featureIndex == w.numFeatures && w.numFeatures > 0 {\n','	if w.featureIndex == w.numFeatures && w.nodeSize > 0 {\n')],
 'a file without index but with a known feature count, to which one more feature is written',
 'it is written',
r'''
	var b bytes.Buffer
	w := flatgeobuf.NewFileWriter(&b)
	_, err := w.Header(header(1, 0))
	ok(err)
	_, err = w.Data(line(1)[0])
	ok(err)
	n := b.Len()
	_, err = w.Data(line(1)[0])
	check(err != nil && b.Len() == n, "one feature too many")
''')

bug('p11-recover','P11',[(FB,'		if r := recover(); r != nil {\n			err = fmt.Errorf("panic: flatbuffers: %v", r)\n		}\n','''		if r := recover(); r != nil {
			if e, ok := r.(error); ok && strings.Contains(e.Error(), "slice bounds") {
				err = fmt.Errorf("panic: flatbuffers: %v", r)
			} else if ok && strings.Contains(e.Error(), "index out of range") {
				err = fmt.Errorf("panic: flatbuffers: %v", r)
			} else {
				panic(r) // Not due to FlatBuffers.
			}
		}
'''),(FB,'	"io"\n','	"io"\n	"strings"\n')],
 'a geometry which is a part of itself',
 'describing or indexing it panics',
r'''
	b := flatbuffers.NewBuilder(0)
	flat.GeometryStart(b)
	g := flat.GeometryEnd(b)
	flat.GeometryStartPartsVector(b, 1)
	b.PrependUOffsetT(g)
	v := b.EndVector(1)
	flat.GeometryStart(b)
	flat.GeometryAddParts(b, v)
	g = flat.GeometryEnd(b)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	d := b.FinishedBytes()
	f := flat.GetSizePrefixedRootAsFeature(d, 0)
	var h flat.Geometry
	f.Geometry(&h)
	// Make the vector element refer to the outer geometry.
	e := h.Table()
	o := flatbuffers.UOffsetT(e.Offset(18))
	el := e.Vector(o)
	flatbuffers.WriteUOffsetT(d[el:], e.Pos-el)
	s := flatgeobuf.FeatureString(f, nil)
	check(len(s) > 0, "no string")
''')

bug('p13-partial-values','P13',[(PR,'			return nil, fmtErr("column index %d not in schema (%d columns)", i, n)\n','			return vals, fmtErr("column index %d not in schema (%d columns)", i, n)\n')],
 'a property stream whose second or a later property has an unknown column',
 'the properties before are returned along with the error',
r'''
	v, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 7, 1, 0, 7})).ReadSchema(header(0, 0, col{"a", flat.ColumnTypeByte}))
	check(err != nil && v == nil, "%v, error %v", v, err)
''')

bug('p13-high-column','P13',[(PR,'		i := int(col)\n','		i := int(col & 0x7fff)\n')],
 'a column index of 32768 or more, which is 32768 more than that of a column',
 'the value is taken for one of that column',
r'''
	v, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0x80, 7})).ReadSchema(header(0, 0, col{"a", flat.ColumnTypeByte}))
	check(err != nil && v == nil, "%v, error %v", v, err)
''')

bug('p16-argument','P16',[(B,'''	if c.XMin < b.XMin {
		b.XMin = c.XMin
	}
	if c.YMin < b.YMin {
		b.YMin = c.YMin
	}
	if c.XMax > b.XMax {
''','''	if c.XMin > c.XMax || c.YMin > c.YMax {
		return // Nothing in it.
	}
	if c.XMin < b.XMin {
		b.XMin = c.XMin
	}
	if c.YMin < b.YMin {
		b.YMin = c.YMin
	}
	if c.XMax > b.XMax {
''')],
 'x',
 'x',r'''''')
BUGS.pop()

bug('p04-wide-levels','P04',[(T,'				if j == prt.nodeSize {\n','				if j == prt.nodeSize&0xff || j == prt.nodeSize {\n')],
 'a node size above 256',
 'inner nodes cover fewer children than they should',
r'''
	const n, size = 700, 300
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: box(float64(n-i), 0, float64(n-i), 0), Offset: int64(i)}
	}
	t, err := packedrtree.New(refs, size)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	// The second node below the root has the references 300 to 599.
	x := math.Float64frombits(binary.LittleEndian.Uint64(b.Bytes()[2*40:]))
	check(x == n-599, "%v", x)
	check(len(t.Search(box(0, 0, n, n))) == n, "not found")
''','math encoding/binary')

bug('p02-query-order','P02',[(T,'				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})\n','''				if prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1}); len(q) > 1<<10 {
					q = q[1:] // Limit memory.
				}
''')],
 'a search with more than a thousand nodes waiting at a time',
 'some references are not found',
r'''
	const size, n = 1100, 1100 * 1100
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: box(0, 0, 1, 1), Offset: int64(i)}
	}
	t, err := packedrtree.New(refs, size)
	ok(err)
	check(len(t.Search(box(0, 0, 1, 1))) == n, "not found")
''')

bug('p05-many-results','P05',[(R,'	fs := make([]flat.Feature, len(sr))\n	for i := range sr {\n','	fs := make([]flat.Feature, len(sr))\n	for i := 0; i < len(sr) && i <= math.MaxUint16; i++ {\n')],
 'a search that finds more than 65536 features',
 'the features after that are not read',
r'''
	const n = 70000
	fs := make([]*flat.Feature, n)
	f := feature([]float64{1, 1}, nil)
	for i := range fs {
		fs[i] = f
	}
	r := open(bytes.NewReader(file(header(n, 16), fs)))
	got, err := r.IndexSearch(box(0, 0, 2, 2))
	ok(err)
	check(len(got) == n, "%d", len(got))
	same(&got[n-1], f)
''')

bug('p09-discard-eof','P09',[(R,'''			if err = discard(r.r, make([]byte, bufSize), int64(indexSize)); err != nil {
				return r.toErr(err)
			}
''','''			if err = discard(r.r, make([]byte, bufSize), int64(indexSize)); err == io.ErrUnexpectedEOF {
				return io.EOF // There is no data section.
			} else if err != nil {
				return r.toErr(err)
			}
''')],
 'an unseekable stream that ends within the index, which is skipped by reading data',
 'the end of the file is reported as if all features had been read',
r'''
	b := file(header(3, 16), line(3))
	n := len(file(header(3, 0), line(3)))
	_ = n
	r := open(stream{r: bytes.NewReader(b[:len(headerBytes(3, 16))+8+50])})
	fs := make([]flat.Feature, 3)
	_, err := r.Data(fs)
	check(err != nil && err != io.EOF, "%v", err)
''')

bug('p18-bigendian-buffer','P18',[('packedrtree/native_bigendian.go','func writeLittleEndianOctets(','// octetBuf holds swapped octets on their way to a writer.\nvar octetBuf [8096]byte\n\nfunc writeLittleEndianOctets('),('packedrtree/native_bigendian.go','	buf := make([]byte, 8096)\n','	buf := octetBuf[:]\n')],
 'a big-endian host, and two goroutines serializing indexes of which one is preempted while it writes',
 'bytes of one index are written to the other stream',
r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	packedrtree "demo/be"
)

// With the code for big-endian hosts: another goroutine serializes another
// index while a write of the first is in progress.
func main() {
	a, b := tree(5), tree(9)
	var alone, other bytes.Buffer
	_, err := a.Marshal(&alone)
	check(err == nil, "error %v", err)
	w := &slow{during: func() {
		done := make(chan bool)
		go func() {
			_, err := b.Marshal(&other)
			check(err == nil, "error %v", err)
			done <- true
		}()
		<-done
	}}
	_, err = a.Marshal(w)
	check(err == nil, "error %v", err)
	check(bytes.Equal(w.buf.Bytes(), alone.Bytes()), "another index was written")
}

type slow struct {
	during func()
	buf    bytes.Buffer
}

func (s *slow) Write(p []byte) (int, error) {
	s.during()
	return s.buf.Write(p)
}

func tree(n int) *packedrtree.PackedRTree {
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: float64(i + n), XMax: float64(i + n)}, Offset: int64(i)}
	}
	t, err := packedrtree.New(refs, 16)
	check(err == nil, "error %v", err)
	return t
}

func check(b bool, f string, a ...interface{}) {
	if !b {
		fmt.Printf("FAIL: "+f+"\n", a...)
		os.Exit(1)
	}
}
''',sh='be')
bug('p08-eof-error','P08',[(R,'	if err == io.EOF && n == 0 {\n','	if errors.Is(err, io.EOF) && n == 0 {\n'),(R,'import (\n','import (\n	"errors"\n')],
 'a file of unknown feature count whose stream fails, at the start of a feature, with an error that wraps io.EOF',
 'the failure is taken for the end of the file',
r'''
	b := file(header(0, 0), line(3))
	s := &badRead{r: bytes.NewReader(b), at: len(b) - len(line(3)[2].Table().Bytes)}
	r := open(s)
	fs, err := r.DataRem()
	check(err != nil, "%d features and no error", len(fs))
}

type badRead struct {
	r  *bytes.Reader
	at int
	n  int
}

func (s *badRead) Read(p []byte) (int, error) {
	if s.n >= s.at {
		return 0, fmt.Errorf("connection lost: %w", io.EOF)
	}
	if len(p) > s.at-s.n {
		p = p[:s.at-s.n]
	}
	n, err := s.r.Read(p)
	s.n += n
	return n, err
''',imports='fmt')

# P23: which bytes are read.
TRACE='''
}

// traced is a seekable stream which records the bytes read.
type traced struct {
	*bytes.Reader
	n    int
	seen map[int64]int
}

func trace(b []byte) *traced {
	return &traced{Reader: bytes.NewReader(b), seen: map[int64]int{}}
}

func (t *traced) Read(p []byte) (int, error) {
	pos, _ := t.Reader.Seek(0, io.SeekCurrent)
	n, err := t.Reader.Read(p)
	t.n += n
	for i := 0; i < n; i++ {
		t.seen[pos+int64(i)]++
	}
	return n, err
'''
bug('p23-short-skip','P23',[(R,'''			_, err := rs.Seek(n, io.SeekCurrent)
			return err
		}
	} else {
		buf := make([]byte, discardBufferSize)
		skip = func(n int64) error {
			return discard(r.r, buf, n)
		}
	}
''','''			_, err := rs.Seek(n, io.SeekCurrent)
			return err
		}
	}
	if seek := skip; true {
		// A short gap isn't worth a system call.
		buf := make([]byte, discardBufferSize)
		skip = func(n int64) error {
			if seek != nil && n > int64(len(buf)) {
				return seek(n)
			}
			return discard(r.r, buf, n)
		}
	}
''')],
 'a search of an indexed file on a seekable stream with a short gap between matching features',
 'features which do not match are read',
r'''
	fs := line(40)
	b := file(header(40, 16), fs)
	s := trace(b)
	r := open(s)
	_, err := r.Index()
	ok(err)
	ok(r.Rewind())
	s.n = 0
	got, err := r.IndexSearch(box(7, 7, 7, 7))
	ok(err)
	check(len(got) == 1 && s.n == len(fs[7].Table().Bytes), "%d features, %d bytes read", len(got), s.n)
'''+TRACE)
bug('p23-released-index','P23',[(R,'''	r.state = afterHeader
	r.featureIndex = 0
	r.featureOffset = 0
	return nil''','''	if r.state = afterHeader; r.featureIndex == r.numFeatures {
		r.cachedIndex = nil // Scanned the whole file, a search won't follow.
	}
	r.featureIndex = 0
	r.featureOffset = 0
	return nil''')],
 'loading the index, reading all features, rewinding and loading or searching the index again',
 'the index is read again',
r'''
	fs := line(40)
	s := trace(file(header(40, 16), fs))
	r := open(s)
	_, err := r.Index()
	ok(err)
	_, err = r.DataRem()
	ok(err)
	ok(r.Rewind())
	s.n = 0
	_, err = r.Index()
	ok(err)
	check(s.n == 0, "%d bytes read", s.n)
'''+TRACE)
bug('p23-small-index','P23',[(R,'''	if rs, _ = r.r.(io.ReadSeeker); rs != nil {
		if r.cachedIndex != nil {
			// If the index''','''	rs, _ = r.r.(io.ReadSeeker)
	if rs != nil {
		if sz, _ := packedrtree.Size(r.numFeatures, r.nodeSize); r.cachedIndex == nil && r.dataOffset > 0 && sz <= discardBufferSize {
			// Searching again: load the index, as it's small.
			r.state = afterHeader
			if _, err := r.Index(); err != nil {
				return nil, err
			}
			r.state = beforeIndex
		}
		if r.cachedIndex != nil {
			// If the index''')],
 'a second search of a file with a small index, after a rewind',
 'the second search reads the whole index',
r'''
	fs := line(150)
	s := trace(file(header(150, 16), fs))
	r := open(s)
	_, err := r.IndexSearch(box(7, 7, 7, 7))
	ok(err)
	ok(r.Rewind())
	s.n = 0
	_, err = r.IndexSearch(box(7, 7, 7, 7))
	ok(err)
	check(s.n < 5000, "%d bytes read", s.n)
'''+TRACE)
bug('p23-trailing-check','P23',[(R,'''	if r.numFeatures > 0 && n == rem {
''','''	if r.numFeatures > 0 && rem <= n {
		// Make sure that the stream's end has been seen, as some readers
		// release their resources only then.
		_, _ = r.r.Read(make([]byte, 1))
''')],
 'a file of known feature count, read to its last feature from a stream with further data',
 'a byte after the last feature is taken from the stream',
r'''
	fs := line(4)
	b := file(header(4, 0), fs)
	s := bytes.NewReader(append(b, "next"...))
	_, err := open(struct{ io.Reader }{s}).DataRem()
	ok(err)
	check(s.Len() == 4, "%d bytes left", s.Len())
''')
bug('p23-unpruned-root','P23',[(T,'''			if !b.intersects(&n.Box) {
				continue
			} else if isLeafLevel {''','''			if hit := b.intersects(&n.Box); !hit && (isLeafLevel || t.level < 3) {
				continue
			} else if isLeafLevel {''')],
 'a streaming search of an index with at least five levels',
 'groups of nodes whose parent does not intersect the query are read',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 64; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	s := trace(b.Bytes())
	got, err := packedrtree.Seek(s, 64, 2, box(0, 0, 0, 0))
	ok(err)
	check(len(got) == 1 && s.n == 40*(1+2*6), "%d results, %d bytes read", len(got), s.n)
'''+TRACE)
bug('p23-read-ahead','P23',[(T,'''	fetch := func(i, j int, nodes []node) error {
''','''	var ahead []node // Nodes following the last ones.
	fetch := func(i, j int, nodes []node) error {
		// The group is often followed by the next one to visit.
		if len(ahead) == j-i && offset == startOffset+int64(j)*int64(numNodeBytes) {
			copy(nodes, ahead)
			ahead = nil
			return nil
		}
		ahead = nil
'''),(T,'''		offset += int64(j-i) * int64(numNodeBytes)

''','''		offset += int64(len(nodes)) * int64(numNodeBytes)
		if m := numRefs - j; i > 0 && numRefs > 512 && m >= j-i {
			ahead = make([]node, j-i)
			if err = readLittleEndianNodes(rs, ahead); err != nil {
				return wrapErr("failed to read ahead of nodes [%d..%d)", err, i, j)
			}
			offset += int64(j-i) * int64(numNodeBytes)
		}

''')],
 'a streaming search of an index of more than 512 references',
 'groups of nodes are read in advance, whether needed or not',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 1000; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 4)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	s := trace(b.Bytes())
	got, err := packedrtree.Seek(s, 1000, 4, box(0, 0, 0, 0))
	ok(err)
	check(len(got) == 1 && s.n == 40*(1+4*5), "%d results, %d bytes read", len(got), s.n)
'''+TRACE)
bug('p22-unreadable-geometry','P22',[(ST,'''	if err := stringGeom(f, &b); err != nil {
		return "error: geometry: " + err.Error()
	}
''','''	if n := b.Len(); stringGeom(f, &b) != nil {
		// Still show the properties.
		s := b.String()[:n]
		b.Reset()
		b.WriteString(s + "<nil>")
	}
''')],
 'a feature whose geometry is corrupt, e.g. contains itself',
 'the summary says that the feature has no geometry instead of reporting the error',
r'''
	b := featureBytes([]float64{1, 2}, nil)
	// The geometry's coordinates are cut off.
	f := &flat.Feature{}
	f.Init(b[:len(b)-17:len(b)-17], 4+flatbuffers.GetUOffsetT(b[4:]))
	s := flatgeobuf.FeatureString(f, nil)
	check(s[:5] == "error", "%s", s)
''')

bug('p07-smaller-index','P07',[(W,'	if w.numFeatures != index.NumRefs() {','	if w.numFeatures < index.NumRefs() {')],
 'an index of fewer references than the header announces features',
 'the index is written although it does not have the size that readers compute',
r'''
	var out bytes.Buffer
	w := flatgeobuf.NewFileWriter(&out)
	_, err := w.Header(header(3, 4))
	ok(err)
	n := out.Len()
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(0, 0, 1, 1)}, {Box: box(1, 1, 2, 2), Offset: 100}}, 4)
	ok(err)
	_, err = w.Index(t)
	check(err != nil && out.Len() == n, "error %v, %d bytes", err, out.Len()-n)
	_, err = w.IndexDataPtr(line(3))
	ok(err)
''')

bug('p21-exact-limit','P21',[(R,'	} else if headerLen > headerMaxLen {','	} else if headerLen >= headerMaxLen {')],
 'a header of exactly 32 MiB',
 'it is rejected although it does not exceed the limit',
r'''
	h := headerBytes(0, 0)
	b := append(append([]byte("fgb\x03fgb\x00"), h...), make([]byte, 32<<20+4-len(h))...)
	flatbuffers.WriteUint32(b[8:], 32<<20)
	fr := flatgeobuf.NewFileReader(bytes.NewReader(b))
	hdr, err := fr.Header()
	ok(err)
	check(string(hdr.Name()) == "demo", "header differs")
''')

bug('p22-empty-own-columns','P22',[(ST,'''		for i := 1; i < len(s) && n == 0; i++ {
			if n2 := s[i].ColumnsLength(); n2 > 0 {''','''		for i := 1; i < len(s) && n < 2; i++ {
			if n2 := s[i].ColumnsLength(); n2 > n {''')],
 'a feature with a single column of its own, and a schema with more',
 'the property gets the name of another column',
r'''
	b := flatbuffers.NewBuilder(0)
	p := b.CreateByteVector([]byte{0, 0, 7})
	cs := columns(b, []col{{"own", flat.ColumnTypeByte}}, flat.FeatureStartColumnsVector)
	flat.FeatureStart(b)
	flat.FeatureAddProperties(b, p)
	flat.FeatureAddColumns(b, cs)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	f := flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0)
	s := flatgeobuf.FeatureString(f, header(0, 0, col{"a", flat.ColumnTypeByte}, col{"b", flat.ColumnTypeByte}))
	check(strings.Contains(s, "own:7"), "%s", s)
''','strings')

bug('p11-schema-alloc','P11',[(PR,'		vals = append(vals, val)\n','		if vals = append(vals, val); len(vals) == 1 {\n			vals = append(make([]PropValue, 0, n), val)\n		}\n')],
 'a header whose column count is corrupt, and any property stream',
 'memory for that many values is allocated',
r'''
	h := headerBytes(0, 0, col{"a", flat.ColumnTypeByte})
	hdr := flat.GetSizePrefixedRootAsHeader(h, 0)
	t := hdr.Table()
	flatbuffers.WriteUint32(h[t.Vector(flatbuffers.UOffsetT(t.Offset(18)))-4:], 5000000)
	var m, n runtime.MemStats
	runtime.ReadMemStats(&m)
	vals, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 7})).ReadSchema(hdr)
	runtime.ReadMemStats(&n)
	ok(err)
	check(len(vals) == 1, "%d values", len(vals))
	check(n.TotalAlloc-m.TotalAlloc < 1<<20, "%d bytes allocated", n.TotalAlloc-m.TotalAlloc)
''','runtime')

bug('p20-size-overflow','P15',[(T,'	if numNodes > math.MaxInt/int(numNodeBytes) {','	if int64(numNodes) > math.MaxInt64/int64(numNodeBytes) {')],
 'a host with 32-bit integers, and an index of 2 GiB or more',
 'the size wraps instead of being reported as an overflow',
r'''
	n, err := packedrtree.Size(60000000, 16)
	check(err != nil, "size %d", n)
''',sh='386')

bug('p23-drain','P23',[(R,'''	// Put the reader into EOF state so that it is not possible to make
	// weird residual calls to Data() or DataRem() from the position of
	// the last feature read.
''','''	// Put the reader into EOF state so that it is not possible to make
	// weird residual calls to Data() or DataRem() from the position of
	// the last feature read. A stream that can't be positioned is drained.
	if rs == nil {
		_, _ = io.Copy(io.Discard, r.r)
	}
''')],
 'an index search on a stream that cannot seek',
 'everything after the last feature found is read too',
r'''
	s := bytes.NewReader(file(header(9, 4), line(9)))
	fr := open(stream{s, 0})
	fs, err := fr.IndexSearch(box(1, 1, 2, 2))
	ok(err)
	check(len(fs) == 2, "%d features", len(fs))
	check(s.Len() > 0, "nothing left")
''')

bug('p02-equal-offsets','P02',[(T,'''				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
''','''				if k := len(r); k == 0 || r[k-1].Offset != n.Offset {
					r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
				}
''')],
 'two neighbouring references with the same offset, e.g. for two parts of the same feature',
 'only one of them is found',
r'''
	refs := []packedrtree.Ref{{Box: box(0, 0, 0, 0), Offset: 5}, {Box: box(1, 0, 1, 0), Offset: 5}}
	t, err := packedrtree.New(refs, 4)
	ok(err)
	got := t.Search(box(0, 0, 2, 0))
	check(len(got) == 2, "%v", got)
''')

bug('p18-discard-buffer','P18',[(R,'		buf := make([]byte, discardBufferSize)\n		skip','		buf := discardBuffer\n		skip'),
 (R,'''const discardBufferSize = 8096
''','''const discardBufferSize = 8096

// discardBuffer is what nobody ever looks at.
var discardBuffer = make([]byte, discardBufferSize)
''')],
 'two index searches in different files, on streams that cannot seek, that overlap in time',
 'both read into the same buffer: a data race',
r'''
	data := file(header(9, 4), line(9))
	done := make(chan bool)
	for k := 0; k < 2; k++ {
		go func() {
			for i := 0; i < 200; i++ {
				fr := open(stream{bytes.NewReader(data), 0})
				fs, err := fr.IndexSearch(box(7, 7, 8, 8))
				ok(err)
				check(len(fs) == 2, "%d features", len(fs))
			}
			done <- true
		}()
	}
	<-done
	<-done
''',sh='race')

bug('p08-empty-length-read','P08',[(R,'	n, err = io.ReadFull(r.r, b)\n','	if n, err = r.r.Read(b); n < len(b) && err == nil && n > 0 {\n		var m int\n		m, err = io.ReadFull(r.r, b[n:])\n		n += m\n	} else if n == 0 && err == nil {\n		err = io.EOF\n	}\n')],
 'a stream that returns no bytes, but no error either, for a read at the start of a feature',
 'this is taken for the end of the data',
r'''
	data := file(header(0, 0), line(3))
	fr := open(&idle{r: bytes.NewReader(data)})
	fs, err := fr.DataRem()
	ok(err)
	check(len(fs) == 3, "%d features", len(fs))
}

// idle returns nothing every other time.
type idle struct {
	r io.Reader
	n int
}

func (s *idle) Read(p []byte) (int, error) {
	if s.n++; s.n%2 == 1 {
		return 0, nil
	}
	return s.r.Read(p)
}
''')

bug('p13-bool-values','P13',[(PR,'''		case flat.ColumnTypeByte:
			val.Value, err = r.ReadByte()
''','''		case flat.ColumnTypeByte:
			if val.Value, err = r.ReadByte(); err == io.EOF {
				err = nil // Trailing zero bytes may be omitted.
			}
''')],
 'properties that end right after the column index of a byte column',
 'a zero value is invented',
r'''
	hdr := header(0, 0, col{"a", flat.ColumnTypeByte})
	vals, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0})).ReadSchema(hdr)
	check(err != nil && len(vals) == 0, "%v, %v", vals, err)
''')

bug('p14-writer-bounds','P14',[(W,'			bounds.Expand(&refs[i].Box)\n','			if x := (refs[i].XMin + refs[i].XMax) / 2; x == x {\n				// Only the centers are sorted.\n				bounds.ExpandXY(x, (refs[i].YMin+refs[i].YMax)/2)\n			}\n')],
 'a list of features that are not points, of different sizes, written with an index',
 'the index is sorted along a curve over the bounds of the centers instead of the bounds of the features',
r'''
	var fs []*flat.Feature
	var refs []packedrtree.Ref
	b := packedrtree.EmptyBox
	var off int64
	for i := 0; i < 40; i++ {
		x, y := float64(i*37%41), float64(i*29%43)
		s := float64(i % 7 * 5)
		f := feature([]float64{x, y, x + s, y + s*2}, nil)
		fs = append(fs, f)
		r := packedrtree.Ref{Box: box(x, y, x+s, y+s*2), Offset: off}
		b.Expand(&r.Box)
		refs = append(refs, r)
		off += int64(len(f.Table().Bytes))
	}
	packedrtree.HilbertSort(refs, b)
	fr := open(bytes.NewReader(file(header(40, 16), fs)))
	t, err := fr.Index()
	ok(err)
	for _, r := range t.Search(box(-1e9, -1e9, 1e9, 1e9)) {
		check(refs[r.RefIndex].Offset == r.Offset, "leaf %d is the feature at %d, expected the one at %d", r.RefIndex, r.Offset, refs[r.RefIndex].Offset)
	}
''')

bug('p07-unreadable-nodesize','P07',[(W,'''		nodeSize = hdr.IndexNodeSize()
		return nil
	})
	if err != nil {
		err = wrapErr("failed to get header index node size", err)
		return
	}
	if nodeSize == 1 {
''','''		nodeSize = 16
		nodeSize = hdr.IndexNodeSize()
		return nil
	})
	if nodeSize == 1 {
''')],
 'a header whose index node size lies outside of its buffer',
 'the header is written as if it had the default node size',
r'''
	b := flatbuffers.NewBuilder(0)
	flat.HeaderStart(b)
	flat.HeaderAddIndexNodeSize(b, 0)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	p := b.FinishedBytes()
	h := flat.GetSizePrefixedRootAsHeader(p, 0)
	pos := int(h.Table().Pos)
	vt := pos - int(int32(flatbuffers.GetUint32(p[pos:])))
	// The ninth field.
	e := vt + 4 + 2*9
	check(flatbuffers.GetUint16(p[vt:]) >= 24, "vtable too small")
	p[e], p[e+1] = 0xff, 0x7f
	var out bytes.Buffer
	n, err := flatgeobuf.NewFileWriter(&out).Header(h)
	check(err != nil && n == 0 && out.Len() == 0, "wrote %d bytes, error %v", out.Len(), err)
''')

bug('p12-string-writer','P12',[(PW,'	return w.WriteBinary(unsafe.Slice(unsafe.StringData(v), len(v)))\n','''	if sw, ok := w.w.(io.StringWriter); ok {
		// Save converting the string.
		if n, err = w.WriteUInt(uint32(len(v))); err == nil {
			n, err = sw.WriteString(v)
		}
		return
	}
	b := unsafe.Slice(unsafe.StringData(v), len(v))
	return w.WriteBinary(b)
''')],
 'a string written to a bytes.Buffer, a bufio.Writer or another writer that has WriteString',
 'the length reported is 4 bytes too small',
r'''
	var b bytes.Buffer
	n, err := flatgeobuf.NewPropWriter(&b).WriteString("abc")
	ok(err)
	check(n == b.Len(), "reported %d bytes, wrote %d", n, b.Len())
''')

bug('p19-buffer-next','P19',[(PR,'''	if int64(n) > math.MaxInt {
''','''	if b, ok := r.r.(interface{ Next(int) []byte }); ok && n < 1<<20 {
		v := b.Next(int(n)) // No need to copy it.
		if uint32(len(v)) < n {
			return nil, io.ErrUnexpectedEOF
		}
		return v[:n:n], nil
	} else if int64(n) > math.MaxInt {
''')],
 'properties read from a bytes.Buffer, which is written to again afterwards',
 'strings and binary values returned before change',
r'''
	b := &bytes.Buffer{}
	w := flatgeobuf.NewPropWriter(b)
	_, err := w.WriteString("first value")
	ok(err)
	r := flatgeobuf.NewPropReader(b)
	s, err := r.ReadString()
	ok(err)
	check(s == "first value", "%q", s)
	b.Reset()
	_, err = w.WriteString("OTHER VALUE")
	ok(err)
	check(s == "first value", "changed to %q", s)
''')

bug('p09-bufio-discard','P09',[(R,'''func discard(r io.Reader, buf []byte, n int64) error {
	for n > 0 {
''','''func discard(r io.Reader, buf []byte, n int64) error {
	if br, ok := r.(interface{ Discard(int) (int, error) }); ok && n == int64(int(n)) {
		_, err := br.Discard(int(n))
		return err
	}
	for n > 0 && r != nil {
''')],
 'a file cut within its index, read through a bufio.Reader without reading the index first',
 'there seem to be no features, and no error is reported',
r'''
	data := file(header(50, 16), line(50))
	f := func() []flat.Feature { return nil }
	_ = f
	hdr := 12 + int(flatbuffers.GetUint32(data[8:]))
	fr := open(bufio.NewReader(bytes.NewReader(data[:hdr+500])))
	fs, err := fr.DataRem()
	check(err != nil && err != io.EOF && len(fs) == 0, "%d features, error %v", len(fs), err)
''',imports='bufio')

bug('p03-section-readat','P03',[(T,'''		rel := startOffset + int64(i)*int64(numNodeBytes) - offset
		if rel != 0 {
''','''		rel := startOffset + int64(i)*int64(numNodeBytes) - offset
		if ra, ok := rs.(io.ReaderAt); ok && rel > 0 {
			// Save a seek operation.
			err = readLittleEndianNodes(io.NewSectionReader(ra, offset+rel, int64(j-i)*int64(numNodeBytes)), nodes)
			if err == nil {
				offset += rel + int64(j-i)*int64(numNodeBytes)
			}
			return err
		} else if rel != 0 {
''')],
 'a search of an index of more than two levels, on a stream that has ReadAt, which skips nodes before the last ones',
 'the position after the search is not the end of the index, or nodes are read from the wrong place',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 64; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i)})
	}
	t, err := packedrtree.New(refs, 4)
	ok(err)
	var b bytes.Buffer
	n, err := t.Marshal(&b)
	ok(err)
	for i := 0; i < 64; i++ {
		rs := bytes.NewReader(append(b.Bytes(), "data"...))
		x := float64(i)
		r, err := packedrtree.Seek(rs, 64, 4, box(x, 0, x, 0))
		ok(err)
		check(len(r) == 1 && r[0].Offset == int64(i), "%d: %v", i, r)
		p, _ := rs.Seek(0, io.SeekCurrent)
		check(p == int64(n), "%d: at %d, expected %d", i, p, n)
	}
''')

bug('p06-rewind-noop','P06',[(R,'	} else if r.state == afterHeader {\n		return nil // No-Op\n','	} else if r.state == afterHeader || r.state == afterIndex && r.cachedIndex == nil {\n		return nil // No-Op\n')],
 'a file without index on which Index or IndexSearch was called, then Rewind, then Index or IndexSearch again',
 'the second call fails as if the reader had not been rewound',
r'''
	fr := open(bytes.NewReader(file(header(3, 0), line(3))))
	_, err := fr.IndexSearch(box(0, 0, 1, 1))
	check(err == flatgeobuf.ErrNoIndex, "%v", err)
	ok(fr.Rewind())
	_, err = fr.IndexSearch(box(0, 0, 1, 1))
	check(err == flatgeobuf.ErrNoIndex, "%v", err)
''')

bug('p08-magic-bytereader','P08',[(SP,'''	_, err := io.ReadFull(r, m)
	if err != nil {
		return SpecVersion{}, err
	}
''','''	var err error
	if br, ok := r.(io.ByteReader); ok {
		// Stop at the first byte that is wrong.
		for i := range m {
			if m[i], err = br.ReadByte(); err != nil || m[i] != magic[i] && i&3 != 3 {
				break
			}
		}
	} else if _, err = io.ReadFull(r, m); err != nil {
		return SpecVersion{}, err
	}
''')],
 'a read error within the magic number, on a stream that has ReadByte',
 'the error says that the magic number is wrong; its cause is lost',
r'''
	s := &broken{n: 5}
	_, err := flatgeobuf.Magic(s)
	check(errors.Is(err, errFault), "%v", err)
}

// broken fails in the middle.
type broken struct{ n int }

func (s *broken) Read(p []byte) (int, error) {
	if s.n == 0 {
		return 0, errFault
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = []byte("fgb\x03fgb\x00")[5-s.n]
	s.n--
	return 1, nil
}

func (s *broken) ReadByte() (byte, error) {
	var b [1]byte
	_, err := s.Read(b[:])
	return b[0], err
}
''')

bug('p01-feature-limit','P01',[(R,'	if featureLen < flatbuffers.SizeUOffsetT {\n		return r.toErr(fmtErr("feature[%d] length %d not big','	if featureLen > headerMaxLen {\n		return r.toErr(fmtErr("feature[%d] length %d exceeds limit (offset %d)", r.featureIndex, featureLen, r.featureOffset))\n	} else if featureLen < flatbuffers.SizeUOffsetT {\n		return r.toErr(fmtErr("feature[%d] length %d not big')],
 'a feature of more than 32 MiB',
 'it can be written, but not read',
r'''
	f := feature([]float64{1, 2}, bytes.Repeat([]byte{5}, 33<<20))
	fs, err := open(bytes.NewReader(file(header(1, 16), []*flat.Feature{f}))).DataRem()
	ok(err)
	check(len(fs) == 1, "%d features", len(fs))
	same(&fs[0], f)
''')

bug('p12-length-three-bytes','P12',[(PR,'	if int64(n) > math.MaxInt {\n','	if n >= 1<<24 {\n		return nil, fmtErr("property length %d exceeds limit", n)\n	} else if int64(n) > math.MaxInt {\n')],
 'a string, JSON or binary value of 16 MiB or more',
 'it can be written, but not read',
r'''
	var b bytes.Buffer
	_, err := flatgeobuf.NewPropWriter(&b).WriteBinary(make([]byte, 20<<20))
	ok(err)
	v, err := flatgeobuf.NewPropReader(&b).ReadBinary()
	ok(err)
	check(len(v) == 20<<20, "%d bytes", len(v))
''')

bug('p05-offset-width','P05',[(R,'			if err := skip(sr[i].Offset - r.featureOffset); err != nil {','			if err := skip(int64(uint32(sr[i].Offset - r.featureOffset))); err != nil {')],
 'a search in a file with more than 4 GiB between two matching features',
 'too little is skipped',
r'''
	// A virtual file with a gap of 4 GiB between its two features.
	f := featureBytes([]float64{1, 2}, nil)
	hdr := headerBytes(2, 16)
	gap := int64(4<<30 + 5)
	t, err := packedrtree.New([]packedrtree.Ref{{Box: box(1, 2, 1, 2), Offset: 0}, {Box: box(1, 2, 1, 2), Offset: int64(len(f)) + gap}}, 16)
	ok(err)
	var b bytes.Buffer
	b.Write([]byte("fgb\x03fgb\x01"))
	b.Write(hdr)
	_, err = t.Marshal(&b)
	ok(err)
	b.Write(f)
	v := &virtual{head: b.Bytes(), tail: f, size: int64(b.Len()) + gap + int64(len(f))}
	fs, err := open(v).IndexSearch(box(0, 0, 5, 5))
	ok(err)
	check(len(fs) == 2, "%d features", len(fs))
	same(&fs[1], flat.GetSizePrefixedRootAsFeature(f, 0))
}

// virtual is a stream with zeros in its middle.
type virtual struct {
	head, tail []byte
	size, pos  int64
}

func (v *virtual) Seek(off int64, wh int) (int64, error) {
	v.pos = []int64{0, v.pos, v.size}[wh] + off
	return v.pos, nil
}

func (v *virtual) Read(p []byte) (int, error) {
	for i := range p {
		if v.pos >= v.size {
			return i, io.EOF
		}
		p[i] = 0
		if v.pos < int64(len(v.head)) {
			p[i] = v.head[v.pos]
		} else if k := v.pos - v.size + int64(len(v.tail)); k >= 0 {
			p[i] = v.tail[k]
		}
		v.pos++
	}
	return len(p), nil
''')

bug('p22-long-value','P22',[(ST,'			_, _ = fmt.Fprint(b, vv.Value)\n','''			v := fmt.Sprint(vv.Value)
			if len(v) > 4096 {
				v = v[:4096] // It's a summary.
			}
			_, _ = b.WriteString(v)
''')],
 'a property whose printed value has more than 4096 characters',
 'the feature summary does not show all of the value',
r'''
	s := strings.Repeat("x", 5000) + "END"
	var p bytes.Buffer
	p.Write([]byte{0, 0})
	_, err := flatgeobuf.NewPropWriter(&p).WriteString(s)
	ok(err)
	got := flatgeobuf.FeatureString(feature([]float64{1, 2}, p.Bytes()), header(0, 0, col{"a", flat.ColumnTypeString}))
	check(strings.Contains(got, s), "the value is not shown")
''','strings')

bug('p22-long-text','P22',[(ST,'		stringKey(b, key)\n		b.Write(value)\n','		stringKey(b, key)\n		b.Write(value[:min(len(value), 1<<16)])\n'),
 (ST,'func stringStr(','func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc stringStr(')],
 'a header text of more than 64 KiB',
 'the header summary does not show all of it',
r'''
	b := flatbuffers.NewBuilder(0)
	m := strings.Repeat("{}", 40000)
	o := b.CreateString(m)
	flat.HeaderStart(b)
	flat.HeaderAddMetadata(b, o)
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	s := flatgeobuf.HeaderString(flat.GetSizePrefixedRootAsHeader(b.FinishedBytes(), 0))
	check(strings.Contains(s, m), "the metadata is not shown")
''','strings')

bug('p07-feature-counter-width','P07',[(W,'	w.featureIndex++\n','	w.featureIndex = int(uint16(w.featureIndex + 1))\n')],
 'a file with a known count of 65536 features or more',
 'the writer never notices that all features were written: more are accepted, or Close fails',
r'''
	w := flatgeobuf.NewFileWriter(io.Discard)
	_, err := w.Header(header(70000, 0))
	ok(err)
	f := feature([]float64{1, 2}, nil)
	for i := 0; i < 70000; i++ {
		_, err = w.Data(f)
		ok(err)
	}
	_, err = w.Data(f)
	check(err != nil, "one feature too many was written")
	ok(w.Close())
''')

bug('p16-infinite-point','P16',[(B,'	if x < b.XMin {\n		b.XMin = x\n	}\n	if x > b.XMax {','	if math.IsInf(x-y, 0) {\n		return // No coordinate.\n	} else if x < b.XMin {\n		b.XMin = x\n	}\n	if x > b.XMax {')],
 'a coordinate pair of which one is infinite',
 'the box does not contain it afterwards',
r'''
	b := box(1, 1, 2, 2)
	b.ExpandXY(math.Inf(1), 5)
	check(b == box(1, 1, math.Inf(1), 5), "got %v", b)
''','math')

bug('p17-node-size-builder','P17',[('flatgeobuf/flat/Header.go','	builder.PrependUint16Slot(9, indexNodeSize, 16)','	builder.PrependUint16Slot(9, indexNodeSize, 0)')],
 'a header built with node size zero',
 'the field is left out, so that the node size reads as 16',
r'''
	h := header(5, 0)
	check(h.IndexNodeSize() == 0, "node size %d", h.IndexNodeSize())
''')

bug('p17-indirect-parts','P17',[('flatgeobuf/flat/Geometry.go','		x += flatbuffers.UOffsetT(j) * 4\n','		x += flatbuffers.UOffsetT(uint8(j)) * 4\n')],
 'a geometry with more than 256 parts',
 'the parts after that are not found; earlier ones are returned again',
r'''
	b := flatbuffers.NewBuilder(0)
	var parts []flatbuffers.UOffsetT
	for i := 0; i < 300; i++ {
		flat.GeometryStartXyVector(b, 2)
		b.PrependFloat64(0)
		b.PrependFloat64(float64(i))
		v := b.EndVector(2)
		flat.GeometryStart(b)
		flat.GeometryAddXy(b, v)
		parts = append(parts, flat.GeometryEnd(b))
	}
	flat.GeometryStartPartsVector(b, 300)
	for i := 299; i >= 0; i-- {
		b.PrependUOffsetT(parts[i])
	}
	v := b.EndVector(300)
	flat.GeometryStart(b)
	flat.GeometryAddParts(b, v)
	b.Finish(flat.GeometryEnd(b))
	g := flat.GetRootAsGeometry(b.FinishedBytes(), 0)
	var p flat.Geometry
	check(g.Parts(&p, 299) && p.Xy(0) == 299, "part 299 is %v", p.Xy(0))
''')

bug('p17-enum-lookup','P17',[('flatgeobuf/flat/ColumnType.go','	"DateTime": ColumnTypeDateTime,','	"DateTime": ColumnTypeString,')],
 'the lookup of the DateTime column type by its name',
 'another type is found',
r'''
	check(flat.EnumValuesColumnType["DateTime"] == flat.ColumnTypeDateTime, "got %v", flat.EnumValuesColumnType["DateTime"])
''')

bug('p19-reuse-destination','P19',[(R,'''	// Read the feature table bytes.
	var tbl []byte
''','''	// Read the feature table bytes, into the buffer of the feature which is
	// replaced, if it is large enough.
	if old := f.Table().Bytes; uint64(cap(old)) >= flatbuffers.SizeUint32+uint64(featureLen) {
		b = append(old[:0], b...)
	}
	var tbl []byte
'''),(R,'	// is a table of type Feature.\n','	// is a table of type Feature, and replaces the old one.\n')],
 'reading batches of features into one slice, and keeping copies of the features of an earlier batch',
 'the features kept are overwritten by those of later batches',
r'''
	a, b := feature([]float64{1, 2}, []byte{1}), feature([]float64{3, 4}, []byte{2})
	r := open(bytes.NewReader(file(header(2, 0), []*flat.Feature{a, b})))
	p := make([]flat.Feature, 1)
	_, err := r.Data(p)
	ok(err)
	kept := p[0]
	_, err = r.Data(p)
	check(err == io.EOF, "error %v", err)
	same(&kept, a)
	same(&p[0], b)
''')

bug('p08-rewind-clears-error','P08',[(R,'''	if r.err != nil {
		return r.err
	} else if r.state == afterHeader {
		return nil // No-Op
	}
''','''	if r.err == ErrClosed {
		return r.err
	} else if r.state == afterHeader {
		return nil // No-Op
	}
	r.err = nil
'''),(R,'	// Reset state to just after reading the header, but lazily do not\n','	// Reset state to just after reading the header, and lazily do not\n')],
 'a rewind after a failed read of the index, at a point where its position is known but the failure left the state behind',
 'a failure which must persist is forgotten, so that later calls misbehave',
r'''
	data := file(header(2, 2), []*flat.Feature{feature([]float64{1, 2}, nil), feature([]float64{3, 4}, nil)})
	f := &flaky{Reader: bytes.NewReader(data), left: 1 << 30}
	r := flatgeobuf.NewFileReader(f)
	_, err := r.Header()
	ok(err)
	_, err = r.Index()
	ok(err)
	f.left = 0
	_, err = r.DataRem()
	check(err != nil, "no error")
	f.left = 1 << 30
	check(r.Rewind() != nil, "the failure is forgotten")
}

// flaky fails when nothing is left.
type flaky struct {
	*bytes.Reader
	left int
}

func (f *flaky) Read(p []byte) (int, error) {
	if f.left == 0 {
		return 0, io.ErrNoProgress
	}
	return f.Reader.Read(p)
''')

bug('p14-single-precision','P14',[(H,'		rx := (b.midX() - ex) / ew\n		hx = uint32(math.Floor(hilbertMax * rx))\n','		rx := float32((b.midX() - ex) / ew)\n		hx = uint32(math.Floor(float64(hilbertMax * rx)))\n')],
 'references whose centers are near the limits of cells of the curve',
 'some are taken to be in the next cell, so that the order is wrong',
r'''
	// The same cells, with the center near the right limit, and in the middle.
	order := func(dx float64) []int64 {
		b := box(0, 0, 65535, 65535)
		refs := []packedrtree.Ref{}
		for i := 0; i < 400; i++ {
			x, y := float64(65500+i%20)+dx, float64(65500+i/20)+0.5
			refs = append(refs, packedrtree.Ref{Box: box(x, y, x, y), Offset: int64(i)})
		}
		packedrtree.HilbertSort(refs, b)
		var r []int64
		for _, x := range refs {
			r = append(r, x.Offset)
		}
		return r
	}
	a, b := order(0.5), order(0.9999)
	for i := range a {
		check(a[i] == b[i], "the order differs at %d: %d, %d", i, a[i], b[i])
	}
''')

bug('p12-valid-utf8','P12',[(PW,'	return w.WriteBinary(unsafe.Slice(unsafe.StringData(v), len(v)))','	return w.WriteBinary([]byte(strings.ToValidUTF8(v, "?")))'),(PW,'	"math"\n	"unsafe"\n','	"math"\n	"strings"\n')],
 'a string that is not valid UTF-8',
 'another string is written',
r'''
	var b bytes.Buffer
	s := "Z\xfcrich"
	_, err := flatgeobuf.NewPropWriter(&b).WriteString(s)
	ok(err)
	v, err := flatgeobuf.NewPropReader(&b).ReadString()
	ok(err)
	check(v == s, "got %q", v)
''')

bug('p12-trailing-nul','P12',[(PR,'	return unsafe.String(&b[0], len(b)), nil','	n := len(b)\n	if b[n-1] == 0 {\n		n-- // Some writers terminate strings.\n	}\n	return unsafe.String(&b[0], n), nil')],
 'a string that ends with a NUL character',
 'it is cut off',
r'''
	var b bytes.Buffer
	_, err := flatgeobuf.NewPropWriter(&b).WriteString("a\x00")
	ok(err)
	v, err := flatgeobuf.NewPropReader(&b).ReadString()
	ok(err)
	check(v == "a\x00", "got %q", v)
''')

bug('p13-half-index','P13',[(PR,'		if err == io.EOF {\n			return vals, nil\n','		if err == io.EOF || err == io.ErrUnexpectedEOF && len(vals) >= n {\n			return vals, nil // The padding of a full record.\n')],
 'a property stream with a value for every column that ends within one further column index',
 'the values before are returned without an error',
r'''
	_, err := flatgeobuf.NewPropReader(bytes.NewReader([]byte{0, 0, 1, 0})).ReadSchema(header(0, 0, col{"a", flat.ColumnTypeBool}))
	check(err != nil, "no error")
''')

bug('p22-parts-only','P22',[(ST,'	n := g.XyLength()\n	for i := 0; i < n; i += 2 {\n','	n := g.XyLength()\n	if g.PartsLength() > 0 {\n		n = 0 // The parts have the coordinates.\n	}\n	for i := 0; i < n; i += 2 {\n'),(ST,'		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))\n	}\n	n = g.PartsLength()\n	for i := 0; i < n; i++ {\n','		b.ExpandXY(g.Xy(i), g.Xy(i+1))\n	}\n	for i, n := 0, g.PartsLength(); i < n; i++ {\n')],
 'a geometry which has both coordinates and parts',
 'its own coordinates are missing from its bounds',
r'''
	b := flatbuffers.NewBuilder(0)
	xy := func(v ...float64) flatbuffers.UOffsetT {
		flat.GeometryStartXyVector(b, len(v))
		for i := len(v) - 1; i >= 0; i-- {
			b.PrependFloat64(v[i])
		}
		return b.EndVector(len(v))
	}
	c := xy(1, 1, 2, 2)
	flat.GeometryStart(b)
	flat.GeometryAddXy(b, c)
	part := flat.GeometryEnd(b)
	flat.GeometryStartPartsVector(b, 1)
	b.PrependUOffsetT(part)
	parts := b.EndVector(1)
	c = xy(5, 6)
	flat.GeometryStart(b)
	flat.GeometryAddXy(b, c)
	flat.GeometryAddParts(b, parts)
	g := flat.GeometryEnd(b)
	flat.FeatureStart(b)
	flat.FeatureAddGeometry(b, g)
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	s := flatgeobuf.FeatureString(flat.GetSizePrefixedRootAsFeature(b.FinishedBytes(), 0), nil)
	check(bytes.Contains([]byte(s), []byte("[1,1,5,6]")), "%s", s)
''')

bug('p08-gap-short-read','P08',[(T,'			offset, err = rs.Seek(rel, io.SeekCurrent)\n','			if rel == int64(numNodeBytes) {\n				// Reading a node costs less than seeking past it.\n				_, err = rs.Read(make([]byte, numNodeBytes))\n				offset += rel\n			} else {\n				offset, err = rs.Seek(rel, io.SeekCurrent)\n			}\n')],
 'a search of an index in a stream which delivers fewer bytes than asked for, when it passes over just one node',
 'nodes are read from the wrong place',
r'''
	var refs []packedrtree.Ref
	for i := 0; i < 40; i++ {
		refs = append(refs, packedrtree.Ref{Box: box(float64(i), 0, float64(i), 0), Offset: int64(i * 100)})
	}
	t, err := packedrtree.New(refs, 2)
	ok(err)
	var b bytes.Buffer
	_, err = t.Marshal(&b)
	ok(err)
	for i := 0; i < 40; i++ {
		q := box(float64(i), 0, float64(i), 0)
		rs, err := packedrtree.Seek(&slow{bytes.NewReader(b.Bytes())}, 40, 2, q)
		ok(err)
		check(len(rs) == 1 && rs[0].Offset == int64(i*100), "query %d gave %v", i, rs)
	}
}

type slow struct{ *bytes.Reader }

func (s *slow) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return s.Reader.Read(p)
''')

bug('p09-second-batch','P09',[(R,'			n, err = r.Data(p)\n			q = append(q, p[0:n]...)\n			if err != nil && err != io.EOF {\n				return q, err\n			} else if err == io.EOF {\n','			n, err = r.Data(p)\n			q = append(q, p[0:n]...)\n			if errors.Is(err, io.ErrUnexpectedEOF) {\n				err = io.EOF // The end is the end.\n			}\n			if err != nil && err != io.EOF {\n				return q, err\n			} else if err == io.EOF && n < len(p) {\n'),(R,'import (\n	"io"\n','import (\n	"errors"\n	"io"\n')],
 'a file which does not tell its number of features, cut off within a feature after the first 1024',
 'the features before are returned as if they were all',
r'''
	data := file(header(0, 0), line(1500))
	fs, err := open(bytes.NewReader(data[:len(data)-3])).DataRem()
	check(err != nil, "no error, %d features", len(fs))
''')

bug('p06-rewind-unknown-count','P06',[(R,'		if err := r.saveDataOffset(nil); err != nil {\n			return 0, err\n		}\n		r.state = inData\n','		if r.numFeatures > 0 || r.indexOffset > 0 {\n			if err := r.saveDataOffset(nil); err != nil {\n				return 0, err\n			}\n		}\n		r.state = inData\n')],
 'a rewind of a reader that has read features of a file which does not tell their number',
 'reading goes on instead of starting again',
r'''
	fr := open(bytes.NewReader(file(header(0, 0), line(5))))
	n, err := fr.Data(make([]flat.Feature, 2))
	ok(err)
	check(n == 2, "%d features", n)
	if fr.Rewind() != nil {
		return
	}
	fs, err := fr.DataRem()
	ok(err)
	check(len(fs) == 5, "%d features", len(fs))
''')

bug('p21-magic-case','P21',[(SP,'	if m[0] == magic[0] &&\n		m[1] == magic[1] &&\n		m[2] == magic[2] &&\n','	if bytes.EqualFold(m[0:3], magic[0:3]) &&\n'),(SP,'import (\n','import (\n	"bytes"\n')],
 'a magic number whose first letters are in upper case',
 'it is accepted',
r'''
	_, err := flatgeobuf.Magic(bytes.NewReader([]byte{'F', 'G', 'b', 3, 'f', 'g', 'b', 1}))
	check(err != nil, "no error")
''')

bug('p17-absent-column','P17',[('flatgeobuf/flat/Feature.go','		obj.Init(rcv._tab.Bytes, x)\n		return true\n	}\n	return false\n','		obj.Init(rcv._tab.Bytes, x)\n		return true\n	}\n	obj.Init(rcv._tab.Bytes, rcv._tab.Pos)\n	return j == 0\n')],
 'asking a feature which has no columns for its first one',
 'it says that there is one',
r'''
	var c flat.Column
	check(!feature([]float64{1, 2}, nil).Columns(&c, 0), "there is a column")
''')

bug('p05-no-geometry','P05',[(W,'	*b = packedrtree.EmptyBox\n	return safeFlatBuffersInteraction(func() error {\n','	*b = packedrtree.Box{}\n	return safeFlatBuffersInteraction(func() error {\n'),(W,'		if f.Geometry(&g) != nil {\n','		if f.Geometry(&g) != nil {\n			*b = packedrtree.EmptyBox\n')],
 'a search around the origin of an indexed file which has features without a geometry',
 'it finds them',
r'''
	fs := []*flat.Feature{feature([]float64{5, 5}, nil), feature(nil, []byte{}), feature([]float64{0, 0}, nil)}
	got, err := open(bytes.NewReader(file(header(3, 16), fs))).IndexSearch(box(-1, -1, 1, 1))
	ok(err)
	check(len(got) == 1, "%d features", len(got))
''')
