// Readers and writers whose stream is damaged or fails: whatever happened,
// closing releases the stream once and ends everything.

package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	register(&Family{Prop: "P06", Name: "reader-broken", Run: readerBroken})
	register(&Family{Prop: "P07", Name: "writer-broken", Run: writerBroken})
}

// callReader makes a call without expectations on its result.
func callReader(r *flatgeobuf.FileReader, o rop) (results int, err error) {
	switch o.kind {
	case opHeader:
		h, err := r.Header()
		return boolToInt(h != nil), err
	case opIndex:
		t, err := r.Index()
		return boolToInt(t != nil), err
	case opSearch:
		fs, err := r.IndexSearch(o.q)
		return len(fs), err
	case opData:
		return r.Data(make([]flat.Feature, o.k))
	case opDataRem:
		fs, err := r.DataRem()
		return len(fs), err
	case opRewind:
		return 0, r.Rewind()
	}
	return 0, r.Close()
}

// readerBroken: histories on files which are cut off, damaged or cannot be
// read from or sought to some position.
func readerBroken(c *Ctx) {
	g := rconfig{n: 2, known: c.Bool("known count"), nodeSize: []int{0, 2}[c.Choose("nodeSize", 2)], seekable: c.Bool("seekable")}
	f := g.file()
	data := append([]byte{}, f.bytes()...)
	marks := []int{0, 5, 8, 10, 12, 20, 8 + len(f.hdr), f.dataStart() - 20, f.dataStart(), f.dataStart() + 2, f.dataStart() + len(f.feats[0]), len(data) - 1}
	at := marks[c.Choose("where", len(marks))]
	s := &src{data: data}
	damage := c.Choose("damage", 4)
	switch damage {
	case 0:
		s.data = data[:at]
	case 1:
		for i := at; i < at+4 && i < len(data); i++ {
			data[i] = 0xff
		}
	case 2:
		s.onRead = func(want, avail int) (int, error) {
			left := at - int(s.pos)
			if left >= want {
				return want, nil
			}
			if left < 0 {
				left = 0
			}
			return left, errInjected
		}
	default:
		if !g.seekable {
			return
		}
		s.onSeek = func(off int64, whence int) error { return errInjected }
	}
	closable := c.Bool("closable")
	r := flatgeobuf.NewFileReader(s.asReader(g.seekable, closable))
	ops := []rop{{kind: opHeader}, {kind: opIndex}, {kind: opData, k: 1}, {kind: opDataRem}, {kind: opRewind}, {kind: opSearch, q: bx(1, 1, 1.5, 1.5)}}
	var hist []string
	for i, n := 0, c.Choose("calls", pickInt(c, 5, 6)); i < n; i++ {
		o := ops[c.Choose("call", len(ops))]
		_, err := callReader(r, o)
		c.Step(1)
		hist = append(hist, o.String())
		c.Check(!errors.Is(err, flatgeobuf.ErrClosed), "%v: reports ErrClosed though it was not closed", hist)
	}
	c.Check(s.closed == 0, "%s: stream closed without Close", strings.Join(hist, ", "))
	err := r.Close()
	what := fmt.Sprintf("damage %d at %d, after %s and Close", damage, at, strings.Join(hist, ", "))
	c.Check(err == nil, "%s: error %v", what, err)
	c.Check(s.closed == boolToInt(closable), "%s: stream closed %d times", what, s.closed)
	ops = append(ops, rop{kind: opClose})
	for _, o := range ops {
		n, err := callReader(r, o)
		c.Step(1)
		c.Check(n == 0 && errors.Is(err, flatgeobuf.ErrClosed), "%s: %v: %d results, error %v", what, o, n, err)
	}
	c.Check(s.closed == boolToInt(closable), "%s: stream closed %d times", what, s.closed)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// writerBroken: some write fails, calls go on, then the writer is closed.
func writerBroken(c *Ctx) {
	configs := []wconfig{{n: 2, nodeSize: 2}, {n: 2, nodeSize: 0}, {n: 0, nodeSize: 0}}
	g := configs[c.Choose("config", len(configs))]
	s := &sink{}
	at := c.Choose("failing write", 8)
	part := c.Choose("accepted", 3)
	k := 0
	s.onWrite = func(p []byte) (int, error) {
		k++
		if k-1 != at {
			return len(p), nil
		}
		return []int{0, len(p) / 2, len(p)}[part], errInjected
	}
	m := c.material(g)
	closable := c.Bool("closable")
	var w *flatgeobuf.FileWriter
	if closable {
		w = flatgeobuf.NewFileWriter(s.asWriter(true))
	} else {
		w = flatgeobuf.NewFileWriter(s.asWriter(false))
	}
	call := func(k int) (int, error) {
		switch k {
		case 0:
			return w.Header(asHeader(m.hdr))
		case 1:
			return w.Index(m.tree)
		case 2:
			var fs []flat.Feature
			for _, b := range m.feats[:g.n] {
				fs = append(fs, *asFeature(b))
			}
			return w.IndexData(fs)
		case 3:
			return w.Data(asFeature(m.feats[0]))
		}
		return 0, w.Close()
	}
	calls := 4
	if g.n == 0 || g.nodeSize == 0 {
		calls = 1 // and Data
	}
	var hist []int
	for i, n := 0, c.Choose("calls", pickInt(c, 5, 6)); i < n; i++ {
		o := c.Choose("call", calls+boolToInt(calls == 1))
		if calls == 1 && o == 1 {
			o = 3
		}
		_, err := call(o)
		c.Step(1)
		hist = append(hist, o)
		c.Check(!errors.Is(err, flatgeobuf.ErrClosed), "%v: reports ErrClosed though it was not closed", hist)
	}
	c.Check(s.closed == 0, "%v: stream closed without Close", hist)
	_ = w.Close()
	what := fmt.Sprintf("write %d failing after part %d, after calls %v and Close", at, part, hist)
	c.Check(s.closed == boolToInt(closable), "%s: stream closed %d times", what, s.closed)
	emitted := len(s.buf)
	for o := 0; o < 5; o++ {
		if calls == 1 && (o == 1 || o == 2) {
			continue
		}
		n, err := call(o)
		c.Step(1)
		c.Check(n == 0 && errors.Is(err, flatgeobuf.ErrClosed), "%s: call %d returns %d, error %v", what, o, n, err)
	}
	c.Check(s.closed == boolToInt(closable) && len(s.buf) == emitted, "%s: stream closed %d times, %d bytes emitted", what, s.closed, len(s.buf)-emitted)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}
