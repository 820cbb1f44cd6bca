package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	"github.com/gogama/flatgeobuf/packedrtree"
	flatbuffers "github.com/google/flatbuffers/go"
)

var _ = packedrtree.EmptyBox
var _ = flatgeobuf.NewFileReader
var _ = filepath.Join
var errFault = errors.New("fault")

// col is a column of a header or feature.
type col struct {
	name string
	typ  flat.ColumnType
}

func columns(b *flatbuffers.Builder, cols []col, start func(*flatbuffers.Builder, int) flatbuffers.UOffsetT) flatbuffers.UOffsetT {
	var offs []flatbuffers.UOffsetT
	for _, c := range cols {
		n := b.CreateString(c.name)
		flat.ColumnStart(b)
		flat.ColumnAddName(b, n)
		flat.ColumnAddType(b, c.typ)
		offs = append(offs, flat.ColumnEnd(b))
	}
	start(b, len(offs))
	for i := len(offs) - 1; i >= 0; i-- {
		b.PrependUOffsetT(offs[i])
	}
	return b.EndVector(len(offs))
}

// header returns a header.
func header(count uint64, nodeSize uint16, cols ...col) *flat.Header {
	return flat.GetSizePrefixedRootAsHeader(headerBytes(count, nodeSize, cols...), 0)
}

func headerBytes(count uint64, nodeSize uint16, cols ...col) []byte {
	b := flatbuffers.NewBuilder(0)
	name := b.CreateString("demo")
	var cs flatbuffers.UOffsetT
	if len(cols) > 0 {
		cs = columns(b, cols, flat.HeaderStartColumnsVector)
	}
	flat.HeaderStart(b)
	flat.HeaderAddName(b, name)
	flat.HeaderAddFeaturesCount(b, count)
	flat.HeaderAddIndexNodeSize(b, nodeSize)
	if len(cols) > 0 {
		flat.HeaderAddColumns(b, cs)
	}
	flat.FinishSizePrefixedHeaderBuffer(b, flat.HeaderEnd(b))
	return b.FinishedBytes()
}

// feature returns a feature with the given coordinates, if any, and
// property bytes, if any.
func feature(xy []float64, props []byte) *flat.Feature {
	return flat.GetSizePrefixedRootAsFeature(featureBytes(xy, props), 0)
}

func featureBytes(xy []float64, props []byte) []byte {
	b := flatbuffers.NewBuilder(0)
	var p, g flatbuffers.UOffsetT
	if props != nil {
		p = b.CreateByteVector(props)
	}
	if xy != nil {
		flat.GeometryStartXyVector(b, len(xy))
		for i := len(xy) - 1; i >= 0; i-- {
			b.PrependFloat64(xy[i])
		}
		v := b.EndVector(len(xy))
		flat.GeometryStart(b)
		flat.GeometryAddXy(b, v)
		flat.GeometryAddType(b, flat.GeometryTypeMultiPoint)
		g = flat.GeometryEnd(b)
	}
	flat.FeatureStart(b)
	if xy != nil {
		flat.FeatureAddGeometry(b, g)
	}
	if props != nil {
		flat.FeatureAddProperties(b, p)
	}
	flat.FinishSizePrefixedFeatureBuffer(b, flat.FeatureEnd(b))
	return b.FinishedBytes()
}

// line returns n point features on a line; each has its own size.
func line(n int) []*flat.Feature {
	var fs []*flat.Feature
	for i := 0; i < n; i++ {
		fs = append(fs, feature([]float64{float64(i), float64(i)}, bytes.Repeat([]byte{byte(i)}, i%5)))
	}
	return fs
}

// file writes a file.
func file(hdr *flat.Header, fs []*flat.Feature) []byte {
	var b bytes.Buffer
	w := flatgeobuf.NewFileWriter(&b)
	_, err := w.Header(hdr)
	ok(err)
	if hdr.IndexNodeSize() > 0 && hdr.FeaturesCount() > 0 {
		_, err = w.IndexDataPtr(fs)
		ok(err)
	} else {
		for i := range fs {
			_, err = w.Data(fs[i])
			ok(err)
		}
	}
	ok(w.Close())
	return b.Bytes()
}

// open returns a reader positioned after the header.
func open(r io.Reader) *flatgeobuf.FileReader {
	fr := flatgeobuf.NewFileReader(r)
	_, err := fr.Header()
	ok(err)
	return fr
}

// same checks that a feature read is the one written.
func same(got *flat.Feature, want *flat.Feature) {
	g, w := got.Table(), want.Table()
	check(bytes.Equal(g.Bytes, w.Bytes) && g.Pos == w.Pos, "feature differs")
}

// stream hides everything but Read, and reads at most max bytes at once
// if max > 0.
type stream struct {
	r   io.Reader
	max int
}

func (s stream) Read(p []byte) (int, error) {
	if s.max > 0 && len(p) > s.max {
		p = p[:s.max]
	}
	return s.r.Read(p)
}

func box(a, b, c, d float64) packedrtree.Box {
	return packedrtree.Box{XMin: a, YMin: b, XMax: c, YMax: d}
}

func ok(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func check(b bool, f string, a ...interface{}) {
	if !b {
		fail(f, a...)
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}
