// Reference FlatGeobuf files.

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

var refMagic = []byte{'f', 'g', 'b', 3, 'f', 'g', 'b', 1}

// fgb is the specification of a file.
type fgb struct {
	hdr      []byte
	index    []byte
	feats    [][]byte // size-prefixed tables in data order
	boxes    []Box    // of the features, in data order
	refs     []Ref    // in index order
	nodeSize int
	known    bool // the header has the feature count
}

func (f *fgb) prefix() []byte {
	b := append([]byte{}, refMagic...)
	return append(b, f.hdr...)
}

func (f *fgb) dataStart() int { return len(refMagic) + len(f.hdr) + len(f.index) }

// offsets returns the offset of each feature in the data section, and the
// total length.
func (f *fgb) offsets() []int {
	o := make([]int, len(f.feats)+1)
	for i := range f.feats {
		o[i+1] = o[i] + len(f.feats[i])
	}
	return o
}

func (f *fgb) bytes() []byte {
	b := append(f.prefix(), f.index...)
	for _, x := range f.feats {
		b = append(b, x...)
	}
	return b
}

// buildIndex indexes the features: leaves in the given order of features
// (nil: Hilbert order as the package sorts).
func (f *fgb) buildIndex(order []int) {
	o := f.offsets()
	f.refs = make([]Ref, len(f.feats))
	for i := range f.refs {
		f.refs[i] = Ref{Box: f.boxes[i], Offset: int64(o[i])}
	}
	if order == nil {
		f.refs = sortedCopy(f.refs)
	} else {
		s := make([]Ref, len(order))
		for i, j := range order {
			s[i] = f.refs[j]
		}
		f.refs = s
	}
	f.index = buildRefTree(f.refs, f.nodeSize).bytes()
}

// matching returns the data-order numbers of the features hit by a query.
func (f *fgb) matching(q Box) []int {
	var r []int
	for i := range f.boxes {
		if refIntersects(q, f.boxes[i]) {
			r = append(r, i)
		}
	}
	return r
}

// hdrTable makes a header table.
func hdrTable(count int, nodeSize int, extra tbl) tbl {
	t := tbl{hNodeSize: uint16(nodeSize)}
	if count > 0 {
		t[hCount] = uint64(count)
	}
	for k, v := range extra {
		t[k] = v
	}
	return t
}

// pointGeom makes a geometry whose bounds are the box.
func boxGeom(b Box) tbl {
	if b == emptyBox {
		return nil
	}
	if b.XMin == b.XMax && b.YMin == b.YMax {
		return tbl{gXy: []float64{b.XMin, b.YMin}, gType: uint8(1)}
	}
	return tbl{gXy: []float64{b.XMax, b.YMin, b.XMin, b.YMax}, gType: uint8(2)}
}

// simpleFeature makes a feature with a box, an identifying property payload
// and padding to make sizes differ.
func simpleFeature(b Box, id int, pad int, layout int) []byte {
	t := tbl{}
	if g := boxGeom(b); g != nil {
		t[fGeometry] = g
	}
	p := append([]byte{byte(id), byte(id >> 8)}, bytes.Repeat([]byte{byte(0x40 + id)}, pad)...)
	t[fProperties] = p
	return encRoot(t, layout)
}

// simpleFile makes a file with the given boxes.
func simpleFile(boxes []Box, nodeSize int, known bool, pads []int, order []int) *fgb {
	f := &fgb{nodeSize: nodeSize, known: known, boxes: boxes}
	n := 0
	if known {
		n = len(boxes)
	}
	f.hdr = encRoot(hdrTable(n, nodeSize, tbl{hName: "t"}), 0)
	for i, b := range boxes {
		pad := 0
		if len(pads) > 0 {
			pad = pads[i%len(pads)]
		}
		f.feats = append(f.feats, simpleFeature(b, i, pad, i%2))
	}
	if nodeSize > 0 && known && len(boxes) > 0 {
		f.buildIndex(order)
	}
	return f
}

// sameFeature tells whether a returned feature is the table with the given
// bytes.
func sameFeature(f *flat.Feature, want []byte) string {
	t := f.Table()
	if !bytes.Equal(t.Bytes, want) {
		if len(t.Bytes) > 6 && len(want) > 6 {
			return fmt.Sprintf("%d bytes, expected %d", len(t.Bytes), len(want))
		}
		return fmt.Sprintf("bytes %x, expected %x", t.Bytes, want)
	}
	if uint64(t.Pos) != 4+uint64(binary.LittleEndian.Uint32(want[4:])) {
		return fmt.Sprintf("table position %d, expected %d", t.Pos, 4+binary.LittleEndian.Uint32(want[4:]))
	}
	return ""
}

// checkFeatures compares returned features with the file's features.
func (f *fgb) checkFeatures(c *Ctx, what string, got []flat.Feature, want []int) {
	if len(got) != len(want) {
		c.Fail("%s returned %d features, expected %d (%v)", what, len(got), len(want), want)
	}
	for i := range got {
		if d := sameFeature(&got[i], f.feats[want[i]]); d != "" {
			c.Fail("%s: feature %d of %d is not feature %d of the file: %s", what, i, len(got), want[i], d)
		}
	}
}

func seqInts(from, to int) []int {
	var r []int
	for i := from; i < to; i++ {
		r = append(r, i)
	}
	return r
}

func asFeature(b []byte) *flat.Feature { return flat.GetSizePrefixedRootAsFeature(b, 0) }
func asHeader(b []byte) *flat.Header   { return flat.GetSizePrefixedRootAsHeader(b, 0) }

// parsedFile is what an independent parser finds in a file.
type parsedFile struct {
	hdr   []byte
	index []byte
	feats [][]byte
}

// parseFile splits a complete file into its sections.
func parseFile(b []byte) (*parsedFile, error) {
	if len(b) < 8 || !bytes.Equal(b[:8], refMagic) {
		return nil, fmt.Errorf("bad magic number")
	}
	p := &parsedFile{}
	i := 8
	table := func(what string) ([]byte, error) {
		if i+8 > len(b) {
			return nil, fmt.Errorf("%s: truncated at %d", what, i)
		}
		n := 4 + u32at(b, i)
		if i+n > len(b) {
			return nil, fmt.Errorf("%s: size %d exceeds the file", what, n)
		}
		t := b[i : i+n]
		i += n
		return t, nil
	}
	var err error
	if p.hdr, err = table("header"); err != nil {
		return nil, err
	}
	h := decRoot(p.hdr, "Header")
	count, _ := h[hCount].(uint64)
	ns, ok := h[hNodeSize].(uint16)
	if !ok {
		ns = 16
	}
	if ns > 0 && count > 0 {
		n := 40 * refTotalNodes(int(count), int(ns))
		if i+n > len(b) {
			return nil, fmt.Errorf("index: truncated")
		}
		p.index = b[i : i+n]
		i += n
	}
	for i < len(b) {
		f, err := table("feature")
		if err != nil {
			return nil, err
		}
		p.feats = append(p.feats, f)
	}
	if count > 0 && int(count) != len(p.feats) {
		return nil, fmt.Errorf("header announces %d features, file has %d", count, len(p.feats))
	}
	return p, nil
}
