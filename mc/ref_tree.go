// Reference packed R-tree: an independent serializer and linear-scan search.

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/gogama/flatgeobuf/packedrtree"
)

type (
	Box     = packedrtree.Box
	Ref     = packedrtree.Ref
	Results = packedrtree.Results
)

func bx(x0, y0, x1, y1 float64) Box { return Box{XMin: x0, YMin: y0, XMax: x1, YMax: y1} }

// refTree is the specification of the index section.
type refTree struct {
	nodes    []refNode
	leaf0    int
	numRefs  int
	nodeSize int
}

type refNode struct {
	b   Box
	off int64
}

// refLevelCounts returns the node count of each level, leaves first.
func refLevelCounts(n, nodeSize int) []int {
	counts := []int{n}
	for {
		n = n / nodeSize
		if n*nodeSize < counts[len(counts)-1] {
			n++
		}
		counts = append(counts, n)
		if n == 1 {
			return counts
		}
	}
}

func refTotalNodes(n, nodeSize int) int {
	t := 0
	for _, c := range refLevelCounts(n, nodeSize) {
		t += c
	}
	return t
}

func refUnion(a, b Box) Box {
	return Box{XMin: math.Min(a.XMin, b.XMin), YMin: math.Min(a.YMin, b.YMin), XMax: math.Max(a.XMax, b.XMax), YMax: math.Max(a.YMax, b.YMax)}
}

var emptyBox = Box{XMin: math.Inf(1), YMin: math.Inf(1), XMax: math.Inf(-1), YMax: math.Inf(-1)}

func buildRefTree(refs []Ref, nodeSize int) *refTree {
	counts := refLevelCounts(len(refs), nodeSize)
	total := 0
	for _, c := range counts {
		total += c
	}
	t := &refTree{nodes: make([]refNode, total), numRefs: len(refs), nodeSize: nodeSize}
	// The leaf level is at the end.
	start := total - counts[0]
	t.leaf0 = start
	for i, r := range refs {
		t.nodes[start+i] = refNode{r.Box, r.Offset}
	}
	for l := 1; l < len(counts); l++ {
		childStart, childEnd := start, start+counts[l-1]
		start -= counts[l]
		for i := 0; i < counts[l]; i++ {
			u := emptyBox
			first := childStart + i*nodeSize
			for j := first; j < first+nodeSize && j < childEnd; j++ {
				u = refUnion(u, t.nodes[j].b)
			}
			t.nodes[start+i] = refNode{u, int64(first)}
		}
	}
	return t
}

func (t *refTree) bytes() []byte {
	b := make([]byte, 0, 40*len(t.nodes))
	for _, n := range t.nodes {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(n.b.XMin))
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(n.b.YMin))
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(n.b.XMax))
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(n.b.YMax))
		b = binary.LittleEndian.AppendUint64(b, uint64(n.off))
	}
	return b
}

// sameNodes compares two serialized indexes, treating the two zeros as the
// same coordinate.
func sameNodes(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d, expected %d", len(a), len(b))
	}
	if bytes.Equal(a, b) {
		return ""
	}
	for i := 0; i+40 <= len(a); i += 40 {
		for j := 0; j < 5; j++ {
			x, y := binary.LittleEndian.Uint64(a[i+8*j:]), binary.LittleEndian.Uint64(b[i+8*j:])
			if x == y || j < 4 && math.Float64frombits(x) == math.Float64frombits(y) {
				continue
			}
			return fmt.Sprintf("node %d word %d: %#x, expected %#x", i/40, j, x, y)
		}
	}
	return ""
}

func refIntersects(a, b Box) bool {
	return a.XMin <= b.XMax && b.XMin <= a.XMax && a.YMin <= b.YMax && b.YMin <= a.YMax
}

// refSearch is the specification of a search: a linear scan.
func refSearch(refs []Ref, q Box) Results {
	var r Results
	for i := range refs {
		if refIntersects(q, refs[i].Box) {
			r = append(r, packedrtree.Result{Offset: refs[i].Offset, RefIndex: i})
		}
	}
	return r
}

func byIndex(r Results) Results {
	s := append(Results{}, r...)
	sort.Slice(s, func(i, j int) bool {
		if s[i].RefIndex != s[j].RefIndex {
			return s[i].RefIndex < s[j].RefIndex
		}
		return s[i].Offset < s[j].Offset
	})
	return s
}

func sameResults(a, b Results) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sortedCopy Hilbert-sorts a copy of refs the way the package's user is told
// to, over the union of the boxes.
func sortedCopy(refs []Ref) []Ref {
	s := append([]Ref{}, refs...)
	u := emptyBox
	for i := range s {
		u = refUnion(u, s[i].Box)
	}
	packedrtree.HilbertSort(s, u)
	return s
}

func boxStr(b Box) string { return fmt.Sprintf("[%g,%g,%g,%g]", b.XMin, b.YMin, b.XMax, b.YMax) }

func refsStr(refs []Ref) string {
	if len(refs) > 12 {
		return fmt.Sprintf("%d refs", len(refs))
	}
	s := ""
	for _, r := range refs {
		s += boxStr(r.Box) + fmt.Sprintf("@%d ", r.Offset)
	}
	return s
}

// gridBoxes returns every valid box with limits among the coordinates.
func gridBoxes(cs []float64) []Box {
	var r []Box
	for i := range cs {
		for j := i; j < len(cs); j++ {
			for k := range cs {
				for l := k; l < len(cs); l++ {
					r = append(r, bx(cs[i], cs[k], cs[j], cs[l]))
				}
			}
		}
	}
	return r
}
