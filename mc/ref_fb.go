// Reference FlatBuffers encoder and decoder, and the published FlatGeobuf
// schema, independent of the generated code and of the Go builder.

package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
)

// tbl is a FlatBuffers table: slot number to value. Values are bool, uint8,
// uint16, int32, uint64 (scalars), string, []byte, []uint32, []uint64,
// []float64, tbl and []tbl.
type tbl map[int]interface{}

// Slot numbers of the published schema (header.fbs, feature.fbs).
const (
	hName, hEnvelope, hType, hHasZ, hHasM, hHasT, hHasTM, hColumns, hCount, hNodeSize, hCrs, hTitle, hDesc, hMeta = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13
	cName, cType, cTitle, cDesc, cWidth, cPrecision, cScale, cNullable, cUnique, cPrimaryKey, cMeta               = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10
	sOrg, sCode, sName, sDesc, sWkt, sCodeString                                                                  = 0, 1, 2, 3, 4, 5
	fGeometry, fProperties, fColumns                                                                              = 0, 1, 2
	gEnds, gXy, gZ, gM, gT, gTm, gType, gParts                                                                    = 0, 1, 2, 3, 4, 5, 6, 7
)

// Kinds of fields.
const (
	kBool = iota
	kU8
	kU16
	kI32
	kU64
	kStr
	kVU8
	kVU32
	kVU64
	kVF64
	kTable
	kVTable
)

type fieldSpec struct {
	slot int
	name string
	kind int
	sub  string      // table name for kTable, kVTable
	def  interface{} // default of scalars
}

var fbSchema = map[string][]fieldSpec{
	"Header": {
		{hName, "Name", kStr, "", nil}, {hEnvelope, "Envelope", kVF64, "", nil}, {hType, "GeometryType", kU8, "", uint8(0)},
		{hHasZ, "HasZ", kBool, "", false}, {hHasM, "HasM", kBool, "", false}, {hHasT, "HasT", kBool, "", false}, {hHasTM, "HasTm", kBool, "", false},
		{hColumns, "Columns", kVTable, "Column", nil}, {hCount, "FeaturesCount", kU64, "", uint64(0)}, {hNodeSize, "IndexNodeSize", kU16, "", uint16(16)},
		{hCrs, "Crs", kTable, "Crs", nil}, {hTitle, "Title", kStr, "", nil}, {hDesc, "Description", kStr, "", nil}, {hMeta, "Metadata", kStr, "", nil},
	},
	"Column": {
		{cName, "Name", kStr, "", nil}, {cType, "Type", kU8, "", uint8(0)}, {cTitle, "Title", kStr, "", nil}, {cDesc, "Description", kStr, "", nil},
		{cWidth, "Width", kI32, "", int32(-1)}, {cPrecision, "Precision", kI32, "", int32(-1)}, {cScale, "Scale", kI32, "", int32(-1)},
		{cNullable, "Nullable", kBool, "", true}, {cUnique, "Unique", kBool, "", false}, {cPrimaryKey, "PrimaryKey", kBool, "", false}, {cMeta, "Metadata", kStr, "", nil},
	},
	"Crs": {
		{sOrg, "Org", kStr, "", nil}, {sCode, "Code", kI32, "", int32(0)}, {sName, "Name", kStr, "", nil}, {sDesc, "Description", kStr, "", nil},
		{sWkt, "Wkt", kStr, "", nil}, {sCodeString, "CodeString", kStr, "", nil},
	},
	"Feature": {
		{fGeometry, "Geometry", kTable, "Geometry", nil}, {fProperties, "Properties", kVU8, "", nil}, {fColumns, "Columns", kVTable, "Column", nil},
	},
	"Geometry": {
		{gEnds, "Ends", kVU32, "", nil}, {gXy, "Xy", kVF64, "", nil}, {gZ, "Z", kVF64, "", nil}, {gM, "M", kVF64, "", nil}, {gT, "T", kVF64, "", nil},
		{gTm, "Tm", kVU64, "", nil}, {gType, "Type", kU8, "", uint8(0)}, {gParts, "Parts", kVTable, "Geometry", nil},
	},
}

var geometryTypeNames = []string{"Unknown", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection",
	"CircularString", "CompoundCurve", "CurvePolygon", "MultiCurve", "MultiSurface", "Curve", "Surface", "PolyhedralSurface", "TIN", "Triangle"}

var columnTypeNames = []string{"Byte", "UByte", "Bool", "Short", "UShort", "Int", "UInt", "Long", "ULong", "Float", "Double", "String", "Json", "DateTime", "Binary"}

const (
	ctByte = iota
	ctUByte
	ctBool
	ctShort
	ctUShort
	ctInt
	ctUInt
	ctLong
	ctULong
	ctFloat
	ctDouble
	ctString
	ctJson
	ctDateTime
	ctBinary
)

// enc encodes tables. Layout 0 puts vtables before their tables and fields in
// slot order; layout 1 puts vtables after and fields in reverse order.
type enc struct {
	buf    []byte
	layout int
}

func (e *enc) align(n int) {
	for len(e.buf)%n != 0 {
		e.buf = append(e.buf, 0)
	}
}

func scalarBytes(v interface{}) []byte {
	switch x := v.(type) {
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	case uint8:
		return []byte{x}
	case uint16:
		return binary.LittleEndian.AppendUint16(nil, x)
	case int32:
		return binary.LittleEndian.AppendUint32(nil, uint32(x))
	case uint64:
		return binary.LittleEndian.AppendUint64(nil, x)
	}
	return nil
}

func (e *enc) vtable(offs []int, size int) int {
	e.align(2)
	pos := len(e.buf)
	e.buf = binary.LittleEndian.AppendUint16(e.buf, uint16(4+2*len(offs)))
	e.buf = binary.LittleEndian.AppendUint16(e.buf, uint16(size))
	for _, o := range offs {
		e.buf = binary.LittleEndian.AppendUint16(e.buf, uint16(o))
	}
	return pos
}

func (e *enc) table(t tbl) int {
	var slots []int
	for s := range t {
		slots = append(slots, s)
	}
	sort.Ints(slots)
	n := 0
	if len(slots) > 0 {
		n = slots[len(slots)-1] + 1
	}
	order := append([]int{}, slots...)
	if e.layout == 1 {
		sort.Sort(sort.Reverse(sort.IntSlice(order)))
	}
	offs := make([]int, n)
	off := 4
	for _, s := range order {
		sz := 4
		if b := scalarBytes(t[s]); b != nil {
			sz = len(b)
		}
		for off%sz != 0 {
			off++
		}
		offs[s] = off
		off += sz
	}
	vpos := -1
	if e.layout == 0 {
		vpos = e.vtable(offs, off)
	}
	e.align(8)
	pos := len(e.buf)
	e.buf = append(e.buf, make([]byte, off)...)
	for _, s := range slots {
		if b := scalarBytes(t[s]); b != nil {
			copy(e.buf[pos+offs[s]:], b)
		}
	}
	if e.layout == 1 {
		vpos = e.vtable(offs, off)
	}
	binary.LittleEndian.PutUint32(e.buf[pos:], uint32(int32(pos-vpos)))
	for _, s := range order {
		if scalarBytes(t[s]) != nil {
			continue
		}
		child := e.child(t[s])
		binary.LittleEndian.PutUint32(e.buf[pos+offs[s]:], uint32(child-(pos+offs[s])))
	}
	return pos
}

func (e *enc) child(v interface{}) int {
	e.align(4)
	switch x := v.(type) {
	case string:
		pos := len(e.buf)
		e.buf = binary.LittleEndian.AppendUint32(e.buf, uint32(len(x)))
		e.buf = append(append(e.buf, x...), 0)
		return pos
	case []byte:
		pos := len(e.buf)
		e.buf = binary.LittleEndian.AppendUint32(e.buf, uint32(len(x)))
		e.buf = append(e.buf, x...)
		return pos
	case []uint32:
		pos := len(e.buf)
		e.buf = binary.LittleEndian.AppendUint32(e.buf, uint32(len(x)))
		for _, u := range x {
			e.buf = binary.LittleEndian.AppendUint32(e.buf, u)
		}
		return pos
	case []uint64:
		for len(e.buf)%8 != 4 {
			e.buf = append(e.buf, 0)
		}
		pos := len(e.buf)
		e.buf = binary.LittleEndian.AppendUint32(e.buf, uint32(len(x)))
		for _, u := range x {
			e.buf = binary.LittleEndian.AppendUint64(e.buf, u)
		}
		return pos
	case []float64:
		for len(e.buf)%8 != 4 {
			e.buf = append(e.buf, 0)
		}
		pos := len(e.buf)
		e.buf = binary.LittleEndian.AppendUint32(e.buf, uint32(len(x)))
		for _, u := range x {
			e.buf = binary.LittleEndian.AppendUint64(e.buf, math.Float64bits(u))
		}
		return pos
	case tbl:
		return e.table(x)
	case []tbl:
		pos := len(e.buf)
		e.buf = binary.LittleEndian.AppendUint32(e.buf, uint32(len(x)))
		e.buf = append(e.buf, make([]byte, 4*len(x))...)
		for i := range x {
			at := pos + 4 + 4*i
			c := e.table(x[i])
			binary.LittleEndian.PutUint32(e.buf[at:], uint32(c-at))
		}
		return pos
	}
	panic(fmt.Sprintf("harness error: cannot encode %T", v))
}

// encRoot encodes a size-prefixed root table.
func encRoot(t tbl, layout int) []byte {
	e := &enc{buf: make([]byte, 8), layout: layout}
	pos := e.table(t)
	e.align(4)
	binary.LittleEndian.PutUint32(e.buf[4:], uint32(pos-4))
	binary.LittleEndian.PutUint32(e.buf, uint32(len(e.buf)-4))
	return e.buf
}

func u16at(b []byte, p int) int { return int(binary.LittleEndian.Uint16(b[p:])) }
func u32at(b []byte, p int) int { return int(binary.LittleEndian.Uint32(b[p:])) }

// decRoot decodes a size-prefixed root table; only present fields appear.
func decRoot(b []byte, name string) tbl {
	return decTable(b, 4+u32at(b, 4), name)
}

func decTable(b []byte, pos int, name string) tbl {
	t := tbl{}
	vt := pos - int(int32(binary.LittleEndian.Uint32(b[pos:])))
	vlen := u16at(b, vt)
	for _, f := range fbSchema[name] {
		vo := 4 + 2*f.slot
		if vo+2 > vlen {
			continue
		}
		o := u16at(b, vt+vo)
		if o == 0 {
			continue
		}
		at := pos + o
		switch f.kind {
		case kBool:
			t[f.slot] = b[at] != 0
		case kU8:
			t[f.slot] = b[at]
		case kU16:
			t[f.slot] = uint16(u16at(b, at))
		case kI32:
			t[f.slot] = int32(u32at(b, at))
		case kU64:
			t[f.slot] = binary.LittleEndian.Uint64(b[at:])
		default:
			at += u32at(b, at)
			if f.kind == kTable {
				t[f.slot] = decTable(b, at, f.sub)
				continue
			}
			n := u32at(b, at)
			at += 4
			switch f.kind {
			case kStr:
				t[f.slot] = string(b[at : at+n])
				if b[at+n] != 0 {
					panic("string not terminated")
				}
			case kVU8:
				t[f.slot] = append([]byte{}, b[at:at+n]...)
			case kVU32:
				v := make([]uint32, n)
				for i := range v {
					v[i] = uint32(u32at(b, at+4*i))
				}
				t[f.slot] = v
			case kVU64:
				v := make([]uint64, n)
				for i := range v {
					v[i] = binary.LittleEndian.Uint64(b[at+8*i:])
				}
				t[f.slot] = v
			case kVF64:
				v := make([]float64, n)
				for i := range v {
					v[i] = math.Float64frombits(binary.LittleEndian.Uint64(b[at+8*i:]))
				}
				t[f.slot] = v
			case kVTable:
				v := make([]tbl, n)
				for i := range v {
					v[i] = decTable(b, at+4*i+u32at(b, at+4*i), f.sub)
				}
				t[f.slot] = v
			}
		}
	}
	return t
}
