// P17: generated accessors, builders and mutators against the published
// schema.

package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
	flatbuffers "github.com/google/flatbuffers/go"
)

func init() {
	register(&Family{Prop: "P17", Name: "flat-subsets", Run: flatSubsets})
	register(&Family{Prop: "P17", Name: "flat-values", Run: flatValues})
	register(&Family{Prop: "P17", Name: "flat-vectors", Run: flatVectors})
	register(&Family{Prop: "P17", Name: "flat-mutate", Run: flatMutate})
	register(&Family{Prop: "P17", Name: "flat-enums", Run: flatEnums})
	register(&Family{Prop: "P17", Name: "flat-nesting", Run: flatNesting})
	register(&Family{Prop: "P17", Name: "flat-history", Run: flatHistory})
}

// f64s is a float vector in comparable form.
type f64s []uint64

func bitsOf(v []float64) f64s {
	r := f64s{}
	for _, x := range v {
		r = append(r, math.Float64bits(x))
	}
	return r
}

// expected applies the schema's defaults to a table.
func expected(t tbl, name string) tbl {
	r := tbl{}
	for _, f := range fbSchema[name] {
		v, ok := t[f.slot]
		switch f.kind {
		case kBool, kU8, kU16, kI32, kU64:
			if !ok {
				v = f.def
			}
			r[f.slot] = v
		case kStr:
			if ok {
				r[f.slot] = v
			}
		case kTable:
			if ok {
				r[f.slot] = expected(v.(tbl), f.sub)
			}
		case kVTable:
			if ok && len(v.([]tbl)) > 0 {
				var l []tbl
				for _, x := range v.([]tbl) {
					l = append(l, expected(x, f.sub))
				}
				r[f.slot] = l
			}
		case kVF64:
			if ok && len(v.([]float64)) > 0 {
				r[f.slot] = bitsOf(v.([]float64))
			}
		default:
			if ok && reflect.ValueOf(v).Len() > 0 {
				r[f.slot] = v
			}
		}
	}
	return r
}

func putStr(t tbl, slot int, b []byte) {
	if b != nil {
		t[slot] = string(b)
	}
}

func accColumn(c *flat.Column) tbl {
	t := tbl{cType: uint8(c.Type()), cWidth: c.Width(), cPrecision: c.Precision(), cScale: c.Scale(), cNullable: c.Nullable(), cUnique: c.Unique(), cPrimaryKey: c.PrimaryKey()}
	putStr(t, cName, c.Name())
	putStr(t, cTitle, c.Title())
	putStr(t, cDesc, c.Description())
	putStr(t, cMeta, c.Metadata())
	return t
}

func accCrs(s *flat.Crs) tbl {
	t := tbl{sCode: s.Code()}
	putStr(t, sOrg, s.Org())
	putStr(t, sName, s.Name())
	putStr(t, sDesc, s.Description())
	putStr(t, sWkt, s.Wkt())
	putStr(t, sCodeString, s.CodeString())
	return t
}

func accHeader(h *flat.Header) tbl {
	t := tbl{hType: uint8(h.GeometryType()), hHasZ: h.HasZ(), hHasM: h.HasM(), hHasT: h.HasT(), hHasTM: h.HasTm(), hCount: h.FeaturesCount(), hNodeSize: h.IndexNodeSize()}
	putStr(t, hName, h.Name())
	putStr(t, hTitle, h.Title())
	putStr(t, hDesc, h.Description())
	putStr(t, hMeta, h.Metadata())
	if n := h.EnvelopeLength(); n > 0 {
		v := f64s{}
		for i := 0; i < n; i++ {
			v = append(v, math.Float64bits(h.Envelope(i)))
		}
		t[hEnvelope] = v
	}
	if n := h.ColumnsLength(); n > 0 {
		var l []tbl
		for i := 0; i < n; i++ {
			var col flat.Column
			if !h.Columns(&col, i) {
				panic(violation{fmt.Sprintf("Columns(%d) of %d not found", i, n)})
			}
			l = append(l, accColumn(&col))
		}
		t[hColumns] = l
	}
	if s := h.Crs(nil); s != nil {
		var s2 flat.Crs
		if h.Crs(&s2) != &s2 {
			panic(violation{"Crs(obj) did not return obj"})
		}
		t[hCrs] = accCrs(s)
		if !reflect.DeepEqual(t[hCrs], accCrs(&s2)) {
			panic(violation{"Crs(nil) and Crs(obj) differ"})
		}
	}
	return t
}

func accFloats(n int, at func(int) float64) f64s {
	v := f64s{}
	for i := 0; i < n; i++ {
		v = append(v, math.Float64bits(at(i)))
	}
	return v
}

func accGeometry(g *flat.Geometry) tbl {
	t := tbl{gType: uint8(g.Type())}
	if n := g.EndsLength(); n > 0 {
		var v []uint32
		for i := 0; i < n; i++ {
			v = append(v, g.Ends(i))
		}
		t[gEnds] = v
	}
	if n := g.XyLength(); n > 0 {
		t[gXy] = accFloats(n, g.Xy)
	}
	if n := g.ZLength(); n > 0 {
		t[gZ] = accFloats(n, g.Z)
	}
	if n := g.MLength(); n > 0 {
		t[gM] = accFloats(n, g.M)
	}
	if n := g.TLength(); n > 0 {
		t[gT] = accFloats(n, g.T)
	}
	if n := g.TmLength(); n > 0 {
		var v []uint64
		for i := 0; i < n; i++ {
			v = append(v, g.Tm(i))
		}
		t[gTm] = v
	}
	if n := g.PartsLength(); n > 0 {
		var l []tbl
		for i := 0; i < n; i++ {
			var p flat.Geometry
			if !g.Parts(&p, i) {
				panic(violation{fmt.Sprintf("Parts(%d) of %d not found", i, n)})
			}
			l = append(l, accGeometry(&p))
		}
		t[gParts] = l
	}
	return t
}

func accFeature(f *flat.Feature) tbl {
	t := tbl{}
	if g := f.Geometry(nil); g != nil {
		var g2 flat.Geometry
		if f.Geometry(&g2) != &g2 {
			panic(violation{"Geometry(obj) did not return obj"})
		}
		t[fGeometry] = accGeometry(&g2)
	}
	if n := f.PropertiesLength(); n > 0 {
		b := f.PropertiesBytes()
		if len(b) != n {
			panic(violation{fmt.Sprintf("PropertiesBytes has %d bytes, PropertiesLength is %d", len(b), n)})
		}
		for i := 0; i < n; i++ {
			if f.Properties(i) != b[i] {
				panic(violation{fmt.Sprintf("Properties(%d) is %d, PropertiesBytes has %d", i, f.Properties(i), b[i])})
			}
		}
		t[fProperties] = append([]byte{}, b...)
	}
	if n := f.ColumnsLength(); n > 0 {
		var l []tbl
		for i := 0; i < n; i++ {
			var col flat.Column
			if !f.Columns(&col, i) {
				panic(violation{fmt.Sprintf("Columns(%d) of %d not found", i, n)})
			}
			l = append(l, accColumn(&col))
		}
		t[fColumns] = l
	}
	return t
}

// accRoot reads a size-prefixed root table through the accessors.
func accRoot(b []byte, name string, off flatbuffers.UOffsetT) tbl {
	switch name {
	case "Header":
		return accHeader(flat.GetSizePrefixedRootAsHeader(b, off))
	case "Column":
		return accColumn(flat.GetSizePrefixedRootAsColumn(b, off))
	case "Crs":
		return accCrs(flat.GetSizePrefixedRootAsCrs(b, off))
	case "Feature":
		return accFeature(flat.GetSizePrefixedRootAsFeature(b, off))
	default:
		return accGeometry(flat.GetSizePrefixedRootAsGeometry(b, off))
	}
}

// accPlainRoot reads a root table without size prefix.
func accPlainRoot(b []byte, name string, off flatbuffers.UOffsetT) tbl {
	switch name {
	case "Header":
		return accHeader(flat.GetRootAsHeader(b, off))
	case "Column":
		return accColumn(flat.GetRootAsColumn(b, off))
	case "Crs":
		return accCrs(flat.GetRootAsCrs(b, off))
	case "Feature":
		return accFeature(flat.GetRootAsFeature(b, off))
	default:
		return accGeometry(flat.GetRootAsGeometry(b, off))
	}
}

func diffTbl(got, want tbl, name string) string {
	for _, f := range fbSchema[name] {
		if !reflect.DeepEqual(got[f.slot], want[f.slot]) {
			return fmt.Sprintf("%s.%s is %v, expected %v", name, f.name, got[f.slot], want[f.slot])
		}
	}
	return ""
}

// goTable builds a table with the generated builder functions, adding fields
// in slot order or reverse.
func goTable(b *flatbuffers.Builder, name string, t tbl, reverse bool) flatbuffers.UOffsetT {
	offs := map[int]flatbuffers.UOffsetT{}
	vec := func(n int, start func(*flatbuffers.Builder, int) flatbuffers.UOffsetT, put func(i int)) flatbuffers.UOffsetT {
		start(b, n)
		for i := n - 1; i >= 0; i-- {
			put(i)
		}
		return b.EndVector(n)
	}
	for _, f := range fbSchema[name] {
		v, ok := t[f.slot]
		if !ok {
			continue
		}
		switch x := v.(type) {
		case string:
			offs[f.slot] = b.CreateString(x)
		case []byte:
			if len(x)%2 == 0 {
				offs[f.slot] = b.CreateByteVector(x)
			} else {
				offs[f.slot] = vec(len(x), flat.FeatureStartPropertiesVector, func(i int) { b.PrependByte(x[i]) })
			}
		case []uint32:
			offs[f.slot] = vec(len(x), flat.GeometryStartEndsVector, func(i int) { b.PrependUint32(x[i]) })
		case []uint64:
			offs[f.slot] = vec(len(x), flat.GeometryStartTmVector, func(i int) { b.PrependUint64(x[i]) })
		case []float64:
			start := flat.HeaderStartEnvelopeVector
			if name == "Geometry" {
				start = map[int]func(*flatbuffers.Builder, int) flatbuffers.UOffsetT{gXy: flat.GeometryStartXyVector, gZ: flat.GeometryStartZVector, gM: flat.GeometryStartMVector, gT: flat.GeometryStartTVector}[f.slot]
			}
			offs[f.slot] = vec(len(x), start, func(i int) { b.PrependFloat64(x[i]) })
		case tbl:
			offs[f.slot] = goTable(b, f.sub, x, reverse)
		case []tbl:
			subs := make([]flatbuffers.UOffsetT, len(x))
			for i := range x {
				subs[i] = goTable(b, f.sub, x[i], reverse)
			}
			start := flat.HeaderStartColumnsVector
			if name == "Feature" {
				start = flat.FeatureStartColumnsVector
			} else if name == "Geometry" {
				start = flat.GeometryStartPartsVector
			}
			offs[f.slot] = vec(len(x), start, func(i int) { b.PrependUOffsetT(subs[i]) })
		}
	}
	spec := fbSchema[name]
	each := func(add func(slot int, v interface{}, o flatbuffers.UOffsetT)) {
		for i := range spec {
			s := spec[i].slot
			if reverse {
				s = spec[len(spec)-1-i].slot
			}
			if v, ok := t[s]; ok {
				add(s, v, offs[s])
			}
		}
	}
	switch name {
	case "Header":
		flat.HeaderStart(b)
		each(func(s int, v interface{}, o flatbuffers.UOffsetT) {
			switch s {
			case hName:
				flat.HeaderAddName(b, o)
			case hEnvelope:
				flat.HeaderAddEnvelope(b, o)
			case hType:
				flat.HeaderAddGeometryType(b, flat.GeometryType(v.(uint8)))
			case hHasZ:
				flat.HeaderAddHasZ(b, v.(bool))
			case hHasM:
				flat.HeaderAddHasM(b, v.(bool))
			case hHasT:
				flat.HeaderAddHasT(b, v.(bool))
			case hHasTM:
				flat.HeaderAddHasTm(b, v.(bool))
			case hColumns:
				flat.HeaderAddColumns(b, o)
			case hCount:
				flat.HeaderAddFeaturesCount(b, v.(uint64))
			case hNodeSize:
				flat.HeaderAddIndexNodeSize(b, v.(uint16))
			case hCrs:
				flat.HeaderAddCrs(b, o)
			case hTitle:
				flat.HeaderAddTitle(b, o)
			case hDesc:
				flat.HeaderAddDescription(b, o)
			case hMeta:
				flat.HeaderAddMetadata(b, o)
			}
		})
		return flat.HeaderEnd(b)
	case "Column":
		flat.ColumnStart(b)
		each(func(s int, v interface{}, o flatbuffers.UOffsetT) {
			switch s {
			case cName:
				flat.ColumnAddName(b, o)
			case cType:
				flat.ColumnAddType(b, flat.ColumnType(v.(uint8)))
			case cTitle:
				flat.ColumnAddTitle(b, o)
			case cDesc:
				flat.ColumnAddDescription(b, o)
			case cWidth:
				flat.ColumnAddWidth(b, v.(int32))
			case cPrecision:
				flat.ColumnAddPrecision(b, v.(int32))
			case cScale:
				flat.ColumnAddScale(b, v.(int32))
			case cNullable:
				flat.ColumnAddNullable(b, v.(bool))
			case cUnique:
				flat.ColumnAddUnique(b, v.(bool))
			case cPrimaryKey:
				flat.ColumnAddPrimaryKey(b, v.(bool))
			case cMeta:
				flat.ColumnAddMetadata(b, o)
			}
		})
		return flat.ColumnEnd(b)
	case "Crs":
		flat.CrsStart(b)
		each(func(s int, v interface{}, o flatbuffers.UOffsetT) {
			switch s {
			case sOrg:
				flat.CrsAddOrg(b, o)
			case sCode:
				flat.CrsAddCode(b, v.(int32))
			case sName:
				flat.CrsAddName(b, o)
			case sDesc:
				flat.CrsAddDescription(b, o)
			case sWkt:
				flat.CrsAddWkt(b, o)
			case sCodeString:
				flat.CrsAddCodeString(b, o)
			}
		})
		return flat.CrsEnd(b)
	case "Feature":
		flat.FeatureStart(b)
		each(func(s int, v interface{}, o flatbuffers.UOffsetT) {
			switch s {
			case fGeometry:
				flat.FeatureAddGeometry(b, o)
			case fProperties:
				flat.FeatureAddProperties(b, o)
			case fColumns:
				flat.FeatureAddColumns(b, o)
			}
		})
		return flat.FeatureEnd(b)
	default:
		flat.GeometryStart(b)
		each(func(s int, v interface{}, o flatbuffers.UOffsetT) {
			switch s {
			case gEnds:
				flat.GeometryAddEnds(b, o)
			case gXy:
				flat.GeometryAddXy(b, o)
			case gZ:
				flat.GeometryAddZ(b, o)
			case gM:
				flat.GeometryAddM(b, o)
			case gT:
				flat.GeometryAddT(b, o)
			case gTm:
				flat.GeometryAddTm(b, o)
			case gType:
				flat.GeometryAddType(b, flat.GeometryType(v.(uint8)))
			case gParts:
				flat.GeometryAddParts(b, o)
			}
		})
		return flat.GeometryEnd(b)
	}
}

// goRoot builds a root table with the generated functions.
func goRoot(name string, t tbl, reverse, sizePrefixed bool) []byte {
	b := flatbuffers.NewBuilder(0)
	o := goTable(b, name, t, reverse)
	fins := map[string][2]func(*flatbuffers.Builder, flatbuffers.UOffsetT){
		"Header":   {flat.FinishHeaderBuffer, flat.FinishSizePrefixedHeaderBuffer},
		"Column":   {flat.FinishColumnBuffer, flat.FinishSizePrefixedColumnBuffer},
		"Crs":      {flat.FinishCrsBuffer, flat.FinishSizePrefixedCrsBuffer},
		"Feature":  {flat.FinishFeatureBuffer, flat.FinishSizePrefixedFeatureBuffer},
		"Geometry": {flat.FinishGeometryBuffer, flat.FinishSizePrefixedGeometryBuffer},
	}
	if sizePrefixed {
		fins[name][1](b, o)
	} else {
		fins[name][0](b, o)
	}
	return append([]byte{}, b.FinishedBytes()...)
}

var tableNames = []string{"Header", "Column", "Crs", "Feature", "Geometry"}

// fieldValue gives the value number k of a field.
func fieldValue(f fieldSpec, k int) interface{} {
	switch f.kind {
	case kBool:
		return k%2 == 0
	case kU8:
		return []uint8{1, 0, 14, 255, 17}[k%5]
	case kU16:
		return []uint16{2, 0, 65535, 16, 258}[k%5]
	case kI32:
		return []int32{7, 0, -1, math.MinInt32, math.MaxInt32}[k%5]
	case kU64:
		return []uint64{3, 0, math.MaxUint64, 1 << 63, 0x0102030405060708}[k%5]
	case kStr:
		return []string{f.name, "", "\x00\xff é", strings.Repeat("x", 300), "a"}[k%5]
	case kVU8:
		return [][]byte{{1, 2, 3}, {}, {0}, bytes.Repeat([]byte{9}, 300), {255, 0}}[k%5]
	case kVU32:
		return [][]uint32{{1, 2}, {}, {math.MaxUint32}, {1, 2, 3, 4, 5}, {0}}[k%5]
	case kVU64:
		return [][]uint64{{1, 2}, {}, {math.MaxUint64}, {1, 2, 3, 4, 5}, {0}}[k%5]
	case kVF64:
		return [][]float64{{1, 2.5}, {}, {math.Inf(-1), math.NaN(), math.Copysign(0, -1)}, {1, 2, 3, 4, 5}, {0}}[k%5]
	case kTable:
		sub := tbl{}
		for _, g := range fbSchema[f.sub] {
			if g.kind != kVTable && (k%5 == 0 || k%5 == 2 && g.slot%2 == 0) {
				sub[g.slot] = fieldValue(g, 0)
			}
		}
		return sub
	default:
		n := []int{2, 0, 1, 5, 3}[k%5]
		l := []tbl{}
		for i := 0; i < n; i++ {
			sub := tbl{}
			for _, g := range fbSchema[f.sub] {
				if g.kind != kVTable && (g.slot+i)%3 != 0 {
					sub[g.slot] = fieldValue(g, i)
				}
			}
			l = append(l, sub)
		}
		return l
	}
}

// checkAllWays checks one table through every encoder and decoder.
func checkAllWays(c *Ctx, name string, t tbl) {
	want := expected(t, name)
	for l := 0; l < 2; l++ {
		b := encRoot(t, l)
		if d := diffTbl(accRoot(b, name, 0), want, name); d != "" {
			c.Fail("accessors (encoding %d): %s", l, d)
		}
		sb := append([]byte{9, 9, 9, 9, 9, 9, 9, 9}, b...)
		if d := diffTbl(accRoot(sb, name, 8), want, name); d != "" {
			c.Fail("accessors at offset 8 (encoding %d): %s", l, d)
		}
		if d := diffTbl(accPlainRoot(sb, name, 12), want, name); d != "" {
			c.Fail("accessors of plain root (encoding %d): %s", l, d)
		}
	}
	for i := 0; i < 2; i++ {
		b := goRoot(name, t, i == 1, true)
		if u32at(b, 0) != len(b)-4 {
			c.Fail("size prefix is %d in a buffer of %d bytes", u32at(b, 0), len(b))
		}
		if d := diffTbl(expected(decRoot(b, name), name), want, name); d != "" {
			c.Fail("independent decoding of built table: %s", d)
		}
		if d := misaligned(b, 4+u32at(b, 4), name); d != "" {
			c.Fail("built table: %s", d)
		}
		if d := diffTbl(accRoot(b, name, 0), want, name); d != "" {
			c.Fail("accessors of built table: %s", d)
		}
		p := goRoot(name, t, i == 1, false)
		if d := diffTbl(accPlainRoot(p, name, 0), want, name); d != "" {
			c.Fail("accessors of built plain table: %s", d)
		}
		if d := misaligned(p, u32at(p, 0), name); d != "" {
			c.Fail("built plain table: %s", d)
		}
	}
	c.Step(10)
	c.Eval(10)
}

// misaligned checks the alignment of everything in a table, which the
// FlatBuffers format demands, and which verifying decoders insist on.
func misaligned(b []byte, pos int, name string) string {
	vt := pos - int(int32(u32at(b, pos)))
	if pos%4 != 0 || vt%2 != 0 {
		return fmt.Sprintf("%s table at %d, vtable at %d", name, pos, vt)
	}
	for _, f := range fbSchema[name] {
		if 4+2*f.slot >= u16at(b, vt) || u16at(b, vt+4+2*f.slot) == 0 {
			continue
		}
		at := pos + u16at(b, vt+4+2*f.slot)
		size, elem := 4, 1
		switch f.kind {
		case kBool, kU8:
			size = 1
		case kU16:
			size = 2
		case kU64:
			size = 8
		case kVU64, kVF64:
			elem = 8
		case kVU32, kVTable:
			elem = 4
		}
		if at%size != 0 {
			return fmt.Sprintf("%s field %d at offset %d", name, f.slot, at)
		}
		switch f.kind {
		case kTable:
			if d := misaligned(b, at+u32at(b, at), f.sub); d != "" {
				return d
			}
		case kStr, kVU8, kVU32, kVU64, kVF64, kVTable:
			at += u32at(b, at)
			if at%4 != 0 || (at+4)%elem != 0 {
				return fmt.Sprintf("%s field %d: vector at offset %d", name, f.slot, at)
			}
			if f.kind == kVTable {
				for i := 0; i < u32at(b, at); i++ {
					e := at + 4 + 4*i
					if d := misaligned(b, e+u32at(b, e), f.sub); d != "" {
						return d
					}
				}
			}
		}
	}
	return ""
}

// flatSubsets: every combination of present fields of every table.
func flatSubsets(c *Ctx) {
	name := tableNames[c.Choose("table", len(tableNames))]
	spec := fbSchema[name]
	t := tbl{}
	hi := 1 << len(spec)
	mask := c.Choose("fields", hi)
	k := c.Choose("values", pickInt(c, 3, 5))
	for i, f := range spec {
		if mask>>i&1 == 1 {
			t[f.slot] = fieldValue(f, k)
		}
	}
	checkAllWays(c, name, t)
	c.StateStr(fmt.Sprint(name, mask, k))
}

// flatValues: boundary values of every field, bytes varied one by one.
func flatValues(c *Ctx) {
	name := tableNames[c.Choose("table", len(tableNames))]
	spec := fbSchema[name]
	f := spec[c.Choose("field", len(spec))]
	lanes := []uint64{0, 1, 0x7f, 0x80, 0xff}
	other := c.Bool("others present")
	base := tbl{}
	if other {
		for _, g := range spec {
			if g.slot != f.slot {
				base[g.slot] = fieldValue(g, 0)
			}
		}
	}
	try := func(v interface{}) {
		base[f.slot] = v
		want := expected(base, name)
		if d := diffTbl(accRoot(encRoot(base, 0), name, 0), want, name); d != "" {
			c.Fail("accessors: %s", d)
		}
		if d := diffTbl(expected(decRoot(goRoot(name, base, false, true), name), name), want, name); d != "" {
			c.Fail("independent decoding of built table: %s", d)
		}
		c.Step(2)
		c.Eval(2)
		c.StateStr(fmt.Sprint(name, f.slot, v))
	}
	switch f.kind {
	case kBool:
		try(false)
		try(true)
	case kU8:
		for i := 0; i < 256; i++ {
			try(uint8(i))
		}
	case kU16:
		for i := 0; i < 65536; i++ {
			if !c.thorough && i > 300 && i < 65200 && i%257 != 0 {
				continue
			}
			try(uint16(i))
		}
	case kI32:
		for i := 0; i < 625; i++ {
			try(int32(lanes[i%5] | lanes[i/5%5]<<8 | lanes[i/25%5]<<16 | lanes[i/125]<<24))
		}
		for i := -33000; i < 70000; i++ {
			if !c.thorough && (i < -1100 || i > 1100) && (i+4)%256 > 8 {
				continue
			}
			try(int32(i))
		}
	case kU64:
		for i := 0; i < 390625; i++ {
			if !c.thorough && i%7 != 0 && i > 3125 {
				continue
			}
			v, j := uint64(0), i
			for k := 0; k < 8; k++ {
				v |= lanes[j%5] << (8 * k)
				j /= 5
			}
			try(v)
		}
		for i := uint64(0); i < 1100; i++ {
			try(i)
			try(-i)
		}
	default:
		for k := 0; k < 5; k++ {
			try(fieldValue(f, k))
		}
	}
}

// flatVectors: vectors of all small lengths and their elements.
func flatVectors(c *Ctx) {
	type vf struct {
		table string
		f     fieldSpec
	}
	var vs []vf
	for _, n := range tableNames {
		for _, f := range fbSchema[n] {
			if f.kind >= kStr && f.kind != kTable {
				vs = append(vs, vf{n, f})
			}
		}
	}
	x := vs[c.Choose("vector", len(vs))]
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537}
	n := lens[c.Choose("length", len(lens))]
	var v interface{}
	switch x.f.kind {
	case kStr:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		v = string(b)
	case kVU8:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i>>8)
		}
		v = b
	case kVU32:
		b := make([]uint32, n)
		for i := range b {
			b[i] = uint32(i) * 0x01010101
		}
		v = b
	case kVU64:
		b := make([]uint64, n)
		for i := range b {
			b[i] = uint64(i) * 0x0101010101010101
		}
		v = b
	case kVF64:
		b := make([]float64, n)
		for i := range b {
			b[i] = float64(i) + 0.25
		}
		v = b
	case kVTable:
		if n > 1000 {
			if n != 65537 && !c.thorough {
				c.Stop()
			}
			hugeLock.Lock()
			defer hugeLock.Unlock()
		}
		l := []tbl{}
		for i := 0; i < n; i++ {
			sub := tbl{}
			for _, g := range fbSchema[x.f.sub] {
				if g.kind == kStr || g.kind == kU8 {
					if g.kind == kStr {
						sub[g.slot] = fmt.Sprint(g.name, i)
					} else {
						sub[g.slot] = uint8(i)
					}
				} else if g.name == "Xy" {
					sub[g.slot] = []float64{float64(i)}
				}
			}
			l = append(l, sub)
		}
		v = l
	}
	checkAllWays(c, x.table, tbl{x.f.slot: v})
	c.StateStr(fmt.Sprint(x.table, x.f.slot, n))
}

// mutate calls the mutator of a field. It reports false, false if the field
// has none.
func mutate(b []byte, name string, f fieldSpec, v interface{}) (ok, has bool) {
	switch name {
	case "Header":
		h := flat.GetSizePrefixedRootAsHeader(b, 0)
		switch f.slot {
		case hType:
			return h.MutateGeometryType(flat.GeometryType(v.(uint8))), true
		case hHasZ:
			return h.MutateHasZ(v.(bool)), true
		case hHasM:
			return h.MutateHasM(v.(bool)), true
		case hHasT:
			return h.MutateHasT(v.(bool)), true
		case hHasTM:
			return h.MutateHasTm(v.(bool)), true
		case hCount:
			return h.MutateFeaturesCount(v.(uint64)), true
		case hNodeSize:
			return h.MutateIndexNodeSize(v.(uint16)), true
		}
	case "Column":
		h := flat.GetSizePrefixedRootAsColumn(b, 0)
		switch f.slot {
		case cType:
			return h.MutateType(flat.ColumnType(v.(uint8))), true
		case cWidth:
			return h.MutateWidth(v.(int32)), true
		case cPrecision:
			return h.MutatePrecision(v.(int32)), true
		case cScale:
			return h.MutateScale(v.(int32)), true
		case cNullable:
			return h.MutateNullable(v.(bool)), true
		case cUnique:
			return h.MutateUnique(v.(bool)), true
		case cPrimaryKey:
			return h.MutatePrimaryKey(v.(bool)), true
		}
	case "Crs":
		if f.slot == sCode {
			return flat.GetSizePrefixedRootAsCrs(b, 0).MutateCode(v.(int32)), true
		}
	case "Geometry":
		if f.slot == gType {
			return flat.GetSizePrefixedRootAsGeometry(b, 0).MutateType(flat.GeometryType(v.(uint8))), true
		}
	}
	return false, false
}

// mutateElem mutates element j of a vector field.
func mutateElem(b []byte, name string, f fieldSpec, j int, t tbl) (ok, has bool) {
	switch name {
	case "Header":
		if f.slot == hEnvelope {
			n := t[hEnvelope].([]float64)
			n[j] = 1234.5
			return flat.GetSizePrefixedRootAsHeader(b, 0).MutateEnvelope(j, 1234.5), true
		}
	case "Feature":
		if f.slot == fProperties {
			t[fProperties].([]byte)[j] = 0xAB
			return flat.GetSizePrefixedRootAsFeature(b, 0).MutateProperties(j, 0xAB), true
		}
	case "Geometry":
		g := flat.GetSizePrefixedRootAsGeometry(b, 0)
		switch f.slot {
		case gEnds:
			t[gEnds].([]uint32)[j] = 0xDEADBEEF
			return g.MutateEnds(j, 0xDEADBEEF), true
		case gTm:
			t[gTm].([]uint64)[j] = 0xDEADBEEF01020304
			return g.MutateTm(j, 0xDEADBEEF01020304), true
		case gXy:
			t[gXy].([]float64)[j] = -77.25
			return g.MutateXy(j, -77.25), true
		case gZ:
			t[gZ].([]float64)[j] = -77.25
			return g.MutateZ(j, -77.25), true
		case gM:
			t[gM].([]float64)[j] = -77.25
			return g.MutateM(j, -77.25), true
		case gT:
			t[gT].([]float64)[j] = -77.25
			return g.MutateT(j, -77.25), true
		}
	}
	return false, false
}

// flatMutate: every in-place mutation of every field, present or absent,
// among all others.
func flatMutate(c *Ctx) {
	name := tableNames[c.Choose("table", len(tableNames))]
	spec := fbSchema[name]
	f := spec[c.Choose("field", len(spec))]
	present := c.Bool("present")
	others := c.Choose("others", 3)
	layout := c.Choose("layout", 3)
	t := tbl{}
	for _, g := range spec {
		if g.slot == f.slot && present || g.slot != f.slot && (others == 1 || others == 2 && g.slot%2 == 0) {
			t[g.slot] = fieldValue(g, 0)
			if g.slot == f.slot && g.def != nil && reflect.DeepEqual(t[g.slot], g.def) {
				t[g.slot] = fieldValue(g, 1) // The builder would leave out the default.
			}
		}
	}
	encode := func() []byte {
		if layout < 2 {
			return encRoot(t, layout)
		}
		return goRoot(name, t, false, true)
	}
	if f.kind == kVU8 || f.kind == kVU32 || f.kind == kVU64 || f.kind == kVF64 {
		if !present {
			b := encode()
			orig := append([]byte{}, b...)
			tt := tbl{f.slot: fieldValue(f, 3)}
			if ok, has := mutateElem(b, name, f, 0, tt); has && (ok || !bytes.Equal(b, orig)) {
				c.Fail("mutating element of absent vector %s.%s: %v, buffer changed %v", name, f.name, ok, !bytes.Equal(b, orig))
			}
			return
		}
		t[f.slot] = fieldValue(f, 3) // fresh, 5 elements or more
		n := reflect.ValueOf(t[f.slot]).Len()
		for j := 0; j < n && j < 8; j++ {
			b := encode()
			ok, has := mutateElem(b, name, f, j, t)
			if !has {
				return
			}
			if !ok {
				c.Fail("mutating %s.%s[%d] failed", name, f.name, j)
			}
			if d := diffTbl(expected(decRoot(b, name), name), expected(t, name), name); d != "" {
				c.Fail("after mutating %s.%s[%d]: %s", name, f.name, j, d)
			}
			c.Step(1)
			c.Eval(1)
		}
		c.StateStr(fmt.Sprint(values(c.trace)))
		return
	}
	for k := 0; k < 5; k++ {
		v := fieldValue(f, k)
		b := encode()
		orig := append([]byte{}, b...)
		if f.kind > kU64 {
			return
		}
		ok, has := mutate(b, name, f, v)
		if !has {
			return
		}
		c.Step(1)
		c.Eval(1)
		if !present {
			if ok || !bytes.Equal(b, orig) {
				c.Fail("mutating absent %s.%s: %v, buffer changed %v", name, f.name, ok, !bytes.Equal(b, orig))
			}
			continue
		}
		if !ok {
			c.Fail("mutating %s.%s to %v failed", name, f.name, v)
		}
		want := tbl{}
		for s, x := range t {
			want[s] = x
		}
		want[f.slot] = v
		if d := diffTbl(expected(decRoot(b, name), name), expected(want, name), name); d != "" {
			c.Fail("after mutating %s.%s to %v: %s", name, f.name, v, d)
		}
		if d := diffTbl(accRoot(b, name, 0), expected(want, name), name); d != "" {
			c.Fail("accessors after mutating %s.%s to %v: %s", name, f.name, v, d)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// flatEnums: all values of the enumerations and their names.
func flatEnums(c *Ctx) {
	i := c.Choose("value", 256)
	check := func(what, got string, names []string, enumNames func(s string) (int, bool), nameOf func(int) (string, bool)) {
		if i < len(names) {
			if got != names[i] {
				c.Fail("%s %d is named %q, expected %q", what, i, got, names[i])
			}
			if n, ok := nameOf(i); !ok || n != names[i] {
				c.Fail("%s %d has enumeration name %q", what, i, n)
			}
			if v, ok := enumNames(names[i]); !ok || v != i {
				c.Fail("%s %q has enumeration value %d, expected %d", what, names[i], v, i)
			}
			return
		}
		for _, n := range names {
			if got == n {
				c.Fail("undefined %s %d is named %q", what, i, got)
			}
		}
		if !strings.Contains(got, strconv.Itoa(i)) {
			c.Fail("undefined %s %d is named %q, which does not tell its number", what, i, got)
		}
		if n, ok := nameOf(i); ok {
			c.Fail("undefined %s %d has enumeration name %q", what, i, n)
		}
	}
	check("geometry type", flat.GeometryType(i).String(), geometryTypeNames,
		func(s string) (int, bool) { v, ok := flat.EnumValuesGeometryType[s]; return int(v), ok },
		func(i int) (string, bool) { s, ok := flat.EnumNamesGeometryType[flat.GeometryType(i)]; return s, ok })
	check("column type", flat.ColumnType(i).String(), columnTypeNames,
		func(s string) (int, bool) { v, ok := flat.EnumValuesColumnType[s]; return int(v), ok },
		func(i int) (string, bool) { s, ok := flat.EnumNamesColumnType[flat.ColumnType(i)]; return s, ok })
	if i == 0 {
		if len(flat.EnumValuesColumnType) != len(columnTypeNames) || len(flat.EnumValuesGeometryType) != len(geometryTypeNames) {
			c.Fail("unexpected enumeration values")
		}
		for j, v := range []flat.ColumnType{flat.ColumnTypeByte, flat.ColumnTypeUByte, flat.ColumnTypeBool, flat.ColumnTypeShort, flat.ColumnTypeUShort, flat.ColumnTypeInt, flat.ColumnTypeUInt, flat.ColumnTypeLong, flat.ColumnTypeULong, flat.ColumnTypeFloat, flat.ColumnTypeDouble, flat.ColumnTypeString, flat.ColumnTypeJson, flat.ColumnTypeDateTime, flat.ColumnTypeBinary} {
			if int(v) != j {
				c.Fail("constant of column type %s is %d, expected %d", columnTypeNames[j], v, j)
			}
		}
		for j, v := range []flat.GeometryType{flat.GeometryTypeUnknown, flat.GeometryTypePoint, flat.GeometryTypeLineString, flat.GeometryTypePolygon, flat.GeometryTypeMultiPoint, flat.GeometryTypeMultiLineString, flat.GeometryTypeMultiPolygon, flat.GeometryTypeGeometryCollection, flat.GeometryTypeCircularString, flat.GeometryTypeCompoundCurve, flat.GeometryTypeCurvePolygon, flat.GeometryTypeMultiCurve, flat.GeometryTypeMultiSurface, flat.GeometryTypeCurve, flat.GeometryTypeSurface, flat.GeometryTypePolyhedralSurface, flat.GeometryTypeTIN, flat.GeometryTypeTriangle} {
			if int(v) != j {
				c.Fail("constant of geometry type %s is %d, expected %d", geometryTypeNames[j], v, j)
			}
		}
	}
	c.Step(2)
	c.Eval(2)
	c.StateStr(fmt.Sprint(i))
}

// flatNesting checks nested geometries and several tables per buffer.
func flatNesting(c *Ctx) {
	id := 0
	var gen func(depth int) tbl
	gen = func(depth int) tbl {
		id++
		g := tbl{gXy: []float64{float64(id), float64(-id)}, gType: uint8(id)}
		if depth > 0 {
			n := c.Choose("parts", pickInt(c, 3, 4))
			var l []tbl
			for i := 0; i < n; i++ {
				l = append(l, gen(depth-1))
			}
			if n > 0 {
				g[gParts] = l
			}
		}
		return g
	}
	t := tbl{fGeometry: gen(2)}
	if c.Bool("columns") {
		t[fColumns] = fieldValue(fbSchema["Feature"][2], 3)
	}
	checkAllWays(c, "Feature", t)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// flatHistory reuses one accessor object for different tables.
func flatHistory(c *Ctx) {
	a := tbl{hName: "a", hHasZ: true, hNodeSize: uint16(4), hEnvelope: []float64{1, 2}}
	b := tbl{hTitle: "b", hCount: uint64(5), hCrs: tbl{sCode: int32(3)}}
	d := tbl{}
	tabs := []tbl{a, b, d}
	bufs := [][]byte{encRoot(a, 0), encRoot(b, 1), encRoot(d, 0)}
	var h flat.Header
	for i := 0; i < 4; i++ {
		k := c.Choose("table", 3)
		h.Init(bufs[k], flatbuffers.UOffsetT(4+u32at(bufs[k], 4)))
		if df := diffTbl(accHeader(&h), expected(tabs[k], "Header"), "Header"); df != "" {
			c.Fail("after reusing the object: %s", df)
		}
		tt := h.Table()
		if &tt.Bytes[0] != &bufs[k][0] || int(tt.Pos) != 4+u32at(bufs[k], 4) {
			c.Fail("Table() is wrong after Init")
		}
		c.Step(1)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}
