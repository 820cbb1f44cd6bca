// P17: fields and elements which are not there.

package main

import (
	"fmt"

	flatbuffers "github.com/google/flatbuffers/go"

	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	register(&Family{Prop: "P17", Name: "flat-absent", Run: flatAbsent})
}

type zeroField struct {
	table, field string
	add          func(b *flatbuffers.Builder, o flatbuffers.UOffsetT)
}

var zeroFields = []zeroField{
	{"Column", "name", flat.ColumnAddName},
	{"Column", "title", flat.ColumnAddTitle},
	{"Column", "description", flat.ColumnAddDescription},
	{"Column", "metadata", flat.ColumnAddMetadata},
	{"Crs", "org", flat.CrsAddOrg},
	{"Crs", "name", flat.CrsAddName},
	{"Crs", "description", flat.CrsAddDescription},
	{"Crs", "wkt", flat.CrsAddWkt},
	{"Crs", "code_string", flat.CrsAddCodeString},
	{"Header", "name", flat.HeaderAddName},
	{"Header", "envelope", flat.HeaderAddEnvelope},
	{"Header", "columns", flat.HeaderAddColumns},
	{"Header", "crs", flat.HeaderAddCrs},
	{"Header", "title", flat.HeaderAddTitle},
	{"Header", "description", flat.HeaderAddDescription},
	{"Header", "metadata", flat.HeaderAddMetadata},
	{"Geometry", "ends", flat.GeometryAddEnds},
	{"Geometry", "xy", flat.GeometryAddXy},
	{"Geometry", "z", flat.GeometryAddZ},
	{"Geometry", "m", flat.GeometryAddM},
	{"Geometry", "t", flat.GeometryAddT},
	{"Geometry", "tm", flat.GeometryAddTm},
	{"Geometry", "parts", flat.GeometryAddParts},
	{"Feature", "geometry", flat.FeatureAddGeometry},
	{"Feature", "properties", flat.FeatureAddProperties},
	{"Feature", "columns", flat.FeatureAddColumns},
}

// flatAbsent: a reference field set to nothing is absent, whatever other
// fields are present; elements of absent vectors are zero, and cannot be
// set.
func flatAbsent(c *Ctx) {
	z := zeroFields[c.Choose("field", len(zeroFields))]
	before := c.Choose("bytes before", 9)
	others := c.Bool("other fields")
	b := flatbuffers.NewBuilder(0)
	for i := 0; i < before; i++ {
		b.PrependByte(1)
	}
	var root flatbuffers.UOffsetT
	switch z.table {
	case "Column":
		flat.ColumnStart(b)
		if others {
			flat.ColumnAddType(b, 3)
			flat.ColumnAddWidth(b, 9)
		}
		z.add(b, 0)
		root = flat.ColumnEnd(b)
	case "Crs":
		flat.CrsStart(b)
		if others {
			flat.CrsAddCode(b, 9)
		}
		z.add(b, 0)
		root = flat.CrsEnd(b)
	case "Header":
		flat.HeaderStart(b)
		if others {
			flat.HeaderAddFeaturesCount(b, 9)
			flat.HeaderAddHasZ(b, true)
		}
		z.add(b, 0)
		root = flat.HeaderEnd(b)
	case "Geometry":
		flat.GeometryStart(b)
		if others {
			flat.GeometryAddType(b, 3)
		}
		z.add(b, 0)
		root = flat.GeometryEnd(b)
	default:
		flat.FeatureStart(b)
		z.add(b, 0)
		root = flat.FeatureEnd(b)
	}
	b.Finish(root)
	buf := append([]byte{}, b.FinishedBytes()...)
	orig := append([]byte{}, buf...)
	want := tbl{}
	if others {
		switch z.table {
		case "Column":
			want = tbl{cType: uint8(3), cWidth: int32(9)}
		case "Crs":
			want = tbl{sCode: int32(9)}
		case "Header":
			want = tbl{hCount: uint64(9), hHasZ: true}
		case "Geometry":
			want = tbl{gType: uint8(3)}
		}
	}
	what := fmt.Sprintf("%s.%s set to nothing", z.table, z.field)
	if d := diffTbl(accPlainRoot(buf, z.table, 0), expected(want, z.table), z.table); d != "" {
		c.Fail("%s: %s", what, d)
	}
	zero := func(name string, vs ...interface{}) {
		for _, v := range vs {
			switch x := v.(type) {
			case float64:
				c.Check(x == 0, "%s: an element of the absent %s is %v", what, name, x)
			case byte:
				c.Check(x == 0, "%s: an element of the absent %s is %v", what, name, x)
			case int8:
				c.Check(x == 0, "%s: an element of the absent %s is %v", what, name, x)
			case uint32:
				c.Check(x == 0, "%s: an element of the absent %s is %v", what, name, x)
			case bool:
				c.Check(!x, "%s: the absent %s has an element", what, name)
			case []byte:
				c.Check(len(x) == 0, "%s: the absent %s has % x", what, name, x)
			}
		}
		c.Eval(1)
	}
	for _, j := range []int{0, 1, 7} {
		switch z.table {
		case "Header":
			h := flat.GetRootAsHeader(buf, 0)
			var col flat.Column
			zero("envelope", h.Envelope(j), h.MutateEnvelope(j, 5))
			zero("columns", h.Columns(&col, j))
			c.Check(h.Crs(nil) == nil, "%s: there is a Crs", what)
			zero("name", h.Name(), h.Title(), h.Description(), h.Metadata())
		case "Geometry":
			g := flat.GetRootAsGeometry(buf, 0)
			var part flat.Geometry
			zero("ends", g.Ends(j), g.MutateEnds(j, 5))
			zero("xy", g.Xy(j), g.MutateXy(j, 5))
			zero("z", g.Z(j), g.MutateZ(j, 5))
			zero("m", g.M(j), g.MutateM(j, 5))
			zero("t", g.T(j), g.MutateT(j, 5))
			zero("tm", g.MutateTm(j, 5))
			c.Check(g.Tm(j) == 0, "%s: an element of the absent tm is %d", what, g.Tm(j))
			zero("parts", g.Parts(&part, j))
		case "Feature":
			f := flat.GetRootAsFeature(buf, 0)
			var col flat.Column
			zero("properties", f.Properties(j), f.MutateProperties(j, 5), f.PropertiesBytes())
			zero("columns", f.Columns(&col, j))
			c.Check(f.Geometry(nil) == nil, "%s: there is a geometry", what)
		case "Column":
			x := flat.GetRootAsColumn(buf, 0)
			zero("name", x.Name(), x.Title(), x.Description(), x.Metadata())
		case "Crs":
			x := flat.GetRootAsCrs(buf, 0)
			zero("org", x.Org(), x.Name(), x.Description(), x.Wkt(), x.CodeString())
		}
	}
	c.Check(string(buf) == string(orig), "%s: setting absent elements changed the buffer", what)
	c.Step(4)
	c.StateStr(fmt.Sprint(values(c.trace)))
}
