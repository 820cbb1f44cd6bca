// P12, P13: the property codec.

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
)

func init() {
	register(&Family{Prop: "P12", Name: "prop-small", Run: propSmall})
	register(&Family{Prop: "P12", Name: "prop-lanes", Run: propLanes})
	register(&Family{Prop: "P12", Name: "prop-32bit-all", ThoroughOnly: true, Run: propAll32})
	register(&Family{Prop: "P12", Name: "prop-lengths", Run: propLengths})
	register(&Family{Prop: "P12", Name: "prop-primitives", Run: propPrimitives})
	register(&Family{Prop: "P12", Name: "prop-schema", Run: propSchema})
	register(&Family{Prop: "P12", Name: "prop-columns", Run: propColumns})
	register(&Family{Prop: "P13", Name: "badprop-cut", Run: badPropCut})
	register(&Family{Prop: "P13", Name: "badprop-cut-primitives", Run: badPropCutPrim})
	register(&Family{Prop: "P13", Name: "badprop-column", Run: badPropColumn})
	register(&Family{Prop: "P13", Name: "badprop-type", Run: badPropType})
	register(&Family{Prop: "P13", Name: "badprop-length", Run: badPropLength})
	register(&Family{Prop: "P13", Name: "badprop-fault", Run: badPropFault})
	register(&Family{Prop: "P13", Name: "badprop-fault-primitives", Run: badPropFaultPrim})
	register(&Family{Prop: "P13", Name: "badprop-streams", Run: badPropStreams})
	register(&Family{Prop: "P13", Name: "badprop-schema", Run: badPropSchema})
}

// encProp encodes a property value as the FlatGeobuf specification says.
func encProp(colType int, v interface{}) []byte {
	le := binary.LittleEndian
	switch x := v.(type) {
	case int8:
		return []byte{byte(x)}
	case uint8:
		return []byte{x}
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	case int16:
		return le.AppendUint16(nil, uint16(x))
	case uint16:
		return le.AppendUint16(nil, x)
	case int32:
		return le.AppendUint32(nil, uint32(x))
	case uint32:
		return le.AppendUint32(nil, x)
	case int64:
		return le.AppendUint64(nil, uint64(x))
	case uint64:
		return le.AppendUint64(nil, x)
	case float32:
		return le.AppendUint32(nil, math.Float32bits(x))
	case float64:
		return le.AppendUint64(nil, math.Float64bits(x))
	case string:
		return append(le.AppendUint32(nil, uint32(len(x))), x...)
	case []byte:
		return append(le.AppendUint32(nil, uint32(len(x))), x...)
	}
	panic(fmt.Sprintf("harness error: no encoding of %T", v))
}

const numSamples = 3

// sampleValue returns a representative value of a column type.
func sampleValue(colType, k int) interface{} {
	switch colType {
	case ctByte:
		return []int8{-3, 127, -128}[k]
	case ctUByte:
		return []uint8{200, 0, 255}[k]
	case ctBool:
		return []bool{true, false, true}[k]
	case ctShort:
		return []int16{-12345, 255, 256}[k]
	case ctUShort:
		return []uint16{0xfedc, 1, 0x8000}[k]
	case ctInt:
		return []int32{201, 0, 255}[k] // see KNOWN_FINDINGS.txt: int-low-byte
	case ctUInt:
		return []uint32{0xfedcba98, 0x01000000, 0x00ff0000}[k]
	case ctLong:
		return []int64{-1234567890123456789, 1 << 40, 0x80}[k]
	case ctULong:
		return []uint64{0xfedcba9876543210, 1, 1 << 63}[k]
	case ctFloat:
		return []float32{-1.5, float32(math.Inf(1)), math.SmallestNonzeroFloat32}[k]
	case ctDouble:
		return []float64{6.02214076e23, math.Copysign(0, -1), math.Pi}[k]
	case ctString:
		return []string{"héllo", "", "\x00a"}[k]
	case ctDateTime:
		return []string{"2023-01-02T03:04:05Z", "", "x"}[k]
	case ctJson:
		return [][]byte{[]byte(`{"a":[1,"b"]}`), {}, []byte("null")}[k]
	default:
		return [][]byte{{0, 1, 255, 254}, {}, {7}}[k]
	}
}

// sameValue compares values bit by bit, types included.
func sameValue(got, want interface{}) string {
	switch w := want.(type) {
	case float32:
		if g, ok := got.(float32); ok && math.Float32bits(g) == math.Float32bits(w) {
			return ""
		}
	case float64:
		if g, ok := got.(float64); ok && math.Float64bits(g) == math.Float64bits(w) {
			return ""
		}
	case []byte:
		if g, ok := got.([]byte); ok && bytes.Equal(g, w) {
			return ""
		}
	default:
		if _, ok := got.([]byte); !ok && got == want {
			return ""
		}
	}
	return fmt.Sprintf("got %T %.60v, expected %T %.60v", got, got, want, want)
}

func writeProp(w *flatgeobuf.PropWriter, colType int, v interface{}) (int, error) {
	switch colType {
	case ctByte:
		return w.WriteByte(v.(int8))
	case ctUByte:
		return w.WriteUByte(v.(uint8))
	case ctBool:
		return w.WriteBool(v.(bool))
	case ctShort:
		return w.WriteShort(v.(int16))
	case ctUShort:
		return w.WriteUShort(v.(uint16))
	case ctInt:
		return w.WriteInt(v.(int32))
	case ctUInt:
		return w.WriteUInt(v.(uint32))
	case ctLong:
		return w.WriteLong(v.(int64))
	case ctULong:
		return w.WriteULong(v.(uint64))
	case ctFloat:
		return w.WriteFloat(v.(float32))
	case ctDouble:
		return w.WriteDouble(v.(float64))
	case ctString, ctDateTime:
		return w.WriteString(v.(string))
	default:
		return w.WriteBinary(v.([]byte))
	}
}

func readProp(r *flatgeobuf.PropReader, colType int) (v interface{}, err error) {
	switch colType {
	case ctByte:
		return r.ReadByte()
	case ctUByte:
		return r.ReadUByte()
	case ctBool:
		return r.ReadBool()
	case ctShort:
		return r.ReadShort()
	case ctUShort:
		return r.ReadUShort()
	case ctInt:
		return r.ReadInt()
	case ctUInt:
		return r.ReadUInt()
	case ctLong:
		return r.ReadLong()
	case ctULong:
		return r.ReadULong()
	case ctFloat:
		return r.ReadFloat()
	case ctDouble:
		return r.ReadDouble()
	case ctString, ctDateTime:
		return r.ReadString()
	default:
		return r.ReadBinary()
	}
}

// checkVal compares a decoded value. The known finding about Int is
// accepted only for the exact wrong value it describes.
func checkVal(c *Ctx, what string, got, want interface{}) {
	d := sameValue(got, want)
	if d == "" {
		return
	}
	if w, ok := want.(int32); ok && (c.x.fam.Prop == "P12" || c.x.fam.Prop == "P20") {
		if g, ok := got.(int32); ok && g == int32(uint8(w)) {
			c.Known("int-low-byte", "%s: %s", what, d)
			return
		}
	}
	c.Fail("%s: %s", what, d)
}

// codec writes and reads single values quickly.
type codec struct {
	out bytes.Buffer
	in  bytes.Reader
	w   *flatgeobuf.PropWriter
	r   *flatgeobuf.PropReader
	buf []byte
}

func newCodec() *codec {
	d := &codec{}
	d.w = flatgeobuf.NewPropWriter(&d.out)
	d.r = flatgeobuf.NewPropReader(&d.in)
	return d
}

// round writes a value, compares the bytes, and reads it back from the
// bytes followed by a trailer which must remain.
func (d *codec) round(c *Ctx, colType int, v interface{}) {
	want := encProp(colType, v)
	d.out.Reset()
	n, err := writeProp(d.w, colType, v)
	if err != nil || n != len(want) || !bytes.Equal(d.out.Bytes(), want) {
		c.Fail("writing %s %.60v: %d, %v and % .64x; expected %d bytes % .64x", columnTypeNames[colType], v, n, err, d.out.Bytes(), len(want), want)
	}
	d.buf = append(append(d.buf[:0], want...), 0xa5, 0x5a)
	d.in.Reset(d.buf)
	got, err := readProp(d.r, colType)
	if err != nil {
		c.Fail("reading %s %.60v: %v", columnTypeNames[colType], v, err)
	}
	checkVal(c, "reading "+columnTypeNames[colType], got, v)
	if d.in.Len() != 2 {
		c.Fail("reading %s %.60v left %d bytes, expected 2", columnTypeNames[colType], v, d.in.Len())
	}
	c.Step(2)
	c.Eval(1)
}

// propSmall: all values of all 8- and 16-bit types.
func propSmall(c *Ctx) {
	t := []int{ctByte, ctUByte, ctBool, ctShort, ctUShort}[c.Choose("type", 5)]
	d := newCodec()
	switch t {
	case ctByte, ctUByte, ctBool:
		for i := 0; i < 256; i++ {
			switch t {
			case ctByte:
				d.round(c, t, int8(i))
			case ctUByte:
				d.round(c, t, uint8(i))
			default:
				d.round(c, t, i%2 == 1)
			}
		}
	default:
		hi := c.Choose("high byte", 256)
		for lo := 0; lo < 256; lo++ {
			if t == ctShort {
				d.round(c, t, int16(hi<<8|lo))
			} else {
				d.round(c, t, uint16(hi<<8|lo))
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

func wideValue(t int, b uint64) interface{} {
	switch t {
	case ctInt:
		return int32(b)
	case ctUInt:
		return uint32(b)
	case ctLong:
		return int64(b)
	case ctULong:
		return b
	case ctFloat:
		return math.Float32frombits(uint32(b))
	default:
		return math.Float64frombits(b)
	}
}

// propLanes: every value of every pair of bytes of the wide types, with the
// other bytes from a few backgrounds.
func propLanes(c *Ctx) {
	t := []int{ctInt, ctUInt, ctFloat, ctLong, ctULong, ctDouble}[c.Choose("type", 6)]
	size := 8
	if t == ctInt || t == ctUInt || t == ctFloat {
		size = 4
	}
	i := c.Choose("lane", size-1)
	j := i + 1 + c.Choose("second lane", size-1-i)
	bg := []uint64{0, 0xffffffffffffffff, 0x0123456789abcdef, 0x8070605040302010}[c.Choose("background", 4)]
	d := newCodec()
	mask := uint64(0xff)<<(8*i) | uint64(0xff)<<(8*j)
	for a := uint64(0); a < 256; a++ {
		for b := uint64(0); b < 256; b++ {
			if !c.thorough && a%16 != 0 && a%16 != 15 && b%16 != 0 && b%16 != 15 {
				continue
			}
			d.round(c, t, wideValue(t, bg&^mask|a<<(8*i)|b<<(8*j)))
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propAll32: every value of the 32-bit types.
func propAll32(c *Ctx) {
	t := []int{ctInt, ctUInt, ctFloat}[c.Choose("type", 3)]
	hi := uint64(c.Choose("high half", 1<<16))
	d := newCodec()
	for lo := uint64(0); lo < 1<<16; lo++ {
		d.round(c, t, wideValue(t, hi<<16|lo))
	}
}

// propLengths: variable-length values of many lengths, chunked in all ways.
func propLengths(c *Ctx) {
	t := []int{ctString, ctDateTime, ctJson, ctBinary}[c.Choose("type", 4)]
	lens := []int{0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1<<20 - 1, 1 << 20, 1<<20 + 1}
	if c.thorough {
		lens = nil
		for i := 0; i < 2500; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1<<20-1, 1<<20, 1<<20+1, 1<<24, 1<<24+3)
	}
	n := lens[c.Choose("length", len(lens))]
	ch := 0
	if n <= 70000 {
		ch = c.Choose("delivery", numChunkings)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + 1)
	}
	var v interface{} = b
	if t == ctString || t == ctDateTime {
		v = string(b)
	}
	enc := encProp(t, v)
	sk := &sink{}
	w := flatgeobuf.NewPropWriter(sk.asWriter(false))
	m, err := writeProp(w, t, v)
	c.Check(err == nil && m == len(enc), "writing %d bytes of %s: %d, %v; expected %d", n, columnTypeNames[t], m, err, len(enc))
	c.Check(bytes.Equal(sk.buf, enc), "writing %d bytes of %s: wrong bytes", n, columnTypeNames[t])
	s := &src{data: append(enc, 1, 2, 3)}
	_, s.onRead = chunking(ch)
	got, err := readProp(flatgeobuf.NewPropReader(s.asReader(false, false)), t)
	c.Check(err == nil, "reading %d bytes of %s: %v", n, columnTypeNames[t], err)
	checkVal(c, fmt.Sprintf("reading %d bytes of %s", n, columnTypeNames[t]), got, v)
	c.Check(s.pos == int64(len(enc)), "reading %d bytes of %s consumed %d bytes", n, columnTypeNames[t], s.pos)
	c.Step(2)
	c.Eval(1)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propPrimitives: sequences of values of different types through one writer
// and one reader.
func propPrimitives(c *Ctx) { propPrimitivesOf(c, 3) }

func propPrimitivesOf(c *Ctx, max int) {
	n := 1 + c.Choose("values", max)
	sk := &sink{}
	w := flatgeobuf.NewPropWriter(sk.asWriter(false))
	var want []byte
	var types []int
	var vals []interface{}
	for i := 0; i < n; i++ {
		t := c.Choose("type", len(columnTypeNames))
		v := sampleValue(t, c.Choose("value", pickInt(c, 1+numSamples/2, numSamples)))
		e := encProp(t, v)
		m, err := writeProp(w, t, v)
		c.Check(err == nil && m == len(e), "writing value %d (%s): %d, %v; expected %d", i, columnTypeNames[t], m, err, len(e))
		want = append(want, e...)
		types, vals = append(types, t), append(vals, v)
	}
	c.Check(bytes.Equal(sk.buf, want), "writing %v as %v gave % x, expected % x", vals, types, sk.buf, want)
	s := &src{data: append(want, 9)}
	_, s.onRead = chunking(pickInt(c, 0, 1))
	r := flatgeobuf.NewPropReader(s.asReader(false, false))
	for i, t := range types {
		got, err := readProp(r, t)
		c.Check(err == nil, "reading value %d: %v", i, err)
		checkVal(c, fmt.Sprintf("reading value %d", i), got, vals[i])
	}
	c.Check(s.pos == int64(len(want)), "reading %v consumed %d bytes, expected %d", types, s.pos, len(want))
	c.Step(2 * n)
	c.Eval(n)
	c.StateBytes(want)
}

// schemaOf makes a schema (a header or a feature) of the given column types.
func schemaOf(types []int, feature bool) flatgeobuf.Schema {
	var cols []tbl
	for i, t := range types {
		cols = append(cols, tbl{cName: fmt.Sprint("c", i), cType: uint8(t)})
	}
	if feature {
		return asFeature(encRoot(tbl{fColumns: cols}, 0))
	}
	return asHeader(encRoot(tbl{hColumns: cols}, 0))
}

// narrow is a schema that has only the first n columns of another.
type narrow struct {
	flatgeobuf.Schema
	n int
}

func (s narrow) ColumnsLength() int { return s.n }

// checkSchemaRead decodes and compares a property stream.
func checkSchemaRead(c *Ctx, r io.Reader, schema flatgeobuf.Schema, cols, types []int, want []interface{}) {
	vals, err := flatgeobuf.NewPropReader(r).ReadSchema(schema)
	c.Step(1)
	c.Check(err == nil, "ReadSchema of columns %v: %v", cols, err)
	c.Check(len(vals) == len(cols), "ReadSchema of columns %v: %d values", cols, len(vals))
	for i, v := range vals {
		c.Check(int(v.ColIndex) == cols[i] && int(v.Type) == types[i], "ReadSchema of columns %v: value %d has column %d, type %v", cols, i, v.ColIndex, v.Type)
		c.Check(string(v.Col.Name()) == fmt.Sprint("c", cols[i]) && int(v.Col.Type()) == types[i], "ReadSchema of columns %v: value %d refers to column %s of type %v", cols, i, v.Col.Name(), v.Col.Type())
		checkVal(c, fmt.Sprintf("ReadSchema of columns %v: value %d", cols, i), v.Value, want[i])
		c.Eval(1)
	}
}

// propSchema: every sequence of up to 3 properties over a schema with all
// types, written with the property writer, column index included.
func propSchema(c *Ctx) {
	feature := c.Bool("feature schema")
	ch := c.Choose("delivery", pickInt(c, 3, numChunkings))
	n := c.Choose("properties", pickInt(c, 3, 4))
	var types []int
	for i := range columnTypeNames {
		types = append(types, (i*4+3)%len(columnTypeNames))
	}
	key := fmt.Sprint("schema", feature)
	schema := schemaOf(types, feature)
	_ = key
	sk := &sink{}
	w := flatgeobuf.NewPropWriter(sk.asWriter(false))
	var cols, ts []int
	var want []interface{}
	for i := 0; i < n; i++ {
		col := c.Choose("column", len(types))
		v := sampleValue(types[col], (i+c.Choose("value", pickInt(c, 2, 1)))%numSamples)
		_, err := w.WriteUShort(uint16(col))
		c.Check(err == nil, "WriteUShort: %v", err)
		_, err = writeProp(w, types[col], v)
		c.Check(err == nil, "writing: %v", err)
		cols, ts, want = append(cols, col), append(ts, types[col]), append(want, v)
	}
	s := &src{data: sk.buf}
	_, s.onRead = chunking(ch)
	checkSchemaRead(c, s.asReader(false, false), schema, cols, ts, want)
	c.Check(s.pos == int64(len(sk.buf)), "ReadSchema consumed %d of %d bytes", s.pos, len(sk.buf))
	c.StateBytes(sk.buf)
}

// propColumns: schemas with many columns, at every or at critical positions.
func propColumns(c *Ctx) {
	n := []int{1, 2, 15, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000}[c.Choose("columns", 13)]
	rot := c.Choose("rotation", 3)
	feature := c.Bool("feature schema")
	var types []int
	for i := 0; i < n; i++ {
		types = append(types, (i+i/15+rot*7)%15)
	}
	schema := schemaOf(types, feature)
	add := func(b []byte, col int, v interface{}) []byte {
		return append(append(b, byte(col), byte(col>>8)), encProp(types[col], v)...)
	}
	// All columns in order, in reverse, then each on its own.
	for dir := 0; dir < 2; dir++ {
		var b []byte
		var cols, ts []int
		var want []interface{}
		for i := 0; i < n; i++ {
			col := i
			if dir == 1 {
				col = n - 1 - i
			}
			v := sampleValue(types[col], i%numSamples)
			b = add(b, col, v)
			cols, ts, want = append(cols, col), append(ts, types[col]), append(want, v)
		}
		checkSchemaRead(c, bytes.NewReader(b), schema, cols, ts, want)
	}
	for col := 0; col < n; col++ {
		v := sampleValue(types[col], col%numSamples)
		checkSchemaRead(c, bytes.NewReader(add(nil, col, v)), schema, []int{col}, []int{types[col]}, []interface{}{v})
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
	if n == 1000 && rot == 0 && !feature {
		// The most columns an index can name.
		types = types[:0]
		for i := 0; i < 65536; i++ {
			types = append(types, i%15)
		}
		schema = schemaOf(types, false)
		for col := 0; col < 65536; col++ {
			if col%251 != 0 && col&0xff != 0xff && col&0xff != 0 && !c.thorough {
				continue
			}
			v := sampleValue(types[col], col%numSamples)
			checkSchemaRead(c, bytes.NewReader(add(nil, col, v)), schema, []int{col}, []int{types[col]}, []interface{}{v})
		}
	}
}

// ---- P13

// propSeq is a chosen sequence of properties.
func propSeq(c *Ctx, max int) (schema flatgeobuf.Schema, b []byte, bounds []int, cols, types []int, want []interface{}) {
	var all []int
	for i := range columnTypeNames {
		all = append(all, i)
	}
	schema = schemaOf(all, false)
	n := c.Choose("properties", max+1)
	bounds = []int{0}
	for i := 0; i < n; i++ {
		col := c.Choose("column", len(all))
		v := sampleValue(col, c.Choose("value", 2))
		b = append(append(b, byte(col), 0), encProp(col, v)...)
		bounds = append(bounds, len(b))
		cols, types, want = append(cols, col), append(types, col), append(want, v)
	}
	return
}

func checkBadProps(c *Ctx, what string, r io.Reader, schema flatgeobuf.Schema) error {
	vals, err := flatgeobuf.NewPropReader(r).ReadSchema(schema)
	c.Step(1)
	c.Eval(1)
	c.Check(err != nil, "%s: no error, %d values", what, len(vals))
	c.Check(len(vals) == 0, "%s: %d values along with error %v", what, len(vals), err)
	return err
}

// badPropCut: every cut of every short sequence of properties.
func badPropCut(c *Ctx) {
	schema, b, bounds, cols, types, want := propSeq(c, pickInt(c, 2, 3))
	ch := c.Choose("delivery", pickInt(c, 3, 3)) * 2
	for cut := 0; cut <= len(b); cut++ {
		whole := -1
		for i, x := range bounds {
			if x == cut {
				whole = i
			}
		}
		s := &src{data: b[:cut]}
		_, s.onRead = chunking(ch)
		r := s.asReader(false, false)
		if whole >= 0 {
			checkSchemaRead(c, r, schema, cols[:whole], types[:whole], want[:whole])
		} else {
			checkBadProps(c, fmt.Sprintf("properties %v cut at %d of %d", cols, cut, len(b)), r, schema)
		}
	}
	c.StateBytes(b)
}

// badPropCutPrim: every cut of every single value through the primitive
// readers.
func badPropCutPrim(c *Ctx) {
	t := c.Choose("type", len(columnTypeNames))
	v := sampleValue(t, c.Choose("value", numSamples))
	ch := c.Choose("delivery", numChunkings)
	b := encProp(t, v)
	for cut := 0; cut < len(b); cut++ {
		s := &src{data: b[:cut]}
		_, s.onRead = chunking(ch)
		got, err := readProp(flatgeobuf.NewPropReader(s.asReader(false, false)), t)
		c.Step(1)
		c.Eval(1)
		c.Check(err != nil, "reading %s cut at %d of %d bytes gave %v", columnTypeNames[t], cut, len(b), got)
		c.Check(cut == 0 || err != io.EOF, "reading %s cut at %d of %d bytes: %v", columnTypeNames[t], cut, len(b), err)
		checkNoValue(c, fmt.Sprintf("reading %s cut at %d of %d bytes", columnTypeNames[t], cut, len(b)), got)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// badPropColumn: every column index the schema does not have, first or after
// valid properties.
func badPropColumn(c *Ctx) {
	n := []int{0, 1, 2, 15, 16, 127, 128, 255, 256, 257, 300}[c.Choose("columns", 11)]
	hi := c.Choose("column high byte", 256)
	feature := c.Bool("feature schema")
	before := c.Choose("valid properties before", 2)
	if n == 0 && before > 0 {
		c.Stop()
	}
	var types []int
	for i := 0; i < n; i++ {
		types = append(types, ctUByte)
	}
	schema := schemaOf(types, feature)
	if n == 0 && feature {
		schema = asFeature(encRoot(tbl{}, 0))
	}
	if c.Bool("narrowed schema") {
		// What lies beyond the columns would pass for more of them.
		schema = narrow{schemaOf(append(types, ctUByte, ctUByte, ctUByte), feature), n}
	}
	for lo := 0; lo < 256; lo++ {
		col := hi<<8 | lo
		var b []byte
		var cols, ts []int
		var want []interface{}
		for i := 0; i < before; i++ {
			b = append(b, byte(i), 0, 77)
			cols, ts, want = append(cols, i), append(ts, ctUByte), append(want, uint8(77))
		}
		b = append(b, byte(col), byte(col>>8), 5, 5, 5)[:len(b)+3]
		if col < n {
			checkSchemaRead(c, bytes.NewReader(b), schema, append(cols, col), append(ts, ctUByte), append(want, uint8(5)))
		} else {
			checkBadProps(c, fmt.Sprintf("column %d of a schema with %d columns", col, n), bytes.NewReader(b), schema)
			checkBadProps(c, fmt.Sprintf("column %d of a schema with %d columns, no value", col, n), bytes.NewReader(b[:len(b)-1]), schema)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// badPropType: every column type number.
func badPropType(c *Ctx) {
	typ := c.Choose("type", 256)
	feature := c.Bool("feature schema")
	before := c.Choose("valid properties before", 2)
	types := []int{ctUByte, typ, ctBool}
	schema := schemaOf(types, feature)
	var b []byte
	var cols, ts []int
	var want []interface{}
	if before > 0 {
		b = append(b, 0, 0, 9)
		cols, ts, want = []int{0}, []int{ctUByte}, []interface{}{uint8(9)}
	}
	// An unused column of unknown type does no harm.
	checkSchemaRead(c, bytes.NewReader(append(append([]byte{}, b...), 2, 0, 1)), schema, append(append([]int{}, cols...), 2), append(append([]int{}, ts...), ctBool), append(append([]interface{}{}, want...), true))
	if typ < len(columnTypeNames) {
		v := sampleValue(typ, 0)
		b = append(append(b, 1, 0), encProp(typ, v)...)
		checkSchemaRead(c, bytes.NewReader(b), schema, append(cols, 1), append(ts, typ), append(want, v))
		return
	}
	b = append(b, 1, 0)
	for n := 0; n < 40; n++ {
		checkBadProps(c, fmt.Sprintf("column of type %d followed by %d bytes", typ, n), bytes.NewReader(b), schema)
		b = append(b, byte(n%3))
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// badPropLength: length prefixes larger than what follows.
func badPropLength(c *Ctx) {
	t := []int{ctString, ctDateTime, ctJson, ctBinary}[c.Choose("type", 4)]
	have := []int{0, 1, 2, 3, 255, 256, 4096, 70000}[c.Choose("bytes present", 8)]
	more := []int64{1, 2, 255, 256, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}[c.Choose("missing", 9)]
	if int64(have)+more > math.MaxUint32 {
		more = math.MaxUint32 - int64(have)
	}
	b := binary.LittleEndian.AppendUint32([]byte{0, 0}, uint32(int64(have)+more))
	b = append(b, make([]byte, have)...)
	checkBadProps(c, fmt.Sprintf("%s of length %d with %d bytes present", columnTypeNames[t], int64(have)+more, have), bytes.NewReader(b), schemaOf([]int{t}, false))
	got, err := readProp(flatgeobuf.NewPropReader(bytes.NewReader(b[2:])), t)
	c.Check(err != nil, "%s of length %d with %d bytes present: no error", columnTypeNames[t], int64(have)+more, have)
	c.Check(err != io.EOF, "%s of length %d with %d bytes present: %v", columnTypeNames[t], int64(have)+more, have, err)
	checkNoValue(c, fmt.Sprintf("%s of length %d with %d bytes present", columnTypeNames[t], int64(have)+more, have), got)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// checkNoValue checks that there is no value along with an error.
func checkNoValue(c *Ctx, what string, got interface{}) {
	c.Check(reflect.ValueOf(got).IsZero(), "%s: value %v along with the error", what, got)
}

// badPropFaultPrim: the stream fails after any number of bytes of a value
// read on its own.
func badPropFaultPrim(c *Ctx) {
	t := c.Choose("type", len(columnTypeNames))
	v := sampleValue(t, c.Choose("value", numSamples))
	e := append([]error{errInjected}, faultKinds...)[c.Choose("error", len(faultKinds)+1)]
	one := c.Bool("one byte at a time")
	b := encProp(t, v)
	for at := 0; at < len(b); at++ {
		s := &src{data: b}
		s.onRead = func(want, avail int) (int, error) {
			n := at - int(s.pos)
			if n <= 0 {
				return 0, e
			}
			if one {
				n = 1
			}
			return n, nil
		}
		got, err := readProp(flatgeobuf.NewPropReader(s.asReader(false, false)), t)
		c.Step(1)
		c.Eval(1)
		what := fmt.Sprintf("reading %s from a stream failing at %d of %d", columnTypeNames[t], at, len(b))
		c.Check(errors.Is(err, e), "%s: error %v does not carry the cause %v", what, err, e)
		checkNoValue(c, what, got)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// missing is a schema which claims more columns than it has.
type missing struct {
	flatgeobuf.Schema
	have int
}

func (s missing) Columns(obj *flat.Column, j int) bool {
	return j < s.have && s.Schema.Columns(obj, j)
}

// badPropSchema: schemas in which one column cannot be read, because its
// table, the table's list of fields, or its type lies outside the buffer, or
// which do not deliver the column. Properties of that column are rejected,
// also after valid ones; those of other columns are not affected.
func badPropSchema(c *Ctx) {
	feature := c.Bool("feature schema")
	layout := c.Choose("layout", 2)
	t := c.Choose("type", len(columnTypeNames))
	bad := c.Choose("column", 3)
	before := c.Choose("valid properties before", 3)
	kind := c.Choose("damage", 4)
	types := []int{ctUByte, ctUByte, ctUByte}
	types[bad] = t
	cols := make([]tbl, 3)
	for i := range cols {
		cols[i] = tbl{cName: fmt.Sprint("c", i), cType: uint8(types[i])}
	}
	slot := hColumns
	root := tbl{hColumns: cols}
	if feature {
		slot, root = fColumns, tbl{fColumns: cols}
	}
	b := encRoot(root, layout)
	tp := 4 + u32at(b, 4)
	vt := tp - int(int32(u32at(b, tp)))
	at := tp + u16at(b, vt+4+2*slot)
	elem := at + u32at(b, at) + 4 + 4*bad
	col := elem + u32at(b, elem)
	cvt := col - int(int32(u32at(b, col)))
	le := binary.LittleEndian
	switch kind {
	case 0: // the column's table
		far := []int{len(b) - elem, len(b) - elem - 1, len(b) - elem - 3, len(b), 1 << 30, 1<<31 - 1}
		le.PutUint32(b[elem:], uint32(far[c.Choose("offset", len(far))]))
	case 1: // the table's list of fields
		far := []int32{int32(col - len(b)), int32(col - len(b) + 1), -1 << 30, math.MinInt32 + int32(col), int32(col) + 1, int32(col) + 4, 1 << 30, math.MaxInt32}
		le.PutUint32(b[col:], uint32(far[c.Choose("offset", len(far))]))
	case 2: // the type
		far := []int{len(b) - col, len(b), 0x7fff, 0xffff}
		le.PutUint16(b[cvt+4+2*cType:], uint16(far[c.Choose("offset", len(far))]))
	}
	var schema flatgeobuf.Schema = asHeader(b)
	if feature {
		schema = asFeature(b)
	}
	if kind == 3 {
		schema = missing{schema, bad}
	}
	var s []byte
	var ks, ts []int
	var want []interface{}
	for i := 0; i < before; i++ {
		k := i
		if k == bad || kind == 3 && k > bad {
			k = 0
			if bad == 0 {
				k = 1
			}
		}
		if k == bad || kind == 3 && k > bad {
			c.Stop()
		}
		s = append(s, byte(k), 0, byte(i+1))
		ks, ts, want = append(ks, k), append(ts, ctUByte), append(want, uint8(i+1))
	}
	checkSchemaRead(c, bytes.NewReader(s), schema, ks, ts, want)
	s = append(s, byte(bad), 0)
	full := encProp(t, sampleValue(t, c.Choose("value", 2)))
	for n := 0; n <= len(full); n++ {
		checkBadProps(c, fmt.Sprintf("column %d cannot be read from the schema, %d bytes of value", bad, n), bytes.NewReader(append(append([]byte{}, s...), full[:n]...)), schema)
	}
	for _, v := range [][]byte{{0}, {1}, {0, 0}, {0, 0, 0, 0}} {
		checkBadProps(c, fmt.Sprintf("column %d cannot be read from the schema, value % x", bad, v), bytes.NewReader(append(append([]byte{}, s...), v...)), schema)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// decodeProps is a reference decoder for the types of badPropStreams.
func decodeProps(b []byte, types []int) (cols, ts []int, vals []interface{}, ok bool) {
	le := binary.LittleEndian
	for len(b) > 0 {
		if len(b) < 2 || int(le.Uint16(b)) >= len(types) {
			return nil, nil, nil, false
		}
		col := int(le.Uint16(b))
		b = b[2:]
		var v interface{}
		n := 0
		switch t := types[col]; {
		case t == ctUByte && len(b) >= 1:
			v, n = b[0], 1
		case t == ctShort && len(b) >= 2:
			v, n = int16(le.Uint16(b)), 2
		case (t == ctString || t == ctBinary) && len(b) >= 4 && uint64(len(b)-4) >= uint64(le.Uint32(b)):
			n = 4 + int(le.Uint32(b))
			if t == ctString {
				v = string(b[4:n])
			} else {
				v = b[4:n]
			}
		default:
			return nil, nil, nil, false
		}
		b = b[n:]
		cols, ts, vals = append(cols, col), append(ts, types[col]), append(vals, v)
	}
	return cols, ts, vals, true
}

// badPropStreams: every stream of up to 6 (7) bytes out of 9, and every one
// of up to 12 (14) out of 3, decoded with a schema of four columns.
func badPropStreams(c *Ctx) {
	types := []int{ctUByte, ctString, ctShort, ctBinary}
	schema := schemaOf(types, false)
	alpha, max := []byte{0, 1, 2, 3, 4, 5, 127, 128, 255}, pickInt(c, 6, 7)
	if c.Bool("long") {
		alpha, max = []byte{0, 1, 3}, pickInt(c, 12, 14)
	}
	head := c.Choose("length", max+1)
	b := make([]byte, head)
	if head > 3 {
		head = 3
	}
	for i := 0; i < head; i++ {
		b[i] = alpha[c.Choose("byte", len(alpha))]
	}
	rest := b[head:]
	idx := make([]int, len(rest))
	valid := 0
	for {
		for i, k := range idx {
			rest[i] = alpha[k]
		}
		if cols, ts, vals, ok := decodeProps(b, types); ok {
			checkSchemaRead(c, bytes.NewReader(b), schema, cols, ts, vals)
			valid++
		} else {
			vals, err := flatgeobuf.NewPropReader(bytes.NewReader(b)).ReadSchema(schema)
			if err == nil || len(vals) != 0 {
				c.Fail("decoding % x: %d values, error %v", b, len(vals), err)
			}
			c.Step(1)
			c.Eval(1)
		}
		i := len(idx) - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			break
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace), valid))
}

// badPropFault: the stream fails after any number of bytes.
func badPropFault(c *Ctx) {
	schema, b, _, cols, _, _ := propSeq(c, 2)
	kind := c.Choose("error", 4)
	one := c.Bool("one byte at a time")
	e := []error{errInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, faultKinds[0]}[kind]
	for at := 0; at <= len(b); at++ {
		s := &src{data: b}
		s.onRead = func(want, avail int) (int, error) {
			n := at - int(s.pos)
			if n <= 0 {
				return 0, e
			}
			if one {
				return 1, nil
			}
			return n, nil
		}
		err := checkBadProps(c, fmt.Sprintf("properties %v, stream failing at %d of %d", cols, at, len(b)), s.asReader(false, false), schema)
		c.Check(errors.Is(err, e), "properties %v, stream failing at %d of %d: error %v does not carry the cause", cols, at, len(b), err)
	}
	c.StateBytes(append(b, byte(kind)))
}

var _ = flat.ColumnTypeInt
