// P12: what texts and bytes contain.

package main

import (
	"bytes"
	"fmt"

	"github.com/gogama/flatgeobuf/flatgeobuf"
)

func init() {
	register(&Family{Prop: "P12", Name: "prop-contents", Run: propContents})
	register(&Family{Prop: "P12", Name: "prop-texts", Run: propTexts})
	register(&Family{Prop: "P12", Name: "prop-schema-values", Run: propSchemaValues})
}

// contentAlphabet has the bytes which have a meaning in some encoding of
// text: terminators, blanks, quotes, the bytes of byte order marks,
// surrogates, and of the shortest and longest sequences of UTF-8.
var contentAlphabet = []byte{0x00, 0x09, 0x0a, 0x0d, 0x20, 0x22, 0x5c, 'a', 0x7f, 0x80, 0xbb, 0xbf, 0xc0, 0xc3, 0xed, 0xef, 0xf0, 0xfe, 0xff}

func textOf(t int, b []byte) interface{} {
	if t == ctString || t == ctDateTime {
		return string(b)
	}
	return append([]byte{}, b...)
}

// propContents: texts and byte sequences which have any one or two bytes at
// the start, at the end, or on their own (three in the thorough tier).
func propContents(c *Ctx) {
	t := []int{ctString, ctDateTime, ctJson, ctBinary}[c.Choose("type", 4)]
	where := c.Choose("position", 4)
	first := c.Choose("first byte", 256)
	d := newCodec()
	rest := []byte("The quick brown fox")
	try := func(b ...byte) {
		switch where {
		case 1:
			b = append(append([]byte{}, b...), rest...)
		case 2:
			b = append(append([]byte{}, rest...), b...)
		case 3:
			b = append(append([]byte{b[0]}, rest...), b[1:]...)
		}
		d.round(c, t, textOf(t, b))
	}
	try(byte(first))
	for i := 0; i < 256; i++ {
		try(byte(first), byte(i))
		if c.thorough {
			for j := 0; j < 256; j++ {
				try(byte(first), byte(i), byte(j))
			}
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propTexts: all texts of up to 4 bytes (5 in the thorough tier) of the
// alphabet, and their repetitions.
func propTexts(c *Ctx) {
	t := []int{ctString, ctDateTime, ctJson, ctBinary}[c.Choose("type", 4)]
	times := []int{1, 2, 100}[c.Choose("times", 3)]
	max := 4
	if times > 1 {
		max = 2
	}
	if c.thorough {
		max++
	}
	first := c.Choose("first byte", len(contentAlphabet))
	d := newCodec()
	var rec func(b []byte)
	rec = func(b []byte) {
		d.round(c, t, textOf(t, bytes.Repeat(b, times)))
		if len(b) == max {
			return
		}
		for _, x := range contentAlphabet {
			rec(append(b, x))
		}
	}
	rec([]byte{contentAlphabet[first]})
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// propSchemaValues: streams of properties which have every value of the
// small types, every byte at every place of the wide types, and every text
// of one byte or two bytes of the alphabet.
func propSchemaValues(c *Ctx) {
	t := c.Choose("type", len(columnTypeNames))
	feature := c.Bool("feature schema")
	schema := schemaOf([]int{ctBool, t}, feature)
	var vals []interface{}
	switch t {
	case ctByte, ctUByte, ctBool:
		for i := 0; i < 256; i++ {
			switch t {
			case ctByte:
				vals = append(vals, int8(i))
			case ctUByte:
				vals = append(vals, uint8(i))
			default:
				vals = append(vals, i%2 == 1)
			}
		}
	case ctShort, ctUShort:
		for i := 0; i < 1<<16; i++ {
			if t == ctShort {
				vals = append(vals, int16(i))
			} else {
				vals = append(vals, uint16(i))
			}
		}
	case ctString, ctDateTime, ctJson, ctBinary:
		vals = append(vals, textOf(t, nil))
		for i := 0; i < 256; i++ {
			vals = append(vals, textOf(t, []byte{byte(i)}))
		}
		for _, x := range contentAlphabet {
			for _, y := range contentAlphabet {
				vals = append(vals, textOf(t, []byte{x, y}))
			}
		}
	default:
		for _, bg := range []uint64{0, 0xffffffffffffffff, 0x0123456789abcdef, 0x8070605040302010} {
			for lane := 0; lane < 8; lane++ {
				for i := uint64(0); i < 256; i++ {
					vals = append(vals, wideValue(t, bg&^(0xff<<(8*lane))|i<<(8*lane)))
				}
			}
		}
	}
	// On their own, then all in one stream.
	var all []byte
	for _, v := range vals {
		b := append([]byte{1, 0}, encProp(t, v)...)
		checkSchemaRead(c, bytes.NewReader(b), schema, []int{1}, []int{t}, []interface{}{v})
		all = append(all, b...)
	}
	what := "ReadSchema of many properties"
	got, err := flatgeobuf.NewPropReader(bytes.NewReader(all)).ReadSchema(schema)
	c.Check(err == nil && len(got) == len(vals), "%s: %d values, %v; expected %d", what, len(got), err, len(vals))
	for i := range got {
		c.Check(int(got[i].Type) == t && got[i].ColIndex == 1, "%s: value %d is of column %d, type %d", what, i, got[i].ColIndex, got[i].Type)
		checkVal(c, what, got[i].Value, vals[i])
	}
	c.Step(1)
	c.Eval(len(vals))
	c.StateStr(fmt.Sprint(values(c.trace)))
}
