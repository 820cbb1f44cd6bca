// P13, P12: records, in which the properties of all columns follow one another.

package main

import (
	"bytes"
	"errors"
	"fmt"
)

func init() {
	register(&Family{Prop: "P13", Name: "badprop-records", Run: badPropRecords})
}

// badPropRecords: streams which have a value for every column of the schema,
// more, or fewer, in the order of the schema, in reverse, or all of one
// column: whole, cut anywhere, failing anywhere, or followed by a property
// of a missing column.
func badPropRecords(c *Ctx) {
	n := []int{1, 2, 3, 4, 15, 16, 40}[c.Choose("columns", 7)]
	k := []int{0, 1, n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1}[c.Choose("values", 8)]
	order := c.Choose("order", 3)
	rot := c.Choose("types from", len(columnTypeNames))
	feature := c.Bool("feature schema")
	ch := c.Choose("delivery", 3) * 2
	var types []int
	for i := 0; i < n; i++ {
		types = append(types, (i*7+rot)%len(columnTypeNames))
	}
	schema := schemaOf(types, feature)
	var b []byte
	bounds := []int{0}
	var cols, ts []int
	var want []interface{}
	for i := 0; i < k; i++ {
		col := i % n
		if order == 1 {
			col = n - 1 - col
		} else if order == 2 {
			col = n - 1
		}
		v := sampleValue(types[col], i%numSamples)
		b = append(append(b, byte(col), byte(col>>8)), encProp(types[col], v)...)
		bounds = append(bounds, len(b))
		cols, ts, want = append(cols, col), append(ts, types[col]), append(want, v)
	}
	at := 0
	for cut := 0; cut <= len(b); cut++ {
		s := &src{data: b[:cut]}
		_, s.onRead = chunking(ch)
		r := s.asReader(false, false)
		if bounds[at] == cut {
			checkSchemaRead(c, r, schema, cols[:at], ts[:at], want[:at])
			for _, x := range []int{n, n + 1, 255, 65535} {
				checkBadProps(c, fmt.Sprintf("%d properties of %d columns followed by column %d", at, n, x), bytes.NewReader(append(append([]byte{}, b[:cut]...), byte(x), byte(x>>8), 0, 0, 0, 0)), schema)
			}
			if at++; at == len(bounds) {
				at--
			}
		} else {
			checkBadProps(c, fmt.Sprintf("%d properties of %d columns cut at %d of %d", k, n, cut, len(b)), r, schema)
		}
		fs := &src{data: b}
		fs.onRead = func(want, avail int) (int, error) {
			if left := cut - int(fs.pos); left > 0 {
				return left, nil
			}
			return 0, errInjected
		}
		err := checkBadProps(c, fmt.Sprintf("%d properties of %d columns from a stream failing at %d of %d", k, n, cut, len(b)), fs.asReader(false, false), schema)
		c.Check(errors.Is(err, errInjected), "%d properties of %d columns from a stream failing at %d of %d: error %v does not carry the cause", k, n, cut, len(b), err)
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}
