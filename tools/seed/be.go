package main

import (
	"bytes"
	"fmt"
	"os"

	packedrtree "demo/be"
)

// With the code for big-endian hosts, every word is swapped on its way
// out, and swapped back on its way in, whichever the host's own order.
func main() {
	for _, n := range []int{1, 10, 200, 201, 202, 203, 1000} {
		refs := make([]packedrtree.Ref, n)
		for i := range refs {
			refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: float64(i), XMax: float64(i)}, Offset: int64(i)}
		}
		t, err := packedrtree.New(refs, 16)
		check(err == nil, "error %v", err)
		var b bytes.Buffer
		m, err := t.Marshal(&b)
		check(err == nil && m == b.Len(), "n=%d error %v", m, err)
		u, err := packedrtree.Unmarshal(&b, n, 16)
		check(err == nil && u.Bounds() == t.Bounds(), "error %v", err)
		r := u.Search(packedrtree.Box{XMin: float64(n - 1), XMax: float64(n - 1)})
		check(len(r) == 1 && r[0].Offset == int64(n-1), "found %v", r)
	}
}

func check(b bool, f string, a ...interface{}) {
	if !b {
		fmt.Printf("FAIL: "+f+"\n", a...)
		os.Exit(1)
	}
}
