// P20: the same behaviour on every host. Families of other properties run
// again in a 32-bit process (natively) and in a 32-bit big-endian process
// (emulated), with smaller bounds.

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

const hostShards = 8

type hostFam struct {
	name            string
	run             func(c *Ctx)
	quick, thorough int
	only386         bool // too expensive for the emulator
	thoroughBig     bool // in the emulator only in the thorough tier
}

func init() {
	register(&Family{Prop: "P20", Name: "builds", Serial: true, Custom: hostBuilds})
	for _, f := range []hostFam{
		// Index: build, search, serialize, load, stream.
		{name: "serialize", run: hostSerialize},
		{name: "serialize-grid", run: serializeGrid},
		{name: "marshal-faults", run: hostMarshalFaults, quick: 1, thorough: 1},
		{name: "unmarshal-delivery", run: unmarshalDelivery, quick: 2, thorough: 2},
		{name: "unmarshal-faults", run: faultUnmarshal, quick: 2, thorough: 2},
		{name: "unmarshal-cuts", run: hostCutIndex},
		{name: "search-grid", run: hostSearchGrid},
		{name: "search-history", run: searchHistory, thoroughBig: true},
		{name: "seek", run: hostSeek},
		{name: "seek-delivery", run: seekDelivery, quick: 1, thorough: 2},
		{name: "seek-faults", run: faultSeek, quick: 1, thorough: 2},
		{name: "sizes", run: sizeBits},
		{name: "sizes-limit", run: sizeLimit, only386: true},
		{name: "sizes-invalid", run: sizeInvalid},
		// Hilbert order, boxes.
		{name: "hilbert-reference", run: hilbertReference, only386: true},
		{name: "hilbert-cells", run: hilbertCells, only386: true},
		{name: "hilbert-lists", run: hilbertLists, thoroughBig: true},
		{name: "box-points", run: boxPoints},
		// Properties.
		{name: "prop-small", run: propSmall, thoroughBig: true},
		{name: "prop-lanes", run: propLanes, thoroughBig: true},
		{name: "prop-lengths", run: propLengths},
		{name: "prop-primitives", run: hostPropPrimitives},
		{name: "prop-schema", run: propSchema, thoroughBig: true},
		{name: "badprop-cut", run: badPropCutPrim},
		{name: "badprop-type", run: badPropType},
		{name: "badprop-length", run: badPropLength},
		// Files.
		{name: "roundtrip", run: hostRoundtrip},
		{name: "roundtrip-geometry", run: roundtripGeometry, thoroughBig: true},
		{name: "roundtrip-sizes", run: hostRoundtripSizes},
		{name: "roundtrip-paths", run: roundtripPaths, only386: true},
		{name: "filesearch", run: hostFileSearch},
		{name: "filesearch-shapes", run: fileSearchShapes, only386: true},
		{name: "reader-sequences", run: readerSequences, only386: true},
		{name: "writer-tables", run: writerTables, thoroughBig: true},
		{name: "write-faults", run: writeFaultRetries, quick: 3, thorough: 3},
		{name: "magic-writer", run: magicWriter},
		{name: "magic-alphabet", run: magicAlphabet},
		{name: "limit-counts", run: limitCounts},
		{name: "limit-header-length", run: limitHeaderLen, only386: true},
		{name: "header-values", run: headerValues},
		{name: "feature-schema", run: featureSchema},
		{name: "alias-tree", run: aliasTree},
		// Accessors.
		{name: "flat-vectors", run: flatVectors, thoroughBig: true},
		{name: "flat-mutate", run: flatMutate},
		{name: "flat-enums", run: flatEnums},
		{name: "flat-history", run: flatHistory},
		{name: "serialize-large", run: hostSerializeLarge},
	} {
		register(&Family{Prop: "P20", Name: "host386-" + f.name, Variant: "386", Quick: f.quick, Thorough: f.thorough, Run: f.run})
		if !f.only386 {
			register(&Family{Prop: "P20", Name: "bigendian-" + f.name, Variant: "mips", Quick: f.quick, Thorough: f.thorough, Run: f.run, Small: true, ThoroughOnly: f.thoroughBig})
		}
	}
}

func mipsVariants(base string) (r []string) {
	for i := 0; i < hostShards; i++ {
		r = append(r, fmt.Sprintf("%s#%d", base, i))
	}
	return
}

func hostPick(c *Ctx, big, small int) int {
	if c.small && !c.x.thorough {
		return small
	}
	return big
}

// hostSerialize: all small counts, and those around the size of the buffer
// through which big-endian hosts write (8096 bytes: 202.4 nodes).
func hostSerialize(c *Ctx) {
	counts := []int{1, 2, 3, 4, 5, 9, 16, 17, 100, 101, 102, 103, 104, 189, 190, 191, 192, 201, 202, 203, 204, 205, 300, 379, 380, 381, 403, 404, 405, 406, 607, 608, 1000}
	n := counts[c.Choose("n", len(counts))]
	ns := []int{2, 3, 16, 65535}[c.Choose("nodeSize", 4)]
	k := []int{1, 5, 6, 3}[c.Choose("layout", hostPick(c, 4, 2))]
	refs := layoutRefs(k, n, 2)
	what := fmt.Sprintf("n=%d node size %d layout %d", n, ns, k)
	want := marshalCheck(c, refs, ns, what)
	qs := layoutQueries(refs, 2)
	for ch := 0; ch < numChunkings; ch++ {
		if n > 50 && c.small && !c.x.thorough && ch%3 != 0 {
			continue
		}
		name, f := chunking(ch)
		unmarshalOnce(c, want, refs, ns, f, what+" delivery "+name, qs)
	}
	c.StateStr(fmt.Sprint(n, ns, k))
}

// hostSerializeLarge: indexes around the size of the portions in which they
// are loaded and searched.
func hostSerializeLarge(c *Ctx) {
	total := []int{65535, 65536, 65537, 131073}[c.Choose("nodes", hostPick(c, 4, 3))]
	ns := []int{16, 2}[c.Choose("nodeSize", hostPick(c, 2, 1))]
	n := total
	for refTotalNodes(n, ns) > total {
		n--
	}
	refs := make([]Ref, n)
	for i := range refs {
		f := float64(i)
		refs[i] = Ref{Box: bx(f, 1, f+0.5, 2), Offset: int64(i) * 7}
	}
	what := fmt.Sprintf("n=%d node size %d", n, ns)
	want := marshalCheck(c, refs, ns, what)
	q := bx(float64(n-1), 0, float64(n), 3)
	name, f := chunking([]int{0, 5, 8}[c.Choose("delivery", 3)])
	unmarshalOnce(c, want, refs, ns, f, what+" delivery "+name, []Box{q})
	seekOnce(c, want, refs, ns, q, 3, f, what)
	c.StateStr(fmt.Sprint(n, ns))
}

func hostMarshalFaults(c *Ctx) {
	n := []int{1, 2, 17, 192, 203, 500}[c.Choose("n", hostPick(c, 6, 5))]
	ns := []int{2, 16}[c.Choose("nodeSize", 2)]
	writeFaultIndexOf(c, n, ns, hostPick(c, 400, 24))
}

func hostCutIndex(c *Ctx) {
	n := []int{1, 2, 5, 17}[c.Choose("n", hostPick(c, 4, 3))]
	ns := []int{2, 3}[c.Choose("nodeSize", 2)]
	cutIndexOf(c, n, ns, 1)
}

func hostSearchGrid(c *Ctx) {
	var refs []Ref
	if c.Bool("alphabet") {
		n := 3 + c.Choose("n", hostPick(c, 2, 1))
		for i, k := range multiset(c, n, len(grid9), false) {
			refs = append(refs, Ref{Box: grid9[k], Offset: int64(i)})
		}
	} else {
		n := 1 + c.Choose("n", 2)
		for i, k := range multiset(c, n, len(grid36), false) {
			refs = append(refs, Ref{Box: grid36[k], Offset: int64(i)})
		}
	}
	refs = sortedCopy(refs)
	t := mustTree(c, refs, 2)
	checkTreeInfo(c, t, refs, 2)
	idx := marshalCheck(c, refs, 2, "grid")
	for i, q := range query225 {
		checkSearch(c, "Search", t.Search(q), refs, q)
		if i%9 == 4 {
			seekOnce(c, idx, refs, 2, q, 3, nil, "grid")
		}
	}
	c.Step(len(query225))
	c.Eval(len(query225))
	c.StateStr(refsStr(refs))
}

func hostSeek(c *Ctx) {
	counts := []int{1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 33, 100, 257, 300}
	n := counts[c.Choose("n", len(counts))]
	ns := []int{2, 3, 16, 65535}[c.Choose("nodeSize", 4)]
	k := []int{1, 5, 7, 3}[c.Choose("layout", hostPick(c, 4, 2))]
	start := []int{0, 1000}[c.Choose("start", 2)]
	refs := layoutRefs(k, n, 0)
	idx := buildRefTree(refs, ns).bytes()
	for _, q := range layoutQueries(refs, 2) {
		for _, ch := range []int{0, 1, 5, 7} {
			if n > 20 && ch == 1 {
				continue
			}
			name, f := chunking(ch)
			seekOnce(c, idx, refs, ns, q, start, f, fmt.Sprintf("n=%d node size %d start %d delivery %q", n, ns, start, name))
		}
	}
	c.StateStr(fmt.Sprint(n, ns, k, start))
}

func hostPropPrimitives(c *Ctx) { propPrimitivesOf(c, 2) }

func hostRoundtrip(c *Ctx) {
	alpha := wFeatures()
	n := c.Choose("n", hostPick(c, 4, 3))
	var ts []tbl
	for _, k := range multiset(c, n, len(alpha), true) {
		ts = append(ts, alpha[k])
	}
	roundtripOf(c, ts, n > 0 && c.Bool("known count"), []int{0, 3})
}

func hostRoundtripSizes(c *Ctx) { roundtripSizesOf(c, []int{0, 8096, 65536}) }

func hostFileSearch(c *Ctx) {
	n := 1 + c.Choose("n", hostPick(c, 3, 2))
	var boxes []Box
	for _, k := range multiset(c, n, len(searchAlphabet), true) {
		boxes = append(boxes, searchAlphabet[k])
	}
	ns := []int{2, 16}[c.Choose("nodeSize", 2)]
	f := simpleFile(boxes, ns, true, []int{1, 0, 9}, nil)
	for _, seekable := range []bool{true, false} {
		for _, q := range fileQueries {
			d := openSearch(c, f, seekable, 0)
			d.do(rop{kind: opSearch, q: q})
			c.Eval(1)
		}
	}
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// ---- The packages' code for every architecture

// The architectures of the Go toolchain, by class, each class with the
// architecture on which its code is run.
var hostClasses = map[string][]string{
	"amd64": {"amd64", "arm64", "loong64", "mips64le", "ppc64le", "riscv64", "wasm"},
	"386":   {"386", "arm", "mipsle"},
	"mips":  {"mips", "mips64", "ppc64", "s390x"},
}

var repoPkgs = []string{"packedrtree", "flatgeobuf", "flatgeobuf/flat"}

func goCmd(dir, arch string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	goos := "linux"
	if arch == "wasm" {
		goos = "js"
	}
	cmd.Env = append(os.Environ(), "GOARCH="+arch, "GOOS="+goos, "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	return strings.TrimSpace(string(out)), err
}

// archFiles lists the files of the packages which are built for an
// architecture.
func archFiles(arch string) (map[string][]string, error) {
	r := map[string][]string{}
	args := []string{"list", "-json=Dir,GoFiles,IgnoredGoFiles,SFiles"}
	for _, p := range repoPkgs {
		args = append(args, "./"+p)
	}
	out, err := goCmd(*flagRepo, arch, args...)
	if err != nil {
		return nil, fmt.Errorf("go list for %s: %v\n%s", arch, err, out)
	}
	d := json.NewDecoder(strings.NewReader(out))
	for d.More() {
		var p struct {
			Dir                             string
			GoFiles, IgnoredGoFiles, SFiles []string
		}
		if err := d.Decode(&p); err != nil {
			return nil, err
		}
		for _, f := range append(p.GoFiles, p.SFiles...) {
			r["use"] = append(r["use"], filepath.Join(p.Dir, f))
		}
		for _, f := range p.IgnoredGoFiles {
			if !strings.HasSuffix(f, "_test.go") {
				r["ignore"] = append(r["ignore"], filepath.Join(p.Dir, f))
			}
		}
	}
	sort.Strings(r["use"])
	sort.Strings(r["ignore"])
	return r, nil
}

// hostBuilds: the packages build for every architecture Go supports.
func hostBuilds(x *Exploration) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var fails atomic.Pointer[string]
	for _, archs := range hostClasses {
		for _, a := range archs {
			wg.Add(1)
			go func(a string) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				var args = []string{"build"}
				for _, p := range repoPkgs {
					args = append(args, "./"+p)
				}
				out, err := goCmd(*flagRepo, a, args...)
				if err != nil {
					// Is it the package or the toolchain?
					if o, e := goCmd(*flagRepo, a, "build", "fmt"); e != nil {
						fmt.Println("NOTE: cannot build for", a, o)
						return
					}
					s := fmt.Sprintf("the packages do not build for GOARCH=%s: %v\n%s", a, err, out)
					fails.Store(&s)
				}
				x.execs.Add(1)
				x.steps.Add(1)
				x.states.add(uint64(len(a))<<32 | uint64(a[0])<<16 | uint64(a[len(a)-1])<<8 | uint64(a[len(a)-2]))
			}(a)
		}
	}
	wg.Wait()
	if s := fails.Load(); s != nil {
		x.failure = &Failure{Property: "P20", Family: x.fam.Name, Tier: tierName(x.thorough), Message: *s}
		return
	}
	x.samples = append(x.samples, "go build of "+strings.Join(repoPkgs, ", ")+" for all 14 architectures")
	x.exhaustive = true
}

// borrowed finds the architectures which build other files than the
// representative of their class, and returns, for each different selection,
// an overlay which makes the representative build those files.
func borrowed(dir string) (variants []string, err error) {
	for _, rep := range []string{"mips", "386", "amd64"} {
		base, err := archFiles(rep)
		if err != nil {
			return nil, err
		}
		seen := map[string]bool{strings.Join(base["use"], " "): true}
		for _, a := range hostClasses[rep] {
			fs, err := archFiles(a)
			if err != nil {
				return nil, err
			}
			k := strings.Join(fs["use"], " ")
			if seen[k] {
				continue
			}
			seen[k] = true
			repl := map[string]string{}
			for _, f := range fs["ignore"] {
				repl[f] = ""
			}
			for _, f := range base["use"] {
				if !contains(fs["use"], f) {
					repl[f] = ""
				}
			}
			for _, f := range fs["use"] {
				if contains(base["use"], f) {
					continue
				}
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				out := filepath.Join(dir, fmt.Sprintf("%s-%d.go", a, len(repl)))
				if err = os.WriteFile(out, []byte(stripConstraints(string(b))), 0o644); err != nil {
					return nil, err
				}
				repl[f] = ""
				repl[filepath.Join(filepath.Dir(f), fmt.Sprintf("zz%d_borrowed.go", len(repl)))] = out
			}
			b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
			if err = os.WriteFile(filepath.Join(dir, rep+"-"+a+".overlay"), b, 0o644); err != nil {
				return nil, err
			}
			variants = append(variants, rep+"-"+a)
		}
	}
	return
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func stripConstraints(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			lines[i] = "//"
		}
	}
	return strings.Join(lines, "\n")
}
