package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
)

// faultLevel lists the properties decided by fault enumeration, with the
// rule by which their cases are made.
var faultLevel = map[string]string{}

var assumptionText = map[string][]string{}

func assumptionsOf(prop string) []string {
	return append([]string{"enumeration is exhaustive only within the stated bounds and alphabets (DESIGN.md)"}, assumptionText[prop]...)
}

// variantsOf lists the build variants which have families of the property.
func variantsOf(prop string, thorough bool) []string {
	var vs []string
	seen := map[string]bool{}
	for _, f := range families {
		if f.Prop == prop && !seen[f.Variant] && (thorough || !f.ThoroughOnly) {
			seen[f.Variant] = true
			if emulated(f.Variant) {
				vs = append(vs, mipsVariants(f.Variant)...)
			} else {
				vs = append(vs, f.Variant)
			}
		}
	}
	for _, v := range extraVariants[prop] {
		if !seen[v] {
			vs = append(vs, v)
		}
	}
	return vs
}

// extraVariants lists variants whose families are only compiled into the
// variant's own build.
var extraVariants = map[string][]string{"P18": schedVariants()}

// The schedule exploration is split over processes, because only one
// execution at a time can be under the control of the scheduler.
const schedShards = 8

func schedVariant(i int) string { return fmt.Sprintf("sched#%d", i) }

func schedVariants() (r []string) {
	for i := 0; i < schedShards; i++ {
		r = append(r, schedVariant(i))
	}
	for i := 0; i < schedShards; i++ {
		r = append(r, "schedbe"+schedVariant(i)[len("sched"):])
	}
	return
}

// famVariant is the variant under which the families of a variant are
// registered.
func famVariant(v string) string {
	v = baseVariant(v)
	if i := strings.IndexByte(v, '-'); i >= 0 {
		v = v[:i]
	}
	if v == "amd64" {
		v = ""
	}
	return v
}

// baseVariant is the name of the build of a variant.
func baseVariant(v string) string {
	if i := strings.IndexByte(v, '#'); i >= 0 {
		return v[:i]
	}
	return v
}

// variantBuilders prepare the build of a variant: extra go build flags and
// environment.
var variantBuilders = map[string]func(dir string) (args []string, env []string, err error){
	// 32-bit words: runs natively on this machine.
	// 32-bit words, big-endian: runs in the emulator.
	"mips": func(dir string) ([]string, []string, error) {
		return nil, []string{"GOARCH=mips", "GOMIPS=hardfloat", "CGO_ENABLED=0"}, nil
	},
	"amd64": func(dir string) ([]string, []string, error) { return nil, nil, nil },
	"386": func(dir string) ([]string, []string, error) {
		return nil, []string{"GOARCH=386", "CGO_ENABLED=0"}, nil
	},
	// The race detector.
	"race": func(dir string) ([]string, []string, error) {
		return []string{"-race"}, []string{"CGO_ENABLED=1"}, nil
	},
	// A yield point before every statement.
	"sched": func(dir string) ([]string, []string, error) {
		o, err := instrument(*flagRepo, dir, []string{"packedrtree", "flatgeobuf"}, runtime.GOARCH)
		return []string{"-tags", "sched", "-overlay", o}, nil, err
	},
	// The same with the code for big-endian hosts.
	"schedbe": func(dir string) ([]string, []string, error) {
		o, err := instrument(*flagRepo, dir, []string{"packedrtree", "flatgeobuf"}, "s390x")
		return []string{"-tags", "sched", "-overlay", o}, nil, err
	},
}

// buildVariant compiles this program for a variant. A failure to build a
// variant is reported as a failure (not an error) if the plain build works.
func buildVariant(v, prop string) (bin string, fail *Failure, err error) {
	if v == "" {
		self, err := os.Executable()
		return self, nil, err
	}
	v = baseVariant(v)
	dir := filepath.Join(*flagTmp, "build-"+v)
	bin = filepath.Join(dir, "mc")
	if _, err := os.Stat(bin); err == nil {
		return bin, nil, nil
	}
	if err = os.MkdirAll(dir, 0o755); err != nil {
		return
	}
	// "mips-s390x" is the code built for s390x, built for mips.
	rep, borrow := v, ""
	if i := strings.IndexByte(v, '-'); i >= 0 {
		rep, borrow = v[:i], v[i+1:]
	}
	prep := variantBuilders[rep]
	if prep == nil {
		return "", nil, fmt.Errorf("no builder for variant %q", v)
	}
	args, env, err := prep(dir)
	if err != nil {
		return "", nil, fmt.Errorf("preparing variant %s: %v", v, err)
	}
	if borrow != "" {
		args = append(args, "-overlay", filepath.Join(*flagTmp, v+".overlay"))
	}
	cmd := exec.Command("go", append(append([]string{"build"}, args...), "-o", bin, ".")...)
	cmd.Dir = filepath.Join(*flagVerif, "mc")
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", nil, fmt.Errorf("building variant %s: %v\n%s", v, err, strings.TrimSpace(string(out)))
	}
	return bin, nil, nil
}
