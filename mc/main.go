// Command mc model-checks gogama/flatgeobuf: see /verif/DESIGN.md.
//
//	mc -prop P01 -tier quick       check a property (parent process)
//	mc -replay FILE                re-execute a violation
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagVerif  = flag.String("verif", "/verif", "directory of the framework")
	flagRepo   = flag.String("repo", "/repo", "directory of the code")
	flagTmp    = flag.String("tmp", "", "scratch directory")
	flagChild  = flag.String("child", "", "internal: result file of an exploring child")
	flagVar    = flag.String("variant", "", "internal: build variant")
	flagBudget = flag.Float64("budget", 0, "internal: seconds")
	flagEmu    = flag.String("emulate", "", "internal: run a big-endian MIPS program; its arguments follow")
	flagGuest  = flag.Bool("guest", false, "internal: this is the emulated program")
	flagChoice = flag.String("choices", "", "internal: choice list of the execution to replay in the emulated program")
	flagKnown  = flag.String("known", "", "internal: known findings")
	flagReplay = flag.String("replay", "", "replay file")
	flagFamily = flag.String("family", "", "only this family (debugging)")
)

// knownFindings holds the "known:" lines of KNOWN_FINDINGS.txt, keyed by
// property/id.
var knownFindings = map[string]string{}

func loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		line := strings.TrimSpace(s.Text())
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		parts := strings.Fields(line)
		var prop, id string
		var rest []string
		for _, p := range parts[1:] {
			if prop == "" && strings.HasPrefix(p, "property=") {
				prop = p[len("property="):]
			} else if id == "" && strings.HasPrefix(p, "id=") {
				id = p[len("id="):]
			} else {
				rest = append(rest, p)
			}
		}
		knownFindings[prop+"/"+id] = strings.Join(rest, " ")
	}
}

// A slot publishes a worker's current choice list through a file, so that
// the parent can find out which execution killed the child.
type slot struct {
	mem   []byte
	start atomic.Int64 // unix nanoseconds; 0 when idle
}

const slotSize = 1 << 16

var slots []*slot

func (s *slot) begin() {
	t := time.Now()
	s.start.Store(t.UnixNano())
	binary.LittleEndian.PutUint32(s.mem[4:], uint32(t.Unix()))
	binary.LittleEndian.PutUint32(s.mem, 0)
}

func (s *slot) put(i, v int) {
	if 8+4*i+4 <= len(s.mem) {
		binary.LittleEndian.PutUint32(s.mem[8+4*i:], uint32(v))
		binary.LittleEndian.PutUint32(s.mem, uint32(i+1))
	}
}

func (s *slot) end() {
	s.start.Store(0)
	binary.LittleEndian.PutUint32(s.mem[4:], 0)
}

func makeSlots(path string) {
	n := runtime.GOMAXPROCS(0)
	var mem []byte
	if path != "" {
		f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil {
			_ = f.Truncate(int64(n*slotSize) + 256)
			mem, err = syscall.Mmap(int(f.Fd()), 0, n*slotSize+256, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err != nil {
				mem = nil
			}
			f.Close()
		}
	}
	if mem == nil {
		mem = make([]byte, n*slotSize+256)
	}
	famName = mem[n*slotSize:]
	for i := 0; i < n; i++ {
		slots = append(slots, &slot{mem: mem[i*slotSize : (i+1)*slotSize]})
	}
}

var famName []byte // name of the current family, shared with the parent

// FamilyResult is what a child reports about one family.
type FamilyResult struct {
	Name       string
	Variant    string
	Executions int64
	States     int64
	Steps      int64
	Evals      int64
	Points     int64
	MaxTrace   int64
	Bound      int
	Exhaustive bool
	Wall       float64
	Samples    []string
	Known      map[string]int64
	Failure    *Failure
}

func child() {
	if p := os.Getenv("VERIFPROF"); p != "" {
		if f, err := os.Create(p + *flagVar); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	// A runaway recursion must die quickly rather than eat the memory.
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	if strconv.IntSize == 32 {
		debug.SetMemoryLimit(2 << 30)
	}
	// Ballast (never touched) keeps collections rare on small heaps.
	ballast := make([]byte, 64<<20)
	defer runtime.KeepAlive(ballast)
	makeSlots(*flagChild + ".slots")
	thorough := *flagTier == "thorough"
	deadline := time.Now().Add(time.Duration(*flagBudget * float64(time.Second)))
	go watchdog()
	out := exploreAll(thorough, deadline)
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(*flagChild, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// exploreAll runs the families of the property for this variant.
func exploreAll(thorough bool, deadline time.Time) []FamilyResult {
	var fams []*Family
	for _, f := range families {
		if f.Prop == *flagProp && (f.Variant == famVariant(*flagVar) || f.Variant == *flagVar) && (thorough || !f.ThoroughOnly) && (*flagFamily == "" || *flagFamily == f.Name || *flagFamily+f.Variant == f.Name) {
			fams = append(fams, f)
		}
	}
	out := make([]FamilyResult, len(fams))
	shares := make([]time.Duration, len(fams))
	run := func(i int, share time.Duration) bool {
		f := fams[i]
		copy(famName, append([]byte(f.Name), 0))
		t0 := time.Now()
		x := explore(f, thorough, t0.Add(share))
		bound := f.Quick
		if thorough {
			bound = f.Thorough
		}
		shares[i] = share
		out[i] = FamilyResult{Name: f.Name, Variant: f.Variant, Executions: x.execs.Load(), States: x.states.n.Load(), Steps: x.steps.Load(),
			Evals: x.evals.Load(), Points: x.points.Load(), MaxTrace: x.maxTrace.Load(), Bound: bound, Exhaustive: x.exhaustive,
			Wall: time.Since(t0).Seconds(), Samples: x.samples, Known: x.knownIDs, Failure: x.failure}
		failed := x.failure != nil
		x = nil
		runtime.GC()
		return !failed
	}
	for i := range fams {
		// Leave every later family a fair share of the remaining time.
		rem := time.Until(deadline)
		share := rem
		if left := len(fams) - i; left > 1 {
			share = rem * 2 / time.Duration(left+1)
		}
		if !run(i, share) {
			return out[:i+1]
		}
	}
	// Families which were cut short get the time which others left.
	for {
		var todo []int
		for i := range out {
			if !out[i].Exhaustive {
				todo = append(todo, i)
			}
		}
		if len(todo) == 0 {
			break
		}
		best := todo[0]
		for _, i := range todo {
			if shares[i] < shares[best] {
				best = i
			}
		}
		share := time.Until(deadline)
		if len(todo) > 1 {
			share /= 2
		}
		if share < shares[best]*3/2 {
			break
		}
		old := out[best]
		if !run(best, share) {
			return out
		}
		if !out[best].Exhaustive && out[best].Executions < old.Executions {
			out[best] = old
		}
	}
	return out
}

const stallLimit = 60 * time.Second

func watchdog() {
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		for _, s := range slots {
			if t := s.start.Load(); t != 0 && time.Duration(now-t) > stallLimit {
				fmt.Fprintln(os.Stderr, "STALL: an execution did not end")
				os.Exit(4)
			}
		}
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f Failure
	if err = json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if emulated(f.Variant) || baseVariant(f.Variant) != baseVariant(*flagVar) {
		// The replay needs another build.
		bin, _, err := buildVariant(f.Variant, f.Property)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if emulated(f.Variant) {
			o := runGuest(bin, f.Property, f.Tier, f.Variant, 600, &f)
			if o.failure != nil {
				fmt.Println("FAILED:", o.failure.Message)
				os.Exit(1)
			}
			fmt.Print("held\n", o.note)
			return
		}
		e, _, o := runCmd(600*time.Second, bin, "-replay", path, "-variant", f.Variant, "-verif", *flagVerif, "-repo", *flagRepo, "-tmp", *flagTmp)
		fmt.Print(o)
		os.Exit(e)
	}
	debug.SetMaxStack(256 << 20)
	makeSlots("")
	for _, fam := range families {
		if fam.Name != f.Family {
			continue
		}
		if fam.Custom != nil {
			// Custom searches are deterministic: run them again.
			x := explore(fam, f.Tier == "thorough", time.Now().Add(600*time.Second))
			if x.failure != nil {
				fmt.Println(x.failure.Message)
				os.Exit(1)
			}
			return
		}
		x := &Exploration{fam: fam, thorough: f.Tier == "thorough", states: newStateSet(), knownIDs: map[string]int64{}}
		richStreams = fam.Rich
		c := x.newCtx(f.Choices, nil)
		c.verbose = true
		msg := x.runOne(c)
		for i, l := range labels(c.trace) {
			fmt.Printf("choice %d: %s\n", i, l)
		}
		for _, l := range c.log {
			fmt.Println(l)
		}
		if msg != "" {
			fmt.Println("FAILED:", msg)
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	fmt.Fprintln(os.Stderr, "no such family in this build:", f.Family)
	os.Exit(2)
}

func main() {
	flag.Parse()
	loadKnown(filepath.Join(*flagVerif, "KNOWN_FINDINGS.txt"))
	switch {
	case *flagEmu != "":
		os.Exit(emulate(*flagEmu, append([]string{"guest"}, flag.Args()...), []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"}, time.Duration(*flagBudget*float64(time.Second))))
	case *flagGuest:
		guest()
	case *flagChild != "":
		child()
	case *flagReplay != "":
		replay(*flagReplay)
	default:
		os.Exit(parent())
	}
}

func runCmd(timeout time.Duration, name string, arg ...string) (exit int, timedOut bool, output string) {
	cmd := exec.Command(name, arg...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	// The race detector does not report an access if it has forgotten
	// where it was.
	cmd.Env = append(os.Environ(), "GORACE=history_size=7")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	if err := cmd.Start(); err != nil {
		return 127, false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
		timedOut = true
	}
	s := buf.String()
	if len(s) > 6000 {
		s = s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return cmd.ProcessState.ExitCode(), timedOut, s
}

// crashed finds the execution which killed a child.
func crashed(bin, prop, tier, variant, slotFile, out string, exit int) *Failure {
	mem, err := os.ReadFile(slotFile)
	if err != nil {
		return nil
	}
	n := (len(mem) - 256) / slotSize
	name := string(mem[n*slotSize:])
	if i := strings.IndexByte(name, 0); i >= 0 {
		name = name[:i]
	}
	// The oldest execution first: if one does not end, it is that one.
	var order []int
	for w := 0; w < n; w++ {
		order = append(order, w)
	}
	sort.SliceStable(order, func(i, j int) bool {
		return binary.LittleEndian.Uint32(mem[order[i]*slotSize+4:]) < binary.LittleEndian.Uint32(mem[order[j]*slotSize+4:])
	})
	for _, w := range order {
		m := mem[w*slotSize : (w+1)*slotSize]
		if binary.LittleEndian.Uint32(m[4:]) == 0 {
			continue // idle
		}
		k := int(binary.LittleEndian.Uint32(m))
		if k > (slotSize-8)/4 {
			continue
		}
		f := &Failure{Property: prop, Family: name, Variant: variant, Tier: tier}
		for i := 0; i < k; i++ {
			f.Choices = append(f.Choices, int(binary.LittleEndian.Uint32(m[8+4*i:])))
		}
		// An execution that died between two choices continues with
		// choice 0, as it did in the child.
		b, _ := json.Marshal(f)
		path := slotFile + ".replay"
		_ = os.WriteFile(path, b, 0o644)
		e, to, o := runCmd(stallLimit, bin, "-replay", path, "-variant", variant, "-verif", *flagVerif, "-repo", *flagRepo, "-tmp", *flagTmp)
		if to {
			f.Message = fmt.Sprintf("execution does not end (more than %v)", stallLimit)
			return f
		}
		if e != 0 && e != 2 || strings.Contains(o, "fatal error:") || strings.Contains(o, "runtime: goroutine stack exceeds") {
			f.Message = fmt.Sprintf("process died (exit %d):\n%s", e, o)
			return f
		}
	}
	if strings.Contains(out, "fatal error:") && !strings.Contains(out, "out of memory") && !strings.Contains(out, "cannot allocate") {
		return &Failure{Property: prop, Family: name, Variant: variant, Tier: tier,
			Message: "process died, but no single execution reproduces it (state shared between executions):\n" + out}
	}
	return nil
}

func parent() int {
	t0 := time.Now()
	prop, tier := *flagProp, *flagTier
	seedVal, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evDir := filepath.Join(*flagVerif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	budget := 240.0
	if tier == "thorough" {
		budget = 760
	}
	if *flagBudget > 0 {
		budget = *flagBudget
	}
	report := func(f *Failure) {
		path := filepath.Join(evDir, prop+".replay.json")
		b, _ := json.MarshalIndent(f, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		fmt.Println(f.Message)
		for _, l := range f.Labels {
			fmt.Println("  ", l)
		}
		for _, l := range f.Log {
			fmt.Println("  >", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	var results []FamilyResult
	var failure *Failure
	incomplete := false
	var extraAssumptions []string
	// Variants of one build run at the same time.
	var plan [][]string
	vs := variantsOf(prop, tier == "thorough")
	if prop == "P20" {
		bs, err := borrowed(*flagTmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for _, v := range bs {
			if emulated(v) {
				vs = append(vs, mipsVariants(v)...)
			} else {
				vs = append(vs, v)
			}
			fmt.Println("code selected for", v, "is checked separately")
		}
	}
	for _, v := range vs {
		if n := len(plan); n > 0 && baseVariant(plan[n-1][0]) == baseVariant(v) {
			plan[n-1] = append(plan[n-1], v)
		} else {
			plan = append(plan, []string{v})
		}
	}
	for i, group := range plan {
		rem := budget - time.Since(t0).Seconds()
		if rem < 5 {
			rem = 5
		}
		share := rem
		if left := len(plan) - i; left > 1 {
			share = rem * 2 / float64(left+1)
		}
		bin, fail, err := buildVariant(group[0], prop)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if fail != nil {
			failure = fail
			break
		}
		if bin == "" {
			extraAssumptions = append(extraAssumptions, "variant "+group[0]+" not available here")
			continue
		}
		outs := make([]childOut, len(group))
		var wg sync.WaitGroup
		for j, v := range group {
			wg.Add(1)
			go func(j int, v string) {
				defer wg.Done()
				if emulated(v) {
					outs[j] = runGuest(bin, prop, tier, v, share, nil)
					return
				}
				outs[j] = runChild(bin, prop, tier, v, share)
			}(j, v)
		}
		wg.Wait()
		for j := range outs {
			o := &outs[j]
			if o.err != nil {
				fmt.Fprintln(os.Stderr, o.err)
				return 2
			}
			if o.failure != nil {
				failure = o.failure
				continue
			}
			if o.note != "" {
				fmt.Print(o.note)
				incomplete = true
				continue
			}
			for k := range o.results {
				if o.results[k].Failure != nil {
					failure = o.results[k].Failure
				}
			}
			results = mergeResults(results, o.results)
		}
		if failure != nil {
			break
		}
	}
	known := map[string]int64{}
	for _, r := range results {
		for k, n := range r.Known {
			known[k] += n
		}
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; seen in %d executions)\n", prop, k, knownFindings[prop+"/"+k], known[k])
	}
	nviol := 0
	if failure != nil {
		nviol = 1
		report(failure)
	}
	writeEvidence(filepath.Join(evDir, prop+".json"), prop, tier, seedVal, results, known, nviol, incomplete, extraAssumptions, time.Since(t0).Seconds())
	for _, r := range results {
		fmt.Printf("%s/%s%s: %d executions, %d states, %d calls, %d cases, bound %d, exhaustive=%v, %.1fs\n", prop, r.Name, tagged(r.Variant), r.Executions, r.States, r.Steps, r.Evals, r.Bound, r.Exhaustive, r.Wall)
	}
	if failure != nil {
		return 1
	}
	return 0
}

// childOut is the outcome of an exploring child process.
type childOut struct {
	results []FamilyResult
	failure *Failure
	note    string
	err     error
}

func runChild(bin, prop, tier, v string, share float64) (o childOut) {
	resFile := filepath.Join(*flagTmp, "res-"+v)
	args := []string{"-child", resFile, "-prop", prop, "-tier", tier, "-variant", v, "-verif", *flagVerif, "-repo", *flagRepo, "-tmp", *flagTmp,
		"-budget", fmt.Sprintf("%.1f", share), "-family", *flagFamily}
	exit, to, out := runCmd(time.Duration(share+stallLimit.Seconds()+60)*time.Second, bin, args...)
	if strings.Contains(out, "WARNING: DATA RACE") {
		o.failure = &Failure{Property: prop, Variant: v, Tier: tier, Message: "data race:\n" + out}
		return
	}
	b, err := os.ReadFile(resFile)
	if exit != 0 || to || err != nil {
		if o.failure = crashed(bin, prop, tier, v, resFile+".slots", out, exit); o.failure == nil {
			o.note = fmt.Sprintf("NOTE: exploration of variant %q ended early (exit %d, timeout %v):\n%s\n", v, exit, to, out)
		}
		return
	}
	o.err = json.Unmarshal(b, &o.results)
	return
}

// mergeResults adds the results of a shard to those of the other shards.
func mergeResults(all, rs []FamilyResult) []FamilyResult {
next:
	for _, r := range rs {
		if base := baseVariant(r.Variant); base != r.Variant {
			r.Name = strings.TrimSuffix(r.Name, r.Variant)
			r.Variant = base
			for i := range all {
				a := &all[i]
				if a.Name != r.Name || a.Variant != base {
					continue
				}
				a.Executions += r.Executions
				a.States += r.States
				a.Steps += r.Steps
				a.Evals += r.Evals
				a.Points += r.Points
				if r.MaxTrace > a.MaxTrace {
					a.MaxTrace = r.MaxTrace
				}
				if r.Wall > a.Wall {
					a.Wall = r.Wall
				}
				a.Exhaustive = a.Exhaustive && r.Exhaustive
				a.Samples = append(a.Samples, r.Samples...)
				continue next
			}
		}
		all = append(all, r)
	}
	return all
}

func tagged(v string) string {
	if v == "" {
		return ""
	}
	return "[" + v + "]"
}

func writeEvidence(path, prop, tier string, seedVal int, rs []FamilyResult, known map[string]int64, nviol int, incomplete bool, assumptions []string, wall float64) {
	var states, steps, execs, evals int64
	ex := !incomplete && nviol == 0
	var samples []string
	var fams []map[string]interface{}
	for _, r := range rs {
		states += r.States
		steps += r.Steps
		execs += r.Executions
		evals += r.Evals
		ex = ex && r.Exhaustive
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, s)
			}
		}
		fams = append(fams, map[string]interface{}{"family": r.Name, "variant": r.Variant, "executions": r.Executions, "states": r.States,
			"calls": r.Steps, "cases": r.Evals, "choice_points": r.Points, "longest_choice_list": r.MaxTrace, "deviation_bound": r.Bound, "exhaustive": r.Exhaustive, "wall_s": r.Wall})
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	level := "model_checking"
	cov := map[string]interface{}{"exhaustive": ex, "families": fams, "samples": samples}
	if p, ok := faultLevel[prop]; ok {
		level = "fault_enumeration"
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = states
		cov["rule"] = p
		cov["calls_checked"] = steps
	} else {
		cov["states"] = states
		cov["transitions"] = steps
		cov["traces_validated_against_impl"] = execs
		cov["cases_compared_with_reference"] = evals
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seedVal, "level": level, "coverage": cov,
		"assumptions": append(append([]string{}, assumptionsOf(prop)...), assumptions...), "wall_s": wall, "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
}
