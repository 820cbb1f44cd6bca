// The exploration engine: enumerates every choice sequence of a family.

package main

import (
	"fmt"
	"hash/maphash"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Family is a closed driver whose executions are enumerated exhaustively.
type Family struct {
	Prop    string // property id
	Name    string // unique name
	Variant string // build variant ("" is the host build)
	// Choices are made at statements, not only at calls. Which are executed
	// may depend on what was before (something initialized only once, pools
	// of buffers), so that an execution may not follow its prefix. It is
	// checked, but the exploration does not count as exhaustive.
	Yields bool
	// Quick and Thorough bound the number of deviations (nonzero Dev
	// choices) per execution in the respective tier.
	Quick, Thorough int
	ThoroughOnly    bool
	// Rich families use streams with all the optional methods of streams.
	Rich bool
	// Small families explore reduced bounds (slow hosts).
	Small bool
	// Serial families manage their own concurrency and run on one worker.
	Serial bool
	Run    func(c *Ctx)
	// Custom replaces the choice explorer (e.g. explicit-state search).
	Custom func(x *Exploration)
}

var families []*Family

func register(f *Family) {
	for _, g := range families {
		if g.Name == f.Name {
			panic("duplicate family " + f.Name)
		}
	}
	families = append(families, f)
}

type violation struct{ msg string }

type stopRun struct{}

// point is one decision of an execution.
type point struct {
	label string
	n, v  int
}

// Ctx is one execution.
type Ctx struct {
	x        *Exploration
	prefix   []int
	trace    []point
	devs     int
	maxDevs  int
	slot     *slot
	verbose  bool
	log      []string
	steps    int64
	evals    int64
	thorough bool
	small    bool
	product  int  // alternatives seen so far, until the shard is decided
	skip     bool // left to another shard
	diverged bool // did not follow the prefix
	scratch  map[string]interface{}
}

func (c *Ctx) pick(label string, n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness error: no alternatives at %s", label))
	}
	i := len(c.trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n && c.x.fam.Yields {
			c.diverged = true
			v = 0
		} else if v >= n {
			panic(violation{fmt.Sprintf("execution diverged while replaying: choice %d at %q has %d alternatives, expected more than %d (hidden state shared between executions)", i, label, n, v)})
		}
	}
	c.trace = append(c.trace, point{label, n, v})
	if shardCount > 1 && !c.verbose && c.product < shardCount {
		if c.product == 0 {
			c.product = 1
		}
		c.product *= n
		if c.product >= shardCount || len(c.trace) == 3 {
			c.product = shardCount
			h := 0
			for _, p := range c.trace {
				h = h*p.n + p.v
			}
			if h%shardCount != shardIndex {
				c.skip = true
				panic(stopRun{})
			}
		}
	}
	if c.slot != nil {
		c.slot.put(i, v)
	}
	return v
}

// Choose asks for a free choice among n alternatives.
func (c *Ctx) Choose(label string, n int) int {
	if n == 1 {
		return 0
	}
	return c.pick(label, n)
}

// Dev asks for a choice where 0 is the default and others cost one deviation.
func (c *Ctx) Dev(label string, n int) int {
	if n == 1 || c.devs >= c.maxDevs {
		return 0
	}
	v := c.pick(label, n)
	if v > 0 {
		c.devs++
	}
	return v
}

// Bool is a two-way free choice.
func (c *Ctx) Bool(label string) bool { return c.Choose(label, 2) == 1 }

// Step counts checked API calls (transitions).
func (c *Ctx) Step(n int) { c.steps += int64(n) }

// Eval counts individual comparisons with the oracle (cases).
func (c *Ctx) Eval(n int) { c.evals += int64(n) }

// Fail reports a violation.
func (c *Ctx) Fail(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (c *Ctx) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		c.Fail(format, a...)
	}
}

// Known reports a failure which the known-findings file may list.
func (c *Ctx) Known(id string, format string, a ...interface{}) {
	if c.x.fam.Prop == "P20" {
		// Listed for the property which the family borrows.
		for k := range knownFindings {
			if strings.HasSuffix(k, "/"+id) {
				return
			}
		}
	}
	if _, ok := knownFindings[c.x.fam.Prop+"/"+id]; ok {
		c.x.known(id)
		return
	}
	c.Fail(format, a...)
}

// Stop ends the execution early without a violation.
func (c *Ctx) Stop() { panic(stopRun{}) }

// Logf records a line of the execution for replays and samples.
func (c *Ctx) Logf(format string, a ...interface{}) {
	if c.verbose {
		c.log = append(c.log, fmt.Sprintf(format, a...))
	}
}

// The executions of some variants are split over processes.
var shardCount, shardIndex = 1, 0

var seed = maphash.MakeSeed()

// State records that a (hashed) state or outcome was observed.
func (c *Ctx) State(h uint64) { c.x.states.add(h) }

// StateStr records a state by its description.
func (c *Ctx) StateStr(s string) { c.x.states.add(maphash.String(seed, s)) }

// StateBytes records a state by its bytes.
func (c *Ctx) StateBytes(b []byte) { c.x.states.add(maphash.Bytes(seed, b)) }

// stateSet counts distinct hashes, up to a cap.
type stateSet struct {
	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	n   atomic.Int64
	cap int64
}

func newStateSet() *stateSet {
	s := &stateSet{cap: 6e6}
	for i := range s.shards {
		s.shards[i].m = map[uint64]struct{}{}
	}
	return s
}

func (s *stateSet) add(h uint64) bool {
	sh := &s.shards[h>>58]
	sh.Lock()
	defer sh.Unlock()
	if _, ok := sh.m[h]; ok {
		return false
	}
	if s.n.Load() >= s.cap {
		return false
	}
	s.n.Add(1)
	sh.m[h] = struct{}{}
	return true
}

// Failure describes a violating execution.
type Failure struct {
	Property   string   `json:"property"`
	Family     string   `json:"family"`
	Variant    string   `json:"variant"`
	Tier       string   `json:"tier"`
	Choices    []int    `json:"choices"`
	Labels     []string `json:"labels"`
	Message    string   `json:"message"`
	Log        []string `json:"log,omitempty"`
	Reproduced string   `json:"reproduced,omitempty"`
}

// Exploration is the run of one family.
type Exploration struct {
	fam        *Family
	thorough   bool
	deadline   time.Time
	states     *stateSet
	execs      atomic.Int64
	steps      atomic.Int64
	evals      atomic.Int64
	points     atomic.Int64
	maxTrace   atomic.Int64
	exhaustive bool
	diverged   atomic.Int64
	failure    *Failure
	samples    []string
	knownMu    sync.Mutex
	knownIDs   map[string]int64
	shared     sync.Map // caches shared by the executions
	stop       int32
	mu         sync.Mutex
	cond       *sync.Cond
	queue      [][]int
	idle       int
	workers    int
}

func (x *Exploration) known(id string) {
	x.knownMu.Lock()
	x.knownIDs[id]++
	x.knownMu.Unlock()
}

func (x *Exploration) stopped() bool { return atomic.LoadInt32(&x.stop) != 0 }

func (x *Exploration) timeUp() bool { return time.Now().After(x.deadline) }

// runOne executes one choice sequence and returns the failure message.
func (x *Exploration) runOne(c *Ctx) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case violation:
				msg = v.msg
			case stopRun:
			default:
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}
	}()
	x.fam.Run(c)
	if len(c.trace) < len(c.prefix) && c.x.fam.Yields {
		c.diverged = true
	} else if len(c.trace) < len(c.prefix) && !c.skip {
		return fmt.Sprintf("execution diverged while replaying: only %d of %d choices were made (hidden state shared between executions)", len(c.trace), len(c.prefix))
	}
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	// Drop the frames of the recovery itself.
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			if i+2 < len(lines) {
				lines = lines[i+2:]
			}
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (x *Exploration) newCtx(prefix []int, sl *slot) *Ctx {
	c := &Ctx{x: x, prefix: prefix, slot: sl, thorough: x.thorough && !x.fam.Small, small: x.fam.Small}
	c.maxDevs = x.fam.Quick
	if x.thorough {
		c.maxDevs = x.fam.Thorough
	}
	if sl != nil {
		sl.begin()
	}
	return c
}

func values(t []point) []int {
	r := make([]int, len(t))
	for i := range t {
		r[i] = t[i].v
	}
	return r
}

func labels(t []point) []string {
	r := make([]string, len(t))
	for i := range t {
		r[i] = fmt.Sprintf("%s=%d/%d", t[i].label, t[i].v, t[i].n)
	}
	return r
}

func (x *Exploration) fail(c *Ctx, msg string) {
	choices := values(c.trace)
	if len(c.prefix) > len(choices) {
		choices = append([]int{}, c.prefix...)
	}
	f := &Failure{Property: x.fam.Prop, Family: x.fam.Name, Variant: x.fam.Variant, Tier: tierName(x.thorough),
		Choices: choices, Labels: labels(c.trace), Message: msg}
	// Re-execute: the same schedule must fail every time.
	n := 0
	for i := 0; i < 5; i++ {
		d := x.newCtx(choices, c.slot)
		d.verbose = true
		if m := x.runOne(d); m != "" {
			n++
			f.Log = d.log
		}
	}
	f.Reproduced = fmt.Sprintf("%d/5", n)
	if n == 0 {
		f.Message += "\n(not reproduced when the execution was repeated: the outcome depends on state shared with other executions)"
	}
	x.mu.Lock()
	if x.failure == nil || len(f.Choices) < len(x.failure.Choices) {
		x.failure = f
	}
	x.mu.Unlock()
	atomic.StoreInt32(&x.stop, 1)
	x.cond.Broadcast()
}

func (x *Exploration) account(c *Ctx) {
	n := x.execs.Add(1)
	x.steps.Add(c.steps)
	x.evals.Add(c.evals)
	x.points.Add(int64(len(c.trace)))
	for {
		m := x.maxTrace.Load()
		if int64(len(c.trace)) <= m || x.maxTrace.CompareAndSwap(m, int64(len(c.trace))) {
			break
		}
	}
	if n == 1 || n == 100 {
		x.sample(c)
	}
}

// sample repeats an execution verbosely and keeps its description.
func (x *Exploration) sample(c *Ctx) {
	d := c
	if !*flagGuest {
		d = x.newCtx(values(c.trace), nil)
		d.verbose = true
		_ = x.runOne(d)
	}
	s := x.fam.Name + ": " + strings.Join(labels(d.trace), " ")
	if len(d.log) > 0 {
		l := d.log
		if len(l) > 12 {
			l = l[:12]
		}
		s += " | " + strings.Join(l, "; ")
	}
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	x.mu.Lock()
	x.samples = append(x.samples, s)
	x.mu.Unlock()
}

func (x *Exploration) worker(sl *slot) {
	for {
		x.mu.Lock()
		for len(x.queue) == 0 {
			x.idle++
			if x.idle == x.workers || x.stopped() {
				atomic.CompareAndSwapInt32(&x.stop, 0, 2)
				x.cond.Broadcast()
				x.mu.Unlock()
				return
			}
			x.cond.Wait()
			if x.stopped() {
				x.mu.Unlock()
				return
			}
			x.idle--
		}
		p := x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		x.mu.Unlock()
		x.subtree(p, sl)
		sl.end()
		if x.stopped() {
			x.cond.Broadcast()
			return
		}
	}
}

func (x *Exploration) subtree(p []int, sl *slot) {
	base := len(p)
	seq := p
	for {
		if s := atomic.LoadInt32(&x.stop); s == 1 || s == 3 {
			return
		}
		if x.timeUp() {
			atomic.StoreInt32(&x.stop, 3)
			x.cond.Broadcast()
			return
		}
		c := x.newCtx(seq, sl)
		if msg := x.runOne(c); msg != "" {
			x.fail(c, msg)
			return
		}
		if !c.skip {
			x.account(c)
		}
		if c.diverged {
			x.diverged.Add(1)
		}
		t := c.trace
		// Donate the alternatives of the shallowest open point.
		x.mu.Lock()
		if x.idle > len(x.queue) {
			for i := base; i < len(t); i++ {
				if t[i].v+1 < t[i].n {
					for v := t[i].n - 1; v > t[i].v; v-- {
						x.queue = append(x.queue, append(values(t[:i]), v))
					}
					base = i + 1
					x.cond.Broadcast()
					break
				}
			}
		}
		x.mu.Unlock()
		// Odometer step.
		j := len(t) - 1
		for j >= base && t[j].v+1 >= t[j].n {
			j--
		}
		if j < base {
			return
		}
		seq = append(values(t[:j]), t[j].v+1)
	}
}

// explore runs the family to completion or until the deadline.
func explore(f *Family, thorough bool, deadline time.Time) *Exploration {
	x := &Exploration{fam: f, thorough: thorough, deadline: deadline, states: newStateSet(), knownIDs: map[string]int64{}}
	x.cond = sync.NewCond(&x.mu)
	richStreams = f.Rich
	x.workers = runtime.GOMAXPROCS(0)
	if f.Serial {
		x.workers = 1
	}
	if f.Custom != nil {
		f.Custom(x)
		return x
	}
	x.queue = [][]int{{}}
	var wg sync.WaitGroup
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(slots[i])
			slots[i].end()
		}(i)
	}
	wg.Wait()
	x.exhaustive = x.failure == nil && atomic.LoadInt32(&x.stop) == 2 && x.diverged.Load() == 0
	return x
}

func tierName(thorough bool) string {
	if thorough {
		return "thorough"
	}
	return "quick"
}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
