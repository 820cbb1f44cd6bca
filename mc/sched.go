//go:build sched

// P18: exploration of all interleavings of concurrent operations, with a
// yield point before every statement of the packages, up to a bound on the
// number of preemptions.

package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/gogama/flatgeobuf/flatgeobuf"
	"github.com/gogama/flatgeobuf/packedrtree"
)

func init() {
	for i := 0; i < schedShards; i++ {
		v := schedVariant(i)
		register(&Family{Prop: "P18", Name: "schedules-pairs" + v, Variant: v, Serial: true, Yields: true, Quick: 1, Thorough: 2, Run: func(c *Ctx) { schedPairs(c) }})
		register(&Family{Prop: "P18", Name: "schedules-same" + v, Variant: v, Serial: true, Yields: true, Quick: 2, Thorough: 3, Run: func(c *Ctx) { schedSame(c) }})
		register(&Family{Prop: "P18", Name: "schedules-triples" + v, Variant: v, Serial: true, Yields: true, Quick: 1, Thorough: 1, Run: func(c *Ctx) { schedTriples(c) }})
		v = "schedbe" + v[len("sched"):]
		register(&Family{Prop: "P18", Name: "schedules-bigendian" + v, Variant: v, Serial: true, Yields: true, Quick: 1, Thorough: 2, Run: func(c *Ctx) { schedBigEndian(c) }})
	}
	packedrtree.VerifYield = yield
	flatgeobuf.VerifYield = yield
}

func shard() (int, int) {
	i := strings.IndexByte(*flagVar, '#')
	n, _ := strconv.Atoi((*flagVar)[i+1:])
	return n, schedShards
}

// mine tells whether the shard explores the executions which are preempted
// at this point first.
func mine(k int) bool {
	i, n := shard()
	return k%n == i
}

type sthread struct {
	resume chan struct{}
	done   bool
	out    string
	crash  interface{}
}

type scheduler struct {
	c        *Ctx
	threads  []*sthread
	cur      int
	yields   atomic.Int64
	free     atomic.Bool
	finished chan struct{}
	points   int
}

var active atomic.Pointer[scheduler]

func yield() {
	s := active.Load()
	if s == nil || s.free.Load() {
		return
	}
	s.yields.Add(1)
	var others []int
	for i, t := range s.threads {
		if i != s.cur && !t.done {
			others = append(others, i)
		}
	}
	if len(others) == 0 {
		return
	}
	s.points++
	if s.c.devs == 0 && !mine(s.points) {
		return // another shard preempts here first
	}
	k := s.c.Dev("preempt", len(others)+1)
	if k == 0 || s.free.Load() {
		return
	}
	me := s.threads[s.cur]
	s.cur = others[k-1]
	s.threads[s.cur].resume <- struct{}{}
	<-me.resume
}

// release lets all threads run freely.
func (s *scheduler) release() {
	s.free.Store(true)
	for _, t := range s.threads {
		select {
		case t.resume <- struct{}{}:
		default:
		}
	}
}

// allWait tells if all threads wait for something, i.e. none of them is just
// not getting any processor time.
func allWait() bool {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if !strings.Contains(g, "main.schedRun.func1(") {
			continue
		}
		state := g[strings.IndexByte(g, '[')+1:]
		wait := false
		for _, w := range []string{"chan", "select", "sync.", "semacquire", "sleep", "IO wait"} {
			wait = wait || strings.HasPrefix(state, w)
		}
		if !wait {
			return false
		}
	}
	return true
}

// schedRun runs operations under the explorer's schedule.
func schedRun(c *Ctx, ops []int, n, ns int) {
	f := c.concFile(n, ns)
	e := newConcEnv(f.f, f.raw)
	s := &scheduler{c: c, finished: make(chan struct{}, len(ops))}
	for i, o := range ops {
		t := &sthread{resume: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		go func(i, o int) {
			<-t.resume
			defer func() {
				t.crash = recover()
				t.done = true
				if t.crash != nil {
					s.release()
				}
				if !s.free.Load() {
					// Hand over to another thread.
					var rest []int
					for j, u := range s.threads {
						if !u.done {
							rest = append(rest, j)
						}
					}
					if len(rest) > 0 {
						func() {
							defer func() {
								if r := recover(); r != nil {
									t.crash = r
									s.release()
								}
							}()
							s.cur = rest[c.Choose("next", len(rest))]
							s.threads[s.cur].resume <- struct{}{}
						}()
					}
				}
				s.finished <- struct{}{}
			}()
			t.out = concOps[o].run(e)
		}(i, o)
	}
	s.cur = c.Choose("first", len(ops))
	active.Store(s)
	s.threads[s.cur].resume <- struct{}{}
	last := int64(-1)
	stalled := 0
	for left := len(ops); left > 0; {
		timer := time.NewTimer(100 * time.Millisecond)
		select {
		case <-s.finished:
			left--
		case <-timer.C:
			// If there is no progress because the running thread waits for
			// one that is not scheduled (for a lock), let all run.
			if y := s.yields.Load(); y == last && !s.free.Load() && allWait() {
				if stalled++; stalled >= 3 {
					s.release()
				}
			} else {
				last, stalled = y, 0
			}
		}
		timer.Stop()
	}
	active.Store(nil)
	for i, o := range ops {
		t := s.threads[i]
		if t.crash != nil {
			if v, ok := t.crash.(violation); ok {
				panic(v)
			}
			c.Fail("%s, in a schedule of %s: panic: %v", concOps[o].name, opNames(ops), t.crash)
		}
		c.Check(t.out == f.alone[o], "%s, in a schedule of %s: got %.300s, alone %.300s", concOps[o].name, opNames(ops), t.out, f.alone[o])
	}
	c.Step(s.points)
	c.Eval(len(ops))
	c.Logf("%s: %d yield points", opNames(ops), s.points)
}

// schedPairs: every pair of operations under the controlled scheduler.
func schedPairs(c *Ctx) {
	a := c.Choose("operation", len(concOps))
	b := a + c.Choose("operation", len(concOps)-a)
	if concOps[a].exclusive && concOps[b].exclusive {
		c.Stop()
	}
	schedRun(c, []int{a, b}, 3, 2)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// schedSame: two runs of the same operation, deeper.
func schedSame(c *Ctx) {
	a := c.Choose("operation", len(concOps))
	if concOps[a].exclusive || strings.HasSuffix(concOps[a].name, "(other)") && !c.thorough {
		c.Stop()
	}
	schedRun(c, []int{a, a}, 3, 2)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// schedTriples: three runs of one operation, or of two.
func schedTriples(c *Ctx) {
	a := c.Choose("operation", len(concOps))
	b := a
	if c.thorough {
		b = c.Choose("operation", len(concOps))
	}
	if concOps[a].exclusive || concOps[b].exclusive {
		c.Stop()
	}
	schedRun(c, []int{a, b, a}, 3, 2)
	c.StateStr(fmt.Sprint(values(c.trace)))
}

// schedBigEndian: pairs of operations on an index, with the code for
// big-endian hosts compiled in.
func schedBigEndian(c *Ctx) {
	var ops []int
	for i, o := range concOps {
		switch o.name {
		case "Marshal", "Unmarshal", "Seek", "Marshal (other)", "Unmarshal (other)", "Seek (other)":
			ops = append(ops, i)
		case "Search", "IndexSearch (seekable)", "Index and Data":
			if c.thorough {
				ops = append(ops, i)
			}
		}
	}
	i := c.Choose("operation", len(ops))
	j := i + c.Choose("operation", len(ops)-i)
	schedRun(c, []int{ops[i], ops[j]}, 3, 2)
	c.StateStr(fmt.Sprint(values(c.trace)))
}
