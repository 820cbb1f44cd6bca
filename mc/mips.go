// A user-mode emulator for static big-endian 32-bit MIPS Linux programs built
// by the Go toolchain. It lets the checker run itself, with the packages'
// big-endian code, on this little-endian machine. Execution is deterministic:
// threads are interleaved by instruction count and the clock counts
// instructions.

package main

import (
	"bytes"
	"debug/elf"
	"fmt"
	"math"
	"math/bits"
	"os"
	"time"
)

type mpage [1024]uint32

type mthread struct {
	r       [32]uint32
	f       [32]uint32
	hi, lo  uint32
	pc, npc uint32
	fcc     uint32 // condition bits
	fcsr    uint32
	ll      bool
	id      uint32
	state   int // 0 running, 1 futex, 2 sleeping, 3 epoll, 4 dead
	futex   uint32
	until   int64 // virtual ns; -1 none
	evBuf   uint32
}

const (
	tRun = iota
	tFutex
	tSleep
	tPoll
	tDead
)

type mips struct {
	pages    [1 << 20]*mpage
	mapped   [1 << 20]bool
	threads  []*mthread
	cur      *mthread
	insns    int64
	skew     int64 // idle time added to the clock
	brk      uint32
	nextMap  uint32
	out      bytes.Buffer
	exited   bool
	exitCode int
	event    bool // eventfd has been written
	evData   [2]uint32
	hasEvent bool
	rnd      uint64
	fault    string
	deadline time.Time
	leap     time.Time // when the guest's clock leaps past its own deadline
	usedMem  int
}

const mipsNsPerInsn = 10

func (m *mips) now() int64 { return m.insns*mipsNsPerInsn + m.skew }

func (m *mips) fail(format string, a ...interface{}) {
	if m.fault == "" {
		pc := uint32(0)
		if m.cur != nil {
			pc = m.cur.pc
		}
		m.fault = fmt.Sprintf("pc %08x: ", pc) + fmt.Sprintf(format, a...)
	}
	m.exited = true
	m.exitCode = 99
}

func (m *mips) page(a uint32) *mpage {
	p := m.pages[a>>12]
	if p == nil {
		if a < 0x10000 || !m.mapped[a>>12] {
			m.fail("access to unmapped address %08x", a)
			return &mpage{}
		}
		p = new(mpage)
		m.pages[a>>12] = p
		m.usedMem += 4096
		if m.usedMem > 3<<29 {
			m.fail("guest uses more than 1.5 GB")
		}
	}
	return p
}

func (m *mips) lw(a uint32) uint32 {
	if p := m.pages[a>>12]; p != nil && a&3 == 0 {
		return p[a>>2&1023]
	}
	if a&3 != 0 {
		m.fail("unaligned load at %08x", a)
	}
	return m.page(a)[a>>2&1023]
}

func (m *mips) sw(a, v uint32) {
	if a&3 != 0 {
		m.fail("unaligned store at %08x", a)
	}
	m.page(a)[a>>2&1023] = v
}

func (m *mips) lb(a uint32) uint32 { return m.page(a)[a>>2&1023] >> (24 - 8*(a&3)) & 255 }

func (m *mips) sb(a, v uint32) {
	p := &m.page(a)[a>>2&1023]
	s := 24 - 8*(a&3)
	*p = *p&^(255<<s) | (v&255)<<s
}

func (m *mips) lh(a uint32) uint32 {
	if a&1 != 0 {
		m.fail("unaligned load at %08x", a)
	}
	return m.page(a)[a>>2&1023] >> (16 - 8*(a&2)) & 0xffff
}

func (m *mips) sh(a, v uint32) {
	if a&1 != 0 {
		m.fail("unaligned store at %08x", a)
	}
	p := &m.page(a)[a>>2&1023]
	s := 16 - 8*(a&2)
	*p = *p&^(0xffff<<s) | (v&0xffff)<<s
}

func (m *mips) readBytes(a, n uint32) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(m.lb(a + uint32(i)))
	}
	return b
}

func (m *mips) writeBytes(a uint32, b []byte) {
	for i := range b {
		m.sb(a+uint32(i), uint32(b[i]))
	}
}

func (m *mips) mapRange(a, n uint32, on bool) {
	for p := a >> 12; p < (a+n+4095)>>12; p++ {
		m.mapped[p] = on
		if m.pages[p] != nil && !on {
			m.usedMem -= 4096
			m.pages[p] = nil
		}
	}
}

func newMips(file string, args, env []string) (*mips, error) {
	f, err := elf.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.Machine != elf.EM_MIPS || f.Data != elf.ELFDATA2MSB || f.Class != elf.ELFCLASS32 {
		return nil, fmt.Errorf("%s is not a 32-bit big-endian MIPS program", file)
	}
	m := &mips{nextMap: 0x40000000, rnd: 0x9e3779b97f4a7c15}
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		b := make([]byte, p.Filesz)
		if _, err = p.ReadAt(b, 0); err != nil {
			return nil, err
		}
		m.mapRange(uint32(p.Vaddr)&^4095, uint32(p.Memsz)+uint32(p.Vaddr)&4095, true)
		m.writeBytes(uint32(p.Vaddr), b)
		if e := uint32(p.Vaddr + p.Memsz); e > m.brk {
			m.brk = (e + 4095) &^ 4095
		}
	}
	// The stack: argc, argv, envp, auxv, strings.
	const top = 0x7fff0000
	m.mapRange(top-8<<20, 8<<20, true)
	sp := uint32(top - 64<<10)
	str := uint32(top - 32<<10)
	put := func(s string) uint32 {
		a := str
		m.writeBytes(a, append([]byte(s), 0))
		str += uint32(len(s)) + 1
		return a
	}
	w := []uint32{uint32(len(args))}
	for _, s := range args {
		w = append(w, put(s))
	}
	w = append(w, 0)
	for _, s := range env {
		w = append(w, put(s))
	}
	w = append(w, 0)
	str = (str + 15) &^ 15
	w = append(w, 6, 4096, 25, str, 0, 0) // AT_PAGESZ, AT_RANDOM
	m.writeBytes(str, []byte("deterministic!!!"))
	for i, v := range w {
		m.sw(sp+uint32(4*i), v)
	}
	t := &mthread{id: 1000, until: -1}
	t.r[29] = sp
	t.pc = uint32(f.Entry)
	t.npc = t.pc + 4
	m.threads = []*mthread{t}
	return m, nil
}

// run executes until the program exits.
func (m *mips) run() {
	const quantum = 50000
	next := 0
	slices := 0
	for !m.exited {
		if slices++; slices%256 == 0 && !m.deadline.IsZero() {
			t := time.Now()
			if t.After(m.deadline) {
				m.fail("time is up")
				return
			}
			if !m.leap.IsZero() && t.After(m.leap) {
				m.leap = time.Time{}
				m.skew += 1e14
			}
		}
		// Wake sleepers.
		now := m.now()
		ran := false
		for k := 0; k < len(m.threads); k++ {
			t := m.threads[(next+k)%len(m.threads)]
			if t.state != tRun && t.state != tDead && t.until >= 0 && now >= t.until {
				m.wake(t, true)
			}
			if t.state == tPoll && m.event {
				m.wake(t, false)
			}
			if t.state == tRun && !ran {
				ran = true
				next = (next + k + 1) % len(m.threads)
				m.cur = t
				t.ll = false
				m.exec(t, quantum)
				break
			}
		}
		if !ran {
			// Everyone waits: advance the clock.
			first := int64(-1)
			for _, t := range m.threads {
				if t.state != tDead && t.until >= 0 && (first < 0 || t.until < first) {
					first = t.until
				}
			}
			if first < 0 {
				m.fail("guest deadlock")
				return
			}
			if first > now {
				m.skew += first - now
			}
		}
		if len(m.threads) > 64 {
			live := m.threads[:0]
			for _, t := range m.threads {
				if t.state != tDead {
					live = append(live, t)
				}
			}
			m.threads = live
			next = 0
		}
	}
}

// wake ends a blocking system call.
func (m *mips) wake(t *mthread, timeout bool) {
	switch t.state {
	case tFutex:
		if timeout {
			t.r[2], t.r[7] = 145, 1 // ETIMEDOUT
		} else {
			t.r[2], t.r[7] = 0, 0
		}
	case tSleep:
		t.r[2], t.r[7] = 0, 0
	case tPoll:
		t.r[2], t.r[7] = 0, 0
		if !timeout && m.hasEvent {
			// struct epoll_event on MIPS: events, padding, 64-bit data.
			m.sw(t.evBuf, 1)
			m.sw(t.evBuf+4, 0)
			m.sw(t.evBuf+8, m.evData[0])
			m.sw(t.evBuf+12, m.evData[1])
			t.r[2] = 1
		}
	}
	t.state = tRun
	t.until = -1
}

func (m *mips) timespec(a uint32, wide bool) int64 {
	if wide {
		sec := int64(m.lw(a))<<32 | int64(m.lw(a+4))
		return sec*1e9 + int64(m.lw(a+12))
	}
	return int64(int32(m.lw(a)))*1e9 + int64(m.lw(a+4))
}

func (m *mips) syscall(t *mthread) (yield bool) {
	a := t.r[4:8]
	ret := func(v uint32) { t.r[2], t.r[7] = v, 0 }
	bad := func(errno uint32) { t.r[2], t.r[7] = errno, 1 }
	switch n := t.r[2]; n {
	case 4001: // exit
		t.state = tDead
		return true
	case 4246: // exit_group
		m.exited = true
		m.exitCode = int(a[0])
		return true
	case 4003: // read
		if a[0] == 101 {
			if !m.event {
				bad(11)
				return
			}
			m.event = false
			m.sw(a[1], 0)
			m.sw(a[1]+4, 1)
			ret(8)
			return
		}
		ret(0)
	case 4004: // write
		if a[0] == 101 {
			m.event = true
			ret(8)
			return
		}
		m.out.Write(m.readBytes(a[1], a[2]))
		if m.out.Len() > 64<<20 {
			m.fail("too much output")
		}
		ret(a[2])
	case 4005, 4288: // open, openat
		bad(2)
	case 4006: // close
		ret(0)
	case 4020, 4222: // getpid, gettid
		ret(t.id)
	case 4045: // brk
		ret(m.brk)
	case 4055, 4220: // fcntl, fcntl64
		ret(2)
	case 4090, 4210: // mmap
		size := (a[1] + 4095) &^ 4095
		flags := a[3]
		at := a[0]
		if flags&0x10 == 0 { // not MAP_FIXED
			ok := at != 0 && at&4095 == 0 && at >= 0x10000 && uint64(at)+uint64(size) <= 0x7f000000
			for p := at >> 12; ok && p < (at+size)>>12; p++ {
				ok = !m.mapped[p]
			}
			if !ok {
				for {
					at = m.nextMap
					if uint64(at)+uint64(size) > 0x7f000000 {
						bad(12)
						return
					}
					free := true
					for p := at >> 12; p < (at+size)>>12; p++ {
						if m.mapped[p] {
							free = false
							m.nextMap = (p + 1) << 12
							break
						}
					}
					if free {
						m.nextMap = at + size
						break
					}
				}
			}
			m.mapRange(at, size, true)
		} else {
			// A fixed mapping replaces what is there with zeros.
			m.mapRange(at, size, false)
			m.mapRange(at, size, true)
		}
		ret(at)
	case 4091: // munmap
		m.mapRange(a[0], a[1], false)
		if a[0] < m.nextMap && a[0] >= 0x40000000 {
			m.nextMap = a[0] &^ 4095
		}
		ret(0)
	case 4125: // mprotect
		ret(0)
	case 4217: // mincore
		bad(38)
	case 4218: // madvise
		if a[2] == 4 { // MADV_DONTNEED
			for p := a[0] >> 12; p < (a[0]+a[1])>>12; p++ {
				if m.pages[p] != nil {
					m.pages[p] = nil
					m.usedMem -= 4096
				}
			}
		}
		ret(0)
	case 4120: // clone
		c := *t
		c.id = 1000 + uint32(len(m.threads)) + uint32(m.insns&0xffff)*64
		c.r[29] = a[1]
		c.r[2], c.r[7] = 0, 0
		c.pc, c.npc = t.npc, t.npc+4
		m.threads = append(m.threads, &c)
		ret(c.id)
	case 4162: // sched_yield
		ret(0)
		return true
	case 4166: // nanosleep
		t.until = m.now() + m.timespec(a[0], false)
		t.state = tSleep
		return true
	case 4407, 4265: // clock_nanosleep
		t.until = m.now() + m.timespec(a[2], n == 4407)
		t.state = tSleep
		return true
	case 4238, 4422: // futex
		switch a[1] & 127 {
		case 0:
			if m.lw(a[0]) != a[2] {
				bad(11)
				return
			}
			t.futex = a[0]
			t.until = -1
			if a[3] != 0 {
				t.until = m.now() + m.timespec(a[3], n == 4422)
			}
			t.state = tFutex
			return true
		case 1:
			woken := uint32(0)
			for _, u := range m.threads {
				if u.state == tFutex && u.futex == a[0] && woken < a[2] {
					m.wake(u, false)
					woken++
				}
			}
			ret(woken)
		default:
			bad(89)
		}
	case 4263, 4403: // clock_gettime
		ns := m.now()
		if a[0] == 0 {
			ns += 1700000000 * 1e9
		}
		if n == 4403 {
			m.sw(a[1], 0)
			m.sw(a[1]+4, uint32(ns/1e9))
			m.sw(a[1]+8, 0)
			m.sw(a[1]+12, uint32(ns%1e9))
		} else {
			m.sw(a[1], uint32(ns/1e9))
			m.sw(a[1]+4, uint32(ns%1e9))
		}
		ret(0)
	case 4194: // rt_sigaction
		if a[2] != 0 {
			for i := uint32(0); i < 24; i += 4 {
				m.sw(a[2]+i, 0)
			}
		}
		ret(0)
	case 4195: // rt_sigprocmask
		if a[2] != 0 {
			for i := uint32(0); i < a[3]; i += 4 {
				m.sw(a[2]+i, 0)
			}
		}
		ret(0)
	case 4206: // sigaltstack
		if a[1] != 0 {
			m.sw(a[1], 0)
			m.sw(a[1]+4, 0)
			m.sw(a[1]+8, 2)
		}
		ret(0)
	case 4240: // sched_getaffinity
		for i := uint32(0); i < a[1]; i += 4 {
			m.sw(a[2]+i, 0)
		}
		m.sb(a[2], 1)
		ret(4)
	case 4037, 4236, 4266: // kill, tkill, tgkill
		if n == 4037 && a[1] == 6 || n == 4266 && a[2] == 6 || n == 4236 && a[1] == 6 {
			m.exited = true
			m.exitCode = 134
			return true
		}
		ret(0)
	case 4326: // epoll_create1
		ret(100)
	case 4325: // eventfd2
		ret(101)
	case 4249: // epoll_ctl
		if a[2] != 101 {
			bad(1)
			return
		}
		m.hasEvent = true
		m.evData = [2]uint32{m.lw(a[3] + 8), m.lw(a[3] + 12)}
		ret(0)
	case 4250, 4313: // epoll_wait, epoll_pwait
		t.evBuf = a[1]
		t.until = -1
		if int32(a[3]) >= 0 {
			t.until = m.now() + int64(a[3])*1e6
		}
		t.state = tPoll
		return true
	case 4353: // getrandom
		for i := uint32(0); i < a[1]; i++ {
			m.rnd = m.rnd*6364136223846793005 + 1442695040888963407
			m.sb(a[0]+i, uint32(m.rnd>>33))
		}
		ret(a[1])
	case 4338: // prlimit64
		if p := a[3]; p != 0 {
			for i := uint32(0); i < 16; i += 4 {
				m.sw(p+i, 0x7fffffff)
			}
		}
		ret(0)
	default:
		bad(89) // ENOSYS
	}
	return false
}

func sext16(v uint32) uint32 { return uint32(int32(int16(v))) }

func (t *mthread) d(n uint32) float64 {
	return math.Float64frombits(uint64(t.f[n|1])<<32 | uint64(t.f[n&^1]))
}

func (t *mthread) setD(n uint32, v float64) { t.setL(n, math.Float64bits(v)) }

func (t *mthread) setL(n uint32, b uint64) {
	t.f[n|1], t.f[n&^1] = uint32(b>>32), uint32(b)
}

func (t *mthread) s(n uint32) float32 { return math.Float32frombits(t.f[n]) }

// cvtw converts to a 32-bit integer as MIPS does.
func cvtw(v float64) uint32 {
	if v != v || v >= 1<<31 || v < -1<<31 {
		return 0x7fffffff
	}
	return uint32(int32(v))
}

// exec runs up to n instructions of a thread.
func (m *mips) exec(t *mthread, n int) {
	var code *mpage
	codePage := uint32(0xffffffff)
	r := &t.r
	for ; n > 0; n-- {
		pc := t.pc
		if pc>>12 != codePage {
			code = m.page(pc)
			codePage = pc >> 12
			if m.exited {
				return
			}
		}
		in := code[pc>>2&1023]
		t.pc = t.npc
		t.npc += 4
		m.insns++
		rs, rt := in>>21&31, in>>16&31
		switch in >> 26 {
		case 0:
			rd := in >> 11 & 31
			var v uint32
			switch in & 63 {
			case 0:
				v = r[rt] << (in >> 6 & 31)
			case 2:
				if rs == 1 {
					v = bits.RotateLeft32(r[rt], -int(in>>6&31))
				} else {
					v = r[rt] >> (in >> 6 & 31)
				}
			case 3:
				v = uint32(int32(r[rt]) >> (in >> 6 & 31))
			case 4:
				v = r[rt] << (r[rs] & 31)
			case 6:
				if in>>6&31 == 1 {
					v = bits.RotateLeft32(r[rt], -int(r[rs]&31))
				} else {
					v = r[rt] >> (r[rs] & 31)
				}
			case 7:
				v = uint32(int32(r[rt]) >> (r[rs] & 31))
			case 8: // jr
				t.npc = r[rs]
				continue
			case 9: // jalr
				to := r[rs]
				v = pc + 8
				t.npc = to
			case 1: // movf, movt
				if t.fcc>>(rt>>2)&1 != rt&1 {
					continue
				}
				v = r[rs]
			case 10:
				if r[rt] != 0 {
					continue
				}
				v = r[rs]
			case 11:
				if r[rt] == 0 {
					continue
				}
				v = r[rs]
			case 12:
				// The call returns to the next instruction.
				if m.syscall(t) || m.exited {
					return
				}
				codePage = 0xffffffff // pages may have been replaced
				continue
			case 13:
				m.fail("break")
				return
			case 15:
				continue
			case 16:
				v = t.hi
			case 17:
				t.hi = r[rs]
				continue
			case 18:
				v = t.lo
			case 19:
				t.lo = r[rs]
				continue
			case 24:
				p := int64(int32(r[rs])) * int64(int32(r[rt]))
				t.hi, t.lo = uint32(uint64(p)>>32), uint32(p)
				continue
			case 25:
				p := uint64(r[rs]) * uint64(r[rt])
				t.hi, t.lo = uint32(p>>32), uint32(p)
				continue
			case 26:
				if r[rt] != 0 {
					if r[rs] == 0x80000000 && r[rt] == 0xffffffff {
						t.lo, t.hi = r[rs], 0
					} else {
						t.lo, t.hi = uint32(int32(r[rs])/int32(r[rt])), uint32(int32(r[rs])%int32(r[rt]))
					}
				}
				continue
			case 27:
				if r[rt] != 0 {
					t.lo, t.hi = r[rs]/r[rt], r[rs]%r[rt]
				}
				continue
			case 32, 33:
				v = r[rs] + r[rt]
			case 34, 35:
				v = r[rs] - r[rt]
			case 36:
				v = r[rs] & r[rt]
			case 37:
				v = r[rs] | r[rt]
			case 38:
				v = r[rs] ^ r[rt]
			case 39:
				v = ^(r[rs] | r[rt])
			case 42:
				if int32(r[rs]) < int32(r[rt]) {
					v = 1
				}
			case 43:
				if r[rs] < r[rt] {
					v = 1
				}
			case 52: // teq
				if r[rs] == r[rt] {
					m.fail("trap")
					return
				}
				continue
			default:
				m.fail("unknown instruction %08x", in)
				return
			}
			if rd != 0 {
				r[rd] = v
			}
		case 1:
			neg := int32(r[rs]) < 0
			if rt&16 != 0 {
				r[31] = pc + 8
			}
			if rt&1 == 0 == neg {
				t.npc = pc + 4 + sext16(in)<<2
			}
			if rt&^17 != 0 {
				m.fail("unknown instruction %08x", in)
				return
			}
		case 2:
			t.npc = (pc+4)&0xf0000000 | in<<6>>4
		case 3:
			r[31] = pc + 8
			t.npc = (pc+4)&0xf0000000 | in<<6>>4
		case 4:
			if r[rs] == r[rt] {
				t.npc = pc + 4 + sext16(in)<<2
			}
		case 5:
			if r[rs] != r[rt] {
				t.npc = pc + 4 + sext16(in)<<2
			}
		case 6:
			if int32(r[rs]) <= 0 {
				t.npc = pc + 4 + sext16(in)<<2
			}
		case 7:
			if int32(r[rs]) > 0 {
				t.npc = pc + 4 + sext16(in)<<2
			}
		case 8, 9:
			if rt != 0 {
				r[rt] = r[rs] + sext16(in)
			}
		case 10:
			if rt != 0 {
				v := uint32(0)
				if int32(r[rs]) < int32(sext16(in)) {
					v = 1
				}
				r[rt] = v
			}
		case 11:
			if rt != 0 {
				v := uint32(0)
				if r[rs] < sext16(in) {
					v = 1
				}
				r[rt] = v
			}
		case 12:
			if rt != 0 {
				r[rt] = r[rs] & (in & 0xffff)
			}
		case 13:
			if rt != 0 {
				r[rt] = r[rs] | in&0xffff
			}
		case 14:
			if rt != 0 {
				r[rt] = r[rs] ^ in&0xffff
			}
		case 15:
			if rt != 0 {
				r[rt] = in << 16
			}
		case 17:
			if !m.fpu(t, in, pc) {
				return
			}
		case 28:
			rd := in >> 11 & 31
			switch in & 63 {
			case 2:
				if rd != 0 {
					r[rd] = r[rs] * r[rt]
				}
			case 0, 1, 4, 5:
				acc := uint64(t.hi)<<32 | uint64(t.lo)
				var p uint64
				if in&1 == 0 {
					p = uint64(int64(int32(r[rs])) * int64(int32(r[rt])))
				} else {
					p = uint64(r[rs]) * uint64(r[rt])
				}
				if in&4 == 0 {
					acc += p
				} else {
					acc -= p
				}
				t.hi, t.lo = uint32(acc>>32), uint32(acc)
			case 32:
				if rd != 0 {
					r[rd] = uint32(bits.LeadingZeros32(r[rs]))
				}
			case 33:
				if rd != 0 {
					r[rd] = uint32(bits.LeadingZeros32(^r[rs]))
				}
			default:
				m.fail("unknown instruction %08x", in)
				return
			}
		case 31:
			rd := in >> 11 & 31
			var v uint32
			dst := rd
			switch in & 63 {
			case 0: // ext
				v = r[rs] >> (in >> 6 & 31) & (1<<(rd+1) - 1)
				dst = rt
			case 4: // ins
				lsb := in >> 6 & 31
				mask := uint32(uint64(1)<<(rd-lsb+1)-1) << lsb
				v = r[rt]&^mask | r[rs]<<lsb&mask
				dst = rt
			case 32:
				switch in >> 6 & 31 {
				case 2:
					v = r[rt]&0x00ff00ff<<8 | r[rt]>>8&0x00ff00ff
				case 16:
					v = uint32(int32(int8(r[rt])))
				case 24:
					v = sext16(r[rt])
				default:
					m.fail("unknown instruction %08x", in)
					return
				}
			case 59: // rdhwr
				dst = rt
			default:
				m.fail("unknown instruction %08x", in)
				return
			}
			if dst != 0 {
				r[dst] = v
			}
		default:
			a := r[rs] + sext16(in)
			switch in >> 26 {
			case 35: // lw
				var v uint32
				if p := m.pages[a>>12]; p != nil && a&3 == 0 {
					v = p[a>>2&1023]
				} else {
					v = m.lw(a)
				}
				if rt != 0 {
					r[rt] = v
				}
			case 43: // sw
				if p := m.pages[a>>12]; p != nil && a&3 == 0 {
					p[a>>2&1023] = r[rt]
				} else {
					m.sw(a, r[rt])
				}
			case 32:
				if v := m.lb(a); rt != 0 {
					r[rt] = uint32(int32(int8(v)))
				}
			case 33:
				if v := m.lh(a); rt != 0 {
					r[rt] = sext16(v)
				}
			case 36:
				if v := m.lb(a); rt != 0 {
					r[rt] = v
				}
			case 37:
				if v := m.lh(a); rt != 0 {
					r[rt] = v
				}
			case 34: // lwl
				w := m.lw(a &^ 3)
				k := 8 * (a & 3)
				if rt != 0 {
					r[rt] = r[rt]&(1<<k-1) | w<<k
				}
			case 38: // lwr
				w := m.lw(a &^ 3)
				k := 24 - 8*(a&3)
				if rt != 0 {
					r[rt] = r[rt]&^(0xffffffff>>k) | w>>k
				}
			case 40:
				m.sb(a, r[rt])
			case 41:
				m.sh(a, r[rt])
			case 42: // swl
				w := m.lw(a &^ 3)
				k := 8 * (a & 3)
				m.sw(a&^3, w&^(0xffffffff>>k)|r[rt]>>k)
			case 46: // swr
				w := m.lw(a &^ 3)
				k := 24 - 8*(a&3)
				m.sw(a&^3, w&(1<<k-1)|r[rt]<<k)
			case 48: // ll
				if v := m.lw(a); rt != 0 {
					r[rt] = v
				}
				t.ll = true
			case 56: // sc
				if t.ll {
					m.sw(a, r[rt])
					r[rt] = 1
				} else {
					r[rt] = 0
				}
				r[0] = 0
				t.ll = false
			case 49: // lwc1
				t.f[rt] = m.lw(a)
			case 57: // swc1
				m.sw(a, t.f[rt])
			case 53: // ldc1
				t.f[rt|1], t.f[rt&^1] = m.lw(a), m.lw(a+4)
			case 61: // sdc1
				m.sw(a, t.f[rt|1])
				m.sw(a+4, t.f[rt&^1])
			case 51: // pref
			default:
				m.fail("unknown instruction %08x", in)
			}
			if m.exited {
				t.pc = pc
				return
			}
		}
	}
}

// fpu executes a coprocessor 1 instruction.
func (m *mips) fpu(t *mthread, in, pc uint32) bool {
	fmtField := in >> 21 & 31
	ft, fs, fd := in>>16&31, in>>11&31, in>>6&31
	r := &t.r
	switch fmtField {
	case 0: // mfc1
		if ft != 0 {
			r[ft] = t.f[fs]
		}
		return true
	case 2: // cfc1
		if ft != 0 {
			r[ft] = t.fcsr
		}
		return true
	case 4: // mtc1
		t.f[fs] = r[ft]
		return true
	case 6: // ctc1
		t.fcsr = r[ft]
		return true
	case 8: // bc1f, bc1t
		if t.fcc>>(ft>>2)&1 == ft&1 {
			t.npc = pc + 4 + sext16(in)<<2
		}
		return true
	}
	op := in & 63
	switch fmtField {
	case 17: // double
		a := t.d(fs)
		switch {
		case op == 0:
			t.setD(fd, a+t.d(ft))
		case op == 1:
			t.setD(fd, a-t.d(ft))
		case op == 2:
			t.setD(fd, a*t.d(ft))
		case op == 3:
			t.setD(fd, a/t.d(ft))
		case op == 4:
			t.setD(fd, math.Sqrt(a))
		case op == 5:
			t.setD(fd, math.Abs(a))
		case op == 6:
			t.f[fd|1], t.f[fd&^1] = t.f[fs|1], t.f[fs&^1]
		case op == 7:
			t.setL(fd, math.Float64bits(a)^1<<63)
		case op == 13:
			t.f[fd] = cvtw(math.Trunc(a))
		case op == 12 || op == 36:
			t.f[fd] = cvtw(math.RoundToEven(a))
		case op == 14:
			t.f[fd] = cvtw(math.Ceil(a))
		case op == 15:
			t.f[fd] = cvtw(math.Floor(a))
		case op == 17: // movf.d, movt.d
			if t.fcc>>(ft>>2)&1 == ft&1 {
				t.f[fd|1], t.f[fd&^1] = t.f[fs|1], t.f[fs&^1]
			}
		case op == 32:
			t.f[fd] = math.Float32bits(float32(a))
		case op >= 48:
			m.cmp(t, in, a, t.d(ft))
		default:
			m.fail("unknown instruction %08x", in)
			return false
		}
	case 16: // single
		a := t.s(fs)
		switch {
		case op == 0:
			t.f[fd] = math.Float32bits(a + t.s(ft))
		case op == 1:
			t.f[fd] = math.Float32bits(a - t.s(ft))
		case op == 2:
			t.f[fd] = math.Float32bits(a * t.s(ft))
		case op == 3:
			t.f[fd] = math.Float32bits(a / t.s(ft))
		case op == 4:
			t.f[fd] = math.Float32bits(float32(math.Sqrt(float64(a))))
		case op == 5:
			t.f[fd] = t.f[fs] &^ (1 << 31)
		case op == 6:
			t.f[fd] = t.f[fs]
		case op == 7:
			t.f[fd] = t.f[fs] ^ 1<<31
		case op == 13:
			t.f[fd] = cvtw(math.Trunc(float64(a)))
		case op == 12 || op == 36:
			t.f[fd] = cvtw(math.RoundToEven(float64(a)))
		case op == 33:
			t.setD(fd, float64(a))
		case op >= 48:
			m.cmp(t, in, float64(a), float64(t.s(ft)))
		default:
			m.fail("unknown instruction %08x", in)
			return false
		}
	case 20: // word
		a := int32(t.f[fs])
		switch op {
		case 32:
			t.f[fd] = math.Float32bits(float32(a))
		case 33:
			t.setD(fd, float64(a))
		default:
			m.fail("unknown instruction %08x", in)
			return false
		}
	default:
		m.fail("unknown instruction %08x", in)
		return false
	}
	return true
}

func (m *mips) cmp(t *mthread, in uint32, a, b float64) {
	cc := in >> 8 & 7
	res := uint32(0)
	switch {
	case a != a || b != b:
		res = in & 1
	case a == b:
		res = in >> 1 & 1
	case a < b:
		res = in >> 2 & 1
	}
	t.fcc = t.fcc&^(1<<cc) | res<<cc
}

// emulate is the main function of the emulator process: it runs a program,
// copies its output and returns its exit code.
func emulate(file string, args, env []string, limit time.Duration) int {
	m, err := newMips(file, args, env)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 98
	}
	if limit > 0 {
		m.deadline = time.Now().Add(limit)
	}
	m.run()
	_, _ = os.Stdout.Write(m.out.Bytes())
	if m.fault != "" {
		fmt.Fprintln(os.Stderr, "EMULATOR:", m.fault)
	}
	if os.Getenv("VERIFEMU") != "" {
		fmt.Fprintln(os.Stderr, "instructions:", m.insns, "threads:", len(m.threads), "memory:", m.usedMem>>20, "MB")
	}
	return m.exitCode
}
