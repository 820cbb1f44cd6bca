// Streams under the control of the explorer.

package main

import (
	"errors"
	"fmt"
	"io"
)

// horizon is the number of stream operations after which an execution is
// considered to be looping forever.
const horizon = 64 << 20

var errInjected = errors.New("injected fault")

var errEOF = io.EOF

// src is an in-memory stream. It can be wrapped to expose or hide Seek and
// Close. Its behaviour hooks decide each operation.
type src struct {
	data   []byte
	pos    int64
	ops    int
	closed int
	// onRead, if set, returns how many bytes the read may deliver (at most
	// max, which is at least 1 unless at the end), and an error to return.
	onRead  func(want, avail int) (n int, err error)
	onSeek  func(off int64, whence int) error
	onClose func() error
	// touched, if set, records read byte ranges.
	touched func(from, to int64)
	// as, if set, makes the reader.
	as func(seekable, closable bool) io.Reader
}

func (s *src) op() {
	s.ops++
	if s.ops > horizon {
		panic(violation{"more than 64M stream operations in one execution: endless loop"})
	}
}

func (s *src) read(p []byte) (int, error) {
	s.op()
	if s.closed > 0 {
		return 0, errors.New("read after close")
	}
	var rest []byte
	if s.pos < int64(len(s.data)) {
		rest = s.data[s.pos:]
	}
	avail := len(rest)
	n := len(p)
	if n > avail {
		n = avail
	}
	var err error
	if s.onRead != nil {
		m, e := s.onRead(len(p), avail)
		if m < n {
			n = m
		}
		err = e
	} else if avail == 0 && len(p) > 0 {
		err = io.EOF
	}
	copy(p, rest[:n])
	if s.touched != nil {
		s.touched(s.pos, s.pos+int64(n))
	}
	s.pos += int64(n)
	return n, err
}

func (s *src) seek(off int64, whence int) (int64, error) {
	s.op()
	if s.closed > 0 {
		return 0, errors.New("seek after close")
	}
	if s.onSeek != nil {
		if err := s.onSeek(off, whence); err != nil {
			return 0, err
		}
	}
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = s.pos
	case io.SeekEnd:
		base = int64(len(s.data))
	default:
		return 0, errors.New("invalid whence")
	}
	if base+off < 0 {
		return 0, fmt.Errorf("negative position %d", base+off)
	}
	s.pos = base + off
	return s.pos, nil
}

func (s *src) close() error {
	s.op()
	s.closed++
	if s.onClose != nil {
		return s.onClose()
	}
	return nil
}

type plainR struct{ *src }

func (r plainR) Read(p []byte) (int, error) { return r.read(p) }

type seekR struct{ *src }

func (r seekR) Read(p []byte) (int, error)            { return r.read(p) }
func (r seekR) Seek(off int64, wh int) (int64, error) { return r.seek(off, wh) }

type closeR struct{ *src }

func (r closeR) Read(p []byte) (int, error) { return r.read(p) }
func (r closeR) Close() error               { return r.close() }

type seekCloseR struct{ *src }

func (r seekCloseR) Read(p []byte) (int, error)            { return r.read(p) }
func (r seekCloseR) Seek(off int64, wh int) (int64, error) { return r.seek(off, wh) }
func (r seekCloseR) Close() error                          { return r.close() }

// asReader exposes the requested capabilities of a stream.
func (s *src) asReader(seekable, closable bool) io.Reader {
	if s.as != nil {
		return s.as(seekable, closable)
	}
	if richStreams {
		r := richR{s}
		switch {
		case seekable && closable:
			return struct {
				richR
				seekCloseOnly
			}{r, seekCloseOnly{s}}
		case seekable:
			return struct {
				richR
				seekOnly
			}{r, seekOnly{s}}
		case closable:
			return struct {
				richR
				closeOnly
			}{r, closeOnly{s}}
		}
		return r
	}
	switch {
	case seekable && closable:
		return seekCloseR{s}
	case seekable:
		return seekR{s}
	case closable:
		return closeR{s}
	default:
		return plainR{s}
	}
}

func (s *src) asReadSeeker() io.ReadSeeker { return s.asReader(true, false).(io.ReadSeeker) }

// richStreams makes all streams have the optional methods which the
// streams of the standard library have. It is only changed between families.
var richStreams bool

// richR is a stream with all kinds of ways to read from it.
type richR struct{ s *src }

type seekOnly struct{ s *src }

func (r seekOnly) Seek(off int64, wh int) (int64, error) { return r.s.seek(off, wh) }

type closeOnly struct{ s *src }

func (r closeOnly) Close() error { return r.s.close() }

type seekCloseOnly struct{ s *src }

func (r seekCloseOnly) Seek(off int64, wh int) (int64, error) { return r.s.seek(off, wh) }
func (r seekCloseOnly) Close() error                          { return r.s.close() }

func (r richR) Read(p []byte) (int, error) { return r.s.read(p) }

func (r richR) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		if n, err := r.s.read(b[:]); n == 1 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (r richR) UnreadByte() error {
	r.s.op()
	if r.s.pos == 0 {
		return errors.New("at the beginning")
	}
	r.s.pos--
	return nil
}

func (r richR) ReadAt(p []byte, off int64) (n int, err error) {
	pos := r.s.pos
	defer func() { r.s.pos = pos }()
	r.s.pos = off
	for n < len(p) && err == nil {
		var m int
		m, err = r.s.read(p[n:])
		n += m
	}
	if n == len(p) {
		err = nil
	}
	return
}

func (r richR) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 512)
	for {
		m, err := r.s.read(b)
		k, werr := w.Write(b[:m])
		n += int64(k)
		if werr != nil {
			return n, werr
		} else if err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, err
		}
	}
}

// Discard and Peek are what a bufio.Reader has.
func (r richR) Discard(n int) (int, error) {
	if n < 0 {
		return 0, errors.New("negative count")
	}
	b := make([]byte, 512)
	for done := 0; done < n; {
		k := n - done
		if k > len(b) {
			k = len(b)
		}
		m, err := r.s.read(b[:k])
		if done += m; err != nil && done < n {
			return done, err
		}
	}
	return n, nil
}

func (r richR) Peek(n int) ([]byte, error) {
	pos := r.s.pos
	defer func() { r.s.pos = pos }()
	b := make([]byte, n)
	m, err := io.ReadFull(plainR{r.s}, b)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return b[:m], err
}

// Len is the number of bytes that remain.
func (r richR) Len() int {
	if n := len(r.s.data) - int(r.s.pos); n > 0 {
		return n
	}
	return 0
}

func (r richR) Size() int64 { return int64(len(r.s.data)) }

// chunkings are the deterministic legal delivery patterns.
const numChunkings = 9

func chunking(k int) (name string, f func(want, avail int) (int, error)) {
	i := 0
	eof := func(want, avail int) error {
		if avail == 0 && want > 0 {
			return io.EOF
		}
		return nil
	}
	lim := func(m int) func(want, avail int) (int, error) {
		return func(want, avail int) (int, error) { return m, eof(want, avail) }
	}
	switch k {
	case 0:
		return "whole", nil
	case 1:
		return "1 byte at a time", lim(1)
	case 2:
		return "7 bytes at a time", lim(7)
	case 3:
		return "39 bytes at a time", lim(39)
	case 4:
		return "41 bytes at a time", lim(41)
	case 5:
		return "end of file with the last bytes", func(want, avail int) (int, error) {
			if want >= avail {
				return avail, io.EOF
			}
			return want, nil
		}
	case 6:
		return "empty read before each read", func(want, avail int) (int, error) {
			i++
			if i%2 == 1 {
				return 0, nil
			}
			return want, eof(want, avail)
		}
	case 7:
		return "3 bytes, empty, end of file with the last bytes", func(want, avail int) (int, error) {
			i++
			if i%2 == 0 {
				return 0, nil
			}
			if avail <= 3 && want >= avail {
				return avail, io.EOF
			}
			return 3, nil
		}
	default:
		return "all but one byte, then the rest", func(want, avail int) (int, error) {
			i++
			if i%2 == 1 && want > 1 {
				return want - 1, eof(want, avail)
			}
			return want, eof(want, avail)
		}
	}
}

// sink is an output stream under the control of the explorer.
type sink struct {
	buf    []byte
	writes int
	closed int
	// onWrite, if set, decides how much of a write is accepted.
	onWrite func(p []byte) (n int, err error)
	onClose func() error
	// as, if set, makes the writer, and refresh fetches its output.
	as      func(closable bool) io.Writer
	refresh func()
}

func (s *sink) write(p []byte) (int, error) {
	s.writes++
	if s.writes > horizon {
		panic(violation{"more than 64M write operations in one execution: endless loop"})
	}
	if s.closed > 0 {
		return 0, errors.New("write after close")
	}
	n := len(p)
	var err error
	if s.onWrite != nil {
		n, err = s.onWrite(p)
	}
	s.buf = append(s.buf, p[:n]...)
	return n, err
}

type plainW struct{ *sink }

func (w plainW) Write(p []byte) (int, error) { return w.write(p) }

type closeW struct{ *sink }

func (w closeW) Write(p []byte) (int, error) { return w.write(p) }
func (w closeW) Close() error {
	w.closed++
	if w.onClose != nil {
		return w.onClose()
	}
	return nil
}

// asWriter exposes the requested capabilities of a stream.
func (s *sink) asWriter(closable bool) io.Writer {
	if s.as != nil {
		return s.as(closable)
	}
	switch {
	case richStreams && closable:
		return struct {
			richW
			sinkCloser
		}{richW{s}, sinkCloser{s}}
	case richStreams:
		return richW{s}
	case closable:
		return closeW{s}
	default:
		return plainW{s}
	}
}

type sinkCloser struct{ s *sink }

func (w sinkCloser) Close() error { return closeW{w.s}.Close() }

// richW is a stream with all kinds of ways to write to it.
type richW struct{ s *sink }

func (w richW) Write(p []byte) (int, error)         { return w.s.write(p) }
func (w richW) WriteString(x string) (int, error)   { return w.s.write([]byte(x)) }
func (w richW) WriteByte(b byte) error              { _, err := w.s.write([]byte{b}); return err }
func (w richW) ReadFrom(r io.Reader) (int64, error) { return io.Copy(plainW{w.s}, r) }
func (w richW) Len() int                            { return len(w.s.buf) }
