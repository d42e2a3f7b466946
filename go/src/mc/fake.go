package main

import (
	ctxpkg "context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"thrift"
)

// memT is a plain byte queue with exact semantics, independent of the
// library's own transports. With lib set, full reads go through the library's
// full-read loop, as every real transport's do.
type memT struct {
	b    []byte
	off  int
	lib  bool
	spin int
}

func newMem(b []byte) *memT { return &memT{b: b} }

func (m *memT) IsOpen() bool { return true }
func (m *memT) Open() error  { return nil }
func (m *memT) Close() error { return nil }
func (m *memT) Peek() bool   { return true }
func (m *memT) Flush() error { return nil }
func (m *memT) Read(buf []byte) (int, error) {
	if len(buf) == 0 {
		return 0, nil
	}
	if m.off >= len(m.b) {
		m.spin++
		if m.spin > 10000 {
			panic(failure{"spin", "reader keeps reading after the end of the stream"})
		}
		return 0, io.EOF
	}
	n := copy(buf, m.b[m.off:])
	m.off += n
	return n, nil
}
func (m *memT) ReadAll(buf []byte) (int, error) {
	if m.lib {
		return thrift.ReadAllTransport(m, buf)
	}
	if len(m.b)-m.off < len(buf) {
		n := copy(buf, m.b[m.off:])
		m.off = len(m.b)
		return n, io.ErrUnexpectedEOF
	}
	n := copy(buf, m.b[m.off:])
	m.off += n
	return n, nil
}
func (m *memT) Write(buf []byte) (int, error) {
	m.b = append(m.b, buf...)
	return len(buf), nil
}

// answers of a scripted stream
const (
	aData   = iota // deliver N bytes (or as many as asked/left)
	aEmpty         // 0, nil
	aErr           // 0, injected error
	aEOFNow        // 0, io.EOF
)

type answer struct {
	kind int
	n    int
	eof  bool // report io.EOF together with the data if it was the last
}

var errInjected = errors.New("injected fault")

// wouldBlock is panicked by scripted transports when the reader asks for data
// that will never come while nothing is left to deliver.
type wouldBlock struct{}

// scriptT delivers data according to a chooser.
type scriptT struct {
	data   []byte
	off    int
	choose func(asked, left int) answer
	end    int // what happens at the end: 0 EOF, 1 injected error, 2 would block
	reads  int
	after  int
	err    error // the injected error; nil means errInjected
}

func (s *scriptT) fault() error {
	if s.err != nil {
		return s.err
	}
	return errInjected
}

// faultKinds are errors of every kind a transport may report.
func faultKinds() []error {
	out := []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, os.ErrDeadlineExceeded, os.ErrClosed,
		net.ErrClosed, syscall.EPIPE, syscall.EAGAIN, syscall.EINTR, syscall.ECONNRESET, ctxpkg.Canceled, ctxpkg.DeadlineExceeded,
		&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, fmt.Errorf("wrapped: %w", io.EOF), errors.New(""), errors.New("EOF"),
		base64.CorruptInputError(0), base64.CorruptInputError(3), thrift.NewTApplicationExceptionMessage("app"), thrift.NewTException("plain")}
	for ty := -1; ty <= 6; ty++ {
		out = append(out, thrift.NewTTransportException(ty, "fault"), thrift.NewTProtocolException(ty, "fault"))
	}
	return append(out, thrift.NewTTransportExceptionDefault(), thrift.NewTProtocolExceptionDefault())
}

func (s *scriptT) IsOpen() bool                    { return true }
func (s *scriptT) Open() error                     { return nil }
func (s *scriptT) Close() error                    { return nil }
func (s *scriptT) Peek() bool                      { return true }
func (s *scriptT) Flush() error                    { return nil }
func (s *scriptT) Write(buf []byte) (int, error)   { return len(buf), nil }
func (s *scriptT) ReadAll(buf []byte) (int, error) { return thrift.ReadAllTransport(s, buf) }
func (s *scriptT) Read(buf []byte) (int, error) {
	s.reads++
	if s.reads > 1000000 {
		panic(failure{"spin", "reader issues reads without end"})
	}
	if len(buf) == 0 {
		return 0, nil
	}
	left := len(s.data) - s.off
	if left == 0 {
		s.after++
		if s.after > 10000 {
			panic(failure{"spin", "reader keeps reading after the end of the stream"})
		}
		switch s.end {
		case 1:
			return 0, s.fault()
		case 2:
			panic(wouldBlock{})
		}
		return 0, io.EOF
	}
	a := answer{kind: aData, n: left}
	if s.choose != nil {
		a = s.choose(len(buf), left)
	}
	switch a.kind {
	case aEmpty:
		return 0, nil
	case aErr:
		return 0, s.fault()
	case aEOFNow:
		return 0, io.EOF
	}
	n := a.n
	if n > left {
		n = left
	}
	if n > len(buf) {
		n = len(buf)
	}
	copy(buf, s.data[s.off:s.off+n])
	s.off += n
	if a.eof && s.off == len(s.data) {
		if s.end == 1 {
			return n, s.fault()
		}
		return n, io.EOF
	}
	return n, nil
}

// faultW fails the k-th write (or flush) and every later one.
type faultW struct {
	got                []byte
	writes             int
	failAt             int  // index of the first failing write; -1 never
	mode               int  // 0: fail with 0 bytes, 1: fail after accepting a prefix (half)
	sticky             bool // later writes fail too; otherwise exactly one write fails
	flushes, failFlush int
	flushFailed        bool
	failed             bool
	err                error // the injected error; nil means errInjected
}

func (f *faultW) fault() error {
	if f.err != nil {
		return f.err
	}
	return errInjected
}

func (f *faultW) IsOpen() bool                    { return true }
func (f *faultW) Open() error                     { return nil }
func (f *faultW) Close() error                    { return nil }
func (f *faultW) Peek() bool                      { return true }
func (f *faultW) Read(buf []byte) (int, error)    { return 0, io.EOF }
func (f *faultW) ReadAll(buf []byte) (int, error) { return 0, io.EOF }
func (f *faultW) Write(buf []byte) (int, error) {
	k := f.writes
	f.writes++
	if f.writes > 1000000 {
		panic(failure{"spin", "writer issues writes without end"})
	}
	if f.failAt >= 0 && (k == f.failAt || f.sticky && k > f.failAt) {
		f.failed = true
		if f.mode == 1 && k == f.failAt && len(buf) > 0 {
			n := len(buf) / 2
			f.got = append(f.got, buf[:n]...)
			return n, f.fault()
		}
		return 0, f.fault()
	}
	f.got = append(f.got, buf...)
	return len(buf), nil
}
func (f *faultW) Flush() error {
	k := f.flushes
	f.flushes++
	if f.failed {
		return nil // the failure was reported by Write already; flushing says nothing new
	}
	if f.failFlush >= 0 && k >= f.failFlush {
		f.flushFailed = true
		return f.fault()
	}
	return nil
}

// dfs enumerates all choice vectors: run is called repeatedly with a chooser
// whose answers walk the tree of choices depth first.
func dfs(limit int, run func(ch func(n int) int) bool) (execs int, complete bool) {
	var path, width []int
	for {
		pos := 0
		ch := func(n int) int {
			if n <= 1 {
				return 0
			}
			if pos == len(path) {
				path = append(path, 0)
				width = append(width, n)
			}
			if width[pos] != n {
				panic(fmt.Sprintf("dfs: nondeterministic replay: width %d then %d", width[pos], n))
			}
			v := path[pos]
			pos++
			return v
		}
		execs++
		if !run(ch) {
			return execs, false
		}
		path, width = path[:pos], width[:pos]
		i := len(path) - 1
		for i >= 0 && path[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			return execs, true
		}
		path[i]++
		path, width = path[:i+1], width[:i+1]
		if limit > 0 && execs >= limit {
			return execs, false
		}
	}
}
