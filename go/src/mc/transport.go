package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"thrift"
	"time"
)

func init() {
	checks["C11"] = checkDef{"model_checking", runC11}
	checks["C12"] = checkDef{"model_checking", runC12}
	checks["C15"] = checkDef{"model_checking", runC15}
}

// stamp makes distinguishable payload bytes.
type stamp byte

func (s *stamp) next(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		*s = *s*5 + 113
		b[i] = byte(*s) ^ byte(i>>3)
	}
	return b
}

// sinkT records what reaches the underlying transport.
type sinkT struct {
	got               []byte
	writes, flushes   int
	flushedAt         int // bytes written when last flushed successfully
	failW, failF      int // index of the failing write / flush, -1 none
	half, sticky      bool
	faults, faultKind int
	dirtyFlush        bool // the last flush failed
}

func (f *sinkT) IsOpen() bool                    { return true }
func (f *sinkT) Open() error                     { return nil }
func (f *sinkT) Close() error                    { return nil }
func (f *sinkT) Peek() bool                      { return true }
func (f *sinkT) Read(buf []byte) (int, error)    { return 0, io.EOF }
func (f *sinkT) ReadAll(buf []byte) (int, error) { return 0, io.EOF }
func (f *sinkT) Write(buf []byte) (int, error) {
	k := f.writes
	f.writes++
	if f.writes > 100000 {
		panic(failure{"spin", "writer issues writes without end"})
	}
	if f.failW >= 0 && (k == f.failW || f.sticky && k > f.failW) {
		f.faults++
		n := 0
		if f.half && k == f.failW {
			n = len(buf) / 2
		}
		f.got = append(f.got, buf[:n]...)
		return n, errInjected
	}
	f.got = append(f.got, buf...)
	return len(buf), nil
}
func (f *sinkT) Flush() error {
	k := f.flushes
	f.flushes++
	if f.failF >= 0 && (k == f.failF || f.sticky && k > f.failF) {
		f.faults++
		f.dirtyFlush = true
		return errInjected
	}
	f.dirtyFlush = false
	f.flushedAt = len(f.got)
	return nil
}

// lifeT is a transport that is opened and closed, whose calls can fail.
type lifeT struct {
	memT
	open          bool
	opens, closes int
	fail          error
}

func (l *lifeT) IsOpen() bool { return l.open }
func (l *lifeT) Peek() bool   { return l.open && l.off < len(l.b) }
func (l *lifeT) Open() error {
	l.opens++
	if l.fail == nil {
		l.open = true
	}
	return l.fail
}
func (l *lifeT) Close() error {
	l.closes++
	l.open = false
	return l.fail
}

// framedLife: a framed transport is open when the transport underneath is, and
// opens and closes it with its errors.
func framedLife(c *Ctx) {
	names := []string{"open", "open-fails", "close", "close-fails", "dropped", "frame-arrives", "read1", "w2", "flush"}
	opSeqs(c, "lifecycle", names, c.Pick(5, 6), func(t *T, seq []int) {
		in := &lifeT{}
		in.lib = true
		p := thrift.NewTFramedTransport(in)
		var rest, pend []byte // what arrived and can be read; what was written and not flushed
		partial := 0          // bytes of the frame being read that are left
		for _, o := range seq {
			op, cl := in.opens, in.closes
			switch o {
			case 0, 1:
				in.fail = nil
				if o == 1 {
					in.fail = thrift.NewTTransportException(thrift.NOT_OPEN, "refused")
				}
				err := p.Open()
				mustTrue((err == nil) == (o == 0) && (o == 0 || hasType(err, thrift.NOT_OPEN)), "open", "%s: Open returned %v", names[o], err)
				mustTrue(in.opens == op+1 && in.closes == cl, "open", "Open opened the transport underneath %d times and closed it %d times", in.opens-op, in.closes-cl)
			case 2, 3:
				in.fail = nil
				if o == 3 {
					in.fail = errInjected
				}
				err := p.Close()
				mustTrue((err == nil) == (o == 2), "close", "%s: Close returned %v", names[o], err)
				mustTrue(in.opens == op && in.closes == cl+1, "close", "Close opened the transport underneath %d times and closed it %d times", in.opens-op, in.closes-cl)
				rest, pend, partial = nil, nil, 0
				in.off = len(in.b)
			case 4:
				in.open = false
			case 5:
				in.b = append(in.b, frame([]byte{byte(len(in.b)), 7})...)
				rest = append(rest, in.b[len(in.b)-2:]...)
			case 6:
				b := make([]byte, 1)
				n, err := p.Read(b)
				if len(rest) == 0 {
					mustTrue(n == 0 && err != nil, "read", "Read without data returned %d, %v", n, err)
				} else {
					mustTrue(n == 1 && err == nil && b[0] == rest[0], "read", "Read returned %d, %v, %x, want %x", n, err, b, rest[0])
					rest = rest[1:]
					if partial == 0 {
						partial = 2
					}
					partial--
				}
			case 7:
				n, err := p.Write([]byte{byte(len(pend)), 9})
				mustTrue(n == 2 && err == nil, "write", "Write returned %d, %v", n, err)
				pend = append(pend, byte(len(pend)), 9)
			case 8:
				at := len(in.b)
				err := p.Flush()
				mustTrue(err == nil && bytes.Equal(in.b[at:], frame(pend)), "flush", "Flush sent %x, %v, want %x", in.b[at:], err, frame(pend))
				in.b = in.b[:at] // what was sent does not come back
				pend = nil
			}
			mustTrue(p.IsOpen() == in.open, "state", "IsOpen is %v, the transport underneath is open: %v, after %s", p.IsOpen(), in.open, names[o])
			if partial == 0 {
				mustTrue(p.Peek() == in.Peek(), "state", "Peek is %v, underneath it is %v, after %s", p.Peek(), in.Peek(), names[o])
			}
			if !in.open && partial == 0 {
				mustTrue(!p.Peek(), "state", "Peek on a closed transport")
			}
			x := partial
			if in.open {
				x += 4
			}
			t.State(hInts(9, x, len(rest), len(pend)))
		}
		t.Nontrivial()
	})
}

type framedFault struct {
	w, f         int
	half, sticky bool
}

func runC11(c *Ctx) {
	c.Rule("sender: every sequence of writes (0, 1, 3, 1500 bytes) and flushes up to the depth, under every failing underlying write or flush (transient/sticky, none or half of the bytes accepted)")
	c.Rule("receiver: every list of frame sizes within the bound, cut at every byte, every request sequence within the bound, several fragmentations underneath, three ways to end")
	c.Rule("both ends: every interleaving of writes, flushes and reads up to the depth over one byte queue")
	// sender
	plans := []framedFault{{-1, -1, false, false}}
	for i := 0; i < 7; i++ {
		for _, h := range []bool{false, true} {
			for _, s := range []bool{false, true} {
				plans = append(plans, framedFault{i, -1, h, s})
			}
		}
	}
	for i := 0; i < 4; i++ {
		plans = append(plans, framedFault{-1, i, false, false}, framedFault{-1, i, false, true})
	}
	sizes := []int{0, 1, 3, 1500}
	opSeqs(c, "sender", []string{"w0", "w1", "w3", "w1500", "flush"}, c.Pick(5, 7), func(t *T, seq []int) {
		for _, fp := range plans {
			in := &sinkT{failW: fp.w, failF: fp.f, half: fp.half, sticky: fp.sticky}
			p := thrift.NewTFramedTransport(in)
			var pend []byte
			var st stamp
			for _, o := range seq {
				before, fl := len(in.got), in.flushes
				if o < 4 {
					b := st.next(sizes[o])
					pend = append(pend, b...)
					n, err := p.Write(b)
					mustTrue(n == len(b) && err == nil, "write-result", "Write of %d bytes returned %d, %v (fault plan %+v)", len(b), n, err, fp)
					for i := range b {
						b[i] = 0xEE // the caller may reuse its buffer
					}
					mustTrue(len(in.got) == before && in.flushes == fl, "early", "bytes reached the underlying transport before the flush (plan %+v)", fp)
					continue
				}
				want := frame(pend)
				err := p.Flush()
				got := in.got[before:]
				if err == nil {
					mustTrue(bytes.Equal(got, want), "frame", "a successful flush of %d bytes sent %x, want %x (plan %+v)", len(pend), short(got), short(want), fp)
					mustTrue(in.flushedAt == len(in.got) && in.flushes > fl && !in.dirtyFlush, "inner-flush", "a successful flush did not flush the underlying transport after its frame (plan %+v)", fp)
				} else {
					mustTrue(in.faults > 0, "spurious", "flush failed without a fault: %v", err)
					mustTrue(bytes.HasPrefix(want, got), "frame-prefix", "a failed flush sent %x, not part of its frame %x (plan %+v)", short(got), short(want), fp)
				}
				pend = pend[:0]
				t.State(hInts(1, len(in.got), in.faults, in.flushes))
			}
			if fp.f >= 0 && in.flushes <= fp.f || fp.w >= 0 && in.writes <= fp.w {
				if fp.half && !fp.sticky && fp.w > 2*len(seq) {
					break
				}
			}
		}
		t.Nontrivial()
	})
	// receiver
	maxFrames := c.Pick(3, 4)
	var lists [][]int
	var gen func(cur []int)
	gen = func(cur []int) {
		lists = append(lists, append([]int(nil), cur...))
		if len(cur) == maxFrames {
			return
		}
		for s := 0; s <= 3; s++ {
			gen(append(cur, s))
		}
	}
	gen(nil)
	reqs := []int{1, 2, 5, 0, -1, -2, -4} // negative: in full
	var rs [][]int
	for a := range reqs {
		for b := range reqs {
			for d := range reqs {
				rs = append(rs, []int{reqs[a], reqs[b], reqs[d]})
			}
		}
	}
	for _, n := range []int{1, 2, 3, 4, 5, 100, -1, -2, -3, -4, -5, -6, -7, -9} {
		rs = append(rs, []int{n, n, n, n, n, n, n, n, n, n, n})
	}
	c.Par("receiver", len(lists), func(i int) string { return fmt.Sprint(lists[i]) }, func(t *T, i int) {
		var st stamp
		var stream []byte
		ends := []int{0} // stream offsets where a frame ends
		sums := []int{0}
		var payload []byte
		for _, n := range lists[i] {
			b := st.next(n)
			payload = append(payload, b...)
			stream = append(stream, frame(b)...)
			ends = append(ends, len(stream))
			sums = append(sums, len(payload))
		}
		for cut := 0; cut <= len(stream); cut++ {
			have := 0
			for j, e := range ends {
				if e <= cut {
					have = sums[j]
				}
			}
			for end := 0; end < 3; end++ {
				for _, chunk := range []int{1, 2, 3, 4, 5, 100} {
					for _, empty := range []int{0, 1} {
						eofs := []bool{false}
						if end == 0 {
							eofs = []bool{false, true}
						}
						for _, eof := range eofs {
							for _, rq := range rs {
								t.Ops(len(rq))
								pl := plan{chunk: chunk, empty: empty, eof: eof}
								t.Try(fmt.Sprint("cut ", cut, " end ", end, " ", pl, " requests ", rq), func() {
									s := &scriptT{data: stream[:cut], end: end}
									s.choose = pl.chooser(s)
									recvCheck(t, thrift.NewTFramedTransport(s), payload[:have], rq)
								})
							}
						}
					}
				}
			}
			t.State(hInts(2, i, cut))
		}
		t.Trace()
	})
	framedLife(c)
	// sizes around buffer boundaries
	big := []int{127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 1 << 20}
	if c.Thorough() {
		big = append(big, 1<<24-1, 1<<24, 1<<24+1)
	}
	c.Par("sizes", len(big), func(i int) string { return fmt.Sprint(big[i]) }, func(t *T, i int) {
		for _, piece := range []int{big[i], 1000, 7, 65536} {
			if big[i]/piece > 300000 {
				continue
			}
			var st stamp
			in := &sinkT{failW: -1, failF: -1}
			w := thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(in)
			b := st.next(big[i])
			for at := 0; at < len(b); at += piece {
				e := at + piece
				if e > len(b) {
					e = len(b)
				}
				if n, err := w.Write(b[at:e]); n != e-at || err != nil {
					t.Failf("write-result", "Write: %d %v", n, err)
				}
			}
			if err := w.Flush(); err != nil {
				t.Failf("flush", "%v", err)
			}
			mustTrue(bytes.Equal(in.got, frame(b)), "frame", "frame of %d bytes differs", len(b))
			for _, chunk := range []int{len(in.got), 4096, 65536, 1 << 16} {
				for _, rq := range []int{len(b), 1000, 65536, -len(b)} {
					for _, end := range []int{0, 2} {
						s := &scriptT{data: append(append([]byte(nil), in.got...), frame([]byte("tail"))...), end: end}
						pl := plan{chunk: chunk}
						s.choose = pl.chooser(s)
						var rqs []int
						for n := 0; n < len(b)+4; {
							rqs = append(rqs, rq)
							if rq < 0 {
								n -= rq
							} else {
								n += rq
							}
						}
						recvCheck(t, thrift.NewTFramedTransport(s), append(append([]byte(nil), b...), "tail"...), rqs)
						t.Trace()
						t.Ops(len(rqs))
					}
				}
			}
			t.State(hInts(3, i, piece))
		}
	})
	// both ends over one queue
	names := []string{"w0", "w1", "w3", "flush", "r1", "r2", "r9", "all2"}
	for _, kind := range []int{0, 1} {
		kind := kind
		opSeqs(c, []string{"pair", "duplex"}[kind], names, c.Pick(6, 7), func(t *T, seq []int) {
			q := newMem(nil)
			w := thrift.NewTFramedTransport(q)
			r := w
			if kind == 0 {
				r = thrift.NewTFramedTransport(q)
			}
			var pend, avail []byte
			var st stamp
			for _, o := range seq {
				switch o {
				case 0, 1, 2:
					b := st.next([]int{0, 1, 3}[o])
					pend = append(pend, b...)
					n, err := w.Write(b)
					mustTrue(n == len(b) && err == nil, "write-result", "Write: %d %v", n, err)
				case 3:
					mustTrue(w.Flush() == nil, "flush", "flush failed")
					avail = append(avail, pend...)
					pend = pend[:0]
				case 4, 5, 6:
					b := make([]byte, []int{1, 2, 9}[o-4])
					n, err := r.Read(b)
					if len(avail) == 0 {
						mustTrue(n == 0 && err != nil, "phantom", "Read returned %d, %v with nothing flushed", n, err)
						break
					}
					mustTrue(n > 0 && n <= len(b) && n <= len(avail) && err == nil, "read", "Read(%d) returned %d, %v with %d available", len(b), n, err, len(avail))
					mustTrue(bytes.Equal(b[:n], avail[:n]), "data", "Read returned %x, want %x", b[:n], avail[:n])
					avail = avail[n:]
				case 7:
					b := make([]byte, 2)
					n, err := r.ReadAll(b)
					if len(avail) >= 2 {
						mustTrue(n == 2 && err == nil && bytes.Equal(b, avail[:2]), "readall", "ReadAll(2) returned %d, %v, %x, want %x", n, err, b, avail[:2])
						avail = avail[2:]
					} else {
						mustTrue(n <= len(avail) && err != nil, "readall-short", "ReadAll(2) returned %d, %v with %d available", n, err, len(avail))
						avail = avail[n:]
					}
				}
				t.State(hInts(4, len(pend), len(avail), kind))
			}
		})
	}
}

func short(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// recvCheck issues the requests (negative: in full) against p and then drains
// it, comparing with the bytes that must come out before the stream's end.
func recvCheck(t *T, p thrift.TTransport, want []byte, reqs []int) {
	pos, idle := 0, 0
	blocked := func(need int, f func() (int, error)) (n int, err error, blk bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(wouldBlock); ok {
					if len(want)-pos >= need {
						panic(failure{"blocks", fmt.Sprintf("waits for more input although %d bytes are there and %d were needed", len(want)-pos, need)})
					}
					blk = true
					return
				}
				panic(r)
			}
		}()
		n, err = f()
		return
	}
	for i := 0; ; i++ {
		rq := 3
		if i < len(reqs) {
			rq = reqs[i]
		}
		if rq >= 0 {
			b := make([]byte, rq)
			need := 1
			if rq == 0 {
				need = 0
			}
			n, err, blk := blocked(need, func() (int, error) { return p.Read(b) })
			if blk {
				return
			}
			if n < 0 || n > rq {
				t.Failf("count", "Read(%d) returned count %d", rq, n)
			}
			if pos+n > len(want) || !bytes.Equal(b[:n], want[pos:pos+n]) {
				t.Failf("data", "Read(%d) at position %d of %d returned %x, not in the stream", rq, pos, len(want), short(b[:n]))
			}
			pos += n
			if err != nil {
				if pos != len(want) {
					t.Failf("early-error", "Read failed at position %d of %d: %v", pos, len(want), err)
				}
				return
			}
			if n == 0 && rq > 0 {
				idle++
				if idle > 200 {
					t.Failf("idle", "Read returns nothing and no error for ever")
				}
			} else {
				idle = 0
			}
			continue
		}
		rq = -rq
		b := make([]byte, rq)
		left := len(want) - pos
		n, err, blk := blocked(rq, func() (int, error) { return p.ReadAll(b) })
		if blk {
			return
		}
		if left >= rq {
			if n != rq || err != nil || !bytes.Equal(b, want[pos:pos+n]) {
				t.Failf("readall", "ReadAll(%d) with %d bytes to come returned %d, %v, %x", rq, left, n, err, short(b))
			}
			pos += n
			continue
		}
		if err == nil {
			t.Failf("readall-short", "ReadAll(%d) succeeded (count %d) although only %d bytes come", rq, n, left)
		}
		if n != left || !bytes.Equal(b[:n], want[pos:]) {
			t.Failf("readall-count", "ReadAll(%d) failed reporting %d bytes %x, but %d were obtained", rq, n, short(b[:max(0, min(n, rq))]), left)
		}
		return
	}
}

// ---------------------------------------------------------------- C12

// pipeT is the byte queue underneath a stream transport.
type pipeT struct {
	q       []byte // what can be read
	got     []byte // everything written
	reads   int
	writes  int
	closes  int
	failW   int
	loop    bool // what is written can be read
	faulted bool
}

func (p *pipeT) Read(b []byte) (int, error) {
	p.reads++
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.q) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.q)
	p.q = p.q[n:]
	return n, nil
}
func (p *pipeT) Write(b []byte) (int, error) {
	k := p.writes
	p.writes++
	if p.failW >= 0 && k >= p.failW {
		p.faulted = true
		return 0, errInjected
	}
	p.got = append(p.got, b...)
	if p.loop {
		p.q = append(p.q, b...)
	}
	return len(b), nil
}

type closingPipe struct{ *pipeT }

func (p closingPipe) Close() error { p.closes++; return nil }

func notOpen(err error) bool {
	e, ok := err.(thrift.TTransportException)
	return ok && e.TypeId() == thrift.NOT_OPEN
}

func runC12(c *Ctx) {
	c.Rule("memory buffer: every sequence up to the depth over 15 operations (writes, string writes, reads, byte reads, full reads, bulk transfer in and out, reset, close, flush), for buffers made in every way, contents and length checked after each")
	c.Rule("stream transport: every sequence up to the depth over 12 operations for the five ways to make one, with and without a failing stream")
	mk := []struct {
		name string
		f    func() *thrift.TMemoryBuffer
	}{
		{"new", thrift.NewTMemoryBuffer},
		{"len0", func() *thrift.TMemoryBuffer { return thrift.NewTMemoryBufferLen(0) }},
		{"len2", func() *thrift.TMemoryBuffer { return thrift.NewTMemoryBufferLen(2) }},
		{"len64", func() *thrift.TMemoryBuffer { return thrift.NewTMemoryBufferLen(64) }},
		{"factory", func() *thrift.TMemoryBuffer {
			return thrift.NewTMemoryBufferTransportFactory(3).GetTransport(nil).(*thrift.TMemoryBuffer)
		}},
		{"factory-of", func() *thrift.TMemoryBuffer {
			old := thrift.NewTMemoryBufferLen(5)
			old.Write([]byte("old"))
			return thrift.NewTMemoryBufferTransportFactory(3).GetTransport(old).(*thrift.TMemoryBuffer)
		}},
	}
	names := []string{"w0", "w1", "w3", "w600", "ws2", "rb", "r0", "r1", "r2", "r1000", "all2", "from3", "to", "reset", "close"}
	depth := c.Pick(4, 5)
	for mi := range mk {
		m := mk[mi]
		opSeqs(c, "memory-"+m.name, names, depth, func(t *T, seq []int) {
			p := m.f()
			var q []byte
			var st stamp
			for _, o := range seq {
				switch o {
				case 0, 1, 2, 3:
					b := st.next([]int{0, 1, 3, 600}[o])
					q = append(q, b...)
					n, err := p.Write(b)
					mustTrue(n == len(b) && err == nil, "write", "Write(%d) returned %d, %v", len(b), n, err)
					for i := range b {
						b[i] = 0xEE
					}
				case 4:
					b := string(st.next(2))
					q = append(q, b...)
					n, err := p.WriteString(b)
					mustTrue(n == 2 && err == nil, "writestring", "WriteString returned %d, %v", n, err)
				case 5:
					b, err := p.ReadByte()
					if len(q) == 0 {
						mustTrue(err == io.EOF, "eof", "ReadByte on an empty buffer returned %v, %v", b, err)
					} else {
						mustTrue(err == nil && b == q[0], "readbyte", "ReadByte returned %x, %v, want %x", b, err, q[0])
						q = q[1:]
					}
				case 6:
					n, _ := p.Read(nil)
					mustTrue(n == 0, "read", "Read(0) returned %d", n)
				case 7, 8, 9:
					b := make([]byte, []int{1, 2, 1000}[o-7])
					n, err := p.Read(b)
					if len(q) == 0 {
						mustTrue(n == 0 && isEOF(err), "eof", "Read on an empty buffer returned %d, %v", n, err)
						break
					}
					mustTrue(n > 0 && n <= len(q) && n <= len(b) && err == nil && bytes.Equal(b[:n], q[:n]), "read", "Read(%d) returned %d, %v, %x; queued %x", len(b), n, err, short(b), short(q))
					q = q[n:]
				case 10:
					b := make([]byte, 2)
					n, err := p.ReadAll(b)
					if len(q) < 2 {
						mustTrue(n == len(q) && err != nil && bytes.Equal(b[:n], q), "readall-short", "ReadAll(2) returned %d, %v; queued %x", n, err, q)
						q = nil
						break
					}
					mustTrue(n == 2 && err == nil && bytes.Equal(b, q[:2]), "readall", "ReadAll(2) returned %d, %v, %x; queued %x", n, err, b, short(q))
					q = q[2:]
				case 11:
					b := st.next(3)
					n, err := p.ReadFrom(bytes.NewReader(b))
					mustTrue(n == 3 && err == nil, "readfrom", "ReadFrom returned %d, %v", n, err)
					q = append(q, b...)
				case 12:
					var out bytes.Buffer
					n, err := p.WriteTo(&out)
					mustTrue(int(n) == len(q) && err == nil && bytes.Equal(out.Bytes(), q), "writeto", "WriteTo returned %d, %v, %x; queued %x", n, err, short(out.Bytes()), short(q))
					q = nil
				case 13:
					p.Reset()
					q = nil
				case 14:
					mustTrue(p.Close() == nil, "close", "Close failed")
					q = nil
				}
				mustTrue(p.Flush() == nil && p.Open() == nil, "flush", "Flush or Open failed")
				mustTrue(p.Len() == len(q), "len", "Len is %d, want %d after %s", p.Len(), len(q), names[o])
				mustTrue(bytes.Equal(p.Bytes(), q), "bytes", "Bytes is %x, want %x after %s", short(p.Bytes()), short(q), names[o])
				mustTrue(p.String() == string(q), "string", "String is %q, want %q after %s", p.String(), q, names[o])
				t.State(hInts(mi, len(q), o))
			}
		})
	}
	// sizes around growth
	c.Par("memory-sizes", 200, nil, func(t *T, i int) {
		p := thrift.NewTMemoryBuffer()
		var st stamp
		var q []byte
		for r := 0; r < 8; r++ {
			b := st.next((i*i*7 + r*r*13) % 70000)
			q = append(q, b...)
			n, err := p.Write(b)
			mustTrue(n == len(b) && err == nil, "write", "Write(%d): %d, %v", len(b), n, err)
			rd := make([]byte, (i*r*311)%5000)
			if len(q) == 0 || len(rd) == 0 {
				continue
			}
			n, err = p.Read(rd)
			mustTrue(n > 0 && n <= len(q) && err == nil && bytes.Equal(rd[:n], q[:n]), "read", "Read(%d): %d, %v", len(rd), n, err)
			q = q[n:]
		}
		rest, _ := io.ReadAll(p)
		mustTrue(bytes.Equal(rest, q), "rest", "%d bytes left, want %d", len(rest), len(q))
		t.Trace()
	})
	// stream transport
	kinds := []string{"default", "r", "w", "r+w", "rw", "rw-closer", "factory-rw", "factory-r+w"}
	sn := []string{"w0", "w1", "w3", "w5000", "flush", "in3", "in5000", "r1", "r2", "r5000", "all2", "close"}
	for ki := range kinds {
		ki := ki
		for _, failW := range []int{-1, 0, 1} {
			failW := failW
			opSeqs(c, fmt.Sprintf("stream-%s-fail%d", kinds[ki], failW), sn, c.Pick(4, 6), func(t *T, seq []int) {
				in := &pipeT{failW: -1}
				out := &pipeT{failW: failW}
				canR, canW, direct := true, true, false
				var p *thrift.TIOStreamTransport
				switch ki {
				case 0:
					p = thrift.NewTIOStreamTransportDefault()
					canR, canW = false, false
				case 1:
					p = thrift.NewTIOStreamTransportR(in)
					canW = false
				case 2:
					p = thrift.NewTIOStreamTransportW(out)
					canR = false
				case 3:
					p = thrift.NewTIOStreamTransportRAndW(in, out)
				case 4:
					out = in
					in.failW = failW
					direct = true
					p = thrift.NewTIOStreamTransportRW(in)
				case 5:
					out = in
					in.failW = failW
					direct = true
					p = thrift.NewTIOStreamTransportRW(closingPipe{in})
				case 6:
					out = in
					in.failW = failW
					direct = true
					p = thrift.NewTIOStreamTransportFactory(in, in, true).GetTransport(nil).(*thrift.TIOStreamTransport)
				case 7:
					p = thrift.NewTIOStreamTransportFactory(in, out, false).GetTransport(nil).(*thrift.TIOStreamTransport)
				}
				streamModel(t, p, in, out, canR, canW, direct, seq, ki)
			})
		}
	}
}

func isEOF(err error) bool {
	if err == io.EOF {
		return true
	}
	e, ok := err.(thrift.TTransportException)
	return ok && e.TypeId() == thrift.END_OF_FILE
}

func streamModel(t *T, p *thrift.TIOStreamTransport, in, out *pipeT, canR, canW, direct bool, seq []int, ki int) {
	var written, queued []byte // accepted for writing; readable
	flushed := 0
	closed, broken := false, false
	var st stamp
	for _, o := range seq {
		wasGot, wasReads, wasWrites := len(out.got), in.reads, out.writes
		switch o {
		case 0, 1, 2, 3:
			b := st.next([]int{0, 1, 3, 5000}[o])
			n, err := p.Write(b)
			for i := range b {
				b[i] ^= 0xff
			}
			if closed || !canW {
				mustTrue(n == 0 && notOpen(err), "not-open", "Write on a transport not open for writing returned %d, %v", n, err)
				break
			}
			for i := range b {
				b[i] ^= 0xff
			}
			if err != nil {
				mustTrue(out.faulted, "spurious", "Write(%d) failed without a fault: %v", len(b), err)
				broken = true
				break
			}
			mustTrue(n == len(b), "write", "Write(%d) returned %d, nil", len(b), n)
			mustTrue(!direct || !out.faulted || len(b) == 0, "hidden", "Write reported success on a failing stream")
			written = append(written, b...)
			for i := range b {
				b[i] = 0xEE
			}
		case 4:
			err := p.Flush()
			if closed || !canW {
				mustTrue(notOpen(err), "not-open", "Flush on a transport not open for writing returned %v", err)
				break
			}
			if err != nil {
				mustTrue(out.faulted, "spurious", "Flush failed without a fault: %v", err)
				broken = true
				break
			}
			if !broken {
				mustTrue(bytes.Equal(out.got, written), "flush", "after a successful flush the stream holds %d bytes, want %d", len(out.got), len(written))
				flushed = len(written)
			}
		case 5, 6:
			b := st.next([]int{3, 5000}[o-5])
			if !direct {
				in.q = append(in.q, b...)
				queued = append(queued, b...)
			} else {
				in.q = append(in.q, b...)
				queued = append(queued, b...)
			}
		case 7, 8, 9, 10:
			b := make([]byte, []int{1, 2, 5000, 2}[o-7])
			full := o == 10
			var n int
			var err error
			if full {
				n, err = p.ReadAll(b)
			} else {
				n, err = p.Read(b)
			}
			if closed || !canR {
				mustTrue(n == 0 && err != nil && (full || notOpen(err)), "not-open", "read on a transport not open for reading returned %d, %v", n, err)
				break
			}
			mustTrue(n >= 0 && n <= len(b) && n <= len(queued) && bytes.Equal(b[:n], queued[:n]), "data", "read returned %d bytes %x, queued %x", n, short(b[:min(n, len(b))]), short(queued))
			if full {
				mustTrue((err == nil) == (len(queued) >= 2) && (n == 2 || n == len(queued)), "readall", "ReadAll(2) returned %d, %v with %d queued", n, err, len(queued))
			} else if len(queued) == 0 {
				mustTrue(n == 0 && isEOF(err), "eof", "Read of an empty stream returned %d, %v", n, err)
			} else {
				mustTrue(n > 0 && err == nil, "read", "Read returned %d, %v with %d queued", n, err, len(queued))
			}
			queued = queued[n:]
		case 11:
			mustTrue(p.Close() == nil, "close", "Close failed")
			closed = true
			mustTrue(out.closes <= 1 && in.closes <= 1, "double-close", "the stream was closed twice")
			mustTrue(ki != 5 || in.closes == 1, "no-close", "the stream was not closed")
		}
		if closed && o != 11 {
			mustTrue(len(out.got) == wasGot && in.reads == wasReads && out.writes == wasWrites, "after-close", "the stream was used after Close")
		}
		mustTrue(bytes.HasPrefix(written, out.got) || broken, "order", "the stream received %x, written were %x", short(out.got), short(written))
		mustTrue(len(out.got) >= flushed, "lost", "flushed bytes are missing")
		t.State(hInts(7, ki, len(written), len(queued), len(out.got), o))
	}
}

// ---------------------------------------------------------------- C15

type connT struct {
	s *scriptT
}

type fakeAddr struct{}

func (fakeAddr) Network() string { return "tcp" }
func (fakeAddr) String() string  { return "127.0.0.1:1" }

func (c connT) Read(b []byte) (int, error)         { return c.s.Read(b) }
func (c connT) Write(b []byte) (int, error)        { return len(b), nil }
func (c connT) Close() error                       { return nil }
func (c connT) LocalAddr() net.Addr                { return fakeAddr{} }
func (c connT) RemoteAddr() net.Addr               { return fakeAddr{} }
func (c connT) SetDeadline(t time.Time) error      { return nil }
func (c connT) SetReadDeadline(t time.Time) error  { return nil }
func (c connT) SetWriteDeadline(t time.Time) error { return nil }

func fullReaders() []carrier {
	framedAt := func(k int) func(b []byte) []byte {
		return func(b []byte) []byte {
			if k >= len(b) {
				return append(frame(nil), append(frame(b), frame(nil)...)...)
			}
			return frames(b, k)
		}
	}
	fr := func(s *scriptT) thrift.TTransport { return thrift.NewTFramedTransport(s) }
	return []carrier{
		{"library", func(s *scriptT) thrift.TTransport { return s }, ident},
		{"stream-r", func(s *scriptT) thrift.TTransport { return thrift.NewTIOStreamTransportR(rwOnly{s}) }, ident},
		{"stream-rw", func(s *scriptT) thrift.TTransport { return thrift.NewTIOStreamTransportRW(rwOnly{s}) }, ident},
		{"stream-r+w", func(s *scriptT) thrift.TTransport { return thrift.NewTIOStreamTransportRAndW(rwOnly{s}, rwOnly{s}) }, ident},
		{"socket", func(s *scriptT) thrift.TTransport { p, _ := thrift.NewTSocketConn(connT{s}); return p }, ident},
		{"socket-timeout", func(s *scriptT) thrift.TTransport { p, _ := thrift.NewTSocketConnTimeout(connT{s}, 1e12); return p }, ident},
		{"nonblocking-socket", func(s *scriptT) thrift.TTransport { p, _ := thrift.NewTNonblockingSocketConn(connT{s}); return p }, ident},
		{"framed", fr, frame},
		{"framed-1", fr, framedAt(1)},
		{"framed-2", fr, framedAt(2)},
		{"framed-stream", func(s *scriptT) thrift.TTransport {
			return thrift.NewTFramedTransport(thrift.NewTIOStreamTransportR(rwOnly{s}))
		}, framedAt(1)},
		{"framed-socket", func(s *scriptT) thrift.TTransport {
			p, _ := thrift.NewTSocketConn(connT{s})
			return thrift.NewTFramedTransport(p)
		}, framedAt(3)},
	}
}

func runC15(c *Ctx) {
	c.Rule("every stream length up to the bound, every composition of it into reads, 0 to 2 empty reads in between, end reported with or after the last byte, by error, or not at all; every pair of request sizes; 12 transports")
	rd := fullReaders()
	maxL := c.Pick(7, 10)
	type job struct{ r, l, end int }
	var jobs []job
	for r := range rd {
		for l := 0; l <= maxL; l++ {
			for end := 0; end < 3; end++ {
				jobs = append(jobs, job{r, l, end})
			}
		}
	}
	c.Par("short", len(jobs), func(i int) string { j := jobs[i]; return fmt.Sprint(rd[j.r].name, " len ", j.l, " end ", j.end) }, func(t *T, i int) {
		j := jobs[i]
		var st stamp
		data := st.next(j.l)
		stream := rd[j.r].enc(data)
		if j.l > 0 && rd[j.r].name == "framed-1" {
			// also cut inside a frame: handled by C11; here whole streams only
			_ = stream
		}
		L := len(stream)
		lim := L
		if lim > maxL {
			lim = maxL // compositions of the first bytes, the rest in one piece
		}
		masks := 1
		if lim > 1 {
			masks = 1 << uint(lim-1)
		}
		for m := 0; m < masks; m++ {
			var cuts []int
			for b := 0; b < lim-1; b++ {
				if m>>uint(b)&1 == 1 {
					cuts = append(cuts, b+1)
				}
			}
			for empty := 0; empty <= 2; empty++ {
				for _, eof := range []bool{false, true} {
					if eof && j.end != 0 {
						continue
					}
					pl := plan{cuts: cuts, empty: empty, eof: eof}
					for n1 := 0; n1 <= j.l+1; n1++ {
						for n2 := 0; n2 <= j.l-n1+1; n2++ {
							t.Ops(3)
							t.Try(fmt.Sprint(pl, " requests ", n1, " ", n2), func() {
								s := &scriptT{data: stream, end: j.end}
								s.choose = pl.chooser(s)
								reqs := []int{-n1, -n2, -1}
								if n2 == 0 {
									reqs = []int{-n1, 1, -1}
								}
								if n1 == 0 {
									reqs = reqs[1:]
								}
								recvCheck(t, rd[j.r].wrap(s), data, reqs)
							})
						}
					}
				}
			}
			t.State(hInts(j.r, j.l, j.end, m))
			t.Trace()
		}
	})
	// zero-length requests succeed, wherever
	c.Par("zero", len(rd), func(i int) string { return rd[i].name }, func(t *T, i int) {
		for l := 0; l < 3; l++ {
			var st stamp
			data := st.next(l)
			s := &scriptT{data: rd[i].enc(data), end: 2}
			p := rd[i].wrap(s)
			for k := 0; k <= l; k++ {
				n, err := p.ReadAll(nil)
				mustTrue(n == 0 && err == nil, "zero", "ReadAll of nothing returned %d, %v", n, err)
				n, err = p.ReadAll([]byte{})
				mustTrue(n == 0 && err == nil, "zero", "ReadAll of nothing returned %d, %v", n, err)
				if k < l {
					b := make([]byte, 1)
					n, err = p.ReadAll(b)
					mustTrue(n == 1 && err == nil && b[0] == data[k], "one", "ReadAll(1) returned %d, %v", n, err)
				}
			}
			t.Trace()
		}
	})
	big := []int{1000, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000}
	type bj struct{ r, n int }
	var bjs []bj
	for r := range rd {
		for _, n := range big {
			bjs = append(bjs, bj{r, n})
		}
	}
	c.Par("long", len(bjs), func(i int) string { return fmt.Sprint(rd[bjs[i].r].name, " ", bjs[i].n) }, func(t *T, i int) {
		r, n := rd[bjs[i].r], bjs[i].n
		var st stamp
		data := st.next(n)
		stream := r.enc(data)
		for _, chunk := range []int{n + 100, 4096, 1448, 17, 65536, n / 2, n - 1, 1} {
			for end := 0; end < 3; end++ {
				for _, eof := range []bool{false, true} {
					for _, first := range []int{n, n - 1, 1, n / 2, n + 1, 4096} {
						if eof && end != 0 || chunk == 1 && n > 5000 {
							continue
						}
						t.Try(fmt.Sprint("chunk ", chunk, " end ", end, " eof ", eof, " first ", first), func() {
							s := &scriptT{data: stream, end: end}
							s.choose = plan{chunk: chunk, eof: eof}.chooser(s)
							reqs := []int{-first, -1}
							if first < n {
								reqs = []int{-first, -(n - first), -1}
							}
							recvCheck(t, r.wrap(s), data, reqs)
						})
						t.Trace()
						t.Ops(3)
					}
				}
			}
		}
		t.State(hInts(99, i))
	})
	// memory buffers, closed transports, server sockets
	c.Par("memory", 40, nil, func(t *T, i int) {
		var st stamp
		for _, piece := range []int{1, 3, 100} {
			for n1 := 0; n1 <= i+1; n1++ {
				data := st.next(i)
				p := thrift.NewTMemoryBufferLen(i % 5)
				for at := 0; at < i; at += piece {
					p.Write(data[at:min(at+piece, i)])
				}
				reqs := []int{-n1, -max(1, i-n1), -1}
				if n1 == 0 {
					reqs = reqs[1:]
				}
				t.Try(fmt.Sprint("first ", n1), func() { recvCheck(t, p, data, reqs) })
				t.Trace()
			}
		}
	})
	closed := []struct {
		name string
		p    func() thrift.TTransport
	}{
		{"socket", func() thrift.TTransport { return thrift.NewTSocketAddr(fakeAddr{}) }},
		{"nonblocking-socket", func() thrift.TTransport { p, _ := thrift.NewTNonblockingSocketAddr(fakeAddr{}); return p }},
		{"stream", func() thrift.TTransport { return thrift.NewTIOStreamTransportDefault() }},
		{"http", func() thrift.TTransport { p, _ := thrift.NewTHttpPostClient("http://127.0.0.1:1/"); return p }},
		{"framed-over-closed", func() thrift.TTransport {
			return thrift.NewTFramedTransport(thrift.NewTSocketAddr(fakeAddr{}))
		}},
		{"server-socket", func() thrift.TTransport { p, _ := thrift.NewTServerSocketAddr(fakeAddr{}); return p }},
		{"nonblocking-server-socket", func() thrift.TTransport { p, _ := thrift.NewTNonblockingServerSocketAddr(fakeAddr{}); return p }},
	}
	c.Par("closed", len(closed), func(i int) string { return closed[i].name }, func(t *T, i int) {
		for n := 1; n < 10; n++ {
			b := make([]byte, n)
			k, err := closed[i].p().ReadAll(b)
			mustTrue(k == 0 && err != nil, "closed", "ReadAll(%d) returned %d, %v", n, k, err)
			t.Trace()
		}
	})
}

var _ = errors.New
