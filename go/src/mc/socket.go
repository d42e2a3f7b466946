package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"thrift"
	"time"
)

func init() {
	checks["C13"] = checkDef{"model_checking", runC13}
	checks["C14"] = checkDef{"model_checking", runC14}
}

type strAddr struct{ n, s string }

func (a strAddr) Network() string { return a.n }
func (a strAddr) String() string  { return a.s }

var sockNo int64

// listenUnix makes a listening socket in the scratch directory.
func listenUnix() (*net.UnixListener, strAddr) {
	dir := os.Getenv("TMPDIR")
	if dir == "" {
		dir = "/tmp"
	}
	path := filepath.Join(dir, fmt.Sprintf("s%d.%d", os.Getpid(), atomic.AddInt64(&sockNo, 1)))
	l, err := net.ListenUnix("unix", &net.UnixAddr{Name: path, Net: "unix"})
	if err != nil {
		panic(failure{"harness", "listen: " + err.Error()})
	}
	return l, strAddr{"unix", path}
}

func hasType(err error, typ int) bool {
	e, ok := err.(thrift.TTransportException)
	return ok && e.TypeId() == typ
}

// faultConn is a scripted net.Conn: writes and reads can fail.
type faultConn struct {
	got          []byte
	in           []byte
	writes       int
	failW        int
	half, sticky bool
	faults       int
	readErr      error
	closes       int
	usedClosed   bool
}

func (c *faultConn) Read(b []byte) (int, error) {
	if c.closes > 0 {
		c.usedClosed = true
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, c.readErr
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *faultConn) Write(b []byte) (int, error) {
	if c.closes > 0 {
		c.usedClosed = true
		return 0, net.ErrClosed
	}
	k := c.writes
	c.writes++
	if c.failW >= 0 && (k == c.failW || c.sticky && k > c.failW) {
		c.faults++
		n := 0
		if c.half && k == c.failW {
			n = len(b) / 2
		}
		c.got = append(c.got, b[:n]...)
		return n, errInjected
	}
	c.got = append(c.got, b...)
	return len(b), nil
}
func (c *faultConn) Close() error                       { c.closes++; return nil }
func (c *faultConn) LocalAddr() net.Addr                { return fakeAddr{} }
func (c *faultConn) RemoteAddr() net.Addr               { return fakeAddr{} }
func (c *faultConn) SetDeadline(t time.Time) error      { return nil }
func (c *faultConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *faultConn) SetWriteDeadline(t time.Time) error { return nil }

// deadlineConn fails an operation whose deadline has passed or was not set as
// configured. Its clock advances by decree, not by waiting: a deadline set at
// real time t with skew s counts as t+s.
type deadlineConn struct {
	faultConn
	skew, cur time.Duration
	rd, wr    time.Time
	rs, ws    time.Duration // skew when it was set
	rl, wl    time.Duration // how long it was to last
}

func (c *deadlineConn) judge(d time.Time) {
	mustTrue(d.IsZero() == (c.cur == 0), "deadline", "timeout %v, deadline %v", c.cur, d)
	if c.cur == time.Hour {
		mustTrue(time.Until(d) > 30*time.Minute, "deadline", "timeout %v, deadline in %v", c.cur, time.Until(d))
	}
}
func (c *deadlineConn) Read(b []byte) (int, error) {
	c.judge(c.rd)
	if !c.rd.IsZero() && c.skew-c.rs >= c.rl {
		return 0, os.ErrDeadlineExceeded
	}
	return copy(b, "x"), nil
}
func (c *deadlineConn) Write(b []byte) (int, error) {
	c.judge(c.wr)
	if !c.wr.IsZero() && c.skew-c.ws >= c.wl {
		return 0, os.ErrDeadlineExceeded
	}
	return len(b), nil
}
func (c *deadlineConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *deadlineConn) SetReadDeadline(t time.Time) error {
	c.rd, c.rs, c.rl = t, c.skew, max(1, time.Until(t)) // however late it is by now
	return nil
}
func (c *deadlineConn) SetWriteDeadline(t time.Time) error {
	c.wr, c.ws, c.wl = t, c.skew, max(1, time.Until(t))
	return nil
}

func runC13(c *Ctx) {
	c.Rule("real sockets: every sequence up to the depth over open, close, writes, flush, reads, peer sending and peer closing, for both socket kinds against a peer that records everything")
	c.Rule("scripted connection: every sequence up to the depth over writes, flush, reads and close under every failing write (transient/sticky, none or half accepted) and read failure")
	kinds := []string{"socket", "socket-timeout", "nonblocking", "nonblocking-timeout", "nonblocking-factory"}
	mk := func(k int, a net.Addr) thrift.TTransport {
		switch k {
		case 0:
			return thrift.NewTSocketAddr(a)
		case 1:
			return thrift.NewTSocket(a, int64(time.Hour))
		case 2:
			p, _ := thrift.NewTNonblockingSocketAddr(a)
			return p
		case 3:
			p, _ := thrift.NewTNonblockingSocketAddrTimeout(a, int64(time.Hour))
			return p
		}
		return thrift.NewTNonblockingSocketTransportFactory(a).GetTransport(nil)
	}
	names := []string{"open", "close", "w0", "w2", "w5000", "flush", "send3", "r2", "r9", "all2", "peerclose"}
	var stop int32
	for k := range kinds {
		k := k
		depth := c.Pick(5, 6)
		if k != 0 && k != 2 {
			depth = 4
		}
		var pool sync.Pool
		type lst struct {
			l *net.UnixListener
			a strAddr
		}
		pool.New = func() interface{} { l, a := listenUnix(); return &lst{l, a} }
		opSeqs(c, "real-"+kinds[k], names, depth, func(t *T, seq []int) {
			if atomic.LoadInt32(&stop) > 6 {
				return
			}
			// a sequence that never opens is covered by those of the scripted kind
			ls := pool.Get().(*lst)
			defer pool.Put(ls)
			defer func() {
				if r := recover(); r != nil {
					atomic.AddInt32(&stop, 1)
					panic(r)
				}
			}()
			p := mk(k, ls.a)
			var st stamp
			var peer *net.UnixConn
			var written, flushed, seen, queued []byte
			peerClosed, wfailed := false, false
			defer func() {
				if peer != nil {
					peer.Close()
				}
			}()
			isOpen := false
			finish := func() {
				// the connection was closed: everything flushed must have arrived
				if peerClosed {
					return
				}
				peer.SetReadDeadline(time.Now().Add(5 * time.Second))
				rest, err := io.ReadAll(peer)
				all := append(seen, rest...)
				// a connection closed with unread input is reset by the system
				if err != nil && len(queued) == 0 {
					t.Failf("not-closed", "the peer does not see the connection end: %v", err)
				}
				mustTrue(bytes.HasPrefix(written, all), "bytes", "the peer received %x, written on this connection were %x", short(all), short(written))
				if err == nil {
					mustTrue(bytes.HasPrefix(all, flushed), "lost", "the peer received %d bytes, flushed were %d", len(all), len(flushed))
				}
				peer.Close()
				peer = nil
			}
			for _, o := range seq {
				switch o {
				case 0:
					err := p.Open()
					if isOpen {
						mustTrue(hasType(err, thrift.ALREADY_OPEN), "already-open", "Open of an open socket returned %v", err)
						break
					}
					mustTrue(err == nil, "open", "Open failed: %v", err)
					ls.l.SetDeadline(time.Now().Add(5 * time.Second))
					cn, err := ls.l.AcceptUnix()
					mustTrue(err == nil, "connect", "no connection arrived: %v", err)
					peer, isOpen, peerClosed, wfailed = cn, true, false, false
					written, flushed, seen, queued = nil, nil, nil, nil
				case 1:
					mustTrue(p.Close() == nil, "close", "Close failed")
					if isOpen {
						finish()
					}
					isOpen = false
				case 2, 3, 4:
					b := st.next([]int{0, 2, 5000}[o-2])
					n, err := p.Write(b)
					if !isOpen {
						mustTrue(n == 0 && notOpen(err), "not-open", "Write on a closed socket returned %d, %v", n, err)
						break
					}
					if err != nil {
						mustTrue(peerClosed, "write", "Write failed: %v", err)
						wfailed = true
						break
					}
					mustTrue(n == len(b), "write", "Write(%d) returned %d", len(b), n)
					written = append(written, b...)
					if k >= 2 {
						flushed = written
					}
					for i := range b {
						b[i] = 0xEE
					}
				case 5:
					err := p.Flush()
					if !isOpen {
						mustTrue(notOpen(err), "not-open", "Flush on a closed socket returned %v", err)
						break
					}
					if err != nil {
						mustTrue(peerClosed, "flush", "Flush failed: %v", err)
						wfailed = true
						break
					}
					if peerClosed {
						// the system may accept bytes for a peer that has gone (not on these sockets)
						break
					}
					flushed = written
				case 6:
					if peer == nil || peerClosed {
						break
					}
					b := st.next(3)
					peer.Write(b)
					queued = append(queued, b...)
				case 7, 8, 9:
					b := make([]byte, []int{2, 9, 2}[o-7])
					full := o == 9
					if isOpen && !peerClosed && (len(queued) == 0 || full && len(queued) < len(b)) {
						break // would wait
					}
					var n int
					var err error
					if full {
						n, err = p.ReadAll(b)
					} else {
						n, err = p.Read(b)
					}
					if !isOpen {
						mustTrue(n == 0 && err != nil && (full || notOpen(err)), "not-open", "read on a closed socket returned %d, %v", n, err)
						break
					}
					mustTrue(n >= 0 && n <= len(b) && n <= len(queued) && bytes.Equal(b[:n], queued[:n]), "data", "read returned %d %x, sent were %x", n, b[:min(n, len(b))], short(queued))
					if full {
						mustTrue((err == nil) == (len(queued) >= len(b)) && (err != nil || n == len(b)), "readall", "ReadAll(%d) returned %d, %v with %d sent", len(b), n, err, len(queued))
					} else if len(queued) > 0 {
						mustTrue(n > 0 && err == nil, "read", "Read returned %d, %v with %d sent", n, err, len(queued))
					} else {
						mustTrue(n == 0 && err != nil, "end", "Read after the peer closed returned %d, %v", n, err)
					}
					queued = queued[n:]
				case 10:
					if peer == nil || peerClosed {
						break
					}
					// take what has arrived, then close
					if len(flushed) > len(seen) {
						want := len(flushed) - len(seen)
						b := make([]byte, want)
						peer.SetReadDeadline(time.Now().Add(5 * time.Second))
						n, err := io.ReadFull(peer, b)
						mustTrue(err == nil, "lost", "the peer received %d bytes of %d flushed: %v", n, want, err)
						seen = append(seen, b...)
						mustTrue(bytes.Equal(seen, flushed), "bytes", "the peer received %x, flushed were %x", short(seen), short(flushed))
					}
					peer.Close()
					peerClosed = true
				}
				mustTrue(p.IsOpen() == isOpen && p.Peek() == isOpen, "state", "IsOpen %v, Peek %v, want %v after %s", p.IsOpen(), p.Peek(), isOpen, names[o])
				x := 0
				if isOpen {
					x = 1
				}
				if peerClosed {
					x += 2
				}
				t.State(hInts(k, x, len(written), len(flushed), len(queued)))
			}
			_ = wfailed
			if isOpen {
				mustTrue(p.Close() == nil, "close", "Close failed")
				finish()
			}
			ls.l.SetDeadline(time.Now().Add(-time.Second))
			if cn, err := ls.l.AcceptUnix(); err == nil {
				cn.Close()
				t.Failf("extra-connection", "an operation made a second connection")
			}
		})
	}
	// scripted connection
	var plans []framedFault
	plans = append(plans, framedFault{-1, -1, false, false})
	for i := 0; i < 4; i++ {
		for _, h := range []bool{false, true} {
			for _, s := range []bool{false, true} {
				plans = append(plans, framedFault{i, -1, h, s})
			}
		}
	}
	sn := []string{"w0", "w1", "w3", "w5000", "flush", "r2", "all2", "close"}
	for _, nb := range []bool{false, true} {
		nb := nb
		opSeqs(c, fmt.Sprintf("scripted-nonblocking=%v", nb), sn, c.Pick(5, 6), func(t *T, seq []int) {
			for pi, fp := range plans {
				cn := &faultConn{failW: fp.w, half: fp.half, sticky: fp.sticky, in: []byte("abc"), readErr: [2]error{io.EOF, errInjected}[pi&1]}
				var p thrift.TTransport
				if nb {
					p, _ = thrift.NewTNonblockingSocketConn(cn)
				} else {
					p, _ = thrift.NewTSocketConn(cn)
				}
				var written []byte
				var st stamp
				left := 3
				closed, lost := false, false
				for _, o := range seq {
					faults := cn.faults
					switch o {
					case 0, 1, 2, 3:
						b := st.next([]int{0, 1, 3, 5000}[o])
						n, err := p.Write(b)
						if closed {
							mustTrue(n == 0 && notOpen(err), "not-open", "Write on a closed socket returned %d, %v", n, err)
							break
						}
						if err != nil {
							mustTrue(cn.faults > faults, "spurious", "Write failed: %v", err)
							written = append(written, b[:max(0, min(n, len(b)))]...)
							lost = n < len(b)
							_ = lost
							break
						}
						mustTrue(n == len(b), "write", "Write(%d) returned %d, nil", len(b), n)
						mustTrue(!nb || cn.faults == faults, "hidden", "Write reported success although the connection failed")
						written = append(written, b...)
						if nb {
							mustTrue(bytes.Equal(cn.got, written), "write-through", "connection got %x, written %x", short(cn.got), short(written))
						}
						for i := range b {
							b[i] = 0xEE
						}
					case 4:
						err := p.Flush()
						if closed {
							mustTrue(notOpen(err), "not-open", "Flush on a closed socket returned %v", err)
							break
						}
						if err != nil {
							mustTrue(cn.faults > faults, "spurious", "Flush failed: %v", err)
							break
						}
						mustTrue(bytes.Equal(cn.got, written), "flush", "after a successful flush the connection has %d bytes %x, written were %d %x (plan %+v)", len(cn.got), short(cn.got), len(written), short(written), fp)
					case 5, 6:
						b := make([]byte, 2)
						var n int
						var err error
						if o == 5 {
							n, err = p.Read(b)
						} else {
							n, err = p.ReadAll(b)
						}
						if closed {
							mustTrue(n == 0 && err != nil && (o == 6 || notOpen(err)), "not-open", "read on a closed socket returned %d, %v", n, err)
							break
						}
						mustTrue(n <= left && string(b[:n]) == "abc"[3-left:3-left+n], "data", "read returned %q", b[:n])
						if o == 6 {
							mustTrue((err == nil) == (left >= 2), "readall", "ReadAll(2) returned %d, %v with %d left", n, err, left)
						} else {
							mustTrue((err == nil) == (left > 0), "read", "Read returned %d, %v with %d left", n, err, left)
							if left == 0 && cn.readErr == io.EOF {
								mustTrue(isEOF(err), "eof", "end of stream reported as %v", err)
							}
						}
						left -= n
					case 7:
						mustTrue(p.Close() == nil, "close", "Close failed")
						closed = true
						mustTrue(cn.closes == 1, "closes", "the connection was closed %d times", cn.closes)
					}
					mustTrue(p.IsOpen() != closed && p.Peek() != closed, "state", "IsOpen %v after %s", p.IsOpen(), sn[o])
					mustTrue(bytes.HasPrefix(written, cn.got), "order", "connection got %x, written were %x (plan %+v)", short(cn.got), short(written), fp)
					mustTrue(!cn.usedClosed, "use-after-close", "the connection was used after Close")
				}
				t.State(hInts(pi, len(written), len(cn.got), left))
			}
		})
	}
	runBroken(c, mk, kinds)
	// opening
	bad := []struct {
		name string
		a    net.Addr
	}{
		{"nil", nil}, {"no network", strAddr{"", "x"}}, {"no address", strAddr{"tcp", ""}}, {"unknown network", strAddr{"nosuch", "127.0.0.1:1"}},
		{"missing path", strAddr{"unix", "/nonexistent/verif"}}, {"refused", nil},
	}
	c.Par("open-failures", len(bad)*4, func(i int) string { return fmt.Sprint(bad[i/4].name, " kind ", i%4) }, func(t *T, i int) {
		b := bad[i/4]
		a := b.a
		if b.name == "refused" {
			l, ad := listenUnix()
			l.Close()
			a = ad
		}
		p := mk(i%4, a)
		for j := 0; j < 3; j++ {
			err := p.Open()
			mustTrue(hasType(err, thrift.NOT_OPEN), "open-failure", "Open of an impossible address returned %v", err)
			mustTrue(!p.IsOpen(), "state", "IsOpen after a failed Open")
			n, err := p.Write([]byte("x"))
			mustTrue(n == 0 && notOpen(err), "not-open", "Write after a failed Open returned %d, %v", n, err)
			mustTrue(notOpen(p.Flush()), "not-open", "Flush after a failed Open")
			n, err = p.Read(make([]byte, 1))
			mustTrue(n == 0 && notOpen(err), "not-open", "Read after a failed Open returned %d, %v", n, err)
			mustTrue(p.Close() == nil, "close", "Close of a closed socket failed")
		}
		t.Trace()
		t.State(hInts(55, i))
	})
	// timeouts: each operation has its own full time, and 0 means none
	tn := []string{"w2", "flush", "r1", "wait", "timeout=0", "timeout=2ms", "timeout=1h"}
	for _, nb := range []bool{false, true} {
		nb := nb
		opSeqs(c, fmt.Sprintf("timeouts-nonblocking=%v", nb), tn, c.Pick(4, 5), func(t *T, seq []int) {
			cn := &deadlineConn{}
			var p thrift.TTransport
			var set func(int64) error
			if nb {
				q, _ := thrift.NewTNonblockingSocketConn(cn)
				p, set = q, q.SetTimeout
			} else {
				q, _ := thrift.NewTSocketConn(cn)
				p, set = q, q.SetTimeout
			}
			cur := time.Duration(0)
			for _, o := range seq {
				cn.cur = cur
				switch o {
				case 0:
					n, err := p.Write([]byte("ab"))
					mustTrue(n == 2 && err == nil, "write", "Write returned %d, %v", n, err)
				case 1:
					mustTrue(p.Flush() == nil, "flush", "Flush failed although its time was not over")
				case 2:
					n, err := p.Read(make([]byte, 1))
					mustTrue(n == 1 && err == nil, "read", "Read returned %d, %v although its time was not over", n, err)
				case 3:
					cn.skew += 10 * time.Millisecond // the clock of the connection advances
				case 4, 5, 6:
					cur = []time.Duration{0, 2 * time.Millisecond, time.Hour}[o-4]
					mustTrue(set(int64(cur)) == nil, "set", "SetTimeout failed")
				}
				t.State(hInts(31, int(cur), int(cn.skew/time.Millisecond)))
			}
		})
	}
	timeoutValues(c)
	adopted(c)
	openTimeout(c)
	// over TCP, several connections one after another, large data both ways
	c.Par("tcp", 8, func(i int) string { return fmt.Sprint(i) }, func(t *T, i int) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		defer l.Close()
		p := mk(i%4, l.Addr())
		var st stamp
		for round := 0; round < 4; round++ {
			if err := p.Open(); err != nil {
				t.Failf("open", "%v", err)
			}
			cn, err := l.Accept()
			mustTrue(err == nil, "accept", "%v", err)
			data := st.next(1 + (200000 >> uint(round+i/4)))
			done := make(chan []byte, 1)
			go func() { b, _ := io.ReadAll(cn); done <- b }()
			for at := 0; at < len(data); at += 777 {
				p.Write(data[at:min(at+777, len(data))])
			}
			mustTrue(p.Flush() == nil, "flush", "Flush failed")
			p.Write([]byte("unflushed"))
			go cn.Write(data)
			back := make([]byte, len(data))
			n, err := p.ReadAll(back)
			mustTrue(n == len(data) && err == nil && bytes.Equal(back, data), "readall", "ReadAll(%d) returned %d, %v", len(data), n, err)
			mustTrue(p.Close() == nil, "close", "Close failed")
			got := <-done
			cn.Close()
			mustTrue(bytes.HasPrefix(got, data) && bytes.HasPrefix(append(data, "unflushed"...), got), "bytes", "peer received %d bytes, want %d", len(got), len(data))
			t.Trace()
		}
	})
}

// timeoutValues: every operation sets the deadline its timeout says, whatever
// the timeout's size.
func timeoutValues(c *Ctx) {
	tos := []time.Duration{1, 999, time.Microsecond, 999 * time.Microsecond, time.Millisecond - 1, time.Millisecond, 1500 * time.Microsecond, 10 * time.Millisecond,
		time.Second - 1, time.Second, 1500 * time.Millisecond, time.Minute, time.Hour, 24 * time.Hour, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 50, 1 << 61}
	c.Par("timeout-values", len(tos)*len(tos)*2, func(i int) string { return fmt.Sprint(tos[i/2/len(tos)], " then ", tos[i/2%len(tos)], " ", i%2) }, func(t *T, i int) {
		cn := &recordConn{}
		var p interface {
			thrift.TTransport
			SetTimeout(int64) error
		}
		first := tos[i/2/len(tos)]
		if i%2 == 1 {
			p, _ = thrift.NewTNonblockingSocketConn(cn)
			mustTrue(p.SetTimeout(int64(first)) == nil, "set", "SetTimeout failed")
		} else {
			p, _ = thrift.NewTSocketConnTimeout(cn, int64(first))
		}
		look := func(d time.Duration) {
			for op := 0; op < 3; op++ {
				if op == 1 {
					p.Write([]byte("ab"))
					if i%2 == 0 {
						continue // buffered until the flush
					}
				}
				cn.atRead, cn.atWrite = time.Time{}, time.Time{}
				before := time.Now()
				var at *time.Time
				switch op {
				case 0:
					p.Read(make([]byte, 1))
					at = &cn.atRead
				case 1:
					p.Write([]byte("ab"))
					at = &cn.atWrite
				case 2:
					p.Flush()
					if i%2 == 1 {
						continue // written already
					}
					at = &cn.atWrite
				}
				after := time.Now()
				mustTrue(!at.Before(before.Add(d)) && !at.After(after.Add(d)), "deadline", "operation %d with timeout %v took place with the deadline %v after it began", op, d, at.Sub(before))
			}
		}
		look(first)
		d := tos[i/2%len(tos)]
		mustTrue(p.SetTimeout(int64(d)) == nil, "set", "SetTimeout failed")
		look(d)
		t.Trace()
		t.State(hInts(33, i))
	})
}

// recordConn notes the deadlines its operations took place with.
type recordConn struct {
	faultConn
	rd, wr, atRead, atWrite time.Time
}

func (c *recordConn) Read(b []byte) (int, error)  { c.atRead = c.rd; return copy(b, "x"), nil }
func (c *recordConn) Write(b []byte) (int, error) { c.atWrite = c.wr; return len(b), nil }
func (c *recordConn) SetDeadline(t time.Time) error {
	c.rd, c.wr = t, t
	return nil
}
func (c *recordConn) SetReadDeadline(t time.Time) error  { c.rd = t; return nil }
func (c *recordConn) SetWriteDeadline(t time.Time) error { c.wr = t; return nil }

// adopted: a socket made from a connection opens again to the peer it was
// connected to.
func adopted(c *Ctx) {
	opSeqs(c, "adopted", []string{"open", "close", "exchange"}, c.Pick(5, 7), func(t *T, seq []int) {
		for kind := 0; kind < 6; kind++ {
			var l net.Listener
			var err error
			if kind%2 == 0 {
				l, err = net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					t.Failf("harness", "%v", err)
				}
			} else {
				l, _ = listenUnix()
			}
			cn, err := net.Dial(l.Addr().Network(), l.Addr().String())
			if err != nil {
				t.Failf("harness", "%v", err)
			}
			accept := func() net.Conn {
				l.(interface{ SetDeadline(time.Time) error }).SetDeadline(time.Now().Add(5 * time.Second))
				peer, err := l.Accept()
				mustTrue(err == nil, "connect", "no connection arrived at the peer: %v", err)
				return peer
			}
			peer := accept()
			var p thrift.TTransport
			switch kind / 2 {
			case 0:
				p, _ = thrift.NewTSocketConn(cn)
			case 1:
				p, _ = thrift.NewTSocketConnTimeout(cn, int64(10*time.Second))
			case 2:
				p, _ = thrift.NewTNonblockingSocketConn(cn)
			}
			open := true
			for _, o := range seq {
				switch o {
				case 0:
					err := p.Open()
					if open {
						mustTrue(hasType(err, thrift.ALREADY_OPEN), "already-open", "Open of an open socket returned %v", err)
						break
					}
					mustTrue(err == nil, "open", "Open failed: %v", err)
					peer = accept()
					open = true
				case 1:
					mustTrue(p.Close() == nil, "close", "Close failed")
					if open {
						peer.Close()
					}
					open = false
				case 2:
					n, err := p.Write([]byte("ping"))
					err2 := p.Flush()
					if !open {
						mustTrue(n == 0 && notOpen(err) && notOpen(err2), "not-open", "a closed socket was written and flushed: %v, %v", err, err2)
						break
					}
					mustTrue(n == 4 && err == nil && err2 == nil, "write", "writing: %d, %v, %v", n, err, err2)
					b := make([]byte, 4)
					peer.SetDeadline(time.Now().Add(5 * time.Second))
					_, err = io.ReadFull(peer, b)
					mustTrue(err == nil && string(b) == "ping", "bytes", "the peer received %q, %v", b, err)
					peer.Write([]byte("pong"))
					n, err = p.ReadAll(b)
					mustTrue(n == 4 && err == nil && string(b) == "pong", "bytes", "read %q, %v", b, err)
				}
				mustTrue(p.IsOpen() == open, "state", "IsOpen is %v", p.IsOpen())
			}
			p.Close()
			if open {
				peer.Close()
			}
			l.Close()
			t.State(hInts(34, kind, len(seq)))
		}
	})
}

// openTimeout: opening a socket whose peer never answers ends with the timeout.
func openTimeout(c *Ctx) {
	c.Par("open-timeout", 4, nil, func(t *T, i int) {
		// a listener whose queue is full answers nothing
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			return
		}
		defer syscall.Close(fd)
		if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
			return
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			return
		}
		a := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: sa.(*syscall.SockaddrInet4).Port}
		for k := 0; ; k++ {
			cn, err := net.DialTimeout("tcp", a.String(), 300*time.Millisecond)
			if err != nil {
				break
			}
			defer cn.Close()
			if k == 10 {
				return // this system accepts without end
			}
		}
		to := int64([]time.Duration{50 * time.Millisecond, 400 * time.Millisecond}[i/2])
		var p thrift.TTransport
		if i%2 == 0 {
			p = thrift.NewTSocket(a, to)
		} else {
			p, _ = thrift.NewTNonblockingSocketAddrTimeout(a, to)
		}
		done := make(chan error, 1)
		start := time.Now()
		go func() { done <- p.Open() }()
		select {
		case err := <-done:
			took := time.Since(start)
			if err == nil {
				return
			}
			mustTrue(hasType(err, thrift.NOT_OPEN), "open-timeout", "Open returned %v", err)
			mustTrue(took >= time.Duration(to)-20*time.Millisecond, "open-timeout", "Open gave up after %v, the timeout is %v", took, time.Duration(to))
			mustTrue(!p.IsOpen(), "state", "IsOpen after a failed Open")
		case <-time.After(25 * time.Second):
			t.Failf("open-timeout", "Open with a timeout of %v was not over after 25 s", time.Duration(to))
		}
		t.Trace()
		t.State(hInts(35, i))
	})
}

// ---------------------------------------------------------------- C14

type httpReq struct {
	method, ctype string
	body          []byte
}

type httpSession struct {
	mode int
	body []byte
	reqs []httpReq
}

type httpServer struct {
	url string
	mu  sync.Mutex
	m   map[string]*httpSession
	srv *http.Server
}

// response modes
const (
	hOK = iota
	hEmpty
	hChunked
	h500
	h404
	hNoContent
	hDrop
	hTruncated
)

func newHTTPServer() *httpServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(failure{"harness", err.Error()})
	}
	h := &httpServer{url: "http://" + l.Addr().String() + "/", m: map[string]*httpSession{}}
	h.srv = &http.Server{Handler: h}
	go h.srv.Serve(l)
	return h
}

func (h *httpServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.mu.Lock()
	s := h.m[strings.TrimPrefix(r.URL.Path, "/")]
	h.mu.Unlock()
	b, _ := io.ReadAll(r.Body)
	if s == nil {
		w.WriteHeader(418)
		return
	}
	h.mu.Lock()
	s.reqs = append(s.reqs, httpReq{r.Method, r.Header.Get("Content-Type"), b})
	mode, body := s.mode, s.body
	h.mu.Unlock()
	switch mode {
	case hOK:
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body)
	case hEmpty:
	case hChunked:
		for len(body) > 0 {
			n := min(len(body), 1000)
			w.Write(body[:n])
			w.(http.Flusher).Flush()
			body = body[n:]
		}
	case h500:
		w.WriteHeader(500)
		w.Write(body)
	case h404:
		w.WriteHeader(404)
		w.Write(body)
	case hNoContent:
		w.WriteHeader(202)
		w.Write(body)
	case hDrop:
		hj, _, _ := w.(http.Hijacker).Hijack()
		hj.Close()
	case hTruncated:
		w.Header().Set("Content-Length", strconv.Itoa(len(body)+5))
		w.Write(body)
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	}
}

func runC14(c *Ctx) {
	c.Rule("every sequence up to the depth over writes, reads, close and flushes answered in eight ways (three kinds of success, three error statuses, dropped connection, truncated body), against a real HTTP server that records every request")
	names := []string{"w0", "w3", "w5000", "ok", "empty", "chunked", "500", "404", "202", "drop", "trunc", "r2", "r9000", "all2", "close", "refused"}
	c.Extra("server", "net/http on the loopback interface")
	for _, kind := range []int{0, 1, 2} {
		kind := kind
		depth := 4
		if kind > 0 {
			depth = 3
		}
		if c.Thorough() {
			depth++
		}
		var pool sync.Pool
		pool.New = func() interface{} { return newHTTPServer() }
		var ids int64
		opSeqs(c, []string{"post", "get", "factory"}[kind], names, depth, func(t *T, seq []int) {
			h := pool.Get().(*httpServer)
			defer pool.Put(h)
			id := fmt.Sprintf("%d.%d", kind, atomic.AddInt64(&ids, 1))
			s := &httpSession{mode: hOK, body: []byte("hello")}
			h.mu.Lock()
			h.m[id] = s
			h.mu.Unlock()
			defer func() { h.mu.Lock(); delete(h.m, id); h.mu.Unlock() }()
			var p thrift.TTransport
			var err error
			var resp []byte
			haveResp, trunc := false, false
			post := kind != 1
			switch kind {
			case 0:
				p, err = thrift.NewTHttpPostClient(h.url + id)
			case 1:
				p, err = thrift.NewTHttpClient(h.url + id)
				resp, haveResp = []byte("hello"), true
				mustTrue(len(s.reqs) == 1 && s.reqs[0].method == "GET", "get", "the GET client sent %d requests", len(s.reqs))
			case 2:
				p = thrift.NewTHttpPostClientTransportFactory(h.url + id).GetTransport(nil)
			}
			mustTrue(err == nil && p != nil, "make", "making the client failed: %v", err)
			closed := false
			var pend []byte
			var st stamp
			for _, o := range seq {
				nreq := len(s.reqs)
				switch {
				case o < 3:
					b := st.next([]int{0, 3, 5000}[o])
					n, err := p.Write(b)
					if closed || !post {
						mustTrue(err != nil && n == 0, "not-open", "Write on a client not open for writing returned %d, %v", n, err)
						break
					}
					mustTrue(n == len(b) && err == nil, "write", "Write(%d) returned %d, %v", len(b), n, err)
					pend = append(pend, b...)
					for i := range b {
						b[i] = 0xEE
					}
					mustTrue(len(s.reqs) == nreq, "early", "a request was sent before the flush")
				case o < 11:
					h.mu.Lock()
					s.mode = o - 3
					s.body = st.next([]int{5, 0, 3500, 4, 4, 4, 0, 7}[o-3])
					h.mu.Unlock()
					err := p.Flush()
					if closed || !post {
						mustTrue(err != nil, "not-open", "Flush on a client not open for writing succeeded")
						mustTrue(len(s.reqs) == nreq, "request", "Flush on a client not open for writing sent a request")
						break
					}
					h.mu.Lock()
					rq := append([]httpReq(nil), s.reqs[nreq:]...)
					h.mu.Unlock()
					mustTrue(len(rq) == 1, "requests", "one flush sent %d requests", len(rq))
					mustTrue(rq[0].method == "POST" && bytes.Equal(rq[0].body, pend), "body", "flush sent %s with %x, written were %x", rq[0].method, short(rq[0].body), short(pend))
					mustTrue(rq[0].ctype == "application/x-thrift", "ctype", "content type %q", rq[0].ctype)
					pend = nil
					haveResp, trunc, resp = false, false, nil
					switch s.mode {
					case hOK, hEmpty, hChunked, hTruncated:
						mustTrue(err == nil, "flush", "Flush failed although the server answered 200: %v", err)
						haveResp, resp = true, append([]byte(nil), s.body...)
						trunc = s.mode == hTruncated
					default:
						mustTrue(err != nil, "hidden", "Flush reported success for %s", names[o])
					}
				case o == 15:
					// nobody listens: not reachable through this client's URL, so a
					// failing proxy for it is the dropped connection above; use reads
					mustTrue(p.IsOpen() == !closed || !post, "state", "IsOpen %v, want %v", p.IsOpen(), !closed)
				case o < 14:
					b := make([]byte, []int{2, 9000, 2}[o-11])
					full := o == 13
					var n int
					var err error
					if full {
						n, err = p.ReadAll(b)
					} else {
						n, err = p.Read(b)
					}
					if closed || !haveResp {
						mustTrue(n == 0 && err != nil, "stale", "a read without a response returned %d, %v, %x", n, err, short(b))
						break
					}
					mustTrue(n >= 0 && n <= len(resp) && bytes.Equal(b[:n], resp[:n]), "data", "read returned %x, the response has %x", short(b[:min(n, len(b))]), short(resp))
					if full {
						mustTrue((err == nil) == (len(resp) >= 2), "readall", "ReadAll(2) returned %d, %v with %d to come", n, err, len(resp))
					} else if len(resp) == 0 {
						mustTrue(err != nil, "end", "Read after the response's end returned %d, %v", n, err)
						mustTrue(isEOF(err) != trunc, "end-kind", "end of a response (truncated: %v) reported as %v", trunc, err)
					} else {
						mustTrue(n > 0, "read", "Read returned %d, %v with %d to come", n, err, len(resp))
						mustTrue(err == nil || n == len(resp), "read", "Read returned %d, %v with %d to come", n, err, len(resp))
					}
					resp = resp[n:]
				case o == 14:
					p.Close()
					closed = true
				}
				if closed {
					mustTrue(!p.IsOpen() && !p.Peek(), "state", "the client is open after Close")
				} else if post {
					mustTrue(p.IsOpen(), "state", "the client is not open after %s", names[o])
				}
				x := 0
				if haveResp {
					x = 1
				}
				if closed {
					x += 2
				}
				t.State(hInts(kind, x, len(pend), len(resp)))
			}
			p.Close()
		})
	}
	// a server that is not there
	c.Par("refused", 4, nil, func(t *T, i int) {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		addr := l.Addr().String()
		l.Close()
		p, err := thrift.NewTHttpPostClient("http://" + addr + "/x")
		mustTrue(err == nil, "make", "%v", err)
		for j := 0; j < 3; j++ {
			p.Write([]byte("lost"))
			mustTrue(p.Flush() != nil, "hidden", "Flush to nobody succeeded")
			n, err := p.Read(make([]byte, 5))
			mustTrue(n == 0 && err != nil, "stale", "Read after a failed request returned %d, %v", n, err)
		}
		l2, err := net.Listen("tcp", addr)
		if err != nil {
			return // the port was taken meanwhile
		}
		h := &httpServer{m: map[string]*httpSession{}}
		s := &httpSession{mode: hOK, body: []byte("fine")}
		h.m["x"] = s
		h.srv = &http.Server{Handler: h}
		go h.srv.Serve(l2)
		defer h.srv.Close()
		p.Write([]byte("new"))
		mustTrue(p.Flush() == nil, "flush", "Flush failed")
		mustTrue(len(s.reqs) == 1 && string(s.reqs[0].body) == "new", "body", "after failed requests a flush of \"new\" sent %q", s.reqs[0].body)
		b := make([]byte, 4)
		n, err := p.ReadAll(b)
		mustTrue(n == 4 && err == nil && string(b) == "fine", "data", "ReadAll returned %d, %v, %q", n, err, b)
		t.Trace()
	})
	// large bodies
	c.Par("sizes", 6, nil, func(t *T, i int) {
		h := newHTTPServer()
		defer h.srv.Close()
		s := &httpSession{}
		h.m["x"] = s
		p, err := thrift.NewTHttpPostClient(h.url + "x")
		mustTrue(err == nil, "make", "%v", err)
		var st stamp
		for r := 0; r < 6; r++ {
			s.mode = []int{hOK, hChunked}[r%2]
			s.body = st.next([]int{1023, 1024, 1025, 4096, 65537, 300000}[(r+i)%6])
			req := st.next([]int{300000, 65537, 4096, 1025, 1024, 1023}[(r+i)%6])
			for at := 0; at < len(req); at += 999 {
				p.Write(req[at:min(at+999, len(req))])
			}
			mustTrue(p.Flush() == nil, "flush", "Flush failed")
			mustTrue(len(s.reqs) == r+1 && bytes.Equal(s.reqs[r].body, req), "body", "request body of %d bytes differs", len(req))
			b := make([]byte, len(s.body))
			n, err := p.ReadAll(b)
			mustTrue(n == len(b) && err == nil && bytes.Equal(b, s.body), "data", "ReadAll(%d) returned %d, %v", len(b), n, err)
			n, err = p.Read(make([]byte, 1))
			mustTrue(n == 0 && isEOF(err), "end", "Read after the end returned %d, %v", n, err)
			t.Trace()
		}
	})
}

// unixName is an unused address in the scratch directory.
func unixName() strAddr {
	dir := os.Getenv("TMPDIR")
	if dir == "" {
		dir = "/tmp"
	}
	return strAddr{"unix", filepath.Join(dir, fmt.Sprintf("s%d.%d", os.Getpid(), atomic.AddInt64(&sockNo, 1)))}
}

// runBroken: connections that are interrupted, closed from below or fail to
// close. Whatever happened, Close leaves the socket closed and it opens again.
func runBroken(c *Ctx, mk func(k int, a net.Addr) thrift.TTransport, kinds []string) {
	c.Rule("interrupted sockets: every sequence up to the depth over open, close, interrupt, write, flush, read and peer closing, on real sockets")
	names := []string{"open", "close", "interrupt", "w2", "flush", "r1", "peerclose"}
	for k := range kinds {
		k := k
		var pool sync.Pool
		type lst struct {
			l *net.UnixListener
			a strAddr
		}
		pool.New = func() interface{} { l, a := listenUnix(); return &lst{l, a} }
		opSeqs(c, "interrupt-"+kinds[k], names, c.Pick(5, 6), func(t *T, seq []int) {
			ls := pool.Get().(*lst)
			defer pool.Put(ls)
			p := mk(k, ls.a)
			in := p.(interface{ Interrupt() error })
			var peer *net.UnixConn
			var written []byte
			var st stamp
			const (
				closed = iota
				open
				broken
			)
			state, pend, gone := closed, 0, false
			defer p.Close()
			drop := func() {
				if peer == nil {
					return
				}
				if !gone {
					peer.SetReadDeadline(time.Now().Add(5 * time.Second))
					got, err := io.ReadAll(peer)
					mustTrue(err == nil, "not-closed", "the peer does not see the connection end: %v", err)
					mustTrue(bytes.HasPrefix(written, got), "bytes", "the peer received %x, written on this connection were %x", short(got), short(written))
				}
				peer.Close()
				peer = nil
			}
			for _, o := range seq {
				switch o {
				case 0:
					was := p.IsOpen()
					err := p.Open()
					if state == open || state == broken && was {
						mustTrue(hasType(err, thrift.ALREADY_OPEN), "already-open", "Open of an open socket returned %v", err)
						break
					}
					mustTrue(err == nil, "open", "Open failed: %v", err)
					drop()
					ls.l.SetDeadline(time.Now().Add(5 * time.Second))
					cn, err := ls.l.AcceptUnix()
					mustTrue(err == nil, "connect", "no connection arrived: %v", err)
					peer, state, written, pend, gone = cn, open, nil, 0, false
				case 1:
					err := p.Close()
					mustTrue(err == nil || state == broken, "close", "Close failed: %v", err)
					drop()
					state = closed
				case 2:
					err := in.Interrupt()
					mustTrue(err == nil || state == broken, "interrupt", "Interrupt failed: %v", err)
					if state == open {
						drop() // the connection ends at once
						state = broken
					}
				case 3:
					b := st.next(2)
					n, err := p.Write(b)
					switch {
					case state == closed:
						mustTrue(n == 0 && notOpen(err), "not-open", "Write on a closed socket returned %d, %v", n, err)
					case err == nil:
						mustTrue(n == 2, "write", "Write(2) returned %d", n)
						written = append(written, b...)
						pend += 2
						mustTrue(state == open || k < 2, "write-interrupted", "a socket that does not buffer accepted a write after the interrupt")
					default:
						mustTrue(state == broken || gone, "write", "Write failed: %v", err)
					}
				case 4:
					err := p.Flush()
					switch state {
					case closed:
						mustTrue(notOpen(err), "not-open", "Flush on a closed socket returned %v", err)
					case broken:
						mustTrue(err != nil || pend == 0, "flush-interrupted", "Flush after an interrupt reported success")
					default:
						mustTrue(err == nil || gone, "flush", "Flush failed: %v", err)
						pend = 0
					}
				case 5:
					if state == open && !gone {
						peer.Write([]byte("z"))
					}
					b := make([]byte, 1)
					n, err := p.Read(b)
					switch {
					case state == closed:
						mustTrue(n == 0 && notOpen(err), "not-open", "Read on a closed socket returned %d, %v", n, err)
					case state == broken || gone:
						mustTrue(n == 0 && err != nil, "read-interrupted", "Read returned %d, %v", n, err)
					default:
						mustTrue(n == 1 && b[0] == 'z' && err == nil, "read", "Read returned %d, %v", n, err)
					}
				case 6:
					if peer != nil && !gone && state == open {
						peer.Close()
						gone = true
					}
				}
				switch state {
				case open:
					mustTrue(p.IsOpen() && p.Peek(), "state", "not open after %s", names[o])
				case closed:
					mustTrue(!p.IsOpen() && !p.Peek(), "state", "open after %s", names[o])
				}
				if q, ok := p.(*thrift.TSocket); ok && state != broken {
					mustTrue((q.Conn() != nil) == (state == open), "conn", "Conn is %v after %s", q.Conn(), names[o])
				}
				if q, ok := p.(*thrift.TNonblockingSocket); ok {
					mustTrue(q.Addr() == net.Addr(ls.a), "addr", "Addr is %v", q.Addr())
				}
				t.State(hInts(70, k, state, pend, len(written)))
			}
			p.Close()
			drop()
			ls.l.SetDeadline(time.Now().Add(-time.Second))
			if cn, err := ls.l.AcceptUnix(); err == nil {
				cn.Close()
				t.Failf("extra-connection", "an operation made a second connection")
			}
		})
	}
	// a connection that reports an error when it is closed
	sn := []string{"w2", "flush", "r1", "close"}
	for _, nb := range []bool{false, true} {
		nb := nb
		opSeqs(c, fmt.Sprintf("close-fails-nonblocking=%v", nb), sn, c.Pick(4, 6), func(t *T, seq []int) {
			cn := &badCloseConn{faultConn{failW: -1, in: []byte("abc"), readErr: io.EOF}}
			var p thrift.TTransport
			if nb {
				p, _ = thrift.NewTNonblockingSocketConn(cn)
			} else {
				p, _ = thrift.NewTSocketConn(cn)
			}
			closed := false
			for _, o := range seq {
				var err error
				switch o {
				case 0:
					_, err = p.Write([]byte("ab"))
				case 1:
					err = p.Flush()
				case 2:
					_, err = p.Read(make([]byte, 1))
					if !closed && isEOF(err) {
						err = nil
					}
				case 3:
					err := p.Close()
					mustTrue((err == nil) == closed, "close-error", "closing reported %v; the connection fails to close", err)
					closed = true
				}
				if o < 3 {
					mustTrue(closed == notOpen(err) && (closed || err == nil), "not-open", "%s: %v", sn[o], err)
				}
				mustTrue(p.IsOpen() != closed, "state", "IsOpen is %v after %s", p.IsOpen(), sn[o])
				mustTrue(!cn.usedClosed && cn.closes <= 1, "use-after-close", "the connection was used after Close")
				t.State(hInts(71, cn.closes, len(cn.got), len(cn.in)))
			}
		})
	}
}

type badCloseConn struct{ faultConn }

func (c *badCloseConn) Close() error { c.closes++; return errInjected }
