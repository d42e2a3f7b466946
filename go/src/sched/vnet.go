package sched

import (
	"errors"
	"io"
	"net"
	"sync/atomic"
	"time"
)

// The virtual network: one table of listening addresses.

type VListener struct {
	addr   vaddr
	closed bool
	queue  []*VConn
	sync   int32 // as the real one, orders Accept and Close
	// Accepted counts the connections handed out.
	Accepted  int
	CloseErr  error
	AcceptErr []error // consumed one per call of Accept, nil entries accept
	calls     int
}

type vaddr string

func (vaddr) Network() string  { return "tcp" }
func (a vaddr) String() string { return string(a) }

// Addr is an address of the virtual network.
func Addr(s string) net.Addr { return vaddr(s) }

var (
	table    [8]*VListener
	ntable   int
	clock    int
	Listened int
	// Dialed counts the connections made through NetDial.
	Dialed int
	// ListenErr fails the next calls of Listen, one entry each.
	ListenErr []error
	// AcceptErrs is what the first calls of Accept of every new listener return.
	AcceptErrs []error
	acceptLog  []int // clock values
)

var ErrClosed = errors.New("use of closed network connection")
var ErrInUse = errors.New("address already in use")
var ErrRefused = errors.New("connection refused")

// ResetNet forgets everything.
//
//go:norace
func ResetNet() {
	ntable, clock, Listened, ListenErr = 0, 0, 0, nil
	Dialed = 0
	AcceptErrs = nil
	acceptLog = nil
}

// Clock is a counter of network events.
//
//go:norace
func Clock() int { clock++; return clock }

// AcceptLog lists the times at which connections were accepted.
//
//go:norace
func AcceptLog() []int { return acceptLog }

// OpenAt returns the listener open at an address.
//
//go:norace
func OpenAt(a string) *VListener {
	for i := 0; i < ntable; i++ {
		if !table[i].closed && string(table[i].addr) == a {
			return table[i]
		}
	}
	return nil
}

//go:norace
func OpenCount() int {
	n := 0
	for i := 0; i < ntable; i++ {
		if !table[i].closed {
			n++
		}
	}
	return n
}

//go:norace
func Listen(network, addr string) (net.Listener, error) {
	Step("listen " + addr)
	if Unwinding() {
		return nil, ErrClosed
	}
	if len(ListenErr) > 0 {
		e := ListenErr[0]
		ListenErr = ListenErr[1:]
		if e != nil {
			return nil, e
		}
	}
	if OpenAt(addr) != nil {
		return nil, ErrInUse
	}
	if ntable == len(table) {
		panic("sched: too many listeners")
	}
	l := &VListener{addr: vaddr(addr), AcceptErr: AcceptErrs}
	table[ntable] = l
	ntable++
	Listened++
	return l, nil
}

type acceptWait struct{ l *VListener }

//go:norace
func (w acceptWait) Ready() bool  { return w.l.closed || len(w.l.queue) > 0 }
func (w acceptWait) What() string { return "a connection to accept" }

//go:norace
func (l *VListener) Accept() (net.Conn, error) {
	if Unwinding() {
		return nil, ErrClosed
	}
	atomic.AddInt32(&l.sync, 1)
	Step("accept")
	if l.calls < len(l.AcceptErr) {
		e := l.AcceptErr[l.calls]
		l.calls++
		if e != nil {
			return nil, e
		}
	}
	Block(acceptWait{l})
	atomic.AddInt32(&l.sync, 1)
	if l.closed || Unwinding() {
		return nil, ErrClosed
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	l.Accepted++
	c.peer.accepted = true
	acceptLog = append(acceptLog, Clock())
	return c, nil
}

//go:norace
func (l *VListener) Close() error {
	if Unwinding() {
		return nil
	}
	Step("close listener")
	atomic.AddInt32(&l.sync, 1)
	if l.closed {
		return ErrClosed
	}
	if l.CloseErr != nil {
		return l.CloseErr
	}
	l.closed = true
	clock++
	for _, c := range l.queue {
		c.closed = true
	}
	l.queue = nil
	return nil
}

func (l *VListener) Addr() net.Addr { return l.addr }

// VConn is one end of a virtual connection.
type VConn struct {
	buf      []byte // to be read at this end
	peer     *VConn
	closed   bool
	accepted bool
	Closes   int
	Name     string
	sync     int32
}

// Dial connects to an address. It fails when nobody listens there.
//
//go:norace
func Dial(addr, name string) (*VConn, error) {
	Step("dial " + name)
	if Unwinding() {
		return nil, ErrRefused
	}
	l := OpenAt(addr)
	if l == nil {
		return nil, ErrRefused
	}
	a, b := &VConn{Name: name}, &VConn{Name: name}
	a.peer, b.peer = b, a
	l.queue = append(l.queue, b)
	return a, nil
}

// NetDial stands in for net.Dial.
//
//go:norace
func NetDial(network, addr string) (net.Conn, error) {
	name := addr
	if t := self(); t != nil {
		name = t.Name
	}
	c, err := Dial(addr, name)
	if err != nil {
		return nil, err
	}
	Dialed++
	return c, nil
}

// NetDialTimeout stands in for net.DialTimeout.
func NetDialTimeout(network, addr string, timeout time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

// Dialer stands in for net.Dialer.
type Dialer struct {
	Timeout, KeepAlive time.Duration
	Deadline           time.Time
	LocalAddr          net.Addr
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return NetDial(network, addr) }

// Pair is a connection without a listener.
func Pair(name string) (*VConn, *VConn) {
	a, b := &VConn{Name: name, accepted: true}, &VConn{Name: name}
	a.peer, b.peer = b, a
	return a, b
}

type readWait struct{ c *VConn }

//go:norace
func (w readWait) Ready() bool {
	return w.c.closed || w.c.peer.closed || len(w.c.buf) > 0
}
func (w readWait) What() string { return "data on " + w.c.Name }

//go:norace
func (c *VConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if Unwinding() {
		return 0, ErrClosed
	}
	atomic.AddInt32(&c.sync, 1)
	Step("read " + c.Name)
	Block(readWait{c})
	atomic.AddInt32(&c.sync, 1)
	if Unwinding() || c.closed {
		return 0, ErrClosed
	}
	if len(c.buf) == 0 {
		return 0, io.EOF
	}
	n := len(c.buf)
	if n > len(b) {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		b[i] = c.buf[i]
	}
	c.buf = c.buf[n:]
	return n, nil
}

//go:norace
func (c *VConn) Write(b []byte) (int, error) {
	if Unwinding() {
		return 0, ErrClosed
	}
	Step("write " + c.Name)
	if c.closed || c.peer.closed {
		return 0, ErrClosed
	}
	for i := 0; i < len(b); i++ {
		c.peer.buf = append(c.peer.buf, b[i])
	}
	return len(b), nil
}

//go:norace
func (c *VConn) Close() error {
	if Unwinding() {
		return nil
	}
	Step("close " + c.Name)
	atomic.AddInt32(&c.sync, 1)
	c.Closes++
	if c.closed {
		return ErrClosed
	}
	c.closed = true
	clock++
	return nil
}

//go:norace
func (c *VConn) Closed() bool { return c.closed }

// Accepted tells whether the other end was handed out by a listener.
//
//go:norace
func (c *VConn) Accepted() bool { return c.accepted }

func (c *VConn) LocalAddr() net.Addr                { return vaddr(c.Name) }
func (c *VConn) RemoteAddr() net.Addr               { return vaddr(c.Name) }
func (c *VConn) SetDeadline(t time.Time) error      { return nil }
func (c *VConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *VConn) SetWriteDeadline(t time.Time) error { return nil }

type listenWait struct{ a string }

//go:norace
func (w listenWait) Ready() bool  { return OpenAt(w.a) != nil }
func (w listenWait) What() string { return "a listener at " + w.a }

// AwaitListener blocks until somebody listens at the address.
//
//go:norace
func AwaitListener(a string) {
	Step("await listener")
	Block(listenWait{a})
}

// Cond is a condition set by one thread and awaited by others.
type Cond struct{ Set bool }

type condWait struct{ c *Cond }

//go:norace
func (w condWait) Ready() bool  { return w.c.Set }
func (w condWait) What() string { return "a condition" }

//go:norace
func (c *Cond) Wait() {
	Step("await")
	Block(condWait{c})
}

//go:norace
func (c *Cond) Signal() { c.Set = true }

// Sleep stands in for time.Sleep.
func Sleep(d time.Duration) {
	if !active {
		return
	}
	Yield()
}

// PeerClosed tells whether the other end was closed.
//
//go:norace
func (c *VConn) PeerClosed() bool { return c.peer.closed }
