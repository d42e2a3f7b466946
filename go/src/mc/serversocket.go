package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"thrift"
	"time"
)

func init() {
	checks["C33"] = checkDef{"model_checking", runC33}
}

var tcpNo int64

// tcpName is a loopback address of this process' own, at a port the system
// does not hand out by itself.
func tcpName() strAddr {
	n := int(atomic.AddInt64(&tcpNo, 1))
	pid := os.Getpid()
	return strAddr{"tcp", fmt.Sprintf("127.%d.%d.%d:%d", 1+pid/240%240, 1+pid%240, 1+n%250, 12000+n/250)}
}

type serverSocket interface {
	thrift.TServerTransport
	thrift.TTransport
	Addr() net.Addr
	Interrupt() error
}

type ssKind struct {
	name      string
	nb        bool
	listening bool
	mk        func(a net.Addr) serverSocket
}

var ssKinds = []ssKind{
	{"blocking", false, false, func(a net.Addr) serverSocket { s, _ := thrift.NewTServerSocketAddr(a); return s }},
	{"blocking-timeout", false, false, func(a net.Addr) serverSocket {
		s, _ := thrift.NewTServerSocketAddrTimeout(a, int64(time.Hour))
		return s
	}},
	{"nonblocking", true, false, func(a net.Addr) serverSocket { s, _ := thrift.NewTNonblockingServerSocketAddr(a); return s }},
	{"nonblocking-timeout", true, false, func(a net.Addr) serverSocket {
		s, _ := thrift.NewTNonblockingServerSocketAddrTimeout(a, int64(time.Hour))
		return s
	}},
	{"nonblocking-listener", true, true, func(a net.Addr) serverSocket {
		l, err := net.Listen(a.Network(), a.String())
		if err != nil {
			panic(failure{"harness", err.Error()})
		}
		s, _ := thrift.NewTNonblockingServerSocketListener(l)
		return s
	}},
}

func runC33(c *Ctx) {
	c.Rule("every sequence up to the depth over listen, open, connect, accept, close, interrupt and the operations a server socket refuses, for both server sockets, every constructor, over TCP and local sockets, against clients that record what becomes of their connection")
	c.Rule("accepted connections: timeouts of the server socket, several clients in every order of connecting and talking")
	names := []string{"listen", "open", "connect", "accept", "close", "interrupt", "io"}
	for _, network := range []string{"unix", "tcp"} {
		for ki := range ssKinds {
			network, k, ki := network, ssKinds[ki], ki
			depth := c.Pick(5, 6)
			opSeqs(c, network+" "+k.name, names, depth, func(t *T, seq []int) {
				a := tcpName()
				if network == "unix" {
					a = unixName()
				}
				ssSeq(t, k, ki, a, seq, names)
			})
		}
	}
	// clients in every order
	c.Par("clients", 2*len(ssKinds)*27, func(i int) string {
		return fmt.Sprint([]string{"unix", "tcp"}[i&1], " ", ssKinds[i/2%len(ssKinds)].name, " ", i/2/len(ssKinds))
	}, func(t *T, i int) {
		a := tcpName()
		if i&1 == 0 {
			a = unixName()
		}
		k := ssKinds[i/2%len(ssKinds)]
		s := k.mk(a)
		if !k.listening {
			mustTrue(s.Listen() == nil, "listen", "cannot listen")
		}
		defer s.Close()
		var cl, ac [3]io.ReadWriteCloser
		n := 0
		code := i / 2 / len(ssKinds)
		for j := range cl {
			cn, err := net.Dial(a.n, a.s)
			mustTrue(err == nil, "connect", "client %d cannot connect: %v", j, err)
			cl[j] = cn
			defer cn.Close()
			if code%3 >= 1 { // accepted at once
				for n <= j {
					q, err := s.Accept()
					mustTrue(err == nil && q != nil && q.IsOpen(), "accept", "accepting client %d: %v", n, err)
					ac[n] = q
					defer q.Close()
					n++
				}
			}
			if code%3 == 2 {
				fmt.Fprintf(cn, "hello%d", j)
			}
			code /= 3
		}
		for n < 3 {
			q, err := s.Accept()
			mustTrue(err == nil && q != nil && q.IsOpen(), "accept", "accepting client %d: %v", n, err)
			ac[n] = q
			defer q.Close()
			n++
		}
		mustTrue(s.Close() == nil && !s.IsOpen(), "close", "closing the server socket")
		// the connections outlive the server socket, each with its own client
		code = i / 2 / len(ssKinds)
		for j := range cl {
			want := []byte(fmt.Sprintf("mine%d", j))
			cl[j].Write(want)
			if code%3 == 2 {
				want = append([]byte(fmt.Sprintf("hello%d", j)), want...)
			}
			code /= 3
			got := make([]byte, len(want))
			tr := ac[j].(thrift.TTransport)
			n, err := tr.ReadAll(got)
			mustTrue(n == len(want) && err == nil && bytes.Equal(got, want), "mixed", "connection %d gave %q, %v, want %q", j, got, err, want)
			mustTrue(writeFlush(tr, []byte{byte('a' + j)}) == nil, "answer", "cannot answer client %d", j)
			one := make([]byte, 1)
			cl[j].(net.Conn).SetReadDeadline(time.Now().Add(5 * time.Second))
			_, err = io.ReadFull(cl[j], one)
			mustTrue(err == nil && one[0] == byte('a'+j), "answer", "client %d got %q, %v", j, one, err)
		}
		t.Trace()
		t.State(hInts(81, i))
	})
	// timeouts of accepted connections
	tos := []time.Duration{0, 25 * time.Millisecond}
	c.Par("timeouts", 16, func(i int) string { return fmt.Sprint(i) }, func(t *T, i int) {
		to := tos[i&1]
		a := tcpName()
		if i&2 == 0 {
			a = unixName()
		}
		var s serverSocket
		if i&4 == 0 {
			x, _ := thrift.NewTServerSocketAddrTimeout(a, int64(to))
			s = x
		} else if i&8 == 0 {
			x, _ := thrift.NewTNonblockingServerSocketAddrTimeout(a, int64(to))
			s = x
		} else {
			x, _ := thrift.NewTNonblockingServerSocketAddr(a)
			mustTrue(x.SetTimeout(int64(to)) == nil, "set", "SetTimeout failed")
			s = x
		}
		mustTrue(s.Listen() == nil, "listen", "cannot listen at %v", a)
		defer s.Close()
		cn, err := net.Dial(a.n, a.s)
		mustTrue(err == nil, "connect", "%v", err)
		defer cn.Close()
		q, err := s.Accept()
		mustTrue(err == nil, "accept", "%v", err)
		defer q.Close()
		facTimeout(t, q, cn, int64(to))
		t.Trace()
		t.State(hInts(82, i))
	})
	// timeouts set, taken back and set again: each accepted connection keeps
	// the one of the moment it was accepted
	seqsTo(c, "timeout-histories", []string{"timeout=0", "timeout=25ms", "accept", "reopen"}, c.Pick(4, 5), func(t *T, seq []int) {
		if seq[len(seq)-1] != 2 {
			return // nothing after the last accept is seen
		}
		a := unixName()
		s, _ := thrift.NewTNonblockingServerSocketAddr(a)
		mustTrue(s.Listen() == nil, "listen", "cannot listen at %v", a)
		defer s.Close()
		var cur time.Duration
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad interface{}
		for _, op := range seq {
			switch op {
			case 0, 1:
				cur = tos[op]
				mustTrue(s.SetTimeout(int64(cur)) == nil, "set", "SetTimeout failed")
			case 2:
				cn, err := net.Dial(a.n, a.s)
				mustTrue(err == nil, "connect", "%v", err)
				defer cn.Close()
				q, err := s.Accept()
				mustTrue(err == nil, "accept", "%v", err)
				defer q.Close()
				to := cur
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							bad = r
							mu.Unlock()
						}
					}()
					facTimeout(t, q, cn, int64(to))
				}()
			case 3:
				mustTrue(s.Close() == nil, "close", "cannot close")
				mustTrue(s.Open() == nil, "reopen", "cannot open again")
			}
		}
		wg.Wait()
		if bad != nil {
			panic(bad)
		}
		t.StateS(fmt.Sprint("timeouts", seq))
	})
	// a blocking server socket made of a connection closes it
	c.Par("connection", 4, func(i int) string { return fmt.Sprint(i) }, func(t *T, i int) {
		l, a := listenUnix()
		defer l.Close()
		cn, err := net.Dial(a.n, a.s)
		mustTrue(err == nil, "harness", "%v", err)
		peer, err := l.Accept()
		mustTrue(err == nil, "harness", "%v", err)
		defer peer.Close()
		s := thrift.NewTServerSocketConn(cn)
		if i&1 == 1 {
			s = thrift.NewTServerSocketConnTimeout(cn, 5)
		}
		mustTrue(!s.IsOpen() && s.Addr() == cn.LocalAddr(), "made", "made of a connection: open %v, address %v", s.IsOpen(), s.Addr())
		if i&2 == 0 {
			mustTrue(s.Close() == nil, "close", "Close failed")
		} else {
			mustTrue(s.Interrupt() == nil, "close", "Interrupt failed")
		}
		peer.SetReadDeadline(time.Now().Add(5 * time.Second))
		_, err = peer.Read(make([]byte, 1))
		mustTrue(err == io.EOF, "connection", "the connection is not closed: %v", err)
		mustTrue(s.Close() == nil, "close", "closing again failed")
		t.Trace()
	})
}

func writeFlush(t thrift.TTransport, b []byte) error {
	if n, err := t.Write(b); err != nil || n != len(b) {
		return fmt.Errorf("wrote %d, %v", n, err)
	}
	return t.Flush()
}

func ssSeq(t *T, k ssKind, ki int, a strAddr, seq []int, names []string) {
	s := k.mk(a)
	defer s.Close()
	listening, ever := k.listening, false // ever: closed since it last listened
	var waiting []net.Conn                // connected, not accepted
	type pair struct {
		cn net.Conn
		q  thrift.TTransport
	}
	var live []pair
	defer func() {
		for _, w := range waiting {
			w.Close()
		}
		for _, p := range live {
			p.q.Close()
			p.cn.Close()
		}
	}()
	unlisten := func() {
		listening, ever = false, true
		for _, w := range waiting {
			w.SetReadDeadline(time.Now().Add(5 * time.Second))
			_, err := w.Read(make([]byte, 1))
			ne, ok := err.(net.Error)
			mustTrue(err != nil && !(ok && ne.Timeout()), "left-waiting", "a client waiting when the server socket closed is left waiting: %v", err)
			w.Close()
		}
		waiting = nil
	}
	for _, o := range seq {
		switch o {
		case 0:
			err := s.Listen()
			mustTrue(err == nil, "listen", "Listen failed: %v", err)
			listening = true
		case 1:
			err := s.Open()
			if listening {
				mustTrue(hasType(err, thrift.ALREADY_OPEN), "already-open", "Open of an open server socket returned %v", err)
				break
			}
			mustTrue(err == nil, "open", "Open failed: %v", err)
			listening = true
		case 2:
			cn, err := net.Dial(a.n, a.s)
			if !listening {
				if err == nil {
					cn.Close()
				}
				mustTrue(err != nil, "listens", "somebody listens at the address although the server socket does not")
				break
			}
			mustTrue(err == nil, "address", "nobody listens at the address of the server socket: %v", err)
			waiting = append(waiting, cn)
		case 3:
			if listening && len(waiting) == 0 {
				break // would wait
			}
			if !listening && !k.nb && !ever {
				break // listens by itself and waits
			}
			q, err := s.Accept()
			if !listening {
				mustTrue(err != nil, "accept-closed", "accepting on a server socket that does not listen reported success")
				break
			}
			mustTrue(err == nil && q != nil && q.IsOpen() && q.Peek(), "accept", "accepting: %v", err)
			live = append(live, pair{waiting[0], q})
			waiting = waiting[1:]
		case 4, 5:
			var err error
			if o == 4 {
				err = s.Close()
			} else {
				err = s.Interrupt()
			}
			mustTrue(err == nil, "close", "%s failed: %v", names[o], err)
			unlisten()
		case 6:
			b := []byte{1}
			n, err := s.Read(b)
			mustTrue(n == 0 && err != nil, "io", "reading from a server socket returned %d, %v", n, err)
			n, err = s.ReadAll(b)
			mustTrue(n == 0 && err != nil, "io", "reading from a server socket returned %d, %v", n, err)
			n, err = s.Write(b)
			mustTrue(n == 0 && err != nil, "io", "writing to a server socket returned %d, %v", n, err)
			mustTrue(s.Flush() != nil, "io", "flushing a server socket reported success")
		}
		mustTrue(s.IsOpen() == listening && s.Peek() == listening, "state", "IsOpen %v, Peek %v after %s, want %v", s.IsOpen(), s.Peek(), names[o], listening)
		if !k.listening {
			mustTrue(s.Addr() == net.Addr(a), "addr", "the address is %v", s.Addr())
		}
		for j, p := range live {
			p.cn.Write([]byte{byte(j)})
			b := make([]byte, 1)
			n, err := p.q.Read(b)
			mustTrue(n == 1 && err == nil && b[0] == byte(j), "connection", "accepted connection %d gave %d %x, %v after %s", j, n, b, err, names[o])
		}
		x := 0
		if listening {
			x = 1
		}
		t.State(hInts(80, ki, x, len(waiting), len(live)))
	}
}
