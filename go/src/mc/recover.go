package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"simple"
	"sync"
	"thrift"
)

func init() {
	checks["C35"] = checkDef{"model_checking", runC35}
}

// fault is what befalls the first connection.
type fault struct {
	kind string
	n    int
	x    byte
}

func (f fault) String() string { return fmt.Sprintf("%s %d %#x", f.kind, f.n, f.x) }

// reEnd is the client's end of a connection that can be closed and opened
// again; every opening starts a new connection with a server of its own.
type reEnd struct {
	pr      *proto
	wrap    func(thrift.TTransport) thrift.TTransport
	proc    *simple.ContainerOfEnumsTestServiceProcessor
	plan    []fault // of each connection in turn; none: it works
	open    bool
	conns   int
	f       fault
	in, req []byte // not yet read by the client, not yet seen by the server
	taken   int    // bytes accepted from the client
	given   int    // bytes handed to the client
	srv     *connEnd
	ip, op  thrift.TProtocol
	dead    bool // the server has closed the connection
	werr    bool
	forge   func(id int32) []byte
}

func (e *reEnd) IsOpen() bool { return e.open }
func (e *reEnd) Peek() bool   { return e.open }
func (e *reEnd) Close() error {
	e.open, e.in, e.req = false, nil, nil
	return nil
}
func (e *reEnd) Open() error {
	if e.open {
		return thrift.NewTTransportException(thrift.ALREADY_OPEN, "open")
	}
	e.open, e.dead, e.werr, e.taken, e.given = true, false, false, 0, 0
	e.in, e.req = nil, nil
	e.f = fault{n: -1}
	if e.conns < len(e.plan) {
		e.f = e.plan[e.conns]
	}
	e.conns++
	e.srv = &connEnd{in: &lane{failAt: -1}, out: &lane{failAt: -1}}
	st := e.wrap(e.srv)
	e.ip, e.op = e.pr.mk(st), e.pr.mk(st)
	return nil
}
func (e *reEnd) Write(b []byte) (int, error) {
	if !e.open {
		return 0, thrift.NewTTransportException(thrift.NOT_OPEN, "not open")
	}
	if e.werr {
		return 0, errInjected
	}
	n := len(b)
	if e.f.kind == "request" && e.taken+n > e.f.n {
		n = e.f.n - e.taken
		e.werr = true
	}
	e.taken += n
	e.srv.in.b = append(e.srv.in.b, b[:n]...)
	if e.werr {
		return n, errInjected
	}
	return n, nil
}
func (e *reEnd) Flush() error {
	if !e.open {
		return thrift.NewTTransportException(thrift.NOT_OPEN, "not open")
	}
	if e.werr {
		return errInjected
	}
	return nil
}
func (e *reEnd) Read(b []byte) (int, error) {
	if !e.open {
		return 0, thrift.NewTTransportException(thrift.NOT_OPEN, "not open")
	}
	if len(b) == 0 {
		return 0, nil
	}
	for len(e.in) == 0 {
		if e.dead || len(e.srv.in.b) == 0 {
			return 0, e.end()
		}
		if _, err := e.proc.Process(e.ip, e.op); err != nil {
			e.dead = true
		}
		out := e.srv.out.b
		e.srv.out.b = nil
		switch e.f.kind {
		case "reply-end", "reply-error", "reply-end-with-data", "reply-error-with-data":
			if len(out) >= e.f.n {
				out = out[:e.f.n]
				e.dead = true
			}
		case "corrupt":
			if len(out) > e.f.n {
				out[e.f.n] ^= e.f.x
				e.dead = true
			}
		case "extra":
			out = append(out, pattern(e.f.n)...)
			e.dead = true
		case "twice":
			out = append(out, out...)
		}
		e.in = out
	}
	n := copy(b, e.in)
	e.in = e.in[n:]
	e.given += n
	if len(e.in) == 0 && e.dead && (e.f.kind == "reply-end-with-data" || e.f.kind == "reply-error-with-data") {
		return n, e.end()
	}
	return n, nil
}
func (e *reEnd) end() error {
	if e.f.kind == "reply-error" || e.f.kind == "reply-error-with-data" {
		return errInjected
	}
	return io.EOF
}
func (e *reEnd) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(e, b) }

var reCarriers = []struct {
	name string
	wrap func(thrift.TTransport) thrift.TTransport
}{
	{"direct", func(t thrift.TTransport) thrift.TTransport { return t }},
	{"framed", func(t thrift.TTransport) thrift.TTransport { return thrift.NewTFramedTransport(t) }},
	{"framed-twice", func(t thrift.TTransport) thrift.TTransport {
		return thrift.NewTFramedTransport(thrift.NewTFramedTransport(t))
	}},
}

// recoverOnce runs the plan's failing calls, reopening after each, and then
// two good ones.
func recoverOnce(t *T, pr *proto, wrap func(thrift.TTransport) thrift.TTransport, plan []fault, syms []callSym, shift int32) (taken, given int) {
	h := &handlerRec{}
	e := &reEnd{pr: pr, wrap: wrap, proc: simple.NewContainerOfEnumsTestServiceProcessor(h), plan: plan}
	ct := wrap(e)
	mustTrue(ct.Open() == nil, "open", "opening fails")
	cl := simple.NewContainerOfEnumsTestServiceClientFactory(ct, fixedFactory{pr})
	for i := range plan {
		if shift != 0 {
			// the caller gets the reply to another call
			if err := cl.SendEcho(syms[i].obj()); err == nil {
				cl.SeqId += shift
				cl.RecvEcho()
			}
		} else {
			cl.Echo(syms[i].obj())
		}
		taken, given = e.taken, e.given+len(e.in)
		if err := ct.Close(); err != nil {
			t.Failf("close", "closing the connection after a failed call: %v", err)
		}
		mustTrue(!ct.IsOpen(), "close", "still open after closing")
		if err := ct.Open(); err != nil {
			t.Failf("reopen", "opening the connection again: %v", err)
		}
		mustTrue(ct.IsOpen(), "reopen", "not open after opening")
	}
	for i := len(plan); i < len(syms); i++ {
		s := syms[i]
		h.calls = nil
		got, err := cl.Echo(s.obj())
		w := answerTo(s.seen())
		want := "nil"
		if w.val != nil {
			want = w.val.read().String()
		}
		mustTrue(len(h.calls) == 1 && h.calls[0] == argString(s.seen()), "handler", "call %d after opening again: the handler saw %v, the argument was %s", i-len(plan)+1, h.calls, argString(s.seen()))
		mustTrue(err == nil, "call", "call %d after opening again fails: %v", i-len(plan)+1, err)
		mustTrue(argString(got) == want, "result", "call %d after opening again: the caller got %s, the handler's result is %s", i-len(plan)+1, argString(got), want)
		t.Ops(1)
	}
	if taken == 0 {
		taken, given = e.taken, e.given
	}
	return
}

func runC35(c *Ctx) {
	c.Rule("states = distinct (protocol, carrier, calls, fault); each is one execution: a call under the fault, closing, opening, two more calls; faults: the request refused from every byte on, the reply ending or failing after every byte (the failure alone or with data), for binary and compact also every byte of the reply corrupted in seven ways, surplus bytes, the reply sent twice and replies to other calls; pairs of faults on successive connections")
	kindsCut := []string{"request", "reply-end", "reply-error", "reply-end-with-data", "reply-error-with-data"}
	for _, pr := range allProtos {
		var good, bad []callSym
		for _, s := range callSyms(pr) {
			if s.unk {
				continue
			}
			bad = append(bad, s)
			if answerTo(s.seen()).err == nil {
				good = append(good, s)
			}
		}
		for _, ca := range reCarriers {
			pr, ca := pr, ca
			// every fault on one connection
			c.Par("one/"+pr.name+"/"+ca.name, len(bad)*len(good), func(i int) string {
				return bad[i%len(bad)].name + "," + good[i/len(bad)].name
			}, func(t *T, i int) {
				first, next := bad[i%len(bad)], good[i/len(bad)]
				syms := []callSym{first, next, good[(i/len(bad)+1)%len(good)]}
				run := func(f fault, shift int32) (a, b int) {
					t.Try(fmt.Sprint(f, " ", shift), func() {
						a, b = recoverOnce(t, pr, ca.wrap, []fault{f}, syms, shift)
					})
					t.Trace()
					t.StateS(fmt.Sprint(pr.name, ca.name, i, f, shift))
					return
				}
				nreq, nrep := run(fault{"none", 0, 0}, 0)
				for _, k := range kindsCut {
					n := nrep
					if k == "request" {
						n = nreq
					}
					for at := 0; at <= n; at++ {
						run(fault{k, at, 0}, 0)
					}
				}
				for _, d := range []int32{1, -1, 256, 65536} {
					run(fault{"none", 0, 0}, d)
				}
				if pr != pBin && pr != pComp {
					return
				}
				for at := 0; at < nrep; at++ {
					for _, x := range []byte{1, 2, 8, 0x20, 0x80, 0x7f, 0xff} {
						run(fault{"corrupt", at, x}, 0)
					}
				}
				for _, n := range []int{1, 2, 3, 4, 5, 100, 5000} {
					run(fault{"extra", n, 0}, 0)
				}
				run(fault{"twice", 0, 0}, 0)
				for _, d := range []int32{1, -1, 256, 65536} {
					run(fault{"twice", 0, 0}, d)
					run(fault{"extra", 3, 0}, d)
				}
			})
			// faults on two connections in turn
			c.Par("two/"+pr.name+"/"+ca.name, len(kindsCut)*len(kindsCut), func(i int) string {
				return kindsCut[i/len(kindsCut)] + "," + kindsCut[i%len(kindsCut)]
			}, func(t *T, i int) {
				k1, k2 := kindsCut[i/len(kindsCut)], kindsCut[i%len(kindsCut)]
				syms := []callSym{good[0], good[1], good[0], good[1]}
				step := c.Pick(5, 1)
				for a := 0; a < 130; a += step {
					for b := 0; b < 130; b += step {
						t.Try(fmt.Sprint(k1, a, k2, b), func() {
							recoverOnce(t, pr, ca.wrap, []fault{{k1, a, 0}, {k2, b, 0}}, syms, 0)
						})
						t.Trace()
					}
				}
				t.StateS(fmt.Sprint(pr.name, ca.name, "two", i))
			})
		}
	}
	runC35Sockets(c, allProtos)
	runC35Objects(c)
	runC35HTTP(c)
}

// callServer serves calls over HTTP, each answered in the way its turn says.
type callServer struct {
	url   string
	srv   *http.Server
	pr    *proto
	proc  *simple.ContainerOfEnumsTestServiceProcessor
	modes []string
}

var httpModes = []string{"whole", "chunks", "500", "202", "drop", "cut", "cut-first", "empty"}

func (s *callServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	mode := s.modes[0]
	s.modes = s.modes[1:]
	e := &connEnd{in: &lane{b: b, failAt: -1}, out: &lane{failAt: -1}}
	s.proc.Process(s.pr.mk(e), s.pr.mk(e))
	out := e.out.b
	switch mode {
	case "whole":
		w.Header().Set("Content-Length", fmt.Sprint(len(out)))
		w.Write(out)
	case "chunks":
		for len(out) > 0 {
			n := min(len(out), 7)
			w.Write(out[:n])
			w.(http.Flusher).Flush()
			out = out[n:]
		}
	case "500":
		w.WriteHeader(500)
		w.Write(out)
	case "202":
		w.WriteHeader(202)
		w.Write(out)
	case "drop":
		hj, _, _ := w.(http.Hijacker).Hijack()
		hj.Close()
	case "cut", "cut-first":
		n := len(out) - 1
		if mode == "cut-first" {
			n = len(out) / 2
		}
		w.Header().Set("Content-Length", fmt.Sprint(len(out)))
		w.Write(out[:n])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "empty":
	}
}

// runC35HTTP: over HTTP a call stands alone, whatever became of those before.
func runC35HTTP(c *Ctx) {
	for _, pr := range allProtos {
		pr := pr
		var names []string
		type sym struct {
			callSym
			mode string
		}
		var syms []sym
		for _, m := range httpModes {
			for _, s := range callSyms(pr) {
				if s.unk || m != "whole" && s.name != "b" {
					continue
				}
				names, syms = append(names, m+"("+s.name+")"), append(syms, sym{s, m})
			}
		}
		var pool sync.Pool
		pool.New = func() interface{} {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(failure{"harness", err.Error()})
			}
			s := &callServer{url: "http://" + l.Addr().String() + "/", pr: pr}
			s.srv = &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0)}
			go s.srv.Serve(l)
			return s
		}
		seqsTo(c, "http/"+pr.name, names, c.Pick(3, 4), func(t *T, seq []int) {
			srv := pool.Get().(*callServer)
			defer pool.Put(srv)
			h := &handlerRec{}
			srv.proc, srv.modes = simple.NewContainerOfEnumsTestServiceProcessor(h), nil
			for _, i := range seq {
				srv.modes = append(srv.modes, syms[i].mode)
			}
			ct, err := thrift.NewTHttpPostClient(srv.url)
			mustTrue(err == nil, "make", "%v", err)
			defer ct.Close()
			cl := simple.NewContainerOfEnumsTestServiceClientFactory(ct, fixedFactory{pr})
			for n, i := range seq {
				s := syms[i]
				h.calls = nil
				got, err := cl.Echo(s.obj())
				mustTrue(len(h.calls) == 1 && h.calls[0] == argString(s.seen()), "handler", "call %d: the handler saw %v, the argument was %s", n+1, h.calls, argString(s.seen()))
				w := answerTo(s.seen())
				if w.err != nil || s.mode != "whole" && s.mode != "chunks" {
					// Over JSON the reply lacks nothing but its last byte, which no result needs.
					if err == nil && s.mode == "cut" && w.err == nil && argString(got) == w.val.read().String() {
						continue
					}
					mustTrue(err != nil, "lost-error", "call %d: the caller got %s without error", n+1, argString(got))
					continue
				}
				want := "nil"
				if w.val != nil {
					want = w.val.read().String()
				}
				mustTrue(err == nil, "call", "call %d fails: %v", n+1, err)
				mustTrue(argString(got) == want, "result", "call %d: the caller got %s, the handler's result is %s", n+1, argString(got), want)
			}
			t.StateS(pr.name + "http" + fmt.Sprint(seq))
		})
	}
}

// swapT is a transport whose connection the check replaces.
type swapT struct{ thrift.TTransport }

// openT makes a scripted connection one that can be opened.
type openT struct {
	thrift.TTransport
	open bool
}

func (o *openT) IsOpen() bool { return o.open }
func (o *openT) Open() error  { o.open = true; return nil }
func (o *openT) Close() error { o.open = false; return nil }

// runC35Objects: the same protocol objects carry the messages after one that
// broke off.
func runC35Objects(c *Ctx) {
	msgs := smallMsgs()
	msgs = append(msgs, Msg{"all", 1, 7, vStruct(fld(1, vList(tBOOL, vBool(true), vBool(false))), fld(2, vBool(true)), fld(3, vBin("\x00\xff")), fld(4, vSet(tI16, vI16(-1))), fld(5, vMap(tI64, tLIST, vI64(-9), vList(tSTRING, vStr("q\"\\")))), fld(100, vByte(3)))})
	for _, pr := range allProtos {
		for _, ca := range reCarriers {
			pr, ca := pr, ca
			enc := func(m Msg) []byte {
				b := newMem(nil)
				if e := writeMsg(pr.mk(ca.wrap(b)), m); e != nil {
					panic(failure{"harness", e.Error()})
				}
				return b.b
			}
			c.Par("objects/"+pr.name+"/"+ca.name, len(msgs)*len(msgs), func(i int) string {
				return msgs[i/len(msgs)].Name + "," + msgs[i%len(msgs)].Name
			}, func(t *T, i int) {
				a, b := msgs[i/len(msgs)], msgs[i%len(msgs)]
				wa, wb := enc(a), enc(b)
				for n := 0; n <= len(wa); n++ {
					n := n
					t.Try(fmt.Sprint("write breaks after ", n), func() {
						sw := &swapT{}
						sw.TTransport = &openT{&connEnd{in: &lane{failAt: -1}, out: &lane{failAt: n}}, true}
						ct := ca.wrap(sw)
						p := pr.mk(ct)
						if e := writeMsg(p, a); (e == nil) != (n == len(wa)) {
							t.Failf("write", "with %d of %d bytes accepted writing reports %v", n, len(wa), e)
						}
						ct.Close()
						out := &lane{failAt: -1}
						sw.TTransport = &openT{&connEnd{in: &lane{failAt: -1}, out: out}, false}
						if err := ct.Open(); err != nil {
							t.Failf("reopen", "%v", err)
						}
						if e := writeMsg(p, b); e != nil {
							t.Failf("write", "the first message after opening again: %v", e)
						}
						mustTrue(string(out.b) == string(wb), "bytes", "the first message after opening again is sent as %s, by new objects as %s", hexS(out.b), hexS(wb))
					})
					for _, end := range []error{io.EOF, errInjected} {
						t.Try(fmt.Sprint("read ends after ", n, " with ", end), func() {
							sw := &swapT{}
							sw.TTransport = &openT{&endT{memT: memT{b: wa[:n], lib: true}, err: end}, true}
							ct := ca.wrap(sw)
							p := pr.mk(ct)
							if err := pr.readMsgLike(p, a); (err == nil) != (n == len(wa)) {
								t.Failf("read", "of %d of %d bytes reading reports %v", n, len(wa), err)
							}
							ct.Close()
							m := newMem(append([]byte(nil), wb...))
							m.lib = true
							sw.TTransport = &openT{m, false}
							if err := ct.Open(); err != nil {
								t.Failf("reopen", "%v", err)
							}
							if err := pr.readMsgLike(p, b); err != nil {
								t.Failf("read", "the first message after opening again: %v", err)
							}
						})
					}
					t.Trace()
					t.Ops(6)
					t.StateS(fmt.Sprint(pr.name, ca.name, "objects", i, n))
				}
			})
		}
	}
}

// endT is a memory stream that ends with an error of choice.
type endT struct {
	memT
	err error
}

func (e *endT) Read(b []byte) (int, error) {
	n, err := e.memT.Read(b)
	if err != nil {
		err = e.err
	}
	return n, err
}
func (e *endT) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(e, b) }

// the same over real sockets, whose server cuts the reply
func runC35Sockets(c *Ctx, protos []*proto) {
	type car struct {
		name string
		mk   func(a net.Addr) thrift.TTransport
		srv  func(t thrift.TTransport) thrift.TTransport
	}
	plain := func(t thrift.TTransport) thrift.TTransport { return t }
	framed := func(t thrift.TTransport) thrift.TTransport { return thrift.NewTFramedTransport(t) }
	nb := func(a net.Addr) thrift.TTransport { p, _ := thrift.NewTNonblockingSocketAddr(a); return p }
	cars := []car{
		{"socket", func(a net.Addr) thrift.TTransport { return thrift.NewTSocketAddr(a) }, plain},
		{"framed-socket", func(a net.Addr) thrift.TTransport { return framed(thrift.NewTSocketAddr(a)) }, framed},
		{"nonblocking", nb, plain},
		{"framed-nonblocking", func(a net.Addr) thrift.TTransport { return framed(nb(a)) }, framed},
	}
	for _, pr := range protos {
		for _, ca := range cars {
			pr, ca := pr, ca
			syms := callSyms(pr)
			c.Par("sockets/"+pr.name+"/"+ca.name, 2, nil, func(t *T, i int) {
				a, b := syms[i], syms[1-i]
				l, addr := listenUnix()
				defer l.Close()
				// cutAt < 0: the first connection answers in full
				run := func(cutAt int) (n int) {
					h := &handlerRec{}
					proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
					var wg sync.WaitGroup
					wg.Add(1)
					go func() {
						defer wg.Done()
						for cn := 0; cn < 2; cn++ {
							conn, err := l.Accept()
							if err != nil {
								return
							}
							e := &connEnd{in: &lane{failAt: -1}, out: &lane{failAt: -1}}
							e.starved = func() bool {
								var buf [4096]byte
								n, _ := conn.Read(buf[:])
								e.in.b = append(e.in.b, buf[:n]...)
								return n > 0
							}
							st := ca.srv(e)
							ip, op := pr.mk(st), pr.mk(st)
							for {
								_, err := proc.Process(ip, op)
								out := e.out.b
								e.out.b = nil
								if cn == 0 {
									n = len(out)
									if cutAt >= 0 && cutAt < n {
										conn.Write(out[:cutAt])
										break
									}
								}
								conn.Write(out)
								if err != nil {
									break
								}
							}
							conn.Close()
						}
					}()
					ct := ca.mk(addr)
					if err := ct.Open(); err != nil {
						t.Failf("open", "%v", err)
					}
					cl := simple.NewContainerOfEnumsTestServiceClientFactory(ct, fixedFactory{pr})
					cl.Echo(a.obj())
					ct.Close()
					if err := ct.Open(); err != nil {
						t.Failf("reopen", "%v", err)
					}
					got, err := cl.Echo(b.obj())
					want := answerTo(b.seen()).val.read().String()
					ct.Close()
					wg.Wait()
					mustTrue(err == nil && argString(got) == want, "result", "the first call after opening again gives %s, %v, the handler's result is %s", argString(got), err, want)
					t.Trace()
					t.Ops(2)
					return n
				}
				n := 0
				t.Try("whole", func() { n = run(-1) })
				for at := 0; at < n; at++ {
					t.Try(fmt.Sprint("cut at ", at), func() { run(at) })
					t.StateS(fmt.Sprint(pr.name, ca.name, i, at))
				}
			})
		}
	}
}
