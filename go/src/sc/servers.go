package main

import (
	"errors"
	"fmt"
	"net"
	"sched"
	"strings"
	"thrift"
	"time"
)

func init() {
	stuckLimit = 20 * time.Minute
	checks["C20"] = checkDef{"model_checking", func(c *Ctx) {
		c.Rule("states = distinct control states (statement and status of every thread, network clock) over all programs; transitions = scheduling steps; every execution runs the real server code, instrumented mechanically, under a scheduler that owns every interleaving decision")
		runPrograms(c, "C20")
	}}
	checks["C21"] = checkDef{"model_checking", func(c *Ctx) {
		c.Rule("states = distinct control states (statement and status of every thread, network clock) over all programs; transitions = scheduling steps; every execution runs the real server and server-socket code, instrumented mechanically, under a scheduler that owns every interleaving decision")
		runPrograms(c, "C21")
	}}
	programs["C20"] = c20Programs
	programs["C21"] = c21Programs
}

// serverSites are the statements of the code that serves: everything in a file
// or a function that is about servers.
func serverSites(s sched.Site) bool {
	return strings.Contains(s.File, "server") || strings.Contains(s.Func, "Server")
}

type server interface {
	Serve() error
	Stop() error
}

type serverKind struct {
	name  string
	mk    func(pf thrift.TProcessorFactory, st thrift.TServerTransport, it, ot thrift.TTransportFactory, ip, op thrift.TProtocolFactory) server
	async bool
}

var serverKinds = []serverKind{
	{"simple", func(pf thrift.TProcessorFactory, st thrift.TServerTransport, it, ot thrift.TTransportFactory, ip, op thrift.TProtocolFactory) server {
		return thrift.NewTSimpleServerFactory6(pf, st, it, ot, ip, op)
	}, false},
	{"nonblocking", func(pf thrift.TProcessorFactory, st thrift.TServerTransport, it, ot thrift.TTransportFactory, ip, op thrift.TProtocolFactory) server {
		return thrift.NewTNonblockingServerFactory6(pf, st, it, ot, ip, op)
	}, true},
}

// ---- a record of what happened, written without synchronisation of its own

type event struct {
	conn int
	kind byte
}
type record struct {
	ev [512]event
	n  int
}

//go:norace
func (r *record) add(conn int, kind byte) {
	if r.n < len(r.ev) {
		r.ev[r.n] = event{conn, kind}
		r.n++
	}
}
func (r *record) of(conn int) string {
	var b strings.Builder
	for _, e := range r.ev[:r.n] {
		if e.conn == conn {
			b.WriteByte(e.kind)
		}
	}
	return b.String()
}
func (r *record) String() string {
	var b strings.Builder
	for _, e := range r.ev[:r.n] {
		fmt.Fprintf(&b, "%d%c ", e.conn, e.kind)
	}
	return b.String()
}

func failIf(cond bool, key, f string, a ...interface{}) {
	if cond {
		panic(failure{key, fmt.Sprintf(f, a...)})
	}
}

// ---- scripted connections

type fakeClient struct {
	*memT
	id     int
	script string
	pos    int
	rec    *record
	meet   *sched.Cond // set by connection 1, awaited by connection 0
}

func (f *fakeClient) Close() error { f.rec.add(f.id, 'c'); return nil }

type wrapT struct {
	thrift.TTransport
	c    *fakeClient
	kind byte
}

func (w *wrapT) Close() error {
	w.c.rec.add(w.c.id, w.kind)
	return w.TTransport.Close()
}

type wrapFactory struct{ kind byte }

func (f wrapFactory) GetTransport(t thrift.TTransport) thrift.TTransport {
	return &wrapT{t, t.(*fakeClient), f.kind}
}

type markProto struct {
	thrift.TProtocol
	kind byte
}
type markFactory struct{ kind byte }

func (f markFactory) GetProtocol(t thrift.TTransport) thrift.TProtocol {
	return &markProto{thrift.NewTBinaryProtocolTransport(t), f.kind}
}

type fakeProcessors struct{ rec *record }

func (f fakeProcessors) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	return &fakeProcessor{t.(*fakeClient)}
}

type fakeProcessor struct{ c *fakeClient }

var errProcess = errors.New("processing failed")

//go:norace
func (p *fakeProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	ip, op := in.(*markProto), out.(*markProto)
	it, ot := in.Transport().(*wrapT), out.Transport().(*wrapT)
	failIf(ip.kind != 'I' || op.kind != 'O' || it.kind != 'i' || ot.kind != 'o' || it.c != p.c || ot.c != p.c,
		"wiring", "connection %d is processed with protocols %c %c over transports %c %c of connections %d %d", p.c.id, ip.kind, op.kind, it.kind, ot.kind, it.c.id, ot.c.id)
	p.c.rec.add(p.c.id, '(')
	if p.c.meet != nil {
		if p.c.id == 1 {
			p.c.meet.Signal()
		} else if p.c.id == 0 {
			p.c.meet.Wait()
		}
	}
	sched.Step("process")
	k := byte('F')
	if p.c.pos < len(p.c.script) {
		k = p.c.script[p.c.pos]
		p.c.pos++
	} else {
		p.c.rec.add(p.c.id, '!')
	}
	p.c.rec.add(p.c.id, ')')
	switch k {
	case 'T':
		return true, nil
	case 'E':
		return false, errProcess
	case 'X':
		return true, errProcess
	}
	return false, nil
}

var errAccept = errors.New("accepting failed")
var errListen = errors.New("listening failed")

type scriptST struct {
	listenErr error
	clients   []*fakeClient // nil entries: no connection this time
	pos       int
	rec       *record
	afterStop int
}

func (s *scriptST) Listen() error { s.rec.add(-1, 'L'); return s.listenErr }

//go:norace
func (s *scriptST) Accept() (thrift.TTransport, error) {
	sched.Step("accept")
	if s.pos == len(s.clients) {
		s.rec.add(-1, 'z')
		s.pos++
		return nil, errAccept
	}
	if s.pos > len(s.clients) {
		s.afterStop++
		return nil, errAccept
	}
	c := s.clients[s.pos]
	s.pos++
	if c == nil {
		s.rec.add(-1, 'n')
		return nil, nil
	}
	s.rec.add(c.id, 'a')
	return c, nil
}
func (s *scriptST) Close() error     { s.rec.add(-1, 'C'); return nil }
func (s *scriptST) Interrupt() error { s.rec.add(-1, 'S'); return nil }

func c20Scripted(k serverKind, maxConns int, scripts []string, meet bool) func(x *execution) {
	return func(x *execution) {
		rec := &record{}
		st := &scriptST{rec: rec}
		var cond *sched.Cond
		if meet {
			cond = &sched.Cond{}
		}
		n := 0
		var want []string
		if meet {
			n = maxConns
		} else {
			n = x.ch(maxConns + 2)
			if n == maxConns+1 {
				n, st.listenErr = 0, errListen
			}
		}
		for i := 0; i < n; i++ {
			s := scripts[x.ch(len(scripts))]
			if s == "" {
				st.clients = append(st.clients, nil)
				want = append(want, "")
				continue
			}
			st.clients = append(st.clients, &fakeClient{memT: newMem(nil), id: i, script: s, rec: rec, meet: cond})
			want = append(want, s)
		}
		srv := k.mk(fakeProcessors{rec}, st, wrapFactory{'i'}, wrapFactory{'o'}, markFactory{'I'}, markFactory{'O'})
		var got error
		r := x.run(func() {
			sched.Spawn("serve", func() { serveInto(srv, &got) })
		})
		stuck := r.Stuck()
		failIf(len(stuck) > 0, "stuck", "connections %q: stuck: %v; events %s", want, stuck, rec)
		if st.listenErr != nil {
			failIf(got != errListen, "listen-error", "listening failed with %v, serving returned %v", errListen, got)
			failIf(st.pos > 0, "listen-error", "connections were accepted although listening failed")
			return
		}
		failIf(got != errAccept, "accept-error", "accepting failed with %v, serving returned %v", errAccept, got)
		failIf(st.afterStop > 0, "accept-error", "accepting went on after it failed")
		for i, s := range want {
			if s == "" {
				continue
			}
			e := rec.of(i)
			w := "a" + strings.Repeat("()", len(s))
			failIf(!strings.HasPrefix(e, w), "processing", "connection %d with requests %q: events %q", i, s, e)
			rest := e[len(w):]
			failIf(strings.ContainsAny(rest, "(!"), "processing", "connection %d with requests %q was processed beyond its end: events %q", i, s, e)
			failIf(!strings.Contains(rest, "i") || !strings.Contains(rest, "o"), "close", "connection %d with requests %q: transports not closed at the end: events %q", i, s, e)
		}
		if !k.async {
			// one connection after another
			cur := -1
			seen := map[int]bool{}
			for _, e := range rec.ev[:rec.n] {
				if e.conn < 0 {
					continue
				}
				if e.conn != cur {
					failIf(seen[e.conn], "serial", "the simple server went back to connection %d: %s", e.conn, rec)
					seen[e.conn] = true
					cur = e.conn
				}
			}
		}
	}
}

//go:norace
func serveInto(s server, err *error) { *err = s.Serve() }

//go:norace
func serveUntil(s server, err *error, at *int) {
	*err = s.Serve()
	*at = sched.Clock()
}

// ---- real server sockets over the virtual network

type sockKind struct {
	name string
	mk   func() thrift.TServerTransport
}

const srvAddr = "10.0.0.1:9090"

var sockKinds = []sockKind{
	{"socket", func() thrift.TServerTransport {
		s, _ := thrift.NewTServerSocketAddrTimeout(sched.Addr(srvAddr), 0)
		return s
	}},
	{"nbsocket", func() thrift.TServerTransport {
		s, _ := thrift.NewTNonblockingServerSocketAddr(sched.Addr(srvAddr))
		return s
	}},
}

// listenerSocket is a server socket made from a listener already open.
var listenerSocket = sockKind{"listener", func() thrift.TServerTransport {
	l, err := sched.Listen("tcp", srvAddr)
	if err != nil {
		panic(err)
	}
	s, _ := thrift.NewTNonblockingServerSocketListener(l)
	return s
}}

type byteProcessors struct {
	rec *record
	n   *int
	bad string // what to answer to a broken connection
}

//go:norace
func (f byteProcessors) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	*f.n++
	return &byteProcessor{f.rec, *f.n - 1, f.bad, 0}
}

type byteProcessor struct {
	rec *record
	id  int
	bad string
	n   int
}

// Process answers one request: a byte.
//
//go:norace
func (p *byteProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	var b [1]byte
	p.n++
	if p.n > 40 {
		panic(failure{"endless", "a connection is processed without end"})
	}
	p.rec.add(p.id, '(')
	_, err := in.Transport().ReadAll(b[:])
	p.rec.add(p.id, ')')
	if err != nil {
		return p.bad == "X", err
	}
	switch b[0] {
	case 'q':
		return false, nil
	case 'e':
		return false, errProcess
	}
	if _, err := out.Transport().Write([]byte{b[0] - 32}); err != nil {
		return false, err
	}
	if err := out.Transport().Flush(); err != nil {
		return false, err
	}
	return true, nil
}

func makeServer(k serverKind, st thrift.TServerTransport, rec *record, n *int, bad string) server {
	tf := thrift.NewTTransportFactory()
	pf := thrift.NewTBinaryProtocolFactoryDefault()
	return k.mk(byteProcessors{rec, n, bad}, st, tf, tf, pf, pf)
}

type clientState struct {
	conn     *sched.VConn
	replies  int
	err      string
	refused  bool
	finished bool
}

// talk is a client: the script holds requests (lower case letters), 'q' ends
// the connection from the server's side, '.' closes it.
//
//go:norace
func talk(name, script string, c *clientState, hold *sched.Cond) {
	conn, err := sched.Dial(srvAddr, name)
	if err != nil {
		c.refused, c.finished = true, true
		return
	}
	c.conn = conn
	var b [1]byte
	for i := 0; i < len(script); i++ {
		if script[i] == '.' {
			break
		}
		if script[i] == 'H' {
			hold.Wait()
			continue
		}
		if _, err := conn.Write([]byte{script[i]}); err != nil {
			c.err = "write: " + err.Error()
			break
		}
		n, err := conn.Read(b[:])
		if script[i] == 'q' || script[i] == 'e' {
			if n != 0 {
				c.err = "a byte after the end"
			}
			break
		}
		if err != nil {
			c.err = "read: " + err.Error()
			break
		}
		if b[0] != script[i]-32 {
			c.err = fmt.Sprintf("reply %q to %q", b[0], script[i])
			break
		}
		c.replies++
	}
	conn.Close()
	c.finished = true
}

func requests(script string) int {
	n := 0
	for _, c := range script {
		if c >= 'r' && c <= 'z' {
			n++
		}
	}
	return n
}

func c20Sockets(k serverKind, sk sockKind, scripts []string, acceptErrs []error, listenErr error) func(x *execution) {
	return func(x *execution) {
		sched.ResetNet()
		if acceptErrs != nil {
			sched.AcceptErrs = acceptErrs
		}
		rec, n := &record{}, 0
		st := sk.mk()
		if listenErr != nil {
			sched.ListenErr = []error{listenErr}
		}
		srv := makeServer(k, st, rec, &n, "E")
		var got error
		cl := make([]clientState, len(scripts))
		r := x.run(func() {
			sched.Spawn("serve", func() { serveInto(srv, &got) })
			for i := range scripts {
				i := i
				sched.Spawn(fmt.Sprintf("client%d", i), func() {
					if listenErr == nil {
						sched.AwaitListener(srvAddr)
					}
					talk(fmt.Sprintf("c%d", i), scripts[i], &cl[i], nil)
				})
			}
		})
		if listenErr != nil {
			failIf(!r.Done("serve") || got == nil || !strings.Contains(got.Error(), listenErr.Error()), "listen-error", "listening failed with %v, serving returned %v (%v)", listenErr, got, r.Stuck())
			return
		}
		for _, s := range r.Stuck() {
			if acceptErrs != nil && strings.HasPrefix(s, "client") {
				continue // nobody accepts it; those accepted are checked below
			}
			failIf(!strings.HasPrefix(s, "serve (a connection to accept"), "stuck", "clients %q: stuck: %v; events %s", scripts, r.Stuck(), rec)
		}
		for i, c := range cl {
			if c.refused {
				continue
			}
			if acceptErrs != nil && !c.conn.Accepted() {
				continue
			}
			failIf(!c.finished || c.err != "" || c.replies != requests(scripts[i]), "client", "client %d sending %q got %d replies, error %q; events %s", i, scripts[i], c.replies, c.err, rec)
			failIf(!c.conn.PeerClosed(), "close", "the connection of client %d sending %q was not closed by the server; events %s", i, scripts[i], rec)
		}
		if acceptErrs == nil {
			failIf(r.Done("serve"), "serve", "serving returned %v", got)
		} else {
			failIf(!r.Done("serve") || got == nil || !strings.Contains(got.Error(), errAccept.Error()), "accept-error", "accepting failed with %v, serving returned %v (%v)", errAccept, got, r.Stuck())
		}
		if !k.async {
			cur, seen := -1, map[int]bool{}
			for _, e := range rec.ev[:rec.n] {
				if e.conn != cur {
					failIf(seen[e.conn], "serial", "the simple server went back to connection %d: %s", e.conn, rec)
					seen[e.conn], cur = true, e.conn
				}
			}
		}
	}
}

func c20Programs(thorough bool) []*program {
	var ps []*program
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	full := []string{"F", "TF", "TTF", "E", "TE", "X", "TX", ""}
	few := []string{"F", "TE", "X", ""}
	ps = append(ps, &program{name: "scripted simple", filter: serverSites, bound: 1, exec: c20Scripted(serverKinds[0], pick(3, 4), full, false)})
	ps = append(ps, &program{name: "scripted nonblocking 2", filter: serverSites, bound: pick(1, 2), shards: pick(2, 8), race: true, raceBound: 1, exec: c20Scripted(serverKinds[1], 2, full, false)})
	ps = append(ps, &program{name: "scripted nonblocking 3", filter: serverSites, bound: pick(1, 2), shards: pick(3, 8), exec: c20Scripted(serverKinds[1], 3, few, false)})
	ps = append(ps, &program{name: "concurrent nonblocking", filter: serverSites, bound: pick(1, 2), shards: pick(1, 4), exec: c20Scripted(serverKinds[1], 2, []string{"F", "TF", "TE", "X"}, true)})
	for _, k := range serverKinds {
		for _, sk := range append(sockKinds, listenerSocket) {
			for _, sc := range [][]string{{"r."}, {"rs."}, {"q"}, {"r.", "s."}, {"rq", "e"}, {"e", "r."}, {".", "r."}, {"r.", ".", "s."}} {
				b, rb, sh := pick(1, 2), 1, pick(1, 4)
				switch {
				case len(sc) == 1:
					b, sh = pick(2, 4), 1
				case len(sc) == 2 && k.async:
					rb, sh = 0, pick(1, 8)
				case len(sc) > 2 && k.async:
					b, sh = pick(0, 1), pick(2, 8)
				}
				if sk.name == "listener" && len(sc) > 2 {
					continue
				}
				ps = append(ps, &program{name: fmt.Sprintf("%s/%s %q", k.name, sk.name, sc), filter: serverSites, bound: b, shards: sh, race: len(sc) == 2, raceBound: rb, exec: c20Sockets(k, sk, sc, nil, nil)})
			}
			ps = append(ps, &program{name: fmt.Sprintf("%s/%s accept fails", k.name, sk.name), filter: serverSites, bound: pick(1, 2), exec: c20Sockets(k, sk, []string{"r.", "s."}, []error{nil, errAccept}, nil)})
			if sk.name != "listener" {
				ps = append(ps, &program{name: fmt.Sprintf("%s/%s listen fails", k.name, sk.name), filter: serverSites, bound: 1, exec: c20Sockets(k, sk, nil, nil, errListen)})
			}
		}
	}
	return ps
}

// ---- C21

// watchST tells when listening began.
type watchST struct {
	thrift.TServerTransport
	on []*sched.Cond
	n  int
}

//go:norace
func (w *watchST) Listen() error {
	err := w.TServerTransport.Listen()
	if err == nil && w.n < len(w.on) {
		w.on[w.n].Signal()
		w.n++
	}
	return err
}

type stopState struct {
	err   error
	begun int
	when  int
	done  bool
}

//go:norace
func stopNow(s server, st *stopState, c *sched.Cond) {
	if st.begun == 0 {
		st.begun = sched.Clock()
	}
	st.err = s.Stop()
	st.when = sched.Clock()
	st.done = true
	if c != nil {
		c.Signal()
	}
}

type stopProg struct {
	kind    serverKind
	sock    sockKind
	clients []string
	stops   int    // threads that call Stop
	repeat  int    // times each calls it
	rounds  int    // the server is started again after it returned
	bad     string // what the processor answers to a broken connection
}

func (sp stopProg) exec(x *execution) {
	sched.ResetNet()
	rec, n := &record{}, 0
	w := &watchST{TServerTransport: sp.sock.mk()}
	for i := 0; i < sp.rounds; i++ {
		w.on = append(w.on, &sched.Cond{})
	}
	srv := makeServer(sp.kind, w, rec, &n, sp.bad)
	stopped := make([]stopState, sp.stops*sp.rounds)
	after := &sched.Cond{}
	cl := make([]clientState, len(sp.clients))
	ret := make([]error, sp.rounds)
	ended := make([]int, sp.rounds)
	rets := 0
	isStopped := make([]int, sp.stops)
	r := x.run(func() {
		sched.Spawn("serve", func() {
			for i := 0; i < sp.rounds; i++ {
				serveUntil(srv, &ret[i], &ended[i])
				rets++
				if i+1 < sp.rounds {
					// starting again must not overtake a stop of this round
					for j := 0; j < sp.stops; j++ {
						stopWait(&stopped[i*sp.stops+j])
					}
				}
			}
		})
		for i := 0; i < sp.rounds; i++ {
			for j := 0; j < sp.stops; j++ {
				i, j := i, j
				sched.Spawn(fmt.Sprintf("stop%d.%d", i, j), func() {
					w.on[i].Wait()
					for k := 0; k < sp.repeat; k++ {
						var c *sched.Cond
						if i == sp.rounds-1 && k == sp.repeat-1 {
							c = after
						}
						stopNow(srv, &stopped[i*sp.stops+j], c)
					}
					if q, ok := srv.(interface{ IsStopped() bool }); ok && i == sp.rounds-1 {
						if q.IsStopped() {
							isStopped[j] = 1
						} else {
							isStopped[j] = -1
						}
					}
				})
			}
		}
		for i := range sp.clients {
			i := i
			sched.Spawn(fmt.Sprintf("client%d", i), func() {
				sched.AwaitListener(srvAddr)
				talk(fmt.Sprintf("c%d", i), sp.clients[i], &cl[i], after)
			})
		}
	})
	var stuck []string
	for _, s := range r.Stuck() {
		// a client that tries to connect after everything is over finds nobody
		if !strings.HasPrefix(s, "client") || !strings.Contains(s, "a listener at") {
			stuck = append(stuck, s)
		}
	}
	failIf(len(stuck) > 0, "stuck", "after stopping, stuck: %v; events %s", stuck, rec)
	last := stopped[len(stopped)-1]
	for i := len(stopped) - sp.stops; i < len(stopped); i++ {
		if stopped[i].when < last.when {
			last = stopped[i]
		}
		failIf(stopped[i].err != nil, "stop-error", "stopping reported %v", stopped[i].err)
	}
	if sp.repeat == 1 {
		for _, at := range sched.AcceptLog() {
			failIf(at > last.when, "accepted-after-stop", "a connection was accepted after the stop had completed; events %s", rec)
		}
	}
	failIf(sched.OpenCount() > 0, "address", "the address is still being listened on after stopping")
	for i := range ended {
		begun := false
		for _, st := range stopped[i*sp.stops : (i+1)*sp.stops] {
			begun = begun || st.begun > 0 && st.begun < ended[i]
		}
		failIf(!begun, "ended-early", "serving for the %s time ended with %v before the server was stopped", []string{"first", "second"}[i], ret[i])
	}
	for _, v := range isStopped {
		failIf(v < 0, "is-stopped", "the server says it is not stopped after being stopped")
	}
	for i, c := range cl {
		if c.conn != nil && c.conn.Accepted() {
			failIf(!c.finished || c.replies != requests(sp.clients[i]) || c.err != "", "client", "the connection of client %d sending %q had been accepted, it got %d replies, error %q", i, sp.clients[i], c.replies, c.err)
			failIf(!c.conn.PeerClosed(), "close", "the connection of client %d was not closed by the server", i)
		}
	}
}

type stopWaiter struct{ s *stopState }

//go:norace
func (w stopWaiter) Ready() bool  { return w.s.done }
func (w stopWaiter) What() string { return "the stop" }

func stopWait(s *stopState) { sched.Block(stopWaiter{s}) }

// sockProg drives a server socket directly.
func sockProg(sk sockKind, how string, threads int, twice bool) func(x *execution) {
	return func(x *execution) {
		sched.ResetNet()
		st := sk.mk()
		on := &sched.Cond{}
		var accErr, accErr2 error
		var tr, tr2 thrift.TTransport
		done := make([]sched.Cond, threads)
		again := &sched.Cond{}
		x.run(func() {
			sched.Spawn("accept", func() {
				if err := st.Listen(); err != nil {
					panic(failure{"listen", err.Error()})
				}
				on.Signal()
				tr, accErr = st.Accept()
				for i := range done {
					done[i].Wait()
				}
				if !twice {
					return
				}
				if err := st.Listen(); err != nil {
					panic(failure{"listen-again", err.Error()})
				}
				again.Signal()
				tr2, accErr2 = st.Accept()
				st.Close()
			})
			if twice {
				sched.Spawn("client", func() {
					again.Wait()
					if c, err := sched.Dial(srvAddr, "c"); err == nil {
						c.Close()
					}
				})
			}
			for i := 0; i < threads; i++ {
				i := i
				sched.Spawn(fmt.Sprintf("%s%d", how, i), func() {
					on.Wait()
					if how == "close" {
						st.Close()
					} else {
						st.Interrupt()
					}
					done[i].Signal()
				})
			}
		})
		failIf(len(x.res.Stuck()) > 0, "stuck", "stuck: %v", x.res.Stuck())
		failIf(accErr == nil || tr != nil, "accept", "accepting on a socket being closed gives %v, %v", tr, accErr)
		failIf(sched.OpenCount() > 0, "address", "the address is still being listened on")
		failIf(twice && (accErr2 != nil || tr2 == nil), "accept-again", "after listening again accepting gives %v, %v", tr2, accErr2)
	}
}

var _ net.Addr

func c21Programs(thorough bool) []*program {
	var ps []*program
	for _, k := range serverKinds {
		for _, sk := range append(sockKinds, listenerSocket) {
			add := func(name string, q, t int, race bool, p stopProg) {
				p.kind, p.sock = k, sk
				if p.stops == 0 {
					p.stops = 1
				}
				if p.repeat == 0 {
					p.repeat = 1
				}
				if p.rounds == 0 {
					p.rounds = 1
				}
				if p.bad == "" {
					p.bad = "E"
				}
				if sk.name == "listener" && (p.rounds > 1 || len(p.clients) > 1) {
					return
				}
				b, sh := q, 1
				if k.async && len(p.clients) > 0 && (p.bad == "X" || len(p.clients) > 1 || sk.name == "listener") {
					b--
				}
				if thorough {
					b, sh = t, 8
					if len(p.clients) > 1 && k.async {
						b--
					}
				}
				ps = append(ps, &program{name: fmt.Sprintf("%s/%s %s", k.name, sk.name, name), filter: serverSites, bound: b, shards: sh, race: race, raceBound: 1, exec: p.exec})
			}
			add("stop", 3, 6, true, stopProg{})
			add("stop twice", 3, 4, false, stopProg{repeat: 2})
			add("two stop", 2, 4, true, stopProg{stops: 2})
			add("stop, one client", 2, 3, true, stopProg{clients: []string{"r."}})
			add("stop, client ended by server", 2, 3, false, stopProg{clients: []string{"q"}})
			add("stop, client stays on", 2, 3, false, stopProg{clients: []string{"rHs."}})
			add("stop, client stays on, processor goes on", 2, 3, false, stopProg{clients: []string{"rHs."}, bad: "X"})
			add("stop, two clients", 1, 2, false, stopProg{clients: []string{"r.", "s."}})
			add("two stop, one client", 1, 2, false, stopProg{stops: 2, clients: []string{"r."}})
			add("start again", 2, 3, true, stopProg{rounds: 2})
			add("start again, one client", 1, 2, false, stopProg{rounds: 2, clients: []string{"r."}})
		}
	}
	for _, sk := range append(sockKinds, listenerSocket) {
		for _, how := range []string{"interrupt", "close"} {
			for n := 1; n <= 2; n++ {
				b := 4
				if n == 2 {
					b = 3
				}
				if thorough {
					b += 2
				}
				ps = append(ps, &program{name: fmt.Sprintf("%s %s %d", sk.name, how, n), filter: serverSites, bound: b, race: how == "interrupt", raceBound: 2, exec: sockProg(sk, how, n, false)})
				if sk.name != "listener" {
					ps = append(ps, &program{name: fmt.Sprintf("%s %s %d, again", sk.name, how, n), filter: serverSites, bound: b - 2, race: how == "interrupt", raceBound: 1, exec: sockProg(sk, how, n, true)})
				}
			}
		}
	}
	return ps
}
