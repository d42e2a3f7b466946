package main

import (
	"errors"
	"fmt"
	"sched"
	"simple"
	"strings"
	"thrift"
)

func init() {
	checks["C31"] = checkDef{"model_checking", func(c *Ctx) {
		c.Rule("states = distinct control states (statement and status of every thread, network clock) over all programs; transitions = scheduling steps; every execution runs generated clients and a generated processor in a running server over the library's sockets, transports and protocols, instrumented mechanically at every statement, on a virtual network under a scheduler that owns every interleaving decision")
		runPrograms(c, "C31")
	}}
	programs["C31"] = e2ePrograms
}

// netSites are the statements of servers, sockets and framing.
func netSites(s sched.Site) bool {
	return serverSites(s) || strings.Contains(s.File, "socket") || strings.Contains(s.File, "framed")
}

// ---- the service

const e2eBad = 9 // calls ending in this digit fail

type e2eHandler struct {
	seen [64]int64
	n    int
}

//go:norace
func (h *e2eHandler) saw(v int64) {
	if h.n < len(h.seen) {
		h.seen[h.n] = v
		h.n++
	}
}

//go:norace
func (h *e2eHandler) count(v int64) int {
	k := 0
	for _, s := range h.seen[:h.n] {
		if s == v {
			k++
		}
	}
	return k
}

func (h *e2eHandler) Echo(a *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	sched.Step("handler")
	v := int64(-1)
	if a != nil {
		v = int64(a.First)
	}
	h.saw(v)
	sched.Step("handled")
	if v%10 == e2eBad {
		return nil, errors.New(fmt.Sprint("refused ", v))
	}
	r := simple.NewContainerOfEnums()
	r.First = simple.UndefinedValues(v)
	r.Third = simple.HeterogeneousValues(v*3 + 1)
	return r, nil
}

// ---- clients

// A script: digits are calls, 'c' closes and opens again. The number of a call
// is 100 for the first client, 200 for the second and so on, plus ten for every
// step of the script, plus the digit.
type e2eClient struct {
	script string
	out    [8]string // outcome per step
	open   string
	opened bool
	done   bool
}

// how a client connects
type e2eLink struct {
	name string
	mk   func() (thrift.TTransport, error)
}

var e2eLinks = []e2eLink{
	{"socket", func() (thrift.TTransport, error) { return thrift.NewTSocketAddr(sched.Addr(srvAddr)), nil }},
	{"timeout", func() (thrift.TTransport, error) { return thrift.NewTSocket(sched.Addr(srvAddr), 5e9), nil }},
	{"nonblocking", func() (thrift.TTransport, error) {
		s, err := thrift.NewTNonblockingSocketAddr(sched.Addr(srvAddr))
		if err != nil {
			return nil, err
		}
		return s, nil
	}},
}

func e2eFactory(pr *proto) thrift.TProtocolFactory {
	switch pr {
	case pComp:
		return thrift.NewTCompactProtocolFactory()
	case pJSON:
		return thrift.NewTJSONProtocolFactory()
	case pSimp:
		return thrift.NewTSimpleJSONProtocolFactory()
	}
	return thrift.NewTBinaryProtocolFactoryDefault()
}

func e2eNumber(who, step int, digit byte) int64 {
	return int64(100*(who+1) + 10*step + int(digit-'0'))
}

//go:norace
func (c *e2eClient) set(i int, s string) { c.out[i] = s }

func (c *e2eClient) run(who int, link e2eLink, framed bool, pf thrift.TProtocolFactory) {
	defer func() { c.done = true }()
	t, err := link.mk()
	if err != nil {
		panic(failure{"make", err.Error()})
	}
	if framed {
		t = thrift.NewTFramedTransport(t)
	}
	open := func() bool {
		if err := t.Open(); err != nil {
			c.open = err.Error()
			return false
		}
		c.opened = true
		return true
	}
	if !open() {
		return
	}
	cl := simple.NewContainerOfEnumsTestServiceClientFactory(t, pf)
	for i := 0; i < len(c.script); i++ {
		d := c.script[i]
		if d == 'c' {
			if err := t.Close(); err != nil {
				c.set(i, "close "+err.Error())
				return
			}
			if !open() {
				c.set(i, "open "+c.open)
				return
			}
			cl = simple.NewContainerOfEnumsTestServiceClientFactory(t, pf)
			c.set(i, "ok")
			continue
		}
		a := simple.NewContainerOfEnums()
		v := e2eNumber(who, i, d)
		a.First = simple.UndefinedValues(v)
		r, err := cl.Echo(a)
		switch {
		case err != nil:
			c.set(i, "error "+err.Error())
		case r == nil:
			c.set(i, "nothing")
		case int64(r.First) != v || int64(r.Third) != v*3+1:
			c.set(i, fmt.Sprintf("the result of another call (%d, %d)", r.First, r.Third))
		default:
			c.set(i, "ok")
		}
		if err != nil && i+1 < len(c.script) && c.script[i+1] != 'c' {
			break
		}
	}
	t.Close()
}

type e2eProg struct {
	kind    serverKind
	sock    sockKind
	pr      *proto
	link    e2eLink
	framed  bool
	clients []string
	early   bool // stopped at any moment
	fine    bool // threads switch at every statement of sockets and framing too
}

func (p e2eProg) exec(x *execution) {
	sched.ResetNet()
	h := &e2eHandler{}
	tf := thrift.NewTTransportFactory()
	if p.framed {
		tf = thrift.NewTFramedTransportFactory(tf)
	}
	pf := e2eFactory(p.pr)
	on := &sched.Cond{}
	st := &watchST{TServerTransport: p.sock.mk(), on: []*sched.Cond{on}}
	proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
	srv := p.kind.mk(thrift.NewTProcessorFactory(proc), st, tf, tf, pf, pf)
	cl := make([]e2eClient, len(p.clients))
	fin := make([]sched.Cond, len(p.clients))
	var got, stopErr error
	served := 0
	r := x.run(func() {
		sched.Spawn("serve", func() { serveUntil(srv, &got, &served) })
		sched.Spawn("stop", func() {
			on.Wait()
			if !p.early {
				for i := range fin {
					fin[i].Wait()
				}
			}
			stopErr = srv.Stop()
		})
		for i := range cl {
			i := i
			cl[i].script = p.clients[i]
			sched.Spawn(fmt.Sprintf("client%d", i), func() {
				on.Wait()
				cl[i].run(i, p.link, p.framed, pf)
				fin[i].Signal()
			})
		}
	})
	failIf(len(r.Stuck()) > 0, "stuck", "clients %q: stuck: %v", p.clients, r.Stuck())
	failIf(stopErr != nil, "stop", "stopping reported %v", stopErr)
	failIf(served == 0, "serve", "serving did not return")
	for i := range cl {
		c := &cl[i]
		failIf(!c.done, "client", "client %d did not finish", i)
		failIf(!p.early && !c.opened, "open", "client %d cannot connect: %s", i, c.open)
		for k := 0; k < len(c.script); k++ {
			d, out := c.script[k], c.out[k]
			if d == 'c' {
				failIf(!p.early && out != "ok", "reopen", "client %d cannot connect again: %s", i, out)
				continue
			}
			v := e2eNumber(i, k, d)
			n := h.count(v)
			failIf(n > 1, "twice", "the handler saw call %d %d times", v, n)
			bad := v%10 == e2eBad
			switch {
			case out == "ok":
				failIf(bad || n != 1, "result", "call %d gave a result, the handler saw it %d times", v, n)
			case strings.HasPrefix(out, "error "):
				own := bad && n == 1 && (p.pr == pSimp || strings.HasSuffix(out, fmt.Sprint("refused ", v)))
				failIf(!p.early && !own, "error", "call %d: %s; the handler saw it %d times", v, out, n)
			case out == "":
				failIf(!p.early || n > 0, "unmade", "call %d was not made, the handler saw it %d times", v, n)
			default:
				failIf(true, "mixed", "call %d gave %s", v, out)
			}
		}
	}
	for _, v := range h.seen[:h.n] {
		own := false
		for i := range cl {
			for k := 0; k < len(cl[i].script); k++ {
				own = own || cl[i].script[k] != 'c' && e2eNumber(i, k, cl[i].script[k]) == v
			}
		}
		failIf(!own, "invented", "the handler saw call %d, which nobody made", v)
	}
	failIf(sched.OpenCount() > 0, "address", "the address is still being listened on after stopping")
}

func e2ePrograms(thorough bool) []*program {
	var ps []*program
	add := func(q, t int, race bool, p e2eProg) {
		b, sh := q, 1
		if thorough {
			sh = 8
			if p.pr == pBin || p.framed && p.pr == pComp {
				b = t
			}
		}
		n := fmt.Sprintf("%s/%s %s/%s", p.kind.name, p.sock.name, p.pr.name, p.link.name)
		if p.framed {
			n += "/framed"
		}
		n += " " + strings.Join(p.clients, ",")
		if p.early {
			n += " stopped"
		}
		f := serverSites
		if p.fine {
			n, f = n+" fine", netSites
		}
		ps = append(ps, &program{name: n, filter: f, delay: true, bound: b, shards: sh, race: race, raceBound: 1, exec: p.exec})
	}
	for _, k := range serverKinds {
		for si, sk := range sockKinds {
			for pi, pr := range allProtos {
				for _, framed := range []bool{false, true} {
					link := e2eLinks[(si+pi)%len(e2eLinks)]
					if framed {
						link = e2eLinks[(si+pi+1)%len(e2eLinks)]
					}
					base := e2eProg{kind: k, sock: sk, pr: pr, link: link, framed: framed}
					with := func(early bool, clients ...string) e2eProg {
						p := base
						p.early, p.clients = early, clients
						return p
					}
					b := 2
					if link.name == "nonblocking" && !framed {
						b = 1 // every byte is a step
					}
					add(b, b+1, !framed, with(false, "12", "1"))
					add(b, b+1, false, with(false, "19c2", "9"))
					add(2, 3, false, with(true, "12"))
					add(2, 3, k.async, with(true, "1c2", "3"))
					add(1, 2, k.async, with(false, "1", "2", "3"))
					p := with(false, "1", "2")
					p.fine = true
					add(1, 2, false, p)
				}
			}
		}
	}
	return ps
}
