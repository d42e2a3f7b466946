package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"simple"
	"strings"
	"thrift"
)

func init() {
	checks["C19"] = checkDef{"model_checking", runC19}
}

// one direction of a connection
type lane struct {
	b      []byte
	failAt int // bytes accepted before writing starts to fail for good; -1 never
	failed bool
}

// connEnd is one end of an in-memory connection.
type connEnd struct {
	in, out *lane
	starved func() bool // called when there is nothing to read; true: try again
	block   bool        // an empty lane would block for ever instead of ending
	ends    bool        // the last bytes come together with the end of the stream
	flushes int
}

func (e *connEnd) IsOpen() bool { return true }
func (e *connEnd) Open() error  { return nil }
func (e *connEnd) Close() error { return nil }
func (e *connEnd) Peek() bool   { return len(e.in.b) > 0 }
func (e *connEnd) Flush() error {
	e.flushes++
	if e.out.failed {
		return errInjected
	}
	return nil
}
func (e *connEnd) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(e.in.b) == 0 {
		if e.starved != nil && e.starved() {
			continue
		}
		if e.block {
			panic(wouldBlock{})
		}
		return 0, io.EOF
	}
	n := copy(b, e.in.b)
	e.in.b = e.in.b[n:]
	if e.ends && len(e.in.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}
func (e *connEnd) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(e, b) }
func (e *connEnd) Write(b []byte) (int, error) {
	if f := e.out.failAt; f >= 0 && len(b) > f {
		e.out.b = append(e.out.b, b[:f]...)
		e.out.failAt, e.out.failed = 0, true
		return f, errInjected
	}
	if e.out.failAt >= 0 {
		e.out.failAt -= len(b)
	}
	e.out.b = append(e.out.b, b...)
	return len(b), nil
}

// the handler: its answer is a function of the first field
const (
	ansNil = 100 + iota
	ansErr
	ansAppErr
	ansBoth
	ansEmpty
)

var errHandler = errors.New("handler failed: \"quoted\" \\ é")

type handlerRec struct {
	calls []string
	inst  int64
}

func argString(a *simple.ContainerOfEnums) string {
	if a == nil {
		return "nil"
	}
	return ceOf(a).String()
}

func (h *handlerRec) Echo(a *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	h.calls = append(h.calls, argString(a))
	w := answerTo(a)
	var r *simple.ContainerOfEnums
	if w.val != nil {
		r = w.val.obj()
	}
	return r, w.err
}

type reply struct {
	val *ce
	err error
}

func answerTo(a *simple.ContainerOfEnums) reply {
	if a == nil {
		return reply{val: &ce{42, unset, 42, unset, 42, unset, 42, unset, 42}}
	}
	v := ceOf(a)
	switch v[0] {
	case ansNil:
		return reply{}
	case ansErr:
		return reply{err: errHandler}
	case ansAppErr:
		return reply{err: thrift.NewTApplicationException(thrift.MISSING_RESULT, "own")}
	case ansBoth:
		return reply{val: &ce{}, err: errHandler}
	case ansEmpty:
		return reply{val: &ce{unset, unset, unset, unset, unset, unset, unset, unset, unset}}
	}
	for i := range v {
		if v[i] != unset {
			v[i] ^= 0x55
		}
	}
	return reply{val: &v}
}

type fixedFactory struct{ pr *proto }

func (f fixedFactory) GetProtocol(t thrift.TTransport) thrift.TProtocol { return f.pr.mk(t) }

// carriers between the protocol and the connection
type callCarrier struct {
	name string
	wrap func(e *connEnd) thrift.TTransport
	ends bool // the client is told of the end of each reply together with its last bytes, as by HTTP
}

var callCarriers = []callCarrier{
	{"direct", func(e *connEnd) thrift.TTransport { return e }, false},
	{"framed", func(e *connEnd) thrift.TTransport { return thrift.NewTFramedTransport(e) }, false},
	{"stream", func(e *connEnd) thrift.TTransport {
		return thrift.NewTIOStreamTransportRW(struct {
			io.Reader
			io.Writer
			flusher
		}{e, e, e})
	}, false},
	{"ending", func(e *connEnd) thrift.TTransport { return e }, true},
}

type flusher interface{ Flush() error }

// callConn is a client and a processor on one connection.
type callConn struct {
	pr       *proto
	h        *handlerRec
	c2s, s2c *lane
	ce, se   *connEnd
	ct, st   thrift.TTransport
	cl       *simple.ContainerOfEnumsTestServiceClient
	proc     *simple.ContainerOfEnumsTestServiceProcessor
	ip, op   thrift.TProtocol
	procErrs []error
	broken   bool // the server would have closed the connection
}

func newCallConn(pr *proto, ca callCarrier, h *handlerRec, proc *simple.ContainerOfEnumsTestServiceProcessor) *callConn {
	k := &callConn{pr: pr, h: h, c2s: &lane{failAt: -1}, s2c: &lane{failAt: -1}, proc: proc}
	k.ce = &connEnd{in: k.s2c, out: k.c2s}
	k.se = &connEnd{in: k.c2s, out: k.s2c}
	k.ce.ends = ca.ends
	k.ct, k.st = ca.wrap(k.ce), ca.wrap(k.se)
	k.cl = simple.NewContainerOfEnumsTestServiceClientFactory(k.ct, fixedFactory{pr})
	f := fixedFactory{pr}
	k.ip, k.op = f.GetProtocol(k.st), f.GetProtocol(k.st)
	return k
}

// loop makes the client's reads run the server.
func (k *callConn) loop() {
	k.ce.starved = func() bool {
		if len(k.c2s.b) == 0 || k.broken {
			return false
		}
		k.process()
		return true
	}
}

func (k *callConn) process() (bool, error) {
	ok, err := k.proc.Process(k.ip, k.op)
	if err != nil {
		k.procErrs = append(k.procErrs, err)
	}
	return ok, err
}

type callSym struct {
	name string
	arg  *ce  // nil: nil message
	unk  bool // unknown method
	via  string
	body Val
}

func (k *callConn) sendUnknown(s callSym, seq int32) error {
	if e := writeMsg(k.pr.mk(k.ct), Msg{s.via, 1, seq, s.body}); e != nil {
		return e
	}
	return nil
}

func callSyms(pr *proto) []callSym {
	v := func(a ...int64) *ce {
		r := ce{unset, unset, unset, unset, unset, unset, 0, 1, 0}
		copy(r[:], a)
		return &r
	}
	syms := []callSym{
		{name: "a", arg: v(1, 2, 3)},
		{name: "b", arg: v(-1, 2, unset, unset, math.MaxInt32, unset, unset, 300, math.MinInt32)},
		{name: "nilarg", arg: nil},
		{name: "nilres", arg: v(ansNil)},
		{name: "emptyres", arg: v(ansEmpty)},
		{name: "err", arg: v(ansErr, 7)},
	}
	if pr != pSimp {
		syms = append(syms,
			callSym{name: "apperr", arg: v(ansAppErr)},
			callSym{name: "both", arg: v(ansBoth)},
			callSym{name: "unknown", unk: true, via: "ech", body: vStruct(fld(1, vI32(5)), fld(2, vMap(tSTRING, tSTRUCT, vStr("k"), vStruct(fld(1, vBool(true))))))},
			callSym{name: "unknown0", unk: true, via: "Echo", body: vStruct()},
		)
	}
	return syms
}

func (s callSym) obj() *simple.ContainerOfEnums {
	if s.arg == nil {
		return nil
	}
	return s.arg.obj()
}

// seen is the argument as the handler must see it.
func (s callSym) seen() *simple.ContainerOfEnums {
	if s.arg == nil {
		return nil
	}
	return s.arg.read().obj()
}

// checkReply compares what the caller got with what the handler answered.
func checkReply(t *T, k *callConn, s callSym, got *simple.ContainerOfEnums, err error) {
	w := answerTo(s.seen())
	if w.err != nil {
		mustTrue(err != nil, "lost-error", "the handler failed (%v), the caller got %s without error", w.err, argString(got))
		if k.pr != pSimp {
			x, ok := err.(thrift.TApplicationException)
			mustTrue(ok && x.TypeId() == thrift.INTERNAL_ERROR && strings.HasSuffix(x.Error(), w.err.Error()), "exception", "the handler failed (%v), the caller got %T %v", w.err, err, err)
		}
		return
	}
	mustTrue(err == nil, "call", "the call failed: %v", err)
	want := "nil"
	if w.val != nil {
		want = w.val.read().String()
	}
	mustTrue(argString(got) == want, "result", "the caller got %s, the handler's result is %s", argString(got), want)
}

func runC19(c *Ctx) {
	c.Rule("states = distinct (protocol, carrier, sequence of calls or steps, fault); transitions = calls and steps; every execution runs the generated client and processor over the real protocols and transports")
	// sequences of calls on one connection
	for _, pr := range allProtos {
		syms := callSyms(pr)
		var names []string
		for _, s := range syms {
			names = append(names, s.name)
		}
		for _, ca := range callCarriers {
			pr, ca := pr, ca
			depth := c.Pick(3, 4)
			if pr == pBin || pr == pComp {
				depth = c.Pick(4, 5)
			}
			seqsTo(c, "calls/"+pr.name+"/"+ca.name, names, depth, func(t *T, seq []int) {
				h := &handlerRec{}
				k := newCallConn(pr, ca, h, simple.NewContainerOfEnumsTestServiceProcessor(h))
				k.loop()
				k.ce.block = true
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(wouldBlock); ok {
							t.Failf("hang", "the caller waits for ever for the reply to call %d", len(h.calls))
						}
						panic(r)
					}
				}()
				if len(seq) > 0 {
					k.cl.SeqId = []int32{0, -2, math.MaxInt32 - 1, 62, 126}[seq[0]%5]
				}
				var wantCalls []string
				for n, i := range seq {
					s := syms[i]
					before := len(h.calls)
					if s.unk {
						seqID := int32(900 + n)
						if err := k.sendUnknown(s, seqID); err != nil {
							t.Failf("send", "%v", err)
						}
						name, ty, id, err := k.cl.InputProtocol.ReadMessageBegin()
						mustTrue(err == nil, "unknown-reply", "reading the reply to %q: %v", s.via, err)
						mustTrue(name == s.via && ty == thrift.EXCEPTION && id == seqID, "unknown-reply", "call of %q number %d is answered by %q type %d number %d", s.via, seqID, name, ty, id)
						x, er := thrift.NewTApplicationExceptionDefault().Read(k.cl.InputProtocol)
						mustTrue(er == nil, "unknown-reply", "reading the exception: %v", er)
						mustTrue(x.TypeId() == thrift.UNKNOWN_METHOD, "unknown-reply", "unknown method answered by exception %d %q", x.TypeId(), x.Error())
						err = k.cl.InputProtocol.ReadMessageEnd()
						mustTrue(err == nil, "unknown-reply", "reading the end of the exception: %v", err)
						mustTrue(len(h.calls) == before, "handler", "a call of unknown %q invoked the handler", s.via)
						continue
					}
					o := s.obj()
					keep := argString(o)
					got, err := k.cl.Echo(o)
					checkReply(t, k, s, got, err)
					mustTrue(argString(o) == keep, "mutated", "the call changed its argument from %s to %s", keep, argString(o))
					wantCalls = append(wantCalls, argString(s.seen()))
					mustTrue(reflect.DeepEqual(h.calls, wantCalls), "handler", "the handler saw %v, calls were %v", h.calls, wantCalls)
					if err != nil && pr == pSimp {
						break
					}
				}
				if len(k.s2c.b) != 0 || len(k.c2s.b) != 0 {
					if !(pr == pSimp && len(k.procErrs) > 0) {
						t.Failf("leftover", "%d and %d bytes are left over on the connection", len(k.c2s.b), len(k.s2c.b))
					}
				}
				t.StateS(pr.name + ca.name + fmt.Sprint(seq))
			})
		}
	}
	// every order of sending, processing and receiving, on two connections
	// that share the processor
	type step struct {
		conn int
		what byte
		sym  int
	}
	for _, pr := range allProtos {
		all := callSyms(pr)
		var steps []step
		var names []string
		for cn := 0; cn < 2; cn++ {
			for i, s := range all {
				if s.unk || cn == 1 && s.name != "b" && s.name != "err" || cn == 0 && s.name != "a" && s.name != "nilres" && s.name != "err" {
					continue
				}
				steps = append(steps, step{cn, 's', i})
				names = append(names, fmt.Sprintf("send%d(%s)", cn, s.name))
			}
			steps = append(steps, step{cn, 'p', 0}, step{cn, 'r', 0})
			names = append(names, fmt.Sprintf("process%d", cn), fmt.Sprintf("receive%d", cn))
		}
		for _, ca := range callCarriers[:2] {
			pr, ca := pr, ca
			seqsTo(c, "steps/"+pr.name+"/"+ca.name, names, c.Pick(5, 6), func(t *T, seq []int) {
				h := &handlerRec{}
				proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
				type conn struct {
					*callConn
					reqs []struct {
						sym int
						id  int32
					}
					reps []struct {
						sym int
						id  int32
					}
					dead bool
				}
				ks := []*conn{{callConn: newCallConn(pr, ca, h, proc)}, {callConn: newCallConn(pr, ca, h, proc)}}
				calls := 0
				for _, i := range seq {
					st := steps[i]
					k := ks[st.conn]
					if k.dead {
						continue
					}
					switch st.what {
					case 's':
						err := k.cl.SendEcho(all[st.sym].obj())
						mustTrue(err == nil, "send", "%v", err)
						k.reqs = append(k.reqs, struct {
							sym int
							id  int32
						}{st.sym, k.cl.SeqId})
					case 'p':
						ok, err := k.process()
						if len(k.reqs) == 0 {
							mustTrue(!ok && err != nil, "process-nothing", "processing without a request reports %v %v", ok, err)
							mustTrue(len(h.calls) == calls, "handler", "processing without a request invoked the handler")
							k.dead = true
							continue
						}
						rq := k.reqs[0]
						k.reqs = k.reqs[1:]
						calls++
						mustTrue(len(h.calls) == calls && h.calls[calls-1] == argString(all[rq.sym].seen()), "handler", "after processing the call of %s the handler saw %v", argString(all[rq.sym].seen()), h.calls)
						w := answerTo(all[rq.sym].seen())
						mustTrue(ok == (w.err == nil) && (err == nil) == (w.err == nil), "process", "processing reports %v %v, the handler's error is %v", ok, err, w.err)
						k.reps = append(k.reps, rq)
					case 'r':
						got, err := k.cl.RecvEcho()
						if len(k.reps) == 0 {
							mustTrue(err != nil, "receive-nothing", "receiving without a reply gives %s", argString(got))
							k.dead = true
							continue
						}
						rp := k.reps[0]
						k.reps = k.reps[1:]
						s := all[rp.sym]
						if answerTo(s.seen()).err == nil && rp.id != k.cl.SeqId {
							x, ok := err.(thrift.TApplicationException)
							mustTrue(ok && x.TypeId() == thrift.BAD_SEQUENCE_ID, "sequence", "the reply to call %d received for call %d gives %s, %v", rp.id, k.cl.SeqId, argString(got), err)
							k.dead = true
							continue
						}
						checkReply(t, k.callConn, s, got, err)
						if err != nil && pr == pSimp {
							k.dead = true
						}
					}
				}
				t.StateS(pr.name + ca.name + fmt.Sprint("steps", seq))
			})
		}
	}
	// a connection that breaks after every number of bytes in either direction
	for _, pr := range allProtos {
		for _, ca := range callCarriers {
			pr, ca := pr, ca
			syms := callSyms(pr)
			c.Par("broken/"+pr.name+"/"+ca.name, len(syms)*len(syms), func(i int) string {
				return syms[i/len(syms)].name + "," + syms[i%len(syms)].name
			}, func(t *T, i int) {
				first, s := syms[i/len(syms)], syms[i%len(syms)]
				if first.unk || s.unk || pr == pSimp && answerTo(first.seen()).err != nil {
					return
				}
				// a good call first, then one on the broken connection
				setup := func() (*callConn, *handlerRec) {
					h := &handlerRec{}
					k := newCallConn(pr, ca, h, simple.NewContainerOfEnumsTestServiceProcessor(h))
					k.loop()
					got, err := k.cl.Echo(first.obj())
					checkReply(t, k, first, got, err)
					h.calls = nil
					return k, h
				}
				k, _ := setup()
				k.ce.starved = nil
				if err := k.cl.SendEcho(s.obj()); err != nil {
					t.Failf("send", "%v", err)
				}
				nreq := len(k.c2s.b)
				k.process()
				nrep := len(k.s2c.b)
				verdict := func(h *handlerRec, k *callConn, got *simple.ContainerOfEnums, err error, complete bool, what string) {
					if len(h.calls) > 1 || len(h.calls) == 1 && h.calls[0] != argString(s.seen()) {
						t.Failf("handler", "%s: the handler saw %v, the argument was %s", what, h.calls, argString(s.seen()))
					}
					if err == nil {
						w := answerTo(s.seen())
						want := "nil"
						if w.val != nil {
							want = w.val.read().String()
						}
						if w.err != nil || argString(got) != want || len(h.calls) != 1 {
							t.Failf("result", "%s: the caller got %s without error; the handler saw %v", what, argString(got), h.calls)
						}
					}
				}
				for n := 0; n < nreq; n++ {
					t.Try(fmt.Sprintf("request breaks after %d of %d bytes", n, nreq), func() {
						k, h := setup()
						k.c2s.failAt = n
						got, err := k.cl.Echo(s.obj())
						verdict(h, k, got, err, false, t.sub)
						t.StateS(fmt.Sprint(pr.name, ca.name, i, "req", n))
					})
					t.Trace()
					t.Ops(2)
					// the server sees a request cut short
					t.Try(fmt.Sprintf("request cut after %d of %d bytes", n, nreq), func() {
						k, h := setup()
						k.ce.starved = nil
						if err := k.cl.SendEcho(s.obj()); err != nil {
							t.Failf("send", "%v", err)
						}
						k.c2s.b = k.c2s.b[:n]
						ok, err := k.process()
						if len(h.calls) == 0 && (ok || err == nil) {
							t.Failf("process", "processing %d of %d bytes of a request reports %v %v without calling the handler", n, nreq, ok, err)
						}
						got, err := k.cl.RecvEcho()
						verdict(h, k, got, err, false, t.sub)
					})
					t.Trace()
					t.Ops(3)
				}
				for n := 0; n < nrep; n++ {
					t.Try(fmt.Sprintf("reply breaks after %d of %d bytes", n, nrep), func() {
						k, h := setup()
						k.s2c.failAt = n
						k.ce.starved = nil
						if err := k.cl.SendEcho(s.obj()); err != nil {
							t.Failf("send", "%v", err)
						}
						ok, err := k.process()
						if ok || err == nil {
							t.Failf("process", "the reply could not be sent beyond %d of %d bytes, processing reports %v %v", n, nrep, ok, err)
						}
						got, err := k.cl.RecvEcho()
						verdict(h, k, got, err, false, t.sub)
						t.StateS(fmt.Sprint(pr.name, ca.name, i, "rep", n))
					})
					t.Trace()
					t.Ops(3)
				}
			})
		}
	}
	// replies of every kind and number
	type rep struct {
		typ int32
		seq int32
		val *ce
		exc appExc
	}
	var reps []rep
	for _, d := range []int32{0, 1, -1, 256, 65536, math.MinInt32, 2} {
		reps = append(reps, rep{2, d, &ce{1, 2, 3}, appExc{}}, rep{2, d, nil, appExc{}})
	}
	for _, ty := range []int32{0, 1, 2, 3, 4, 5, 6, 7, -1, 1000} {
		for _, m := range []string{"", "x", "\"\\é", pattern(300)} {
			reps = append(reps, rep{typ: 3, exc: appExc{ty, m}})
		}
	}
	c.Par("replies", len(reps)*3*len(callCarriers), nil, func(t *T, i int) {
		pr, ca, r := allProtos[i%3], callCarriers[i/3%len(callCarriers)], reps[i/3/len(callCarriers)]
		t.Try(fmt.Sprint(pr.name, ca.name, r.typ, r.seq, r.exc), func() {
			for _, start := range []int32{0, -2, 126, math.MaxInt32} {
				h := &handlerRec{}
				k := newCallConn(pr, ca, h, simple.NewContainerOfEnumsTestServiceProcessor(h))
				k.cl.SeqId = start
				if err := k.cl.SendEcho(nil); err != nil {
					t.Failf("send", "%v", err)
				}
				var body Val
				if r.typ == 3 {
					body = appVal(r.exc)
				} else if r.val != nil {
					body = vStruct(Field{0, "success", r.val.wire()})
				} else {
					body = vStruct()
				}
				id := k.cl.SeqId + r.seq
				if e := writeMsg(pr.mk(k.st), Msg{"echo", r.typ, id, body}); e != nil {
					t.Failf("write", "%v", e)
				}
				got, err := k.cl.RecvEcho()
				if r.typ == 3 {
					x, ok := err.(thrift.TApplicationException)
					mustTrue(ok && x.TypeId() == r.exc.typ && x.Error() == r.exc.msg, "exception", "exception %d %q reaches the caller as %T %v", r.exc.typ, r.exc.msg, err, err)
				} else if r.seq != 0 {
					x, ok := err.(thrift.TApplicationException)
					mustTrue(ok && x.TypeId() == thrift.BAD_SEQUENCE_ID, "sequence", "a reply numbered %d to call %d gives %s, %v", id, k.cl.SeqId, argString(got), err)
				} else {
					want := "nil"
					if r.val != nil {
						want = r.val.read().String()
					}
					mustTrue(err == nil && argString(got) == want, "result", "the reply %s reaches the caller as %s, %v", want, argString(got), err)
				}
				t.Trace()
				t.Ops(2)
			}
		})
		t.StateS(fmt.Sprint("reply", i))
	})
}
