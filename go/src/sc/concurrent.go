package main

import (
	"bytes"
	"fmt"
	"sched"
	"thrift"
)

func init() {
	checks["C22"] = checkDef{"model_checking", func(c *Ctx) {
		c.Rule("states = distinct control states (statement and status of both threads) over all programs; transitions = scheduling steps; every execution runs the real codec, transport and container code, instrumented mechanically at every statement, under a scheduler that owns every interleaving decision; the same programs also run in a build with the race detector, to which the scheduler adds no ordering")
		runPrograms(c, "C22")
	}}
	programs["C22"] = c22Programs
}

func everySite(sched.Site) bool { return true }

// conWork is what one thread does with objects of its own: prepare obtains
// them (from factories shared by both threads), the rest runs in the thread.
type conWork struct {
	name string
	run  func() string
}

// conKit makes the work of one connection over shared factories.
type conKit struct {
	pr *proto
	pf thrift.TProtocolFactory
	tf thrift.TTransportFactory
	tn string
}

var conTransports = []string{"memory", "framed", "stream", "membuffer"}

func newKit(pr *proto, tn string) *conKit {
	k := &conKit{pr: pr, tn: tn}
	switch pr {
	case pBin:
		k.pf = thrift.NewTBinaryProtocolFactoryDefault()
	case pComp:
		k.pf = thrift.NewTCompactProtocolFactory()
	case pJSON:
		k.pf = thrift.NewTJSONProtocolFactory()
	case pSimp:
		k.pf = thrift.NewTSimpleJSONProtocolFactory()
	}
	switch tn {
	case "framed":
		k.tf = thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory())
	case "membuffer":
		k.tf = thrift.NewTMemoryBufferTransportFactory(64)
	default:
		k.tf = thrift.NewTTransportFactory()
	}
	return k
}

// open makes the transport of one connection, holding the given input, and a
// function that says what was written to it.
func (k *conKit) open(in []byte) (thrift.TTransport, func() []byte) {
	switch k.tn {
	case "stream":
		b := bytes.NewBuffer(append([]byte(nil), in...))
		return k.tf.GetTransport(thrift.NewTIOStreamTransportRW(b)), b.Bytes
	case "membuffer":
		t := k.tf.GetTransport(nil)
		if len(in) > 0 {
			t.Write(in)
		}
		return t, func() []byte {
			b := make([]byte, 4096)
			n, _ := t.Read(b)
			return b[:n]
		}
	}
	m := newMem(append([]byte(nil), in...))
	return k.tf.GetTransport(m), func() []byte { return m.b }
}

func conMsg(kind byte, who int) Msg {
	name := "left"
	if who == 1 {
		name = "rightmost"
	}
	k := 1 + 2*who
	if kind == tMAP {
		// one entry: the order of more is not determined
		return Msg{Name: name, Type: 1, Seq: int32(1 + who), Body: vStruct(fld(int16(1+who*20), vMap(tSTRING, tI32, vStr(name), vI32(int32(k)))))}
	}
	return Msg{Name: name, Type: 1, Seq: int32(1 + who), Body: vStruct(fld(int16(1+who*20), rep(kind, k)))}
}

func (k *conKit) work(op byte, kind byte, who int) func() string {
	m := conMsg(kind, who)
	if op == 'W' {
		t, out := k.open(nil)
		return func() string {
			p := k.pf.GetProtocol(t)
			if e := writeMsg(p, m); e != nil {
				return "error " + e.Error()
			}
			return fmt.Sprintf("%x", out())
		}
	}
	t, out := k.open(nil)
	if e := writeMsg(k.pr.mk(t), m); e != nil {
		panic(failure{"write", e.Error()})
	}
	t, _ = k.open(out())
	return func() string {
		p := k.pf.GetProtocol(t)
		if op == 'R' {
			if e := k.pr.readMsgLike(p, m); e != nil {
				return "error " + e.Error()
			}
			return "as written"
		}
		name, ty, seq, e := p.ReadMessageBegin()
		if e != nil {
			return "error " + e.Error()
		}
		if e := p.Skip(thrift.STRUCT); e != nil {
			return "skip error " + e.Error()
		}
		if e := p.ReadMessageEnd(); e != nil {
			return "end error " + e.Error()
		}
		return fmt.Sprint(name, ty, seq)
	}
}

// both runs two pieces of work concurrently and compares each outcome with the
// one it has alone.
func both(x *execution, what string, mk func(who int) func() string) {
	var solo [2]string
	for i := range solo {
		solo[i] = mk(i)()
	}
	var got [2]string
	w := [2]func() string{mk(0), mk(1)}
	r := x.run(func() {
		for i := range w {
			i := i
			sched.Spawn([]string{"left", "right"}[i], func() { got[i] = w[i]() })
		}
	})
	failIf(len(r.Stuck()) > 0, "stuck", "%s: stuck: %v", what, r.Stuck())
	for i := range got {
		failIf(got[i] != solo[i], "interference", "%s: thread %d alone gives %q, with the other one running %q", what, i, solo[i], got[i])
	}
}

var opName = map[byte]string{'W': "write", 'R': "read", 'S': "skip"}

func (k *conKit) program(ops string, kinds []byte) func(x *execution) {
	return func(x *execution) {
		a := kinds[x.ch(len(kinds))]
		b := a
		if len(kinds) > 1 && x.ch(2) == 1 {
			// another kind in the second thread
			for i, v := range kinds {
				if v == a {
					b = kinds[(i+1)%len(kinds)]
				}
			}
		}
		what := fmt.Sprintf("%s over %s: %s type %d, %s type %d", k.pr.name, k.tn, opName[ops[0]], a, opName[ops[1]], b)
		both(x, what, func(who int) func() string {
			return k.work(ops[who], []byte{a, b}[who], who)
		})
	}
}

// ---- containers and values

func conContainers(x *execution) {
	kinds := []struct {
		name string
		f    func(who int) string
	}{
		{"list", func(who int) string {
			l := thrift.NewTList(thrift.I64, 0)
			l.Push(int32(5 + who))
			l.Push("12")
			return fmt.Sprint(l.Len(), l.At(0), l.At(1), l.Contains(int64(12)))
		}},
		{"set", func(who int) string {
			s := thrift.NewTSet(thrift.STRING, 0)
			s.Add("a")
			s.Add(fmt.Sprint("b", who))
			s.Add("a")
			return fmt.Sprint(s.Len(), s.Contains(fmt.Sprint("b", 1-who)))
		}},
		{"map", func(who int) string {
			m := thrift.NewTMap(thrift.I32, thrift.STRING, 0)
			m.Set(int32(who), "x")
			v, ok := m.Get(int32(who))
			return fmt.Sprint(m.Len(), v, ok, m.Contains(int32(1-who)))
		}},
		{"exception", func(who int) string {
			e := thrift.NewTApplicationException(int32(who+1), fmt.Sprint("m", who))
			mem := newMem(nil)
			if err := e.Write(thrift.NewTBinaryProtocolTransport(mem)); err != nil {
				return err.Error()
			}
			e2 := thrift.NewTApplicationExceptionDefault()
			r, err := e2.Read(thrift.NewTBinaryProtocolTransport(mem))
			return fmt.Sprint(r, err)
		}},
		{"coerce", func(who int) string {
			c, ok := thrift.TType(thrift.DOUBLE).CoerceData(int16(3 + who))
			return fmt.Sprint(c, ok, thrift.TType(thrift.I32).String())
		}},
	}
	a, b := x.ch(len(kinds)), x.ch(len(kinds))
	both(x, kinds[a].name+" and "+kinds[b].name, func(who int) func() string {
		return func() string { return kinds[[]int{a, b}[who]].f(who) }
	})
}

func c22Programs(thorough bool) []*program {
	var ps []*program
	scalars := []byte{tBOOL, tBYTE, tI16, tI32, tI64, tDOUBLE, tSTRING, tBINARY}
	inner := []byte{tSTRUCT, tLIST, tSET, tMAP}
	for _, pr := range allProtos {
		for _, tn := range conTransports {
			k := newKit(pr, tn)
			for _, ops := range []string{"WW", "RR", "WR", "SS", "RS"} {
				if pr == pSimp && ops != "WW" {
					continue
				}
				for gi, g := range [][]byte{scalars, inner} {
					b, sh := 1, 1
					json := pr == pJSON || pr == pSimp
					switch {
					case thorough && !json:
						b, sh = 2, 4
					case thorough && tn == "memory":
						b, sh = 2, 8
					case tn == "memory" && !json && (ops == "WW" || ops == "RR" && pr == pBin):
						b, sh = 2, 2
					}
					ps = append(ps, &program{name: fmt.Sprintf("%s/%s %s %d", pr.name, tn, ops, gi), filter: everySite, bound: b, shards: sh,
						race: true, raceBound: 0, exec: k.program(ops, g)})
				}
			}
		}
	}
	b := 1
	if thorough {
		b = 2
	}
	ps = append(ps, &program{name: "values", filter: everySite, bound: b, race: true, exec: conContainers})
	return ps
}
