package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"
	"thrift"
)

func init() {
	checks["C05"] = checkDef{"model_checking", runC05}
	checks["C06"] = checkDef{"model_checking", runC06}
	checks["C07"] = checkDef{"fault_enumeration", runC07}
	checks["C08"] = checkDef{"fault_enumeration", runC08}
}

// streamMsgs is the corpus of the fragmentation and fault checks: every type in
// every position, small enough for all cut points to be enumerated.
func streamMsgs() []Msg {
	var vs []Val
	for _, ty := range allTypes {
		for k := 0; k < 3; k++ {
			vs = append(vs, rep(ty, k))
		}
	}
	vs = append(vs,
		vDbl(math.NaN()), vDbl(math.Inf(1)), vDbl(math.Inf(-1)), vDbl(-1.5e-300), vDbl(math.Copysign(0, -1)),
		vI64(math.MinInt64), vI32(math.MinInt32), vI16(math.MinInt16), vI64(1<<62),
		vStr("a\"b\\c\n\u2028é\U0001f600"), vStr("\\"), vStr("\\\""), vStr("\""), vStr("null"), vStr("]}{[,:"), vStr(strings.Repeat("\\\"", 4)),
		vBin("\x00\xff\x80"), vBin("ab"), vBin("abcd"), vStr(strings.Repeat("v", 130)),
	)
	var out []Msg
	add := func(b Val) {
		out = append(out, Msg{"mth", int32(len(out)%4) + 1, int32(len(out)*777 - 5), b})
	}
	add(vStruct())
	for i, v := range vs {
		switch i % 4 {
		case 0:
			add(vStruct(fld(1, v)))
		case 1:
			add(vStruct(fld(1, vBool(true)), fld(20, v), fld(2, vI32(-3))))
		case 2:
			add(vStruct(fld(1, vList(v.T, v, v)), fld(2, vBool(false))))
		case 3:
			add(vStruct(fld(3, vMap(tSTRING, v.T, vStr("k"), v)), fld(1, vStruct(fld(7, v)))))
		}
	}
	// every type as list element, set element, map key and value, nested struct field
	for _, ty := range allTypes {
		a, b := rep(ty, 1), rep(ty, 2)
		add(vStruct(fld(1, vList(ty, a, b)), fld(2, vSet(ty, b)), fld(3, vMap(ty, tBOOL, a, vBool(true), b, vBool(false)))))
		add(vStruct(fld(1, vList(tSTRUCT, vStruct(fld(1, a)), vStruct(), vStruct(fld(2, b), fld(17, a)))), fld(4, vMap(tI32, tLIST, vI32(1), vList(ty, a), vI32(2), vList(ty)))))
	}
	return out
}

func encWith(pr *proto, m Msg) []byte {
	tr := newMem(nil)
	if e := writeMsg(pr.mk(tr), m); e != nil {
		panic(failure{"write-error", fmt.Sprintf("writing %s: %v", m, e)})
	}
	return tr.b
}

// a carrier puts a scripted byte stream under a protocol.
type carrier struct {
	name string
	wrap func(s *scriptT) thrift.TTransport
	// enc turns message bytes into stream bytes
	enc func(b []byte) []byte
}

type rwOnly struct{ s *scriptT }

func (r rwOnly) Read(b []byte) (int, error)  { return r.s.Read(b) }
func (r rwOnly) Write(b []byte) (int, error) { return len(b), nil }

func ident(b []byte) []byte { return b }

func frame(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

// frames cuts b at the given points into frames, with an empty frame between.
func frames(b []byte, cuts ...int) []byte {
	var out []byte
	at := 0
	for _, c := range append(cuts, len(b)) {
		out = append(out, frame(b[at:c])...)
		at = c
	}
	return out
}

var carriers = []carrier{
	{"direct", func(s *scriptT) thrift.TTransport { return s }, ident},
	{"stream", func(s *scriptT) thrift.TTransport { return thrift.NewTIOStreamTransportR(rwOnly{s}) }, ident},
	{"stream-rw", func(s *scriptT) thrift.TTransport { return thrift.NewTIOStreamTransportRW(rwOnly{s}) }, ident},
	{"framed", func(s *scriptT) thrift.TTransport { return thrift.NewTFramedTransport(s) }, frame},
}

// plan is one way a stream is cut: pieces delivered per read, empty reads
// before each piece, end-of-stream with the last byte.
type plan struct {
	cuts  []int // ascending positions; nil with chunk>0 means constant chunks
	chunk int
	empty int
	eof   bool
}

func (p plan) String() string {
	return fmt.Sprintf("cuts%v,chunk%d,empty%d,eof%v", p.cuts, p.chunk, p.empty, p.eof)
}

func (p plan) chooser(s *scriptT) func(asked, left int) answer {
	e := 0
	return func(asked, left int) answer {
		atCut := p.chunk > 0 || s.off == 0
		for _, c := range p.cuts {
			if c == s.off {
				atCut = true
			}
		}
		if atCut && e < p.empty {
			e++
			return answer{kind: aEmpty}
		}
		e = 0
		n := left
		if p.chunk > 0 {
			n = p.chunk
		} else {
			for _, c := range p.cuts {
				if c > s.off {
					n = c - s.off
					break
				}
			}
		}
		return answer{kind: aData, n: n, eof: p.eof}
	}
}

// plans calls f with every fragmentation of a stream of L bytes within the
// bounds: constant chunks, one cut, two cuts, three cuts for short streams, and
// all compositions of very short ones.
func plans(L int, deep int, f func(p plan)) {
	for _, eof := range []bool{false, true} {
		for k := 1; k <= L; k++ {
			for e := 0; e <= 2; e++ {
				f(plan{chunk: k, empty: e, eof: eof})
			}
		}
		for a := 1; a < L; a++ {
			for e := 0; e <= 2; e++ {
				f(plan{cuts: []int{a}, empty: e, eof: eof})
			}
		}
	}
	if L <= deep {
		for a := 1; a < L; a++ {
			for b := a + 1; b < L; b++ {
				f(plan{cuts: []int{a, b}, eof: (a+b)%2 == 0})
			}
		}
	}
	if L <= deep/4 {
		for a := 1; a < L; a++ {
			for b := a + 1; b < L; b++ {
				for c := b + 1; c < L; c++ {
					f(plan{cuts: []int{a, b, c}})
				}
			}
		}
	}
	if L <= deep/10 {
		for m := 0; m < 1<<uint(L-1); m++ {
			var cuts []int
			for i := 1; i < L; i++ {
				if m>>uint(i-1)&1 != 0 {
					cuts = append(cuts, i)
				}
			}
			f(plan{cuts: cuts, eof: m%2 == 0})
		}
	}
}

type streamCase struct {
	pr *proto
	ca carrier
	m  Msg
}

func streamCases() []streamCase {
	var out []streamCase
	for _, m := range streamMsgs() {
		for _, pr := range allProtos {
			for _, ca := range carriers {
				out = append(out, streamCase{pr, ca, m})
			}
		}
	}
	return out
}

func (s streamCase) String() string { return fmt.Sprintf("%s/%s/%s", s.pr.name, s.ca.name, s.m) }

func runC05(c *Ctx) {
	c.Rule("states = distinct (protocol, carrier, message, fragmentation) executions that issued a new sequence of transport reads; transitions = transport reads answered; every fragmentation within the bounds is executed on the real reader and the decoded values compared with those written")
	cs := streamCases()
	probe := Msg{"nxt", 2, 9, vStruct(fld(5, vBool(true)), fld(6, vStr("z")))}
	deep := c.Pick(120, 260)
	c.Par("fragmentations", len(cs), func(i int) string { return cs[i].String() }, func(t *T, i int) {
		s := cs[i]
		stream := append(append([]byte(nil), s.ca.enc(encWith(s.pr, s.m))...), s.ca.enc(encWith(s.pr, probe))...)
		n := int64(0)
		plans(len(stream), deep, func(p plan) {
			n++
			t.Try(p.String(), func() {
				sc := &scriptT{data: stream}
				sc.choose = p.chooser(sc)
				pp := s.pr.mk(s.ca.wrap(sc))
				if err := s.pr.readMsgLike(pp, s.m); err != nil {
					t.Failf("fragmented-read", "reading %s: %v", s.m, err)
				}
				if err := s.pr.readMsgLike(pp, probe); err != nil {
					t.Failf("fragmented-read", "reading the message after %s: %v", s.m, err)
				}
				t.Ops(sc.reads)
				t.State(hashS(t.id+p.String()) ^ uint64(i)*0x9e3779b97f4a7c15 ^ uint64(n)<<20)
			})
			t.Trace()
		})
		if i == 40 {
			t.Sample(map[string]interface{}{"case": s.String(), "stream": fmt.Sprintf("%q", stream), "fragmentations": n})
		}
	})
	// a message cut into several frames
	ms := streamMsgs()
	c.Par("message-across-frames", len(ms)*len(allProtos), nil, func(t *T, i int) {
		m, pr := ms[i/len(allProtos)], allProtos[i%len(allProtos)]
		b := encWith(pr, m)
		for a := 0; a <= len(b); a++ {
			for _, d := range []int{a, a + 1, (a + len(b)) / 2, len(b)} {
				if d < a || d > len(b) {
					continue
				}
				stream := append(frames(b, a, d), frame(encWith(pr, probe))...)
				for _, chunk := range []int{0, 1, 3} {
					t.Try(fmt.Sprintf("%s %v frames cut at %d,%d chunk %d", pr.name, m, a, d, chunk), func() {
						sc := &scriptT{data: stream}
						if chunk > 0 {
							sc.choose = plan{chunk: chunk}.chooser(sc)
						}
						pp := pr.mk(thrift.NewTFramedTransport(sc))
						if err := pr.readMsgLike(pp, m); err != nil {
							t.Failf("fragmented-read", "reading %s: %v", m, err)
						}
						if err := pr.readMsgLike(pp, probe); err != nil {
							t.Failf("fragmented-read", "reading the message after %s: %v", m, err)
						}
						t.Ops(sc.reads)
						t.StateS(t.sub)
					})
					t.Trace()
				}
			}
		}
	})
	// documents longer than every internal buffer, cut around the buffer sizes
	var long []Msg
	for _, n := range []int{4070, 4096, 8192, 70000} {
		long = append(long, Msg{"long", 1, 3, vStruct(fld(1, vStr(pattern(n))), fld(2, vDbl(math.Inf(-1))), fld(3, vList(tBOOL, vBool(true), vBool(false))), fld(4, vBin(pattern(n))), fld(5, vI64(-77)))})
		if n > 10000 {
			continue
		}
		long = append(long, Msg{"esc", 1, 3, vStruct(fld(1, vStr(strings.Repeat("\\\"x\n", n/4))), fld(2, vDbl(math.NaN())), fld(4, vMap(tSTRING, tDOUBLE, vStr("\\"), vDbl(math.NaN()))))})
	}
	c.Par("long-messages", len(long)*len(allProtos)*len(carriers), nil, func(t *T, i int) {
		ca := carriers[i%len(carriers)]
		pr := allProtos[i/len(carriers)%len(allProtos)]
		m := long[i/len(carriers)/len(allProtos)]
		stream := append(append([]byte(nil), ca.enc(encWith(pr, m))...), ca.enc(encWith(pr, probe))...)
		L := len(stream)
		var ps []plan
		for _, k := range []int{1, 2, 7, 511, 1023, 4095, 4096, 4097, 32768, 65535, 65536, 65537} {
			ps = append(ps, plan{chunk: k}, plan{chunk: k, empty: 1, eof: true})
		}
		for d := 1; d < 140 && d < L; d++ {
			ps = append(ps, plan{cuts: []int{L - d}}, plan{cuts: []int{d}})
			for _, at := range []int{4096, 8192, 65536} {
				if at-70+d < L && at-70+d > 0 {
					ps = append(ps, plan{cuts: []int{at - 70 + d}, eof: true})
				}
			}
		}
		for _, p := range ps {
			t.Try(fmt.Sprintf("%s/%s/%s %v", pr.name, ca.name, m.Name, p), func() {
				sc := &scriptT{data: stream}
				sc.choose = p.chooser(sc)
				pp := pr.mk(ca.wrap(sc))
				if err := pr.readMsgLike(pp, m); err != nil {
					t.Failf("fragmented-read", "reading %s: %v", m, err)
				}
				if err := pr.readMsgLike(pp, probe); err != nil {
					t.Failf("fragmented-read", "reading the message after %s: %v", m, err)
				}
				t.Ops(sc.reads)
				t.StateS(fmt.Sprint(i) + t.sub)
			})
			t.Trace()
		}
	})
}

// wouldHang runs f and reports whether it asked for bytes that never come.
func wouldHang(f func()) (hang bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(wouldBlock); ok {
				hang = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

func runC06(c *Ctx) {
	c.Rule("states = distinct (protocol, carrier, message, fragmentation) executions; transitions = transport reads answered; the transport has exactly the message's bytes and any read beyond them is an observed wait for ever")
	cs := streamCases()
	probe := Msg{"nxt", 2, 9, vStruct(fld(5, vBool(true)), fld(6, vStr("z")))}
	deep := c.Pick(100, 240)
	c.Par("fragmentations", len(cs), func(i int) string { return cs[i].String() }, func(t *T, i int) {
		s := cs[i]
		first := s.ca.enc(encWith(s.pr, s.m))
		second := s.ca.enc(encWith(s.pr, probe))
		n := 0
		plans(len(first), deep, func(p plan) {
			if p.eof {
				return
			}
			n++
			t.Try(p.String(), func() {
				sc := &scriptT{data: first, end: 2}
				sc.choose = p.chooser(sc)
				pp := s.pr.mk(s.ca.wrap(sc))
				var err error
				if wouldHang(func() { err = s.pr.readMsgLike(pp, s.m) }) {
					t.Failf("waits-beyond-message", "reading %s (%q) waits for bytes beyond its end", s.m, first)
				}
				if err != nil {
					t.Failf("read", "reading %s: %v", s.m, err)
				}
				// the peer answers only now: its message must be readable too
				sc.data = append(append([]byte(nil), first...), second...)
				if wouldHang(func() { err = s.pr.readMsgLike(pp, probe) }) {
					t.Failf("waits-beyond-message", "reading the message after %s waits for bytes beyond its end", s.m)
				}
				if err != nil {
					t.Failf("read", "reading the message after %s: %v", s.m, err)
				}
				t.Ops(sc.reads)
				t.State(uint64(i)*0x9e3779b97f4a7c15 ^ uint64(n)*0xbf58476d1ce4e5b9)
			})
			t.Trace()
		})
		// the same with skipping instead of reading, where fields carry types
		if !s.pr.fieldNames {
			for _, k := range []int{0, 1, 2, 5} {
				t.Try(fmt.Sprintf("skip chunk %d", k), func() {
					sc := &scriptT{data: first, end: 2}
					if k > 0 {
						sc.choose = plan{chunk: k}.chooser(sc)
					}
					pp := s.pr.mk(s.ca.wrap(sc))
					if wouldHang(func() {
						if _, _, _, e := pp.ReadMessageBegin(); e != nil {
							t.Failf("read", "%v", e)
						}
						if e := pp.Skip(tt(tSTRUCT)); e != nil {
							t.Failf("read", "skip: %v", e)
						}
						if e := pp.ReadMessageEnd(); e != nil {
							t.Failf("read", "%v", e)
						}
					}) {
						t.Failf("waits-beyond-message", "skipping %s waits for bytes beyond its end", s.m)
					}
					t.Ops(sc.reads)
				})
				t.Trace()
			}
		}
		if i == 41 {
			t.Sample(map[string]interface{}{"case": s.String(), "stream": fmt.Sprintf("%q", first), "fragmentations": n})
		}
	})
}

// ---- C07: truncation and read failures ----

// drain reads a message the way a reader without expectations would: it
// follows the types and sizes found in the stream. It returns the first error.
func drain(pr *proto, p thrift.TProtocol, m Msg, skip bool) error {
	if _, _, _, e := p.ReadMessageBegin(); e != nil {
		return e
	}
	var err error
	bud := &anyBudget{100000}
	switch {
	case skip:
		if e := p.Skip(tt(tSTRUCT)); e != nil {
			return e
		}
	case pr.fieldNames:
		err = drainNamed(p, m.Body, bud)
	default:
		err = readAny(p, tSTRUCT, 0, bud)
	}
	if err != nil {
		return err
	}
	if e := p.ReadMessageEnd(); e != nil {
		return e
	}
	return nil
}

// drainBare reads a single value outside of any message.
func drainBare(pr *proto, p thrift.TProtocol, v Val) error {
	bud := &anyBudget{100000}
	if pr.fieldNames || v.T == tBINARY {
		if v.T == tBINARY {
			_, e := p.ReadBinary()
			if e != nil {
				return e
			}
			return nil
		}
		return drainNamed(p, v, bud)
	}
	return readAny(p, v.T, 0, bud)
}

// drainNamed reads a struct whose fields carry names only, using the declared
// types of the expected value.
func drainNamed(p thrift.TProtocol, v Val, bud *anyBudget) error {
	bud.ops--
	if bud.ops < 0 {
		return budgetErr{}
	}
	switch v.T {
	case tSTRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return e
		}
		for {
			name, ft, _, e := p.ReadFieldBegin()
			if e != nil {
				return e
			}
			if ft == tSTOP {
				break
			}
			bud.ops--
			if bud.ops < 0 {
				return budgetErr{}
			}
			found := false
			for _, f := range v.Fields {
				if f.Name == name {
					found = true
					if err := drainNamed(p, f.V, bud); err != nil {
						return err
					}
					break
				}
			}
			if !found {
				if e := p.Skip(ft); e != nil {
					return e
				}
			}
			if e := p.ReadFieldEnd(); e != nil {
				return e
			}
		}
		if e := p.ReadStructEnd(); e != nil {
			return e
		}
		return nil
	case tLIST, tSET, tMAP:
		var n int
		var e thrift.TProtocolException
		per := 1
		switch v.T {
		case tLIST:
			_, n, e = p.ReadListBegin()
		case tSET:
			_, n, e = p.ReadSetBegin()
		default:
			_, _, n, e = p.ReadMapBegin()
			per = 2
		}
		if e != nil {
			return e
		}
		for i := 0; i < n*per; i++ {
			bud.ops--
			if bud.ops < 0 {
				return budgetErr{}
			}
			var x Val
			if i < len(v.E) {
				x = v.E[i]
			} else if len(v.E) >= per {
				x = v.E[i%per]
			} else if per == 2 && i%2 == 0 {
				x = Val{T: v.KT}
			} else {
				x = Val{T: v.VT}
			}
			if err := drainNamed(p, x, bud); err != nil {
				return err
			}
		}
		switch v.T {
		case tLIST:
			e = p.ReadListEnd()
		case tSET:
			e = p.ReadSetEnd()
		default:
			e = p.ReadMapEnd()
		}
		if e != nil {
			return e
		}
		return nil
	}
	return readAny(p, v.T, 0, bud)
}

func runC07(c *Ctx) {
	c.Rule("distinct_nontrivial = distinct (protocol, carrier, message, cut position, end mode, fragmentation, reader) executions; each cuts the stream at one byte and requires an error")
	cs := streamCases()
	run := func(t *T, name string, mk func(sc *scriptT) thrift.TTransport, pr *proto, m Msg, stream []byte, full int) {
		for k := 0; k < full; k++ {
			for end := 0; end < 2; end++ {
				for _, p := range []plan{{}, {chunk: 1}, {chunk: 3, empty: 1}, {eof: true}, {cuts: []int{k / 2}, eof: true}} {
					if p.eof && end == 1 {
						continue
					}
					for _, skip := range []bool{false, true} {
						if skip && pr.fieldNames {
							continue
						}
						t.sub = "" // built only when it fails
						func() {
							defer func() {
								if r := recover(); r != nil {
									t.sub = fmt.Sprintf("%s cut at %d of %d end %d %v skip %v", name, k, full, end, p, skip)
									t.guard(func() { panic(r) })
									t.sub = ""
								}
							}()
							sc := &scriptT{data: stream[:k], end: end}
							sc.choose = p.chooser(sc)
							err := drain(pr, pr.mk(mk(sc)), m, skip)
							if err == nil {
								t.Failf("truncation-accepted", "%s: message %s cut after %d of %d bytes was read without error", pr.name, m, k, full)
							}
							if _, ok := err.(budgetErr); ok {
								t.Failf("truncation-loops", "%s: message %s cut after %d of %d bytes: reading goes on without end", pr.name, m, k, full)
							}
							t.Ops(sc.reads)
						}()
						t.Trace()
					}
				}
			}
			t.StateS(fmt.Sprint(name, pr.name, m, k))
		}
	}
	c.Par("cut-everywhere", len(cs), func(i int) string { return cs[i].String() }, func(t *T, i int) {
		s := cs[i]
		stream := s.ca.enc(encWith(s.pr, s.m))
		run(t, s.ca.name, s.ca.wrap, s.pr, s.m, stream, len(stream))
		if i == 42 {
			t.Sample(map[string]interface{}{"case": s.String(), "stream": fmt.Sprintf("%q", stream)})
		}
	})
	// through the framed transport with the message spread over frames
	ms := streamMsgs()
	c.Par("cut-across-frames", len(ms)*len(allProtos), nil, func(t *T, i int) {
		m, pr := ms[i/len(allProtos)], allProtos[i%len(allProtos)]
		b := encWith(pr, m)
		stream := frames(b, len(b)/3, len(b)/3, len(b)/2)
		run(t, "frames", func(sc *scriptT) thrift.TTransport { return thrift.NewTFramedTransport(sc) }, pr, m, stream, len(stream))
	})
	// a frame that holds only part of the message, followed by the end
	c.Par("short-frame", len(ms)*len(allProtos), nil, func(t *T, i int) {
		m, pr := ms[i/len(allProtos)], allProtos[i%len(allProtos)]
		b := encWith(pr, m)
		for k := 0; k < len(b); k++ {
			stream := frame(b[:k])
			sc := &scriptT{data: stream}
			err := drain(pr, pr.mk(thrift.NewTFramedTransport(sc)), m, false)
			if err == nil {
				t.Failf("truncation-accepted", "%s: message %s with only %d of %d bytes in its frame was read without error", pr.name, m, k, len(b))
			}
			t.Trace()
			t.Ops(sc.reads)
		}
	})
	// memory buffer carrier: a truncated message in the library's own buffer
	c.Par("memory-buffer", len(ms)*len(allProtos), nil, func(t *T, i int) {
		m, pr := ms[i/len(allProtos)], allProtos[i%len(allProtos)]
		b := encWith(pr, m)
		for k := 0; k < len(b); k++ {
			mb := thrift.NewTMemoryBuffer()
			mb.Write(b[:k])
			if err := drain(pr, pr.mk(mb), m, false); err == nil {
				t.Failf("truncation-accepted", "%s: message %s cut after %d of %d bytes was read without error", pr.name, m, k, len(b))
			}
			t.Trace()
			t.Ops(1)
		}
	})
	// values on their own, whose last byte is followed by nothing that would
	// notice a failure (numbers in JSON end only with what follows them)
	var bare []Val
	for _, x := range []Val{vBool(true), vBool(false), vByte(7), vByte(0), vI16(300), vI32(-70000), vI64(1 << 40), vDbl(1.5), vStr(""), vStr("a\u00e9"), vBin("\x00\xff\x01"), vStruct()} {
		bare = append(bare, x, vList(x.T, x), vList(x.T, x, x), vSet(x.T, x), vMap(tBOOL, x.T, vBool(true), x), vStruct(fld(1, x)))
	}
	c.Par("bare-values", len(bare)*len(allProtos), func(i int) string { return bare[i/len(allProtos)].String() }, func(t *T, i int) {
		v, pr := bare[i/len(allProtos)], allProtos[i%len(allProtos)]
		json := pr.fieldNames || pr == pJSON
		if json && v.T != tSTRUCT && v.T != tLIST && v.T != tSET && v.T != tMAP && v.T != tSTRING && v.T != tBINARY && v.T != tBOOL {
			return
		}
		mb := thrift.NewTMemoryBuffer()
		pp := pr.mk(mb)
		if e := writeVal(pp, v); e != nil {
			t.Failf("write", "%v", e)
		}
		if e := pp.Flush(); e != nil {
			t.Failf("write", "%v", e)
		}
		b := append([]byte(nil), mb.Bytes()...)
		for k := 0; k < len(b); k++ {
			for end := 0; end < 2; end++ {
				for _, pl := range []plan{{}, {chunk: 1}, {eof: true}} {
					if pl.eof && end == 1 {
						continue
					}
					sc := &scriptT{data: b[:k], end: end}
					sc.choose = pl.chooser(sc)
					var err error
					t.Try(fmt.Sprintf("%s cut at %d end %d %v", pr.name, k, end, pl), func() { err = drainBare(pr, pr.mk(sc), v) })
					if err == nil {
						t.Failf("truncation-accepted", "%s: value %s (%q) cut after %d of %d bytes was read without error", pr.name, v, b, k, len(b))
					}
					t.Ops(sc.reads)
					t.Trace()
				}
			}
			t.StateS(fmt.Sprint("bare", pr.name, v, k))
		}
	})
	// a read that fails once, the bytes arriving after all on a further read
	cs2 := streamCases()
	c.Par("fails-once", len(cs2), func(i int) string { return cs2[i].String() }, func(t *T, i int) {
		s := cs2[i]
		if s.pr != pBin && s.pr != pComp {
			return
		}
		stream := s.ca.enc(encWith(s.pr, s.m))
		for _, chunk := range []int{1, 1 << 20} {
			for at := 0; ; at++ {
				n, failed := 0, false
				sc := &scriptT{data: stream}
				sc.choose = func(asked, left int) answer {
					if n++; n == at+1 {
						failed = true
						return answer{kind: aErr}
					}
					return answer{kind: aData, n: chunk}
				}
				var err error
				t.Try(fmt.Sprintf("chunk %d read %d fails", chunk, at), func() { err = drain(s.pr, s.pr.mk(s.ca.wrap(sc)), s.m, false) })
				if !failed {
					break
				}
				if err == nil {
					t.Failf("failure-hidden", "%s: message %s was read without error although read %d failed", s.pr.name, s.m, at)
				}
				t.Trace()
				t.Ops(sc.reads)
				t.StateS(fmt.Sprint("once", s, chunk, at))
			}
		}
	})
	// failures of every kind, alone and together with the last bytes
	kinds := faultKinds()
	c.Par("error-kinds", len(cs2)*len(kinds), func(i int) string {
		return fmt.Sprintf("%s/%T %v", cs2[i/len(kinds)], kinds[i%len(kinds)], kinds[i%len(kinds)])
	}, func(t *T, i int) {
		s, kind := cs2[i/len(kinds)], kinds[i%len(kinds)]
		if (i/len(kinds)/len(allProtos)/len(carriers)+i)%c.Pick(8, 1) != 0 {
			return // a fixed share of the combinations; all of them in the thorough tier
		}
		stream := s.ca.enc(encWith(s.pr, s.m))
		for k := 0; k < len(stream); k++ {
			for _, p := range []plan{{}, {chunk: 1}, {eof: true}} {
				sc := &scriptT{data: stream[:k], end: 1, err: kind}
				sc.choose = p.chooser(sc)
				var err error
				t.Try(fmt.Sprintf("cut at %d %v", k, p), func() { err = drain(s.pr, s.pr.mk(s.ca.wrap(sc)), s.m, k%2 == 0 && !s.pr.fieldNames) })
				if err == nil {
					t.Failf("truncation-accepted", "%s: message %s was read without error although the stream failed after %d of %d bytes with %T %v", s.pr.name, s.m, k, len(stream), kind, kind)
				}
				t.Ops(sc.reads)
				t.Trace()
			}
		}
		t.StateS(fmt.Sprint("kinds", i))
	})
	// long strings and binaries: the failure falls inside a bulk read
	c.Par("long-values", len(allProtos)*4, nil, func(t *T, i int) {
		pr := allProtos[i/4]
		n := []int{5000, 40000, 70000, 140000}[i%4]
		for _, v := range []Val{vStr(pattern(n)), vBin(pattern(n))} {
			m := Msg{"l", 1, 1, vStruct(fld(1, v))}
			b := encWith(pr, m)
			for k := 0; k < len(b); k++ {
				if k > 200 && k < len(b)-200 && k%997 != 0 && (k-20)%4096 > 40 && (k-20)%65536 > 40 {
					continue
				}
				for end := 0; end < 2; end++ {
					sc := &scriptT{data: b[:k], end: end}
					if err := drain(pr, pr.mk(sc), m, k%2 == 0 && !pr.fieldNames); err == nil {
						t.Failf("truncation-accepted", "%s: long message cut after %d of %d bytes was read without error", pr.name, k, len(b))
					}
					t.Trace()
				}
				t.Ops(2)
			}
		}
	})
}

// ---- C08: write and flush failures ----

func runC08(c *Ctx) {
	c.Rule("distinct_nontrivial = distinct (protocol, carrier, message, failing call, failure mode) executions; each makes one transport call fail and requires a reported error")
	type sink struct {
		name string
		wrap func(f *faultW) thrift.TTransport
		enc  func(b []byte) []byte
	}
	sinks := []sink{
		{"direct", func(f *faultW) thrift.TTransport { return f }, ident},
		{"framed", func(f *faultW) thrift.TTransport { return thrift.NewTFramedTransport(f) }, frame},
		{"stream-w", func(f *faultW) thrift.TTransport { return thrift.NewTIOStreamTransportW(faultIO{f}) }, ident},
		{"stream-rw", func(f *faultW) thrift.TTransport { return thrift.NewTIOStreamTransportRW(faultIO{f}) }, ident},
		{"framed-stream-w", func(f *faultW) thrift.TTransport {
			return thrift.NewTFramedTransport(thrift.NewTIOStreamTransportW(faultIO{f}))
		}, frame},
	}
	ms := streamMsgs()
	ms = append(ms, Msg{"long", 1, 2, vStruct(fld(1, vStr(pattern(40000))), fld(2, vBin(pattern(9000))))},
		Msg{"longer", 1, 2, vStruct(fld(1, vList(tSTRING, vStr(pattern(5000)), vStr(pattern(70000)))), fld(2, vBin(pattern(70000))))})
	ns := len(sinks) * len(allProtos)
	c.Par("fail-everywhere", len(ms)*ns, func(i int) string {
		return fmt.Sprintf("%s/%s/%s", allProtos[i/len(sinks)%len(allProtos)].name, sinks[i%len(sinks)].name, ms[i/ns])
	}, func(t *T, i int) {
		m, pr, sk := ms[i/ns], allProtos[i/len(sinks)%len(allProtos)], sinks[i%len(sinks)]
		want := sk.enc(encWith(pr, m))
		ok := &faultW{failAt: -1, failFlush: -1}
		if e := writeMsg(pr.mk(sk.wrap(ok)), m); e != nil {
			t.Failf("write-error", "writing %s without faults: %v", m, e)
		}
		if !bytes.Equal(ok.got, want) {
			t.Failf("lost-bytes", "writing %s reported success and delivered %d of %d bytes", m, len(ok.got), len(want))
		}
		try := func(sub string, f *faultW) {
			t.Try(sub, func() {
				e := writeMsg(pr.mk(sk.wrap(f)), m)
				if e == nil && (f.failed || f.flushFailed) {
					t.Failf("failure-swallowed", "%s over %s: writing %s reported success although %s failed", pr.name, sk.name, m, sub)
				}
				if e == nil && !bytes.Equal(f.got, want) {
					t.Failf("lost-bytes", "%s over %s: writing %s reported success and delivered other bytes", pr.name, sk.name, m)
				}
				t.Ops(f.writes + f.flushes)
			})
			t.Trace()
		}
		for k := 0; k < ok.writes; k++ {
			for mode := 0; mode < 2; mode++ {
				for _, sticky := range []bool{true, false} {
					try(fmt.Sprintf("write %d mode %d sticky %v", k, mode, sticky), &faultW{failAt: k, mode: mode, sticky: sticky, failFlush: -1})
					t.StateS(fmt.Sprint(i, " ", k, mode, sticky))
				}
			}
		}
		for k := 0; k < ok.flushes; k++ {
			try(fmt.Sprintf("flush %d", k), &faultW{failAt: -1, failFlush: k})
			t.StateS(fmt.Sprint(i, " flush ", k))
		}
		if ok.flushes == 0 && (sk.name == "direct" || sk.name == "framed") {
			t.Failf("no-flush", "writing %s never flushed the transport", m)
		}
		if i == 43 {
			t.Sample(map[string]interface{}{"protocol": pr.name, "carrier": sk.name, "message": m.String(), "writes": ok.writes, "flushes": ok.flushes})
		}
	})
	kinds := faultKinds()
	c.Par("error-kinds", len(ms)*ns, func(i int) string {
		return fmt.Sprintf("%s/%s/%s", allProtos[i/len(sinks)%len(allProtos)].name, sinks[i%len(sinks)].name, ms[i/ns])
	}, func(t *T, i int) {
		m, pr, sk := ms[i/ns], allProtos[i/len(sinks)%len(allProtos)], sinks[i%len(sinks)]
		ok := &faultW{failAt: -1, failFlush: -1}
		if e := writeMsg(pr.mk(sk.wrap(ok)), m); e != nil {
			t.Failf("write-error", "writing %s without faults: %v", m, e)
		}
		for ki, kind := range kinds {
			for k := 0; k < ok.writes+ok.flushes; k++ {
				f := &faultW{failAt: k, failFlush: -1, mode: (k + ki) % 2, err: kind}
				if k >= ok.writes {
					f = &faultW{failAt: -1, failFlush: k - ok.writes, err: kind}
				}
				var e *opErr
				t.Try(fmt.Sprintf("call %d %T %v", k, kind, kind), func() { e = writeMsg(pr.mk(sk.wrap(f)), m) })
				if e == nil && (f.failed || f.flushFailed) {
					t.Failf("failure-swallowed", "%s over %s: writing %s reported success although call %d failed with %T %v", pr.name, sk.name, m, k, kind, kind)
				}
				t.Ops(f.writes + f.flushes)
				t.Trace()
			}
		}
		t.StateS(fmt.Sprint("kinds", i))
	})
	// a sequence of messages on one connection: a fault in the k-th must be
	// reported by the k-th at the latest.
	c.Par("fail-in-history", len(allProtos)*len(sinks)*8, nil, func(t *T, i int) {
		pr, sk, mi := allProtos[i/8/len(sinks)], sinks[i/8%len(sinks)], i%8
		seq := []Msg{ms[mi*5], ms[mi*7+1], ms[mi*3+2]}
		ok := &faultW{failAt: -1, failFlush: -1}
		var ends []int
		pp := pr.mk(sk.wrap(ok))
		for _, m := range seq {
			if e := writeMsg(pp, m); e != nil {
				t.Failf("write-error", "%v", e)
			}
			ends = append(ends, ok.writes)
		}
		for k := 0; k < ok.writes; k++ {
			for mode := 0; mode < 2; mode++ {
				t.Try(fmt.Sprintf("%s/%s write %d mode %d", pr.name, sk.name, k, mode), func() {
					f := &faultW{failAt: k, mode: mode, failFlush: -1, sticky: true}
					pp := pr.mk(sk.wrap(f))
					for j, m := range seq {
						e := writeMsg(pp, m)
						if e != nil {
							break
						}
						if k < ends[j] {
							t.Failf("failure-swallowed", "message %d of the sequence reported success although write %d failed", j, k)
						}
					}
					t.Ops(f.writes)
				})
				t.Trace()
			}
		}
	})
}

// faultIO is a faultW seen as an io.ReadWriter.
type faultIO struct{ f *faultW }

func (w faultIO) Read(b []byte) (int, error)  { return 0, io.EOF }
func (w faultIO) Write(b []byte) (int, error) { return w.f.Write(b) }
func (w faultIO) Flush() error                { return w.f.Flush() }
