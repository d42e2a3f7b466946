package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"thrift"
	"time"
)

func init() {
	checks["C09"] = checkDef{"model_checking", runC09}
	checks["C10"] = checkDef{"model_checking", runC10}
}

// countP counts protocol calls, so that a skip that goes on for ever is seen.
type countP struct {
	thrift.TProtocol
	n, max int
}

func (p *countP) tick() {
	p.n++
	if p.n > p.max {
		panic(failure{"endless", fmt.Sprintf("more than %d protocol calls for a short input", p.max)})
	}
}
func (p *countP) ReadStructBegin() (string, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadStructBegin()
}
func (p *countP) ReadFieldBegin() (string, thrift.TType, int16, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadFieldBegin()
}
func (p *countP) ReadListBegin() (thrift.TType, int, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadListBegin()
}
func (p *countP) ReadSetBegin() (thrift.TType, int, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadSetBegin()
}
func (p *countP) ReadMapBegin() (thrift.TType, thrift.TType, int, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadMapBegin()
}
func (p *countP) ReadByte() (byte, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadByte()
}
func (p *countP) ReadBool() (bool, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadBool()
}
func (p *countP) ReadI16() (int16, thrift.TProtocolException) { p.tick(); return p.TProtocol.ReadI16() }
func (p *countP) ReadI32() (int32, thrift.TProtocolException) { p.tick(); return p.TProtocol.ReadI32() }
func (p *countP) ReadI64() (int64, thrift.TProtocolException) { p.tick(); return p.TProtocol.ReadI64() }
func (p *countP) ReadDouble() (float64, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadDouble()
}
func (p *countP) ReadString() (string, thrift.TProtocolException) {
	p.tick()
	return p.TProtocol.ReadString()
}

// the ways arbitrary input is consumed
type consumer struct {
	name string
	f    func(pr *proto, p thrift.TProtocol, bud int) error
}

func consumers() []consumer {
	cv := func(e thrift.TProtocolException) error {
		if e == nil {
			return nil
		}
		return e
	}
	out := []consumer{
		{"message", func(pr *proto, p thrift.TProtocol, bud int) error {
			if _, _, _, e := p.ReadMessageBegin(); e != nil {
				return e
			}
			b := anyBudget{bud}
			if err := readAny(p, tSTRUCT, 0, &b); err != nil {
				return err
			}
			return cv(p.ReadMessageEnd())
		}},
		{"message-skip", func(pr *proto, p thrift.TProtocol, bud int) error {
			if _, _, _, e := p.ReadMessageBegin(); e != nil {
				return e
			}
			if e := thrift.Skip(&countP{TProtocol: p, max: bud}, tt(tSTRUCT), math.MaxInt32); e != nil {
				return e
			}
			return cv(p.ReadMessageEnd())
		}},
	}
	for _, ty := range []byte{tBOOL, tBYTE, tI16, tI32, tI64, tDOUBLE, tSTRING, tBINARY, tSTRUCT, tLIST, tSET, tMAP} {
		ty := ty
		out = append(out, consumer{fmt.Sprintf("read%d", ty), func(pr *proto, p thrift.TProtocol, bud int) error {
			b := anyBudget{bud}
			return readAny(p, ty, 0, &b)
		}})
		if ty >= tSTRUCT && ty != tBINARY {
			out = append(out, consumer{fmt.Sprintf("skip%d", ty), func(pr *proto, p thrift.TProtocol, bud int) error {
				return cv(thrift.Skip(&countP{TProtocol: p, max: bud}, tt(ty), math.MaxInt32))
			}})
			out = append(out, consumer{fmt.Sprintf("protoskip%d", ty), func(pr *proto, p thrift.TProtocol, bud int) error {
				return cv(p.Skip(tt(ty)))
			}})
		}
	}
	return out
}

// named-field reading of the simple JSON protocol, with fields of many types
var namedShape = vStruct(Field{1, "a", vI32(1)}, Field{2, "b", vStr("s")}, Field{3, "c", vBool(true)}, Field{4, "d", vDbl(1)},
	Field{5, "f1", vList(tI32, vI32(1))}, Field{6, "f2", vMap(tSTRING, tI32, vStr("a"), vI32(1))}, Field{7, "f3", vBin("x")},
	Field{8, "f4", vStruct(Field{1, "a", vI32(1)})}, Field{9, "f20", vI64(1)}, Field{10, "f7", vI16(1)})

func feed(t *T, pr *proto, cons []consumer, in []byte) {
	bud := 200 + 20*len(in)
	for _, cs := range cons {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.sub = fmt.Sprintf("%s %s input %q", pr.name, cs.name, in)
					t.guard(func() { panic(r) })
					t.sub = ""
				}
			}()
			tr := newMem(in)
			tr.lib = true
			if err := cs.f(pr, pr.mk(tr), bud); err == (budgetErr{}) {
				// depth beyond 200 is cut off by the harness itself
				if len(in) < 150 {
					t.Failf("endless", "more than %d read calls for %d bytes of input", bud, len(in))
				}
			}
		}()
		t.Trace()
	}
	t.Ops(len(cons))
	t.State(hashB(in))
}

var binAlpha = []byte{0x00, 0x01, 0x02, 0x03, 0x08, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x7f, 0x80, 0xff}
var compAlpha = []byte{0x00, 0x01, 0x02, 0x08, 0x09, 0x0b, 0x0c, 0x0d, 0x0f, 0x19, 0x1c, 0x7f, 0x80, 0x82, 0x8b, 0xf9, 0xfb, 0xff}
var jsAlpha = []byte("{}[],:\"\\n-0.eE1IN+ tu")

// runStrings: every string over alpha of length exactly n after a prefix.
func allStrings(alpha []byte, n int) int {
	k := 1
	for i := 0; i < n; i++ {
		k *= len(alpha)
	}
	return k
}
func nth(alpha []byte, n, i int) []byte {
	b := make([]byte, n)
	for k := n - 1; k >= 0; k-- {
		b[k] = alpha[i%len(alpha)]
		i /= len(alpha)
	}
	return b
}

func prefixes(pr *proto) []string {
	switch pr {
	case pBin:
		return []string{"", "\x80\x01\x00\x01\x00\x00\x00\x01m\x00\x00\x00\x01", "\x0f\x00\x01"}
	case pComp:
		return []string{"", "\x82\x21\x01\x01m"}
	case pJSON:
		return []string{"", "[1,\"m\",1,1,", "[1,\"m\",1,1,{\"1\":{\"lst\":[", "{\"1\":{\"str\":\""}
	}
	return []string{"", "[\"m\",1,1,", "{\"a\":", "[8,"}
}

func runC09(c *Ctx) {
	c.Rule("states = distinct input byte strings; transitions = inputs consumed by one kind of reader; each input is consumed by every reader kind (message, skip, every type) on the real code; a panic, an endless loop, a negative size or an allocation beyond 1 MB + 64 bytes per input byte is a violation")
	c.Assume("stack depth grows with the nesting of skipped values; inputs nested deeper than 100000 levels are outside the bound (the configured maximum depth exists for them)")
	cons := consumers()
	named := consumer{"named", func(pr *proto, p thrift.TProtocol, bud int) error {
		b := anyBudget{bud}
		return drainNamed(p, namedShape, &b)
	}}
	consFor := func(pr *proto) []consumer {
		if pr == pSimp {
			return append(append([]consumer(nil), cons...), named)
		}
		return cons
	}
	alpha := map[*proto][]byte{pBin: binAlpha, pComp: compAlpha, pJSON: jsAlpha, pSimp: jsAlpha}
	for _, pr := range allProtos {
		pr := pr
		cs := consFor(pr)
		c.Par("all-2-byte-inputs/"+pr.name, 65536, nil, func(t *T, i int) {
			feed(t, pr, cs, []byte{byte(i >> 8), byte(i)})
			if i < 256 {
				feed(t, pr, cs, []byte{byte(i)})
			}
			if i == 0 {
				feed(t, pr, cs, nil)
			}
		})
		al := alpha[pr]
		max := c.Pick(4, 5)
		if pr == pBin {
			max++
		}
		for _, pre := range prefixes(pr) {
			for n := 3; n <= max; n++ {
				if pre != "" && n == max && !c.Thorough() {
					continue
				}
				n, pre := n, pre
				cs := cs
				if n == max { // the longest ones by the readers of whole values
					cs = nil
					for _, x := range consFor(pr) {
						if strings.HasPrefix(x.name, "message") == (pre != "") && !strings.HasPrefix(x.name, "protoskip") {
							cs = append(cs, x)
						}
					}
				}
				c.Par(fmt.Sprintf("all-inputs/%s/%d/%q", pr.name, n, pre), allStrings(al, n), nil, func(t *T, i int) {
					feed(t, pr, cs, append([]byte(pre), nth(al, n, i)...))
				})
			}
		}
	}
	// mutations of valid messages
	ms := streamMsgs()
	c.Par("mutations", len(ms)*len(allProtos), nil, func(t *T, i int) {
		m, pr := ms[i/len(allProtos)], allProtos[i%len(allProtos)]
		cs := cons[:2]
		if pr == pSimp {
			cs = []consumer{cons[0], {"named-message", func(pr *proto, p thrift.TProtocol, bud int) error {
				return drain(pr, p, m, false)
			}}}
		}
		b := encWith(pr, m)
		for k := range b {
			for v := 0; v < 256; v++ {
				x := append([]byte(nil), b...)
				x[k] = byte(v)
				feed(t, pr, cs, x)
			}
			feed(t, pr, cs, append(append([]byte(nil), b[:k]...), b[k+1:]...))
			for _, a := range alpha[pr] {
				feed(t, pr, cs, append(append(append([]byte(nil), b[:k]...), a), b[k:]...))
			}
		}
		// two bytes replaced
		if len(b) <= c.Pick(24, 60) {
			for k := range b {
				for l := k + 1; l < len(b); l++ {
					for _, a := range alpha[pr] {
						for _, d := range alpha[pr] {
							x := append([]byte(nil), b...)
							x[k], x[l] = a, d
							feed(t, pr, cs, x)
						}
					}
				}
			}
		}
		if i == 3 {
			t.Sample(map[string]interface{}{"protocol": pr.name, "message": m.String(), "bytes": fmt.Sprintf("%q", b)})
		}
	})
	// hostile sizes, one at a time so that allocation can be measured
	type hostile struct {
		pr *proto
		in []byte
	}
	var hs []hostile
	be := func(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	vi := func(n uint64) []byte {
		var b []byte
		for n >= 0x80 {
			b = append(b, byte(n)|0x80)
			n >>= 7
		}
		return append(b, byte(n))
	}
	sizes := []uint64{0, 1, 15, 16, 127, 1 << 14, 1 << 16, 1<<16 + 1, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64}
	cat := func(p ...[]byte) []byte {
		var o []byte
		for _, x := range p {
			o = append(o, x...)
		}
		return o
	}
	for _, n := range sizes {
		for _, tail := range []string{"", "x", "\x0b", strings.Repeat("\x01", 40), strings.Repeat("\x00", 40)} {
			ta := []byte(tail)
			if n < 1<<32 {
				for _, pre := range []string{"", "\x80\x01\x00\x01", "\x80\x01\x00\x01\x00\x00\x00\x01m\x00\x00\x00\x01\x0b\x00\x01", "\x0b\x00\x01"} {
					hs = append(hs, hostile{pBin, cat([]byte(pre), be(uint32(n)), ta)})
				}
				for ty := 0; ty < 20; ty++ {
					hs = append(hs, hostile{pBin, cat([]byte{byte(ty)}, be(uint32(n)), ta)})
					hs = append(hs, hostile{pBin, cat([]byte{byte(ty), 3}, be(uint32(n)), ta)}, hostile{pBin, cat([]byte{3, byte(ty)}, be(uint32(n)), ta)})
				}
			}
			for _, pre := range []string{"", "\x82\x21", "\x82\x21\x01", "\x18", "\x82\x21\x01\x01m\x18"} {
				hs = append(hs, hostile{pComp, cat([]byte(pre), vi(n), ta)})
			}
			for ty := 0; ty < 16; ty++ {
				hs = append(hs, hostile{pComp, cat([]byte{byte(0xf0 | ty)}, vi(n), ta)})
				hs = append(hs, hostile{pComp, cat(vi(n), []byte{byte(ty<<4 | 3)}, ta)}, hostile{pComp, cat(vi(n), []byte{byte(3<<4 | ty)}, ta)})
			}
		}
		for _, s := range []string{fmt.Sprint(n), fmt.Sprint(int64(n)), fmt.Sprint(-int64(n))} {
			for ty := -1; ty < 20; ty++ {
				hs = append(hs, hostile{pJSON, []byte(fmt.Sprintf("[%d,%s", ty, s))}, hostile{pJSON, []byte(fmt.Sprintf("[%d,%s]", ty, s))})
				hs = append(hs, hostile{pSimp, []byte(fmt.Sprintf("[%d,%s,1,1", ty, s))}, hostile{pSimp, []byte(fmt.Sprintf("[%d,8,%s,1,1", ty, s))}, hostile{pSimp, []byte(fmt.Sprintf("[%d,8,%s]", ty, s))})
			}
			for _, n1 := range []string{"tf", "i8", "stp", "v", "rec", "lst", "str", "", "zzz", "enm", "u16"} {
				hs = append(hs, hostile{pJSON, []byte(fmt.Sprintf("[%q,\"i8\",%s,1,1", n1, s))}, hostile{pJSON, []byte(fmt.Sprintf("[\"i8\",%q,%s,1]", n1, s))},
					hostile{pJSON, []byte(fmt.Sprintf("[%q,%q,%s", n1, n1, s))},
					hostile{pJSON, []byte(fmt.Sprintf("{\"1\":{\"lst\":[%q,%s", n1, s))})
			}
		}
	}
	c.Seq("hostile-sizes", len(hs), func(i int) string { return fmt.Sprintf("%s/%x", hs[i].pr.name, hs[i].in) }, func(t *T, i int) {
		h := hs[i]
		cs := consFor(h.pr)
		measure := func() (uint64, time.Duration) {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			st := time.Now()
			feed(t, h.pr, cs, h.in)
			d := time.Since(st)
			runtime.ReadMemStats(&b)
			return b.TotalAlloc - a.TotalAlloc, d
		}
		n, d := measure()
		if lim := uint64(len(cs)) * uint64(1<<20+64*len(h.in)); n > lim {
			t.Failf("allocation", "%s: %d bytes allocated for %d bytes of input %q by %d readers", h.pr.name, n, len(h.in), h.in, len(cs))
		}
		for k := 0; d > 6*time.Second && k < 3; k++ {
			if _, d = measure(); k == 2 && d > 6*time.Second {
				t.Failf("endless", "%s: %v spent on %d bytes of input %q", h.pr.name, d, len(h.in), h.in)
			}
		}
	})
	// deep nesting
	depths := []int{100, 1000, 10000, 100000}
	c.Par("deep-input", len(depths)*12, nil, func(t *T, i int) {
		d := depths[i/12]
		var in string
		pr := pBin
		ty := byte(tLIST)
		switch i % 12 {
		case 0:
			in = strings.Repeat("\x0f\x00\x00\x00\x01", d)
		case 1:
			in, ty = strings.Repeat("\x0c\x00\x01", d), tSTRUCT
		case 2:
			in, ty = strings.Repeat("\x0d\x0d\x00\x00\x00\x01", d), tMAP
		case 3:
			pr, in = pComp, strings.Repeat("\x19", d)
		case 4:
			pr, in, ty = pComp, strings.Repeat("\x1c", d), tSTRUCT
		case 5:
			pr, in, ty = pComp, strings.Repeat("\x01\xbb", d), tMAP
		case 6:
			pr, in = pJSON, strings.Repeat("[15,1,", d)
		case 7:
			pr, in, ty = pJSON, strings.Repeat("{\"1\":{\"rec\":", d), tSTRUCT
		case 8:
			pr, in, ty = pJSON, strings.Repeat("[\"map\",\"map\",1,", d), tMAP
		case 9:
			pr, in = pSimp, strings.Repeat("[15,1,", d)
		case 10:
			pr, in, ty = pSimp, "\""+strings.Repeat("\\\"", d/4), tSTRING
		case 11:
			pr, in, ty = pJSON, strings.Repeat("[", d), tLIST
		}
		tr := newMem([]byte(in))
		tr.lib = true
		if e := pr.mk(tr).Skip(tt(ty)); e == nil {
			t.Failf("accepted", "%s: incomplete nested input of depth %d skipped without error", pr.name, d)
		}
		t.Trace()
		t.Ops(1)
		t.State(uint64(i) * 0x9e3779b97f4a7c15)
	})
}

// ---- C10 ----

func depthOf(v Val) int {
	d := 0
	for _, f := range v.Fields {
		if x := depthOf(f.V); x > d {
			d = x
		}
	}
	for _, e := range v.E {
		if x := depthOf(e); x > d {
			d = x
		}
	}
	return d + 1
}

// skipper: how a skip is requested
var skippers = []struct {
	name string
	f    func(p thrift.TProtocol, t byte) thrift.TProtocolException
}{
	{"Skip", func(p thrift.TProtocol, t byte) thrift.TProtocolException { return p.Skip(tt(t)) }},
	{"SkipDefaultDepth", func(p thrift.TProtocol, t byte) thrift.TProtocolException { return thrift.SkipDefaultDepth(p, tt(t)) }},
	{"thrift.Skip", func(p thrift.TProtocol, t byte) thrift.TProtocolException { return thrift.Skip(p, tt(t), 64) }},
}

func skipOne(t *T, pr *proto, sk int, v Val) {
	skip := func(p thrift.TProtocol, ty byte) {
		if e := skippers[sk].f(p, ty); e != nil {
			t.Failf("skip-error", "%s: skipping type %d in %s: %v", pr.name, ty, v, e)
		}
	}
	must := func(op string, e thrift.TProtocolException) {
		if e != nil {
			t.Failf("after-skip", "%s: %s after skipping %s: %v", pr.name, op, v, e)
		}
	}
	after := func(p thrift.TProtocol, x Val) {
		if err := pr.readLike(p, x); err != nil {
			t.Failf("after-skip", "%s: reading %s after skipping %s: %v", pr.name, x, v, err)
		}
	}
	wt := func(ty byte) byte {
		if pr == pBin || pr == pComp {
			return wireT(ty)
		}
		return ty
	}
	typed := !pr.fieldNames
	// as a field, with typed fields before and after; several id histories
	if typed {
		for _, ids := range [][3]int16{{1, 2, 3}, {1, 20, 2}, {3, 2, 17}, {-1, 0, 1}, {100, 101, 102}} {
			outer := vStruct(fld(ids[0], vBool(true)), fld(ids[1], v), fld(ids[2], vStruct(fld(4, vBool(false)), fld(5, vI16(3)))), fld(ids[2]+1, vBool(false)))
			m := Msg{"sk", 1, 5, outer}
			in := newMem(append(encWith(pr, m), encWith(pr, m)...))
			in.lib = true
			p := pr.mk(in)
			_, _, _, e := p.ReadMessageBegin()
			must("ReadMessageBegin", e)
			_, e = p.ReadStructBegin()
			must("ReadStructBegin", e)
			for k, f := range outer.Fields {
				_, ft, id, e := p.ReadFieldBegin()
				must("ReadFieldBegin", e)
				if byte(ft) != wireT(f.V.T) || id != f.ID {
					t.Failf("after-skip", "%s: after skipping %s field %d type %d read as %d type %d", pr.name, v, f.ID, wireT(f.V.T), id, ft)
				}
				if k == 1 {
					skip(p, byte(ft))
				} else {
					after(p, f.V)
				}
				must("ReadFieldEnd", p.ReadFieldEnd())
			}
			_, ft, _, e := p.ReadFieldBegin()
			must("ReadFieldBegin", e)
			if ft != tSTOP {
				t.Failf("after-skip", "%s: struct does not end after skipping %s", pr.name, v)
			}
			must("ReadStructEnd", p.ReadStructEnd())
			must("ReadMessageEnd", p.ReadMessageEnd())
			// the whole body of the next message
			_, _, _, e = p.ReadMessageBegin()
			must("ReadMessageBegin", e)
			skip(p, tSTRUCT)
			must("ReadMessageEnd", p.ReadMessageEnd())
			if in.off != len(in.b) {
				t.Failf("skip-extent", "%s: skipping struct %s left %d bytes", pr.name, outer, len(in.b)-in.off)
			}
			t.Ops(20)
			t.Trace()
		}
	}
	// as first, middle or last element of list and set, key or value of a map
	elems := vList(v.T, v, v, v)
	for pos := 0; pos < 3; pos++ {
		in := newMem(nil)
		in.lib = true
		w := pr.mk(in)
		if e := writeMsg(w, Msg{"s", 1, 1, vStruct(fld(1, elems), fld(2, vSet(v.T, v)), fld(3, vMap(v.T, tI32, v, vI32(7), v, vI32(8))), fld(4, vMap(tSTRING, v.T, vStr("k"), v, vStr("l"), v)), fld(5, vI64(99)))}); e != nil {
			t.Failf("write-error", "%v", e)
		}
		p := pr.mk(in)
		_, _, _, e := p.ReadMessageBegin()
		must("ReadMessageBegin", e)
		_, e = p.ReadStructBegin()
		must("ReadStructBegin", e)
		field := func() {
			_, _, _, e := p.ReadFieldBegin()
			must("ReadFieldBegin", e)
		}
		end := func() { must("ReadFieldEnd", p.ReadFieldEnd()) }
		field()
		et, n, e := p.ReadListBegin()
		must("ReadListBegin", e)
		for k := 0; k < n; k++ {
			if k == pos {
				skip(p, byte(et))
			} else {
				after(p, v)
			}
		}
		must("ReadListEnd", p.ReadListEnd())
		end()
		field()
		skip(p, tSET)
		end()
		field()
		if pos == 0 {
			kt, vt, _, e := p.ReadMapBegin()
			must("ReadMapBegin", e)
			skip(p, byte(kt))
			after(p, vI32(7))
			skip(p, wt(byte(kt)))
			skip(p, byte(vt))
			must("ReadMapEnd", p.ReadMapEnd())
		} else if pos == 1 {
			skip(p, tMAP)
		} else {
			kt, _, _, e := p.ReadMapBegin()
			must("ReadMapBegin", e)
			after(p, v)
			skip(p, tI32)
			skip(p, byte(kt))
			after(p, vI32(8))
			must("ReadMapEnd", p.ReadMapEnd())
		}
		end()
		field()
		if pos == 2 {
			skip(p, tMAP)
		} else {
			_, vt, _, e := p.ReadMapBegin()
			must("ReadMapBegin", e)
			after(p, vStr("k"))
			if pos == 0 {
				skip(p, byte(vt))
			} else {
				after(p, v)
			}
			after(p, vStr("l"))
			skip(p, byte(vt))
			must("ReadMapEnd", p.ReadMapEnd())
		}
		end()
		field()
		after(p, vI64(99))
		end()
		_, ft, _, e := p.ReadFieldBegin()
		must("ReadFieldBegin", e)
		if ft != tSTOP {
			t.Failf("after-skip", "struct does not end")
		}
		must("ReadStructEnd", p.ReadStructEnd())
		must("ReadMessageEnd", p.ReadMessageEnd())
		if in.off != len(in.b) {
			t.Failf("skip-extent", "%s: %d bytes left after skipping elements %s", pr.name, len(in.b)-in.off, v)
		}
		t.Ops(30)
		t.Trace()
	}
	t.StateS(pr.name + v.String())
}

func hasStructs(v Val) bool {
	if v.T == tSTRUCT && len(v.Fields) > 0 {
		return true
	}
	for _, e := range v.E {
		if hasStructs(e) {
			return true
		}
	}
	for _, f := range v.Fields {
		if hasStructs(f.V) {
			return true
		}
	}
	return false
}

func runC10(c *Ctx) {
	c.Rule("states = distinct (protocol, value) pairs; transitions = protocol read and skip calls; each value is skipped in every position by every skip function and all that follows is decoded and compared; depth limits 0..8 are applied to every tree shape")
	var vals []Val
	for _, ty := range allTypes {
		for k := 0; k < 5; k++ {
			vals = append(vals, rep(ty, k))
		}
	}
	for _, v := range scalarValues(true) {
		if len(v.S) > 300 && len(v.S) != 4096 && len(v.S) != 70000 {
			continue
		}
		vals = append(vals, v)
	}
	for _, a := range allTypes {
		for _, b := range allTypes {
			vals = append(vals, vList(a, rep(a, 1)), vMap(a, b, rep(a, 1), rep(b, 1), rep(a, 2), rep(b, 2)), vStruct(fld(3, rep(a, 1)), fld(1, rep(b, 2)), fld(30, rep(a, 3))))
		}
	}
	run := func(t *T, v Val) {
		for _, pr := range allProtos {
			if pr.fieldNames && hasStructs(v) {
				continue
			}
			for sk := range skippers {
				skipOne(t, pr, sk, v)
			}
		}
	}
	c.Par("values", len(vals), nil, func(t *T, i int) {
		run(t, vals[i])
		if i == 70 {
			t.Sample(map[string]interface{}{"value": vals[i].String(), "positions": "field with neighbours, list/set element, map key/value"})
		}
	})
	forShapes(c, "tree-shapes", c.Pick(4, 5), run)
	forSizes(c, "container-sizes", 4096, func(t *T, v Val) {
		for _, pr := range allProtos[:3] {
			in := newMem(encWith(pr, Msg{"m", 1, 1, v}))
			in.b = append(in.b, encWith(pr, Msg{"n", 2, 3, vStruct(fld(9, vBool(true)))})...)
			in.lib = true
			p := pr.mk(in)
			p.ReadMessageBegin()
			if e := p.Skip(tt(tSTRUCT)); e != nil {
				t.Failf("skip-error", "%s: %v", pr.name, e)
			}
			p.ReadMessageEnd()
			if err := pr.readMsgLike(p, Msg{"n", 2, 3, vStruct(fld(9, vBool(true)))}); err != nil {
				t.Failf("after-skip", "%s: reading on after a skipped message: %v", pr.name, err)
			}
			t.Trace()
			t.Ops(8)
		}
	})
	forDeepPairs(c, "deep-type-pairs", c.PickInts([]int{1, 4, 8, 9, 17}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 33}), func(t *T, v Val) {
		msg, nxt := Msg{"m", 1, 1, vStruct(fld(1, vI32(1)), fld(2, v), fld(4, vBool(false)), fld(5, vList(tBOOL, vBool(true), vBool(false))))}, Msg{"n", 2, 3, vStruct(fld(9, vBool(true)))}
		for _, pr := range allProtos[:3] {
			for mode := 0; mode < 3; mode++ {
				whole, above := msg, 0
				if mode == 2 { // the same below a chain of structs
					above = 12
					for k := 0; k < above; k++ {
						whole.Body = vStruct(fld(int16(k%3+1), whole.Body))
					}
				}
				in := newMem(append(encWith(pr, whole), encWith(pr, nxt)...))
				in.lib = true
				p := pr.mk(in)
				var e thrift.TProtocolException
				chk := func(err thrift.TProtocolException) {
					if e == nil {
						e = err
					}
				}
				_, _, _, err := p.ReadMessageBegin()
				chk(err)
				if mode == 0 {
					chk(p.Skip(tt(tSTRUCT)))
				} else { // skip the second field only
					for k := 0; k < above; k++ {
						_, err := p.ReadStructBegin()
						chk(err)
						_, _, _, err = p.ReadFieldBegin()
						chk(err)
					}
					_, err := p.ReadStructBegin()
					chk(err)
					for fi, f := range msg.Body.Fields {
						_, ft, id, err := p.ReadFieldBegin()
						chk(err)
						if e != nil {
							break
						}
						if id != f.ID || ft.ThriftTypeId() != wireT(f.V.T) {
							t.Failf("after-skip", "%s: field %d is read as field %d of type %v", pr.name, f.ID, id, ft)
						}
						if fi == 1 {
							chk(p.Skip(ft))
						} else if err := pr.readLike(p, f.V); err != nil {
							t.Failf("after-skip", "%s: %v", pr.name, err)
						}
						chk(p.ReadFieldEnd())
					}
					_, ft, _, err := p.ReadFieldBegin()
					chk(err)
					if e == nil && ft != thrift.TType(thrift.STOP) {
						t.Failf("after-skip", "%s: no end of the struct but %v", pr.name, ft)
					}
					chk(p.ReadStructEnd())
					for k := 0; k < above; k++ {
						chk(p.ReadFieldEnd())
						_, _, _, err = p.ReadFieldBegin()
						chk(err)
						chk(p.ReadStructEnd())
					}
				}
				chk(p.ReadMessageEnd())
				if e != nil {
					t.Failf("skip-error", "%s: skipping %s: %v", pr.name, v, e)
				}
				if err := pr.readMsgLike(p, nxt); err != nil {
					t.Failf("after-skip", "%s: reading on after a skipped message: %v", pr.name, err)
				}
				t.Trace()
				t.Ops(8)
			}
		}
	})
	// truncation while skipping is reported: every cut of every value
	c.Par("skip-truncated", len(vals), nil, func(t *T, i int) {
		v := vals[i]
		if len(v.S) > 300 {
			return
		}
		for _, pr := range allProtos {
			if pr.fieldNames && hasStructs(v) {
				continue
			}
			b := newMem(nil)
			wrapped := vList(v.T, v, v)
			if e := writeVal(pr.mk(b), wrapped); e != nil {
				t.Failf("write-error", "%v", e)
			}
			for k := 0; k < len(b.b); k++ {
				for end := 0; end < 2; end++ {
					if e := pr.mk(&scriptT{data: b.b[:k], end: end}).Skip(tt(tLIST)); e == nil {
						t.Failf("skip-truncated", "%s: skipping %s cut after %d of %d bytes reports no error", pr.name, wrapped, k, len(b.b))
					}
					t.Trace()
				}
			}
			t.Ops(2 * len(b.b))
		}
	})
	// unknown types cannot be skipped silently
	c.Par("unknown-types", 256, nil, func(t *T, i int) {
		switch byte(i) {
		case tSTOP, tVOID, tBOOL, tBYTE, tDOUBLE, tI16, tI32, tI64, tSTRING, tSTRUCT, tMAP, tSET, tLIST, 16, 17, tBINARY, 127:
			return
		}
		if i >= 128 {
			return
		}
		in := newMem([]byte{byte(i), 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0, 0, 0})
		in.lib = true
		if e := pBin.mk(in).Skip(tt(tSTRUCT)); e == nil {
			t.Failf("unknown-type", "a struct with a field of unknown type %d was skipped without error", i)
		}
		t.Trace()
		t.Ops(1)
	})
	// depth limit, given to thrift.Skip and configured globally
	depthCase := func(t *T, v Val, global bool) {
		d := depthOf(v)
		for _, pr := range allProtos {
			if pr.fieldNames && hasStructs(v) {
				continue
			}
			b := newMem(nil)
			w := pr.mk(b)
			tail := vI32(4711)
			if e := writeVal(w, vList(v.T, v)); e != nil {
				t.Failf("write-error", "%v", e)
			}
			if e := writeVal(w, vList(tI32, tail)); e != nil {
				t.Failf("write-error", "%v", e)
			}
			for lim := 0; lim <= 8; lim++ {
				in := newMem(b.b)
				in.lib = true
				p := pr.mk(in)
				if _, _, e := p.ReadListBegin(); e != nil {
					t.Failf("read", "%v", e)
				}
				var e thrift.TProtocolException
				if global {
					thrift.SetMaxSkipDepth(lim)
					if lim%2 == 0 {
						e = p.Skip(tt(v.T))
					} else {
						e = thrift.SkipDefaultDepth(p, tt(v.T))
					}
				} else {
					e = thrift.Skip(p, tt(v.T), lim)
				}
				t.Ops(1)
				t.Trace()
				if d > lim && d > 1 {
					if e == nil {
						t.Failf("depth-exceeded", "%s: value %s nested %d deep skipped with maximum depth %d", pr.name, v, d, lim)
					}
					continue
				}
				if d > lim {
					continue // a bare scalar with limit 0: either answer
				}
				if e != nil {
					t.Failf("depth-refused", "%s: value %s nested %d deep not skipped with maximum depth %d: %v", pr.name, v, d, lim, e)
				}
				if e := p.ReadListEnd(); e != nil {
					t.Failf("after-skip", "%v", e)
				}
				if err := pr.readLike(p, vList(tI32, tail)); err != nil {
					t.Failf("after-skip", "%s: after skipping %s: %v", pr.name, v, err)
				}
			}
		}
	}
	forShapes(c, "depth-limits", c.Pick(5, 6), func(t *T, v Val) { depthCase(t, v, false) })
	var dv []Val
	for _, kids := range rootShapes(4) {
		ctr := 0
		dv = append(dv, (&shape{kind: tSTRUCT, kids: kids}).build(idSchemes[0].f, 0, &ctr))
	}
	for _, ty := range allTypes {
		dv = append(dv, rep(ty, 1), rep(ty, 2), vMap(ty, tI32, rep(ty, 1), vI32(1)), vMap(tI32, ty, vI32(1), rep(ty, 1)), vList(ty, rep(ty, 1)), vSet(ty, rep(ty, 1)),
			vMap(tI32, tMAP, vI32(1), vMap(tI32, ty, vI32(1), rep(ty, 1))), vMap(tMAP, tI32, vMap(ty, tI32, rep(ty, 1), vI32(1)), vI32(2)))
	}
	old := thrift.MaxSkipDepth
	c.Seq("global-depth-limit", len(dv), nil, func(t *T, i int) {
		defer thrift.SetMaxSkipDepth(old)
		depthCase(t, dv[i], true)
		depthCase(t, dv[i], false)
	})
}
