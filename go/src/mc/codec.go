package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"thrift"
)

func init() {
	checks["C01"] = checkDef{"model_checking", runC01}
	checks["C02"] = checkDef{"model_checking", runC02}
	checks["C03"] = checkDef{"model_checking", runC03}
	checks["C04"] = checkDef{"model_checking", runC04}
}

// bodies is the family of message bodies shared by the codec checks.
type body struct {
	id string
	v  Val
}

func hexS(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x..(%d)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// forShapes runs f over all tree shapes up to n nodes with every id scheme.
func forShapes(c *Ctx, section string, n int, f func(t *T, v Val)) {
	roots := rootShapes(n)
	c.Par(section, len(roots)*len(idSchemes), nil, func(t *T, i int) {
		sc := idSchemes[i%len(idSchemes)]
		ctr := 0
		v := (&shape{kind: tSTRUCT, kids: roots[i/len(idSchemes)]}).build(sc.f, 0, &ctr)
		f(t, v)
	})
}

// forIDs: all field-id sequences, flat and nested, with rotating types.
func forIDs(c *Ctx, section string, maxN int, f func(t *T, v Val)) {
	s := idSeqs(maxN, idAlpha)
	c.Par(section, len(s), nil, func(t *T, i int) {
		ids := s[i]
		for rot := 0; rot < 4; rot++ {
			v := vStruct()
			for k, id := range ids {
				ty := []byte{tBOOL, tI32, tSTRUCT, tSTRING}[(k+rot)%4]
				x := rep(ty, k+rot)
				if ty == tSTRUCT { // a nested struct with its own id history
					x = vStruct(fld(id, vBool(rot%2 == 0)), fld(3, vStruct(fld(20, vI32(1)))), fld(id, vBool(true)))
				}
				v.Fields = append(v.Fields, fld(id, x))
			}
			f(t, v)
		}
	})
}

// forScalars: every scalar value in every context.
func forScalars(c *Ctx, section string, text bool, f func(t *T, v Val)) {
	vals := scalarValues(text)
	ctxs := contexts()
	c.Par(section, len(vals), nil, func(t *T, i int) {
		for _, cx := range ctxs {
			f(t, cx.f(vals[i]))
		}
	})
}

// forPairs: every pair of types in every container combination.
func forPairs(c *Ctx, section string, f func(t *T, v Val)) {
	n := len(allTypes)
	c.Par(section, n*n, nil, func(t *T, i int) {
		a, b := allTypes[i/n], allTypes[i%n]
		for k := 0; k < 5; k++ {
			f(t, vStruct(fld(1, rep(a, k)), fld(2, rep(b, k+1))))
			f(t, vStruct(fld(2, rep(a, k)), fld(1, rep(b, k+1))))
			f(t, vStruct(fld(1, vMap(a, b, rep(a, k), rep(b, k), rep(a, k+1), rep(b, k+1))), fld(2, rep(a, k))))
			f(t, vStruct(fld(1, vMap(a, b))))
			f(t, vStruct(fld(1, vList(a)), fld(2, vSet(b))))
			f(t, vStruct(fld(1, vList(tLIST, vList(a, rep(a, k)), vList(b, rep(b, k), rep(b, k+1)), vList(a)))))
			f(t, vStruct(fld(1, vList(tMAP, vMap(a, b, rep(a, k), rep(b, k)), vMap(b, a)))))
			f(t, vStruct(fld(1, vMap(tSTRUCT, tLIST, vStruct(fld(1, rep(a, k)), fld(2, rep(b, k))), vList(b, rep(b, k))))))
			f(t, vStruct(fld(1, vSet(tSET, vSet(a, rep(a, k)), vSet(b, rep(b, k)))), fld(2, rep(b, k))))
		}
	})
}

// forSizes: every container kind and element type at boundary sizes.
func forSizes(c *Ctx, section string, max int, f func(t *T, v Val)) {
	var sizes []int
	for _, s := range []int{0, 1, 2, 13, 14, 15, 16, 17, 126, 127, 128, 129, 255, 256, 4095, 4096, 16383, 16384, 32768, 65536} {
		if s <= max {
			sizes = append(sizes, s)
		}
	}
	n := len(allTypes)
	c.Par(section, len(sizes)*n*3, func(i int) string {
		return fmt.Sprintf("size%d-type%d-kind%d", sizes[i/(n*3)], allTypes[i/3%n], i%3)
	}, func(t *T, i int) {
		s, ty := sizes[i/(n*3)], allTypes[i/3%n]
		var v Val
		switch i % 3 {
		case 0:
			v = vList(ty)
		case 1:
			v = vSet(ty)
		case 2:
			v = vMap(tI32, ty)
		}
		for k := 0; k < s; k++ {
			if i%3 == 2 {
				v.E = append(v.E, vI32(int32(k)))
			}
			v.E = append(v.E, rep(ty, k))
		}
		f(t, vStruct(fld(1, v), fld(2, vI32(77))))
	})
}

// deep nesting of each kind
func forDeep(c *Ctx, section string, depths []int, f func(t *T, v Val)) {
	c.Par(section, len(depths)*4, nil, func(t *T, i int) {
		d := depths[i/4]
		v := vI32(5)
		for k := 0; k < d; k++ {
			switch i % 4 {
			case 0:
				v = vStruct(fld(int16(k%20+1), v), fld(int16(k%20+2), vBool(k%2 == 0)))
			case 1:
				v = vList(v.T, v, v)
				if k > 6 {
					v.E = v.E[:1]
				}
			case 2:
				v = vMap(tI32, v.T, vI32(int32(k)), v)
			case 3:
				if k%2 == 0 {
					v = vStruct(fld(3, v), fld(19, vStr("s")))
				} else {
					v = vSet(v.T, v)
				}
			}
		}
		f(t, vStruct(fld(1, v), fld(2, vI32(6))))
	})
}

// forDeepPairs: every pair of types as fields of a struct (and as elements and
// keys in it) below a chain of structs and containers of every small depth.
func forDeepPairs(c *Ctx, section string, depths []int, f func(t *T, v Val)) {
	n := len(allTypes)
	c.Par(section, n*n*len(depths)*2, nil, func(t *T, i int) {
		a, b, d := allTypes[i/2%n], allTypes[i/2/n%n], depths[i/2/n/n]
		for k := 0; k < 2; k++ {
			v := vStruct(fld(1, rep(a, k)), fld(2, vList(b, rep(b, k), rep(b, k+1))), fld(5, rep(b, k+1)), fld(6, vMap(a, b, rep(a, k), rep(b, k))), fld(40, rep(a, k+1)))
			for l := 0; l < d; l++ {
				switch {
				case i%2 == 0:
					v = vStruct(fld(int16(l%14+1), v), fld(int16(l%14+2), vBool(l%2 == 0)))
				case l%3 == 0:
					v = vStruct(fld(7, vList(tSTRUCT, v)), fld(9, vSet(tBOOL, vBool(true))))
				case l%3 == 1:
					v = vStruct(fld(1, vBool(false)), fld(2, vMap(tBOOL, tSTRUCT, vBool(true), v)))
				default:
					v = vStruct(fld(3, v), fld(30, rep(a, l)))
				}
			}
			f(t, v)
		}
	})
}

// forHeaders: container headers of every size around a power of two, without the elements.
func forHeaders(c *Ctx, pr *proto, enc func(v Val, size int) []byte) {
	var sizes []int
	for k := 0; k <= 31; k++ {
		for d := -1; d <= 1; d++ {
			if s := 1<<uint(k) + d; s >= 0 && s <= 1<<31-1 {
				sizes = append(sizes, s)
			}
		}
	}
	n := len(allTypes)
	c.Par("container-headers", len(sizes)*n*n, nil, func(t *T, i int) {
		s, a, b := sizes[i/n/n], allTypes[i/n%n], allTypes[i%n]
		for kind := 0; kind < 3; kind++ {
			if kind > 0 && b != tBOOL {
				continue
			}
			tr := newMem(nil)
			tr.lib = true
			p := pr.mk(tr)
			var e, e2 thrift.TProtocolException
			v := vMap(a, b)
			switch kind {
			case 0:
				e, e2 = p.WriteMapBegin(tt(a), tt(b), s), p.WriteMapEnd()
			case 1:
				v = vList(a)
				e, e2 = p.WriteListBegin(tt(a), s), p.WriteListEnd()
			case 2:
				v = vSet(a)
				e, e2 = p.WriteSetBegin(tt(a), s), p.WriteSetEnd()
			}
			if e != nil || e2 != nil {
				t.Failf("write-error", "header of %v, size %d: %v, %v", v, s, e, e2)
			}
			if enc != nil {
				if want := enc(v, s); !bytes.Equal(tr.b, want) {
					t.Failf("wire-bytes", "header of %v, size %d: got %x, want %x", v, s, tr.b, want)
				}
			}
			var ra, rb thrift.TType
			var size int
			switch kind {
			case 0:
				ra, rb, size, e = p.ReadMapBegin()
			case 1:
				ra, size, e = p.ReadListBegin()
			case 2:
				ra, size, e = p.ReadSetBegin()
			}
			same := func(got thrift.TType, want byte) bool { return got.ThriftTypeId() == tt(want).ThriftTypeId() }
			if e != nil || size != s || (s > 0 && (!same(ra, a) || kind == 0 && !same(rb, b))) {
				t.Failf("header-read", "header %q of %v, size %d is read as %v %v %d, %v", tr.b, v, s, ra, rb, size, e)
			}
			t.Ops(3)
			t.Trace()
			t.State(hashB(tr.b))
		}
	})
}

func countOps(v Val) int {
	n := 2
	for _, f := range v.Fields {
		n += 2 + countOps(f.V)
	}
	for _, e := range v.E {
		n += countOps(e)
	}
	return n
}

// ---- C01 / C02 ----

type codecOracle struct {
	pr  *proto
	enc func(v Val) []byte
	// head gives the header of a container of the kind of v with size elements
	head func(v Val, size int) []byte
}

// one writes v with the library, compares with the reference bytes, and reads
// the bytes back.
func (o *codecOracle) one(t *T, v Val) {
	tr := newMem(nil)
	p := o.pr.mk(tr)
	if e := writeVal(p, v); e != nil {
		t.Failf("write-error", "writing %s: %v", v, e)
	}
	want := o.enc(v)
	if !bytes.Equal(tr.b, want) {
		t.Failf("wire-bytes", "writing %s\n got  %s\n want %s", v, hexS(tr.b), hexS(want))
	}
	o.read(t, v, want)
	t.Ops(2 * countOps(v))
}

func (o *codecOracle) read(t *T, v Val, b []byte) {
	in := newMem(b)
	in.lib = true
	if err := o.pr.readLike(o.pr.mk(in), v); err != nil {
		t.Failf("read-back", "reading %s from %s: %v", v, hexS(b), err)
	}
	if in.off != len(b) {
		t.Failf("read-back", "reading %s left %d of %d bytes", v, len(b)-in.off, len(b))
	}
	t.State(hashB(b))
	t.Trace()
}

func runCodec(c *Ctx, o *codecOracle, alt func(t *T, v Val)) {
	one := func(t *T, v Val) {
		o.one(t, v)
		if alt != nil {
			alt(t, v)
		}
	}
	forScalars(c, "scalars-in-contexts", false, one)
	// every 16-bit integer and every byte pair, as bare values
	c.Par("all-i16", 65536, nil, func(t *T, i int) { o.one(t, vI16(int16(i))) })
	c.Par("bare-scalars", len(scalarValues(false)), nil, func(t *T, i int) { o.one(t, scalarValues(false)[i]) })
	forPairs(c, "type-pairs", one)
	forIDs(c, "field-id-sequences", c.Pick(3, 4), one)
	forShapes(c, "tree-shapes", c.Pick(5, 6), one)
	forSizes(c, "container-sizes", c.Pick(16384, 65536), one)
	forDeep(c, "deep-nesting", []int{1, 2, 3, 4, 5, 8, 10, 20, 40}, one)
	forDeepPairs(c, "deep-type-pairs", c.PickInts([]int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65}), one)
	forHeaders(c, o.pr, o.head)
	// writes and reads interleaved on ONE protocol object, value after value
	vals := []Val{}
	for _, ty := range allTypes {
		vals = append(vals, rep(ty, 1))
	}
	vals = append(vals, vStruct(fld(20, vBool(true)), fld(1, vStruct(fld(9, vBool(false)))), fld(2, vList(tBOOL, vBool(true), vBool(false)))))
	n := len(vals)
	c.Par("value-histories", n*n*n, nil, func(t *T, i int) {
		hist := []Val{vals[i/(n*n)], vals[i/n%n], vals[i%n]}
		tr := newMem(nil)
		tr.lib = true
		p := o.pr.mk(tr)
		var want []byte
		for k, v := range hist {
			if e := writeVal(p, v); e != nil {
				t.Failf("write-error", "%v", e)
			}
			want = append(want, o.enc(v)...)
			if !bytes.Equal(tr.b, want) {
				t.Failf("wire-bytes", "history %v step %d: got %s want %s", hist, k, hexS(tr.b), hexS(want))
			}
			if k == 1 { // read the first while the third is still to be written
				if err := o.pr.readLike(p, hist[0]); err != nil {
					t.Failf("read-back", "history %v: %v", hist, err)
				}
			}
		}
		for _, v := range hist[1:] {
			if err := o.pr.readLike(p, v); err != nil {
				t.Failf("read-back", "history %v: %v", hist, err)
			}
		}
		t.Ops(12)
		t.Trace()
		t.State(hashB(want))
	})
}

func smallMsgs() []Msg {
	bodies := []Val{
		vStruct(),
		vStruct(fld(1, vI32(5))),
		vStruct(fld(1, vBool(false)), fld(20, vStr("s")), fld(3, vStruct(fld(1, vBool(true))))),
		vStruct(fld(-1, vList(tSTRUCT, vStruct(), vStruct(fld(2, vDbl(0.5))))), fld(0, vMap(tSTRING, tBOOL, vStr("a"), vBool(true)))),
	}
	var out []Msg
	for i, b := range bodies {
		out = append(out, Msg{"m" + strings.Repeat("n", i), int32(i%4) + 1, int32(i*1000 - 1), b})
	}
	return out
}

func runC01(c *Ctx) {
	c.Rule("states = distinct wire images; transitions = protocol write/read operations; every case is an execution of the real writer and reader compared with a reference encoder")
	o := &codecOracle{pBin, encBin, headBin}
	runCodec(c, o, nil)
	// headers: every name, type byte, seqid, strict/non-strict on both sides
	body := vStruct(fld(1, vI32(3)))
	mk := func(tr thrift.TTransport, sr, sw bool) thrift.TProtocol { return thrift.NewTBinaryProtocol(tr, sr, sw) }
	mkF := func(tr thrift.TTransport, sr, sw bool) thrift.TProtocol {
		return thrift.NewTBinaryProtocolFactory(sr, sw).GetProtocol(tr)
	}
	c.Par("headers", len(names)*len(seqs)*4*2, nil, func(t *T, i int) {
		name, seq := names[i%len(names)], seqs[i/len(names)%len(seqs)]
		cfg := i / len(names) / len(seqs)
		sr, sw := cfg&1 != 0, cfg&2 != 0
		m := mk
		if cfg&4 != 0 {
			m = mkF
		}
		for ty := int32(1); ty <= 4; ty++ {
			msg := Msg{name, ty, seq, body}
			tr := newMem(nil)
			tr.lib = true
			if e := writeMsg(m(tr, sr, sw), msg); e != nil {
				t.Failf("write-error", "%v", e)
			}
			want := encBinMsg(msg, sw)
			if !bytes.Equal(tr.b, want) {
				t.Failf("header-bytes", "%v strictWrite=%v: got %s want %s", msg, sw, hexS(tr.b), hexS(want))
			}
			// read both header forms
			for _, form := range []bool{true, false} {
				in := newMem(encBinMsg(msg, form))
				in.lib = true
				err := pBin.readMsgLike(m(in, sr, sw), msg)
				if !form && sr {
					if err == nil {
						t.Failf("strict-accepts", "strict reader accepted an unversioned header")
					}
					if oe, ok := err.(*opErr); !ok {
						t.Failf("strict-accepts", "strict reader misread an unversioned header: %v", err)
					} else if pe, ok := oe.err.(thrift.TProtocolException); !ok || pe.TypeId() != 4 {
						t.Failf("strict-error", "strict reader's rejection is not a bad-version error: %v", err)
					}
				} else if err != nil {
					t.Failf("header-read", "%v versioned=%v strictRead=%v: %v", msg, form, sr, err)
				} else if in.off != len(in.b) {
					t.Failf("header-read", "%d bytes left", len(in.b)-in.off)
				}
				t.Trace()
				t.Ops(6)
			}
			t.State(hashB(want))
		}
	})
	// factory defaults
	c.Par("default-factory", 2, nil, func(t *T, i int) {
		var p thrift.TProtocol
		tr := newMem(nil)
		tr.lib = true
		if i == 0 {
			p = thrift.NewTBinaryProtocolFactoryDefault().GetProtocol(tr)
		} else {
			p = thrift.NewTBinaryProtocolTransport(tr)
		}
		msg := Msg{"d", 1, 7, body}
		if e := writeMsg(p, msg); e != nil {
			t.Failf("write-error", "%v", e)
		}
		if !bytes.Equal(tr.b, encBinMsg(msg, true)) {
			t.Failf("header-bytes", "default header not versioned: %x", tr.b)
		}
		if err := pBin.readMsgLike(p, msg); err != nil {
			t.Failf("header-read", "%v", err)
		}
	})
	// every value of the version half-word
	good := Msg{"v", 1, 1, body}
	c.Par("versions", 65536, nil, func(t *T, i int) {
		if i < 0x8000 {
			return // the sign bit distinguishes the versioned form
		}
		b := encBinMsg(good, true)
		b[0], b[1] = byte(i>>8), byte(i)
		for _, sr := range []bool{false, true} {
			in := newMem(b)
			in.lib = true
			_, _, _, err := mk(in, sr, true).ReadMessageBegin()
			if i == 0x8001 {
				if err != nil {
					t.Failf("version", "good version rejected: %v", err)
				}
			} else if err == nil {
				t.Failf("version", "version %04x accepted", i)
			} else if err.TypeId() != 4 {
				t.Failf("version-error", "version %04x rejected with error type %d, not bad-version", i, err.TypeId())
			}
		}
		t.Ops(2)
		t.Trace()
		t.State(uint64(i) * 0x9e3779b97f4a7c15)
	})
	msgHistories(c, pBin, func(m Msg) []byte { return encBinMsg(m, true) })
}

// msgHistories: all sequences of up to 3 messages through one protocol pair.
func msgHistories(c *Ctx, pr *proto, enc func(m Msg) []byte) {
	ms := smallMsgs()
	n := len(ms)
	c.Par("message-histories", n*n*n*2, nil, func(t *T, i int) {
		seq := []Msg{ms[i/2/(n*n)], ms[i/2/n%n], ms[i/2%n]}
		var want []byte
		tr := newMem(nil)
		tr.lib = true
		w, r := pr.mk(tr), pr.mk(tr)
		if i%2 == 1 {
			r = w
		}
		for k, m := range seq {
			if e := writeMsg(w, m); e != nil {
				t.Failf("write-error", "%v", e)
			}
			if enc != nil {
				want = append(want, enc(m)...)
				if !bytes.Equal(tr.b, want) {
					t.Failf("wire-bytes", "history %v step %d: got %s want %s", seq, k, hexS(tr.b), hexS(want))
				}
			}
			if k == 1 && enc != nil {
				if err := pr.readMsgLike(r, seq[0]); err != nil {
					t.Failf("read-back", "history %v: %v", seq, err)
				}
			}
		}
		rest := seq
		if enc != nil {
			rest = seq[1:]
		}
		for _, m := range rest {
			if err := pr.readMsgLike(r, m); err != nil {
				t.Failf("read-back", "history %v: %v (stream %q)", seq, err, tr.b)
			}
		}
		t.Trace()
		t.Ops(20)
		t.State(hashB(tr.b))
		if i == 5 {
			t.Sample(map[string]interface{}{"messages": fmt.Sprint(seq), "stream": fmt.Sprintf("%q", tr.b)})
		}
	})
}

func runC02(c *Ctx) {
	c.Rule("states = distinct wire images; transitions = protocol write/read operations; every case is an execution of the real writer and reader compared with a reference encoder; the reader is also run on every alternative legal encoding")
	o := &codecOracle{pComp, encComp, headComp}
	alt := func(t *T, v Val) {
		for k := 1; k <= 8; k++ {
			r := &refComp{longID: k&1 != 0, longSize: k&2 != 0, falseZero: k&4 != 0, boolTwo: k >= 7}
			r.val(v)
			o.read(t, v, r.b)
		}
		t.Ops(8 * countOps(v))
	}
	runCodec(c, o, alt)
	body := vStruct(fld(1, vI32(3)))
	c.Par("headers", len(names)*len(seqs), nil, func(t *T, i int) {
		name, seq := names[i%len(names)], seqs[i/len(names)]
		for ty := int32(1); ty <= 4; ty++ {
			for _, fac := range []bool{false, true} {
				msg := Msg{name, ty, seq, body}
				tr := newMem(nil)
				tr.lib = true
				var p thrift.TProtocol = thrift.NewTCompactProtocol(tr)
				if fac {
					p = thrift.NewTCompactProtocolFactory().GetProtocol(tr)
				}
				if e := writeMsg(p, msg); e != nil {
					t.Failf("write-error", "%v", e)
				}
				want := encCompMsg(msg)
				if !bytes.Equal(tr.b, want) {
					t.Failf("header-bytes", "%v: got %s want %s", msg, hexS(tr.b), hexS(want))
				}
				if err := pComp.readMsgLike(p, msg); err != nil {
					t.Failf("header-read", "%v: %v", msg, err)
				}
				t.State(hashB(want))
				t.Trace()
				t.Ops(8)
			}
		}
	})
	// every value of the two header bytes
	c.Par("versions", 65536, nil, func(t *T, i int) {
		b := encCompMsg(Msg{"v", 1, 1, body})
		b[0], b[1] = byte(i>>8), byte(i)
		in := newMem(b)
		in.lib = true
		_, ty, _, err := pComp.mk(in).ReadMessageBegin()
		ok := i>>8 == 0x82 && i&0x1f == 1
		if ok {
			if err != nil {
				t.Failf("version", "good header %04x rejected: %v", i, err)
			}
			if int(ty) != i>>5&7 {
				t.Failf("msgtype", "header %04x read as message type %d", i, ty)
			}
		} else if err == nil {
			t.Failf("version", "header %04x accepted", i)
		} else if err.TypeId() != 4 {
			t.Failf("version-error", "header %04x rejected with error type %d, not bad-version", i, err.TypeId())
		}
		t.Ops(1)
		t.Trace()
		t.State(uint64(i) * 0x9e3779b97f4a7c15)
	})
	msgHistories(c, pComp, encCompMsg)
}

// ---- C03 / C04 ----

func jsonOne(t *T, pr *proto, m Msg, simple bool) {
	tr := newMem(nil)
	if e := writeMsg(pr.mk(tr), m); e != nil {
		t.Failf("write-error", "writing %s: %v", m, e)
	}
	if !json.Valid(tr.b) {
		t.Failf("invalid-json", "writing %s: not valid JSON: %.300q", m, tr.b)
	}
	if simple {
		checkSimpleDoc(t, m, tr.b)
	}
	in := newMem(tr.b)
	in.lib = true
	if err := pr.readMsgLike(pr.mk(in), m); err != nil {
		t.Failf("read-back", "reading %s from %.300q: %v", m, tr.b, err)
	}
	t.Ops(2 * countOps(m.Body))
	t.Trace()
	t.State(hashB(tr.b))
}

func runJSON(c *Ctx, pr *proto, simple bool) {
	body := func(t *T, v Val) { jsonOne(t, pr, Msg{"m", 1, 7, v}, simple) }
	forScalars(c, "scalars-in-contexts", true, body)
	c.Par("all-i16", 65536, nil, func(t *T, i int) { body(t, vStruct(fld(1, vI16(int16(i))))) })
	// every Unicode scalar value, in blocks
	c.Par("all-runes", 0x110000/64, nil, func(t *T, i int) {
		var sb strings.Builder
		for r := rune(i * 64); r < rune(i*64+64); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			sb.WriteRune(r)
		}
		body(t, vStruct(fld(1, vStr(sb.String())), fld(2, vI32(1))))
	})
	strs := textStrings(c.Pick(3, 4), jsonAlpha[:c.Pick(17, 20)])
	c.Par("text-strings", len(strs), nil, func(t *T, i int) {
		body(t, vStruct(fld(1, vStr(strs[i])), fld(2, vList(tSTRING, vStr(strs[i])))))
	})
	bins := byteStrings(c.Pick(3, 4), []byte{0, 1, 0x3e, 0x3f, 0x7f, 0x80, 0xff, 'A', '"', '\\'})
	c.Par("binary-strings", len(bins), nil, func(t *T, i int) {
		body(t, vStruct(fld(1, vBin(bins[i])), fld(2, vList(tBINARY, vBin(bins[i])))))
	})
	forPairs(c, "type-pairs", body)
	if !simple {
		forIDs(c, "field-id-sequences", c.Pick(2, 3), body)
	}
	forShapes(c, "tree-shapes", c.Pick(4, 5), body)
	forSizes(c, "container-sizes", c.Pick(4096, 65536), body)
	forDeep(c, "deep-nesting", []int{1, 2, 3, 4, 5, 8, 10, 20, 40}, body)
	forDeepPairs(c, "deep-type-pairs", c.PickInts([]int{2, 3, 5, 8, 16}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33}), body)
	forHeaders(c, pr, nil)
	// the document's total length around the reader's buffer size
	c.Par("long-documents", 3*120, nil, func(t *T, i int) {
		pad := 4096*(i/120+1) - 100 + i%120
		body(t, vStruct(fld(1, vStr(pattern(pad))), fld(2, vStruct(fld(1, vBool(true)), fld(2, vI32(12)))), fld(3, vMap(tSTRING, tDOUBLE, vStr("k"), vDbl(1.5))), fld(4, vList(tI16, vI16(4), vI16(5)))))
	})
	c.Par("headers", len(names)*len(seqs), nil, func(t *T, i int) {
		for ty := int32(1); ty <= 4; ty++ {
			jsonOne(t, pr, Msg{names[i%len(names)], ty, seqs[i/len(names)], vStruct(fld(1, vI32(3)))}, simple)
			jsonOne(t, pr, Msg{names[i%len(names)], ty, seqs[i/len(names)], vStruct()}, simple)
		}
	})
	msgHistories(c, pr, nil)
	jsonFieldNames(c, pr, simple)
}

func jsonFieldNames(c *Ctx, pr *proto, simple bool) {
	if !simple {
		return
	}
	ns := textStrings(2, jsonAlpha)
	c.Par("field-names", len(ns), nil, func(t *T, i int) {
		v := vStruct(Field{ID: 1, Name: ns[i], V: vI32(1)}, Field{ID: 2, Name: "z" + ns[i], V: vStruct(Field{ID: 1, Name: ns[i], V: vBool(true)})})
		jsonOne(t, pr, Msg{"m", 1, 7, v}, simple)
	})
}

func runC03(c *Ctx) {
	c.Rule("states = distinct documents; transitions = protocol write/read operations; each case writes a message with the real writer, validates the JSON with an independent parser and reads it back")
	runJSON(c, pJSON, false)
	// numbers as other implementations write them: bytes in signed notation,
	// blanks around values
	c.Par("foreign-bytes", 384, nil, func(t *T, i int) {
		n := i - 128
		for _, f := range []string{"%d", " %d ", "[%d]", "{\"1\":{\"i8\":%d}}", "{ \"1\" : { \"i8\" : %d } }"} {
			doc := fmt.Sprintf(f, n)
			mb := thrift.NewTMemoryBuffer()
			mb.WriteString(doc)
			p := thrift.NewTJSONProtocol(mb)
			var b byte
			var e thrift.TProtocolException
			switch f[0] {
			case '[':
				if _, e = p.ParseListBegin(); e == nil {
					b, e = p.ReadByte()
				}
			case '{':
				var ft thrift.TType
				var id int16
				if _, e = p.ReadStructBegin(); e == nil {
					if _, ft, id, e = p.ReadFieldBegin(); e == nil {
						if ft != tt(tBYTE) || id != 1 {
							t.Failf("foreign-json", "%s: field read as type %v id %d", doc, ft, id)
						}
						b, e = p.ReadByte()
					}
				}
			default:
				b, e = p.ReadByte()
			}
			if e != nil || b != byte(n) {
				t.Failf("foreign-json", "the byte in %s is read as %d, error %v", doc, b, e)
			}
			t.Ops(1)
			t.Trace()
			t.StateS(doc)
		}
	})
}
func runC04(c *Ctx) {
	c.Rule("states = distinct documents; transitions = protocol write/read operations; each case writes a message with the real writer, validates and decodes the JSON with an independent parser, compares it with the written tree, and reads it back")
	runJSON(c, pSimp, true)
}
