package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"thrift"
)

func init() {
	checks["C16"] = checkDef{"model_checking", runC16}
	checks["C17"] = checkDef{"model_checking", runC17}
}

// ---------------------------------------------------------------- C16

type appExc struct {
	typ int32
	msg string
}

func appVal(e appExc) Val {
	var f []Field
	if e.msg != "" {
		f = append(f, Field{1, "message", vStr(e.msg)})
	}
	return vStruct(append(f, Field{2, "type", vI32(e.typ)})...)
}

func runC16(c *Ctx) {
	c.Rule("states = distinct (protocol, exception or wire struct, fault position); transitions = protocol calls; every execution runs the real reader or writer against an independent encoding of the exception")
	protos := []*proto{pBin, pComp, pJSON}
	var types []int32
	for i := int32(0); i < 20; i++ {
		types = append(types, i)
	}
	for _, b := range bounds(32) {
		if b < 0 || b >= 20 {
			types = append(types, int32(b))
		}
	}
	msgs := append([]string{pattern(300), pattern(5000), "line\nbreak\ttab", "nul\x00", "UNKNOWN", "unknown", "empty", "null", "EOF", "0", "type", "message", "TApplicationException", " ", "\n"}, textStrings(2, []string{"a", "\"", "\\", "é", "{", " ", "\u2028"})...)
	probe := Msg{"nxt", 2, 9, vStruct(fld(5, vBool(true)), fld(6, vStr("z")))}
	var excs []appExc
	for _, ty := range types {
		for _, m := range msgs {
			excs = append(excs, appExc{ty, m})
		}
	}
	write := func(p thrift.TProtocol, e appExc) error {
		if err := p.WriteMessageBegin("m", thrift.EXCEPTION, 7); err != nil {
			return err
		}
		if err := thrift.NewTApplicationException(e.typ, e.msg).Write(p); err != nil {
			return err
		}
		if err := p.WriteMessageEnd(); err != nil {
			return err
		}
		if err := p.Flush(); err != nil {
			return err
		}
		return nil
	}
	read := func(p thrift.TProtocol) (thrift.TApplicationException, error) {
		name, ty, seq, err := p.ReadMessageBegin()
		if err != nil {
			return nil, err
		}
		if name != "m" || ty != thrift.EXCEPTION || seq != 7 {
			return nil, fmt.Errorf("header %q %d %d", name, ty, seq)
		}
		e, er := thrift.NewTApplicationExceptionDefault().Read(p)
		if er != nil {
			return nil, er
		}
		if err := p.ReadMessageEnd(); err != nil {
			return nil, err
		}
		if e == nil {
			return nil, fmt.Errorf("neither exception nor error")
		}
		return e, nil
	}
	same := func(t *T, what string, got thrift.TApplicationException, want appExc) {
		if got.TypeId() != want.typ || got.Error() != want.msg {
			t.Failf("exception", "%s reads back as type %d %s, want %d %s", what, got.TypeId(), shortQ(got.Error()), want.typ, shortQ(want.msg))
		}
	}
	c.Par("roundtrip", len(excs)*len(protos), nil, func(t *T, i int) {
		e, pr := excs[i/len(protos)], protos[i%len(protos)]
		t.Try(fmt.Sprintf("%s type %d %s", pr.name, e.typ, shortQ(e.msg)), func() {
			m := newMem(nil)
			p := pr.mk(m)
			if err := write(p, e); err != nil {
				t.Failf("write", "writing: %v", err)
			}
			if err := writeMsg(p, probe); err != nil {
				t.Failf("write", "writing the next message: %v", err)
			}
			if pr != pJSON {
				w := Msg{"m", 3, 7, appVal(e)}
				want := encBinMsg(w, true)
				if pr == pComp {
					want = encCompMsg(w)
				}
				if !bytes.HasPrefix(m.b, want) {
					t.Failf("bytes", "written as %s, want %s", hexS(m.b), hexS(want))
				}
			}
			q := pr.mk(newMem(m.b))
			got, err := read(q)
			if err != nil {
				t.Failf("read", "reading back: %v", err)
			}
			same(t, "the exception", got, e)
			if err := pr.readMsgLike(q, probe); err != nil {
				t.Failf("next", "reading the next message: %v", err)
			}
			t.StateS(t.sub)
		})
		t.Trace()
		t.Ops(12)
	})
	// the constructors
	c.Par("constructors", 1, nil, func(t *T, _ int) {
		for _, ty := range types {
			if e := thrift.NewTApplicationExceptionType(ty); e.TypeId() != ty {
				t.Failf("constructor", "an exception of type %d has type %d", ty, e.TypeId())
			}
			for _, m := range msgs {
				if e := thrift.NewTApplicationException(ty, m); e.TypeId() != ty || e.Error() != m {
					t.Failf("constructor", "an exception of type %d and message %q has type %d and message %q", ty, m, e.TypeId(), e.Error())
				}
				if e := thrift.NewTApplicationExceptionMessage(m); e.TypeId() != thrift.UNKNOWN_APPLICATION_EXCEPTION || e.Error() != m {
					t.Failf("constructor", "an exception of message %q has type %d and message %q", m, e.TypeId(), e.Error())
				}
			}
		}
	})
	// every arrangement of wire fields
	var alpha []Field
	add := func(id int16, v Val) { alpha = append(alpha, fld(id, v)) }
	add(1, vStr("one"))
	add(1, vStr("other"))
	add(2, vI32(3))
	add(2, vI32(-1))
	add(1, vI32(5))
	add(2, vStr("x"))
	add(2, vI64(1<<40))
	add(1, vList(tSTRING, vStr("q")))
	add(3, vStr("x"))
	add(3, vI32(5))
	add(0, vBool(true))
	add(-1, vI32(5))
	add(300, vStruct(fld(1, vStr("in")), fld(2, vI32(9))))
	add(1, vStruct(fld(1, vStr("in")), fld(2, vI32(9))))
	add(2, vMap(tI32, tSTRING, vI32(1), vStr("m")))
	add(4, vMap(tSTRING, tI32))
	add(2, vBool(false))
	add(1, vDbl(1.5))
	add(32767, vSet(tI32, vI32(2)))
	depth := c.Pick(3, 4)
	expect := func(fs []Field) appExc {
		e := appExc{}
		for _, f := range fs {
			if f.ID == 1 && f.V.T == tSTRING {
				e.msg = f.V.S
			}
			if f.ID == 2 && f.V.T == tI32 {
				e.typ = int32(f.V.I)
			}
		}
		return e
	}
	var names []string
	for _, a := range alpha {
		names = append(names, fmt.Sprintf("%d:%s", a.ID, a.V))
	}
	for _, pr := range protos {
		pr := pr
		seqsTo(c, "fields/"+pr.name, names, depth, func(t *T, seq []int) {
			var fs []Field
			for _, i := range seq {
				fs = append(fs, alpha[i])
			}
			m := newMem(nil)
			p := pr.mk(m)
			if e := writeMsg(p, Msg{"m", 3, 7, vStruct(fs...)}); e != nil {
				t.Failf("write", "%v", e)
			}
			if e := writeMsg(p, probe); e != nil {
				t.Failf("write", "%v", e)
			}
			q := pr.mk(newMem(m.b))
			got, err := read(q)
			mustTrue(err == nil, "read", "reading %s: %v", vStruct(fs...), err)
			w := expect(fs)
			mustTrue(got.TypeId() == w.typ && got.Error() == w.msg, "exception", "%s reads as type %d %q, want %d %q", vStruct(fs...), got.TypeId(), got.Error(), w.typ, w.msg)
			err = pr.readMsgLike(q, probe)
			mustTrue(err == nil, "next", "reading the message after %s: %v", vStruct(fs...), err)
			t.StateS(pr.name + fmt.Sprint(seq))
		})
	}
	// truncation and write failures everywhere
	var faulty [][]Field
	for i := range alpha {
		for j := range alpha {
			faulty = append(faulty, []Field{alpha[i], alpha[j]})
		}
	}
	var pos int64
	c.Par("truncated", len(faulty)*len(protos), nil, func(t *T, i int) {
		fs, pr := faulty[i/len(protos)], protos[i%len(protos)]
		b := encWith(pr, Msg{"m", 3, 7, vStruct(fs...)})
		t.Try(pr.name+vStruct(fs...).String(), func() {
			for n := 0; n < len(b); n++ {
				for mode := 0; mode < 2; mode++ {
					sc := &scriptT{data: b[:n]}
					if mode == 1 {
						sc.choose = plan{chunk: 1, eof: true}.chooser(sc)
					}
					got, err := read(pr.mk(sc))
					if err == nil {
						t.Failf("truncated", "%d of %d bytes read as type %d %q", n, len(b), got.TypeId(), got.Error())
					}
					atomic.AddInt64(&pos, 1)
					t.Trace()
				}
			}
		})
	})
	c.AddExtra("truncation_points", pos)
	var wf int64
	fexcs := []appExc{{1, "hello"}, {6, ""}, {0, "q\"\\"}, {7, pattern(5000)}}
	c.Par("write-failures", len(fexcs)*len(protos)*2, nil, func(t *T, i int) {
		pr := protos[i%len(protos)]
		e := fexcs[i/len(protos)/2]
		framed := i/len(protos)%2 == 1
		run := func(f *faultW) error {
			var tr thrift.TTransport = f
			if framed {
				tr = thrift.NewTFramedTransport(f)
			}
			return write(pr.mk(tr), e)
		}
		// without the message around it, so that no other call can report
		bare := func(f *faultW) (err error, n int) {
			p := pr.mk(f)
			if er := thrift.NewTApplicationException(e.typ, e.msg).Write(p); er != nil {
				return er, f.writes
			}
			if er := p.Flush(); er != nil {
				return er, f.writes
			}
			return nil, f.writes
		}
		ok := &faultW{failAt: -1, failFlush: -1}
		if err := run(ok); err != nil {
			t.Failf("write", "%v", err)
		}
		okb := &faultW{failAt: -1, failFlush: -1}
		_, nb := bare(okb)
		for _, sticky := range []bool{false, true} {
			for mode := 0; mode < 2; mode++ {
				for k := 0; k < ok.writes; k++ {
					f := &faultW{failAt: k, failFlush: -1, sticky: sticky, mode: mode}
					t.Try(fmt.Sprintf("%s %v write %d", pr.name, e, k), func() {
						if err := run(f); err == nil && f.failed {
							t.Failf("write-hidden", "write %d failed, writing the exception reported success", k)
						}
					})
					t.Trace()
					atomic.AddInt64(&wf, 1)
				}
				for k := 0; k < nb; k++ {
					f := &faultW{failAt: k, failFlush: -1, sticky: sticky, mode: mode}
					t.Try(fmt.Sprintf("%s %v write %d, exception alone", pr.name, e, k), func() {
						if err, _ := bare(f); err == nil && f.failed {
							t.Failf("write-hidden", "write %d failed, writing the exception reported success", k)
						}
					})
					t.Trace()
					atomic.AddInt64(&wf, 1)
				}
			}
		}
		for k := 0; k < ok.flushes; k++ {
			f := &faultW{failAt: -1, failFlush: k}
			t.Try(fmt.Sprintf("%s %v flush %d", pr.name, e, k), func() {
				if err := run(f); err == nil && f.flushFailed {
					t.Failf("write-hidden", "flush %d failed, writing the exception reported success", k)
				}
			})
		}
		// a protocol whose k-th call fails: also the calls that write no bytes
		fp := &failProto{TProtocol: pr.mk(newMem(nil)), at: -1}
		_ = thrift.NewTApplicationException(e.typ, e.msg).Write(fp)
		for k := 0; k < fp.n; k++ {
			t.Try(fmt.Sprintf("%s %v call %d", pr.name, e, k), func() {
				f := &failProto{TProtocol: pr.mk(newMem(nil)), at: k}
				if err := thrift.NewTApplicationException(e.typ, e.msg).Write(f); err == nil {
					t.Failf("write-hidden", "%s failed, writing the exception reported success", f.what)
				} else if !strings.Contains(err.Error(), "injected") {
					t.Failf("write-error", "%s failed, the error reported is %v", f.what, err)
				}
			})
			t.Trace()
			atomic.AddInt64(&wf, 1)
		}
	})
	c.AddExtra("write_failures", wf)
	// a protocol whose k-th read call fails
	c.Par("read-failures", len(faulty)*len(protos), nil, func(t *T, i int) {
		fs, pr := faulty[i/len(protos)], protos[i%len(protos)]
		m := newMem(nil)
		if e := writeVal(pr.mk(m), vStruct(fs...)); e != nil {
			t.Failf("write", "%v", e)
		}
		fp := &failProto{TProtocol: pr.mk(newMem(m.b)), at: -1}
		if _, err := thrift.NewTApplicationExceptionDefault().Read(fp); err != nil {
			t.Failf("read", "%v", err)
		}
		for k := 0; k < fp.n; k++ {
			t.Try(fmt.Sprintf("%s %s call %d", pr.name, vStruct(fs...), k), func() {
				f := &failProto{TProtocol: pr.mk(newMem(m.b)), at: k}
				if _, err := thrift.NewTApplicationExceptionDefault().Read(f); err == nil {
					t.Failf("read-hidden", "%s failed, reading the exception reported success", f.what)
				}
			})
			t.Trace()
		}
	})
}

// failProto passes calls on to a protocol and makes the at-th one fail.
type failProto struct {
	thrift.TProtocol
	n, at int
	what  string
	err   thrift.TProtocolException
	log   []string
}

func (f *failProto) hit(what string) thrift.TProtocolException {
	f.n++
	if f.n-1 == f.at {
		f.what = what
		if f.err != nil {
			return f.err
		}
		return thrift.NewTProtocolException(thrift.UNKNOWN_PROTOCOL_EXCEPTION, "injected failure")
	}
	return nil
}
func (f *failProto) WriteMessageBegin(n string, t thrift.TMessageType, s int32) thrift.TProtocolException {
	if e := f.hit("WriteMessageBegin"); e != nil {
		return e
	}
	return f.TProtocol.WriteMessageBegin(n, t, s)
}
func (f *failProto) WriteMessageEnd() thrift.TProtocolException {
	if e := f.hit("WriteMessageEnd"); e != nil {
		return e
	}
	return f.TProtocol.WriteMessageEnd()
}
func (f *failProto) WriteStructBegin(n string) thrift.TProtocolException {
	if e := f.hit("WriteStructBegin"); e != nil {
		return e
	}
	return f.TProtocol.WriteStructBegin(n)
}
func (f *failProto) WriteStructEnd() thrift.TProtocolException {
	if e := f.hit("WriteStructEnd"); e != nil {
		return e
	}
	return f.TProtocol.WriteStructEnd()
}
func (f *failProto) WriteFieldBegin(n string, t thrift.TType, id int16) thrift.TProtocolException {
	if e := f.hit("WriteFieldBegin " + n); e != nil {
		return e
	}
	return f.TProtocol.WriteFieldBegin(n, t, id)
}
func (f *failProto) WriteFieldEnd() thrift.TProtocolException {
	if e := f.hit("WriteFieldEnd"); e != nil {
		return e
	}
	return f.TProtocol.WriteFieldEnd()
}
func (f *failProto) WriteFieldStop() thrift.TProtocolException {
	if e := f.hit("WriteFieldStop"); e != nil {
		return e
	}
	return f.TProtocol.WriteFieldStop()
}
func (f *failProto) WriteI32(v int32) thrift.TProtocolException {
	if e := f.hit("WriteI32"); e != nil {
		return e
	}
	return f.TProtocol.WriteI32(v)
}
func (f *failProto) WriteString(v string) thrift.TProtocolException {
	if e := f.hit("WriteString"); e != nil {
		return e
	}
	return f.TProtocol.WriteString(v)
}
func (f *failProto) Flush() thrift.TProtocolException {
	if e := f.hit("Flush"); e != nil {
		return e
	}
	return f.TProtocol.Flush()
}
func (f *failProto) ReadMessageBegin() (string, thrift.TMessageType, int32, thrift.TProtocolException) {
	if e := f.hit("ReadMessageBegin"); e != nil {
		return "", 0, 0, e
	}
	return f.TProtocol.ReadMessageBegin()
}
func (f *failProto) ReadMessageEnd() thrift.TProtocolException {
	if e := f.hit("ReadMessageEnd"); e != nil {
		return e
	}
	return f.TProtocol.ReadMessageEnd()
}
func (f *failProto) ReadStructBegin() (string, thrift.TProtocolException) {
	if e := f.hit("ReadStructBegin"); e != nil {
		return "", e
	}
	return f.TProtocol.ReadStructBegin()
}
func (f *failProto) ReadStructEnd() thrift.TProtocolException {
	if e := f.hit("ReadStructEnd"); e != nil {
		return e
	}
	return f.TProtocol.ReadStructEnd()
}
func (f *failProto) ReadFieldBegin() (string, thrift.TType, int16, thrift.TProtocolException) {
	if e := f.hit("ReadFieldBegin"); e != nil {
		return "", thrift.STOP, 0, e
	}
	return f.TProtocol.ReadFieldBegin()
}
func (f *failProto) ReadFieldEnd() thrift.TProtocolException {
	if e := f.hit("ReadFieldEnd"); e != nil {
		return e
	}
	return f.TProtocol.ReadFieldEnd()
}
func (f *failProto) ReadI32() (int32, thrift.TProtocolException) {
	if e := f.hit("ReadI32"); e != nil {
		return 0, e
	}
	return f.TProtocol.ReadI32()
}
func (f *failProto) ReadString() (string, thrift.TProtocolException) {
	if e := f.hit("ReadString"); e != nil {
		return "", e
	}
	return f.TProtocol.ReadString()
}
func (f *failProto) Skip(t thrift.TType) thrift.TProtocolException {
	if e := f.hit("Skip"); e != nil {
		return e
	}
	return f.TProtocol.Skip(t)
}

// ---------------------------------------------------------------- C17

type errState struct {
	e     error // nil: nothing
	typed bool  // carries an int type code (transport or protocol exception)
	typ   int
	kind  string // plain, eof, base64, app
	msg   string
}

func (s errState) String() string {
	if s.e == nil {
		return "nothing"
	}
	if s.typed {
		return fmt.Sprintf("typed(%d,%s)", s.typ, shortQ(s.msg))
	}
	return fmt.Sprintf("%s(%s)", s.kind, shortQ(s.msg))
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// ownTyped is somebody else's exception with a type code.
type ownTyped struct{ t int }

func (o ownTyped) Error() string { return "own" }
func (o ownTyped) TypeId() int   { return o.t }

func runC17(c *Ctx) {
	c.Rule("states = distinct (error, chain of conversions); transitions = conversions; every chain within the depth is executed on the real constructors and compared with a model of the categories")
	var starts []errState
	plain := func(e error) { starts = append(starts, errState{e: e, kind: "plain", msg: e.Error()}) }
	starts = append(starts, errState{})
	for _, m := range []string{"", "boom", "EOF", "unexpected EOF", "illegal base64 data at input byte 4", "é\"\n%s%d"} {
		plain(errors.New(m))
		plain(thrift.NewTException(m))
		for ty := -1; ty <= 7; ty++ {
			a := thrift.NewTTransportException(ty, m)
			p := thrift.NewTProtocolException(ty, m)
			starts = append(starts, errState{e: a, typed: true, typ: ty, msg: m}, errState{e: p, typed: true, typ: ty, msg: m})
		}
		a := thrift.NewTApplicationException(4, m)
		starts = append(starts, errState{e: a, kind: "app", msg: m})
	}
	plain(io.ErrUnexpectedEOF)
	plain(io.ErrClosedPipe)
	plain(io.ErrShortWrite)
	plain(fmt.Errorf("reading: %w", io.EOF))
	plain(timeoutErr{})
	plain(&net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}})
	plain(&os.PathError{Op: "open", Path: "/x", Err: os.ErrNotExist})
	plain(&strconv.NumError{Func: "Atoi", Num: "x", Err: strconv.ErrSyntax})
	starts = append(starts, errState{e: io.EOF, kind: "eof", msg: "EOF"})
	for _, n := range []int64{0, 4, math.MaxInt64} {
		e := base64.CorruptInputError(n)
		starts = append(starts, errState{e: e, kind: "base64", msg: e.Error()})
	}
	for _, n := range []int{0, 3, 77} {
		starts = append(starts, errState{e: ownTyped{n}, typed: true, typ: n, msg: "own"})
	}
	type conv struct {
		name string
		do   func(t *T, s errState) (errState, bool) // false: does not apply
	}
	norm := func(e error, isNil bool) error {
		if isNil {
			return nil
		}
		return e
	}
	check := func(t *T, what string, s errState, got error, gotType int, wantSame, wantTyped bool, typ int) errState {
		if s.e == nil {
			if got != nil {
				t.Failf("nothing", "%s of nothing is %v", what, got)
			}
			return errState{}
		}
		if got == nil {
			t.Failf("lost", "%s of %v is nothing", what, s)
		}
		if got.Error() != s.msg {
			t.Failf("message", "%s of %v has the message %q", what, s, got.Error())
		}
		if wantSame {
			if got != s.e {
				t.Failf("same", "%s of %v, which has the category already, is another error", what, s)
			}
			return s
		}
		if gotType != typ {
			t.Failf("type", "%s of %v has type %d, want %d", what, s, gotType, typ)
		}
		return errState{e: got, typed: true, typ: typ, msg: s.msg}
	}
	convs := []conv{
		{"exception", func(t *T, s errState) (errState, bool) {
			g := thrift.NewTExceptionFromOsError(s.e)
			return check(t, "exception", s, norm(g, g == nil), 0, true, false, 0), true
		}},
		{"transport", func(t *T, s errState) (errState, bool) {
			g := thrift.NewTTransportExceptionFromOsError(s.e)
			ty, want := 0, thrift.UNKNOWN_TRANSPORT_EXCEPTION
			if g != nil {
				ty = g.TypeId()
			}
			if s.kind == "eof" {
				want = thrift.END_OF_FILE
			}
			return check(t, "transport exception", s, norm(g, g == nil), ty, s.typed, true, want), true
		}},
		{"protocol", func(t *T, s errState) (errState, bool) {
			g := thrift.NewTProtocolExceptionFromOsError(s.e)
			ty, want := 0, thrift.UNKNOWN_PROTOCOL_EXCEPTION
			if g != nil {
				ty = g.TypeId()
			}
			if s.kind == "base64" {
				want = thrift.INVALID_DATA
			}
			return check(t, "protocol exception", s, norm(g, g == nil), ty, s.typed, true, want), true
		}},
		{"protocol-of-transport", func(t *T, s errState) (errState, bool) {
			var te thrift.TTransportException
			if s.e != nil {
				var ok bool
				if te, ok = s.e.(thrift.TTransportException); !ok {
					return s, false
				}
			}
			g := thrift.NewTProtocolExceptionFromTransportException(te)
			return check(t, "protocol exception", s, norm(g, g == nil), 0, s.typed, true, 0), true
		}},
	}
	wrap := func(name string, do func(id int, f, st string, e thrift.TProtocolException) thrift.TProtocolException, field bool) {
		for _, a := range []struct {
			id    int
			f, st string
		}{{1, "alpha", "Struct"}, {-1, "STOP", "S"}, {32767, "f", "Long_name"}, {100, "é", "T"}} {
			a := a
			convs = append(convs, conv{fmt.Sprintf("%s(%d,%s,%s)", name, a.id, a.f, a.st), func(t *T, s errState) (errState, bool) {
				p, ok := s.e.(thrift.TProtocolException)
				if s.e == nil || !ok {
					return s, false
				}
				g := do(a.id, a.f, a.st, p)
				if g == nil {
					t.Failf("lost", "%s of %v is nothing", name, s)
				}
				want := s.typ
				if want == thrift.UNKNOWN_PROTOCOL_EXCEPTION {
					want = thrift.INVALID_DATA
				}
				if g.TypeId() != want {
					t.Failf("wrap-type", "%s of %v has type %d, want %d", name, s, g.TypeId(), want)
				}
				m := g.Error()
				more := func(x string) bool { return strings.Count(m, x) > strings.Count(s.msg, x) }
				if !strings.Contains(m, s.msg) || !more(a.st) {
					t.Failf("wrap-message", "%s of %v says %q", name, s, m)
				}
				if field && (!more(a.f) || !more(strconv.Itoa(a.id))) {
					t.Failf("wrap-message", "%s of %v says %q, which does not name field %d %s", name, s, m, a.id, a.f)
				}
				return errState{e: g, typed: true, typ: want, msg: m}, true
			}})
		}
	}
	wrap("read-field", func(id int, f, st string, e thrift.TProtocolException) thrift.TProtocolException {
		return thrift.NewTProtocolExceptionReadField(id, f, st, e)
	}, true)
	wrap("write-field", func(id int, f, st string, e thrift.TProtocolException) thrift.TProtocolException {
		return thrift.NewTProtocolExceptionWriteField(id, f, st, e)
	}, true)
	wrap("read-struct", func(id int, f, st string, e thrift.TProtocolException) thrift.TProtocolException {
		return thrift.NewTProtocolExceptionReadStruct(st, e)
	}, false)
	wrap("write-struct", func(id int, f, st string, e thrift.TProtocolException) thrift.TProtocolException {
		return thrift.NewTProtocolExceptionWriteStruct(st, e)
	}, false)
	depth := c.Pick(3, 4)
	c.Par("chains", len(starts), func(i int) string { return fmt.Sprintf("%d:%s", i, starts[i]) }, func(t *T, i int) {
		var rec func(s errState, name string, d int)
		rec = func(s errState, name string, d int) {
			for _, cv := range convs {
				t.Try(name+">"+cv.name, func() {
					n, ok := cv.do(t, s)
					if !ok {
						return
					}
					t.Ops(1)
					t.Trace()
					t.StateS(fmt.Sprint(i) + name + cv.name)
					if d > 1 {
						rec(n, name+">"+cv.name, d-1)
					}
				})
			}
		}
		rec(starts[i], "", depth)
	})
	c.Par("constructors", 1, nil, func(t *T, _ int) {
		for ty := -1; ty <= 9; ty++ {
			for _, m := range []string{"", "m"} {
				if e := thrift.NewTTransportException(ty, m); e.TypeId() != ty || e.Error() != m {
					t.Failf("constructor", "transport exception %d %q is %d %q", ty, m, e.TypeId(), e.Error())
				}
				if e := thrift.NewTProtocolException(ty, m); e.TypeId() != ty || e.Error() != m {
					t.Failf("constructor", "protocol exception %d %q is %d %q", ty, m, e.TypeId(), e.Error())
				}
				if e := thrift.NewTTransportExceptionDefaultString(m); e.TypeId() != 0 || e.Error() != m {
					t.Failf("constructor", "transport exception %q is %d %q", m, e.TypeId(), e.Error())
				}
				if e := thrift.NewTProtocolExceptionDefaultString(m); e.TypeId() != 0 || e.Error() != m {
					t.Failf("constructor", "protocol exception %q is %d %q", m, e.TypeId(), e.Error())
				}
				if e := thrift.NewTException(m); e.Error() != m {
					t.Failf("constructor", "exception %q is %q", m, e.Error())
				}
			}
			if e := thrift.NewTTransportExceptionDefaultType(ty); e.TypeId() != ty {
				t.Failf("constructor", "transport exception %d is %d", ty, e.TypeId())
			}
			if e := thrift.NewTProtocolExceptionDefaultType(ty); e.TypeId() != ty {
				t.Failf("constructor", "protocol exception %d is %d", ty, e.TypeId())
			}
		}
		if e := thrift.NewTTransportExceptionDefault(); e.TypeId() != 0 {
			t.Failf("constructor", "default transport exception has type %d", e.TypeId())
		}
		if e := thrift.NewTProtocolExceptionDefault(); e.TypeId() != 0 {
			t.Failf("constructor", "default protocol exception has type %d", e.TypeId())
		}
	})
}
