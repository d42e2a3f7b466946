package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"thrift"
)

// Wire types, stated here independently of the library.
const (
	tSTOP   = 0
	tVOID   = 1
	tBOOL   = 2
	tBYTE   = 3
	tDOUBLE = 4
	tI16    = 6
	tI32    = 8
	tI64    = 10
	tSTRING = 11
	tSTRUCT = 12
	tMAP    = 13
	tSET    = 14
	tLIST   = 15
	tBINARY = 18 // library pseudo type: string on the wire
)

var scalarTypes = []byte{tBOOL, tBYTE, tI16, tI32, tI64, tDOUBLE, tSTRING, tBINARY}

// Val is one Thrift value.
type Val struct {
	T      byte
	I      int64 // bool, byte, i16, i32, i64
	F      float64
	S      string // string, binary
	Fields []Field
	KT, VT byte  // element types (list/set use VT)
	E      []Val // list/set elements; map: key, value, key, value...
}
type Field struct {
	ID   int16
	Name string
	V    Val
}
type Msg struct {
	Name string
	Type int32
	Seq  int32
	Body Val
}

func vBool(b bool) Val {
	if b {
		return Val{T: tBOOL, I: 1}
	}
	return Val{T: tBOOL}
}
func vByte(b byte) Val             { return Val{T: tBYTE, I: int64(b)} }
func vI16(i int16) Val             { return Val{T: tI16, I: int64(i)} }
func vI32(i int32) Val             { return Val{T: tI32, I: int64(i)} }
func vI64(i int64) Val             { return Val{T: tI64, I: i} }
func vDbl(f float64) Val           { return Val{T: tDOUBLE, F: f} }
func vStr(s string) Val            { return Val{T: tSTRING, S: s} }
func vBin(s string) Val            { return Val{T: tBINARY, S: s} }
func vList(t byte, e ...Val) Val   { return Val{T: tLIST, VT: t, E: e} }
func vSet(t byte, e ...Val) Val    { return Val{T: tSET, VT: t, E: e} }
func vMap(k, v byte, e ...Val) Val { return Val{T: tMAP, KT: k, VT: v, E: e} }
func vStruct(f ...Field) Val       { return Val{T: tSTRUCT, Fields: f} }
func fld(id int16, v Val) Field    { return Field{ID: id, Name: "f" + strconv.Itoa(int(id)), V: v} }
func wireT(t byte) byte {
	if t == tBINARY {
		return tSTRING
	}
	return t
}

func (v Val) String() string {
	var b strings.Builder
	v.str(&b)
	return b.String()
}

func shortQ(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q..(%d)", s[:20], len(s))
	}
	return strconv.Quote(s)
}

func (v Val) str(b *strings.Builder) {
	switch v.T {
	case tBOOL:
		fmt.Fprintf(b, "%v", v.I != 0)
	case tBYTE:
		fmt.Fprintf(b, "%db", v.I)
	case tI16:
		fmt.Fprintf(b, "%ds", v.I)
	case tI32:
		fmt.Fprintf(b, "%di", v.I)
	case tI64:
		fmt.Fprintf(b, "%dl", v.I)
	case tDOUBLE:
		fmt.Fprintf(b, "%vd", v.F)
	case tSTRING:
		b.WriteString(shortQ(v.S))
	case tBINARY:
		b.WriteString("bin" + shortQ(v.S))
	case tSTRUCT:
		b.WriteString("{")
		for i, f := range v.Fields {
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(b, "%d:", f.ID)
			f.V.str(b)
		}
		b.WriteString("}")
	case tLIST, tSET, tMAP:
		n := map[byte]string{tLIST: "list", tSET: "set", tMAP: "map"}[v.T]
		if v.T == tMAP {
			fmt.Fprintf(b, "%s<%d,%d>[", n, v.KT, v.VT)
		} else {
			fmt.Fprintf(b, "%s<%d>[", n, v.VT)
		}
		for i, e := range v.E {
			if i > 12 {
				fmt.Fprintf(b, "..(%d)", len(v.E))
				break
			}
			if i > 0 {
				b.WriteString(",")
			}
			e.str(b)
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "T%d", v.T)
	}
}

func (m Msg) String() string {
	return fmt.Sprintf("msg(%s,%d,%d)%s", shortQ(m.Name), m.Type, m.Seq, m.Body)
}

func (v Val) nodes() int {
	n := 1
	for _, f := range v.Fields {
		n += f.V.nodes()
	}
	for _, e := range v.E {
		n += e.nodes()
	}
	return n
}

// ---- driving the library's writer ----

type opErr struct {
	op  string
	err error
}

func (o *opErr) Error() string { return o.op + ": " + o.err.Error() }

func we(op string, e thrift.TProtocolException) *opErr {
	if e == nil {
		return nil
	}
	return &opErr{op, e}
}

func tt(t byte) thrift.TType { return thrift.TType(t) }

// writeVal writes v; the first error ends it.
func writeVal(p thrift.TProtocol, v Val) *opErr {
	switch v.T {
	case tBOOL:
		return we("WriteBool", p.WriteBool(v.I != 0))
	case tBYTE:
		return we("WriteByte", p.WriteByte(byte(v.I)))
	case tI16:
		return we("WriteI16", p.WriteI16(int16(v.I)))
	case tI32:
		return we("WriteI32", p.WriteI32(int32(v.I)))
	case tI64:
		return we("WriteI64", p.WriteI64(v.I))
	case tDOUBLE:
		return we("WriteDouble", p.WriteDouble(v.F))
	case tSTRING:
		return we("WriteString", p.WriteString(v.S))
	case tBINARY:
		return we("WriteBinary", p.WriteBinary([]byte(v.S)))
	case tSTRUCT:
		if e := we("WriteStructBegin", p.WriteStructBegin("S")); e != nil {
			return e
		}
		for _, f := range v.Fields {
			if e := we("WriteFieldBegin", p.WriteFieldBegin(f.Name, tt(f.V.T), f.ID)); e != nil {
				return e
			}
			if e := writeVal(p, f.V); e != nil {
				return e
			}
			if e := we("WriteFieldEnd", p.WriteFieldEnd()); e != nil {
				return e
			}
		}
		if e := we("WriteFieldStop", p.WriteFieldStop()); e != nil {
			return e
		}
		return we("WriteStructEnd", p.WriteStructEnd())
	case tLIST, tSET:
		var e *opErr
		if v.T == tLIST {
			e = we("WriteListBegin", p.WriteListBegin(tt(v.VT), len(v.E)))
		} else {
			e = we("WriteSetBegin", p.WriteSetBegin(tt(v.VT), len(v.E)))
		}
		if e != nil {
			return e
		}
		for _, x := range v.E {
			if e := writeVal(p, x); e != nil {
				return e
			}
		}
		if v.T == tLIST {
			return we("WriteListEnd", p.WriteListEnd())
		}
		return we("WriteSetEnd", p.WriteSetEnd())
	case tMAP:
		if e := we("WriteMapBegin", p.WriteMapBegin(tt(v.KT), tt(v.VT), len(v.E)/2)); e != nil {
			return e
		}
		for _, x := range v.E {
			if e := writeVal(p, x); e != nil {
				return e
			}
		}
		return we("WriteMapEnd", p.WriteMapEnd())
	}
	panic("bad type")
}

func writeMsg(p thrift.TProtocol, m Msg) *opErr {
	if e := we("WriteMessageBegin", p.WriteMessageBegin(m.Name, thrift.TMessageType(m.Type), m.Seq)); e != nil {
		return e
	}
	if e := writeVal(p, m.Body); e != nil {
		return e
	}
	if e := we("WriteMessageEnd", p.WriteMessageEnd()); e != nil {
		return e
	}
	return we("Flush", p.Flush())
}

// ---- driving the library's reader, comparing with the expected value ----

// proto describes what a protocol carries on the wire.
type proto struct {
	name          string
	fieldNames    bool // field names instead of ids
	mk            func(t thrift.TTransport) thrift.TProtocol
	emptyMapTypes bool // an empty map carries its element types
	rawTypes      bool // element types are carried as the type given (BINARY stays 18)
}

var (
	pBin  = &proto{name: "binary", emptyMapTypes: true, mk: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocolTransport(t) }}
	pComp = &proto{name: "compact", mk: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTCompactProtocol(t) }}
	pJSON = &proto{name: "json", emptyMapTypes: true, mk: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTJSONProtocol(t) }}
	pSimp = &proto{name: "simplejson", emptyMapTypes: true, fieldNames: true, rawTypes: true, mk: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTSimpleJSONProtocol(t) }}
)
var allProtos = []*proto{pBin, pComp, pJSON, pSimp}

// mism is a difference between what was written and what was read.
type mism struct{ msg string }

func (m *mism) Error() string { return m.msg }

// elemT is the element type a reader must see for a declared type, where the
// JSON protocols may carry list element types as the number given.
func (pr *proto) elemOK(got thrift.TType, want byte) bool {
	if byte(got) == wireT(want) {
		return true
	}
	return want == tBINARY && byte(got) == tBINARY && (pr.rawTypes || pr.name == "json")
}

func (pr *proto) readLike(p thrift.TProtocol, v Val) error {
	mis := func(f string, a ...interface{}) error { return &mism{fmt.Sprintf(f, a...)} }
	oe := func(op string, e thrift.TProtocolException) error {
		if e == nil {
			return nil
		}
		return &opErr{op, e}
	}
	switch v.T {
	case tBOOL:
		g, e := p.ReadBool()
		if e != nil {
			return oe("ReadBool", e)
		}
		if g != (v.I != 0) {
			return mis("bool: wrote %v read %v", v.I != 0, g)
		}
	case tBYTE:
		g, e := p.ReadByte()
		if e != nil {
			return oe("ReadByte", e)
		}
		if g != byte(v.I) {
			return mis("byte: wrote %v read %v", v.I, g)
		}
	case tI16:
		g, e := p.ReadI16()
		if e != nil {
			return oe("ReadI16", e)
		}
		if g != int16(v.I) {
			return mis("i16: wrote %v read %v", v.I, g)
		}
	case tI32:
		g, e := p.ReadI32()
		if e != nil {
			return oe("ReadI32", e)
		}
		if g != int32(v.I) {
			return mis("i32: wrote %v read %v", v.I, g)
		}
	case tI64:
		g, e := p.ReadI64()
		if e != nil {
			return oe("ReadI64", e)
		}
		if g != v.I {
			return mis("i64: wrote %v read %v", v.I, g)
		}
	case tDOUBLE:
		g, e := p.ReadDouble()
		if e != nil {
			return oe("ReadDouble", e)
		}
		same := math.Float64bits(g) == math.Float64bits(v.F)
		if math.IsNaN(g) && math.IsNaN(v.F) && (pr == pJSON || pr == pSimp) {
			same = true
		}
		if !same {
			return mis("double: wrote %v (%x) read %v (%x)", v.F, math.Float64bits(v.F), g, math.Float64bits(g))
		}
	case tSTRING:
		g, e := p.ReadString()
		if e != nil {
			return oe("ReadString", e)
		}
		if g != v.S {
			return mis("string: wrote %s read %s", shortQ(v.S), shortQ(g))
		}
	case tBINARY:
		g, e := p.ReadBinary()
		if e != nil {
			return oe("ReadBinary", e)
		}
		if !bytes.Equal(g, []byte(v.S)) {
			return mis("binary: wrote %s read %s", shortQ(v.S), shortQ(string(g)))
		}
	case tSTRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return oe("ReadStructBegin", e)
		}
		for _, f := range v.Fields {
			name, t, id, e := p.ReadFieldBegin()
			if e != nil {
				return oe("ReadFieldBegin", e)
			}
			if pr.fieldNames {
				if t == tSTOP || name != f.Name {
					return mis("field: wrote name %q read name %q type %d", f.Name, name, t)
				}
			} else if byte(t) != wireT(f.V.T) || id != f.ID {
				return mis("field: wrote id %d type %d, read id %d type %d", f.ID, wireT(f.V.T), id, t)
			}
			if err := pr.readLike(p, f.V); err != nil {
				return err
			}
			if e := p.ReadFieldEnd(); e != nil {
				return oe("ReadFieldEnd", e)
			}
		}
		_, t, _, e := p.ReadFieldBegin()
		if e != nil {
			return oe("ReadFieldBegin(stop)", e)
		}
		if t != tSTOP {
			return mis("expected end of struct, read field of type %d", t)
		}
		if e := p.ReadStructEnd(); e != nil {
			return oe("ReadStructEnd", e)
		}
	case tLIST, tSET:
		var t thrift.TType
		var n int
		var e thrift.TProtocolException
		if v.T == tLIST {
			t, n, e = p.ReadListBegin()
		} else {
			t, n, e = p.ReadSetBegin()
		}
		if e != nil {
			return oe("ReadListBegin", e)
		}
		if n != len(v.E) || !pr.elemOK(t, v.VT) {
			return mis("list/set: wrote %d elements of type %d, read %d of type %d", len(v.E), wireT(v.VT), n, t)
		}
		for _, x := range v.E {
			if err := pr.readLike(p, x); err != nil {
				return err
			}
		}
		if v.T == tLIST {
			e = p.ReadListEnd()
		} else {
			e = p.ReadSetEnd()
		}
		if e != nil {
			return oe("ReadListEnd", e)
		}
	case tMAP:
		kt, vt, n, e := p.ReadMapBegin()
		if e != nil {
			return oe("ReadMapBegin", e)
		}
		if n != len(v.E)/2 {
			return mis("map: wrote %d entries, read %d", len(v.E)/2, n)
		}
		if n > 0 || pr.emptyMapTypes {
			if !pr.elemOK(kt, v.KT) || !pr.elemOK(vt, v.VT) {
				return mis("map: wrote types %d,%d read %d,%d", wireT(v.KT), wireT(v.VT), kt, vt)
			}
		}
		for _, x := range v.E {
			if err := pr.readLike(p, x); err != nil {
				return err
			}
		}
		if e := p.ReadMapEnd(); e != nil {
			return oe("ReadMapEnd", e)
		}
	default:
		panic("bad type")
	}
	return nil
}

func (pr *proto) readMsgLike(p thrift.TProtocol, m Msg) error {
	name, ty, seq, e := p.ReadMessageBegin()
	if e != nil {
		return &opErr{"ReadMessageBegin", e}
	}
	if name != m.Name || int32(ty) != m.Type || seq != m.Seq {
		return &mism{fmt.Sprintf("header: wrote (%s,%d,%d) read (%s,%d,%d)", shortQ(m.Name), m.Type, m.Seq, shortQ(name), ty, seq)}
	}
	if err := pr.readLike(p, m.Body); err != nil {
		return err
	}
	if e := p.ReadMessageEnd(); e != nil {
		return &opErr{"ReadMessageEnd", e}
	}
	return nil
}

// ---- reading without expectation (robustness checks) ----

// anyBudget limits a free read.
type anyBudget struct{ ops int }

type budgetErr struct{}

func (budgetErr) Error() string { return "budget exhausted" }

// readAny reads a value of type t the way a dynamic reader would.
func readAny(p thrift.TProtocol, t byte, depth int, bud *anyBudget) (err error) {
	bud.ops--
	if bud.ops < 0 || depth > 200 {
		return budgetErr{}
	}
	cv := func(e thrift.TProtocolException) error {
		if e == nil {
			return nil
		}
		return e
	}
	switch t {
	case tBOOL:
		_, e := p.ReadBool()
		return cv(e)
	case tBYTE:
		_, e := p.ReadByte()
		return cv(e)
	case tI16:
		_, e := p.ReadI16()
		return cv(e)
	case tI32:
		_, e := p.ReadI32()
		return cv(e)
	case tI64:
		_, e := p.ReadI64()
		return cv(e)
	case tDOUBLE:
		_, e := p.ReadDouble()
		return cv(e)
	case tSTRING:
		_, e := p.ReadString()
		return cv(e)
	case tBINARY:
		_, e := p.ReadBinary()
		return cv(e)
	case tSTRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return e
		}
		for {
			_, ft, _, e := p.ReadFieldBegin()
			if e != nil {
				return e
			}
			if ft == tSTOP {
				break
			}
			if err := readAny(p, byte(ft), depth+1, bud); err != nil {
				return err
			}
			if e := p.ReadFieldEnd(); e != nil {
				return e
			}
		}
		return cv(p.ReadStructEnd())
	case tLIST, tSET:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if t == tLIST {
			et, n, e = p.ReadListBegin()
		} else {
			et, n, e = p.ReadSetBegin()
		}
		if e != nil {
			return e
		}
		negSize(n)
		for i := 0; i < n; i++ {
			if err := readAny(p, byte(et), depth+1, bud); err != nil {
				return err
			}
		}
		if t == tLIST {
			return cv(p.ReadListEnd())
		}
		return cv(p.ReadSetEnd())
	case tMAP:
		kt, vt, n, e := p.ReadMapBegin()
		if e != nil {
			return e
		}
		negSize(n)
		for i := 0; i < n; i++ {
			if err := readAny(p, byte(kt), depth+1, bud); err != nil {
				return err
			}
			if err := readAny(p, byte(vt), depth+1, bud); err != nil {
				return err
			}
		}
		return cv(p.ReadMapEnd())
	}
	return fmt.Errorf("unknown type %d", t)
}

func negSize(n int) {
	if n < 0 {
		panic(failure{"negative-size", fmt.Sprintf("a container header was read with size %d and no error", n)})
	}
}
