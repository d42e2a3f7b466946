package main

import (
	"fmt"
	"thrift"
)

// logProto tells of every call of a protocol, its results, and lets one of
// them fail.
type logProto struct {
	in     thrift.TProtocol
	tr     thrift.TTransport
	log    *[]string
	n      *int
	failAt int
}

func (l *logProto) step(name string, args ...interface{}) thrift.TProtocolException {
	*l.log = append(*l.log, name+fmt.Sprintf("%v", args))
	*l.n++
	if *l.n-1 == l.failAt {
		*l.log = append(*l.log, "fails")
		return thrift.NewTProtocolException(thrift.INVALID_DATA, "injected fault")
	}
	return nil
}

func (l *logProto) done(err thrift.TProtocolException, rs ...interface{}) {
	s := fmt.Sprintf("-> %v", rs)
	if err != nil {
		s += fmt.Sprintf(" %T %v", err, err)
	}
	*l.log = append(*l.log, s)
}

func (l *logProto) Transport() thrift.TTransport { return logTrans{l.tr, l} }

// logTrans does the same for flushes.
type logTrans struct {
	thrift.TTransport
	l *logProto
}

func (t logTrans) Flush() error {
	if err := t.l.step("transport flush"); err != nil {
		return err
	}
	return t.TTransport.Flush()
}

func (l *logProto) WriteMessageBegin(a0 string, a1 thrift.TMessageType, a2 int32) (err thrift.TProtocolException) {
	if err = l.step("WriteMessageBegin", a0, a1, a2); err == nil {
		err = l.in.WriteMessageBegin(a0, a1, a2)
		l.done(err)
	}
	return
}

func (l *logProto) WriteMessageEnd() (err thrift.TProtocolException) {
	if err = l.step("WriteMessageEnd"); err == nil {
		err = l.in.WriteMessageEnd()
		l.done(err)
	}
	return
}

func (l *logProto) WriteStructBegin(a0 string) (err thrift.TProtocolException) {
	if err = l.step("WriteStructBegin", a0); err == nil {
		err = l.in.WriteStructBegin(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteStructEnd() (err thrift.TProtocolException) {
	if err = l.step("WriteStructEnd"); err == nil {
		err = l.in.WriteStructEnd()
		l.done(err)
	}
	return
}

func (l *logProto) WriteFieldBegin(a0 string, a1 thrift.TType, a2 int16) (err thrift.TProtocolException) {
	if err = l.step("WriteFieldBegin", a0, a1, a2); err == nil {
		err = l.in.WriteFieldBegin(a0, a1, a2)
		l.done(err)
	}
	return
}

func (l *logProto) WriteFieldEnd() (err thrift.TProtocolException) {
	if err = l.step("WriteFieldEnd"); err == nil {
		err = l.in.WriteFieldEnd()
		l.done(err)
	}
	return
}

func (l *logProto) WriteFieldStop() (err thrift.TProtocolException) {
	if err = l.step("WriteFieldStop"); err == nil {
		err = l.in.WriteFieldStop()
		l.done(err)
	}
	return
}

func (l *logProto) WriteMapBegin(a0 thrift.TType, a1 thrift.TType, a2 int) (err thrift.TProtocolException) {
	if err = l.step("WriteMapBegin", a0, a1, a2); err == nil {
		err = l.in.WriteMapBegin(a0, a1, a2)
		l.done(err)
	}
	return
}

func (l *logProto) WriteMapEnd() (err thrift.TProtocolException) {
	if err = l.step("WriteMapEnd"); err == nil {
		err = l.in.WriteMapEnd()
		l.done(err)
	}
	return
}

func (l *logProto) WriteListBegin(a0 thrift.TType, a1 int) (err thrift.TProtocolException) {
	if err = l.step("WriteListBegin", a0, a1); err == nil {
		err = l.in.WriteListBegin(a0, a1)
		l.done(err)
	}
	return
}

func (l *logProto) WriteListEnd() (err thrift.TProtocolException) {
	if err = l.step("WriteListEnd"); err == nil {
		err = l.in.WriteListEnd()
		l.done(err)
	}
	return
}

func (l *logProto) WriteSetBegin(a0 thrift.TType, a1 int) (err thrift.TProtocolException) {
	if err = l.step("WriteSetBegin", a0, a1); err == nil {
		err = l.in.WriteSetBegin(a0, a1)
		l.done(err)
	}
	return
}

func (l *logProto) WriteSetEnd() (err thrift.TProtocolException) {
	if err = l.step("WriteSetEnd"); err == nil {
		err = l.in.WriteSetEnd()
		l.done(err)
	}
	return
}

func (l *logProto) WriteBool(a0 bool) (err thrift.TProtocolException) {
	if err = l.step("WriteBool", a0); err == nil {
		err = l.in.WriteBool(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteByte(a0 byte) (err thrift.TProtocolException) {
	if err = l.step("WriteByte", a0); err == nil {
		err = l.in.WriteByte(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteI16(a0 int16) (err thrift.TProtocolException) {
	if err = l.step("WriteI16", a0); err == nil {
		err = l.in.WriteI16(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteI32(a0 int32) (err thrift.TProtocolException) {
	if err = l.step("WriteI32", a0); err == nil {
		err = l.in.WriteI32(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteI64(a0 int64) (err thrift.TProtocolException) {
	if err = l.step("WriteI64", a0); err == nil {
		err = l.in.WriteI64(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteDouble(a0 float64) (err thrift.TProtocolException) {
	if err = l.step("WriteDouble", a0); err == nil {
		err = l.in.WriteDouble(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteString(a0 string) (err thrift.TProtocolException) {
	if err = l.step("WriteString", a0); err == nil {
		err = l.in.WriteString(a0)
		l.done(err)
	}
	return
}

func (l *logProto) WriteBinary(a0 []byte) (err thrift.TProtocolException) {
	if err = l.step("WriteBinary", a0); err == nil {
		err = l.in.WriteBinary(a0)
		l.done(err)
	}
	return
}

func (l *logProto) ReadMessageBegin() (r0 string, r1 thrift.TMessageType, r2 int32, err thrift.TProtocolException) {
	if err = l.step("ReadMessageBegin"); err == nil {
		r0, r1, r2, err = l.in.ReadMessageBegin()
		l.done(err, r0, r1, r2)
	}
	return
}

func (l *logProto) ReadMessageEnd() (err thrift.TProtocolException) {
	if err = l.step("ReadMessageEnd"); err == nil {
		err = l.in.ReadMessageEnd()
		l.done(err)
	}
	return
}

func (l *logProto) ReadStructBegin() (r0 string, err thrift.TProtocolException) {
	if err = l.step("ReadStructBegin"); err == nil {
		r0, err = l.in.ReadStructBegin()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadStructEnd() (err thrift.TProtocolException) {
	if err = l.step("ReadStructEnd"); err == nil {
		err = l.in.ReadStructEnd()
		l.done(err)
	}
	return
}

func (l *logProto) ReadFieldBegin() (r0 string, r1 thrift.TType, r2 int16, err thrift.TProtocolException) {
	if err = l.step("ReadFieldBegin"); err == nil {
		r0, r1, r2, err = l.in.ReadFieldBegin()
		l.done(err, r0, r1, r2)
	}
	return
}

func (l *logProto) ReadFieldEnd() (err thrift.TProtocolException) {
	if err = l.step("ReadFieldEnd"); err == nil {
		err = l.in.ReadFieldEnd()
		l.done(err)
	}
	return
}

func (l *logProto) ReadMapBegin() (r0 thrift.TType, r1 thrift.TType, r2 int, err thrift.TProtocolException) {
	if err = l.step("ReadMapBegin"); err == nil {
		r0, r1, r2, err = l.in.ReadMapBegin()
		l.done(err, r0, r1, r2)
	}
	return
}

func (l *logProto) ReadMapEnd() (err thrift.TProtocolException) {
	if err = l.step("ReadMapEnd"); err == nil {
		err = l.in.ReadMapEnd()
		l.done(err)
	}
	return
}

func (l *logProto) ReadListBegin() (r0 thrift.TType, r1 int, err thrift.TProtocolException) {
	if err = l.step("ReadListBegin"); err == nil {
		r0, r1, err = l.in.ReadListBegin()
		l.done(err, r0, r1)
	}
	return
}

func (l *logProto) ReadListEnd() (err thrift.TProtocolException) {
	if err = l.step("ReadListEnd"); err == nil {
		err = l.in.ReadListEnd()
		l.done(err)
	}
	return
}

func (l *logProto) ReadSetBegin() (r0 thrift.TType, r1 int, err thrift.TProtocolException) {
	if err = l.step("ReadSetBegin"); err == nil {
		r0, r1, err = l.in.ReadSetBegin()
		l.done(err, r0, r1)
	}
	return
}

func (l *logProto) ReadSetEnd() (err thrift.TProtocolException) {
	if err = l.step("ReadSetEnd"); err == nil {
		err = l.in.ReadSetEnd()
		l.done(err)
	}
	return
}

func (l *logProto) ReadBool() (r0 bool, err thrift.TProtocolException) {
	if err = l.step("ReadBool"); err == nil {
		r0, err = l.in.ReadBool()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadByte() (r0 byte, err thrift.TProtocolException) {
	if err = l.step("ReadByte"); err == nil {
		r0, err = l.in.ReadByte()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadI16() (r0 int16, err thrift.TProtocolException) {
	if err = l.step("ReadI16"); err == nil {
		r0, err = l.in.ReadI16()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadI32() (r0 int32, err thrift.TProtocolException) {
	if err = l.step("ReadI32"); err == nil {
		r0, err = l.in.ReadI32()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadI64() (r0 int64, err thrift.TProtocolException) {
	if err = l.step("ReadI64"); err == nil {
		r0, err = l.in.ReadI64()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadDouble() (r0 float64, err thrift.TProtocolException) {
	if err = l.step("ReadDouble"); err == nil {
		r0, err = l.in.ReadDouble()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadString() (r0 string, err thrift.TProtocolException) {
	if err = l.step("ReadString"); err == nil {
		r0, err = l.in.ReadString()
		l.done(err, r0)
	}
	return
}

func (l *logProto) ReadBinary() (r0 []byte, err thrift.TProtocolException) {
	if err = l.step("ReadBinary"); err == nil {
		r0, err = l.in.ReadBinary()
		l.done(err, r0)
	}
	return
}

func (l *logProto) Skip(a0 thrift.TType) (err thrift.TProtocolException) {
	if err = l.step("Skip", a0); err == nil {
		err = l.in.Skip(a0)
		l.done(err)
	}
	return
}

func (l *logProto) Flush() (err thrift.TProtocolException) {
	if err = l.step("Flush"); err == nil {
		err = l.in.Flush()
		l.done(err)
	}
	return
}
