package main

import (
	"encoding/binary"
	"math"
)

// Reference encoders, written from the Thrift protocol specifications.

type refBin struct{ b []byte }

func (r *refBin) i32(v int32) { r.b = binary.BigEndian.AppendUint32(r.b, uint32(v)) }
func (r *refBin) str(s string) {
	r.i32(int32(len(s)))
	r.b = append(r.b, s...)
}
func (r *refBin) val(v Val) {
	switch v.T {
	case tBOOL:
		if v.I != 0 {
			r.b = append(r.b, 1)
		} else {
			r.b = append(r.b, 0)
		}
	case tBYTE:
		r.b = append(r.b, byte(v.I))
	case tI16:
		r.b = binary.BigEndian.AppendUint16(r.b, uint16(v.I))
	case tI32:
		r.i32(int32(v.I))
	case tI64:
		r.b = binary.BigEndian.AppendUint64(r.b, uint64(v.I))
	case tDOUBLE:
		r.b = binary.BigEndian.AppendUint64(r.b, math.Float64bits(v.F))
	case tSTRING, tBINARY:
		r.str(v.S)
	case tSTRUCT:
		for _, f := range v.Fields {
			r.b = append(r.b, wireT(f.V.T))
			r.b = binary.BigEndian.AppendUint16(r.b, uint16(f.ID))
			r.val(f.V)
		}
		r.b = append(r.b, 0)
	case tLIST, tSET:
		r.b = append(r.b, wireT(v.VT))
		r.i32(int32(len(v.E)))
		for _, e := range v.E {
			r.val(e)
		}
	case tMAP:
		r.b = append(r.b, wireT(v.KT), wireT(v.VT))
		r.i32(int32(len(v.E) / 2))
		for _, e := range v.E {
			r.val(e)
		}
	default:
		panic("bad type")
	}
}
func (r *refBin) msg(m Msg, strict bool) {
	if strict {
		r.b = append(r.b, 0x80, 0x01, 0, byte(m.Type))
		r.str(m.Name)
		r.i32(m.Seq)
	} else {
		r.str(m.Name)
		r.b = append(r.b, byte(m.Type))
		r.i32(m.Seq)
	}
	r.val(m.Body)
}
func encBin(v Val) []byte            { r := &refBin{}; r.val(v); return r.b }
func encBinMsg(m Msg, s bool) []byte { r := &refBin{}; r.msg(m, s); return r.b }

// refComp: compact protocol. The options select other legal encodings.
type refComp struct {
	b         []byte
	last      []int
	longID    bool // always write field ids in the long form
	longSize  bool // always write collection sizes in the long form
	boolTwo   bool // boolean elements as type 2 (some implementations) instead of 1
	falseZero bool // boolean false elements as 0 (newer specifications) instead of 2
}

var compT = map[byte]byte{tBOOL: 1, tBYTE: 3, tI16: 4, tI32: 5, tI64: 6, tDOUBLE: 7, tSTRING: 8, tBINARY: 8, tLIST: 9, tSET: 10, tMAP: 11, tSTRUCT: 12}

func (r *refComp) uv(u uint64) {
	for u >= 0x80 {
		r.b = append(r.b, byte(u)|0x80)
		u >>= 7
	}
	r.b = append(r.b, byte(u))
}
func (r *refComp) elemT(t byte) byte {
	if t == tBOOL && r.boolTwo {
		return 2
	}
	return compT[t]
}
func zz(i int64) uint64 { return uint64(i<<1) ^ uint64(i>>63) }
func (r *refComp) str(s string) {
	r.uv(uint64(len(s)))
	r.b = append(r.b, s...)
}
func (r *refComp) val(v Val) {
	switch v.T {
	case tBOOL:
		if v.I != 0 {
			r.b = append(r.b, 1)
		} else if r.falseZero {
			r.b = append(r.b, 0)
		} else {
			r.b = append(r.b, 2)
		}
	case tBYTE:
		r.b = append(r.b, byte(v.I))
	case tI16, tI32, tI64:
		r.uv(zz(v.I))
	case tDOUBLE:
		r.b = binary.LittleEndian.AppendUint64(r.b, math.Float64bits(v.F))
	case tSTRING, tBINARY:
		r.str(v.S)
	case tSTRUCT:
		last := 0
		for _, f := range v.Fields {
			ct := compT[f.V.T]
			if f.V.T == tBOOL && f.V.I == 0 {
				ct = 2
			}
			d := int(f.ID) - last
			if d >= 1 && d <= 15 && !r.longID {
				r.b = append(r.b, byte(d<<4)|ct)
			} else {
				r.b = append(r.b, ct)
				r.uv(zz(int64(f.ID)))
			}
			last = int(f.ID)
			if f.V.T != tBOOL {
				r.val(f.V)
			}
		}
		r.b = append(r.b, 0)
	case tLIST, tSET:
		n := len(v.E)
		if n <= 14 && !r.longSize {
			r.b = append(r.b, byte(n<<4)|r.elemT(v.VT))
		} else {
			r.b = append(r.b, 0xf0|r.elemT(v.VT))
			r.uv(uint64(n))
		}
		for _, e := range v.E {
			r.val(e)
		}
	case tMAP:
		n := len(v.E) / 2
		r.uv(uint64(n))
		if n > 0 {
			r.b = append(r.b, r.elemT(v.KT)<<4|r.elemT(v.VT))
			for _, e := range v.E {
				r.val(e)
			}
		}
	default:
		panic("bad type")
	}
}
func (r *refComp) msg(m Msg) {
	r.b = append(r.b, 0x82, 1|byte(m.Type)<<5)
	r.uv(uint64(uint32(m.Seq)))
	r.str(m.Name)
	r.val(m.Body)
}
func encComp(v Val) []byte    { r := &refComp{}; r.val(v); return r.b }
func encCompMsg(m Msg) []byte { r := &refComp{}; r.msg(m); return r.b }

// headBin and headComp: the header of a container with size elements.
func headBin(v Val, size int) []byte {
	r := &refBin{}
	if v.T == tMAP {
		r.b = append(r.b, wireT(v.KT))
	}
	r.b = append(r.b, wireT(v.VT))
	r.i32(int32(size))
	return r.b
}
func headComp(v Val, size int) []byte {
	r := &refComp{}
	switch {
	case v.T == tMAP:
		r.uv(uint64(size))
		if size > 0 {
			r.b = append(r.b, compT[v.KT]<<4|compT[v.VT])
		}
	case size <= 14:
		r.b = append(r.b, byte(size<<4)|compT[v.VT])
	default:
		r.b = append(r.b, 0xf0|compT[v.VT])
		r.uv(uint64(size))
	}
	return r.b
}
