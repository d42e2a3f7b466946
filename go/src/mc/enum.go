package main

import (
	"fmt"
	"math"
	"strings"
)

// ---- value alphabets ----

func bounds(bits int) []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(v int64) {
		lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
		if v < lo || v > hi || seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
	}
	for d := int64(-2); d <= 2; d++ {
		add(d)
	}
	for k := 2; k < bits; k++ {
		var p int64
		if k == 63 {
			p = math.MinInt64
		} else {
			p = int64(1) << uint(k)
		}
		for d := int64(-1); d <= 1; d++ {
			add(p + d)
			add(-p + d)
		}
	}
	add(int64(-1) << (bits - 1))
	add(int64(1)<<(bits-1) - 1)
	for _, v := range []int64{10, 99, 100, 1000, 12345, 0x12345678, 0x123456789abcdef} {
		add(v)
		add(-v)
	}
	return out
}

func doubles() []float64 {
	d := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 0.1, -0.1, 3.141592653589793, 1e21, 1e20, 1e-6, 1e-7, 1e22, 123456789.125,
		9007199254740991, 9007199254740992, 9007199254740993, 1 << 62, 1 << 63, -(1 << 63), 1.7976931348623157e308, -1.7976931348623157e308,
		2.2250738585072014e-308, 5e-324, -5e-324, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000000002),
		math.Float64frombits(0xfff8000000000001), 2.225073858507201e-308, 100, 1e2, 12345678901234567890, 0.3, 1.0 / 3, 1e100, 1e-100, -2.5e-8}
	for e := 0; e < 2047; e += 97 {
		d = append(d, math.Float64frombits(uint64(e)<<52|0x000123456789abcd), math.Float64frombits(1<<63|uint64(e)<<52|0xfedcba9876543))
	}
	return d
}

var lens = []int{0, 1, 2, 3, 126, 127, 128, 129, 255, 256, 1023, 1024, 4094, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 70000}

func pattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/26)%26)
	}
	return string(b)
}

// text strings valid as UTF-8, over characters JSON has to treat specially
var jsonAlpha = []string{"a", "\\", "\"", "/", "\n", "\t", "\r", "\b", "\f", "u", "0", "\x00", "\x1f", "\x7f", " ", "{", "]", ",", ":", "<", "&", "é", "\u2028", "\ufffd", "\U0001f600", "\uffff"}

func textStrings(maxLen int, alpha []string) []string {
	out := []string{""}
	cur := []string{""}
	for l := 0; l < maxLen; l++ {
		var nx []string
		for _, p := range cur {
			for _, a := range alpha {
				nx = append(nx, p+a)
			}
		}
		out = append(out, nx...)
		cur = nx
	}
	return out
}

func byteStrings(maxLen int, alpha []byte) []string {
	out := []string{""}
	cur := []string{""}
	for l := 0; l < maxLen; l++ {
		var nx []string
		for _, p := range cur {
			for _, a := range alpha {
				nx = append(nx, p+string([]byte{a}))
			}
		}
		out = append(out, nx...)
		cur = nx
	}
	return out
}

// scalars of every type with every boundary value. text: restrict strings to valid UTF-8.
func scalarValues(text bool) []Val {
	var out []Val
	out = append(out, vBool(true), vBool(false))
	for i := 0; i < 256; i++ {
		out = append(out, vByte(byte(i)))
	}
	for _, v := range bounds(16) {
		out = append(out, vI16(int16(v)))
	}
	for _, v := range bounds(32) {
		out = append(out, vI32(int32(v)))
	}
	for _, v := range bounds(64) {
		out = append(out, vI64(v))
	}
	for _, d := range doubles() {
		out = append(out, vDbl(d))
	}
	for _, n := range lens {
		out = append(out, vStr(pattern(n)), vBin(pattern(n)))
	}
	if text {
		for _, s := range textStrings(2, jsonAlpha) {
			out = append(out, vStr(s))
		}
		for r := rune(0); r < 0x3000; r++ {
			out = append(out, vStr(string(r)))
		}
	} else {
		for i := 0; i < 256; i++ {
			out = append(out, vStr(string([]byte{byte(i)})))
		}
		out = append(out, vStr("\xff\xfe\x00\x80"), vStr("é\u2028\U0001f600"))
	}
	for i := 0; i < 256; i++ {
		out = append(out, vBin(string([]byte{byte(i)})), vBin(string([]byte{byte(i), 0xff, byte(255 - i)})), vBin(string([]byte{0, byte(i)})))
	}
	return out
}

// one small representative per type (used inside shapes)
func rep(t byte, k int) Val {
	switch t {
	case tBOOL:
		return vBool(k%2 == 0)
	case tBYTE:
		return vByte(byte([]int{5, 200, 0, 127, 128}[k%5]))
	case tI16:
		return vI16([]int16{7, -300, 0, 32767}[k%4])
	case tI32:
		return vI32([]int32{9, -70000, 0, 2147483647, -2147483648}[k%5])
	case tI64:
		return vI64([]int64{3, -5000000000, 0, math.MaxInt64}[k%4])
	case tDOUBLE:
		return vDbl([]float64{1.5, -0.25, 0, math.Inf(1), 1e300}[k%5])
	case tSTRING:
		return vStr([]string{"x", "", "q\"\\", "hello"}[k%4])
	case tBINARY:
		return vBin([]string{"\x00\xff", "", "abc", "\x80"}[k%4])
	case tSTRUCT:
		if k%2 == 0 {
			return vStruct()
		}
		return vStruct(fld(1, vI32(int32(k))))
	case tLIST:
		if k%2 == 0 {
			return vList(tI32)
		}
		return vList(tI32, vI32(int32(k)), vI32(-1))
	case tSET:
		if k%2 == 0 {
			return vSet(tSTRING)
		}
		return vSet(tSTRING, vStr("e"))
	case tMAP:
		if k%2 == 0 {
			return vMap(tSTRING, tI32)
		}
		return vMap(tSTRING, tI32, vStr("k"), vI32(int32(k)))
	}
	panic("rep")
}

var allTypes = []byte{tBOOL, tBYTE, tI16, tI32, tI64, tDOUBLE, tSTRING, tBINARY, tSTRUCT, tLIST, tSET, tMAP}

// contexts put a value in every position a value can have.
type context struct {
	name string
	f    func(v Val) Val // builds the message body
}

func contexts() []context {
	return []context{
		{"field", func(v Val) Val { return vStruct(fld(1, v)) }},
		{"field-between", func(v Val) Val { return vStruct(fld(1, vI32(1)), fld(2, v), fld(3, vStr("t"))) }},
		{"list-elem", func(v Val) Val { return vStruct(fld(1, vList(v.T, v, v)), fld(2, vBool(true))) }},
		{"set-elem", func(v Val) Val { return vStruct(fld(1, vSet(v.T, v)), fld(2, vBool(false))) }},
		{"map-key", func(v Val) Val { return vStruct(fld(1, vMap(v.T, tI32, v, vI32(4))), fld(2, vByte(1))) }},
		{"map-value", func(v Val) Val {
			return vStruct(fld(1, vMap(tSTRING, v.T, vStr("k"), v, vStr("l"), v)), fld(2, vI16(1)))
		}},
		{"nested-field", func(v Val) Val {
			return vStruct(fld(1, vStruct(fld(1, vStruct(fld(5, v), fld(6, vI64(1)))), fld(3, v))), fld(4, v))
		}},
		{"list-of-struct", func(v Val) Val {
			return vStruct(fld(2, vList(tSTRUCT, vStruct(fld(3, v)), vStruct(), vStruct(fld(3, v), fld(9, vBool(true))))), fld(30, v))
		}},
	}
}

// shapes enumerates every tree with at most n nodes below the root struct. Leaf
// kinds and container kinds are drawn from small sets; the root is a struct.
//
// A shape is a struct whose children are shapes; field ids are assigned later.
type shape struct {
	kind byte // tI32, tBOOL, tSTRUCT, tLIST, tMAP, tSET
	kids []*shape
}

var leafKinds = []byte{tI32, tBOOL}
var innerKinds = []byte{tSTRUCT, tLIST, tMAP}

// genShapes returns all shapes with exactly n nodes.
func genShapes(n int, memo map[int][]*shape) []*shape {
	if s, ok := memo[n]; ok {
		return s
	}
	var out []*shape
	if n == 1 {
		for _, k := range leafKinds {
			out = append(out, &shape{kind: k})
		}
		for _, k := range innerKinds {
			out = append(out, &shape{kind: k})
		}
	} else {
		for _, kids := range genForests(n-1, memo) {
			out = append(out, &shape{kind: tSTRUCT, kids: kids})
		}
		// lists and maps hold elements of one type: keep forests of one kind
		for _, kids := range genForests(n-1, memo) {
			same := true
			for _, k := range kids {
				if k.kind != kids[0].kind {
					same = false
				}
			}
			if same {
				out = append(out, &shape{kind: tLIST, kids: kids}, &shape{kind: tMAP, kids: kids})
			}
		}
	}
	memo[n] = out
	return out
}

func genForests(n int, memo map[int][]*shape) [][]*shape {
	if n == 0 {
		return [][]*shape{nil}
	}
	var out [][]*shape
	for k := 1; k <= n; k++ {
		for _, s := range genShapes(k, memo) {
			for _, rest := range genForests(n-k, memo) {
				out = append(out, append([]*shape{s}, rest...))
			}
		}
	}
	return out
}

// idSchemes assign field ids to the i-th field of a struct at a depth.
var idSchemes = []struct {
	name string
	f    func(i, n, depth int) int16
}{
	{"inc", func(i, n, d int) int16 { return int16(i + 1) }},
	{"dec", func(i, n, d int) int16 { return int16(n - i) }},
	{"stride15", func(i, n, d int) int16 { return int16((i + 1) * 15) }},
	{"stride16", func(i, n, d int) int16 { return int16((i + 1) * 16) }},
	{"depthoff", func(i, n, d int) int16 { return int16(i*3 + d*7 + 1) }},
	{"neg", func(i, n, d int) int16 { return int16(i - 1) }},
}

func (s *shape) build(ids func(i, n, d int) int16, depth int, ctr *int) Val {
	*ctr++
	c := *ctr
	switch s.kind {
	case tI32:
		return vI32(int32(c*37 - 50))
	case tBOOL:
		return vBool(c%2 == 0)
	case tSTRUCT:
		v := vStruct()
		for i, k := range s.kids {
			id := ids(i, len(s.kids), depth)
			v.Fields = append(v.Fields, Field{ID: id, Name: fmt.Sprintf("f%d", id), V: k.build(ids, depth+1, ctr)})
		}
		return v
	case tLIST:
		v := vList(tI32)
		if c%2 == 1 {
			v.T = tSET
		}
		if len(s.kids) > 0 {
			v.VT = s.kids[0].kind
		}
		for _, k := range s.kids {
			x := k.build(ids, depth+1, ctr)
			if x.T == tSET {
				x.T = tLIST
			}
			v.E = append(v.E, x)
		}
		return v
	case tMAP:
		v := vMap(tI16, tI32)
		if len(s.kids) > 0 {
			v.VT = s.kids[0].kind
		}
		for i, k := range s.kids {
			x := k.build(ids, depth+1, ctr)
			if x.T == tSET {
				x.T = tLIST
			}
			v.E = append(v.E, vI16(int16(i)), x)
		}
		return v
	}
	panic("shape")
}

// rootShapes: root structs with up to n nodes below them.
func rootShapes(n int) [][]*shape {
	memo := map[int][]*shape{}
	var out [][]*shape
	for k := 0; k <= n; k++ {
		out = append(out, genForests(k, memo)...)
	}
	return out
}

// idSequences: every sequence of up to maxN field ids from the alphabet, as a
// flat struct whose field types rotate.
var idAlpha = []int16{1, 2, 15, 16, 17, 31, 32, 0, -1, -15, -16, 127, 128, 4096, 32767, -32768}

func idSeqs(maxN int, alpha []int16) [][]int16 {
	var out [][]int16
	cur := [][]int16{nil}
	for l := 0; l < maxN; l++ {
		var nx [][]int16
		for _, p := range cur {
			for _, a := range alpha {
				q := append(append([]int16(nil), p...), a)
				nx = append(nx, q)
			}
		}
		out = append(out, nx...)
		cur = nx
	}
	return out
}

var names = []string{"", "m", "ping", "getValue", strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("x", 300), "na\"me\\", "é\u2028", "name_", "a b"}
var seqs = []int32{0, 1, -1, 127, 128, 16383, 16384, 2147483647, -2147483648, 65536, -129, 255, 256}
