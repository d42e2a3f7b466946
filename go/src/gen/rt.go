package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"genreg"
	"idl"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"thrift"
	"unicode"
)

// ---- the memory model of generated code: which fields have which values ----

func kindOf(t *idl.Type) string {
	t = t.True()
	if t.Kind == "named" {
		if t.Prog.FindEnum(t.Name) != nil {
			return "enum"
		}
		return "struct"
	}
	return t.Kind
}

func typeByte(t *idl.Type) byte {
	switch kindOf(t) {
	case "bool":
		return tBOOL
	case "byte":
		return tBYTE
	case "i16":
		return tI16
	case "i32", "enum":
		return tI32
	case "i64":
		return tI64
	case "double":
		return tDOUBLE
	case "string":
		return tSTRING
	case "binary":
		return tBINARY
	case "struct":
		return tSTRUCT
	case "list":
		return tLIST
	case "set":
		return tSET
	case "map":
		return tMAP
	}
	panic("type " + t.String())
}

func structOf(t *idl.Type) *idl.Struct { t = t.True(); return t.Prog.FindStruct(t.Name) }
func enumOf(t *idl.Type) *idl.Enum     { t = t.True(); return t.Prog.FindEnum(t.Name) }

func scalarKind(k string) bool {
	switch k {
	case "bool", "byte", "i16", "i32", "i64", "double", "string":
		return true
	}
	return false
}

func emptyOf(t *idl.Type) Val {
	t = t.True()
	v := Val{T: typeByte(t)}
	switch v.T {
	case tLIST, tSET:
		v.VT = typeByte(t.E)
	case tMAP:
		v.KT, v.VT = typeByte(t.K), typeByte(t.E)
	}
	return v
}

// literal gives the value a literal stands for.
func literal(t *idl.Type, l *idl.Value) Val {
	t = t.True()
	v := emptyOf(t)
	switch kindOf(t) {
	case "bool":
		if l.I > 0 {
			v.I = 1
		}
	case "byte":
		v.I = int64(byte(l.I))
	case "i16", "i32", "i64":
		v.I = l.I
	case "enum":
		if l.Kind == "e" {
			e := enumOf(l.Enum)
			for i, x := range e.Vals {
				if x.Name == l.S {
					v.I = int64(e.Numbers()[i])
				}
			}
		} else {
			v.I = l.I
		}
	case "double":
		v.F = l.D
		if l.Kind == "i" {
			v.F = float64(l.I)
		}
	case "string", "binary":
		v.S = l.S
	case "list":
		for _, x := range l.L {
			v.E = append(v.E, literal(t.E, x))
		}
	case "set":
		seen := map[string]bool{}
		for _, x := range l.L {
			e := literal(t.E, x)
			if k := canon(e); !seen[k] {
				seen[k] = true
				v.E = append(v.E, e)
			}
		}
	case "map":
		for i := 0; i < len(l.L); i += 2 {
			v = mapPut(v, literal(t.K, l.L[i]), literal(t.E, l.L[i+1]))
		}
	case "struct":
		st := structOf(t)
		v = initial(st)
		for i := 0; i < len(l.L); i += 2 {
			for _, f := range st.Fields {
				if f.Name == l.L[i].S {
					v = with(v, f, literal(f.T, l.L[i+1]))
				}
			}
		}
	}
	return v
}

func mapPut(m, k, e Val) Val {
	for i := 0; i < len(m.E); i += 2 {
		if canon(m.E[i]) == canon(k) {
			m.E = append([]Val{}, m.E...)
			m.E[i+1] = e
			return m
		}
	}
	m.E = append(append([]Val{}, m.E...), k, e)
	return m
}

// initial is a new struct: its fields have their defaults, scalars without one
// are zero, and all else is absent.
func initial(st *idl.Struct) Val {
	v := Val{T: tSTRUCT}
	for _, f := range st.Fields {
		if d, ok := initialField(f); ok {
			v = with(v, f, d)
		}
	}
	return v
}

func initialField(f *idl.Field) (Val, bool) {
	if f.Def != nil {
		return literal(f.T, f.Def), true
	}
	if scalarKind(kindOf(f.T)) {
		return emptyOf(f.T), true
	}
	return Val{}, false
}

func with(v Val, f *idl.Field, x Val) Val {
	out := v
	out.Fields = nil
	for _, g := range v.Fields {
		if int(g.ID) != f.ID {
			out.Fields = append(out.Fields, g)
		}
	}
	out.Fields = append(out.Fields, Field{ID: int16(f.ID), Name: f.Name, V: x})
	return out
}

func without(v Val, f *idl.Field) Val {
	out := v
	out.Fields = nil
	for _, g := range v.Fields {
		if int(g.ID) != f.ID {
			out.Fields = append(out.Fields, g)
		}
	}
	return out
}

func fieldOf(v Val, id int) (Val, bool) {
	for _, g := range v.Fields {
		if int(g.ID) == id {
			return g.V, true
		}
	}
	return Val{}, false
}

// canon is the same for equal values: without the order of sets, maps and fields.
func canon(v Val) string {
	var parts []string
	switch v.T {
	case tSTRUCT:
		for _, f := range v.Fields {
			parts = append(parts, fmt.Sprintf("%06d:%s", int(f.ID)+40000, canon(f.V)))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ",") + "}"
	case tLIST, tSET:
		for _, e := range v.E {
			parts = append(parts, canon(e))
		}
		if v.T == tSET {
			sort.Strings(parts)
		}
		return fmt.Sprintf("%d<%d>[%s]", v.T, v.VT, strings.Join(parts, ","))
	case tMAP:
		for i := 0; i < len(v.E); i += 2 {
			parts = append(parts, canon(v.E[i])+":"+canon(v.E[i+1]))
		}
		sort.Strings(parts)
		return fmt.Sprintf("map<%d,%d>[%s]", v.KT, v.VT, strings.Join(parts, ","))
	case tDOUBLE:
		return fmt.Sprintf("d%x", math.Float64bits(v.F))
	case tSTRING, tBINARY:
		return fmt.Sprintf("%d%q", v.T, v.S)
	}
	return fmt.Sprintf("%d_%d", v.T, v.I)
}

// afterRead is what reading the wire value w gives.
func afterRead(t *idl.Type, w Val) Val {
	t = t.True()
	switch kindOf(t) {
	case "struct":
		st := structOf(t)
		v := initial(st)
		for _, f := range st.Fields {
			if x, ok := fieldOf(w, f.ID); ok {
				v = with(v, f, afterRead(f.T, x))
			}
		}
		return v
	case "list", "set":
		o := w
		o.E = nil
		for _, e := range w.E {
			o.E = append(o.E, afterRead(t.E, e))
		}
		return o
	case "map":
		o := w
		o.E = nil
		for i, e := range w.E {
			if i%2 == 0 {
				o.E = append(o.E, afterRead(t.K, e))
			} else {
				o.E = append(o.E, afterRead(t.E, e))
			}
		}
		return o
	}
	return w
}

// wireOK compares what was written with the memory it was written from: each
// field with a value is there, except that an optional one may be left out when
// it has the value a reader takes it to have then.
func wireOK(t *idl.Type, mem, wire Val) error {
	t = t.True()
	switch kindOf(t) {
	case "struct":
		st := structOf(t)
		for _, f := range st.Fields {
			m, inMem := fieldOf(mem, f.ID)
			w, inWire := fieldOf(wire, f.ID)
			switch {
			case inWire && !inMem:
				return fmt.Errorf("field %s has no value, but %v was written", f.Name, w)
			case inWire:
				if err := wireOK(f.T, m, w); err != nil {
					return fmt.Errorf("field %s: %v", f.Name, err)
				}
			case inMem:
				d, has := initialField(f)
				k := kindOf(f.T)
				if !has && (k == "list" || k == "set" || k == "map") {
					d, has = emptyOf(f.T), true // an empty container is as good as none
				}
				if f.Req != idl.Optional || !has || canon(d) != canon(m) {
					return fmt.Errorf("field %s with value %v was not written", f.Name, m)
				}
			}
		}
		return nil
	case "list", "set", "map":
		if len(mem.E) != len(wire.E) {
			return fmt.Errorf("%v was written as %v", mem, wire)
		}
		if kindOf(t) == "list" {
			for i := range mem.E {
				if err := wireOK(t.E, mem.E[i], wire.E[i]); err != nil {
					return err
				}
			}
			return nil
		}
		// some pairing of the elements
		step := 1
		if kindOf(t) == "map" {
			step = 2
		}
		used := make([]bool, len(wire.E))
	next:
		for i := 0; i < len(mem.E); i += step {
			var last error
			for j := 0; j < len(wire.E); j += step {
				if used[j] {
					continue
				}
				var err error
				if step == 2 {
					if err = wireOK(t.K, mem.E[i], wire.E[j]); err == nil {
						err = wireOK(t.E, mem.E[i+1], wire.E[j+1])
					}
				} else {
					err = wireOK(t.E, mem.E[i], wire.E[j])
				}
				if err == nil {
					used[j] = true
					continue next
				}
				last = err
			}
			return fmt.Errorf("%v was written as %v (%v)", mem, wire, last)
		}
		return nil
	}
	if canon(mem) != canon(wire) {
		return fmt.Errorf("%v was written as %v", mem, wire)
	}
	return nil
}

// ---- reference decoders, following the declared types ----

type decBin struct{ b []byte }

var errShort = errors.New("bytes end early")

func (d *decBin) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		panic(errShort)
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}
func (d *decBin) i32() int { return int(int32(binary.BigEndian.Uint32(d.take(4)))) }
func (d *decBin) want(t *idl.Type, got byte) {
	if got != wireT(typeByte(t)) {
		panic(fmt.Errorf("wire type %d for declared type %s", got, t))
	}
}
func (d *decBin) val(t *idl.Type) Val {
	t = t.True()
	v := emptyOf(t)
	switch kindOf(t) {
	case "bool":
		v.I = int64(d.take(1)[0])
		if v.I > 1 {
			panic(fmt.Errorf("bool %d", v.I))
		}
	case "byte":
		v.I = int64(d.take(1)[0])
	case "i16":
		v.I = int64(int16(binary.BigEndian.Uint16(d.take(2))))
	case "i32", "enum":
		v.I = int64(d.i32())
	case "i64":
		v.I = int64(binary.BigEndian.Uint64(d.take(8)))
	case "double":
		v.F = math.Float64frombits(binary.BigEndian.Uint64(d.take(8)))
	case "string", "binary":
		v.S = string(d.take(d.i32()))
	case "list", "set":
		d.want(t.E, d.take(1)[0])
		for n := d.i32(); n > 0; n-- {
			v.E = append(v.E, d.val(t.E))
		}
	case "map":
		k := d.take(2)
		d.want(t.K, k[0])
		d.want(t.E, k[1])
		for n := d.i32(); n > 0; n-- {
			v.E = append(v.E, d.val(t.K))
			v.E = append(v.E, d.val(t.E))
		}
	case "struct":
		st := structOf(t)
		for {
			ty := d.take(1)[0]
			if ty == 0 {
				break
			}
			f := fieldByID(st, int(int16(binary.BigEndian.Uint16(d.take(2)))), v)
			d.want(f.T, ty)
			v.Fields = append(v.Fields, Field{int16(f.ID), f.Name, d.val(f.T)})
		}
	}
	return v
}

func fieldByID(st *idl.Struct, id int, sofar Val) *idl.Field {
	if _, twice := fieldOf(sofar, id); twice {
		panic(fmt.Errorf("field %d twice", id))
	}
	for _, f := range st.Fields {
		if f.ID == id {
			return f
		}
	}
	panic(fmt.Errorf("field id %d, which %s does not have", id, st.Name))
}

type decComp struct{ decBin }

func (d *decComp) uv() uint64 {
	var r uint64
	for s := uint(0); ; s += 7 {
		c := d.take(1)[0]
		r |= uint64(c&0x7f) << s
		if c < 0x80 {
			return r
		}
	}
}
func (d *decComp) zz() int64 { u := d.uv(); return int64(u>>1) ^ -int64(u&1) }
func (d *decComp) want(t *idl.Type, got byte) {
	if got != compT[typeByte(t)] {
		panic(fmt.Errorf("compact type %d for declared type %s", got, t))
	}
}
func (d *decComp) val(t *idl.Type) Val {
	t = t.True()
	v := emptyOf(t)
	switch kindOf(t) {
	case "bool":
		c := d.take(1)[0]
		if c == 1 {
			v.I = 1
		} else if c != 0 && c != 2 {
			panic(fmt.Errorf("bool %d", c))
		}
	case "byte":
		v.I = int64(d.take(1)[0])
	case "i16", "i32", "i64", "enum":
		v.I = d.zz()
	case "double":
		v.F = math.Float64frombits(binary.LittleEndian.Uint64(d.take(8)))
	case "string", "binary":
		v.S = string(d.take(int(d.uv())))
	case "list", "set":
		c := d.take(1)[0]
		n := int(c >> 4)
		if n == 15 {
			n = int(d.uv())
		}
		d.want(t.E, c&15)
		for ; n > 0; n-- {
			v.E = append(v.E, d.val(t.E))
		}
	case "map":
		n := int(d.uv())
		if n > 0 {
			c := d.take(1)[0]
			d.want(t.K, c>>4)
			d.want(t.E, c&15)
		}
		for ; n > 0; n-- {
			v.E = append(v.E, d.val(t.K))
			v.E = append(v.E, d.val(t.E))
		}
	case "struct":
		st := structOf(t)
		last := 0
		for {
			c := d.take(1)[0]
			if c == 0 {
				break
			}
			if c>>4 != 0 {
				last += int(c >> 4)
			} else {
				last = int(int16(d.zz()))
			}
			f := fieldByID(st, last, v)
			var x Val
			if kindOf(f.T) == "bool" && (c&15 == 1 || c&15 == 2) {
				x = vBool(c&15 == 1)
			} else {
				d.want(f.T, c&15)
				x = d.val(f.T)
			}
			v.Fields = append(v.Fields, Field{int16(f.ID), f.Name, x})
		}
	}
	return v
}

var jsonTag = map[byte]string{tBOOL: "tf", tBYTE: "i8", tI16: "i16", tI32: "i32", tI64: "i64", tDOUBLE: "dbl", tSTRING: "str", tBINARY: "str", tSTRUCT: "rec", tMAP: "map", tSET: "set", tLIST: "lst"}

func decJSON(t *idl.Type, x interface{}) Val {
	t = t.True()
	v := emptyOf(t)
	bad := func() { panic(fmt.Errorf("JSON %v for declared type %s", x, t)) }
	num := func() string {
		switch n := x.(type) {
		case json.Number:
			return string(n)
		case string: // the key of a map
			return n
		}
		bad()
		return ""
	}
	tag := func(t *idl.Type, x interface{}) {
		// the headers of lists and sets hold the number of the type
		if s := fmt.Sprint(x); s != jsonTag[typeByte(t)] && !(s == "byt" && typeByte(t) == tBYTE) && s != strconv.Itoa(int(typeByte(t))) {
			panic(fmt.Errorf("JSON type %v for declared type %s", x, t))
		}
	}
	switch kindOf(t) {
	case "bool":
		switch b := x.(type) {
		case bool:
			if b {
				v.I = 1
			}
		default:
			n := num()
			switch n {
			case "1", "true":
				v.I = 1
			case "0", "false":
			default:
				bad()
			}
		}
	case "byte", "i16", "i32", "i64", "enum":
		i, err := strconv.ParseInt(num(), 10, 64)
		if err != nil {
			bad()
		}
		v.I = i
		if kindOf(t) == "byte" {
			v.I = int64(byte(i))
		}
	case "double":
		f, err := strconv.ParseFloat(num(), 64)
		if err != nil {
			bad()
		}
		v.F = f
	case "string":
		s, ok := x.(string)
		if !ok {
			bad()
		}
		v.S = s
	case "binary":
		s, ok := x.(string)
		if !ok {
			bad()
		}
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			bad()
		}
		v.S = string(b)
	case "list", "set":
		a, ok := x.([]interface{})
		if !ok || len(a) < 2 || fmt.Sprint(a[1]) != strconv.Itoa(len(a)-2) {
			bad()
		}
		tag(t.E, a[0])
		for _, e := range a[2:] {
			v.E = append(v.E, decJSON(t.E, e))
		}
	case "map":
		// keys and values alternate
		a, ok := x.([]interface{})
		if !ok || len(a) < 3 || len(a)%2 == 0 || fmt.Sprint(a[2]) != strconv.Itoa((len(a)-3)/2) {
			bad()
		}
		tag(t.K, a[0])
		tag(t.E, a[1])
		for i := 3; i < len(a); i += 2 {
			v.E = append(v.E, decJSON(t.K, a[i]), decJSON(t.E, a[i+1]))
		}
	case "struct":
		m, ok := x.(jsonObj)
		if !ok {
			bad()
		}
		st := structOf(t)
		for _, kv := range m {
			id, err := strconv.Atoi(kv.k)
			if err != nil {
				bad()
			}
			f := fieldByID(st, id, v)
			o, ok := kv.v.(jsonObj)
			if !ok || len(o) != 1 {
				bad()
			}
			tag(f.T, o[0].k)
			v.Fields = append(v.Fields, Field{int16(f.ID), f.Name, decJSON(f.T, o[0].v)})
		}
	}
	return v
}

// JSON objects with their keys in order, and repeated ones kept.
type jsonKV struct {
	k string
	v interface{}
}
type jsonObj []jsonKV

func parseJSON(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var val func() interface{}
	val = func() interface{} {
		tok, err := d.Token()
		if err != nil {
			panic(err)
		}
		dl, ok := tok.(json.Delim)
		if !ok {
			return tok
		}
		if dl == '[' {
			out := []interface{}{}
			for d.More() {
				out = append(out, val())
			}
			d.Token()
			return out
		}
		out := jsonObj{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				panic(err)
			}
			out = append(out, jsonKV{k.(string), val()})
		}
		d.Token()
		return out
	}
	v := val()
	if d.More() {
		panic(errors.New("more than one JSON value"))
	}
	return v
}

// decode reads the wire form of a value of the declared type.
func decode(pr *proto, t *idl.Type, b []byte) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			if _, bad := r.(interface{ RuntimeError() }); bad {
				panic(r)
			}
			err = e
		}
	}()
	switch pr {
	case pBin:
		d := &decBin{b}
		v = d.val(t)
		if len(d.b) > 0 {
			err = fmt.Errorf("%d bytes too many", len(d.b))
		}
	case pComp:
		d := &decComp{decBin{b}}
		v = d.val(t)
		if len(d.b) > 0 {
			err = fmt.Errorf("%d bytes too many", len(d.b))
		}
	case pJSON:
		v = decJSON(t, parseJSON(b))
	}
	return
}

func encode(pr *proto, v Val) []byte {
	switch pr {
	case pBin:
		return encBin(v)
	case pComp:
		return encComp(v)
	}
	m := newMem(nil)
	p := pr.mk(m)
	if e := writeVal(p, v); e != nil {
		panic(e)
	}
	p.Flush()
	return m.b
}

// ---- between the model and Go values of generated types ----

// goName is the documented mapping of names: the first letter and each letter
// after an underscore in upper case, without that underscore.
func goName(s string) string {
	r := []rune(s)
	r[0] = unicode.ToUpper(r[0])
	for i := 1; i < len(r)-1; i++ {
		if r[i] == '_' && unicode.IsLetter(r[i+1]) {
			r = append(append(append([]rune{}, r[:i]...), unicode.ToUpper(r[i+1])), r[i+2:]...)
		}
	}
	return string(r)
}

type world struct{ pkg *genreg.Package }

func (w *world) newStruct(t *T, thriftName string) reflect.Value {
	f := w.pkg.News["New"+goName(thriftName)]
	if f == nil {
		t.Failf("missing", "there is no constructor New%s", goName(thriftName))
	}
	return reflect.ValueOf(f())
}

// fieldIn finds the Go field of a field by its tag, the name in the interface.
func fieldIn(t *T, obj reflect.Value, name string) reflect.Value {
	s := obj.Elem()
	for i := 0; i < s.NumField(); i++ {
		if string(s.Type().Field(i).Tag) == name {
			if s.Type().Field(i).PkgPath != "" {
				t.Failf("unexported:"+name, "users cannot reach field %q of %s", name, s.Type())
			}
			return s.Field(i)
		}
	}
	t.Failf("missing", "%s has no field tagged %q", s.Type(), name)
	panic("")
}

// plain gives the natural Go value of an element of a container; variant
// chooses between the declared type and the basic one for typedefs.
func (w *world) elem(t *T, ty *idl.Type, v Val, basic bool) interface{} {
	k := kindOf(ty)
	var x interface{}
	switch k {
	case "bool":
		x = v.I != 0
	case "byte":
		x = byte(v.I)
	case "i16":
		x = int16(v.I)
	case "i32":
		x = int32(v.I)
	case "i64":
		x = v.I
	case "double":
		x = v.F
	case "string":
		x = v.S
	case "binary":
		x = []byte(v.S)
	case "enum":
		if basic {
			return int32(v.I)
		}
		f := w.pkg.Enums[goName(ty.True().Name)]
		if f == nil {
			t.Failf("missing", "there is no enum type %s", goName(ty.True().Name))
		}
		return f(v.I)
	case "struct":
		return w.object(t, ty, v).Interface()
	default:
		return w.container(t, ty, v, basic)
	}
	return x
}

func (w *world) container(t *T, ty *idl.Type, v Val, basic bool) interface{} {
	ty = ty.True()
	switch ty.Kind {
	case "list":
		l := thrift.NewTList(thrift.TType(typeByte(ty.E)), len(v.E))
		for _, e := range v.E {
			l.Push(w.elem(t, ty.E, e, basic))
		}
		return l
	case "set":
		l := thrift.NewTSet(thrift.TType(typeByte(ty.E)), len(v.E))
		for _, e := range v.E {
			l.Add(w.elem(t, ty.E, e, basic))
		}
		return l
	}
	m := thrift.NewTMap(thrift.TType(typeByte(ty.K)), thrift.TType(typeByte(ty.E)), len(v.E)/2)
	for i := 0; i < len(v.E); i += 2 {
		m.Set(w.elem(t, ty.K, v.E[i], basic), w.elem(t, ty.E, v.E[i+1], basic))
	}
	return m
}

// object makes a generated struct with the memory given.
func (w *world) object(t *T, ty *idl.Type, v Val) reflect.Value {
	st := structOf(ty)
	o := w.newStruct(t, st.Name)
	w.fill(t, st, o, v, false)
	return o
}

// fill makes the object's memory that of v, starting from a new one.
func (w *world) fill(t *T, st *idl.Struct, o reflect.Value, v Val, basic bool) {
	for _, f := range st.Fields {
		x, ok := fieldOf(v, f.ID)
		if !ok {
			if f.Def != nil {
				if k := kindOf(f.T); k != "enum" {
					fieldIn(t, o, f.Name).Set(reflect.Zero(fieldIn(t, o, f.Name).Type()))
				}
			}
			continue
		}
		w.set(t, f.T, fieldIn(t, o, f.Name), x, basic)
	}
}

func (w *world) set(t *T, ty *idl.Type, dst reflect.Value, v Val, basic bool) {
	dst.Set(w.value(t, ty, dst.Type(), v, basic))
}

func (w *world) value(t *T, ty *idl.Type, want reflect.Type, v Val, basic bool) reflect.Value {
	x := reflect.ValueOf(w.elem(t, ty, v, basic))
	if !x.Type().ConvertibleTo(want) {
		t.Failf("gotype", "Go type %s for declared type %s", want, ty)
	}
	return x.Convert(want)
}

// memory gives the memory of a Go value; absent is told by the second result.
func (w *world) memory(t *T, ty *idl.Type, x reflect.Value) (Val, bool) {
	for x.IsValid() && x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	if !x.IsValid() {
		return Val{}, false
	}
	ty = ty.True()
	v := emptyOf(ty)
	k := kindOf(ty)
	bad := func() { t.Failf("gotype", "Go value %v (%s) for declared type %s", x, x.Type(), ty) }
	switch k {
	case "bool":
		if x.Kind() != reflect.Bool {
			bad()
		}
		if x.Bool() {
			v.I = 1
		}
	case "byte":
		if x.Kind() != reflect.Uint8 {
			bad()
		}
		v.I = int64(x.Uint())
	case "i16", "i32", "i64", "enum":
		if x.Kind() != map[string]reflect.Kind{"i16": reflect.Int16, "i32": reflect.Int32, "i64": reflect.Int64, "enum": x.Kind()}[k] || !x.CanInt() {
			bad()
		}
		v.I = x.Int()
		if k == "enum" && v.I == math.MinInt32-1 {
			return Val{}, false
		}
	case "double":
		if x.Kind() != reflect.Float64 {
			bad()
		}
		v.F = x.Float()
	case "string":
		if x.Kind() != reflect.String {
			bad()
		}
		v.S = x.String()
	case "binary":
		if x.Kind() != reflect.Slice || x.Type().Elem().Kind() != reflect.Uint8 {
			bad()
		}
		if x.IsNil() {
			return Val{}, false
		}
		v.S = string(x.Bytes())
	case "struct":
		if x.Kind() != reflect.Ptr {
			bad()
		}
		if x.IsNil() {
			return Val{}, false
		}
		st := structOf(ty)
		if n, ok := x.Interface().(interface{ ThriftName() string }); !ok || n.ThriftName() != st.Name {
			t.Failf("gotype", "Go value %s for declared type %s", x.Type(), ty)
		}
		return w.objMemory(t, st, x), true
	case "list":
		l, ok := x.Interface().(thrift.TList)
		if !ok {
			bad()
		}
		for i := 0; i < l.Len(); i++ {
			v.E = append(v.E, w.elemMemory(t, ty.E, l.At(i)))
		}
	case "set":
		l, ok := x.Interface().(thrift.TSet)
		if !ok {
			bad()
		}
		for _, e := range l.Values() {
			v.E = append(v.E, w.elemMemory(t, ty.E, e))
		}
	case "map":
		m, ok := x.Interface().(thrift.TMap)
		if !ok {
			bad()
		}
		for _, key := range m.Keys() {
			e, _ := m.Get(key)
			v.E = append(v.E, w.elemMemory(t, ty.K, key), w.elemMemory(t, ty.E, e))
		}
	}
	return v, true
}

func (w *world) elemMemory(t *T, ty *idl.Type, x interface{}) Val {
	v, ok := w.memory(t, ty, reflect.ValueOf(x))
	if !ok {
		t.Failf("element", "an element of type %s is %v", ty, x)
	}
	return v
}

func (w *world) objMemory(t *T, st *idl.Struct, o reflect.Value) Val {
	v := Val{T: tSTRUCT}
	for _, f := range st.Fields {
		if x, ok := w.memory(t, f.T, fieldIn(t, o, f.Name)); ok {
			v = with(v, f, x)
		}
	}
	return v
}
