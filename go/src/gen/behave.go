package main

import (
	"bytes"
	"errors"
	"fmt"
	"genreg"
	"idl"
	"math"
	"reflect"
	"regexp"
	"strings"
	"thrift"
)

// values gives memory values of a type; the first is not the default.
func values(t *idl.Type, depth int) []Val {
	t = t.True()
	switch kindOf(t) {
	case "bool":
		return []Val{vBool(true), vBool(false)}
	case "byte":
		return []Val{vByte(5), vByte(0), vByte(255), vByte(128)}
	case "i16":
		return []Val{vI16(5), vI16(0), vI16(-1), vI16(-32768)}
	case "i32":
		return []Val{vI32(5), vI32(0), vI32(-1), vI32(math.MaxInt32), vI32(math.MinInt32)}
	case "i64":
		return []Val{vI64(5), vI64(0), vI64(-1), vI64(math.MinInt64), vI64(1 << 40)}
	case "double":
		return []Val{vDbl(1.5), vDbl(0), vDbl(-0.1), vDbl(1e300)}
	case "string":
		return []Val{vStr("ab"), vStr(""), vStr("ü\"\\\n")}
	case "binary":
		return []Val{vBin("ab"), vBin(""), vBin("\x00\xff")}
	case "enum":
		ns := enumOf(t).Numbers()
		if len(ns) == 0 {
			return []Val{vI32(3)}
		}
		out := []Val{vI32(int32(ns[len(ns)-1]))}
		for _, n := range ns[:len(ns)-1] {
			out = append(out, vI32(int32(n)))
		}
		if len(out) > 3 {
			out = out[:3]
		}
		return out
	case "struct":
		st := structOf(t)
		full, zero := initial(st), initial(st)
		if depth < 2 {
			for _, f := range st.Fields {
				full = with(full, f, values(f.T, depth+1)[0])
			}
		}
		if len(st.Fields) == 0 || depth >= 2 {
			return []Val{zero}
		}
		return []Val{full, zero}
	case "list", "set":
		es := values(t.E, depth)
		e := emptyOf(t)
		one, two := e, e
		one.E = []Val{es[len(es)-1]}
		if len(es) > 1 {
			two.E = []Val{es[1], es[0]}
			return []Val{two, one, e}
		}
		return []Val{one, e}
	case "map":
		ks, es := values(t.K, depth), values(t.E, depth)
		e := emptyOf(t)
		one, two := e, e
		one.E = []Val{ks[0], es[len(es)-1]}
		if len(ks) > 1 {
			two.E = []Val{ks[0], es[0], ks[1], es[len(es)-1]}
			return []Val{two, one, e}
		}
		return []Val{one, e}
	}
	panic("values of " + t.String())
}

// memories gives the contents a struct is tried with: every combination of
// values and absence of its fields when these are few, else those that differ
// from a new one in up to two fields, and all at once.
func memories(st *idl.Struct, max int) []Val {
	var choices [][]*Val
	total := 1
	for _, f := range st.Fields {
		var c []*Val
		for _, v := range values(f.T, 0) {
			v := v
			c = append(c, &v)
		}
		d, has := initialField(f)
		k := kindOf(f.T)
		if has {
			d := d
			dup := false
			for _, x := range c {
				dup = dup || canon(*x) == canon(d)
			}
			if !dup {
				c = append(c, &d)
			}
		}
		if !scalarKind(k) && !(k == "enum" && f.Def != nil) {
			c = append(c, nil) // absent
		}
		choices = append(choices, c)
		if total <= max {
			total *= len(c)
		}
	}
	var out []Val
	seen := map[string]bool{}
	add := func(v Val) {
		if k := canon(v); !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	put := func(v Val, i int, c *Val) Val {
		if c == nil {
			return without(v, st.Fields[i])
		}
		return with(v, st.Fields[i], *c)
	}
	if total <= max {
		var rec func(i int, v Val)
		rec = func(i int, v Val) {
			if i == len(st.Fields) {
				add(v)
				return
			}
			for _, c := range choices[i] {
				rec(i+1, put(v, i, c))
			}
		}
		rec(0, initial(st))
		return out
	}
	add(initial(st))
	all := initial(st)
	for i := range st.Fields {
		all = put(all, i, choices[i][0])
		for _, c := range choices[i] {
			add(put(initial(st), i, c))
		}
	}
	add(all)
	for i := range st.Fields {
		for _, c := range choices[i] {
			add(put(all, i, c))
		}
		for j := 0; j < i; j++ {
			if len(out) > 4*max {
				return out
			}
			add(put(put(initial(st), i, choices[i][0]), j, choices[j][0]))
		}
	}
	return out
}

var rwProtos = []*proto{pBin, pComp, pJSON}

type rw interface {
	Read(thrift.TProtocol) thrift.TProtocolException
	Write(thrift.TProtocol) thrift.TProtocolException
}

func (w *world) writeObj(t *T, pr *proto, o reflect.Value) []byte {
	m := newMem(nil)
	p := pr.mk(m)
	x, ok := o.Interface().(rw)
	if !ok {
		t.Failf("gotype", "%s has no Read and Write", o.Type())
	}
	if e := x.Write(p); e != nil {
		t.Failf("write-error", "%s: writing fails: %v", pr.name, e)
	}
	p.Flush()
	return m.b
}

func (w *world) readObj(t *T, pr *proto, o reflect.Value, b []byte) {
	m := newMem(b)
	p := pr.mk(m)
	if e := o.Interface().(rw).Read(p); e != nil {
		t.Failf("read-error", "%s: reading %q fails: %v", pr.name, b, e)
	}
	if m.off != len(m.b) && pr != pJSON && pr != pSimp {
		t.Failf("read-rest", "%s: reading leaves %d of %d bytes", pr.name, len(m.b)-m.off, len(b))
	}
}

func progType(p *idl.Program, name string) *idl.Type {
	return &idl.Type{Kind: "named", Prog: p, Name: name}
}

// checkStruct explores one struct or exception.
func (w *world) checkStruct(t *T, p *idl.Program, st *idl.Struct, max int) {
	ty := progType(p, st.Name)
	o := w.newStruct(t, st.Name)
	init := w.objMemory(t, st, o)
	if canon(init) != canon(initial(st)) {
		t.Failf("default", "a new %s has %v, not %v", st.Name, init, initial(st))
	}
	w.checkFields(t, st, o)
	mems := memories(st, max)
	for i, mem := range mems {
		t.Sub(fmt.Sprintf("%s %v", st.Name, mem))
		w.checkMemory(t, ty, st, mem, i%2 == 1)
		t.StateS(st.Name + canon(mem))
	}
	w.checkReads(t, ty, st)
	t.Sub("")
}

func (w *world) checkFields(t *T, st *idl.Struct, o reflect.Value) {
	x, ok := o.Interface().(thrift.TStruct)
	if !ok {
		t.Failf("gotype", "%s is no thrift.TStruct", o.Type())
	}
	if x.ThriftName() != st.Name {
		t.Failf("fields", "ThriftName of %s is %q", st.Name, x.ThriftName())
	}
	for which, fc := range []thrift.TFieldContainer{x, x.TStructFields()} {
		if fc.Len() != len(st.Fields) {
			t.Failf("fields", "%s has %d fields (%d)", st.Name, fc.Len(), which)
		}
		for _, f := range st.Fields {
			g := fc.FieldFromFieldId(f.ID)
			if g.Name() != f.Name || byte(g.TypeId()) != typeByte(f.T) || g.Id() != f.ID {
				t.Failf("fields", "field %d of %s is %q, type %d, id %d", f.ID, st.Name, g.Name(), g.TypeId(), g.Id())
			}
			if fc.FieldIdFromFieldName(f.Name) != f.ID || fc.FieldNameFromFieldId(f.ID) != f.Name {
				t.Failf("fields", "field %d of %s has name %q", f.ID, st.Name, fc.FieldNameFromFieldId(f.ID))
			}
		}
	}
}

func (w *world) checkMemory(t *T, ty *idl.Type, st *idl.Struct, mem Val, basic bool) {
	o := w.newStruct(t, st.Name)
	w.fill(t, st, o, mem, basic)
	if got := w.objMemory(t, st, o); canon(got) != canon(mem) {
		t.Failf("memory", "a %s filled with %v has %v", st.Name, mem, got)
	}
	// what the object tells of itself
	byID := o.MethodByName("AttributeByFieldId")
	for _, f := range st.Fields {
		m, has := fieldOf(mem, f.ID)
		if byID.IsValid() {
			r := byID.Call([]reflect.Value{reflect.ValueOf(f.ID)})[0]
			got, ok := w.memory(t, f.T, r)
			if ok != has || has && canon(got) != canon(m) {
				t.Failf("attribute", "AttributeByFieldId(%d) is %v, not %v", f.ID, got, m)
			}
		}
		d, hasDef := initialField(f)
		is := o.MethodByName("IsSet" + goName(f.Name))
		if f.Req == idl.Optional && !is.IsValid() && o.MethodByName("IsSet"+goName(f.Name+"_a1")).Kind() == reflect.Invalid && o.MethodByName("IsSet"+goName(strings.ToLower(f.Name)+"_a1")).Kind() == reflect.Invalid {
			t.Failf("isset", "there is no IsSet%s", goName(f.Name))
		}
		if is.IsValid() {
			set := is.Call(nil)[0].Bool()
			switch {
			case !has:
				if set {
					t.Failf("isset", "IsSet%s is true though the field has no value", goName(f.Name))
				}
			case !hasDef && f.Def == nil && len(m.E) == 0 && m.T >= tMAP && m.T <= tLIST:
				// an empty container counts as unset
			case f.Def == nil && hasDef && canon(m) == canon(d):
				if set {
					t.Failf("isset", "IsSet%s is true for the value %v of a new struct", goName(f.Name), m)
				}
			case hasDef && canon(m) == canon(d):
				// the default value: either
			default:
				if !set {
					t.Failf("isset", "IsSet%s is false though the field is %v", goName(f.Name), m)
				}
			}
		}
	}
	for _, pr := range append(rwProtos, pSimp) {
		b := w.writeObj(t, pr, o)
		t.Ops(1)
		t.Trace()
		if pr != pSimp {
			wire, err := decode(pr, ty, b)
			if err != nil {
				t.Failf("wire", "%s: %v was written as %q: %v", pr.name, mem, b, err)
			}
			if err := wireOK(ty, mem, wire); err != nil {
				t.Failf("wire", "%s: %v: %v", pr.name, mem, err)
			}
			o2 := w.newStruct(t, st.Name)
			w.readObj(t, pr, o2, b)
			if got, want := w.objMemory(t, st, o2), afterRead(ty, wire); canon(got) != canon(want) {
				t.Failf("read", "%s: %v was read as %v", pr.name, want, got)
			}
			// and once more, from what was read
			b2 := w.writeObj(t, pr, o2)
			wire2, err := decode(pr, ty, b2)
			if err == nil {
				err = wireOK(ty, afterRead(ty, wire), wire2)
			}
			if err != nil {
				t.Failf("rewrite", "%s: %v read and written again: %v", pr.name, mem, err)
			}
			continue
		}
		o2 := w.newStruct(t, st.Name)
		w.readObj(t, pr, o2, b)
		got := w.objMemory(t, st, o2)
		if err := sameAfter(ty, mem, got); err != nil {
			t.Failf("read", "%s: %v was read as %v: %v", pr.name, mem, got, err)
		}
	}
}

// sameAfter compares memory with what it is after a round trip.
func sameAfter(ty *idl.Type, mem, got Val) error {
	for _, f := range structOf(ty).Fields {
		m, has := fieldOf(mem, f.ID)
		g, hasG := fieldOf(got, f.ID)
		if has && hasG && canon(m) != canon(g) && kindOf(f.T) != "struct" {
			if !strings.Contains(m.String(), "{") {
				return fmt.Errorf("field %s: %v, not %v", f.Name, g, m)
			}
		}
		if has && !hasG && !(f.Req == idl.Optional && len(m.E) == 0) {
			return fmt.Errorf("field %s with %v is lost", f.Name, m)
		}
		if !has && hasG && f.Def == nil {
			return fmt.Errorf("field %s appears with %v", f.Name, g)
		}
	}
	return nil
}

// checkReads reads what another program may write: any of the fields, in any
// order, with fields this one does not know.
func (w *world) checkReads(t *T, ty *idl.Type, st *idl.Struct) {
	n := len(st.Fields)
	var sets []int
	if n <= 3 {
		for m := 0; m < 1<<uint(n); m++ {
			sets = append(sets, m)
		}
	} else {
		sets = append(sets, 0, 1<<uint(n)-1)
		for i := 0; i < n && n < 30; i++ {
			sets = append(sets, 1<<uint(i), (1<<uint(n)-1)&^(1<<uint(i)))
		}
	}
	used := map[int]bool{}
	for _, f := range st.Fields {
		used[f.ID] = true
	}
	unknown := []Field{}
	for _, id := range []int16{29999, 7, -3, 2} {
		if !used[int(id)] {
			unknown = append(unknown, fld(id, []Val{vI32(9), vStruct(fld(1, vBool(true)), fld(2, vStr("z"))), vList(tSTRING, vStr("q"), vStr("")), vMap(tI16, tBOOL, vI16(3), vBool(false))}[len(unknown)]))
		}
	}
	for k, m := range sets {
		var fs []Field
		for i, f := range st.Fields {
			if m&(1<<uint(i)) != 0 {
				vs := values(f.T, 0)
				fs = append(fs, Field{int16(f.ID), f.Name, wireOf(f.T, vs[k%len(vs)])})
			}
		}
		var variants [][]Field
		variants = append(variants, fs)
		rev := make([]Field, len(fs))
		for i := range fs {
			rev[len(fs)-1-i] = fs[i]
		}
		if len(fs) > 1 {
			variants = append(variants, rev)
		}
		for i := 0; i <= len(fs) && i < 4; i++ {
			u := unknown[(k+i)%len(unknown)]
			variants = append(variants, append(append(append([]Field{}, fs[:i]...), u), fs[i:]...))
		}
		for _, v := range variants {
			wire := Val{T: tSTRUCT, Fields: v}
			t.Sub(fmt.Sprintf("%s reads %v", st.Name, wire))
			for _, pr := range rwProtos {
				o := w.newStruct(t, st.Name)
				w.readObj(t, pr, o, encode(pr, wire))
				t.Ops(1)
				t.Trace()
				if got, want := w.objMemory(t, st, o), afterRead(ty, wire); canon(got) != canon(want) {
					t.Failf("read", "%s: %v was read as %v, not %v", pr.name, wire, got, want)
				}
			}
		}
	}
}

// wireOf gives a wire value of memory: with all fields that have a value.
func wireOf(t *idl.Type, m Val) Val { return m }

// checkEnum explores an enum.
func (w *world) checkEnum(t *T, e *idl.Enum) {
	name := goName(e.Name)
	mk := w.pkg.Enums[name]
	if mk == nil {
		t.Failf("missing", "there is no enum type %s", name)
	}
	ns := e.Numbers()
	first := map[int]string{}
	from := w.pkg.Froms["From"+name+"String"]
	if from == nil {
		t.Failf("missing", "there is no From%sString", name)
	}
	type enum interface {
		String() string
		Value() int
		IsEnum() bool
	}
	ask := func(x interface{}) enum {
		y, ok := x.(enum)
		if !ok {
			t.Failf("gotype", "%T is no enum", x)
		}
		return y
	}
	for i, v := range e.Vals {
		t.Ops(1)
		t.StateS(e.Name + "." + v.Name)
		c := w.pkg.Values[name+"_"+v.Name]
		if c == nil {
			t.Failf("missing", "there is no constant %s_%s", name, v.Name)
		}
		x := ask(c())
		if x.Value() != ns[i] || reflect.TypeOf(c()) != reflect.TypeOf(mk(0)) || c() != mk(int64(ns[i])) || !x.IsEnum() {
			t.Failf("enum", "%s.%s has value %d, not %d", e.Name, v.Name, x.Value(), ns[i])
		}
		if _, ok := first[ns[i]]; !ok {
			first[ns[i]] = v.Name
		}
		if want := name + "_" + first[ns[i]]; x.String() != want {
			t.Failf("enum", "the text of %s.%s is %q, not %q", e.Name, v.Name, x.String(), want)
		}
		if got := from(name + "_" + v.Name); got != c() {
			t.Failf("enum", "From%sString(%q) is %v", name, name+"_"+v.Name, got)
		}
	}
	for n := -12; n <= 12; n++ {
		if _, ok := first[n]; !ok {
			t.Ops(1)
			if s := ask(mk(int64(n))).String(); s != "<UNSET>" {
				t.Failf("enum", "the text of the value %d, which %s does not have, is %q", n, e.Name, s)
			}
		}
	}
	for _, s := range []string{"", "x", name, name + "_", name + "_zzz"} {
		t.Ops(1)
		if got := ask(from(s)).Value(); got != -10000 {
			t.Failf("enum", "From%sString(%q) is %d", name, s, got)
		}
	}
}

func (w *world) checkConst(t *T, p *idl.Program, c *idl.Const) {
	var found []string
	for n := range w.pkg.Values {
		if strings.HasSuffix(n, "_"+goName(c.Name)) {
			found = append(found, n)
		}
	}
	if len(found) != 1 {
		t.Failf("missing", "constant %s is %v", c.Name, found)
	}
	x := reflect.ValueOf(w.pkg.Values[found[0]]())
	want := literal(c.T, c.V)
	t.Ops(1)
	t.StateS(c.Name)
	// constants without a Go type take the one they are used with
	var got Val
	if k := kindOf(c.T); scalarKind(k) || k == "enum" {
		nt := map[string]reflect.Type{"bool": reflect.TypeOf(false), "byte": reflect.TypeOf(byte(0)), "i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
			"double": reflect.TypeOf(0.0), "string": reflect.TypeOf(""), "enum": reflect.TypeOf(int64(0))}[k]
		if k == "string" && x.Kind() != reflect.String || !x.CanConvert(nt) {
			t.Failf("gotype", "constant %s is of type %s", c.Name, x.Type())
		}
		y := x.Convert(nt)
		if k != "bool" && k != "string" && fmt.Sprint(y.Interface()) != fmt.Sprint(x.Interface()) && !(k == "byte" && x.Type() == reflect.TypeOf(0)) && !(k == "double") && k != "enum" {
			t.Failf("const", "constant %s is %v", c.Name, x)
		}
		got, _ = w.memory(t, c.T, y)
	} else {
		var ok bool
		if got, ok = w.memory(t, c.T, x); !ok {
			t.Failf("const", "constant %s has no value", c.Name)
		}
	}
	if canon(got) != canon(want) {
		t.Failf("const", "constant %s is %v, not %v", c.Name, got, want)
	}
}

// callT carries calls: whenever the client wants to read more than there is,
// the server takes the bytes sent so far.
type callT struct {
	req, resp *memT
	serve     func()
}

func (c *callT) IsOpen() bool { return true }
func (c *callT) Open() error  { return nil }
func (c *callT) Close() error { return nil }
func (c *callT) Peek() bool   { return true }
func (c *callT) Flush() error { return nil }
func (c *callT) Read(b []byte) (int, error) {
	if c.resp.off == len(c.resp.b) && c.req.off < len(c.req.b) {
		c.serve()
	}
	return c.resp.Read(b)
}
func (c *callT) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(c, b) }
func (c *callT) Write(b []byte) (int, error)   { return c.req.Write(b) }

var prefixRE = regexp.MustCompile(`^[qQ](\d+)x`)

// answer is what a handler does with a call.
type answer_ struct {
	ret    *Val
	throws int // index of the exception, or -1
	exc    Val
	err    error
}

func (w *world) checkService(t *T, p *idl.Program, s *idl.Service, all []*idl.Func) {
	sv := w.pkg.Services[goName(s.Name)]
	if sv == nil {
		t.Failf("missing", "there is no service %s", goName(s.Name))
	}
	for _, fn := range all {
		w.checkFunc(t, p, s, sv, fn, all)
	}
	t.Sub("")
	for _, fn := range all {
		w.checkReplies(t, sv, fn)
		w.checkBadRequests(t, sv, fn)
	}
	t.Sub("")
	// a function there is not
	for _, pr := range rwProtos {
		for _, name := range []string{"", "zz_none", goName(s.Name)} {
			t.Sub("unknown function " + name)
			in, out := newMem(nil), newMem(nil)
			ip := pr.mk(in)
			writeMsg(ip, Msg{Name: name, Type: 1, Seq: 7, Body: vStruct(fld(1, vI32(3)))})
			writeMsg(ip, Msg{Name: name, Type: 1, Seq: 8, Body: vStruct()})
			proc := sv.Processor(func(fn string, a []interface{}) []interface{} {
				t.Failf("unknown-function", "%s was called", fn)
				return nil
			})
			op := pr.mk(out)
			for k := 0; k < 2; k++ {
				proc.Process(ip, op)
				n, ty, seq, err := op2(pr, out).ReadMessageBegin()
				t.Ops(1)
				if err != nil || n != name || ty != thrift.EXCEPTION || int(seq) != 7+k {
					t.Failf("unknown-function", "%s: reply is %q type %v seq %d %v", pr.name, n, ty, seq, err)
				}
				out.b, out.off = nil, 0
			}
		}
	}
	t.Sub("")
}

// zeroArgs gives the first value of each argument.
func (w *world) zeroArgs(t *T, fn *idl.Func, m reflect.Value) []reflect.Value {
	if !m.IsValid() || m.Type().NumIn() != len(fn.Args) {
		t.Failf("missing", "there is no method for %s", fn.Name)
	}
	var in []reflect.Value
	for i, a := range fn.Args {
		in = append(in, w.value(t, a.T, m.Type().In(i), values(a.T, 0)[0], false))
	}
	return in
}

// checkReplies gives the client replies that are no results.
func (w *world) checkReplies(t *T, sv *genreg.Service, fn *idl.Func) {
	if fn.Oneway {
		return
	}
	for _, pr := range rwProtos {
		send := func(reply []byte) (err error) {
			c := &callT{req: newMem(nil), resp: newMem(reply)}
			c.serve = func() {}
			client := reflect.ValueOf(sv.ClientFactory(c, fixedFactory{pr}))
			m := client.MethodByName(goName(fn.Name))
			out := m.Call(w.zeroArgs(t, fn, m))
			t.Ops(1)
			err, _ = out[len(out)-1].Interface().(error)
			return err
		}
		encode := func(m Msg) []byte {
			x := newMem(nil)
			writeMsg(pr.mk(x), m)
			return x.b
		}
		for code := int32(0); code <= 7; code++ {
			t.Sub(fmt.Sprintf("%s %s answered with exception %d", pr.name, fn.Name, code))
			b := encode(Msg{Name: fn.Name, Type: 3, Seq: 1, Body: vStruct(Field{1, "message", vStr("no way")}, Field{2, "type", vI32(code)})})
			err := send(b)
			ae, ok := err.(thrift.TApplicationException)
			if !ok || ae.TypeId() != int32(code) || !strings.Contains(ae.Error(), "no way") {
				t.Failf("reply-exception", "the client has %v (%T)", err, err)
			}
		}
		for _, seq := range []int32{0, 2, -1, 256, 65537} {
			t.Sub(fmt.Sprintf("%s %s answered with sequence id %d", pr.name, fn.Name, seq))
			err := send(encode(Msg{Name: fn.Name, Type: 2, Seq: seq, Body: vStruct()}))
			if ae, ok := err.(thrift.TApplicationException); !ok || ae.TypeId() != thrift.BAD_SEQUENCE_ID {
				t.Failf("reply-seqid", "the client has %v (%T)", err, err)
			}
		}
		if pr != pBin && pr != pComp {
			continue
		}
		res := Val{T: tSTRUCT}
		if fn.Ret.Kind != "void" {
			res.Fields = append(res.Fields, Field{0, "success", values(fn.Ret, 0)[0]})
		}
		full := encode(Msg{Name: fn.Name, Type: 2, Seq: 1, Body: res})
		for n := range full {
			t.Sub(fmt.Sprintf("%s %s answered with the first %d of %q", pr.name, fn.Name, n, full))
			if err := send(full[:n]); err == nil {
				t.Failf("reply-truncated", "the client has no error")
			}
		}
	}
}

// checkBadRequests gives the processor requests that end early.
func (w *world) checkBadRequests(t *T, sv *genreg.Service, fn *idl.Func) {
	body := Val{T: tSTRUCT}
	for _, a := range fn.Args {
		body = with(body, a, values(a.T, 0)[0])
	}
	for _, pr := range []*proto{pBin, pComp} {
		x := newMem(nil)
		writeMsg(pr.mk(x), Msg{Name: fn.Name, Type: 1, Seq: 9, Body: body})
		for n := range x.b {
			t.Sub(fmt.Sprintf("%s %s asked with the first %d of %q", pr.name, fn.Name, n, x.b))
			out := newMem(nil)
			proc := sv.Processor(func(f string, a []interface{}) []interface{} {
				t.Failf("bad-request", "%s was called", f)
				return nil
			})
			_, err := proc.Process(pr.mk(newMem(x.b[:n])), pr.mk(out))
			t.Ops(1)
			if err == nil {
				t.Failf("bad-request", "there is no error")
			}
			if len(out.b) > 0 {
				name, ty, seq, err := op2(pr, out).ReadMessageBegin()
				if err != nil || name != fn.Name || ty != thrift.EXCEPTION || seq != 9 {
					t.Failf("bad-request", "reply is %q type %v seq %d %v", name, ty, seq, err)
				}
			}
		}
	}
}

// checkProtocolClient calls through a client made with protocols.
func (w *world) checkProtocolClient(t *T, sv *genreg.Service, fn *idl.Func) {
	for _, pr := range rwProtos {
		t.Sub(fmt.Sprintf("%s %s by a client made with protocols", pr.name, fn.Name))
		c := &callT{req: newMem(nil), resp: newMem(nil)}
		calls := 0
		method := goName(fn.Name)
		proc := sv.Processor(func(f string, a []interface{}) []interface{} {
			calls++
			rs := make([]interface{}, 2+len(fn.Throws))
			return rs
		})
		sip, sop := pr.mk(c.req), pr.mk(c.resp)
		c.serve = func() { proc.Process(sip, sop) }
		m := reflect.ValueOf(sv.ClientProtocol(c, pr.mk(c), pr.mk(c))).MethodByName(method)
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Failf("client-protocols", "calling %s panics: %v", fn.Name, r)
				}
			}()
			m.Call(w.zeroArgs(t, fn, m))
		}()
		t.Ops(1)
		if fn.Oneway && calls == 0 {
			c.serve()
		}
		if calls != 1 {
			t.Failf("client-protocols", "calling %s called the handler %d times", fn.Name, calls)
		}
	}
}

func op2(pr *proto, m *memT) thrift.TProtocol { return pr.mk(&memT{b: m.b}) }

func (w *world) checkFunc(t *T, p *idl.Program, s *idl.Service, sv *genreg.Service, fn *idl.Func, all []*idl.Func) {
	var argSets [][]Val
	most := 1
	for _, a := range fn.Args {
		if n := len(values(a.T, 0)); n > most {
			most = n
		}
	}
	for k := 0; k < most; k++ {
		var as []Val
		for i, a := range fn.Args {
			vs := values(a.T, 0)
			as = append(as, vs[(k+i)%len(vs)])
		}
		argSets = append(argSets, as)
	}
	var answers []answer_
	if fn.Ret.Kind == "void" {
		answers = append(answers, answer_{throws: -1})
	} else {
		for _, v := range values(fn.Ret, 0) {
			v := v
			answers = append(answers, answer_{ret: &v, throws: -1})
		}
	}
	for i, x := range fn.Throws {
		for _, v := range values(x.T, 0) {
			answers = append(answers, answer_{throws: i, exc: v})
		}
	}
	answers = append(answers, answer_{throws: -1, err: errors.New("handler failed")})
	for _, pr := range rwProtos {
		for i := 0; i < len(argSets) || i < len(answers); i++ {
			// a failing call last, and others after it
			w.call(t, sv, pr, p, fn, argSets[i%len(argSets)], answers[i%len(answers)], answers[(i+1)%len(answers)])
		}
	}
}

func (w *world) call(t *T, sv *genreg.Service, pr *proto, p *idl.Program, fn *idl.Func, args []Val, answers ...answer_) {
	t.Sub(fmt.Sprintf("%s %s(%v)", pr.name, fn.Name, args))
	c := &callT{req: newMem(nil), resp: newMem(nil)}
	var got []Val
	var gotHas []bool
	calls := 0
	var ans answer_
	method := goName(fn.Name)
	nret := 1 + len(fn.Throws)
	if fn.Ret.Kind != "void" {
		nret++
	}
	var client reflect.Value
	proc := sv.Processor(func(name string, as []interface{}) []interface{} {
		calls++
		if name != method {
			t.Failf("call", "%s was called instead of %s", name, method)
		}
		got, gotHas = nil, nil
		for i, a := range as {
			v, ok := w.memory(t, fn.Args[i].T, reflect.ValueOf(a))
			got, gotHas = append(got, v), append(gotHas, ok)
		}
		rs := make([]interface{}, nret)
		k := 0
		ct := client.MethodByName(method).Type()
		if fn.Ret.Kind != "void" {
			if ans.ret != nil {
				rs[0] = w.value(t, fn.Ret, ct.Out(0), *ans.ret, false).Interface()
			}
			k = 1
		}
		if ans.throws >= 0 {
			rs[k+ans.throws] = w.object(t, fn.Throws[ans.throws].T, ans.exc).Interface()
		}
		if ans.err != nil {
			rs[nret-1] = ans.err
		}
		return rs
	})
	sip, sop := pr.mk(c.req), pr.mk(c.resp)
	served := 0
	c.serve = func() { served++; proc.Process(sip, sop) }
	client = reflect.ValueOf(sv.ClientFactory(c, fixedFactory{pr}))
	m := client.MethodByName(method)
	if !m.IsValid() {
		t.Failf("missing", "the client has no method %s", method)
	}
	if m.Type().NumIn() != len(args) {
		t.Failf("gotype", "%s takes %d arguments", method, m.Type().NumIn())
	}
	for n, a := range answers {
		ans = a
		if fn.Oneway {
			ans = answer_{throws: -1}
		}
		var in []reflect.Value
		for i, a := range args {
			in = append(in, w.value(t, fn.Args[i].T, m.Type().In(i), a, false))
		}
		before := calls
		start := len(c.req.b)
		out := m.Call(in)
		t.Ops(1)
		t.Trace()
		if pr == pBin {
			w.checkRequest(t, p, fn, args, c.req.b[start:], int32(n+1))
		}
		errv, _ := out[len(out)-1].Interface().(error)
		if fn.Oneway {
			if errv != nil {
				t.Failf("oneway", "the call fails: %v", errv)
			}
			if calls == before {
				c.serve()
			}
			if len(c.resp.b) > 0 {
				t.Failf("oneway", "a oneway call was answered with %q", c.resp.b)
			}
		}
		if calls != before+1 {
			t.Failf("call", "the handler was called %d times", calls-before)
		}
		for i, a := range fn.Args {
			want := args[i]
			if !gotHas[i] && len(want.E) == 0 && want.T >= tMAP && want.T <= tLIST {
				continue
			}
			if !gotHas[i] || canon(got[i]) != canon(want) {
				t.Failf("call", "argument %s arrived as %v (%v), not %v", a.Name, got[i], gotHas[i], want)
			}
		}
		if fn.Oneway {
			continue
		}
		if ans.err != nil {
			ae, ok := errv.(thrift.TApplicationException)
			if !ok || ae.TypeId() != thrift.INTERNAL_ERROR || !strings.Contains(ae.Error(), "handler failed") {
				t.Failf("call", "the handler failed, but the client has %v (%T)", errv, errv)
			}
			continue
		}
		if errv != nil {
			t.Failf("call", "the client has error %v (%T)", errv, errv)
		}
		k := 0
		if fn.Ret.Kind != "void" {
			k = 1
			if ans.throws < 0 {
				r, has := w.memory(t, fn.Ret, out[0])
				if !has || canon(r) != canon(*ans.ret) {
					t.Failf("call", "the result arrived as %v (%v), not %v", r, has, *ans.ret)
				}
			}
		}
		for i, x := range fn.Throws {
			r, has := w.memory(t, x.T, out[k+i])
			if has != (i == ans.throws) || has && canon(r) != canon(ans.exc) {
				t.Failf("call", "exception %s arrived as %v (%v), thrown was %d: %v", x.Name, r, has, ans.throws, ans.exc)
			}
		}
		if c.resp.off != len(c.resp.b) && pr == pBin {
			t.Failf("call", "the client left %d bytes of the reply", len(c.resp.b)-c.resp.off)
		}
	}
}

// fixedFactory makes protocols of one kind.
type fixedFactory struct{ pr *proto }

func (f fixedFactory) GetProtocol(t thrift.TTransport) thrift.TProtocol { return f.pr.mk(t) }

// checkRequest compares the bytes of a request with those the definition calls for.
func (w *world) checkRequest(t *T, p *idl.Program, fn *idl.Func, args []Val, b []byte, seq int32) {
	ty := byte(1)
	_ = ty
	head := encBinMsg(Msg{Name: fn.Name, Type: 1, Seq: seq, Body: vStruct()}, true)
	head = head[:len(head)-1]
	if len(b) < len(head) || !bytes.Equal(b[:3], head[:3]) || !bytes.Equal(b[4:len(head)], head[4:]) || b[3] != 1 && !(fn.Oneway && b[3] == 4) {
		t.Failf("request", "the request of %s begins with %q, not %q", fn.Name, b[:min(len(b), len(head))], head)
	}
	q := &idl.Program{Name: p.Name, Enums: p.Enums, Typedefs: p.Typedefs, Structs: append([]*idl.Struct{{Name: "\x00args", Fields: fn.Args}}, p.Structs...)}
	v, err := decode(pBin, progType(q, "\x00args"), b[len(head):])
	if err != nil {
		t.Failf("request", "the request of %s is %q: %v", fn.Name, b, err)
	}
	mem := Val{T: tSTRUCT}
	for i, f := range fn.Args {
		mem = with(mem, f, args[i])
	}
	if err := wireOK(progType(q, "\x00args"), mem, v); err != nil {
		t.Failf("request", "the request of %s: %v", fn.Name, err)
	}
}

func runBehaviour(c *Ctx, defs []definition, clean func(i int) bool, pr *prepared) {
	progs, members, err := mergedPrograms(defs, clean)
	if err != nil {
		fmt.Println(err)
		return
	}
	c.Par("merged", len(progs), func(i int) string { return progs[i].Name }, func(t *T, i int) {
		if pr.Merged[i] != "" {
			t.Failf("compile-merged", "%s", pr.Merged[i])
		}
	})
	type unit struct {
		id  string
		run func(t *T)
	}
	var units []unit
	max := c.Pick(60, 400)
	for k, p := range progs {
		p := p
		pkg := genreg.Packages[pkgPath(p)]
		if pkg == nil {
			continue
		}
		w := &world{pkg}
		owner := func(name string) string {
			if len(members[k]) == 1 {
				return defs[members[k][0]].sect
			}
			if m := prefixRE.FindStringSubmatch(name); m != nil {
				var i int
				fmt.Sscan(m[1], &i)
				return defs[i].text
			}
			return "support " + name
		}
		for _, st := range p.Structs {
			st := st
			if o := owner(st.Name); o[:7] != "support" || k == 0 {
				units = append(units, unit{"struct " + st.Name + " of " + o, func(t *T) { w.checkStruct(t, p, st, max) }})
			}
		}
		for _, e := range p.Enums {
			e := e
			if o := owner(e.Name); o[:7] != "support" || k == 0 {
				units = append(units, unit{"enum " + e.Name + " of " + o, func(t *T) { w.checkEnum(t, e) }})
			}
		}
		for _, x := range p.Consts {
			x := x
			units = append(units, unit{"const " + x.Name + " of " + owner(x.Name), func(t *T) { w.checkConst(t, p, x) }})
		}
		for _, s := range p.Services {
			s := s
			var all []*idl.Func
			for b := s; b != nil; b = p.FindService(b.Ext) {
				all = append(all, b.Funcs...)
			}
			units = append(units, unit{"service " + s.Name + " of " + owner(s.Name), func(t *T) { w.checkService(t, p, s, all) }})
			if len(all) > 0 {
				units = append(units, unit{"protocol client of " + s.Name + " of " + owner(s.Name), func(t *T) {
					if sv := w.pkg.Services[goName(s.Name)]; sv != nil {
						w.checkProtocolClient(t, sv, all[0])
					}
				}})
			}
		}
	}
	c.Par("behaviour", len(units), func(i int) string { return units[i].id }, func(t *T, i int) {
		units[i].run(t)
		t.Nontrivial()
	})
}
