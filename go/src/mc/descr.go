package main

import (
	"fmt"
	"strings"
	"thrift"
)

func init() {
	checks["C34"] = checkDef{"model_checking", runC34}
}

type typeFacts struct {
	name                                                           string
	base, empty, enum, num, str, cont, strct, mp, list, set, isInt bool
}

// the classification, written down from the definition of the types
var typeTable = map[byte]typeFacts{
	0:   {name: "STOP", empty: true},
	1:   {name: "VOID", empty: true},
	2:   {name: "BOOL", base: true, num: true},
	3:   {name: "BYTE", base: true, num: true, isInt: true},
	4:   {name: "DOUBLE", base: true, num: true},
	6:   {name: "I16", base: true, num: true, isInt: true},
	8:   {name: "I32", base: true, num: true, isInt: true},
	10:  {name: "I64", base: true, num: true, isInt: true},
	11:  {name: "STRING", base: true, str: true},
	12:  {name: "STRUCT", strct: true},
	13:  {name: "MAP", cont: true, mp: true},
	14:  {name: "SET", cont: true, set: true},
	15:  {name: "LIST", cont: true, list: true},
	16:  {name: "ENUM", base: true, enum: true, num: true, str: true},
	17:  {name: "UTF16", base: true, str: true},
	18:  {name: "BINARY", base: true, str: true},
	127: {name: "GENERIC"},
}

func runC34(c *Ctx) {
	c.Rule("all 256 type codes against the table of names and classes, all pairs of codes in every integer type; every descriptor over the product of names, types, numbers and fields within the bounds, and all pairs of messages and of fields")
	c.Par("types", 256, func(i int) string { return fmt.Sprint(i) }, func(t *T, i int) {
		ty := thrift.TType(i)
		f, ok := typeTable[byte(i)]
		if !ok {
			f.name = "Unknown"
		}
		mustTrue(ty.String() == f.name, "name", "type %d is called %q", i, ty.String())
		for _, p := range []struct {
			name      string
			got, want bool
		}{
			{"IsBaseType", ty.IsBaseType(), f.base}, {"IsEmptyType", ty.IsEmptyType(), f.empty}, {"IsEnum", ty.IsEnum(), f.enum},
			{"IsNumericType", ty.IsNumericType(), f.num}, {"IsStringType", ty.IsStringType(), f.str}, {"IsContainer", ty.IsContainer(), f.cont},
			{"IsStruct", ty.IsStruct(), f.strct}, {"IsMap", ty.IsMap(), f.mp}, {"IsList", ty.IsList(), f.list}, {"IsSet", ty.IsSet(), f.set}, {"IsInt", ty.IsInt(), f.isInt},
		} {
			mustTrue(p.got == p.want, "class", "type %d (%s): %s is %v", i, f.name, p.name, p.got)
		}
		wire := byte(i)
		if i == 18 {
			wire = 11
		}
		mustTrue(ty.ThriftTypeId() == wire, "wire", "type %d has wire id %d", i, ty.ThriftTypeId())
		mustTrue(ty.Coerce(nil) == 0 && ty.Coerce("8") == 0 && ty.Coerce(struct{}{}) == 0, "coerce", "type %d taken from what is no number", i)
		for j := 0; j < 256; j++ {
			for _, v := range []interface{}{thrift.TType(j), byte(j), j, int16(j), int32(j), int64(j), uint(j), uint16(j), uint32(j), uint64(j), float32(j), float64(j), int8(j)} {
				mustTrue(ty.Coerce(v) == thrift.TType(j), "coerce", "%T %d as a type is %d", v, j, ty.Coerce(v))
				mustTrue(ty.LessType(v) == (i < j), "less", "type %d less than %T %d: %v", i, v, j, ty.LessType(v))
				t.Ops(2)
			}
		}
		t.Trace()
		t.State(hInts(90, i))
	})
	names := []string{"", "a", "b", "ab", "é\x00"}
	seqs := []int{0, 1, -1, 1<<31 - 1, -1 << 31, 1 << 40}
	msgTypes := []thrift.TMessageType{0, 1, 2, 3, 4, 127, -1}
	type msg struct {
		n string
		t thrift.TMessageType
		s int
	}
	var ms []msg
	for _, n := range names {
		for _, ty := range msgTypes {
			for _, s := range seqs {
				ms = append(ms, msg{n, ty, s})
			}
		}
	}
	c.Par("messages", len(ms), func(i int) string { return fmt.Sprint(ms[i]) }, func(t *T, i int) {
		m := ms[i]
		x := thrift.NewTMessage(m.n, m.t, m.s)
		mustTrue(x.Name() == m.n && x.TypeId() == m.t && x.SeqId() == m.s, "message", "made of %v: %q %v %v", m, x.Name(), x.TypeId(), x.SeqId())
		for _, o := range ms {
			y := thrift.NewTMessage(o.n, o.t, o.s)
			mustTrue(x.Equals(y) == (m == o), "equal", "%v equals %v: %v", m, o, x.Equals(y))
		}
		mustTrue(!x.Equals(nil), "equal", "%v equals nothing", m)
		d := thrift.NewTMessageDefault()
		mustTrue(d.Name() == "" && d.TypeId() == 0 && d.SeqId() == 0 && d.Equals(thrift.EMPTY_MESSAGE), "default", "the default message")
		t.Trace()
		t.Ops(len(ms))
		t.State(hInts(91, i))
	})
	ids := []int{0, 1, -1, 2, 15, 32767, -32768}
	type fld struct {
		n  string
		t  byte
		id int
	}
	var fs []fld
	for _, n := range names {
		for _, ty := range []byte{0, 2, 8, 11, 12, 18, 127, 200} {
			for _, id := range ids {
				fs = append(fs, fld{n, ty, id})
			}
		}
	}
	c.Par("fields", len(fs), func(i int) string { return fmt.Sprint(fs[i]) }, func(t *T, i int) {
		f := fs[i]
		x := thrift.NewTField(f.n, thrift.TType(f.t), f.id)
		mustTrue(x.Name() == f.n && x.TypeId() == thrift.TType(f.t) && x.Id() == f.id, "field", "made of %v: %q %v %v", f, x.Name(), x.TypeId(), x.Id())
		mustTrue(strings.Contains(x.String(), f.n) && strings.Contains(x.String(), fmt.Sprint(f.id)), "text", "%v reads %s", f, x)
		mustTrue(!x.Equals(nil) && !x.Equals(3), "equal", "%v equals what is no field", f)
		if r, ok := x.CompareTo(nil); !ok || r <= 0 {
			t.Failf("compare", "%v compared with nothing: %d %v", f, r, ok)
		}
		if _, ok := x.CompareTo("x"); ok {
			t.Failf("compare", "%v compares with a text", f)
		}
		for _, o := range fs {
			y := thrift.NewTField(o.n, thrift.TType(o.t), o.id)
			mustTrue(x.Equals(y) == (f.t == o.t && f.id == o.id), "equal", "%v equals %v: %v", f, o, x.Equals(y))
			want := 0
			less := func(l, g bool) {
				if want == 0 && l {
					want = -1
				} else if want == 0 && g {
					want = 1
				}
			}
			less(f.id < o.id, f.id > o.id)
			less(f.t < o.t, f.t > o.t)
			less(f.n < o.n, f.n > o.n)
			r, ok := x.CompareTo(y)
			mustTrue(ok && r == want, "compare", "%v compared with %v: %d, %v", f, o, r, ok)
		}
		d := thrift.NewTFieldDefault()
		mustTrue(d.Name() == "" && d.TypeId() == 0 && d.Id() == 0, "default", "the default field is %v", d)
		t.Trace()
		t.Ops(2 * len(fs))
		t.State(hInts(92, i))
	})
	// structs: names and field lists, in every order
	var lists [][]int
	pool := []fld{{"a", 8, 1}, {"b", 11, 2}, {"", 2, 3}, {"d", 12, -1}, {"e", 4, 300}}
	var gen func(cur []int)
	gen = func(cur []int) {
		lists = append(lists, append([]int(nil), cur...))
		if len(cur) == c.Pick(4, 5) {
			return
		}
	next:
		for k := range pool {
			for _, u := range cur {
				if u == k {
					continue next
				}
			}
			gen(append(cur, k))
		}
	}
	gen(nil)
	c.Par("structs", len(names)*len(lists), func(i int) string {
		return fmt.Sprintf("%q %v", names[i%len(names)], lists[i/len(names)])
	}, func(t *T, i int) {
		n, l := names[i%len(names)], lists[i/len(names)]
		var in []thrift.TField
		for _, k := range l {
			f := pool[k]
			in = append(in, thrift.NewTField(f.n, thrift.TType(f.t), f.id))
		}
		s := thrift.NewTStruct(n, in)
		for k := range in {
			in[k] = thrift.NewTField("other", 3, 77) // the caller may reuse its list
		}
		mustTrue(s.ThriftName() == n && s.TStructName() == n && strings.Contains(s.String(), n), "struct", "a struct made as %q is %q %q %q", n, s.ThriftName(), s.TStructName(), s)
		mustTrue(s.Len() == len(l) && s.TStructFields().Len() == len(l), "struct", "%d fields of %d", s.Len(), len(l))
		has := map[int]bool{}
		for _, k := range l {
			has[k] = true
		}
		for k, f := range pool {
			for _, fc := range []thrift.TFieldContainer{s, s.TStructFields()} {
				g := fc.FieldFromFieldId(f.id)
				mustTrue(fc.Contains(f.id) == has[k] && fc.Contains(int16(f.id)) == has[k], "member", "field %d is member: %v", f.id, fc.Contains(f.id))
				if has[k] {
					mustTrue(g.Id() == f.id && g.Name() == f.n && byte(g.TypeId()) == f.t, "field", "field %d is %v", f.id, g)
					mustTrue(fc.FieldNameFromFieldId(f.id) == f.n, "name", "field %d is named %q", f.id, fc.FieldNameFromFieldId(f.id))
				} else {
					mustTrue(g.Id() == 0 && g.TypeId() == 0, "absent", "absent field %d is %v", f.id, g)
				}
				if f.n != "" {
					mustTrue((fc.FieldIdFromFieldName(f.n) == f.id) == (has[k] || f.id == -1), "id", "the field named %q has id %d", f.n, fc.FieldIdFromFieldName(f.n))
				}
			}
			mustTrue(s.AttributeFromFieldId(f.id) == nil && s.AttributeFromFieldName(f.n) == nil, "value", "a descriptor has values")
		}
		// equal exactly to descriptors of the same name and fields
		for j, m := range lists {
			if len(m) > 2 && j%7 != i%7 {
				continue
			}
			same := len(m) == len(l)
			var in2 []thrift.TField
			for _, k := range m {
				same = same && has[k]
				f := pool[k]
				in2 = append(in2, thrift.NewTField(f.n, thrift.TType(f.t), f.id))
			}
			for _, n2 := range names {
				o := thrift.NewTStruct(n2, in2)
				mustTrue(s.Equals(o) == (same && n == n2), "equal", "%q %v equals %q %v: %v", n, l, n2, m, s.Equals(o))
				a, ok1 := s.CompareTo(o)
				b, ok2 := o.CompareTo(s)
				mustTrue(ok1 && ok2 && a == -b && (a == 0) == (same && n == n2), "compare", "%q %v compared with %q %v: %d and %d", n, l, n2, m, a, b)
				t.Ops(3)
			}
		}
		e := thrift.NewTStructEmpty(n)
		mustTrue(e.Len() == 0 && e.ThriftName() == n && e.Equals(s) == (len(l) == 0), "empty", "the empty struct %q", n)
		t.Trace()
		t.State(hInts(93, i))
	})
}
