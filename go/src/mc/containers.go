package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"thrift"
)

// ---------------------------------------------------------------- values

// recT is a struct as the generator emits them: it embeds a TStruct and gives
// its values through AttributeByFieldId.
type recT struct {
	thrift.TStruct
	A int32
	B string
}

func newRec(a int32, b string) *recT {
	return &recT{TStruct: thrift.NewTStruct("Rec", []thrift.TField{
		thrift.NewTField("a", thrift.I32, 1), thrift.NewTField("b", thrift.STRING, 2)}), A: a, B: b}
}

func (p *recT) AttributeByFieldId(id int) interface{} {
	switch id {
	case 1:
		return p.A
	case 2:
		return p.B
	}
	return nil
}

func (p *recT) CompareTo(other interface{}) (int, bool) {
	o, ok := other.(*recT)
	if !ok {
		return 0, false
	}
	if p.A != o.A {
		if p.A < o.A {
			return -1, true
		}
		return 1, true
	}
	return strings.Compare(p.B, o.B), true
}

// canon renders a value so that two values have the same rendering exactly
// when they are the same Thrift value (independent of the code under test's
// comparison).
func canon(v interface{}) string {
	switch b := v.(type) {
	case nil:
		return "nil"
	case []byte:
		return fmt.Sprintf("bytes:%x", b)
	case *recT:
		return fmt.Sprintf("rec:%d,%q", b.A, b.B)
	case thrift.TMap:
		var s []string
		for _, k := range b.Keys() {
			x, _ := b.Get(k)
			s = append(s, canon(k)+"=>"+canon(x))
		}
		sort.Strings(s)
		return fmt.Sprintf("map<%d,%d>{%s}", b.KeyType(), b.ValueType(), strings.Join(s, ";"))
	case thrift.TSet:
		var s []string
		for e := b.Front(); e != nil; e = e.Next() {
			s = append(s, canon(e.Value))
		}
		sort.Strings(s)
		return fmt.Sprintf("set<%d>{%s}", b.ElemType(), strings.Join(s, ";"))
	case thrift.TList:
		var s []string
		for i := 0; i < b.Len(); i++ {
			s = append(s, canon(b.At(i)))
		}
		return fmt.Sprintf("list<%d>{%s}", b.ElemType(), strings.Join(s, ";"))
	case float64:
		return "float64:" + strconv.FormatFloat(b, 'g', -1, 64)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func canons(l []interface{}) string {
	var s []string
	for _, v := range l {
		s = append(s, canon(v))
	}
	sort.Strings(s)
	return strings.Join(s, "|")
}

func canonSeq(l []interface{}) string {
	var s []string
	for _, v := range l {
		s = append(s, canon(v))
	}
	return strings.Join(s, "|")
}

func mkList(t thrift.TType, v ...interface{}) thrift.TList {
	l := thrift.NewTList(t, len(v))
	for _, x := range v {
		l.Push(x)
	}
	return l
}

func mkSet(t thrift.TType, v ...interface{}) thrift.TSet {
	l := thrift.NewTSet(t, len(v))
	for _, x := range v {
		l.Add(x)
	}
	return l
}

func mkMap(k, v thrift.TType, kv ...interface{}) thrift.TMap {
	l := thrift.NewTMap(k, v, len(kv)/2)
	for i := 0; i < len(kv); i += 2 {
		l.Set(kv[i], kv[i+1])
	}
	return l
}

// dom is a small domain of values of one Thrift type. vals are pairwise
// different values; alt are other Go representations of vals[0]; bad cannot
// be converted to the type.
type dom struct {
	name string
	typ  thrift.TType
	vals []interface{}
	alt  []interface{}
	bad  []interface{}
	// fresh makes the value again (for reference types), so that identity
	// never stands in for equality
	fresh func(i int) interface{}
}

func (d *dom) v(i int) interface{} {
	if d.fresh != nil {
		return d.fresh(i)
	}
	return d.vals[i]
}

func domains() []*dom {
	ds := []*dom{
		{name: "bool", typ: thrift.BOOL, vals: []interface{}{true, false}, alt: []interface{}{1, "true"}, bad: []interface{}{mkList(thrift.I32)}},
		{name: "byte", typ: thrift.BYTE, vals: []interface{}{byte(5), byte(0), byte(255), byte(7)}, alt: []interface{}{5, "5", int64(5)}, bad: []interface{}{"five", mkList(thrift.I32)}},
		{name: "i16", typ: thrift.I16, vals: []interface{}{int16(5), int16(-32768), int16(0), int16(300)}, alt: []interface{}{5, "5", int8(5)}, bad: []interface{}{"five", mkSet(thrift.I32)}},
		{name: "i32", typ: thrift.I32, vals: []interface{}{int32(5), int32(-70000), int32(0), int32(math.MaxInt32)}, alt: []interface{}{5, "5", float64(5)}, bad: []interface{}{"five", []interface{}{1}}},
		{name: "i64", typ: thrift.I64, vals: []interface{}{int64(5), int64(math.MinInt64), int64(0), int64(math.MaxInt64)}, alt: []interface{}{5, "5", uint16(5)}, bad: []interface{}{"five", mkMap(thrift.I32, thrift.I32)}},
		{name: "double", typ: thrift.DOUBLE, vals: []interface{}{5.5, math.Inf(-1), 0.0, -1e300}, alt: []interface{}{float32(5.5), "5.5"}, bad: []interface{}{"five", mkList(thrift.I32)}},
		{name: "string", typ: thrift.STRING, vals: []interface{}{"5", "", "a", "ab"}, alt: []interface{}{[]byte("5"), 5}, bad: []interface{}{mkList(thrift.I32), struct{}{}}},
		{name: "utf8", typ: thrift.UTF8, vals: []interface{}{"é", "", "a\x00", "b"}, alt: []interface{}{[]byte("é")}, bad: []interface{}{mkList(thrift.I32)}},
		{name: "binary", typ: thrift.BINARY, vals: []interface{}{[]byte("5"), []byte{}, []byte{0}, []byte{0, 255}}, alt: []interface{}{"5", 5}, bad: []interface{}{mkSet(thrift.I32)},
			fresh: func(i int) interface{} {
				return append([]byte{}, [][]byte{[]byte("5"), {}, {0}, {0, 255}}[i]...)
			}},
		{name: "list", typ: thrift.LIST, bad: []interface{}{5, mkSet(thrift.I32)}, fresh: func(i int) interface{} {
			switch i {
			case 0:
				return mkList(thrift.I32, 1, 2)
			case 1:
				return mkList(thrift.I32)
			case 2:
				return mkList(thrift.I32, 2, 1)
			}
			return mkList(thrift.STRING, "x")
		}},
		{name: "set", typ: thrift.SET, bad: []interface{}{"x", mkList(thrift.I32)}, fresh: func(i int) interface{} {
			switch i {
			case 0:
				return mkSet(thrift.I32, 1, 2)
			case 1:
				return mkSet(thrift.I32)
			case 2:
				return mkSet(thrift.I32, 2, 3)
			case 3:
				return mkSet(thrift.STRING, "x")
			}
			return mkSet(thrift.I32, 2, 1) // the same as 0
		}},
		{name: "map", typ: thrift.MAP, bad: []interface{}{true, mkList(thrift.I32)}, fresh: func(i int) interface{} {
			switch i {
			case 0:
				return mkMap(thrift.I32, thrift.STRING, 1, "a", 2, "b")
			case 1:
				return mkMap(thrift.I32, thrift.STRING)
			case 2:
				return mkMap(thrift.I32, thrift.STRING, 1, "b", 2, "a")
			case 3:
				return mkMap(thrift.I32, thrift.STRING, 1, "a", 3, "b")
			}
			return mkMap(thrift.I32, thrift.STRING, 2, "b", 1, "a")
		}},
		{name: "struct", typ: thrift.STRUCT, bad: []interface{}{3.5, mkList(thrift.I32), "x"}, fresh: func(i int) interface{} {
			switch i {
			case 0:
				return newRec(1, "a")
			case 1:
				return newRec(2, "a")
			case 2:
				return newRec(1, "b")
			}
			return newRec(-1, "")
		}},
	}
	for _, d := range ds {
		if d.vals == nil {
			for i := 0; i < 4; i++ {
				d.vals = append(d.vals, d.fresh(i))
			}
			if d.typ == thrift.SET || d.typ == thrift.MAP {
				d.alt = []interface{}{d.fresh(4)}
			}
		}
	}
	return ds
}

// quiet runs f and reports whether it panicked (a panic counts as a refusal).
func quiet(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

func drainIter(c <-chan interface{}) []interface{} {
	var l []interface{}
	for v := range c {
		l = append(l, v)
	}
	return l
}

// noGoroutines fails when goroutines started meanwhile are still running.
func noGoroutines(t *T, base int) {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Failf("goroutines", "%d goroutines are left running, %d were running before", runtime.NumGoroutine(), base)
}

func init() {
	checks["C23"] = checkDef{"model_checking", runC23}
	checks["C24"] = checkDef{"model_checking", runC24}
	checks["C25"] = checkDef{"model_checking", runC25}
	checks["C26"] = checkDef{"model_checking", runC26}
	checks["C27"] = checkDef{"model_checking", runC27}
	checks["C28"] = checkDef{"model_checking", runC28}
}

type cop struct {
	name string
	do   func(s *listState)
}

// ---------------------------------------------------------------- C23 lists

type listState struct {
	l thrift.TList
	m []interface{}
	d *dom
	// a refused operation panicked: what the list holds then is not prescribed
	broken bool
}

func (s *listState) same(full bool, what string) {
	l, m := s.l, s.m
	mustTrue(l.Len() == len(m), "list.len", "after %s: Len() = %d, want %d", what, l.Len(), len(m))
	for i := range m {
		mustTrue(canon(l.At(i)) == canon(m[i]), "list.at", "after %s: At(%d) = %s, want %s", what, i, canon(l.At(i)), canon(m[i]))
	}
	if !full {
		return
	}
	for _, i := range []int{-1, len(m), len(m) + 7} {
		i := i
		var got interface{}
		if !quiet(func() { got = l.At(i) }) {
			mustTrue(got == nil, "list.at-range", "after %s: At(%d) of %d elements yields %s", what, i, len(m), canon(got))
		}
	}
	got := drainIter(l.Iter())
	mustTrue(canonSeq(got) == canonSeq(m), "list.iter", "after %s: iteration yields %s, want %s", what, canonSeq(got), canonSeq(m))
	for i := range s.d.vals {
		in := false
		for _, x := range m {
			in = in || canon(x) == canon(s.d.vals[i])
		}
		mustTrue(l.Contains(s.d.v(i)) == in, "list.contains", "after %s: Contains(%s) = %v in %s", what, canon(s.d.vals[i]), !in, canonSeq(m))
		if i == 0 {
			for _, a := range s.d.alt {
				mustTrue(l.Contains(a) == in, "list.contains", "after %s: Contains(%s) = %v in %s", what, canon(a), !in, canonSeq(m))
			}
		}
	}
	for _, b := range s.d.bad {
		mustTrue(!l.Contains(b), "list.contains", "after %s: Contains(%s), which is no %s", what, canon(b), s.d.name)
	}
	cp := thrift.NewTList(l.ElemType(), 0)
	for _, x := range m {
		cp.Push(x)
	}
	mustTrue(l.Equals(cp) && cp.Equals(l), "list.equals", "after %s: not equal to a list of the same elements %s", what, canonSeq(m))
	if len(m) > 0 {
		o := thrift.NewTList(l.ElemType(), 0)
		for i, x := range m {
			if i == len(m)-1 {
				if canon(x) == canon(s.d.vals[1]) {
					x = s.d.v(0)
				} else {
					x = s.d.v(1)
				}
			}
			o.Push(x)
		}
		mustTrue(!l.Equals(o) && !o.Equals(l), "list.equals", "after %s: %s equals %s", what, canonSeq(m), canon(o))
	}
	for i := range m {
		for j := range m {
			c, ok := s.d.typ.Compare(m[i], m[j])
			mustTrue(ok && l.Less(i, j) == (c < 0), "list.less", "after %s: Less(%d,%d) = %v in %s", what, i, j, l.Less(i, j), canonSeq(m))
		}
	}
}

func listOps(d *dom) []cop {
	var ops []cop
	add := func(name string, do func(s *listState)) { ops = append(ops, cop{name, do}) }
	push := func(name string, v func() interface{}, i int) {
		add("push("+name+")", func(s *listState) {
			p := quiet(func() { s.l.Push(v()) })
			if i < 0 {
				s.broken = p
			} else {
				mustTrue(!p, "list.push", "pushing %s panics", canon(d.v(i)))
				s.m = append(s.m, d.v(i))
			}
		})
	}
	push("v0", func() interface{} { return d.v(0) }, 0)
	push("v1", func() interface{} { return d.v(1) }, 1)
	if len(d.vals) > 2 {
		push("v2", func() interface{} { return d.v(2) }, 2)
	}
	if len(d.alt) > 0 {
		push("alt", func() interface{} { return d.alt[0] }, 0)
	}
	push("bad", func() interface{} { return d.bad[0] }, -1)
	add("pop", func(s *listState) {
		var got interface{}
		p := quiet(func() { got = s.l.Pop() })
		if len(s.m) == 0 {
			mustTrue(p || got == nil, "list.pop", "popping an empty list yields %s", canon(got))
			s.broken = p
			return
		}
		want := s.m[len(s.m)-1]
		s.m = s.m[: len(s.m)-1 : len(s.m)-1]
		mustTrue(!p, "list.pop", "popping %s panics", canonSeq(s.m))
		mustTrue(canon(got) == canon(want), "list.pop", "Pop() = %s, want %s", canon(got), canon(want))
	})
	for _, pos := range []string{"-1", "0", "1", "len", "len+1"} {
		pos := pos
		at := func(s *listState) int {
			switch pos {
			case "-1":
				return -1
			case "0":
				return 0
			case "1":
				return 1
			case "len":
				return len(s.m)
			}
			return len(s.m) + 1
		}
		for _, what := range []string{"v1", "bad", "alt"} {
			what := what
			if what == "alt" && (len(d.alt) == 0 || pos != "0") || what == "bad" && pos != "0" {
				continue
			}
			val := func() (interface{}, interface{}) {
				switch what {
				case "v1":
					return d.v(1), d.v(1)
				case "alt":
					return d.alt[len(d.alt)-1], d.v(0)
				}
				return d.bad[len(d.bad)-1], nil
			}
			add("set("+pos+","+what+")", func(s *listState) {
				i := at(s)
				in, want := val()
				p := quiet(func() { s.l.Set(i, in) })
				if want == nil || i < 0 {
					s.broken = p
					return
				}
				switch {
				case i < len(s.m):
					mustTrue(!p, "list.set", "setting position %d of %d panics", i, len(s.m))
					m := append([]interface{}{}, s.m...)
					m[i] = want
					s.m = m
				default:
					mustTrue(!p, "list.set", "setting position %d of %d panics", i, len(s.m))
					s.m = append(s.m, want)
				}
			})
			add("insert("+pos+","+what+")", func(s *listState) {
				i := at(s)
				in, want := val()
				p := quiet(func() { s.l.Insert(i, in) })
				if want == nil || i < 0 || i > len(s.m) {
					s.broken = p
					return
				}
				mustTrue(!p, "list.insert", "inserting at position %d of %d panics", i, len(s.m))
				m := append([]interface{}{}, s.m[:i]...)
				m = append(m, want)
				s.m = append(m, s.m[i:]...)
			})
		}
		add("delete("+pos+")", func(s *listState) {
			i := at(s)
			p := quiet(func() { s.l.Delete(i) })
			if i < 0 || i >= len(s.m) {
				s.broken = p
				return
			}
			mustTrue(!p, "list.delete", "deleting position %d of %d panics", i, len(s.m))
			s.m = append(append([]interface{}{}, s.m[:i]...), s.m[i+1:]...)
		})
		add("swap(0,"+pos+")", func(s *listState) {
			i := at(s)
			p := quiet(func() { s.l.Swap(0, i) })
			if i < 0 || i >= len(s.m) {
				s.broken = p
				return
			}
			mustTrue(!p, "list.swap", "swapping positions 0 and %d of %d panics", i, len(s.m))
			m := append([]interface{}{}, s.m...)
			m[0], m[i] = m[i], m[0]
			s.m = m
		})
	}
	return ops
}

// seqsTo enumerates the operation sequences of every length up to depth.
func seqsTo(c *Ctx, section string, names []string, depth int, run func(t *T, seq []int)) {
	for d := 1; d <= depth; d++ {
		if c.Expired() {
			return
		}
		opSeqs(c, fmt.Sprintf("%s/%d", section, d), names, d, run)
	}
}

// stores tells whether the first operation that could give an untyped
// container its type is one that stores a value of the domain (for any other,
// nothing is prescribed about the type).
func stores(names []string, seq []int, typed bool) bool {
	for _, i := range seq {
		switch n := names[i]; {
		case !typed:
			return false
		case strings.HasPrefix(n, "push(v"), strings.HasPrefix(n, "add(v"),
			strings.HasPrefix(n, "set(k") && strings.Contains(n, ",v"),
			n == "set(0,v1)", n == "set(1,v1)", n == "set(len,v1)", n == "set(len+1,v1)",
			n == "insert(0,v1)", n == "insert(len,v1)":
			return true
		case strings.HasPrefix(n, "pop"), strings.HasPrefix(n, "delete("), strings.HasPrefix(n, "swap("), strings.HasPrefix(n, "remove(v"):
		default:
			return false
		}
	}
	return false
}

func runC23(c *Ctx) {
	base := runtime.NumGoroutine()
	for _, d := range domains() {
		ops := listOps(d)
		var names []string
		for _, o := range ops {
			names = append(names, o.name)
		}
		depth := 3
		if d.typ == thrift.I32 {
			depth = 4
		}
		if c.Thorough() {
			depth++
			if d.typ == thrift.I32 || d.typ == thrift.BINARY || d.typ == thrift.LIST {
				depth = 5
			}
		}
		d := d
		for _, how := range []string{"typed", "untyped", "fresh"} {
			how := how
			dp := depth
			if how != "typed" && dp > 3 {
				dp--
			}
			seqsTo(c, "list/"+d.name+"/"+how, names, dp, func(t *T, seq []int) {
				s := &listState{d: d}
				switch how {
				case "typed":
					s.l = thrift.NewTList(d.typ, 0)
				case "fresh":
					// so is it when it comes in another way than by a push
					s.l = thrift.NewTListDefault()
					if !stores(names, seq, thrift.TypeFromValue(d.v(0)) == d.typ) {
						return
					}
				default:
					// the element type is that of the first value
					s.l = thrift.NewTListDefault()
					if thrift.TypeFromValue(d.v(0)) != d.typ {
						return
					}
					s.l.Push(d.v(0))
					s.m = append(s.m, d.v(0))
					mustTrue(s.l.ElemType() == d.typ, "list.elemtype", "the element type of a list of %s is %s", d.name, s.l.ElemType())
				}
				every := len(seq) <= 3
				s.same(every, "creation")
				for k, i := range seq {
					ops[i].do(s)
					if s.broken {
						return
					}
					s.same(every || k == len(seq)-1, ops[i].name)
				}
				mustTrue(s.l.ElemType() == d.typ, "list.elemtype", "the element type is %s instead of %s", s.l.ElemType(), d.typ)
				t.State(hInts(int(d.typ), len(s.m)) ^ hashS(canonSeq(s.m)))
			})
		}
	}
	c.Seq("goroutines", 1, nil, func(t *T, _ int) { noGoroutines(t, base) })
}

// ---------------------------------------------------------------- C24 sets

func runC24(c *Ctx) {
	for _, d := range domains() {
		d := d
		type sop struct {
			name string
			add  bool
			v    func() interface{}
			i    int
		}
		var ops []sop
		for i := range d.vals {
			i := i
			ops = append(ops, sop{fmt.Sprintf("add(v%d)", i), true, func() interface{} { return d.v(i) }, i})
			ops = append(ops, sop{fmt.Sprintf("remove(v%d)", i), false, func() interface{} { return d.v(i) }, i})
		}
		for k, a := range d.alt {
			a := a
			ops = append(ops, sop{fmt.Sprintf("add(alt%d)", k), true, func() interface{} { return a }, 0})
			ops = append(ops, sop{fmt.Sprintf("remove(alt%d)", k), false, func() interface{} { return a }, 0})
		}
		for k, a := range d.bad {
			a := a
			ops = append(ops, sop{fmt.Sprintf("add(bad%d)", k), true, func() interface{} { return a }, -1})
			ops = append(ops, sop{fmt.Sprintf("remove(bad%d)", k), false, func() interface{} { return a }, -1})
		}
		var names []string
		for _, o := range ops {
			names = append(names, o.name)
		}
		depth := 4
		if c.Thorough() {
			depth = 5
		}
		check := func(s thrift.TSet, m map[int]bool, full bool, what string) {
			var want []interface{}
			for i := range d.vals {
				if m[i] {
					want = append(want, d.vals[i])
				}
			}
			mustTrue(s.Len() == len(want), "set.len", "after %s: Len() = %d, want %d", what, s.Len(), len(want))
			for i := range d.vals {
				mustTrue(s.Contains(d.v(i)) == m[i], "set.contains", "after %s: Contains(%s) = %v in {%s}", what, canon(d.vals[i]), !m[i], canons(want))
			}
			if !full {
				return
			}
			for _, a := range d.alt {
				mustTrue(s.Contains(a) == m[0], "set.contains", "after %s: Contains(%s) = %v in {%s}", what, canon(a), !m[0], canons(want))
			}
			for _, a := range d.bad {
				mustTrue(!s.Contains(a), "set.contains", "after %s: Contains(%s), which is no %s", what, canon(a), d.name)
			}
			mustTrue(canons(s.Values()) == canons(want), "set.values", "after %s: Values() = {%s}, want {%s}", what, canons(s.Values()), canons(want))
			var fw, bw []interface{}
			for e := s.Front(); e != nil; e = e.Next() {
				fw = append(fw, e.Value)
			}
			for e := s.Back(); e != nil; e = e.Prev() {
				bw = append(bw, e.Value)
			}
			mustTrue(canons(fw) == canons(want), "set.iter", "after %s: iteration yields {%s}, want {%s}", what, canons(fw), canons(want))
			mustTrue(canons(bw) == canons(want), "set.iter", "after %s: backward iteration yields {%s}, want {%s}", what, canons(bw), canons(want))
			cp := thrift.NewTSet(s.ElemType(), 0)
			for i := range d.vals {
				if m[i] {
					cp.Add(d.v(i))
				}
			}
			mustTrue(s.Equals(cp) && cp.Equals(s), "set.equals", "after %s: not equal to a set of the same values {%s}", what, canons(want))
			for i := range d.vals {
				o := thrift.NewTSet(s.ElemType(), 0)
				for j := range d.vals {
					if m[j] != (i == j) {
						o.Add(d.v(j))
					}
				}
				mustTrue(!s.Equals(o) && !o.Equals(s), "set.equals", "after %s: {%s} equals %s", what, canons(want), canon(o))
			}
		}
		for _, how := range []string{"typed", "untyped", "fresh"} {
			how := how
			dp := depth
			if how != "typed" {
				dp--
			}
			seqsTo(c, "set/"+d.name+"/"+how, names, dp, func(t *T, seq []int) {
				m := map[int]bool{}
				s := thrift.NewTSet(d.typ, 0)
				if how == "fresh" {
					s = thrift.NewTSetDefault()
					if !stores(names, seq, thrift.TypeFromValue(d.v(0)) == d.typ) {
						return
					}
				}
				if how == "untyped" {
					s = thrift.NewTSetDefault()
					if thrift.TypeFromValue(d.v(0)) != d.typ {
						return
					}
					s.Add(d.v(0))
					m[0] = true
				}
				check(s, m, len(seq) < 3, "creation")
				for k, i := range seq {
					o := ops[i]
					if o.add {
						s.Add(o.v())
						if o.i >= 0 {
							m[o.i] = true
						}
					} else {
						s.Remove(o.v())
						if o.i >= 0 {
							m[o.i] = false
						}
					}
					check(s, m, len(seq) < 4 || k == len(seq)-1, o.name)
				}
				mustTrue(s.ElemType() == d.typ, "set.elemtype", "the element type changed to %s", s.ElemType())
				h := 0
				for i := range d.vals {
					if m[i] {
						h |= 1 << i
					}
				}
				t.State(hInts(int(d.typ), h))
			})
		}
	}
}

// ---------------------------------------------------------------- C25 maps

func runC25(c *Ctx) {
	base := runtime.NumGoroutine()
	ds := domains()
	for _, kd := range ds {
		for _, vd := range ds {
			kd, vd := kd, vd
			full := vd.typ == thrift.STRING || vd.typ == thrift.I32
			depth := 2
			if full {
				depth = 4
			}
			if c.Thorough() {
				depth++
			}
			type mop struct {
				name string
				k, v func() interface{}
				ki   int
				vi   int
			}
			var ops []mop
			nk := len(kd.vals)
			for i := 0; i < nk; i++ {
				for j := 0; j < 2; j++ {
					i, j := i, j
					if i == 3 && j == 1 {
						continue
					}
					ops = append(ops, mop{fmt.Sprintf("set(k%d,v%d)", i, j), func() interface{} { return kd.v(i) }, func() interface{} { return vd.v(j) }, i, j})
				}
			}
			for n, a := range kd.alt {
				a := a
				ops = append(ops, mop{fmt.Sprintf("set(altk%d,v1)", n), func() interface{} { return a }, func() interface{} { return vd.v(1) }, 0, 1})
			}
			for n, a := range vd.alt[:min(1, len(vd.alt))] {
				a := a
				ops = append(ops, mop{fmt.Sprintf("set(k1,altv%d)", n), func() interface{} { return kd.v(1) }, func() interface{} { return a }, 1, 0})
			}
			ops = append(ops, mop{"set(bad,v0)", func() interface{} { return kd.bad[0] }, func() interface{} { return vd.v(0) }, -1, 0})
			ops = append(ops, mop{"set(k0,bad)", func() interface{} { return kd.v(0) }, func() interface{} { return vd.bad[0] }, -1, 0})
			var names []string
			for _, o := range ops {
				names = append(names, o.name)
			}
			check := func(s thrift.TMap, m map[int]int, full bool, what string) {
				mustTrue(s.Len() == len(m), "map.len", "after %s: Len() = %d, want %d", what, s.Len(), len(m))
				get := func(k interface{}, i int) {
					v, ok := s.Get(k)
					j, in := m[i]
					mustTrue(ok == in, "map.get", "after %s: Get(%s) reports %v, want %v", what, canon(k), ok, in)
					mustTrue(s.Contains(k) == in, "map.contains", "after %s: Contains(%s) = %v, want %v", what, canon(k), !in, in)
					if in {
						mustTrue(canon(v) == canon(vd.vals[j]), "map.get", "after %s: Get(%s) = %s, want %s", what, canon(k), canon(v), canon(vd.vals[j]))
					}
				}
				for i := range kd.vals {
					get(kd.v(i), i)
				}
				if !full {
					return
				}
				for _, a := range kd.alt {
					get(a, 0)
				}
				for _, b := range kd.bad {
					_, ok := s.Get(b)
					mustTrue(!ok && !s.Contains(b), "map.contains", "after %s: key %s, which is no %s, is present", what, canon(b), kd.name)
				}
				var wk, wv, wp []string
				for i := range kd.vals {
					if j, in := m[i]; in {
						wk = append(wk, canon(kd.vals[i]))
						wv = append(wv, canon(vd.vals[j]))
						wp = append(wp, canon(kd.vals[i])+"=>"+canon(vd.vals[j]))
					}
				}
				j := func(l []string) string { sort.Strings(l); return strings.Join(l, "|") }
				mustTrue(canons(s.Keys()) == j(wk), "map.keys", "after %s: Keys() = %s, want %s", what, canons(s.Keys()), j(wk))
				mustTrue(canons(s.Values()) == j(wv), "map.values", "after %s: Values() = %s, want %s", what, canons(s.Values()), j(wv))
				k2, v2 := drainIter(s.KeyIter()), drainIter(s.ValueIter())
				mustTrue(canons(k2) == j(wk), "map.iter", "after %s: iterating over the keys yields %s, want %s", what, canons(k2), j(wk))
				mustTrue(canons(v2) == j(wv), "map.iter", "after %s: iterating over the values yields %s, want %s", what, canons(v2), j(wv))
				var gp []string
				for e := range s.Iter() {
					gp = append(gp, canon(e.Key())+"=>"+canon(e.Value()))
				}
				mustTrue(j(gp) == j(wp), "map.iter", "after %s: iteration yields %s, want %s", what, j(gp), j(wp))
				cp := thrift.NewTMap(s.KeyType(), s.ValueType(), 0)
				for i := len(kd.vals) - 1; i >= 0; i-- {
					if j, in := m[i]; in {
						cp.Set(kd.v(i), vd.v(j))
					}
				}
				mustTrue(s.Equals(cp) && cp.Equals(s), "map.equals", "after %s: not equal to a map of the same entries %s", what, j(wp))
				for i := range kd.vals {
					o := thrift.NewTMap(s.KeyType(), s.ValueType(), 0)
					for n := range kd.vals {
						if j, in := m[n]; in {
							if n == i {
								j = 1 - j
							}
							o.Set(kd.v(n), vd.v(j))
						} else if n == i {
							o.Set(kd.v(n), vd.v(0))
						}
					}
					mustTrue(!s.Equals(o) && !o.Equals(s), "map.equals", "after %s: %s equals %s", what, j(wp), canon(o))
				}
			}
			for _, how := range []string{"typed", "untyped", "fresh"} {
				how := how
				dp := depth
				if how != "typed" {
					if !full {
						continue
					}
					dp--
				}
				seqsTo(c, "map/"+kd.name+"-"+vd.name+"/"+how, names, dp, func(t *T, seq []int) {
					m := map[int]int{}
					s := thrift.NewTMap(kd.typ, vd.typ, 0)
					if how == "fresh" {
						s = thrift.NewTMapDefault()
						if !stores(names, seq, thrift.TypeFromValue(kd.v(0)) == kd.typ && thrift.TypeFromValue(vd.v(0)) == vd.typ) {
							return
						}
						check(s, m, len(seq) < 3, "creation")
					}
					if how == "untyped" {
						if thrift.TypeFromValue(kd.v(0)) != kd.typ || thrift.TypeFromValue(vd.v(0)) != vd.typ {
							return
						}
						s = thrift.NewTMapDefault()
						s.Set(kd.v(0), vd.v(0))
						m[0] = 0
					}
					for k, i := range seq {
						o := ops[i]
						s.Set(o.k(), o.v())
						if o.ki >= 0 {
							m[o.ki] = o.vi
						}
						check(s, m, len(seq) < 3 || k == len(seq)-1, o.name)
					}
					mustTrue(s.KeyType() == kd.typ && s.ValueType() == vd.typ, "map.types", "the types changed to %s, %s", s.KeyType(), s.ValueType())
					h := 0
					for i := range kd.vals {
						h *= 3
						if j, in := m[i]; in {
							h += j + 1
						}
					}
					t.State(hInts(int(kd.typ), int(vd.typ), h))
				})
			}
		}
	}
	c.Seq("goroutines", 1, nil, func(t *T, _ int) { noGoroutines(t, base) })
}

// ---------------------------------------------------------------- C26 comparison

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func natural(a, b interface{}) int {
	sgn := func(less, eq bool) int {
		if less {
			return -1
		}
		if eq {
			return 0
		}
		return 1
	}
	switch x := a.(type) {
	case bool:
		y := b.(bool)
		return sgn(!x && y, x == y)
	case byte:
		return sgn(x < b.(byte), x == b.(byte))
	case int16:
		return sgn(x < b.(int16), x == b.(int16))
	case int32:
		return sgn(x < b.(int32), x == b.(int32))
	case int64:
		return sgn(x < b.(int64), x == b.(int64))
	case float64:
		return sgn(x < b.(float64), x == b.(float64))
	case string:
		return sgn(x < b.(string), x == b.(string))
	case []byte:
		return bytes.Compare(x, b.([]byte))
	}
	panic("natural")
}

type ordFamily struct {
	name string
	typ  thrift.TType
	mk   []func() interface{} // different constructions, maybe of equal values
	key  []string             // equal keys <=> equal values
	nat  bool                 // natural() applies
}

func (f *ordFamily) add(mk func() interface{}) {
	f.mk = append(f.mk, mk)
	f.key = append(f.key, canon(mk()))
}

func ordFamilies(thorough bool) []*ordFamily {
	deep := 3
	if thorough {
		deep = 5
	}
	var fs []*ordFamily
	sc := func(name string, typ thrift.TType, vals ...interface{}) {
		f := &ordFamily{name: name, typ: typ, nat: true}
		for _, v := range vals {
			v := v
			f.add(func() interface{} {
				if b, ok := v.([]byte); ok {
					return append([]byte{}, b...)
				}
				return v
			})
		}
		fs = append(fs, f)
	}
	sc("bool", thrift.BOOL, false, true)
	var bs, i16, i32, i64, ds []interface{}
	for _, x := range []int64{0, 1, 2, 127, 128, 129, 254, 255} {
		bs = append(bs, byte(x))
	}
	for _, x := range []int64{math.MinInt16, math.MinInt16 + 1, -256, -1, 0, 1, 127, 128, 256, math.MaxInt16} {
		i16 = append(i16, int16(x))
	}
	for _, x := range []int64{math.MinInt32, math.MinInt32 + 1, -65536, -32768, -1, 0, 1, 65535, 65536, math.MaxInt32 - 1, math.MaxInt32} {
		i32 = append(i32, int32(x))
	}
	for _, x := range []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, math.MinInt32, -1, 0, 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64} {
		i64 = append(i64, x)
	}
	for _, x := range []float64{math.Inf(-1), -math.MaxFloat64, -1.5, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 0.5, 1, 1.0000000000000002, 2, 1e300, math.MaxFloat64, math.Inf(1)} {
		ds = append(ds, x)
	}
	strs := []interface{}{"", "\x00", "a", "a\x00", "aa", "ab", "b", "Z", "é", "\xff", "10", "9"}
	sc("byte", thrift.BYTE, bs...)
	sc("i16", thrift.I16, i16...)
	sc("i32", thrift.I32, i32...)
	sc("i64", thrift.I64, i64...)
	sc("double", thrift.DOUBLE, ds...)
	sc("string", thrift.STRING, strs...)
	sc("utf8", thrift.UTF8, strs...)
	sc("utf16", thrift.UTF16, strs...)
	var bin []interface{}
	for _, s := range strs {
		bin = append(bin, []byte(s.(string)))
	}
	sc("binary", thrift.BINARY, bin...)

	// lists of up to 3 elements over 3 values (and of another type)
	elems := map[thrift.TType][]interface{}{
		thrift.I32:    {int32(-1), int32(0), int32(7)},
		thrift.STRING: {"", "a", "b"},
		thrift.BINARY: {[]byte{}, []byte("a"), []byte("b")},
		thrift.BOOL:   {false, true},
	}
	for _, et := range []thrift.TType{thrift.I32, thrift.STRING, thrift.BINARY} {
		et := et
		vals := elems[et]
		f := &ordFamily{name: "list<" + et.String() + ">", typ: thrift.LIST}
		var rec func(pre []interface{})
		rec = func(pre []interface{}) {
			p := append([]interface{}{}, pre...)
			f.add(func() interface{} { return mkList(et, p...) })
			if len(pre) == deep {
				return
			}
			for _, v := range vals {
				rec(append(pre, v))
			}
		}
		rec(nil)
		f.add(func() interface{} { return mkList(thrift.BOOL, true) })
		f.add(func() interface{} { return mkList(thrift.I64) })
		fs = append(fs, f)

		// sets of up to 3 of 4 values, filled in every order
		f = &ordFamily{name: "set<" + et.String() + ">", typ: thrift.SET}
		sv := append([]interface{}{}, vals...)
		switch et {
		case thrift.I32:
			sv = append(sv, int32(100))
		case thrift.STRING:
			sv = append(sv, "ab")
		case thrift.BINARY:
			sv = append(sv, []byte("ab"))
		}
		for mask := 0; mask < 1<<len(sv); mask++ {
			var ch []interface{}
			for i := range sv {
				if mask>>i&1 == 1 {
					ch = append(ch, sv[i])
				}
			}
			for _, p := range perms(len(ch)) {
				var o []interface{}
				for _, x := range p {
					o = append(o, ch[x])
				}
				f.add(func() interface{} { return mkSet(et, o...) })
			}
		}
		f.add(func() interface{} { return mkSet(thrift.BOOL, true) })
		fs = append(fs, f)

		// maps of up to 3 of 3 keys to 2 values, filled in every order
		f = &ordFamily{name: "map<" + et.String() + ",string>", typ: thrift.MAP}
		for mask := 0; mask < 27; mask++ {
			var ch []interface{}
			x := mask
			for i := 0; i < 3; i++ {
				if x%3 > 0 {
					ch = append(ch, vals[i], []string{"p", "q"}[x%3-1])
				}
				x /= 3
			}
			for _, p := range perms(len(ch) / 2) {
				var o []interface{}
				for _, y := range p {
					o = append(o, ch[2*y], ch[2*y+1])
				}
				f.add(func() interface{} { return mkMap(et, thrift.STRING, o...) })
			}
		}
		f.add(func() interface{} { return mkMap(et, thrift.BOOL) })
		f.add(func() interface{} { return mkMap(thrift.BOOL, thrift.STRING, true, "p") })
		fs = append(fs, f)
	}
	// nested containers and structs as values, elements and keys
	nest := &ordFamily{name: "list<list<i32>>", typ: thrift.LIST}
	inner := []func() interface{}{
		func() interface{} { return mkList(thrift.I32) }, func() interface{} { return mkList(thrift.I32, 1) },
		func() interface{} { return mkList(thrift.I32, 1, 2) }, func() interface{} { return mkList(thrift.I32, 2) }}
	for i := range inner {
		for j := range inner {
			i, j := i, j
			nest.add(func() interface{} { return mkList(thrift.LIST, inner[i](), inner[j]()) })
		}
		i := i
		nest.add(func() interface{} { return mkList(thrift.LIST, inner[i]()) })
	}
	fs = append(fs, nest)
	ns := &ordFamily{name: "set<set<i32>>", typ: thrift.SET}
	in2 := []func() interface{}{
		func() interface{} { return mkSet(thrift.I32) }, func() interface{} { return mkSet(thrift.I32, 1, 2) },
		func() interface{} { return mkSet(thrift.I32, 2, 1) }, func() interface{} { return mkSet(thrift.I32, 3) }}
	for i := range in2 {
		for j := range in2 {
			i, j := i, j
			ns.add(func() interface{} { return mkSet(thrift.SET, in2[i](), in2[j]()) })
		}
	}
	fs = append(fs, ns)
	nm := &ordFamily{name: "map<map<i32,i32>,list<i32>>", typ: thrift.MAP}
	in3 := []func() interface{}{
		func() interface{} { return mkMap(thrift.I32, thrift.I32, 1, 1, 2, 2) },
		func() interface{} { return mkMap(thrift.I32, thrift.I32, 2, 2, 1, 1) },
		func() interface{} { return mkMap(thrift.I32, thrift.I32, 2, 1, 1, 2) }}
	for i := range in3 {
		for j := range in3 {
			for k := 0; k < 2; k++ {
				i, j, k := i, j, k
				nm.add(func() interface{} {
					return mkMap(thrift.MAP, thrift.LIST, in3[i](), mkList(thrift.I32, 1), in3[j](), mkList(thrift.I32, k))
				})
			}
		}
	}
	fs = append(fs, nm)
	st := &ordFamily{name: "struct", typ: thrift.STRUCT}
	ls := &ordFamily{name: "list<struct>", typ: thrift.LIST}
	ss := &ordFamily{name: "set<struct>", typ: thrift.SET}
	ms := &ordFamily{name: "map<struct,struct>", typ: thrift.MAP}
	var recs []func() interface{}
	for _, a := range []int32{math.MinInt32, -1, 0, 1} {
		for _, b := range []string{"", "a", "b"} {
			a, b := a, b
			st.add(func() interface{} { return newRec(a, b) })
			if a >= 0 && b != "" {
				recs = append(recs, func() interface{} { return newRec(a, b) })
			}
		}
	}
	for i := range recs {
		for j := range recs {
			i, j := i, j
			ls.add(func() interface{} { return mkList(thrift.STRUCT, recs[i](), recs[j]()) })
			ss.add(func() interface{} { return mkSet(thrift.STRUCT, recs[i](), recs[j]()) })
			ms.add(func() interface{} {
				return mkMap(thrift.STRUCT, thrift.STRUCT, recs[i](), recs[j](), recs[j](), recs[i]())
			})
		}
	}
	fs = append(fs, st, ls, ss, ms)
	return fs
}

func sign(x int) int {
	if x < 0 {
		return -1
	}
	if x > 0 {
		return 1
	}
	return 0
}

func runC26(c *Ctx) {
	base := runtime.NumGoroutine()
	var pairs, triples int64
	type comparer interface {
		CompareTo(other interface{}) (int, bool)
		Equals(other interface{}) bool
	}
	for _, f := range ordFamilies(c.Thorough()) {
		f := f
		n := len(f.mk)
		vals := make([]interface{}, n)
		for i := range vals {
			vals[i] = f.mk[i]()
		}
		cmp := make([][]int, n)
		c.Par("pairs/"+f.name, n, func(i int) string { return fmt.Sprintf("%d:%s", i, f.key[i]) }, func(t *T, i int) {
			cmp[i] = make([]int, n)
			for j := 0; j < n; j++ {
				a, b := vals[i], vals[j]
				if i == j {
					b = f.mk[j]()
				}
				x, ok := f.typ.Compare(a, b)
				if !ok {
					t.Failf("cmp.ok", "comparing %s with %s fails", f.key[i], f.key[j])
				}
				x = sign(x)
				cmp[i][j] = x
				if (x == 0) != (f.key[i] == f.key[j]) {
					t.Failf("cmp.equal", "comparing %s with %s yields %d", f.key[i], f.key[j], x)
				}
				if f.nat && x != natural(a, b) {
					t.Failf("cmp.order", "comparing %s with %s yields %d", f.key[i], f.key[j], x)
				}
				if f.typ.Less(a, b) != (x < 0) {
					t.Failf("cmp.less", "%s less than %s: %v, comparison yields %d", f.key[i], f.key[j], f.typ.Less(a, b), x)
				}
				if f.typ == thrift.LIST {
					la, lb := a.(thrift.TList), b.(thrift.TList)
					if la.ElemType() == lb.ElemType() {
						want := sign(la.Len() - lb.Len())
						for k := 0; want == 0 && k < la.Len(); k++ {
							y, ok := la.ElemType().Compare(la.At(k), lb.At(k))
							if !ok {
								t.Failf("cmp.ok", "comparing elements %d of %s and %s fails", k, f.key[i], f.key[j])
							}
							want = sign(y)
						}
						if x != want {
							t.Failf("cmp.list", "comparing %s with %s yields %d, want %d", f.key[i], f.key[j], x, want)
						}
					}
				}
				if r, ok := a.(*recT); ok {
					y, _ := r.CompareTo(b)
					if x != sign(y) {
						t.Failf("cmp.struct", "comparing %s with %s yields %d, want %d", f.key[i], f.key[j], x, y)
					}
				} else if p, ok := a.(comparer); ok {
					y, ok := p.CompareTo(b)
					if !ok || sign(y) != x {
						t.Failf("cmp.method", "%s.CompareTo(%s) = %d,%v, comparison by type yields %d", f.key[i], f.key[j], y, ok, x)
					}
					if p.Equals(b) != (x == 0) {
						t.Failf("cmp.equals", "%s.Equals(%s) = %v, comparison yields %d", f.key[i], f.key[j], p.Equals(b), x)
					}
					if l, ok := a.(interface{ Less(other interface{}) bool }); ok {
						if l.Less(b) != (x < 0) {
							t.Failf("cmp.less", "%s.Less(%s) = %v, comparison yields %d", f.key[i], f.key[j], l.Less(b), x)
						}
					}
				}
				// the same again: comparison depends on nothing else
				if y, _ := f.typ.Compare(a, b); sign(y) != x {
					t.Failf("cmp.repeat", "comparing %s with %s yields %d, then %d", f.key[i], f.key[j], x, y)
				}
				if y, ok := f.typ.CompareValueArrays([]interface{}{a, b}, []interface{}{a, a}); !ok || sign(y) != -x {
					t.Failf("cmp.arrays", "comparing arrays differing in %s and %s yields %d,%v", f.key[j], f.key[i], y, ok)
				}
				if y, ok := f.typ.CompareValueArrays([]interface{}{a}, []interface{}{a, b}); !ok || y >= 0 {
					t.Failf("cmp.arrays", "an array compares to a longer one as %d,%v", y, ok)
				}
			}
			t.Ops(n)
			t.Trace()
			t.StateS(f.name + f.key[i])
			atomic.AddInt64(&pairs, int64(n))
		})
		c.Par("triples/"+f.name, n, func(i int) string { return fmt.Sprintf("%d:%s", i, f.key[i]) }, func(t *T, i int) {
			for j := 0; j < n; j++ {
				if cmp[i] == nil || cmp[j] == nil {
					continue
				}
				if cmp[i][j] != -cmp[j][i] {
					t.Failf("cmp.antisymmetric", "comparing %s with %s yields %d, the other way round %d", f.key[i], f.key[j], cmp[i][j], cmp[j][i])
				}
				for k := 0; k < n; k++ {
					if cmp[i][j] <= 0 && cmp[j][k] <= 0 && cmp[i][k] > 0 {
						t.Failf("cmp.transitive", "%s <= %s <= %s but not %s <= %s", f.key[i], f.key[j], f.key[k], f.key[i], f.key[k])
					}
				}
			}
			t.Ops(n * n)
			atomic.AddInt64(&triples, int64(n*n))
		})
	}
	c.AddExtra("pairs", pairs)
	c.AddExtra("triples", triples)
	// the helpers for single Go types
	type helper struct {
		name string
		fn   interface{}
		vals []interface{}
	}
	hs := []helper{
		{"CompareInt", thrift.CompareInt, []interface{}{math.MinInt64, -1, 0, 1, math.MaxInt64}},
		{"CompareInt16", thrift.CompareInt16, []interface{}{int16(math.MinInt16), int16(-1), int16(0), int16(1), int16(math.MaxInt16)}},
		{"CompareInt32", thrift.CompareInt32, []interface{}{int32(math.MinInt32), int32(-1), int32(0), int32(1), int32(math.MaxInt32)}},
		{"CompareInt64", thrift.CompareInt64, []interface{}{int64(math.MinInt64), int64(-1), int64(0), int64(1), int64(1 << 32), int64(1<<32 + 1), int64(math.MaxInt64)}},
		{"CompareByte", thrift.CompareByte, []interface{}{byte(0), byte(1), byte(127), byte(128), byte(255)}},
		{"CompareString", thrift.CompareString, []interface{}{"", "\x00", "a", "aa", "b", "é"}},
		{"CompareBool", thrift.CompareBool, []interface{}{false, true}},
		{"CompareDouble", thrift.CompareDouble, []interface{}{math.Inf(-1), -1.5, -0.5, 0.0, 0.25, 1e300, math.Inf(1)}},
		{"CompareFloat", thrift.CompareFloat, []interface{}{float32(math.Inf(-1)), float32(-1.5), float32(-0.5), float32(0), float32(0.25), float32(1e30), float32(math.Inf(1))}},
		{"CompareStringArray", thrift.CompareStringArray, []interface{}{[]string{}, []string{""}, []string{"a"}, []string{"b"}, []string{"", ""}, []string{"a", "a"}, []string{"a", "b"}, []string{"b", "a"}}},
	}
	c.Par("helpers", 1, nil, func(t *T, _ int) {
		for _, h := range hs {
			fv := reflect.ValueOf(h.fn)
			for i, a := range h.vals {
				for j, b := range h.vals {
					pt := fv.Type().In(0)
					if !reflect.TypeOf(a).ConvertibleTo(pt) || reflect.TypeOf(a).Kind() != pt.Kind() {
						t.Failf("helper.type", "%s does not take %T but %s", h.name, a, pt)
						continue
					}
					got := int(fv.Call([]reflect.Value{reflect.ValueOf(a), reflect.ValueOf(b)})[0].Int())
					if sign(got) != sign(i-j) {
						t.Failf("helper.order", "%s(%v,%v) = %d", h.name, a, b, got)
					}
					t.Ops(1)
				}
			}
		}
	})
	c.Par("fields", 1, func(int) string { return "fields" }, func(t *T, _ int) {
		type fk struct {
			id   int
			typ  thrift.TType
			name string
		}
		var ks []fk
		for _, id := range []int{-1, 0, 1, 2, 32767} {
			for _, ty := range []thrift.TType{thrift.BOOL, thrift.I32, thrift.SET, thrift.UTF16} {
				for _, n := range []string{"", "a", "b"} {
					ks = append(ks, fk{id, ty, n})
				}
			}
		}
		for _, a := range ks {
			for _, b := range ks {
				fa, fb := thrift.NewTField(a.name, a.typ, a.id), thrift.NewTField(b.name, b.typ, b.id)
				want := sign(a.id - b.id)
				if want == 0 {
					want = sign(int(a.typ) - int(b.typ))
				}
				eq := want == 0
				if want == 0 {
					want = strings.Compare(a.name, b.name)
				}
				got, ok := fa.CompareTo(fb)
				if !ok || sign(got) != want {
					t.Failf("field.cmp", "comparing field %v with %v yields %d,%v", a, b, got, ok)
				}
				if fa.Equals(fb) != eq {
					t.Failf("field.equals", "field %v equals %v: %v", a, b, !eq)
				}
				t.Ops(2)
			}
		}
	})
	c.Seq("goroutines", 1, nil, func(t *T, _ int) { noGoroutines(t, base) })
}

// ---------------------------------------------------------------- C27 coercion

// enumT is an enum as the generator emits them.
type enumT int64

func (p enumT) String() string { return "ENUM_" + strconv.Itoa(int(p)+100) }
func (p enumT) Value() int     { return int(p) }
func (p enumT) IsEnum() bool   { return true }

type strT string

func (s strT) String() string { return string(s) }

// source is a value to coerce with what it stands for.
type source struct {
	v     interface{}
	isNum bool
	f     float64 // the quantity if it is not an integer
	n     int64   // the quantity if it is an integer
	u     uint64  // for integers above MaxInt64
	frac  bool
	big   bool
	text  *string // the text it stands for (strings, bytes, stringers)
	notNm bool    // a text that is no number
	enum  bool
	other thrift.TType // containers and structs
	// numeric text that is not an integer literal ("1.5", "1e3"): only DOUBLE is prescribed
	fracText bool
}

func coerceSources() []source {
	var out []source
	num := func(v interface{}, n int64) { out = append(out, source{v: v, isNum: true, n: n}) }
	ints := []int64{0, 1, -1, 2, 48, 65, 127, 128, 200, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 65535, 65536, 8364, 99999, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	for _, n := range ints {
		num(n, n)
		num(int(n), n)
		if int64(int8(n)) == n {
			num(int8(n), n)
		}
		if int64(int16(n)) == n {
			num(int16(n), n)
		}
		if int64(int32(n)) == n {
			num(int32(n), n)
			num(thrift.NewNumericFromI32(int32(n)), n)
		}
		if n >= 0 {
			num(uint(n), n)
			num(uint64(n), n)
			if int64(uint8(n)) == n {
				num(uint8(n), n)
			}
			if int64(uint16(n)) == n {
				num(uint16(n), n)
			}
			if int64(uint32(n)) == n {
				num(uint32(n), n)
			}
		}
		num(thrift.NewNumericFromI64(n), n)
		if n != math.MaxInt64 {
			num(thrift.NewNumericFromString(strconv.FormatInt(n, 10)), n)
			num(thrift.NewNumericFromJSONString(strconv.FormatInt(n, 10), false), n)
		}
		if f := float64(n); n < math.MaxInt64-1024 && int64(f) == n {
			num(f, n)
			num(thrift.NewNumericFromDouble(f), n)
			if f32 := float32(n); float64(f32) == f && n > math.MinInt64 {
				num(f32, n)
			}
		}
		s := strconv.FormatInt(n, 10)
		out = append(out, source{v: s, isNum: true, n: n, text: &s})
		out = append(out, source{v: strT(s), isNum: true, n: n, text: &s})
		if n > -100 && n < 100000 {
			out = append(out, source{v: enumT(n), isNum: true, n: n, enum: true})
		}
	}
	for _, u := range []uint64{1 << 63, math.MaxUint64} {
		out = append(out, source{v: u, isNum: true, u: u, big: true}, source{v: uint(u), isNum: true, u: u, big: true})
	}
	for _, f := range []float64{0.5, -0.25, 1.5, 2.75, 1e300, -1e-300, math.SmallestNonzeroFloat64, math.MaxFloat64, 3.141592653589793, 0.1, math.Inf(1), math.Inf(-1)} {
		s := strconv.FormatFloat(f, 'g', -1, 64)
		out = append(out, source{v: f, isNum: true, frac: true, f: f}, source{v: thrift.NewNumericFromDouble(f), isNum: true, frac: true, f: f},
			source{v: s, isNum: true, frac: true, f: f, text: &s, fracText: true})
		if float64(float32(f)) == f {
			out = append(out, source{v: float32(f), isNum: true, frac: true, f: f})
		}
		if !math.IsInf(f, 0) {
			out = append(out, source{v: thrift.NewNumericFromString(s), isNum: true, frac: true, f: f},
				source{v: thrift.NewNumericFromJSONString(s, false), isNum: true, frac: true, f: f})
		}
	}
	for _, b := range []bool{false, true} {
		n := int64(0)
		if b {
			n = 1
		}
		out = append(out, source{v: b, isNum: true, n: n})
	}
	for _, s := range []string{"", "five", "x5", "5x", "--5", "true", "false", "é", "a b", "\x00", "\xff\xfe"} {
		s := s
		out = append(out, source{v: s, text: &s, notNm: true}, source{v: strT(s), text: &s, notNm: true}, source{v: []byte(s), text: &s})
	}
	out = append(out, source{v: mkList(thrift.I32, 1), other: thrift.LIST}, source{v: mkSet(thrift.I32, 1), other: thrift.SET},
		source{v: mkMap(thrift.I32, thrift.I32, 1, 2), other: thrift.MAP}, source{v: struct{}{}, other: thrift.STOP},
		source{v: []interface{}{1}, other: thrift.STOP}, source{v: map[string]int{}, other: thrift.STOP}, source{v: make(chan int), other: thrift.STOP},
		source{v: newRec(1, "a"), other: thrift.STRUCT}, source{v: thrift.NewTStructEmpty("x"), other: thrift.STRUCT})
	return out
}

func goTypeOf(t thrift.TType) reflect.Type {
	switch t {
	case thrift.BOOL:
		return reflect.TypeOf(false)
	case thrift.BYTE:
		return reflect.TypeOf(byte(0))
	case thrift.I16:
		return reflect.TypeOf(int16(0))
	case thrift.I32:
		return reflect.TypeOf(int32(0))
	case thrift.I64:
		return reflect.TypeOf(int64(0))
	case thrift.DOUBLE:
		return reflect.TypeOf(float64(0))
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		return reflect.TypeOf("")
	case thrift.BINARY:
		return reflect.TypeOf([]byte{})
	}
	return nil
}

func checkCoerce(t *T, typ thrift.TType, s *source) {
	v, ok := typ.CoerceData(s.v)
	if gt := goTypeOf(typ); gt != nil && ok && reflect.TypeOf(v) != gt {
		t.Failf("coerce.type", "%T %v becomes a %T as %s", s.v, s.v, v, typ)
		return
	}
	fail := func(key, want string) {
		t.Failf(key, "%T %v as %s yields %v (%T), %v; want %s", s.v, s.v, typ, v, v, ok, want)
	}
	if gt := goTypeOf(typ); gt != nil && reflect.TypeOf(s.v) == gt {
		if !ok || !reflect.DeepEqual(v, s.v) {
			fail("coerce.same", "the value itself")
		}
		return
	}
	switch typ {
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		switch {
		case s.isNum && !s.frac && !s.big:
			lo, hi := int64(0), int64(0)
			switch typ {
			case thrift.BYTE:
				hi = 255
			case thrift.I16:
				lo, hi = math.MinInt16, math.MaxInt16
			case thrift.I32:
				lo, hi = math.MinInt32, math.MaxInt32
			case thrift.I64:
				lo, hi = math.MinInt64, math.MaxInt64
			}
			if s.n < lo || s.n > hi {
				return
			}
			if !ok || toI64(v) != s.n {
				fail("coerce.int", strconv.FormatInt(s.n, 10))
			}
		case s.notNm && reflect.TypeOf(s.v).Kind() != reflect.Slice, s.other != 0 || !s.isNum && s.text == nil:
			if _, str := s.v.(fmt.Stringer); ok && !(str && s.text == nil) {
				fail("coerce.refuse", "refused")
			}
		}
	case thrift.DOUBLE:
		switch {
		case s.isNum:
			want := s.f
			if s.big {
				want = float64(s.u)
				if uint64(want) != s.u && s.u != math.MaxUint64 {
					return
				}
				if s.u == math.MaxUint64 {
					return
				}
			} else if !s.frac {
				want = float64(s.n)
				if s.n == math.MaxInt64 || int64(want) != s.n {
					return
				}
			}
			if !ok || v.(float64) != want {
				fail("coerce.double", strconv.FormatFloat(want, 'g', -1, 64))
			}
		case s.notNm, s.other != 0 || s.text == nil:
			if _, str := s.v.(fmt.Stringer); ok && !(str && s.text == nil) {
				fail("coerce.refuse", "refused")
			}
		}
	case thrift.BOOL:
		switch {
		case s.isNum && s.text == nil:
			want := s.f != 0
			if s.big {
				want = true
			} else if !s.frac {
				want = s.n != 0
			}
			if !ok || v.(bool) != want {
				fail("coerce.bool", strconv.FormatBool(want))
			}
		case s.text != nil:
			if _, isb := s.v.([]byte); isb {
				return
			}
			switch *s.text {
			case "true", "1":
				if !ok || v != true {
					fail("coerce.bool", "true")
				}
			case "false", "0":
				if !ok || v != false {
					fail("coerce.bool", "false")
				}
			}
		}
	case thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY:
		var got string
		switch b := v.(type) {
		case string:
			got = b
		case []byte:
			got = string(b)
		}
		switch {
		case s.text != nil:
			if !ok || got != *s.text {
				fail("coerce.text", strconv.Quote(*s.text))
			}
		case s.enum:
			if name := s.v.(fmt.Stringer).String(); !ok || got != name {
				fail("coerce.text", name)
			}
		case s.isNum && reflect.TypeOf(s.v).Kind() == reflect.Bool:
			if !ok || got != strconv.FormatBool(s.v.(bool)) {
				fail("coerce.text", fmt.Sprint(s.v))
			}
		case s.isNum && s.big:
			if x, err := strconv.ParseUint(got, 10, 64); !ok || err != nil || x != s.u {
				fail("coerce.text", strconv.FormatUint(s.u, 10))
			}
		case s.isNum && s.frac:
			x, err := strconv.ParseFloat(got, 64)
			if _, is := s.v.(float32); is {
				x, err = strconv.ParseFloat(got, 32)
			}
			if !ok || err != nil || x != s.f {
				fail("coerce.text", strconv.FormatFloat(s.f, 'g', -1, 64))
			}
		case s.isNum:
			// floats may use an exponent
			x, err := strconv.ParseInt(got, 10, 64)
			if err != nil {
				bits := 64
				if _, is := s.v.(float32); is {
					bits = 32
				}
				y, e := strconv.ParseFloat(got, bits)
				x, err = int64(y), e
			}
			switch s.v.(type) {
			case float32, float64:
			case thrift.Numeric:
			default:
				if got != strconv.FormatInt(s.n, 10) {
					err = strconv.ErrSyntax
				}
			}
			if !ok || err != nil || x != s.n {
				fail("coerce.text", strconv.FormatInt(s.n, 10))
			}
		default:
			if _, str := s.v.(fmt.Stringer); ok && !str {
				fail("coerce.refuse", "refused")
			}
		}
	case thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT:
		if s.other == typ {
			if !ok || v != s.v {
				fail("coerce.same", "the value itself")
			}
		} else if ok {
			fail("coerce.refuse", "refused")
		}
	}
}

func toI64(v interface{}) int64 {
	r := reflect.ValueOf(v)
	if r.CanInt() {
		return r.Int()
	}
	return int64(r.Uint())
}

func runC27(c *Ctx) {
	srcs := coerceSources()
	types := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY, thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT}
	for _, ty := range types {
		ty := ty
		c.Par("coerce/"+ty.String(), 1, nil, func(t *T, _ int) {
			for i := range srcs {
				s := &srcs[i]
				t.guard(func() { checkCoerce(t, ty, s) })
				t.Ops(1)
				t.Trace()
				t.StateS(fmt.Sprintf("%d %T %v", ty, s.v, s.v))
			}
		})
		c.Par("nothing/"+ty.String(), 1, nil, func(t *T, _ int) {
			v, ok := ty.CoerceData(nil)
			if !ok {
				t.Failf("coerce.nil", "nothing as %s is refused", ty)
			}
			if gt := goTypeOf(ty); gt != nil && v != nil && (reflect.TypeOf(v) != gt || !reflect.ValueOf(v).IsZero()) {
				t.Failf("coerce.nil", "nothing as %s is %v (%T)", ty, v, v)
			}
		})
		// converting there and back
		for _, via := range types[:10] {
			via := via
			c.Par("back/"+ty.String()+"/"+via.String(), 1, nil, func(t *T, _ int) {
				for i := range srcs {
					s := &srcs[i]
					a, ok := ty.CoerceData(s.v)
					if !ok || a == nil || ty == thrift.BOOL || via == thrift.BOOL || ty.IsContainer() || ty == thrift.STRUCT {
						continue
					}
					b, ok := via.CoerceData(a)
					if !ok {
						continue
					}
					// text of a number and a wider number bring back the same number
					if isText(via) && isNumT(ty) || isNumT(via) && isNumT(ty) && wider(via, ty) {
						d, ok := ty.CoerceData(b)
						if x, isf := a.(float64); isf && math.IsNaN(x) {
							continue
						}
						if via == thrift.BINARY {
							continue
						}
						if !ok || d != a {
							t.Failf("coerce.back", "%v as %s is %v, back as %s %v, %v", a, via, b, ty, d, ok)
						}
					}
					t.Ops(2)
				}
			})
		}
	}
	// the quantity held by numerics, on a grid of binary exponents
	c.Par("numeric", 1, nil, func(t *T, _ int) {
		chk := func(what string, n thrift.Numeric, f float64, i int64, isInt bool) {
			if n.Float64() != f {
				t.Failf("numeric.float", "%s: Float64() = %v, want %v", what, n.Float64(), f)
			}
			if isInt {
				if n.Int64() != i || n.Int() != int(i) || n.Int32() != int32(i) || n.Int16() != int16(i) || n.Byte() != byte(i) {
					t.Failf("numeric.int", "%s: Int64() = %v, want %v", what, n.Int64(), i)
				}
			}
			if g, err := strconv.ParseFloat(n.String(), 64); err != nil || g != f {
				t.Failf("numeric.text", "%s: text %q, want %v", what, n.String(), f)
			}
			if isInt {
				if g, err := strconv.ParseInt(n.String(), 10, 64); err == nil && g != i {
					t.Failf("numeric.text", "%s: text %q, want %v", what, n.String(), i)
				}
			}
			t.Ops(1)
		}
		for e := -1074; e <= 1023; e++ {
			for _, m := range []float64{1, 1.5, 1 + 1.0/(1<<52), 2 - 1.0/(1<<52), 1 + 1.0/(1<<33)} {
				for _, sg := range []float64{1, -1} {
					f := sg * math.Ldexp(m, e)
					if math.IsInf(f, 0) || f == 0 {
						continue
					}
					isInt := math.Abs(f) < 1<<63
					s := strconv.FormatFloat(f, 'g', -1, 64)
					chk("double "+s, thrift.NewNumericFromDouble(f), f, int64(f), isInt)
					chk("string "+s, thrift.NewNumericFromString(s), f, int64(f), isInt)
					chk("json "+s, thrift.NewNumericFromJSONString(s, false), f, int64(f), isInt)
					x := strconv.FormatFloat(f, 'e', -1, 64)
					chk("json "+x, thrift.NewNumericFromJSONString(x, false), f, int64(f), isInt)
				}
			}
		}
		for sh := 0; sh < 63; sh++ {
			for _, d := range []int64{-1, 0, 1} {
				for _, sg := range []int64{1, -1} {
					n := sg * (1<<sh + d)
					chk(fmt.Sprint("i64 ", n), thrift.NewNumericFromI64(n), float64(n), n, true)
					if int64(int32(n)) == n {
						chk(fmt.Sprint("i32 ", n), thrift.NewNumericFromI32(int32(n)), float64(n), n, true)
					}
					chk(fmt.Sprint("string ", n), thrift.NewNumericFromString(strconv.FormatInt(n, 10)), float64(n), n, true)
					chk(fmt.Sprint("json ", n), thrift.NewNumericFromJSONString(strconv.FormatInt(n, 10), false), float64(n), n, true)
				}
			}
		}
		for _, f := range []float64{math.Inf(1), math.Inf(-1)} {
			if thrift.NewNumericFromDouble(f).Float64() != f {
				t.Failf("numeric.float", "%v becomes %v", f, thrift.NewNumericFromDouble(f).Float64())
			}
			s := thrift.NewNumericFromDouble(f).String()
			if thrift.NewNumericFromString(s).Float64() != f || thrift.NewNumericFromJSONString(s, false).Float64() != f {
				t.Failf("numeric.text", "%q becomes %v", s, thrift.NewNumericFromString(s).Float64())
			}
		}
		if !math.IsNaN(thrift.NewNumericFromDouble(math.NaN()).Float64()) {
			t.Failf("numeric.float", "NaN becomes %v", thrift.NewNumericFromDouble(math.NaN()).Float64())
		}
	})
}

func isText(t thrift.TType) bool {
	return t == thrift.STRING || t == thrift.UTF8 || t == thrift.UTF16 || t == thrift.BINARY
}
func isNumT(t thrift.TType) bool {
	return t == thrift.BYTE || t == thrift.I16 || t == thrift.I32 || t == thrift.I64 || t == thrift.DOUBLE
}
func wider(a, b thrift.TType) bool {
	w := map[thrift.TType]int{thrift.BYTE: 1, thrift.I16: 2, thrift.I32: 3, thrift.I64: 4}
	if a == thrift.DOUBLE {
		return b != thrift.I64
	}
	return b != thrift.DOUBLE && w[a] >= w[b]
}

// ---------------------------------------------------------------- C28 fields

func runC28(c *Ctx) {
	base := runtime.NumGoroutine()
	ids := []int{-1, 0, 1, 2, 7, 300, 32767}
	names := []string{"a", "b", "c", "A", "field_with_a_longer_name"}
	types := []thrift.TType{thrift.I32, thrift.STRING, thrift.LIST, thrift.BOOL}
	maxN := 3
	if c.Thorough() {
		maxN = 4
	}
	type fd struct {
		id   int
		name string
		typ  thrift.TType
	}
	// every set of ids of each size, names assigned in every cyclic shift
	// (one of them may be missing), every order
	var colls [][]fd
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		for sh := 0; sh < len(names); sh++ {
			for anon := -1; anon < len(cur); anon++ {
				var fs []fd
				for k, id := range cur {
					n := names[(k*2+sh)%len(names)]
					if k == anon {
						n = ""
					}
					fs = append(fs, fd{id, n, types[(k+sh)%len(types)]})
				}
				colls = append(colls, fs)
			}
		}
		if len(cur) == maxN {
			return
		}
		for i := start; i < len(ids); i++ {
			rec(i+1, append(append([]int{}, cur...), ids[i]))
		}
	}
	rec(0, nil)
	mk := func(fs []fd, p []int) []thrift.TField {
		var out []thrift.TField
		for _, i := range p {
			out = append(out, thrift.NewTField(fs[i].name, fs[i].typ, fs[i].id))
		}
		return out
	}
	is := func(f thrift.TField, w fd) bool {
		return f != nil && f.Id() == w.id && f.Name() == w.name && f.TypeId() == w.typ
	}
	var n int64
	c.Par("collections", len(colls), func(i int) string { return fmt.Sprint(colls[i]) }, func(t *T, ci int) {
		fs := colls[ci]
		sorted := append([]fd{}, fs...)
		sort.Slice(sorted, func(i, j int) bool { return sorted[i].id < sorted[j].id })
		first := thrift.NewTFieldContainer(mk(fs, perms(len(fs))[0]))
		for _, p := range perms(len(fs)) {
			given := mk(fs, p)
			for _, as := range []string{"collection", "struct"} {
				var col thrift.TFieldContainer
				if as == "collection" {
					col = thrift.NewTFieldContainer(given)
				} else {
					s := thrift.NewTStruct("S", given)
					if s.ThriftName() != "S" || s.TStructName() != "S" {
						t.Failf("struct.name", "a struct named S is called %q, %q", s.ThriftName(), s.TStructName())
					}
					col = s.TStructFields()
					if s.Len() != len(fs) {
						t.Failf("struct.len", "a struct of %d fields has length %d", len(fs), s.Len())
					}
				}
				what := fmt.Sprintf("%s of %v in order %v", as, fs, p)
				if col.Len() != len(fs) {
					t.Failf("fields.len", "%s: Len() = %d", what, col.Len())
				}
				k := 0
				for f := range col.Iter() {
					if k >= len(sorted) || !is(f, sorted[k]) {
						t.Failf("fields.iter", "%s: field %d of the iteration is %v", what, k, f)
					}
					k++
				}
				if k != len(sorted) {
					t.Failf("fields.iter", "%s: iteration yields %d fields", what, k)
				}
				for _, w := range fs {
					if !is(col.FieldFromFieldId(w.id), w) || !is(col.At(w.id), w) {
						t.Failf("fields.byid", "%s: field %d is %v", what, w.id, col.FieldFromFieldId(w.id))
					}
					if col.FieldNameFromFieldId(w.id) != w.name {
						t.Failf("fields.name", "%s: field %d is named %q", what, w.id, col.FieldNameFromFieldId(w.id))
					}
					if w.name != "" {
						if !is(col.FieldFromFieldName(w.name), w) {
							t.Failf("fields.byname", "%s: field %q is %v", what, w.name, col.FieldFromFieldName(w.name))
						}
						if col.FieldIdFromFieldName(w.name) != w.id {
							t.Failf("fields.id", "%s: field %q has id %d", what, w.name, col.FieldIdFromFieldName(w.name))
						}
						if !col.Contains(w.name) {
							t.Failf("fields.contains", "%s: does not contain %q", what, w.name)
						}
					}
					if !col.Contains(w.id) || !col.Contains(int16(w.id)) || !col.Contains(thrift.NewTField(w.name, w.typ, w.id)) {
						t.Failf("fields.contains", "%s: does not contain %v", what, w)
					}
				}
				for _, id := range append([]int{3, -2, 65535, 65536 + 1, 256 + 44}, ids...) {
					has := false
					for _, w := range fs {
						has = has || w.id == id
					}
					if has {
						continue
					}
					if f := col.FieldFromFieldId(id); f == nil || f.TypeId() != thrift.STOP || f.Name() != "" {
						t.Failf("fields.absent", "%s: field %d is %v", what, id, f)
					}
					if col.FieldNameFromFieldId(id) != "" || col.Contains(id) || int(int16(id)) == id && col.Contains(int16(id)) {
						t.Failf("fields.absent", "%s: has field %d", what, id)
					}
					if col.Contains(thrift.NewTField("a", thrift.I32, id)) {
						t.Failf("fields.absent", "%s: contains a field of id %d", what, id)
					}
				}
				for _, nm := range append([]string{"x", "aa", "B"}, names...) {
					has := false
					for _, w := range fs {
						has = has || w.name == nm
					}
					if has {
						continue
					}
					if f := col.FieldFromFieldName(nm); f == nil || f.TypeId() != thrift.STOP || f.Name() != "" {
						t.Failf("fields.absent", "%s: field %q is %v", what, nm, f)
					}
					if col.FieldIdFromFieldName(nm) != -1 || col.Contains(nm) {
						t.Failf("fields.absent", "%s: has field %q", what, nm)
					}
				}
				// the list given may be changed afterwards
				o := thrift.NewTFieldContainer(given)
				if !o.Equals(first) || !first.Equals(o) {
					t.Failf("fields.equals", "%s: not equal to the same fields in another order", what)
				}
				if x, ok := o.CompareTo(first); x != 0 || !ok {
					t.Failf("fields.compare", "%s: compares to the same fields in another order as %d, %v", what, x, ok)
				}
				for i := range fs {
					ch := append([]fd{}, fs...)
					ch[i].typ = thrift.DOUBLE
					d := thrift.NewTFieldContainer(mk(ch, p))
					if d.Equals(o) || o.Equals(d) {
						t.Failf("fields.equals", "%s: equal to %v", what, ch)
					}
					x, ok1 := d.CompareTo(o)
					y, ok2 := o.CompareTo(d)
					if x == 0 || !ok1 || !ok2 || sign(x) != -sign(y) {
						t.Failf("fields.compare", "%s: comparing with %v yields %d, %v and %d, %v", what, ch, x, ok1, y, ok2)
					}
					less := thrift.NewTFieldContainer(mk(append(append([]fd{}, fs[:i]...), fs[i+1:]...), perms(len(fs) - 1)[0]))
					if less.Equals(o) || o.Equals(less) {
						t.Failf("fields.equals", "%s: equal without %v", what, fs[i])
					}
				}
				atomic.AddInt64(&n, 1)
				t.Ops(20)
			}
		}
		t.State(hashS(fmt.Sprint(fs)))
	})
	atomic.AddInt64(&c.traces, n)
	c.AddExtra("collections", n)
	c.Seq("goroutines", 1, nil, func(t *T, _ int) { noGoroutines(t, base) })
}
