package main

import (
	"bytes"
	"fmt"
	"math"
	"simple"
	"strings"
	"thrift"
)

func init() {
	checks["C18"] = checkDef{"model_checking", runC18}
}

const unset = int64(math.MinInt32 - 1)

var ceNames = []string{"first", "second", "third", "optional_fourth", "optional_fifth", "optional_sixth", "default_seventh", "default_eighth", "default_nineth"}
var ceDefaults = ce{unset, unset, unset, unset, unset, unset, 0, 1, 0}

// ce is the state of the sample struct: one number per field.
type ce [9]int64

func (v ce) set(o *simple.ContainerOfEnums) {
	o.First, o.Second, o.Third = simple.UndefinedValues(v[0]), simple.DefinedValues(v[1]), simple.HeterogeneousValues(v[2])
	o.OptionalFourth, o.OptionalFifth, o.OptionalSixth = simple.UndefinedValues(v[3]), simple.DefinedValues(v[4]), simple.HeterogeneousValues(v[5])
	o.DefaultSeventh, o.DefaultEighth, o.DefaultNineth = simple.UndefinedValues(v[6]), simple.DefinedValues(v[7]), simple.HeterogeneousValues(v[8])
}
func (v ce) obj() *simple.ContainerOfEnums {
	o := simple.NewContainerOfEnums()
	v.set(o)
	return o
}
func ceOf(o *simple.ContainerOfEnums) ce {
	return ce{int64(o.First), int64(o.Second), int64(o.Third), int64(o.OptionalFourth), int64(o.OptionalFifth), int64(o.OptionalSixth), int64(o.DefaultSeventh), int64(o.DefaultEighth), int64(o.DefaultNineth)}
}
func ceIsSet(o *simple.ContainerOfEnums) [9]bool {
	return [9]bool{o.IsSetFirst(), o.IsSetSecond(), o.IsSetThird(), o.IsSetOptionalFourth(), o.IsSetOptionalFifth(), o.IsSetOptionalSixth(), o.IsSetDefaultSeventh(), o.IsSetDefaultEighth(), o.IsSetDefaultNineth()}
}

// wire is what must be on the wire: one i32 field per field that is set.
func (v ce) wire() Val {
	var f []Field
	for i, x := range v {
		if x != unset {
			f = append(f, Field{int16(i + 1), ceNames[i], vI32(int32(x))})
		}
	}
	return vStruct(f...)
}

// read is what a fresh object holds after reading it.
func (v ce) read() ce {
	for i := range v {
		if v[i] == unset {
			v[i] = ceDefaults[i]
		}
	}
	return v
}

func (v ce) String() string {
	var s []string
	for _, x := range v {
		if x == unset {
			s = append(s, "-")
		} else {
			s = append(s, fmt.Sprint(x))
		}
	}
	return strings.Join(s, ",")
}

func ceFromDigits(i int, dom [][]int64) ce {
	var v ce
	for j := range v {
		v[j] = dom[j][i%len(dom[j])]
		i /= len(dom[j])
	}
	return v
}

func runC18(c *Ctx) {
	c.Rule("states = distinct (protocol, field assignment or wire arrangement or fault); transitions = protocol calls; every execution runs the generated Read/Write of the sample service's structs over the real protocols")
	probe := Msg{"nxt", 2, 9, vStruct(Field{5, "f5", vBool(true)}, Field{6, "f6", vStr("z")})}
	probeFor := func(pr *proto) Msg { return probe }
	check := func(t *T, pr *proto, v ce) {
		m := newMem(nil)
		p := pr.mk(m)
		o := v.obj()
		for i, s := range ceIsSet(o) {
			if s != (v[i] != unset) {
				t.Failf("isset", "%s: IsSet of field %d is %v", v, i+1, s)
			}
		}
		if e := o.Write(p); e != nil {
			t.Failf("write", "%v", e)
		}
		if e := p.Flush(); e != nil {
			t.Failf("write", "%v", e)
		}
		if ceOf(o) != v {
			t.Failf("mutated", "writing %s changed it to %s", v, ceOf(o))
		}
		end := len(m.b)
		switch pr {
		case pBin:
			if w := encBin(v.wire()); !bytes.Equal(m.b, w) {
				t.Failf("wire", "%s is written as %s, want %s", v, hexS(m.b), hexS(w))
			}
		case pComp:
			if w := encComp(v.wire()); !bytes.Equal(m.b, w) {
				t.Failf("wire", "%s is written as %s, want %s", v, hexS(m.b), hexS(w))
			}
		default:
			if err := pr.readLike(pr.mk(newMem(m.b)), v.wire()); err != nil {
				t.Failf("wire", "%s is on the wire as %s: %v", v, short(m.b), err)
			}
		}
		n := simple.NewContainerOfEnums()
		if got := ceOf(n); got != ceDefaults {
			t.Failf("defaults", "a new object is %s, want %s", got, ceDefaults)
		}
		q := pr.mk(newMem(m.b[:end:end]))
		if e := n.Read(q); e != nil {
			t.Failf("read", "reading %s back: %v", v, e)
		}
		if got := ceOf(n); got != v.read() {
			t.Failf("value", "%s is read back as %s, want %s", v, got, v.read())
		}
		t.Trace()
		t.Ops(40)
	}
	// every assignment of three values to each field
	dom := make([][]int64, 9)
	for i := range dom {
		dom[i] = []int64{unset, ceDefaults[i], math.MaxInt32}
		if i < 6 {
			dom[i][1] = int64(i % 3)
		}
	}
	total := 1
	for range dom {
		total *= 3
	}
	const block = 243
	for _, pr := range allProtos {
		pr := pr
		c.Par("assignments/"+pr.name, total/block, nil, func(t *T, b int) {
			for i := b * block; i < (b+1)*block; i++ {
				v := ceFromDigits(i, dom)
				t.sub = v.String()
				check(t, pr, v)
				t.StateS(pr.name + t.sub)
			}
		})
	}
	// each field over many values, and each pair of fields
	vals := []int64{unset, 0, 1, 2, 3, 4, -1, -2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, -8192, -8193, 32767, 32768, -32768, -32769, 65535, 65536, 1 << 20, 1<<20 - 1, 1 << 27, 1 << 30, math.MaxInt32 - 1, math.MaxInt32, math.MinInt32, math.MinInt32 + 1}
	if c.Thorough() {
		for s := uint(2); s < 31; s++ {
			for d := int64(-1); d <= 1; d++ {
				vals = append(vals, 1<<s+d, -(1<<s)+d)
			}
		}
	}
	for _, pr := range allProtos {
		pr := pr
		c.Par("pairs/"+pr.name, 81, func(i int) string { return fmt.Sprintf("%d-%d", i/9+1, i%9+1) }, func(t *T, i int) {
			a, b := i/9, i%9
			for _, x := range vals {
				for _, y := range vals {
					for base := 0; base < 2; base++ {
						v := ceDefaults
						if base == 1 {
							v = ce{1, 2, 3, 2, 3, 4, 2, 2, 2}
						}
						v[b] = y
						v[a] = x
						t.sub = v.String()
						check(t, pr, v)
						t.StateS(pr.name + t.sub)
					}
				}
			}
		})
	}
	// arrangements of wire fields: known fields in any order and number, with
	// unknown fields of every type in between
	var alpha []Field
	add := func(id int16, name string, v Val) { alpha = append(alpha, Field{id, name, v}) }
	add(1, "first", vI32(2))
	add(1, "first", vI32(-7))
	add(5, "optional_fifth", vI32(3))
	add(7, "default_seventh", vI32(0))
	add(9, "default_nineth", vI32(4))
	add(10, "u", vBool(true))
	add(10, "u", vBool(false))
	add(11, "first_", vByte(200))
	add(0, "u", vI16(-5))
	add(-3, "u", vI32(1))
	add(300, "u", vI64(1<<60))
	add(-32768, "u", vDbl(-2.5))
	add(32767, "u", vStr("a\"b\\{}"))
	add(20, "u", vStr(pattern(300)))
	add(21, "u", vBin("\x00\xff\x80"))
	add(22, "u", vStruct(fld(1, vI32(77)), fld(7, vI32(78)), fld(5, vStruct(fld(1, vI32(79))))))
	add(23, "u", vStruct())
	add(24, "u", vList(tI32, vI32(1), vI32(2)))
	add(25, "u", vList(tBOOL, vBool(true), vBool(false)))
	add(26, "u", vSet(tSTRING, vStr("x"), vStr("")))
	add(27, "u", vMap(tI32, tSTRUCT, vI32(1), vStruct(fld(1, vI32(5)))))
	add(28, "u", vMap(tSTRING, tI32))
	add(29, "u", vList(tLIST, vList(tBYTE), vList(tBYTE, vByte(1))))
	var names []string
	for _, a := range alpha {
		names = append(names, fmt.Sprintf("%d:%s", a.ID, a.V))
	}
	expect := func(fs []Field) ce {
		v := ceDefaults
		for _, f := range fs {
			if f.ID >= 1 && f.ID <= 9 {
				v[f.ID-1] = f.V.I
			}
		}
		return v
	}
	arrange := func(pr *proto, section string, alpha []Field, names []string, depth int) {
		seqsTo(c, section+"/"+pr.name, names, depth, func(t *T, seq []int) {
			var fs []Field
			for _, i := range seq {
				fs = append(fs, alpha[i])
			}
			m := newMem(nil)
			p := pr.mk(m)
			w := Msg{"m", 2, 7, vStruct(fs...)}
			if e := writeMsg(p, w); e != nil {
				t.Failf("write", "%v", e)
			}
			if e := writeMsg(p, probeFor(pr)); e != nil {
				t.Failf("write", "%v", e)
			}
			q := pr.mk(newMem(m.b))
			n := simple.NewContainerOfEnums()
			_, _, _, err := q.ReadMessageBegin()
			mustTrue(err == nil, "read", "reading the header before %s: %v", w.Body, err)
			e := n.Read(q)
			mustTrue(e == nil, "read", "reading %s: %v", w.Body, e)
			e = q.ReadMessageEnd()
			mustTrue(e == nil, "read", "reading the end after %s: %v", w.Body, e)
			mustTrue(ceOf(n) == expect(fs), "value", "%s is read as %s, want %s", w.Body, ceOf(n), expect(fs))
			er := pr.readMsgLike(q, probeFor(pr))
			mustTrue(er == nil, "next", "reading the message after %s: %v", w.Body, er)
			t.StateS(pr.name + section + fmt.Sprint(seq))
		})
	}
	for _, pr := range []*proto{pBin, pComp, pJSON} {
		arrange(pr, "wire", alpha, names, c.Pick(3, 4))
	}
	// the same for all protocols with known fields alone: every order of every
	// selection, with repetitions
	var kalpha []Field
	var knames []string
	for i, n := range ceNames {
		kalpha = append(kalpha, Field{int16(i + 1), n, vI32(int32(10 + i))})
		knames = append(knames, n)
	}
	for _, pr := range allProtos {
		arrange(pr, "order", kalpha, knames, c.Pick(4, 5))
	}
	// the structs of a call
	inner := []*ce{nil, {unset, unset, unset, unset, unset, unset, unset, unset, unset}, &ceDefaults, {1, 2, 3, 2, 3, 4, 2, 2, 2}, {-1, math.MaxInt32, math.MinInt32, unset, 5, unset, 0, 0, 0}}
	c.Par("nested", len(inner)*2*len(allProtos), nil, func(t *T, i int) {
		in, res, pr := inner[i/2/len(allProtos)], i/len(allProtos)%2, allProtos[i%len(allProtos)]
		var obj *simple.ContainerOfEnums
		var w Val
		name, id := "message", int16(1)
		if res == 1 {
			name, id = "success", 0
		}
		if in != nil {
			obj = in.obj()
			w = vStruct(Field{id, name, in.wire()})
		} else {
			w = vStruct()
		}
		m := newMem(nil)
		p := pr.mk(m)
		var e thrift.TProtocolException
		if res == 0 {
			a := simple.NewEchoArgs()
			a.Message = obj
			e = a.Write(p)
		} else {
			a := simple.NewEchoResult()
			a.Success = obj
			e = a.Write(p)
		}
		if e == nil {
			e = p.Flush()
		}
		if e != nil {
			t.Failf("write", "%v", e)
		}
		if err := pr.readLike(pr.mk(newMem(m.b)), w); err != nil {
			t.Failf("wire", "%s: on the wire: %v", w, err)
		}
		var got *simple.ContainerOfEnums
		q := pr.mk(newMem(m.b))
		if res == 0 {
			a := simple.NewEchoArgs()
			e = a.Read(q)
			got = a.Message
		} else {
			a := simple.NewEchoResult()
			e = a.Read(q)
			got = a.Success
		}
		if e != nil {
			t.Failf("read", "%s: %v", w, e)
		}
		if (got == nil) != (in == nil) || got != nil && ceOf(got) != in.read() {
			t.Failf("value", "%s is read back as %v", w, got)
		}
		t.StateS(fmt.Sprint("nested", i))
		t.Trace()
		t.Ops(40)
	})
	// faults
	type rw struct {
		name  string
		write func(p thrift.TProtocol) thrift.TProtocolException
		read  func(p thrift.TProtocol) thrift.TProtocolException
		wire  Val
	}
	var objs []rw
	for _, v := range []ce{{unset, unset, unset, unset, unset, unset, unset, unset, unset}, ceDefaults, {1, 2, 3, 2, 3, 4, 2, 2, 2}, {-1, math.MaxInt32, math.MinInt32, unset, 5, unset, 0, 300, 70000}, {unset, unset, unset, unset, unset, unset, unset, unset, 1}} {
		v := v
		objs = append(objs, rw{"ContainerOfEnums " + v.String(),
			func(p thrift.TProtocol) thrift.TProtocolException { return v.obj().Write(p) },
			func(p thrift.TProtocol) thrift.TProtocolException { return simple.NewContainerOfEnums().Read(p) }, v.wire()})
		objs = append(objs, rw{"EchoArgs " + v.String(),
			func(p thrift.TProtocol) thrift.TProtocolException {
				a := simple.NewEchoArgs()
				a.Message = v.obj()
				return a.Write(p)
			},
			func(p thrift.TProtocol) thrift.TProtocolException { return simple.NewEchoArgs().Read(p) }, vStruct(Field{1, "message", v.wire()})})
		objs = append(objs, rw{"EchoResult " + v.String(),
			func(p thrift.TProtocol) thrift.TProtocolException {
				a := simple.NewEchoResult()
				a.Success = v.obj()
				return a.Write(p)
			},
			func(p thrift.TProtocol) thrift.TProtocolException { return simple.NewEchoResult().Read(p) }, vStruct(Field{0, "success", v.wire()})})
	}
	objs = append(objs, rw{"EchoArgs nil", func(p thrift.TProtocol) thrift.TProtocolException { return simple.NewEchoArgs().Write(p) },
		func(p thrift.TProtocol) thrift.TProtocolException { return simple.NewEchoArgs().Read(p) }, vStruct()})
	c.Par("faults", len(objs)*len(allProtos), func(i int) string {
		return allProtos[i%len(allProtos)].name + " " + objs[i/len(allProtos)].name
	}, func(t *T, i int) {
		o, pr := objs[i/len(allProtos)], allProtos[i%len(allProtos)]
		// each failing protocol call while writing
		fp := &failProto{TProtocol: pr.mk(newMem(nil)), at: -1}
		if e := o.write(fp); e != nil {
			t.Failf("write", "%v", e)
		}
		n := fp.n
		for k := 0; k < n; k++ {
			t.Try(fmt.Sprintf("write call %d", k), func() {
				f := &failProto{TProtocol: pr.mk(newMem(nil)), at: k}
				if e := o.write(f); e == nil {
					t.Failf("write-hidden", "%s failed, writing reported success", f.what)
				} else if !strings.Contains(e.Error(), "injected") {
					t.Failf("write-error", "%s failed, the error reported is %v", f.what, e)
				}
				t.StateS(fmt.Sprint(pr.name, o.name, "wcall", k))
			})
			t.Trace()
		}
		// each failing write of the transport
		run := func(f *faultW) error {
			p := pr.mk(f)
			if e := o.write(p); e != nil {
				return e
			}
			if e := p.Flush(); e != nil {
				return e
			}
			return nil
		}
		ok := &faultW{failAt: -1, failFlush: -1}
		if e := run(ok); e != nil {
			t.Failf("write", "%v", e)
		}
		for k := 0; k < ok.writes; k++ {
			for mode := 0; mode < 4; mode++ {
				f := &faultW{failAt: k, failFlush: -1, sticky: mode&1 == 1, mode: mode >> 1}
				t.Try(fmt.Sprintf("write %d mode %d", k, mode), func() {
					if e := run(f); e == nil && f.failed {
						t.Failf("write-hidden", "write %d failed, writing reported success", k)
					}
					t.StateS(fmt.Sprint(pr.name, o.name, "write", k, mode))
				})
				t.Trace()
			}
		}
		// reading: each failing protocol call
		m := newMem(nil)
		p := pr.mk(m)
		if e := o.write(p); e != nil {
			t.Failf("write", "%v", e)
		}
		p.Flush()
		fr := &failProto{TProtocol: pr.mk(newMem(m.b)), at: -1}
		if e := o.read(fr); e != nil {
			t.Failf("read", "%v", e)
		}
		for k := 0; k < fr.n; k++ {
			t.Try(fmt.Sprintf("read call %d", k), func() {
				f := &failProto{TProtocol: pr.mk(newMem(m.b)), at: k}
				if e := o.read(f); e == nil {
					t.Failf("read-hidden", "%s failed, reading reported success", f.what)
				}
				t.StateS(fmt.Sprint(pr.name, o.name, "rcall", k))
			})
			t.Trace()
		}
		// each truncation
		for n := 0; n < len(m.b); n++ {
			for end := 0; end < 2; end++ {
				for chunk := 0; chunk < 2; chunk++ {
					sc := &scriptT{data: m.b[:n], end: end}
					if chunk == 1 {
						sc.choose = plan{chunk: 1, eof: true}.chooser(sc)
					}
					t.Try(fmt.Sprintf("%d of %d bytes, end %d", n, len(m.b), end), func() {
						if e := o.read(pr.mk(sc)); e == nil {
							t.Failf("truncated", "%d of %d bytes read as a complete struct", n, len(m.b))
						}
						t.StateS(fmt.Sprint(pr.name, o.name, "cut", n))
					})
					t.Trace()
				}
			}
		}
	})
}
