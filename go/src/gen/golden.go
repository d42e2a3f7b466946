package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"genreg"
	"go/types"
	"idl"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"thrift"
)

// C29: the code made from the sample definition and the published code of it
// go through the same executions in lockstep.

func init() { checks["C29"] = checkDef{"model_checking", runC29} }

type preparedGolden struct {
	Gen    string   // error of the generator
	Errs   []string // of the Go compiler
	Golden []string // exported names with their types
	Made   []string
}

func sample(repo string) (*idl.Program, error) {
	b, err := os.ReadFile(filepath.Join(repo, "tests/generation/simple.thrift"))
	if err != nil {
		return nil, err
	}
	return idl.Parse("simple", string(b), noInclude)
}

func prepareGolden(repo string, thorough bool) error {
	work, driver, bin := setupDirs()
	comp, err := newCompiler()
	if err != nil {
		return err
	}
	p, err := sample(repo)
	if err != nil {
		return err
	}
	root := filepath.Join(work, "s1")
	os.RemoveAll(root)
	os.MkdirAll(root, 0755)
	gs, err := generate(driver, bin, root, []*idl.Program{p}, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	made := gs[0]
	golden := &generated{prog: p}
	if err := golden.load(filepath.Join(repo, "tests/generation/golden")); err != nil {
		return err
	}
	pr := preparedGolden{Gen: made.err}
	// the command line tools of neither compile
	for _, g := range []*generated{golden, made} {
		for f := range g.files {
			if strings.Contains(f, "/") {
				delete(g.files, f)
			}
		}
	}
	golden.path, made.path = "zzgolden", "zzmade"
	if errs, _ := comp.check(golden, map[string]*types.Package{}); len(errs) > 0 {
		return fmt.Errorf("the published code: %v", errs)
	}
	if made.err == "" {
		pr.Errs, _ = comp.check(made, map[string]*types.Package{})
	}
	pr.Golden = api(golden.pkg)
	imports := "package genall\n\nimport (\n"
	src := filepath.Join(work, "gopath", "src")
	for _, g := range []*generated{golden, made} {
		if g == made && (made.err != "" || len(pr.Errs) > 0) {
			continue
		}
		if g == made {
			pr.Made = api(made.pkg)
		}
		dst := filepath.Join(src, g.path)
		os.RemoveAll(dst)
		os.MkdirAll(dst, 0755)
		lib, _ := g.fileNames()
		for _, f := range lib {
			os.WriteFile(filepath.Join(dst, f), g.files[f], 0644)
		}
		os.WriteFile(filepath.Join(dst, "zz_registry.go"), []byte(registryFile(g)), 0644)
		imports += fmt.Sprintf("\t_ %q\n", g.path)
	}
	os.MkdirAll(filepath.Join(src, "genall"), 0755)
	os.WriteFile(filepath.Join(src, "genall", "genall.go"), []byte(imports+")\n"), 0644)
	b, _ := json.Marshal(pr)
	return os.WriteFile(filepath.Join(work, "prepared.json"), b, 0644)
}

// api lists what a package exports.
func api(pkg *types.Package) []string {
	if pkg == nil {
		return nil
	}
	rel := types.RelativeTo(pkg)
	// the names of parameters are nobody's business
	var bare func(t types.Type) types.Type
	bare = func(t types.Type) types.Type {
		sig, ok := t.(*types.Signature)
		if !ok {
			return t
		}
		strip := func(tu *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < tu.Len(); i++ {
				vs = append(vs, types.NewParam(0, pkg, "", tu.At(i).Type()))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, strip(sig.Params()), strip(sig.Results()), sig.Variadic())
	}
	var out []string
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		line := n + " " + types.TypeString(bare(o.Type()), rel)
		if c, ok := o.(*types.Const); ok {
			line += " = " + c.Val().ExactString()
		}
		out = append(out, line)
		if _, ok := o.(*types.TypeName); !ok {
			continue
		}
		u := o.Type().Underlying()
		if st, ok := u.(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Exported() {
					out = append(out, fmt.Sprintf("%s field %d %s %s %q", n, i, f.Name(), types.TypeString(f.Type(), rel), st.Tag(i)))
				}
			}
		} else if _, ok := u.(*types.Interface); !ok {
			out = append(out, n+" = "+types.TypeString(u, rel))
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			if _, ok := u.(*types.Interface); ok && t != o.Type() {
				continue
			}
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i).Obj()
				if m.Exported() {
					out = append(out, fmt.Sprintf("(%s).%s %s", types.TypeString(t, rel), m.Name(), types.TypeString(bare(m.Type()), rel)))
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

var hexRE = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// show renders a value of either package.
func show(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case error:
		return fmt.Sprintf("%T(%v)", v, showText(v.Error()))
	}
	r := reflect.ValueOf(x)
	switch r.Kind() {
	case reflect.Ptr:
		if r.IsNil() {
			return fmt.Sprintf("%T(nil)", x)
		}
		if r.Elem().Kind() == reflect.Struct {
			s := fmt.Sprintf("%T{", x)
			for i := 0; i < r.Elem().NumField(); i++ {
				if f := r.Elem().Type().Field(i); f.PkgPath == "" && !f.Anonymous {
					s += f.Name + ":" + show(r.Elem().Field(i).Interface()) + " "
				}
			}
			return s + "}"
		}
		return fmt.Sprintf("%T", x)
	case reflect.Int64:
		return fmt.Sprintf("%T(%d)", x, r.Int())
	case reflect.Slice:
		s := fmt.Sprintf("%T[", x)
		for i := 0; i < r.Len(); i++ {
			s += show(r.Index(i).Interface()) + " "
		}
		return s + "]"
	case reflect.Func, reflect.Map, reflect.Chan:
		return fmt.Sprintf("%T", x)
	}
	if f, ok := x.(thrift.TFieldContainer); ok {
		s := "fields["
		for i := 0; i < f.Len(); i++ {
			g := f.At(i)
			s += fmt.Sprintf("%s %d %d ", g.Name(), g.TypeId(), g.Id())
		}
		return s + "]"
	}
	return fmt.Sprintf("%T %s", x, showText(fmt.Sprintf("%v", x)))
}

func showText(s string) string { return hexRE.ReplaceAllString(s, "PTR") }

func showAll(rs []reflect.Value) string {
	s := ""
	for _, r := range rs {
		if r.Kind() == reflect.Interface && r.IsNil() {
			s += "nil; "
			continue
		}
		s += show(r.Interface()) + "; "
	}
	return s
}

// side is one of the packages together with the record of what it did.
type side struct {
	w   *world
	log []string
}

func (s *side) add(f string, a ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

// try records the panics of f.
func (s *side) try(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, own := r.(failure); own {
				panic(r)
			}
			s.add("panic: %s", showText(fmt.Sprint(r)))
		}
	}()
	f()
}

func (s *side) proto(pr *proto, tr thrift.TTransport, failAt int, n *int) thrift.TProtocol {
	return &logProto{in: pr.mk(tr), tr: tr, log: &s.log, n: n, failAt: failAt}
}

type lockstep struct {
	golden, made *genreg.Package
}

// both runs f on both packages and compares the records. It gives their length.
func (l *lockstep) both(t *T, sub string, f func(s *side)) int {
	t.Sub(sub)
	g, m := &side{w: &world{l.golden}}, &side{w: &world{l.made}}
	run := func(s *side) (err interface{}) {
		defer func() {
			if r := recover(); r != nil {
				if fl, own := r.(failure); own {
					s.add("%s", fl.msg)
					return
				}
				panic(r)
			}
		}()
		f(s)
		return
	}
	run(g)
	run(m)
	t.Trace()
	t.Ops(len(g.log) + len(m.log))
	for i := 0; i < len(g.log) || i < len(m.log); i++ {
		a, b := "(ends)", "(ends)"
		if i < len(g.log) {
			a = g.log[i]
		}
		if i < len(m.log) {
			b = m.log[i]
		}
		if a != b {
			t.Failf("behaviour", "step %d: the published code: %s\nthe code made: %s", i, a, b)
		}
	}
	t.StateS(strings.Join(g.log, "\n"))
	return len(g.log)
}

func sampleMemories(st *idl.Struct, deep int) []Val {
	var out []Val
	vals := []int64{0, 1, 2, 3, 4, 5, -1, 2147483647, math.MinInt32}
	var enums []*idl.Field
	for _, f := range st.Fields {
		if kindOf(f.T) == "enum" {
			enums = append(enums, f)
		}
	}
	if len(enums) == 0 {
		return memories(st, 100)
	}
	start := initial(st)
	var rec func(from, left int, v Val)
	rec = func(from, left int, v Val) {
		out = append(out, v)
		if left == 0 {
			return
		}
		for i := from; i < len(enums); i++ {
			for _, x := range vals {
				e := emptyOf(enums[i].T)
				e.I = x
				rec(i+1, left-1, with(v, enums[i], e))
			}
			rec(i+1, left-1, without(v, enums[i]))
		}
	}
	rec(0, deep, start)
	all := start
	for k := range vals {
		for i, f := range enums {
			e := emptyOf(f.T)
			e.I = vals[(i+k)%len(vals)]
			all = with(all, f, e)
		}
		out = append(out, all)
	}
	return out
}

func runC29(c *Ctx) {
	var pr preparedGolden
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_WORK"), "prepared.json"))
	if err == nil {
		err = json.Unmarshal(b, &pr)
	}
	if err != nil || len(pr.Golden) == 0 {
		fmt.Fprintln(os.Stderr, "not prepared:", err)
		os.Exit(2)
	}
	c.Par("made", 1, nil, func(t *T, i int) {
		if pr.Gen != "" {
			t.Failf("generate", "%s", pr.Gen)
		}
		if len(pr.Errs) > 0 {
			t.Failf("compile", "%s", strings.Join(pr.Errs, "; "))
		}
	})
	if pr.Gen != "" || len(pr.Errs) > 0 {
		return
	}
	names := map[string]int{}
	for _, n := range pr.Golden {
		names[n] |= 1
	}
	for _, n := range pr.Made {
		names[n] |= 2
	}
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Strings(list)
	c.Par("api", len(list), func(i int) string { return list[i] }, func(t *T, i int) {
		t.StateS(list[i])
		t.Ops(1)
		if k := names[list[i]]; k != 3 {
			t.Failf("api", "%s is only in the %s", list[i], []string{"", "published code", "code made"}[k])
		}
	})
	l := &lockstep{genreg.Packages["zzgolden"], genreg.Packages["zzmade"]}
	if l.golden == nil || l.made == nil {
		fmt.Fprintln(os.Stderr, "a package is not linked")
		os.Exit(2)
	}
	p, err := sample(c.Repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c.Rule("the published package and the one made now run every execution in lockstep; each call they make to protocol, transport and handler, each result, error, panic and field is compared")
	l.enums(c, p)
	l.structs(c, p)
	l.service(c, p)
}

func (l *lockstep) enums(c *Ctx, p *idl.Program) {
	c.Par("enums", len(p.Enums), func(i int) string { return p.Enums[i].Name }, func(t *T, i int) {
		e := p.Enums[i]
		var texts []string
		for _, o := range p.Enums {
			for _, v := range o.Vals {
				texts = append(texts, v.Name, strings.ToLower(v.Name), o.Name+"."+v.Name, o.Name+v.Name, v.Name+" ")
			}
		}
		texts = append(texts, "", "0", "1", "2", "-1", "<UNSET>")
		vals := []int64{math.MinInt64, math.MinInt32 - 1, math.MinInt32, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64}
		for v := int64(-20); v <= 300; v++ {
			vals = append(vals, v)
		}
		for _, v := range vals {
			l.both(t, fmt.Sprint(v), func(s *side) {
				f := s.w.pkg.Enums[goName(e.Name)]
				if f == nil {
					s.add("no enum")
					return
				}
				x := reflect.ValueOf(f(v))
				for m := 0; m < x.NumMethod(); m++ {
					if x.Method(m).Type().NumIn() == 0 {
						s.try(func() { s.add("%s %s", x.Type().Method(m).Name, showAll(x.Method(m).Call(nil))) })
					}
				}
			})
		}
		for _, txt := range texts {
			l.both(t, txt, func(s *side) {
				f := s.w.pkg.Froms["From"+goName(e.Name)+"String"]
				if f == nil {
					s.add("no function")
					return
				}
				s.try(func() { s.add("%s", show(f(txt))) })
			})
		}
	})
	vals := map[string]bool{}
	for _, g := range []*genreg.Package{l.golden, l.made} {
		for n := range g.Values {
			vals[n] = true
		}
	}
	var ns []string
	for n := range vals {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	c.Par("values", len(ns), func(i int) string { return ns[i] }, func(t *T, i int) {
		l.both(t, "", func(s *side) {
			if f := s.w.pkg.Values[ns[i]]; f == nil {
				s.add("not there")
			} else {
				s.add("%s", show(f()))
			}
		})
	})
}

// anyStructs are the structs of the program and those of its calls.
func anyStructs(p *idl.Program) (out []*idl.Struct) {
	out = append(out, p.Structs...)
	for _, s := range p.Services {
		for _, f := range s.Funcs {
			out = append(out, &idl.Struct{Name: f.Name + "_args", Fields: f.Args})
			r := &idl.Struct{Name: f.Name + "_result"}
			if f.Ret.Kind != "void" {
				r.Fields = append(r.Fields, &idl.Field{Name: "success", T: f.Ret})
			}
			r.Fields = append(r.Fields, f.Throws...)
			out = append(out, r)
		}
	}
	return
}

func (s *side) make(st *idl.Struct) reflect.Value {
	n := goName(st.Name)
	for suf, to := range map[string]string{"_args": "Args", "_result": "Result"} {
		if strings.HasSuffix(st.Name, suf) {
			n = goName(strings.TrimSuffix(st.Name, suf)) + to
		}
	}
	f := s.w.pkg.News["New"+n]
	if f == nil {
		panic(failure{"missing", "there is no constructor New" + n})
	}
	return reflect.ValueOf(f())
}

func (s *side) filled(t *T, st *idl.Struct, v Val) reflect.Value {
	o := s.make(st)
	s.w.fill(t, st, o, v, false)
	return o
}

func (l *lockstep) structs(c *Ctx, p *idl.Program) {
	type job struct {
		st  *idl.Struct
		mem Val
		few bool
	}
	var jobs []job
	sts := anyStructs(p)
	for _, st := range sts {
		for i, m := range sampleMemories(st, c.Pick(2, 3)) {
			jobs = append(jobs, job{st, m, i%c.Pick(37, 101) != 0})
		}
	}
	id := func(i int) string { return fmt.Sprintf("%s %v", jobs[i].st.Name, jobs[i].mem) }
	protos := []*proto{pBin, pComp, pJSON, pSimp}
	// what an object tells of itself
	c.Par("methods", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		l.both(t, "", func(s *side) {
			o := s.filled(t, j.st, j.mem)
			s.add("%s", show(o.Interface()))
			for m := 0; m < o.NumMethod(); m++ {
				f, name := o.Method(m), o.Type().Method(m).Name
				ft := f.Type()
				switch {
				case ft.NumIn() == 0:
					s.try(func() { s.add("%s %s", name, showAll(f.Call(nil))) })
				case ft.NumIn() == 1 && ft.In(0).Kind() == reflect.Int:
					for k := -2; k < 13; k++ {
						s.try(func() { s.add("%s(%d) %s", name, k, showAll(f.Call([]reflect.Value{reflect.ValueOf(k)}))) })
					}
				case ft.NumIn() == 1 && ft.In(0).Kind() == reflect.String:
					for _, g := range append([]*idl.Field{{Name: "_"}, {Name: "x"}}, j.st.Fields...) {
						for _, n := range []string{g.Name, goName(g.Name)} {
							s.try(func() { s.add("%s(%s) %s", name, n, showAll(f.Call([]reflect.Value{reflect.ValueOf(n)}))) })
						}
					}
				}
			}
		})
	})
	// comparison with others
	c.Par("compare", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		for k := 0; k < len(jobs); k += 1 + len(jobs)/c.Pick(60, 120) {
			q := jobs[k]
			l.both(t, fmt.Sprintf("with %v", q.mem), func(s *side) {
				a, b := s.filled(t, j.st, j.mem), s.filled(t, q.st, q.mem)
				for _, m := range []string{"CompareTo", "Equals"} {
					if f := a.MethodByName(m); f.IsValid() && f.Type().NumIn() == 1 {
						s.try(func() { s.add("%s %s", m, showAll(f.Call([]reflect.Value{b}))) })
					}
				}
			})
		}
	})
	// writing, with a failure of every call of the protocol
	c.Par("write", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		for _, pr := range protos {
			calls := 0
			for at := -1; at < calls; at++ {
				n := 0
				l.both(t, fmt.Sprintf("%s, failing at %d", pr.name, at), func(s *side) {
					n = 0
					o := s.filled(t, j.st, j.mem)
					m := newMem(nil)
					s.try(func() { s.add("%s", show(o.Interface().(rw).Write(s.proto(pr, m, at, &n)))) })
					s.add("%q", m.b)
				})
				if at < 0 {
					calls = n
				}
				if j.few || pr != pBin {
					break
				}
			}
		}
		// every field by itself
		if !j.few {
			l.both(t, "fields", func(s *side) {
				o := s.filled(t, j.st, j.mem)
				for k := 0; k < o.NumMethod(); k++ {
					if name := o.Type().Method(k).Name; strings.HasPrefix(name, "WriteField") && o.Method(k).Type().NumIn() == 1 {
						for at := -1; at < 4; at++ {
							n := 0
							m := newMem(nil)
							s.try(func() {
								s.add("%s %s", name, showAll(o.Method(k).Call([]reflect.Value{reflect.ValueOf(s.proto(pBin, m, at, &n))})))
							})
							s.add("%q", m.b)
						}
					}
				}
			})
		}
	})
	// reading
	read := func(t *T, st *idl.Struct, pr *proto, b []byte, at int, sub string) (calls int) {
		l.both(t, fmt.Sprintf("%s, %s, failing at %d", pr.name, sub, at), func(s *side) {
			calls = 0
			o := s.make(st)
			s.try(func() { s.add("%s", show(o.Interface().(rw).Read(s.proto(pr, newMem(b), at, &calls)))) })
			s.add("%s", show(o.Interface()))
		})
		return
	}
	enc := func(pr *proto, v Val) []byte {
		m := newMem(nil)
		q := pr.mk(m)
		writeVal(q, v)
		q.Flush()
		return m.b
	}
	c.Par("read", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		for _, pr := range protos {
			b := enc(pr, j.mem)
			calls := read(t, j.st, pr, b, -1, "")
			if j.few || pr != pBin {
				continue
			}
			for at := 0; at < calls; at++ {
				read(t, j.st, pr, b, at, "")
			}
			for n := range b {
				read(t, j.st, pr, b[:n], -1, fmt.Sprintf("first %d bytes", n))
			}
		}
	})
	// fields of other types and ids, in pairs
	var odd []Val
	for _, v := range []Val{vBool(true), vByte(2), {T: tI16, I: 3}, vI32(2), vI32(-9), {T: tI64, I: 4}, {T: tDOUBLE, F: 2.5}, vStr("2"), vStr("One"), vStruct(), vStruct(fld(1, vI32(3))),
		{T: tLIST, VT: tI32, E: []Val{vI32(1)}}, {T: tSET, VT: tI32}, {T: tMAP, KT: tI32, VT: tI32, E: []Val{vI32(1), vI32(2)}}} {
		odd = append(odd, v)
	}
	type oddJob struct {
		st     *idl.Struct
		id1    int16
		v1     Val
		id2    int16
		nameOf string
	}
	var ojobs []oddJob
	for _, st := range sts {
		for a := int16(-1); a <= 11; a++ {
			for _, v := range odd {
				for b := int16(-1); b <= 11; b++ {
					if !c.Thorough() && a%3 != 1 && b%4 != 2 {
						continue
					}
					ojobs = append(ojobs, oddJob{st: st, id1: a, v1: v, id2: b})
				}
			}
		}
	}
	c.Par("read-odd", len(ojobs), func(i int) string {
		j := ojobs[i]
		return fmt.Sprintf("%s %d:%v %d", j.st.Name, j.id1, j.v1, j.id2)
	}, func(t *T, i int) {
		j := ojobs[i]
		name := func(id int16) string {
			for _, f := range j.st.Fields {
				if int16(f.ID) == id {
					return f.Name
				}
			}
			return "other"
		}
		v := vStruct(Field{j.id1, name(j.id1), j.v1}, Field{j.id2, name(j.id2), vI32(1)}, Field{3, name(3), vI32(2)})
		for _, pr := range protos {
			read(t, j.st, pr, enc(pr, v), -1, "")
		}
	})
}

// errorsOfHandlers are what handlers answer.
var errHandler = errors.New("the handler failed")

func (l *lockstep) service(c *Ctx, p *idl.Program) {
	type job struct {
		s    *idl.Service
		fn   *idl.Func
		pr   *proto
		mem  Val
		what int
	}
	var jobs []job
	whats := []string{"echo", "nil", "error", "value and error", "application exception", "panic"}
	for _, s := range p.Services {
		for _, fn := range s.Funcs {
			args := &idl.Struct{Name: fn.Name + "_args", Fields: fn.Args}
			for i, m := range memories(args, c.Pick(60, 600)) {
				for _, pr := range []*proto{pBin, pComp, pJSON, pSimp} {
					for k := range whats {
						if (i+k)%2 == 0 || i < 6 {
							jobs = append(jobs, job{s, fn, pr, m, k})
						}
					}
				}
			}
		}
	}
	id := func(i int) string {
		j := jobs[i]
		return fmt.Sprintf("%s.%s %s %s %v", j.s.Name, j.fn.Name, j.pr.name, whats[j.what], j.mem)
	}
	handler := func(s *side, what int) genreg.Handler {
		return func(fn string, as []interface{}) []interface{} {
			text := ""
			for _, a := range as {
				text += show(a) + "; "
			}
			s.add("handler %s(%s)", fn, text)
			switch what {
			case 0:
				return []interface{}{as[0], nil}
			case 2:
				return []interface{}{nil, errHandler}
			case 3:
				return []interface{}{as[0], errHandler}
			case 4:
				return []interface{}{nil, thrift.NewTApplicationException(thrift.MISSING_RESULT, "none")}
			case 5:
				panic("handler panics")
			}
			return []interface{}{nil, nil}
		}
	}
	find := func(s *side, j job) *genreg.Service {
		sv := s.w.pkg.Services[goName(j.s.Name)]
		if sv == nil {
			panic(failure{"missing", "there is no service " + j.s.Name})
		}
		return sv
	}
	request := func(pr *proto, name string, typ, seq int32, body Val) []byte {
		m := newMem(nil)
		writeMsg(pr.mk(m), Msg{Name: name, Type: typ, Seq: seq, Body: body})
		return m.b
	}
	process := func(t *T, j job, b []byte, at int, sub string) (calls int) {
		l.both(t, fmt.Sprintf("%s, failing at %d", sub, at), func(s *side) {
			calls = 0
			out := newMem(nil)
			proc := find(s, j).Processor(handler(s, j.what))
			ip, op := s.proto(j.pr, newMem(b), at, &calls), s.proto(j.pr, out, at, &calls)
			for k := 0; k < 2; k++ {
				s.try(func() {
					ok, err := proc.Process(ip, op)
					s.add("%v %s", ok, show(err))
				})
			}
			s.add("%q", out.b)
		})
		return
	}
	c.Par("process", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		b := request(j.pr, j.fn.Name, 1, int32(i%5-2), j.mem)
		b = append(b, request(j.pr, j.fn.Name, 1, 77, j.mem)...)
		calls := process(t, j, b, -1, "")
		for at := 0; at < calls; at++ {
			process(t, j, b, at, "")
		}
		if i%7 != 0 && !c.Thorough() {
			return
		}
		for n := range b {
			process(t, j, b[:n], -1, fmt.Sprintf("first %d bytes", n))
		}
		for _, name := range []string{"", "x", goName(j.fn.Name), j.fn.Name + "_args"} {
			process(t, j, request(j.pr, name, 1, 3, j.mem), -1, "function "+name)
		}
		for ty := int32(0); ty <= 5; ty++ {
			process(t, j, request(j.pr, j.fn.Name, ty, 3, j.mem), -1, fmt.Sprintf("message type %d", ty))
		}
	})
	// clients against crafted replies
	c.Par("client", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		ret := Val{T: tSTRUCT}
		if len(j.mem.Fields) > 0 && j.what != 1 {
			ret = vStruct(Field{0, "success", j.mem.Fields[0].V})
		}
		var replies [][]byte
		switch j.what {
		case 2:
			for code := int32(-1); code < 9; code++ {
				replies = append(replies, request(j.pr, j.fn.Name, 3, 1, vStruct(Field{1, "message", vStr("no")}, Field{2, "type", vI32(code)})))
			}
		case 3:
			for seq := int32(-1); seq < 4; seq++ {
				replies = append(replies, request(j.pr, j.fn.Name, 2, seq, ret))
			}
		case 4:
			for ty := int32(0); ty < 6; ty++ {
				replies = append(replies, request(j.pr, j.fn.Name, ty, 1, ret))
			}
		case 5:
			replies = append(replies, request(j.pr, "other", 2, 1, ret), nil)
		default:
			replies = append(replies, append(request(j.pr, j.fn.Name, 2, 1, ret), request(j.pr, j.fn.Name, 2, 2, ret)...))
		}
		for k, b := range replies {
			run := func(at int, b []byte, byProtocols bool) (calls int) {
				l.both(t, fmt.Sprintf("reply %d %q, failing at %d, made with protocols: %v", k, b, at, byProtocols), func(s *side) {
					calls = 0
					x := &callT{req: newMem(nil), resp: newMem(b), serve: func() {}}
					ff := logFactory{s, j.pr, at, &calls}
					var client reflect.Value
					if byProtocols {
						client = reflect.ValueOf(find(s, j).ClientProtocol(x, ff.GetProtocol(x), ff.GetProtocol(x)))
					} else {
						client = reflect.ValueOf(find(s, j).ClientFactory(x, ff))
					}
					m := client.MethodByName(goName(j.fn.Name))
					for n := 0; n < 2; n++ {
						var in []reflect.Value
						for q, a := range j.fn.Args {
							if v, has := fieldOf(j.mem, a.ID); has {
								in = append(in, s.w.value(t, a.T, m.Type().In(q), v, false))
							} else {
								in = append(in, reflect.Zero(m.Type().In(q)))
							}
						}
						s.try(func() { s.add("%s", showAll(m.Call(in))) })
						s.add("%s", show(client.Interface()))
					}
					s.add("%q", x.req.b)
				})
				return
			}
			calls := run(-1, b, false)
			run(-1, b, true)
			if i%3 == 0 || c.Thorough() {
				for at := 0; at < calls; at++ {
					run(at, b, false)
				}
			}
			if i%5 == 0 || c.Thorough() {
				for n := range b {
					run(-1, b[:n], false)
				}
			}
		}
	})
}

type logFactory struct {
	s  *side
	pr *proto
	at int
	n  *int
}

func (f logFactory) GetProtocol(t thrift.TTransport) thrift.TProtocol {
	f.s.add("protocol made")
	return f.s.proto(f.pr, t, f.at, f.n)
}
