package idl

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

type token struct {
	s    string
	str  bool // a string literal
	doc  string
	line int
}

type parser struct {
	toks []token
	pos  int
	p    *Program
	inc  func(path string) (*Program, error)
	incs map[string]*Program
}

func lex(src string) ([]token, error) {
	var out []token
	doc := ""
	line := 1
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("line %d: comment without end", line)
			}
			body := src[i+2 : i+2+j]
			if strings.HasPrefix(body, "*") && strings.Trim(body, "* \t\r\n") != "" {
				doc = cleanDoc(body[1:])
			}
			line += strings.Count(body, "\n")
			i += j + 4
		case c == '"' || c == '\'':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != c {
				b.WriteByte(src[j])
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("line %d: string without end", line)
			}
			out = append(out, token{b.String(), true, doc, line})
			doc = ""
			i = j + 1
		case strings.IndexByte("{}()<>[],;:=*&", c) >= 0:
			out = append(out, token{string(c), false, doc, line})
			doc = ""
			i++
		default:
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || strings.IndexByte("_.+-", src[j]) >= 0) {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("line %d: unexpected %q", line, c)
			}
			out = append(out, token{src[i:j], false, doc, line})
			doc = ""
			i = j
		}
	}
	return append(out, token{"", false, "", line}), nil
}

func cleanDoc(s string) string {
	var out []string
	for i, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if i > 0 && strings.HasPrefix(t, "*") {
			t = strings.TrimPrefix(t[1:], " ")
		}
		out = append(out, t)
	}
	for len(out) > 0 && out[0] == "" {
		out = out[1:]
	}
	for len(out) > 0 && out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return strings.Join(out, "\n") + "\n"
}

func (x *parser) peek() string { return x.toks[x.pos].s }
func (x *parser) next() token {
	t := x.toks[x.pos]
	if x.pos < len(x.toks)-1 {
		x.pos++
	}
	return t
}
func (x *parser) fail(f string, a ...interface{}) {
	panic(fmt.Errorf("line %d: %s", x.toks[x.pos].line, fmt.Sprintf(f, a...)))
}
func (x *parser) is(s string) bool { return !x.toks[x.pos].str && x.toks[x.pos].s == s }
func (x *parser) eat(s string) bool {
	if x.is(s) {
		x.next()
		return true
	}
	return false
}
func (x *parser) want(s string) {
	if !x.eat(s) {
		x.fail("%q expected, not %q", s, x.peek())
	}
}
func (x *parser) sep() {
	if !x.eat(",") {
		x.eat(";")
	}
}
func (x *parser) annotations() {
	if x.eat("(") {
		for !x.eat(")") {
			x.next()
		}
	}
}
func (x *parser) ident() string {
	t := x.next()
	if t.str || t.s == "" || !(unicode.IsLetter(rune(t.s[0])) || t.s[0] == '_') {
		x.pos--
		x.fail("identifier expected, not %q", t.s)
	}
	return t.s
}

// Parse reads one file.
func Parse(name, src string, inc func(path string) (*Program, error)) (p *Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			p, err = nil, e
		}
	}()
	toks, err := lex(src)
	if err != nil {
		return nil, err
	}
	x := &parser{toks: toks, p: &Program{Name: name}, inc: inc, incs: map[string]*Program{}}
	for x.peek() != "" || x.toks[x.pos].str {
		x.definition()
	}
	return x.p, nil
}

func (x *parser) definition() {
	doc := x.toks[x.pos].doc
	t := x.next()
	switch t.s {
	case "namespace":
		lang := x.next().s
		ns := x.next().s
		if lang == "go" || lang == "*" && x.p.NS == "" {
			x.p.NS = ns
		}
	case "include", "cpp_include":
		path := x.next().s
		if t.s == "include" {
			q, err := x.inc(path)
			if err != nil {
				panic(err)
			}
			x.p.Includes = append(x.p.Includes, q)
			x.incs[q.Name] = q
		}
	case "const":
		ty := x.typ()
		n := x.ident()
		x.want("=")
		v := x.value(ty)
		x.sep()
		x.p.Consts = append(x.p.Consts, &Const{n, ty, v})
	case "typedef":
		ty := x.typ()
		n := x.ident()
		x.annotations()
		x.sep()
		x.p.Typedefs = append(x.p.Typedefs, &Typedef{n, doc, ty})
	case "enum":
		e := &Enum{Name: x.ident(), Doc: doc}
		x.want("{")
		for !x.eat("}") {
			v := EnumValue{Doc: x.toks[x.pos].doc}
			v.Name = x.ident()
			if x.eat("=") {
				v.Has = true
				v.Val = int(x.integer())
			}
			x.annotations()
			x.sep()
			e.Vals = append(e.Vals, v)
		}
		x.annotations()
		x.p.Enums = append(x.p.Enums, e)
	case "struct", "union", "exception":
		s := &Struct{Name: x.ident(), Doc: doc, Exc: t.s == "exception"}
		x.eat("xsd_all")
		x.want("{")
		s.Fields = x.fields("}", true)
		x.annotations()
		x.p.Structs = append(x.p.Structs, s)
	case "service":
		s := &Service{Name: x.ident(), Doc: doc}
		if x.eat("extends") {
			n := x.ident()
			s.ExtProg, s.Ext = x.p, n
			if i := strings.IndexByte(n, '.'); i > 0 {
				s.ExtProg, s.Ext = x.incs[n[:i]], n[i+1:]
			}
			if s.ExtProg == nil || s.ExtProg.FindService(s.Ext) == nil {
				x.fail("unknown service %s", n)
			}
		}
		x.want("{")
		for !x.eat("}") {
			f := &Func{Doc: x.toks[x.pos].doc}
			f.Oneway = x.eat("oneway") || x.eat("async")
			if x.eat("void") {
				f.Ret = &Type{Kind: "void"}
			} else {
				f.Ret = x.typ()
			}
			f.Name = x.ident()
			x.want("(")
			f.Args = x.fields(")", false)
			if x.eat("throws") {
				x.want("(")
				f.Throws = x.fields(")", false)
			}
			x.annotations()
			x.sep()
			s.Funcs = append(s.Funcs, f)
		}
		x.annotations()
		x.p.Services = append(x.p.Services, s)
	default:
		x.pos--
		x.fail("definition expected, not %q", t.s)
	}
}

func (x *parser) integer() int64 {
	t := x.next()
	n, err := strconv.ParseInt(strings.TrimPrefix(t.s, "+"), 0, 64)
	if err != nil || t.str {
		x.pos--
		x.fail("integer expected, not %q", t.s)
	}
	return n
}

func (x *parser) fields(end string, reqs bool) []*Field {
	var out []*Field
	auto := 0
	for !x.eat(end) {
		f := &Field{Req: Default, Doc: x.toks[x.pos].doc}
		if x.pos+1 < len(x.toks) && x.toks[x.pos+1].s == ":" && !x.toks[x.pos+1].str {
			f.ID = int(x.integer())
			x.want(":")
		} else {
			auto--
			f.ID = auto
		}
		if x.eat("required") {
			if reqs {
				f.Req = Required
			}
		} else if x.eat("optional") {
			if reqs {
				f.Req = Optional
			}
		}
		f.T = x.typ()
		f.Name = x.ident()
		if x.eat("=") {
			f.Def = x.value(f.T)
		}
		x.annotations()
		x.sep()
		out = append(out, f)
	}
	return out
}

func (x *parser) typ() *Type {
	n := x.ident()
	t := &Type{Kind: n}
	switch n {
	case "bool", "byte", "i16", "i32", "i64", "double", "string", "binary":
	case "i8":
		t.Kind = "byte"
	case "slist":
		t.Kind = "string"
	case "list", "set":
		x.want("<")
		t.E = x.typ()
		x.want(">")
	case "map":
		x.want("<")
		t.K = x.typ()
		x.want(",")
		t.E = x.typ()
		x.want(">")
	default:
		t.Kind, t.Prog, t.Name = "named", x.p, n
		if i := strings.IndexByte(n, '.'); i > 0 {
			t.Prog, t.Name = x.incs[n[:i]], n[i+1:]
		}
		p := t.Prog
		if p == nil || p.FindEnum(t.Name) == nil && p.FindStruct(t.Name) == nil && p.FindTypedef(t.Name) == nil {
			x.pos--
			x.fail("unknown type %s", n)
		}
	}
	x.annotations()
	return t
}

func (x *parser) value(t *Type) *Value {
	tt := &Type{Kind: "?"}
	if t != nil {
		tt = t.True()
	}
	switch {
	case x.toks[x.pos].str:
		return &Value{Kind: "s", S: x.next().s}
	case x.eat("["):
		v := &Value{Kind: "l"}
		for !x.eat("]") {
			v.L = append(v.L, x.value(tt.E))
			x.sep()
		}
		return v
	case x.eat("{"):
		v := &Value{Kind: "m"}
		for !x.eat("}") {
			var kt, vt *Type
			if tt.Kind == "map" {
				kt, vt = tt.K, tt.E
			}
			k := x.value(kt)
			x.want(":")
			if tt.Kind == "named" && k.Kind == "s" {
				if s := tt.Prog.FindStruct(tt.Name); s != nil {
					for _, f := range s.Fields {
						if f.Name == k.S {
							vt = f.T
						}
					}
				}
			}
			v.L = append(v.L, k, x.value(vt))
			x.sep()
		}
		return v
	}
	w := x.next()
	if n, err := strconv.ParseInt(strings.TrimPrefix(w.s, "+"), 0, 64); err == nil {
		return &Value{Kind: "i", I: n}
	}
	if d, err := strconv.ParseFloat(w.s, 64); err == nil {
		return &Value{Kind: "d", D: d}
	}
	if w.s == "true" || w.s == "false" {
		v := &Value{Kind: "i"}
		if w.s == "true" {
			v.I = 1
		}
		return v
	}
	// an enum value, alone or after its enum's name, or another constant
	name := w.s
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		name = name[i+1:]
	}
	if tt.Kind == "named" {
		if e := tt.Prog.FindEnum(tt.Name); e != nil {
			for _, v := range e.Vals {
				if v.Name == name {
					return &Value{Kind: "e", S: name, Enum: tt}
				}
			}
		}
	}
	for _, e := range x.p.Enums {
		for i, v := range e.Vals {
			if e.Name+"."+v.Name == w.s {
				return &Value{Kind: "i", I: int64(e.Numbers()[i])}
			}
		}
	}
	for _, c := range x.p.Consts {
		if c.Name == w.s {
			return c.V
		}
	}
	x.pos--
	x.fail("value expected, not %q", w.s)
	return nil
}
