package main

import (
	"fmt"
	"idl"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// A definition is a piece of an interface file; @ stands for a prefix that
// makes its names its own.
type definition struct {
	sect string
	text string
}

func (d definition) String() string { return d.text }

// What definitions can refer to.
var support = []struct{ name, text string }{
	{"E", "enum E { Zero, Five = 5, Six, Neg = -3 }"},
	{"S", "struct S { 1: i32 num, 2: optional string txt, 3: optional E en }"},
	{"S0", "struct S0 { }"},
	{"X", "exception X { 1: string why, 2: i32 code }"},
	{"TI", "typedef i32 TI"},
	{"TTI", "typedef TI TTI"},
	{"TY", "typedef byte TY"},
	{"TO", "typedef bool TO"},
	{"TD", "typedef double TD"},
	{"TS", "typedef string TS"},
	{"TB", "typedef binary TB"},
	{"TE", "typedef E TE"},
	{"TR", "typedef S TR"},
	{"TL", "typedef list<i32> TL"},
	{"TSE", "typedef set<string> TSE"},
	{"TM", "typedef map<string,i32> TM"},
}

var wordRE = regexp.MustCompile(`[A-Za-z0-9_]+`)

// supportFor gives the text of the support that a text refers to.
func supportFor(text string) string {
	need := map[string]bool{}
	var visit func(s string)
	visit = func(s string) {
		for _, w := range wordRE.FindAllString(s, -1) {
			if need[w] {
				continue
			}
			for _, x := range support {
				if x.name == w {
					need[w] = true
					visit(x.text)
				}
			}
		}
	}
	visit(text)
	return supportText(need)
}

func supportText(need map[string]bool) string {
	var b strings.Builder
	// enums and typedefs of base types first, so that all is defined before use
	for _, x := range support {
		if need == nil || need[x.name] {
			b.WriteString(x.text + "\n")
		}
	}
	return b.String()
}

func noInclude(path string) (*idl.Program, error) { return nil, fmt.Errorf("no file %s", path) }

var baseTypes = []string{"bool", "byte", "i16", "i32", "i64", "double", "string", "binary"}
var namedTypes = []string{"E", "S", "S0", "X", "TI", "TTI", "TY", "TO", "TD", "TS", "TB", "TE", "TR", "TL", "TSE", "TM"}

// defaults gives values of a type in the language of interface files.
func defaults(t string) []string {
	switch t {
	case "bool", "TO":
		return []string{"true", "false"}
	case "byte", "TY":
		return []string{"0", "7", "127", "-1", "-128"}
	case "i16":
		return []string{"0", "-1", "32767", "-32768"}
	case "i32", "TI", "TTI":
		return []string{"0", "-5", "2147483647", "-2147483648"}
	case "i64":
		return []string{"0", "-5", "9223372036854775807", "-9223372036854775808", "4294967296"}
	case "double", "TD":
		return []string{"0.0", "1.5", "-2.25e-10", "3", "-7", "3.141592653589793", "1e300", "123456789.125", "0.1"}
	case "string", "TS":
		return []string{`""`, `"a"`, `"with 'quotes'"`, `'say "hi"'`, `"back\slash %d"`, "\"line\nbreak\ttab\"", `"ünïcode"`}
	case "binary", "TB":
		return []string{`""`, `"ab"`, `'q"q'`}
	case "E", "TE":
		return []string{"E.Zero", "E.Five", "E.Neg", "6"}
	case "S", "TR":
		return []string{"{}", `{"num": 4}`, `{"num": -1, "txt": "t"}`, `{"en": E.Six}`}
	case "S0":
		return []string{"{}"}
	case "X":
		return []string{`{"why": "w", "code": 3}`}
	case "TL":
		return []string{"[]", "[1]", "[3,-4]"}
	case "TSE":
		return []string{"[]", `["a"]`}
	case "TM":
		return []string{"{}", `{"a": 1}`, `{"a": 1, "b": 2}`}
	}
	i := strings.IndexByte(t, '<')
	if i < 0 {
		return nil
	}
	in := t[i+1 : len(t)-1]
	switch t[:i] {
	case "list", "set":
		out := []string{"[]"}
		d := defaults(in)
		if len(d) > 0 {
			out = append(out, "["+d[len(d)-1]+"]")
		}
		if len(d) > 1 {
			out = append(out, "["+d[1]+","+d[0]+"]")
		}
		return out
	case "map":
		k, v := splitMap(in)
		out := []string{"{}"}
		dk, dv := defaults(k), defaults(v)
		if len(dk) > 0 && len(dv) > 0 {
			out = append(out, "{"+dk[len(dk)-1]+":"+dv[len(dv)-1]+"}")
		}
		if len(dk) > 1 && len(dv) > 1 {
			out = append(out, "{"+dk[0]+":"+dv[0]+","+dk[1]+":"+dv[1]+"}")
		}
		return out
	}
	return nil
}

func splitMap(in string) (k, v string) {
	depth := 0
	for i, c := range in {
		switch c {
		case '<':
			depth++
		case '>':
			depth--
		case ',':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	return in, ""
}

// containers gives the container types over the types given.
func containers(keys, elems []string) []string {
	var out []string
	for _, e := range elems {
		out = append(out, "list<"+e+">")
	}
	for _, e := range elems {
		out = append(out, "set<"+e+">")
	}
	for _, k := range keys {
		for _, e := range elems {
			out = append(out, "map<"+k+","+e+">")
		}
	}
	return out
}

func typeExprs(thorough bool) (one, two []string) {
	one = append(append([]string{}, baseTypes...), namedTypes...)
	keys := []string{"bool", "byte", "i16", "i32", "i64", "double", "string", "binary", "E", "TI", "TS", "TB", "TE", "TO"}
	if !thorough {
		keys = []string{"bool", "i16", "i64", "string", "binary", "E", "TS", "TE"}
	}
	d1 := containers(keys, one)
	inner := []string{"list<i32>", "list<binary>", "set<string>", "set<E>", "map<string,i64>", "map<E,S>", "TL", "TM"}
	if thorough {
		inner = append(inner, "list<S>", "list<bool>", "set<binary>", "set<TI>", "map<binary,list<string>>", "map<TE,TB>", "list<list<byte>>")
	}
	two = append(two, d1...)
	two = append(two, containers([]string{"string", "E", "i32"}, inner)...)
	two = append(two, "list<list<list<i32>>>", "map<string,map<string,list<S>>>", "list<map<i32,set<E>>>", "map<binary,map<string,list<S>>>")
	return
}

var reqs = []string{"required ", "optional ", ""}

var fieldNames = []string{"a", "A", "abc", "aBc", "AbC", "a_b", "a_b_c", "A_B", "a1", "a_1", "_a", "a_", "__a", "a__b", "camelCase", "under_score_name", "UPPER_CASE", "x9_y8",
	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var", "error",
	"Type", "Map", "Default", "nil", "true", "iota", "int", "int32", "append", "fmt", "math", "thrift", "output", "iprot", "oprot", "err", "p", "data", "ok", "other", "fieldName", "v0", "string_", "init", "main", "value", "success", "id", "name", "key", "make", "new", "panic"}

func universe(repo string, thorough bool) []definition {
	var out []definition
	add := func(sect, f string, a ...interface{}) {
		out = append(out, definition{sect, fmt.Sprintf(f, a...)})
	}
	one, two := typeExprs(thorough)
	// one field of every type
	for _, t := range append(append([]string{}, one...), two...) {
		for _, r := range reqs {
			if !thorough && r == "required " && len(t) > 3 && strings.Contains(t, "<") {
				continue
			}
			add("type", "struct @S { 1: %s%s f }", r, t)
		}
	}
	// defaults
	for _, t := range one {
		for _, d := range defaults(t) {
			for _, r := range reqs {
				add("default", "struct @S { 1: %s%s f = %s }", r, t, d)
			}
		}
	}
	for i, t := range two {
		for j, d := range defaults(t) {
			if !thorough && (i+j)%5 != 0 && strings.HasPrefix(t, "map") {
				continue
			}
			add("default", "struct @S { 1: %s%s f = %s }", reqs[(i+j)%3], t, d)
			if thorough {
				add("default", "struct @S { 1: %s%s f = %s }", reqs[(i+j+1)%3], t, d)
				add("default", "struct @S { 1: %s%s f = %s }", reqs[(i+j+2)%3], t, d)
			}
		}
	}
	// several fields: every pair of kinds, ids in and out of order, near and far
	kinds := []string{"bool", "i32", "string", "binary", "E", "S", "list<i32>", "map<string,E>"}
	ids := [][2]int{{1, 2}, {2, 1}, {1, 16}, {1, 17}, {17, 1}, {5, 300}, {1, 32767}, {0, 1}}
	n := 0
	for _, a := range kinds {
		for _, b := range kinds {
			for k, id := range ids {
				n++
				if !thorough && k != n%len(ids) && k != 0 {
					continue
				}
				add("fields", "struct @S { %d: %s%s first, %d: %s%s second }", id[0], reqs[n%3], a, id[1], reqs[n/3%3], b)
			}
		}
	}
	// ids that are not stated, and negative ones
	for _, t := range []string{"i32", "string", "E", "S", "list<string>"} {
		for _, r := range reqs {
			add("implicit", "struct @S { %s%s f }", r, t)
			add("implicit", "struct @S { %s%s f, %s%s g }", r, t, r, "i64")
		}
		add("implicit", "struct @S { 1: %s f, -1: %s g, -7: bool h }", t, t)
		add("implicit", "exception @X { %s f, bool g }", t)
	}
	add("implicit", "service @V { i32 f(i32 a, string b) throws (X x) }")
	add("implicit", "service @V { void f(list<i32> a, E b), S g(TI a) }")
	// names
	for _, f := range fieldNames {
		add("names", "struct @S { 1: i32 %s }", f)
		add("names", "struct @S { 1: optional string %s = \"d\", 2: E other_field }", f)
		add("names", "struct @S { 1: list<S> %s, 2: optional S0 z }", f)
	}
	for _, s := range []string{"@lower", "@Upper", "@snake_case", "@Snake_Case", "@UPPER", "@camelCase", "@x1", "@end_"} {
		add("names", "struct %s { 1: i32 a }\nstruct @User { 1: %s f, 2: list<%s> g, 3: optional map<string,%s> h = {} }", s, s, s, s)
		add("names", "enum %s { one, Two, THREE_FOUR, five_six }\nstruct @User { 1: %s f, 2: optional %s g = %s.Two, 3: set<%s> h }", s, s, s, s, s)
		add("names", "typedef i64 %s\nstruct @User { 1: %s f, 2: optional %s g = 3, 3: list<%s> h }", s, s, s, s)
		add("names", "exception %s { 1: string a }\nservice @Srv { void f(1: i32 a) throws (1: %s x) }", s, s)
		add("names", "service %s { i32 f(1: i32 a), void g() }", s)
		add("names", "service @Srv { i32 %s(1: i32 a), }", s)
		add("names", "const i32 %s = 5", s)
	}
	for _, a := range fieldNames {
		switch a {
		case "err", "p", "oprot", "thrift", "nil", "int32", "string_":
			continue // parameters that hide what the body of the generated function uses
		}
		add("names", "service @V { i32 f(1: i32 %s), S g(1: S %s, 2: E z) }", a, a)
	}
	for _, a := range []string{"ire", "not_found", "NotFound", "type", "x1", "func"} {
		add("names", "service @V { i32 f(1: i32 a) throws (1: X %s), void g() throws (1: X %s) }", a, a)
	}
	// field sets of structs and exceptions
	add("shape", "struct @S { }")
	add("shape", "exception @S { }")
	add("shape", "exception @S { 1: required string why, 2: optional i32 code = 7, 3: S detail, 4: list<X> causes }")
	add("shape", "union @S { 1: i32 a, 2: string b }")
	add("shape", "struct @A { 1: i32 a }\nstruct @B { 1: @A a, 2: optional list<@A> l }\nstruct @C { 1: required @B b, 2: map<string,@B> m, 3: set<i64> s }")
	for k := 1; k <= 6; k++ {
		var fs []string
		for i := 0; i < k*4; i++ {
			fs = append(fs, fmt.Sprintf("%d: %s%s f%d", i*k+1, reqs[(i+k)%3], kinds[(i*k+i)%len(kinds)], i))
		}
		add("shape", "struct @S { %s }", strings.Join(fs, ", "))
	}
	// enums: every choice of up to four values, stated or not
	opts := []string{"", " = 0", " = 1", " = 7", " = -2", " = 2147483647"}
	var rec func(cur []string, last int64, used map[int64]bool)
	vals := map[string]int64{" = 0": 0, " = 1": 1, " = 7": 7, " = -2": -2, " = 2147483647": 2147483647}
	max := 3
	if thorough {
		max = 4
	}
	rec = func(cur []string, last int64, used map[int64]bool) {
		if len(cur) > 0 {
			var vs []string
			for i, o := range cur {
				vs = append(vs, fmt.Sprintf("V%d%s", i, o))
			}
			add("enum", "enum @E { %s }", strings.Join(vs, ", "))
		}
		if len(cur) == max {
			return
		}
		for _, o := range opts {
			v := last + 1
			if o != "" {
				v = vals[o]
			}
			if v > 2147483647 {
				continue
			}
			if used[v] && len(cur) > 1 {
				continue // repeated values: pairs are enough
			}
			u := map[int64]bool{v: true}
			for k := range used {
				u[k] = true
			}
			rec(append(append([]string{}, cur...), o), v, u)
		}
	}
	rec(nil, -1, map[int64]bool{})
	add("enum", "enum @E { }")
	add("enum", "enum @E { type, func, Map, a_b, A__B, x1 }")
	// constants
	for _, t := range append(append([]string{}, one...), two...) {
		ds := defaults(t)
		for j, d := range ds {
			if !thorough && strings.Contains(t, "<") && j != len(t)%len(ds) {
				continue
			}
			add("const", "const %s @C = %s", t, d)
		}
	}
	add("const", `struct @S { 1: list<S> a, 2: map<string,S> b, 3: E c, 4: TI d, 5: optional TS e = "q", 6: binary g, 7: double h, 8: bool i, 9: S j, 10: TL k, 11: TR l }
const @S @C = { "a": [{"num": 1}, {"num": 2, "txt": "x"}], "b": {"k": {"num": 3}}, "c": E.Five, "d": 4, "e": "r", "g": "bb", "h": 2.5, "i": true, "j": {"num": 9}, "k": [1,2], "l": {"num": 1} }`)
	add("const", `const list<map<string,S>> @C = [{"a": {"num": 1}}, {}, {"b": {"txt": "t"}, "c": {}}]`)
	add("const", `const map<E,list<set<i32>>> @C = {E.Five: [[1],[2]], E.Neg: []}`)
	// services
	for _, t := range append(append([]string{"void"}, one...), two...) {
		if !thorough && strings.HasPrefix(t, "map<") && !strings.HasPrefix(t, "map<string,") && !strings.HasPrefix(t, "map<binary,") && !strings.HasPrefix(t, "map<E,") {
			continue
		}
		add("return", "service @V { %s f() }", t)
		add("return", "service @V { %s f(1: i32 a) throws (1: X x) }", t)
		if t != "void" {
			add("argument", "service @V { void f(1: %s a) }", t)
		}
	}
	for _, a := range kinds {
		for _, b := range kinds {
			add("argument", "service @V { i32 f(1: %s a, 2: %s b) }", a, b)
		}
		add("argument", "service @V { i32 f(1: %s a, 2: %s b, 3: %s c, 4: i64 d) throws (1: X x, 2: @Y y) }", a, a, a)
		out[len(out)-1].text = "exception @Y { 1: i32 n }\n" + out[len(out)-1].text
		add("argument", "service @V { i32 f(3: %s a, 1: i32 b), void g(7: %s z) }", a, a)
		add("argument", "service @V { oneway void f(1: %s a), i32 g(1: i32 b) }", a)
		for _, d := range defaults(a) {
			add("argument", "service @V { i32 f(1: %s a = %s) }", a, d)
		}
	}
	add("service", "service @V { }")
	add("service", "service @V { void f() }")
	add("service", "service @V { oneway void f() }")
	add("service", "service @V { void f(), void g(), i32 h(1: i32 a), oneway void o(1: string s), S s(1: S s) throws (1: X x) }")
	add("service", "service @V { void f() }\nservice @W { void g(), i32 h(1: i32 a) }")
	add("clash", "service @V { void f() }\nservice @W { void f() }")
	add("clash", "service @V { void f() }\nservice @W extends @V { void f() }")
	add("clash", "service @V { void f(1: i32 a), void g() }\nservice @W { i32 f(), void h() }")
	add("service", "service @V { void f(), i32 h(1: i32 a) }\nservice @W extends @V { void g(), S s(1: i32 a) }")
	add("service", "service @V { void f() }\nservice @W extends @V { }\nservice @U extends @W { i32 k() }")
	add("service", "service @V { i32 get_value(1: i32 some_arg), void SetIt(1: i32 Arg), bool isIt() }")
	// comments
	add("doc", "/** A struct.\n * Two lines, \"quoted\" // and */\nstruct @S {\n /** a field */ 1: i32 a, /** another\n * one */ 2: string b }")
	add("doc", "/** An enum */ enum @E { /** a value */ A, B }\n/** A type */ typedef i32 @T\n/** A service */ service @V { /** a function */ i32 f(/** an argument */ 1: i32 a) throws (/** a throw */ 1: X x), /** no args */ void g() }")
	add("doc", "/** An exception */ exception @X2 { 1: string a }\n/** A union */ union @U { 1: i32 a }")
	// other files
	for _, x := range []string{"struct @S { 1: i32 a }", "struct @S { 1: base.S b }", "struct @S { 1: optional base.E b }", "struct @S { 1: base.TI b }",
		"struct @S { 1: list<base.S> b, 2: map<base.E,base.TI> c }", "typedef base.S @T\nstruct @S { 1: @T b }", "struct @S { 1: base.E b = base.E.Five }",
		"exception @X { 1: base.X x }", "const base.TI @C = 3", "const base.E @C = base.E.Five", "service @V { base.S f(1: base.E a) throws (1: base.X x) }",
		"service @V extends base.Base { void g() }"} {
		add("include", "include \"base.thrift\"\n%s", x)
	}
	// whole files
	for _, f := range []string{"tests/generation/simple.thrift", "tests/cassandra-1.0.11/cassandra.thrift", "tests/cassandra-1.1.4/cassandra.thrift"} {
		if b, err := os.ReadFile(filepath.Join(repo, f)); err == nil {
			out = append(out, definition{"file:" + strings.Split(f, "/")[1], string(b)})
		}
	}
	seen := map[string]bool{}
	var uniq []definition
	for _, d := range out {
		if !seen[d.text] {
			seen[d.text] = true
			uniq = append(uniq, d)
		}
	}
	return uniq
}

// programOf makes a program of its own from a definition.
func programOf(d definition, name, prefix string, base *idl.Program) (*idl.Program, error) {
	text := strings.ReplaceAll(d.text, "@", prefix)
	if !strings.HasPrefix(d.sect, "file:") && d.sect != "include" {
		text = supportFor(text) + text
	}
	return idl.Parse(name, text, func(path string) (*idl.Program, error) {
		if path == "base.thrift" && base != nil {
			return base, nil
		}
		return noInclude(path)
	})
}

// baseProgram is what the definitions of section include include.
func baseProgram() (*idl.Program, error) {
	return idl.Parse("base", supportText(nil)+"service Base { void f() }\n", noInclude)
}
