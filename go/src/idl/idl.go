// Package idl holds interface definitions: their syntax tree, a reader for the
// language of Thrift 0.9.0, and the form in which they are given to the driver
// of the Go generator.
package idl

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

type Type struct {
	Kind string // void bool byte i16 i32 i64 double string binary list set map named
	K, E *Type
	Prog *Program // of a named type
	Name string
}

const (
	Required = 0
	Optional = 1
	Default  = 2
)

type Value struct {
	Kind string // i d s e l m
	I    int64
	D    float64
	S    string // string, or name of the enum value
	Enum *Type
	L    []*Value // list elements; map: key, value, key, value...
}
type Field struct {
	ID   int
	Name string
	Req  int
	T    *Type
	Def  *Value
	Doc  string
}
type Struct struct {
	Name   string
	Exc    bool
	Doc    string
	Fields []*Field
}
type EnumValue struct {
	Name string
	Has  bool
	Val  int
	Doc  string
}
type Enum struct {
	Name, Doc string
	Vals      []EnumValue
}
type Typedef struct {
	Name, Doc string
	T         *Type
}
type Const struct {
	Name string
	T    *Type
	V    *Value
}
type Func struct {
	Name, Doc string
	Oneway    bool
	Ret       *Type
	Args      []*Field
	Throws    []*Field
}
type Service struct {
	Name, Doc string
	ExtProg   *Program
	Ext       string
	Funcs     []*Func
}
type Program struct {
	Name, NS string
	Includes []*Program
	Enums    []*Enum
	Typedefs []*Typedef
	Structs  []*Struct
	Consts   []*Const
	Services []*Service
	index    int
}

// Numbers gives the value of each constant of an enum: the one stated, or one
// more than that of the constant before.
func (e *Enum) Numbers() []int {
	last := -1
	var r []int
	for _, v := range e.Vals {
		if v.Has {
			last = v.Val
		} else {
			last++
		}
		r = append(r, last)
	}
	return r
}

func (p *Program) FindEnum(n string) *Enum {
	for _, e := range p.Enums {
		if e.Name == n {
			return e
		}
	}
	return nil
}
func (p *Program) FindStruct(n string) *Struct {
	for _, e := range p.Structs {
		if e.Name == n {
			return e
		}
	}
	return nil
}
func (p *Program) FindTypedef(n string) *Typedef {
	for _, e := range p.Typedefs {
		if e.Name == n {
			return e
		}
	}
	return nil
}
func (p *Program) FindService(n string) *Service {
	for _, e := range p.Services {
		if e.Name == n {
			return e
		}
	}
	return nil
}

// True follows typedefs.
func (t *Type) True() *Type {
	for t.Kind == "named" {
		d := t.Prog.FindTypedef(t.Name)
		if d == nil {
			return t
		}
		t = d.T
	}
	return t
}

func (t *Type) String() string {
	switch t.Kind {
	case "list", "set":
		return t.Kind + "<" + t.E.String() + ">"
	case "map":
		return "map<" + t.K.String() + "," + t.E.String() + ">"
	case "named":
		return t.Name
	}
	return t.Kind
}

func (v *Value) String() string {
	if v == nil {
		return "-"
	}
	switch v.Kind {
	case "i":
		return strconv.FormatInt(v.I, 10)
	case "d":
		return strconv.FormatFloat(v.D, 'g', -1, 64)
	case "s":
		return strconv.Quote(v.S)
	case "e":
		return v.Enum.Name + "." + v.S
	}
	var s []string
	if v.Kind == "l" {
		for _, e := range v.L {
			s = append(s, e.String())
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	for i := 0; i < len(v.L); i += 2 {
		s = append(s, v.L[i].String()+":"+v.L[i+1].String())
	}
	return "{" + strings.Join(s, ",") + "}"
}

// writer of the driver's input

type emitter struct {
	b    strings.Builder
	base int
}

func (e *emitter) w(a ...interface{}) {
	for _, x := range a {
		fmt.Fprint(&e.b, x, " ")
	}
}
func (e *emitter) s(s string) { e.w("x" + hex.EncodeToString([]byte(s))) }
func (e *emitter) typ(t *Type) {
	e.w(t.Kind)
	switch t.Kind {
	case "list", "set":
		e.typ(t.E)
	case "map":
		e.typ(t.K)
		e.typ(t.E)
	case "named":
		e.w(t.Prog.index)
		e.s(t.Name)
	}
}
func (e *emitter) val(v *Value) {
	e.w(v.Kind)
	switch v.Kind {
	case "i":
		e.w(v.I)
	case "d":
		e.w(strconv.FormatFloat(v.D, 'g', -1, 64))
	case "s":
		e.s(v.S)
	case "e":
		e.typ(v.Enum)
		e.s(v.Enum.Name + "." + v.S)
	case "l":
		e.w(len(v.L))
		for _, x := range v.L {
			e.val(x)
		}
	case "m":
		e.w(len(v.L) / 2)
		for _, x := range v.L {
			e.val(x)
		}
	}
}
func (e *emitter) fields(fs []*Field) {
	e.w(len(fs))
	for _, f := range fs {
		e.w(f.ID)
		e.s(f.Name)
		e.w(f.Req)
		e.typ(f.T)
		if f.Def != nil {
			e.w(1)
			e.val(f.Def)
		} else {
			e.w(0)
		}
		e.s(f.Doc)
	}
	e.b.WriteByte('\n')
}

// Driver gives the driver's input for the programs, each of which comes after
// those it includes. The files of each go to out/gen-go.
func Driver(ps []*Program, out func(p *Program) string) string {
	e := &emitter{}
	for i, p := range ps {
		p.index = i
		e.w("program")
		e.s(p.Name)
		e.s(p.NS)
		e.s(out(p))
		e.w(len(p.Includes))
		for _, q := range p.Includes {
			e.w(q.index)
		}
		e.b.WriteByte('\n')
		for _, x := range p.Enums {
			e.w("enum")
			e.s(x.Name)
			e.s(x.Doc)
			e.w(len(x.Vals))
			for _, v := range x.Vals {
				e.s(v.Name)
				if v.Has {
					e.w(1, v.Val)
				} else {
					e.w(0, 0)
				}
				e.s(v.Doc)
			}
		}
		for _, x := range p.Structs {
			e.w("declare")
			e.s(x.Name)
			if x.Exc {
				e.w(1)
			} else {
				e.w(0)
			}
		}
		for _, x := range p.Typedefs {
			e.w("typedef")
			e.typ(x.T)
			e.s(x.Name)
			e.s(x.Doc)
		}
		for _, x := range p.Structs {
			e.w("struct")
			e.s(x.Name)
			if x.Exc {
				e.w(1)
			} else {
				e.w(0)
			}
			e.s(x.Doc)
			e.fields(x.Fields)
		}
		for _, x := range p.Consts {
			e.w("const")
			e.typ(x.T)
			e.s(x.Name)
			e.val(x.V)
		}
		for _, x := range p.Services {
			e.w("service")
			e.s(x.Name)
			e.s(x.Doc)
			if x.ExtProg != nil {
				e.w(x.ExtProg.index)
			} else {
				e.w(-1)
			}
			e.s(x.Ext)
			e.w(len(x.Funcs))
			for _, f := range x.Funcs {
				e.s(f.Name)
				if f.Oneway {
					e.w(1)
				} else {
					e.w(0)
				}
				e.s(f.Doc)
				e.typ(f.Ret)
				e.fields(f.Args)
				e.fields(f.Throws)
			}
		}
		e.w("end")
		e.b.WriteByte('\n')
	}
	return e.b.String()
}
