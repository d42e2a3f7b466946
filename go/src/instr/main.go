// Command instr copies a package, putting a scheduling point before every
// statement and replacing goroutines, locks and listening by those of package
// sched. It works on the syntax tree and knows nothing about the code.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type site struct{ file, fn string }

var sites []site

type inst struct {
	fset  *token.FileSet
	file  string
	fn    string
	used  bool
	names map[string]string // local package name -> import path
	tmp   int
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func (in *inst) sched(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent(name)}
}

func (in *inst) point() ast.Stmt {
	n := len(sites)
	sites = append(sites, site{in.file, in.fn})
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: in.sched("Point"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}}}
}

// replaced maps package path and name to the name in package sched.
var replaced = map[string]string{
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.Once": "Once", "sync.WaitGroup": "WaitGroup",
	"net.Listen": "Listen", "net.Dial": "NetDial", "net.DialTimeout": "NetDialTimeout", "net.Dialer": "Dialer",
	"time.Sleep": "Sleep", "runtime.Gosched": "Yield",
}

func (in *inst) exprs(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				if to := replaced[in.names[id.Name]+"."+s.Sel.Name]; to != "" {
					in.used = true
					id.Name = "verifsched"
					s.Sel.Name = to
				}
			}
		}
		return true
	})
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		out = append(out, in.point())
		out = append(out, in.stmt(s)...)
	}
	return out
}

func (in *inst) block(b *ast.BlockStmt, loop bool) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
	if loop {
		b.List = append(b.List, in.point())
	}
}

func (in *inst) lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			in.block(f.Body, false)
			return false
		}
		return true
	})
}

func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x, false)
	case *ast.IfStmt:
		if x.Init != nil {
			in.lits(x.Init)
		}
		in.lits(x.Cond)
		in.block(x.Body, false)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			in.block(e, false)
		case *ast.IfStmt:
			in.stmt(e)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			in.lits(x.Init)
		}
		if x.Cond != nil {
			in.lits(x.Cond)
		}
		if x.Post != nil {
			in.lits(x.Post)
		}
		in.block(x.Body, true)
	case *ast.RangeStmt:
		in.lits(x.X)
		in.block(x.Body, true)
	case *ast.SwitchStmt:
		if x.Init != nil {
			in.lits(x.Init)
		}
		if x.Tag != nil {
			in.lits(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.lits(e)
			}
			cc.Body = in.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body)
		}
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = in.list(cc.Body)
		}
	case *ast.LabeledStmt:
		r := in.stmt(x.Stmt)
		x.Stmt = r[len(r)-1]
		return append(r[:len(r)-1:len(r)-1], x)
	case *ast.GoStmt:
		in.lits(x.Call)
		return in.goStmt(x)
	default:
		in.lits(s)
	}
	return []ast.Stmt{s}
}

// goStmt turns go f(a, b) into { f', a', b' := f, a, b; sched.Go(func() { f'(a', b') }) }.
func (in *inst) goStmt(g *ast.GoStmt) []ast.Stmt {
	c := g.Call
	var pre []ast.Stmt
	hold := func(e ast.Expr) ast.Expr {
		switch v := e.(type) {
		case *ast.BasicLit, *ast.FuncLit:
			return e
		case *ast.Ident:
			if v.Name == "nil" || v.Name == "true" || v.Name == "false" {
				return e
			}
		}
		in.tmp++
		id := ast.NewIdent(fmt.Sprintf("verifTmp%d", in.tmp))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Obj != nil && id.Obj.Kind == ast.Var {
		c.Fun = hold(c.Fun)
	}
	for i := range c.Args {
		c.Args[i] = hold(c.Args[i])
	}
	call := &ast.ExprStmt{X: &ast.CallExpr{Fun: in.sched("Go"), Args: []ast.Expr{
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}},
	}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, call)}}
}

func recvName(f *ast.FuncDecl) string {
	if f.Recv == nil || len(f.Recv.List) == 0 {
		return f.Name.Name
	}
	t := f.Recv.List[0].Type
	for {
		switch x := t.(type) {
		case *ast.StarExpr:
			t = x.X
			continue
		case *ast.IndexExpr:
			t = x.X
			continue
		case *ast.Ident:
			return x.Name + "." + f.Name.Name
		}
		return f.Name.Name
	}
}

func main() {
	src, dst, table := os.Args[1], os.Args[2], os.Args[3]
	die(os.MkdirAll(dst, 0755))
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	die(err)
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		// comments are dropped: they hold nothing but text here, except build
		// constraints, which are kept by hand
		b, err := os.ReadFile(f)
		die(err)
		a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		die(err)
		var head bytes.Buffer
		for _, cg := range a.Comments {
			if cg.Pos() < a.Package {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
						fmt.Fprintln(&head, c.Text)
					}
				}
			}
		}
		in := &inst{fset: fset, file: filepath.Base(f), names: map[string]string{}}
		for _, im := range a.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			in.names[n] = p
		}
		a.Comments = nil
		a.Doc = nil
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			in.exprs(d)
			switch x := d.(type) {
			case *ast.FuncDecl:
				x.Doc = nil
				in.fn = recvName(x)
				in.block(x.Body, false)
			case *ast.GenDecl:
				in.fn = "init"
				in.lits(x)
			}
		}
		// keep every import used
		var keep []ast.Decl
		for n, p := range in.names {
			if n == "_" || n == "." {
				continue
			}
			if k := keepers[p]; k != "" {
				e, err := parser.ParseExpr(n + "." + k)
				die(err)
				keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{e}}}})
			}
		}
		a.Decls = append(a.Decls, keep...)
		if in.used {
			im := &ast.ImportSpec{Name: ast.NewIdent("verifsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"sched"`}}
			a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{im}}}, a.Decls...)
		}
		var out bytes.Buffer
		out.Write(head.Bytes())
		out.WriteString("\n")
		die((&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&out, token.NewFileSet(), a))
		die(os.WriteFile(filepath.Join(dst, filepath.Base(f)), out.Bytes(), 0644))
	}
	var t bytes.Buffer
	fmt.Fprintf(&t, "package %s\n\nimport \"sched\"\n\nfunc init() {\n\tsched.Sites = []sched.Site{\n", filepath.Base(table))
	for _, s := range sites {
		fmt.Fprintf(&t, "\t\t{%q, %q},\n", s.file, s.fn)
	}
	fmt.Fprintf(&t, "\t}\n}\n")
	die(os.MkdirAll(table, 0755))
	die(os.WriteFile(filepath.Join(table, "sites.go"), t.Bytes(), 0644))
}

// keepers names something in each package whose only use may be replaced.
var keepers = map[string]string{"sync": "NewCond", "net": "ParseIP", "time": "Now", "runtime": "NumCPU"}
