package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"idl"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

var stdImports = []string{"fmt", "math", "thrift", "flag", "net", "net/url", "os", "strconv"}

// compiler type-checks generated packages in this process.
type compiler struct {
	fset *token.FileSet
	pkgs map[string]*types.Package
}

func newCompiler() (*compiler, error) {
	c := &compiler{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}}
	build.Default.CgoEnabled = false
	imp := importer.ForCompiler(c.fset, "source", nil)
	for _, p := range stdImports {
		q, err := imp.Import(p)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", p, err)
		}
		c.pkgs[p] = q
	}
	return c, nil
}

type mapImporter struct {
	c   *compiler
	own map[string]*types.Package
}

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p := m.own[path]; p != nil {
		return p, nil
	}
	if p := m.c.pkgs[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %q", path)
}

// generated is what the generator made of one program.
type generated struct {
	prog  *idl.Program
	dir   string // of its package
	path  string // import path
	err   string // from the generator
	files map[string][]byte
	pkg   *types.Package

	included []*generated
}

func pkgPath(p *idl.Program) string {
	ns := p.NS
	if ns == "" {
		ns = p.Name
	}
	return strings.ReplaceAll(ns, ".", "/")
}

// load reads the generated files.
func (g *generated) load(root string) error {
	g.path = pkgPath(g.prog)
	g.dir = filepath.Join(root, "gen-go", g.path)
	g.files = map[string][]byte{}
	fs, err := filepath.Glob(filepath.Join(g.dir, "*.go"))
	if err != nil {
		return err
	}
	rs, err := filepath.Glob(filepath.Join(g.dir, "*", "*-remote.go"))
	if err != nil {
		return err
	}
	for _, f := range append(fs, rs...) {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(g.dir, f)
		g.files[rel] = b
	}
	return nil
}

func (g *generated) fileNames() (lib, remotes []string) {
	for f := range g.files {
		if strings.Contains(f, "/") {
			remotes = append(remotes, f)
		} else {
			lib = append(lib, f)
		}
	}
	sort.Strings(lib)
	sort.Strings(remotes)
	return
}

// check parses and type-checks the package and its command line tools.
// Imports that the tools do not use are told apart.
func (c *compiler) check(g *generated, own map[string]*types.Package) (errs, unused []string) {
	lib, remotes := g.fileNames()
	one := func(path string, files []string) *types.Package {
		var as []*ast.File
		fset := token.NewFileSet()
		for _, f := range files {
			a, err := parser.ParseFile(fset, f, g.files[f], parser.SkipObjectResolution)
			if err != nil {
				errs = append(errs, fmt.Sprint(err))
				return nil
			}
			as = append(as, a)
		}
		conf := types.Config{Importer: mapImporter{c, own}, Error: func(err error) {
			if path == "main" && strings.HasSuffix(err.Error(), "imported and not used") {
				unused = append(unused, fmt.Sprint(err))
			} else if len(errs) < 6 {
				errs = append(errs, fmt.Sprint(err))
			}
		}}
		p, _ := conf.Check(path, fset, as, nil)
		return p
	}
	if len(lib) == 0 {
		return []string{"no files"}, nil
	}
	p := one(g.path, lib)
	if len(errs) > 0 {
		return
	}
	g.pkg = p
	own[g.path] = p
	for _, f := range remotes {
		one("main", []string{f})
	}
	return
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// generate runs the generator on the programs, in several processes.
func generate(driver, binDir, root string, ps []*idl.Program, whole bool) ([]*generated, error) {
	out := make([]*generated, len(ps))
	nw := runtime.NumCPU()
	if whole {
		nw = 1
	}
	if nw > len(ps) {
		nw = len(ps)
	}
	errs := make([]error, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		lo, hi := len(ps)*w/nw, len(ps)*(w+1)/nw
		wg.Add(1)
		go func(w, lo, hi int) {
			defer wg.Done()
			dirOf := func(p *idl.Program) string {
				if whole {
					return root
				}
				return filepath.Join(root, p.Name)
			}
			cmd := exec.Command(driver)
			cmd.Env = append(os.Environ(), "PATH="+binDir+":/usr/bin:/bin")
			cmd.Dir = root
			cmd.Stdin = strings.NewReader(idl.Driver(ps[lo:hi], dirOf))
			var se bytes.Buffer
			cmd.Stderr = &se
			o, err := cmd.Output()
			lines := strings.Split(strings.TrimSpace(string(o)), "\n")
			for i := lo; i < hi; i++ {
				g := &generated{prog: ps[i]}
				out[i] = g
				switch {
				case i-lo >= len(lines) || lines[i-lo] == "":
					errs[w] = fmt.Errorf("the generator ended early at %s: %v %s", ps[i].Name, err, se.String())
					g.err = "the generator ended: " + fmt.Sprint(err) + " " + se.String()
				case lines[i-lo] != "ok":
					g.err = lines[i-lo]
				default:
					if e := g.load(dirOf(ps[i])); e != nil {
						g.err = e.Error()
					}
				}
			}
		}(w, lo, hi)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return out, e
		}
	}
	return out, nil
}
