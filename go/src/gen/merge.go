package main

import (
	"encoding/json"
	"fmt"
	_ "genall"
	"go/types"
	"idl"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const nMerged = 24

// prepared is what the first run leaves for the second.
type prepared struct {
	Defs   []defResult
	Merged []string // error of each merged program
}
type defResult struct {
	Gen    string   // error of the generator
	Errs   []string // of the Go compiler
	Unused []string // unused imports of command line tools
}

func prefixOf(i int) string {
	if i%2 == 0 {
		return fmt.Sprintf("Q%dx", i)
	}
	return fmt.Sprintf("q%dx", i)
}

// mergedPrograms puts the definitions given into a few programs, each with all
// the support, and those of whole files into programs of their own. Functions
// are renamed, because those of all services of a file share their names.
func mergedPrograms(defs []definition, use func(i int) bool) ([]*idl.Program, [][]int, error) {
	texts := make([]strings.Builder, nMerged)
	members := make([][]int, nMerged)
	var ps []*idl.Program
	var files []*idl.Program
	var fileMembers [][]int
	for i, d := range defs {
		if !use(i) || !d.merges() {
			continue
		}
		if strings.HasPrefix(d.sect, "file:") {
			p, err := idl.Parse(fmt.Sprintf("gf%d", i), d.text, noInclude)
			if err != nil {
				return nil, nil, err
			}
			p.NS = p.Name
			files = append(files, p)
			fileMembers = append(fileMembers, []int{i})
			continue
		}
		k := i % nMerged
		texts[k].WriteString(strings.ReplaceAll(d.text, "@", prefixOf(i)) + "\n")
		members[k] = append(members[k], i)
	}
	for k := range texts {
		p, err := idl.Parse(fmt.Sprintf("gm%d", k), supportText(nil)+texts[k].String(), noInclude)
		if err != nil {
			return nil, nil, err
		}
		n := 0
		for _, s := range p.Services {
			for _, f := range s.Funcs {
				if !strings.Contains(f.Name, "x") || f.Name[0] != 'q' && f.Name[0] != 'Q' {
					f.Name = fmt.Sprintf("q%dx%s", n, f.Name)
				}
				n++
			}
		}
		ps = append(ps, p)
	}
	return append(ps, files...), append(members, fileMembers...), nil
}

// merges tells whether the definition goes into the merged programs.
func (d definition) merges() bool {
	return d.sect != "include" && d.sect != "clash"
}

func prepareMain(repo string, thorough bool) error {
	work, driver, bin := setupDirs()
	comp, err := newCompiler()
	if err != nil {
		return err
	}
	defs := universe(repo, thorough)
	base, err := baseProgram()
	if err != nil {
		return err
	}
	var ps []*idl.Program
	including := []*idl.Program{base}
	for i, d := range defs {
		name := fmt.Sprintf("d%d", i)
		if d.sect == "file:generation" {
			name = "simple"
		}
		p, err := programOf(d, name, prefixOf(i), base)
		if err != nil {
			return fmt.Errorf("%s: %v", d.text, err)
		}
		if d.sect == "include" {
			including = append(including, p)
		}
		ps = append(ps, p)
	}
	root := filepath.Join(work, "s1")
	os.RemoveAll(root)
	os.MkdirAll(root, 0755)
	var alone []*idl.Program
	for i, p := range ps {
		if defs[i].sect != "include" {
			alone = append(alone, p)
		}
	}
	made, err := generate(driver, bin, root, alone, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	iroot := filepath.Join(work, "s1i")
	os.RemoveAll(iroot)
	os.MkdirAll(iroot, 0755)
	imade, err := generate(driver, bin, iroot, including, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	gs := make([]*generated, len(ps))
	for _, g := range append(made, imade[1:]...) {
		for i, p := range ps {
			if g.prog == p {
				gs[i] = g
			}
		}
	}
	for _, g := range imade[1:] {
		g.included = imade[:1]
	}
	pr := &prepared{Defs: make([]defResult, len(defs))}
	parallel(len(defs), func(i int) {
		r := &pr.Defs[i]
		if gs[i].err != "" {
			r.Gen = gs[i].err
			return
		}
		own := map[string]*types.Package{}
		for _, q := range gs[i].included {
			b := *q
			if e, _ := comp.check(&b, own); len(e) > 0 {
				r.Errs = append(r.Errs, e...)
				return
			}
		}
		r.Errs, r.Unused = comp.check(gs[i], own)
	})
	clean := func(i int) bool { return pr.Defs[i].Gen == "" && len(pr.Defs[i].Errs) == 0 }
	ms, _, err := mergedPrograms(defs, clean)
	if err != nil {
		return err
	}
	mroot := filepath.Join(work, "s2")
	os.RemoveAll(mroot)
	os.MkdirAll(mroot, 0755)
	mg, err := generate(driver, bin, mroot, ms, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	src := filepath.Join(work, "gopath", "src")
	pr.Merged = make([]string, len(mg))
	parallel(len(mg), func(i int) {
		g := mg[i]
		if g.err != "" {
			pr.Merged[i] = g.err
			return
		}
		if errs, _ := comp.check(g, map[string]*types.Package{}); len(errs) > 0 {
			pr.Merged[i] = strings.Join(errs, "; ")
			return
		}
		dst := filepath.Join(src, g.path)
		os.RemoveAll(dst)
		os.MkdirAll(dst, 0755)
		lib, _ := g.fileNames()
		for _, f := range lib {
			os.WriteFile(filepath.Join(dst, f), g.files[f], 0644)
		}
		os.WriteFile(filepath.Join(dst, "zz_registry.go"), []byte(registryFile(g)), 0644)
	})
	var all strings.Builder
	all.WriteString("package genall\n\nimport (\n")
	for i, g := range mg {
		if pr.Merged[i] == "" {
			fmt.Fprintf(&all, "\t_ %q\n", g.path)
		}
	}
	all.WriteString(")\n")
	os.MkdirAll(filepath.Join(src, "genall"), 0755)
	os.WriteFile(filepath.Join(src, "genall", "genall.go"), []byte(all.String()), 0644)
	b, _ := json.Marshal(pr)
	if os.Getenv("GENDUMP") != "" {
		for i, d := range defs {
			r := pr.Defs[i]
			if e := append([]string{r.Gen}, r.Errs...); !clean(i) {
				fmt.Fprintf(os.Stderr, "%s\t%s\t%s\n", d.sect, strings.ReplaceAll(d.text, "\n", " "), strings.Join(e, ";"))
			}
		}
		for i, e := range pr.Merged {
			if e != "" {
				fmt.Fprintf(os.Stderr, "merged\t%s\t%s\n", ms[i].Name, e)
			}
		}
	}
	return os.WriteFile(filepath.Join(work, "prepared.json"), b, 0644)
}

// registryFile gives the file added to a generated package.
func registryFile(g *generated) string {
	pkg := g.pkg
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return p.Name()
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"genreg\"\n\t\"thrift\"\n)\n\n", pkg.Name())
	var services []string
	sc := pkg.Scope()
	b.WriteString("func init() {\n\tvar _ thrift.TProtocol\n\tp := &genreg.Package{\n\t\tNews: map[string]func() interface{}{\n")
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !strings.HasPrefix(n, "New") {
			continue
		}
		s := f.Type().(*types.Signature)
		if s.Params().Len() == 0 && s.Results().Len() == 1 {
			fmt.Fprintf(&b, "\t\t\t%q: func() interface{} { return %s() },\n", n, n)
		}
		if strings.HasSuffix(n, "Processor") && s.Params().Len() == 1 {
			services = append(services, strings.TrimSuffix(n[3:], "Processor"))
		}
	}
	b.WriteString("\t\t},\n\t\tValues: map[string]func() interface{}{\n")
	for _, n := range sc.Names() {
		switch sc.Lookup(n).(type) {
		case *types.Const, *types.Var:
			if n != "_" {
				fmt.Fprintf(&b, "\t\t\t%q: func() interface{} { return %s },\n", n, n)
			}
		}
	}
	b.WriteString("\t\t},\n\t\tEnums: map[string]func(int64) interface{}{\n")
	for _, n := range sc.Names() {
		t, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if bt, ok := t.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			fmt.Fprintf(&b, "\t\t\t%q: func(i int64) interface{} { return %s(i) },\n", n, n)
		}
	}
	b.WriteString("\t\t},\n\t\tFroms: map[string]func(string) interface{}{\n")
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if ok && strings.HasPrefix(n, "From") && strings.HasSuffix(n, "String") && f.Type().(*types.Signature).Params().Len() == 1 {
			fmt.Fprintf(&b, "\t\t\t%q: func(s string) interface{} { return %s(s) },\n", n, n)
		}
	}
	b.WriteString("\t\t},\n\t\tServices: map[string]*genreg.Service{},\n\t}\n")
	sort.Strings(services)
	var types_ strings.Builder
	for _, s := range services {
		it := sc.Lookup("I" + s)
		if it == nil || sc.Lookup("New"+s+"ClientFactory") == nil || sc.Lookup("New"+s+"ClientProtocol") == nil {
			continue
		}
		fmt.Fprintf(&b, "\tp.Services[%q] = &genreg.Service{\n\t\tClientFactory: func(t thrift.TTransport, f thrift.TProtocolFactory) interface{} { return New%sClientFactory(t, f) },\n", s, s)
		fmt.Fprintf(&b, "\t\tClientProtocol: func(t thrift.TTransport, in, out thrift.TProtocol) interface{} { return New%sClientProtocol(t, in, out) },\n", s)
		fmt.Fprintf(&b, "\t\tProcessor: func(h genreg.Handler) thrift.TProcessor { return New%sProcessor(zzHandler%s{h}) },\n\t}\n", s, s)
		fmt.Fprintf(&types_, "\ntype zzHandler%s struct{ h genreg.Handler }\n", s)
		set := types.NewMethodSet(it.Type())
		for i := 0; i < set.Len(); i++ {
			m := set.At(i).Obj().(*types.Func)
			sig := m.Type().(*types.Signature)
			var ps, as, rs []string
			for j := 0; j < sig.Params().Len(); j++ {
				ps = append(ps, fmt.Sprintf("a%d %s", j, types.TypeString(sig.Params().At(j).Type(), qual)))
				as = append(as, fmt.Sprintf("a%d", j))
			}
			for j := 0; j < sig.Results().Len(); j++ {
				rs = append(rs, fmt.Sprintf("r%d %s", j, types.TypeString(sig.Results().At(j).Type(), qual)))
			}
			fmt.Fprintf(&types_, "\nfunc (z zzHandler%s) %s(%s) (%s) {\n\trs := z.h(%q, []interface{}{%s})\n", s, m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), m.Name(), strings.Join(as, ", "))
			for j := 0; j < sig.Results().Len(); j++ {
				fmt.Fprintf(&types_, "\tr%d, _ = rs[%d].(%s)\n", j, j, types.TypeString(sig.Results().At(j).Type(), qual))
			}
			types_.WriteString("\treturn\n}\n")
		}
	}
	fmt.Fprintf(&b, "\tgenreg.Packages[%q] = p\n}\n", g.path)
	return b.String() + types_.String()
}
