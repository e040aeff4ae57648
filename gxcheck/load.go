package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/vipally/gx"

// Program is the type-checked repository in SSA form. Only repository packages
// have function bodies; the standard library is known by its types.
type Program struct {
	root    string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by import path below modPath ("stl")
	infos   map[string]*types.Info
	files   map[string][]*ast.File
	srcImp  types.ImporterFrom
	tpkgs   map[string]*types.Package
	loading map[string]bool
	overlay map[string][]byte
	nfiles  int
	lib     *ssa.Package
}

func newProgram(root string, overlay map[string][]byte) *Program {
	os.Setenv("GO111MODULE", "off")
	build.Default.CgoEnabled = false
	build.Default.GOPATH = "/nonexistent"
	p := &Program{root: root, fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, infos: map[string]*types.Info{},
		files: map[string][]*ast.File{}, tpkgs: map[string]*types.Package{}, loading: map[string]bool{}, overlay: overlay}
	p.prog = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	p.srcImp = importer.ForCompiler(p.fset, "source", nil).(types.ImporterFrom)
	return p
}

func (p *Program) Import(path string) (*types.Package, error) {
	return p.ImportFrom(path, p.root, 0)
}

func (p *Program) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		if _, err := p.load(rel); err != nil {
			return nil, err
		}
		return p.tpkgs[rel], nil
	}
	tp, err := p.srcImp.ImportFrom(path, runtimeRoot(), mode)
	if err != nil {
		return nil, err
	}
	p.ensureStd(tp)
	return tp, nil
}

func runtimeRoot() string { return build.Default.GOROOT }

func (p *Program) ensureStd(tp *types.Package) {
	if p.prog.Package(tp) == nil {
		p.prog.CreatePackage(tp, nil, nil, true)
		for _, i := range tp.Imports() {
			p.ensureStd(i)
		}
	}
}

// load type-checks package rel and builds its SSA form.
func (p *Program) load(rel string) (*ssa.Package, error) {
	if sp := p.pkgs[rel]; sp != nil {
		return sp, nil
	}
	if p.loading[rel] {
		return nil, fmt.Errorf("import cycle through %s", rel)
	}
	p.loading[rel] = true
	defer delete(p.loading, rel)
	dir := filepath.Join(p.root, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	ctx := build.Default
	var files []*ast.File
	var names []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := filepath.Join(dir, n)
		var src any
		if b, ok := p.overlay[fn]; ok {
			src = b
		}
		f, err := parser.ParseFile(p.fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		stubC(f)
		files = append(files, f)
	}
	if len(files) == 0 {
		return nil, fmt.Errorf("no Go files in %s", dir)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	var firstErr error
	conf := types.Config{Importer: p, Error: func(err error) {
		if firstErr == nil {
			firstErr = err
		}
	}}
	tp, _ := conf.Check(modPath+"/"+rel, p.fset, files, info)
	if firstErr != nil {
		return nil, firstErr
	}
	p.tpkgs[rel] = tp
	for _, i := range tp.Imports() {
		if p.prog.Package(i) == nil {
			p.ensureStd(i)
		}
	}
	sp := p.prog.CreatePackage(tp, files, info, true)
	sp.Build()
	p.pkgs[rel] = sp
	p.infos[rel] = info
	p.files[rel] = files
	p.nfiles += len(files)
	return sp, nil
}

// stubC takes the C import out of a file: functions that use it lose their bodies
// and count as unknown outside functions.
func stubC(f *ast.File) {
	isC := false
	for i := len(f.Decls) - 1; i >= 0; i-- {
		g, ok := f.Decls[i].(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			if s.(*ast.ImportSpec).Path.Value == `"C"` {
				isC = true
			} else {
				keep = append(keep, s)
			}
		}
		g.Specs = keep
		if len(keep) == 0 {
			f.Decls = append(f.Decls[:i], f.Decls[i+1:]...)
		}
	}
	if !isC {
		return
	}
	var imps []*ast.ImportSpec
	for _, s := range f.Imports {
		if s.Path.Value != `"C"` {
			imps = append(imps, s)
		}
	}
	f.Imports = imps
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			uses := false
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == "C" {
						uses = true
					}
				}
				return true
			})
			if uses {
				fd.Body = nil
			}
		}
	}
}

func (p *Program) pos(x interface{ Pos() token.Pos }) string {
	return p.posOf(x.Pos())
}

func (p *Program) posOf(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// lookupFunc finds a package-level function or a method "T.M".
func lookupFunc(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		nt := t.Type()
		for _, ty := range []types.Type{nt, types.NewPointer(nt)} {
			ms := sp.Prog.MethodSets.MethodSet(ty)
			if sel := ms.Lookup(sp.Pkg, mn); sel != nil {
				f := sp.Prog.MethodValue(sel)
				// prefer the declared method over a synthesised wrapper
				if f != nil && f.Synthetic == "" {
					return f
				}
				if o, ok := sel.Obj().(*types.Func); ok {
					if df := sp.Prog.FuncValue(o); df != nil {
						return df
					}
				}
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}
