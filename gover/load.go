package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one type-checked package of the repository.
type Pkg struct {
	Path, Name, Dir string
	Files           []*ast.File
	Types           *types.Package
	Info            *types.Info
}

type FuncInfo struct {
	Key  string // pkg.Func or pkg.Recv.Method
	Decl *ast.FuncDecl
	Pkg  *Pkg
	Obj  *types.Func
}

type World struct {
	Root   string
	Module string
	Fset   *token.FileSet
	Pkgs   map[string]*Pkg // by import path
	Order  []*Pkg          // dependency order
	Funcs  map[string]*FuncInfo
	ByObj  map[types.Object]*FuncInfo
	std    types.Importer

	shape   Shape    // names the contracts were written with
	Renamed []string // names put back
}

func newInfo() *types.Info {
	return &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
}

func (w *World) Import(path string) (*types.Package, error) {
	if path == w.Module || strings.HasPrefix(path, w.Module+"/") {
		p, err := w.load(path)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	return w.std.Import(path)
}

func (w *World) load(path string) (*Pkg, error) {
	if p, ok := w.Pkgs[path]; ok {
		return p, nil
	}
	dir := filepath.Join(w.Root, strings.TrimPrefix(strings.TrimPrefix(path, w.Module), "/"))
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	p := &Pkg{Path: path, Name: bp.Name, Dir: dir}
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(w.Fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, af)
	}
	p.Info = newInfo()
	conf := types.Config{Importer: w, GoVersion: ""}
	tp, err := conf.Check(path, w.Fset, p.Files, p.Info)
	if err != nil {
		return nil, fmt.Errorf("type check %s: %v", path, err)
	}
	p.Types = tp
	w.restoreNames(p, w.shape[strings.TrimPrefix(path, w.Module)])
	w.Pkgs[path] = p
	w.Order = append(w.Order, p)
	for _, f := range p.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj := p.Info.Defs[fd.Name].(*types.Func)
			key := p.Name + "." + fd.Name.Name
			if r := obj.Type().(*types.Signature).Recv(); r != nil {
				key = p.Name + "." + namedOf(r.Type()).Obj().Name() + "." + fd.Name.Name
			}
			fi := &FuncInfo{Key: key, Decl: fd, Pkg: p, Obj: obj}
			w.Funcs[key] = fi
			w.ByObj[obj] = fi
		}
	}
	return p, nil
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// Load parses and type-checks every package below root/pkg.
func Load(root string, shape Shape) (*World, error) {
	mod := ""
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	w := &World{Root: root, shape: shape, Module: mod, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{},
		Funcs: map[string]*FuncInfo{}, ByObj: map[types.Object]*FuncInfo{}}
	build.Default.CgoEnabled = false
	w.std = importer.ForCompiler(w.Fset, "source", nil)
	var paths []string
	err = filepath.Walk(filepath.Join(root, "pkg"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			m, _ := filepath.Glob(filepath.Join(p, "*.go"))
			if len(m) > 0 {
				rel, _ := filepath.Rel(root, p)
				paths = append(paths, mod+"/"+filepath.ToSlash(rel))
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(paths)
	for _, p := range paths {
		if _, err := w.load(p); err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			return nil, err
		}
	}
	return w, nil
}
