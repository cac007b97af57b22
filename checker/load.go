package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package is one type-checked package of the repository under analysis.
type Package struct {
	Path  string
	Rel   string // path below the module root
	Files []*ast.File
	Names []string // file names, parallel to Files
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
}

// Program is the whole repository, type-checked and in SSA form.
type Program struct {
	inits   map[string]*State // evaluated initialisers (initGlobals)
	Root    string
	Module  string
	Fset    *token.FileSet
	Pkgs    []*Package
	ByRel   map[string]*Package
	SSA     *ssa.Program
	Funcs   []*ssa.Function // every source function, methods and closures included
	FileOf  map[*token.File]string
	byTypes map[*types.Package]*Package
}

type loadError struct{ msg string }

func (e *loadError) Error() string { return e.msg }

// repoRoot is where the analysed tree lives; TOKU_REPO is for the checker's own tests.
func repoRoot() string {
	if r := os.Getenv("TOKU_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func moduleInfo(root string) (path, goVersion string) {
	path, goVersion = "github.com/keyfuse/tokucore", "go1.21"
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			path = f[1]
		}
		if len(f) == 2 && f[0] == "go" {
			goVersion = "go" + f[1]
		}
	}
	return
}

// skipFile reports files that are test scaffolding living in non-test files.
func isMockFile(name string) bool { return strings.HasPrefix(filepath.Base(name), "mock") }

// Load parses and type-checks every package below root and builds SSA for it.
func Load(root string, specs ...string) (*Program, error) {
	build.Default.CgoEnabled = false
	mod, gover := moduleInfo(root)
	p := &Program{Root: root, Module: mod, Fset: token.NewFileSet(), ByRel: map[string]*Package{}, byTypes: map[*types.Package]*Package{}}
	var dirs []string
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if path != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "examples") {
				return filepath.SkipDir
			}
			dirs = append(dirs, path)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		bp, err := build.Default.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			if len(bp.GoFiles) == 0 {
				continue
			}
			return nil, fmt.Errorf("package in %s: %v", d, err)
		}
		if len(bp.GoFiles) == 0 {
			continue
		}
		rel, _ := filepath.Rel(root, d)
		pk := &Package{Rel: rel, Path: mod + "/" + rel}
		if rel == "." {
			pk.Path = mod
		}
		for _, f := range bp.GoFiles {
			fn := filepath.Join(d, f)
			af, err := parser.ParseFile(p.Fset, fn, nil, parser.ParseComments)
			if err != nil {
				return nil, fmt.Errorf("parse: %v", err)
			}
			pk.Files = append(pk.Files, af)
			pk.Names = append(pk.Names, fn)
		}
		for _, sp := range specs {
			if err := p.inject(pk, sp); err != nil {
				return nil, err
			}
		}
		p.Pkgs = append(p.Pkgs, pk)
		p.ByRel[rel] = pk
	}
	// Type-check in dependency order, repository packages from their own
	// syntax, the standard library from its source.
	std := importer.ForCompiler(p.Fset, "source", nil).(types.ImporterFrom)
	byPath := map[string]*Package{}
	for _, pk := range p.Pkgs {
		byPath[pk.Path] = pk
	}
	var check func(pk *Package) error
	imp := &repoImporter{std: std, root: root, resolve: func(path string) (*types.Package, error, bool) {
		pk, ok := byPath[path]
		if !ok {
			return nil, nil, false
		}
		if err := check(pk); err != nil {
			return nil, err, true
		}
		return pk.Types, nil, true
	}}
	checking := map[*Package]bool{}
	known := knownNames()
	check = func(pk *Package) error {
		if pk.Types != nil {
			return nil
		}
		if checking[pk] {
			return fmt.Errorf("import cycle through %s", pk.Path)
		}
		checking[pk] = true
		changed, second := false, false
		newInfo := func() *types.Info {
			return &types.Info{
				Types:        map[ast.Expr]types.TypeAndValue{},
				Defs:         map[*ast.Ident]types.Object{},
				Uses:         map[*ast.Ident]types.Object{},
				Implicits:    map[ast.Node]types.Object{},
				Selections:   map[*ast.SelectorExpr]*types.Selection{},
				Scopes:       map[ast.Node]*types.Scope{},
				Instances:    map[*ast.Ident]types.Instance{},
				FileVersions: map[*ast.File]string{},
			}
		}
		conf := types.Config{Importer: imp, GoVersion: gover, Sizes: types.SizesFor("gc", "amd64")}
		if was := known[pk.Rel]; was != nil && missing(pk.own(), was) {
			info := newInfo()
			if tp, err := conf.Check(pk.Path, p.Fset, pk.own(), info); err == nil {
				restoreNames(p.Fset, pk.own(), tp, info, was)
			}
		}
	again:
		info := newInfo()
		tp, err := conf.Check(pk.Path, p.Fset, pk.Files, info)
		if err != nil {
			return fmt.Errorf("type-check: %v", err)
		}
		for _, f := range pk.Files {
			changed = rangeStrings(f, info) || changed
		}
		if changed && !second {
			second = true
			goto again
		}
		pk.Types, pk.Info = tp, info
		return nil
	}
	for _, pk := range p.Pkgs {
		if err := check(pk); err != nil {
			return nil, err
		}
		p.byTypes[pk.Types] = pk
	}
	// SSA.
	prog := ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	p.SSA = prog
	seen := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, i := range tp.Imports() {
			create(i)
		}
		if pk, ok := byPath[tp.Path()]; ok {
			pk.SSA = prog.CreatePackage(tp, pk.Files, pk.Info, true)
		} else {
			prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, pk := range p.Pkgs {
		create(pk.Types)
	}
	for _, pk := range p.Pkgs {
		pk.SSA.Build()
	}
	fseen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || fseen[f] || f.Blocks == nil || p.IsSpec(f) {
			return
		}
		fseen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Pkgs {
		var names []string
		for n := range pk.SSA.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pk.SSA.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	return p, nil
}

type repoImporter struct {
	std     types.ImporterFrom
	root    string
	resolve func(string) (*types.Package, error, bool)
}

func (r *repoImporter) Import(path string) (*types.Package, error) {
	if tp, err, ok := r.resolve(path); ok {
		return tp, err
	}
	return r.std.ImportFrom(path, r.root, 0)
}

func (r *repoImporter) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	return r.Import(path)
}

// Pos renders a position relative to the analysed root.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Root, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		q.Filename = rel
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// InMock reports whether the function is defined in a mock file.
func (p *Program) InMock(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	return isMockFile(p.Fset.Position(f.Pos()).Filename)
}

// RelOf is the package of a function, relative to the module.
func (p *Program) RelOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return strings.TrimPrefix(o.Pkg.Pkg.Path(), p.Module+"/")
		}
		return ""
	}
	return strings.TrimPrefix(f.Pkg.Pkg.Path(), p.Module+"/")
}

// Func finds a package-level function or method: "xbase.NewBuffer",
// "xbase.(*Buffer).WriteU8" or "xbase.Witness.Serialize".
func (p *Program) Func(pkg, recv, name string) *ssa.Function {
	pk := p.ByRel[pkg]
	if pk == nil {
		return nil
	}
	if recv == "" {
		return pk.SSA.Func(name)
	}
	t := pk.SSA.Type(recv)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		obj, _, _ := types.LookupFieldOrMethod(T, true, pk.Types, name)
		if fn, ok := obj.(*types.Func); ok {
			return p.SSA.FuncValue(fn)
		}
	}
	return nil
}

// FuncName is the short display name of a function.
func (p *Program) FuncName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, p.Module+"/", "")
	return s
}

// inject adds a specification file (spec "rel/name") and the specification
// helpers to a package, in memory only.
func (p *Program) inject(pk *Package, spec string) error {
	i := strings.LastIndex(spec, "/")
	if spec[:i] != pk.Rel {
		return nil
	}
	name := pk.Files[0].Name.Name
	add := func(file string) error {
		b, err := specFS.ReadFile("specs/" + file)
		if err != nil {
			return err
		}
		src := strings.Replace(string(b), "package SPEC", "package "+name, 1)
		fn := "verifspec/" + file
		for _, n := range pk.Names {
			if n == fn {
				return nil
			}
		}
		af, err := parser.ParseFile(p.Fset, fn, src, parser.ParseComments)
		if err != nil {
			return err
		}
		pk.Files = append(pk.Files, af)
		pk.Names = append(pk.Names, fn)
		return nil
	}
	if err := add("common.go.txt"); err != nil {
		return err
	}
	return add(strings.ReplaceAll(pk.Rel, "/", "__") + "__" + spec[i+1:] + ".go.txt")
}

// IsSpec reports whether the function is part of an injected specification.
func (p *Program) IsSpec(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pos().IsValid() && strings.HasPrefix(p.Fset.Position(f.Pos()).Filename, "verifspec/")
}

// IsSpecPos reports whether a position lies in an injected specification.
func (p *Program) IsSpecPos(pos token.Pos) bool {
	return pos.IsValid() && strings.HasPrefix(p.Fset.Position(pos).Filename, "verifspec/")
}

// FuncsIn lists every source function of a package, methods and closures
// included, without specifications and mocks.
func (p *Program) FuncsIn(rel string) []*ssa.Function {
	pk := p.ByRel[rel]
	if pk == nil {
		return nil
	}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || p.IsSpec(f) || p.InMock(f) {
			return
		}
		if f.Blocks != nil {
			out = append(out, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, n := range sortedKeys(pk.SSA.Members) {
		switch m := pk.SSA.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				add(p.SSA.FuncValue(nt.Method(i)))
			}
		}
	}
	return out
}

// Methods lists the methods of one name in a package.
func (p *Program) Methods(rel, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.FuncsIn(rel) {
		if f.Name() == name && f.Signature.Recv() != nil {
			out = append(out, f)
		}
	}
	return out
}
