package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Specifications speak of a few unexported names. When the analysed tree has
// renamed one, the declaration of the same shape that took its place is given
// its former name before anything is judged, in memory only. What is not found
// that way stays as it is.

type namedDecl struct {
	Name  string
	Shape string
}

type pkgNames struct {
	Types  []namedDecl // in source order
	Funcs  []namedDecl // "Recv.name" or ".name"
	Values []namedDecl
	Fields map[string][]namedDecl
}

func unexported(n string) bool { return n != "_" && n != "init" && n != "main" && !ast.IsExported(n) }

// namesOf lists the package-level names, methods and fields of a package.
func namesOf(fset *token.FileSet, tp *types.Package, ren func(string) string) (*pkgNames, map[string]types.Object) {
	q := func(p *types.Package) string {
		if p == tp {
			return ""
		}
		return p.Path()
	}
	str := func(t types.Type) string { return ren(types.TypeString(t, q)) }
	out := &pkgNames{Fields: map[string][]namedDecl{}}
	objs := map[string]types.Object{}
	var all []types.Object
	for _, n := range tp.Scope().Names() {
		all = append(all, tp.Scope().Lookup(n))
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := fset.Position(all[i].Pos()), fset.Position(all[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	sig := func(f *types.Func) string {
		s := f.Type().(*types.Signature)
		var l []string
		for i := 0; i < s.Params().Len(); i++ {
			l = append(l, str(s.Params().At(i).Type()))
		}
		var r []string
		for i := 0; i < s.Results().Len(); i++ {
			r = append(r, str(s.Results().At(i).Type()))
		}
		return fmt.Sprint("(", strings.Join(l, ","), ")(", strings.Join(r, ","), ")", s.Variadic())
	}
	for _, o := range all {
		if isMockFile(fset.Position(o.Pos()).Filename) {
			continue
		}
		switch t := o.(type) {
		case *types.TypeName:
			nt, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			tn := ren(t.Name())
			out.Types = append(out.Types, namedDecl{tn, str(nt.Underlying())})
			objs["t/"+t.Name()] = t
			if st, ok := nt.Underlying().(*types.Struct); ok {
				out.Types[len(out.Types)-1].Shape = fmt.Sprintf("struct of %d", st.NumFields())
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					out.Fields[tn] = append(out.Fields[tn], namedDecl{f.Name(), str(f.Type())})
					objs["d/"+tn+"."+f.Name()] = f
				}
			}
			var ms []*types.Func
			for i := 0; i < nt.NumMethods(); i++ {
				ms = append(ms, nt.Method(i))
			}
			sort.Slice(ms, func(i, j int) bool {
				a, b := fset.Position(ms[i].Pos()), fset.Position(ms[j].Pos())
				if a.Filename != b.Filename {
					return a.Filename < b.Filename
				}
				return a.Offset < b.Offset
			})
			for _, m := range ms {
				out.Funcs = append(out.Funcs, namedDecl{tn + "." + m.Name(), sig(m)})
				objs["f/"+tn+"."+m.Name()] = m
			}
		case *types.Func:
			out.Funcs = append(out.Funcs, namedDecl{"." + t.Name(), sig(t)})
			objs["f/."+t.Name()] = t
		case *types.Var, *types.Const:
			out.Values = append(out.Values, namedDecl{o.Name(), str(o.Type())})
			objs["v/"+o.Name()] = o
		}
	}
	return out, objs
}

// matchNames pairs the names of one list that are gone with new ones of the
// same shape, where that is unambiguous or their order says which is which.
func matchNames(was, is []namedDecl, base func(string) string) map[string]string {
	has := func(l []namedDecl, n string) bool {
		for _, d := range l {
			if d.Name == n {
				return true
			}
		}
		return false
	}
	gone, came := map[string][]string{}, map[string][]string{}
	scope := func(n string) string { return n[:len(n)-len(base(n))] }
	for _, d := range was {
		if unexported(base(d.Name)) && !has(is, d.Name) {
			k := scope(d.Name) + " " + d.Shape
			gone[k] = append(gone[k], d.Name)
		}
	}
	for _, d := range is {
		if unexported(base(d.Name)) && !has(was, d.Name) {
			k := scope(d.Name) + " " + d.Shape
			came[k] = append(came[k], d.Name)
		}
	}
	out := map[string]string{} // new -> old
	for k, g := range gone {
		if c := came[k]; len(c) == len(g) {
			for i := range g {
				out[c[i]] = g[i]
			}
		}
	}
	return out
}

// restoreNames gives renamed declarations their former names. It tells whether
// any was.
func restoreNames(fset *token.FileSet, files []*ast.File, tp *types.Package, info *types.Info, was *pkgNames) bool {
	plain := func(s string) string { return s }
	last := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	want := map[types.Object]string{}
	is, objs := namesOf(fset, tp, plain)
	tmap := matchNames(was.Types, is.Types, plain)
	for n, o := range tmap {
		want[objs["t/"+n]] = o
	}
	ren := plain
	if len(tmap) > 0 {
		ren = func(s string) string {
			var b strings.Builder
			for i := 0; i < len(s); {
				j := i
				for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 'a' && s[j] <= 'z') {
					j++
				}
				if j == i {
					b.WriteByte(s[i])
					i++
					continue
				}
				w := s[i:j]
				if o, ok := tmap[w]; ok && (i == 0 || s[i-1] != '.') {
					w = o
				}
				b.WriteString(w)
				i = j
			}
			return b.String()
		}
		is, objs = namesOf(fset, tp, ren)
	}
	for n, o := range matchNames(was.Funcs, is.Funcs, last) {
		want[objs["f/"+n]] = last(o)
	}
	for n, o := range matchNames(was.Values, is.Values, plain) {
		want[objs["v/"+n]] = o
	}
	for t, fs := range is.Fields {
		for n, o := range matchNames(was.Fields[t], fs, plain) {
			want[objs["d/"+t+"."+n]] = o
		}
	}
	if len(want) == 0 {
		return false
	}
	for _, f := range files {
		ast.Inspect(f, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				o := info.Defs[i]
				if o == nil {
					o = info.Uses[i]
				}
				if n, ok := want[o]; ok && o != nil {
					i.Name = n
				}
			}
			return true
		})
	}
	return true
}

// knownNames reads the names the specifications were written against.
func knownNames() map[string]*pkgNames {
	out := map[string]*pkgNames{}
	b, err := specFS.ReadFile("specs/names.json")
	if err == nil {
		_ = json.Unmarshal(b, &out)
	}
	return out
}

// dumpNames writes that list for the tree as it is.
func dumpNames(p *Program) {
	out := map[string]*pkgNames{}
	for rel, pk := range p.ByRel {
		out[rel], _ = namesOf(p.Fset, pk.Types, func(s string) string { return s })
	}
	b, _ := json.MarshalIndent(out, "", " ")
	fmt.Println(string(b))
}

// own are the files of the package itself.
func (pk *Package) own() []*ast.File {
	var out []*ast.File
	for i, f := range pk.Files {
		if !strings.HasPrefix(pk.Names[i], "verifspec/") {
			out = append(out, f)
		}
	}
	return out
}

// missing: some name the specifications know is declared nowhere.
func missing(files []*ast.File, was *pkgNames) bool {
	seen := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				recv := ""
				if d.Recv != nil && len(d.Recv.List) == 1 {
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if i, ok := t.(*ast.Ident); ok {
						recv = i.Name
					}
				}
				seen["f/"+recv+"."+d.Name.Name] = true
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							seen["v/"+n.Name] = true
						}
					case *ast.TypeSpec:
						seen["t/"+sp.Name.Name] = true
						if st, ok := sp.Type.(*ast.StructType); ok {
							for _, fl := range st.Fields.List {
								for _, n := range fl.Names {
									seen["d/"+sp.Name.Name+"."+n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	gone := func(kind string, l []namedDecl) bool {
		for _, d := range l {
			if unexported(d.Name[strings.LastIndex(d.Name, ".")+1:]) && !seen[kind+d.Name] {
				return true
			}
		}
		return false
	}
	if gone("t/", was.Types) || gone("f/", was.Funcs) || gone("v/", was.Values) {
		return true
	}
	for t, l := range was.Fields {
		if !seen["t/"+t] && unexported(t) {
			continue
		}
		for _, d := range l {
			if unexported(d.Name) && !seen["d/"+t+"."+d.Name] {
				return true
			}
		}
	}
	return false
}
