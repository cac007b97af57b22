package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// rangeStrings rewrites every range over a string into the loop the language
// defines it to be: one byte at a time while the bytes are below 0x80, and
// utf8.DecodeRuneInString otherwise. It tells whether there was any.
func rangeStrings(f *ast.File, info *types.Info) bool {
	n := 0
	id := ast.NewIdent
	rewrite := func(s ast.Stmt) ast.Stmt {
		r, ok := s.(*ast.RangeStmt)
		if !ok {
			return s
		}
		t := info.TypeOf(r.X)
		if t == nil {
			return s
		}
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return s
		}
		n++
		k := strconv.Itoa(n)
		str, pos, width, char := "rangeStr"+k, "rangePos"+k, "rangeWidth"+k, "rangeChar"+k
		lit := func(v string) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: v} }
		set := func(tok token.Token, l, v []ast.Expr) ast.Stmt {
			return &ast.AssignStmt{Lhs: l, Tok: tok, TokPos: r.TokPos, Rhs: v}
		}
		one := func(tok token.Token, l, v ast.Expr) ast.Stmt { return set(tok, []ast.Expr{l}, []ast.Expr{v}) }
		body := []ast.Stmt{
			one(token.DEFINE, id(char), &ast.CallExpr{Fun: id("rune"), Args: []ast.Expr{&ast.IndexExpr{X: id(str), Index: id(pos), Lbrack: r.For}}}),
			one(token.ASSIGN, id(width), lit("1")),
			&ast.IfStmt{Cond: &ast.BinaryExpr{X: id(char), Op: token.GEQ, Y: lit("0x80")}, Body: &ast.BlockStmt{List: []ast.Stmt{
				set(token.ASSIGN, []ast.Expr{id(char), id(width)}, []ast.Expr{&ast.CallExpr{
					Fun:  &ast.SelectorExpr{X: id("rangeUTF8"), Sel: id("DecodeRuneInString")},
					Args: []ast.Expr{&ast.SliceExpr{X: id(str), Low: id(pos)}}}}),
			}}},
		}
		blank := func(e ast.Expr) bool {
			i, ok := e.(*ast.Ident)
			return e == nil || ok && i.Name == "_"
		}
		if !blank(r.Key) {
			body = append(body, one(r.Tok, r.Key, id(pos)))
		}
		if !blank(r.Value) {
			body = append(body, one(r.Tok, r.Value, id(char)))
		}
		body = append(body, r.Body)
		x := r.X
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedString {
			x = &ast.CallExpr{Fun: id("string"), Args: []ast.Expr{x}}
		}
		return &ast.ForStmt{
			For:  r.For,
			Init: set(token.DEFINE, []ast.Expr{id(str), id(pos), id(width)}, []ast.Expr{x, lit("0"), lit("0")}),
			Cond: &ast.BinaryExpr{X: id(pos), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(str)}}},
			Post: one(token.ADD_ASSIGN, id(pos), id(width)),
			Body: &ast.BlockStmt{Lbrace: r.Body.Lbrace, List: body, Rbrace: r.Body.Rbrace},
		}
	}
	list := func(l []ast.Stmt) {
		for i := range l {
			l[i] = rewrite(l[i])
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch t := x.(type) {
		case *ast.BlockStmt:
			list(t.List)
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		case *ast.LabeledStmt:
			t.Stmt = rewrite(t.Stmt)
		}
		return true
	})
	if n > 0 {
		spec := &ast.ImportSpec{Name: id("rangeUTF8"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"unicode/utf8"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
	return n > 0
}
