package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// normalize brings loops into the forms that loop contracts know:
//
//	for init; ; post { if C { break }; B }    for init; !C; post { B }
//	for init; x < n; { B; x++ }               for init; x < n; x++ { B }   (B without continue)
//	for init; C; x += 1 { B }                 for init; C; x++ { B }
//
// The two sides of each line run the same steps in the same order.
func normalize(w *World) {
	for _, fi := range w.Funcs {
		if fi.Decl.Body == nil {
			continue
		}
		info := fi.Pkg.Info
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			if x, ok := n.(*ast.ForStmt); ok {
				normFor(info, x)
			}
			return true
		})
	}
}

func normFor(info *types.Info, x *ast.ForStmt) {
	if x.Cond == nil && len(x.Body.List) > 0 {
		if i, ok := x.Body.List[0].(*ast.IfStmt); ok && i.Init == nil && i.Else == nil && len(i.Body.List) == 1 {
			if b, ok := i.Body.List[0].(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label == nil {
				x.Cond = negate(info, i.Cond)
				x.Body.List = x.Body.List[1:]
			}
		}
	}
	step := func(s ast.Stmt) *ast.IncDecStmt {
		switch s := s.(type) {
		case *ast.IncDecStmt:
			if _, ok := s.X.(*ast.Ident); ok {
				return s
			}
		case *ast.AssignStmt:
			if len(s.Lhs) != 1 {
				return nil
			}
			id, ok := s.Lhs[0].(*ast.Ident)
			if !ok {
				return nil
			}
			one := func(e ast.Expr) bool {
				tv := info.Types[e]
				return tv.Value != nil && tv.Value.ExactString() == "1"
			}
			tok := token.ILLEGAL
			switch s.Tok {
			case token.ADD_ASSIGN:
				tok = token.INC
			case token.SUB_ASSIGN:
				tok = token.DEC
			}
			if tok != token.ILLEGAL && one(s.Rhs[0]) {
				return &ast.IncDecStmt{X: id, TokPos: s.TokPos, Tok: tok}
			}
			if b, ok := unparen(s.Rhs[0]).(*ast.BinaryExpr); ok && s.Tok == token.ASSIGN && one(b.Y) {
				if l, ok := unparen(b.X).(*ast.Ident); ok && info.ObjectOf(l) == info.ObjectOf(id) {
					if b.Op == token.ADD {
						return &ast.IncDecStmt{X: id, TokPos: s.TokPos, Tok: token.INC}
					}
					if b.Op == token.SUB {
						return &ast.IncDecStmt{X: id, TokPos: s.TokPos, Tok: token.DEC}
					}
				}
			}
		}
		return nil
	}
	if x.Post != nil {
		if p := step(x.Post); p != nil {
			x.Post = p
		}
		return
	}
	k := len(x.Body.List)
	be, ok := unparenE(x.Cond).(*ast.BinaryExpr)
	if k == 0 || !ok {
		return
	}
	p := step(x.Body.List[k-1])
	if p == nil {
		return
	}
	o := info.ObjectOf(p.X.(*ast.Ident))
	id, ok := unparen(be.X).(*ast.Ident)
	if !ok || info.ObjectOf(id) != o || o == nil || o.Pos() >= x.Body.Pos() && o.Pos() < x.Body.End() {
		return
	}
	switch be.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return
	}
	cont := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE || n.Tok == token.GOTO {
				cont = true
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	if cont {
		return
	}
	x.Body.List = x.Body.List[:k-1]
	x.Post = p
}

func unparenE(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return unparen(e)
}

// negate is !e, without !! and with comparisons of integers turned round.
func negate(info *types.Info, e ast.Expr) ast.Expr {
	tv := info.Types[e]
	tv.Value = nil
	e = unparen(e)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	var r ast.Expr = &ast.UnaryExpr{Op: token.NOT, OpPos: e.Pos(), X: e}
	if b, ok := e.(*ast.BinaryExpr); ok {
		op := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[b.Op]
		t, basic := info.TypeOf(b.X).Underlying().(*types.Basic)
		if op != token.ILLEGAL && (op == token.EQL || op == token.NEQ || basic && t.Info()&(types.IsFloat|types.IsComplex) == 0) {
			r = &ast.BinaryExpr{X: b.X, OpPos: b.OpPos, Op: op, Y: b.Y}
		}
	}
	info.Types[r] = tv
	return r
}
