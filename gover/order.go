package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// Values are strings over the variables of the translation. Where a later part
// of the same statement can change such a variable, the value is frozen first.

// freeze evaluates once into a ghost temporary, also plain variables.
func (f *fctx) freeze(val string, t types.Type) string {
	if f.pure > 0 || isLiteral(val) || t == nil {
		return val
	}
	n := f.tmp()
	f.emit("let ghost %s: %s = %s;", n, f.t.ty(t), val)
	if hasContainer(t, nil) {
		f.evVal(n, val)
	}
	return n
}

// freezeOf freezes the value of e.
func (f *fctx) freezeOf(val string, t types.Type, e ast.Expr) string {
	if f.pure > 0 || isLiteral(val) || t == nil || !hasContainer(t, nil) {
		return f.freeze(val, t)
	}
	n := f.tmp()
	f.emit("let ghost %s: %s = %s;", n, f.t.ty(t), val)
	f.evExpr(n, e, val)
	if x, ok := unparen(e).(*ast.CallExpr); ok {
		if f.frozenCall == nil {
			f.frozenCall = map[string]*ast.CallExpr{}
		}
		f.frozenCall[n] = x
	}
	return n
}

func isLiteral(v string) bool {
	for len(v) > 2 && v[0] == '(' && v[len(v)-1] == ')' {
		v = v[1 : len(v)-1]
	}
	if v == "true" || v == "false" {
		return true
	}
	for _, s := range []string{"int", "u8", "u16", "u32", "u64"} {
		if len(v) > len(s) && v[len(v)-len(s):] == s {
			if _, err := strconv.ParseInt(v[:len(v)-len(s)], 0, 64); err == nil {
				return true
			}
		}
	}
	return false
}

// realCall: not a conversion, not a built-in function.
func (f *fctx) realCall(x *ast.CallExpr) bool {
	if tv := f.info().Types[x]; tv.Value != nil {
		return false
	}
	fun := unparen(x.Fun)
	if tv := f.info().Types[fun]; tv.IsType() {
		return false
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := f.info().Uses[id].(*types.Builtin); ok {
			return false
		}
	}
	return true
}

func (f *fctx) realCalls(n ast.Node) int {
	if n == nil {
		return 0
	}
	k := 0
	top := n
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			if n == top {
				return false
			}
			// the expressions of the cases belong to the switch
			for _, s := range x.List {
				if c, ok := s.(*ast.CaseClause); ok {
					for _, e := range c.List {
						k += f.realCalls(e)
					}
				}
			}
			return false
		case *ast.CallExpr:
			if f.realCall(x) {
				k++
			}
		}
		return true
	})
	return k
}

// ---- pointers into containers ----------------------------------------------------

// guard notes a pointer to an element: what holds the element must keep its
// place while the pointer exists.
func (f *fctx) guard(p place) {
	for i := len(p.elems) - 1; i >= 0; i-- {
		e := p.elems[i]
		hold := e.kind == 'o'
		if e.kind == 'i' {
			_, hold = e.cont.Underlying().(*types.Slice)
		}
		if hold {
			f.guards = append(f.guards, p.path(i))
		}
	}
}

func (f *fctx) checkGuards(p place) {
	w := p.path(len(p.elems))
	for _, g := range f.guards {
		if pathPrefix(w, g) {
			unsup("%s is replaced while a pointer into it exists", g)
		}
	}
}

// addressed evaluates the place of &e: its indices keep their values.
func (f *fctx) addressed(e ast.Expr) place {
	save := f.frozen
	f.frozen = true
	defer func() { f.frozen = save }()
	return f.lvalue(e)
}

// ---- appending to a part ------------------------------------------------------------

// appendPart handles the first operand of append when it is x[..:n]: what is
// behind n in x may be overwritten, so x must not be seen again but as the
// target of the append.
func (f *fctx) appendPart(e ast.Expr) {
	s, ok := unparen(e).(*ast.SliceExpr)
	if !ok || s.High == nil || s.Slice3 {
		return
	}
	if c, ok := unparen(s.X).(*ast.CallExpr); ok && f.info().Types[c.Fun].IsType() {
		return
	}
	p, ok := f.placeOf(s.X)
	if !ok || len(f.target) == 0 || p.path(len(p.elems)) != f.target || indexed(p) {
		unsup("append to a part of a slice that may be seen again")
	}
}

func indexed(p place) bool {
	for _, e := range p.elems {
		if e.kind != 'f' {
			return true
		}
	}
	return false
}

// ---- arguments that overlap -----------------------------------------------------------

func (f *fctx) checkOverlap(sp *FuncSpec, names []string, args []carg, tys []types.Type) {
	paths := func(i int) (string, bool) {
		if args[i].place != nil {
			return args[i].place.path(len(args[i].place.elems)), true
		}
		if hasContainer(tys[i], nil) {
			return readPath(args[i].val)
		}
		return "", false
	}
	for i := range args {
		if args[i].place == nil {
			continue
		}
		for _, m := range sp.Modifies {
			if !pathPrefix(names[i], m) {
				continue
			}
			w := args[i].place.path(len(args[i].place.elems)) + m[len(names[i]):]
			for j := range args {
				if j == i {
					continue
				}
				if q, ok := paths(j); ok && (pathPrefix(w, q) || pathPrefix(q, w)) {
					unsup("%s, which %s writes, is part of two arguments", w, sp.Key)
				}
			}
		}
	}
}

var _ = token.NoPos
