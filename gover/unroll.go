package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// maxUnroll: loops with a constant number of iterations, at most this many,
// are emitted iteration by iteration. This is exact, it bounds nothing.
const maxUnroll = 16

// plainBody: a body that may be emitted several times.
func plainBody(b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.LabeledStmt:
			ok = false
		case *ast.BranchStmt:
			if x.Tok != token.BREAK || x.Label != nil {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// hasContract: the contract says something about the next loop.
func (f *fctx) nextLoopSpecified() bool {
	n := *f.fr.nloop + 1
	var ls *LoopSpec
	if f.fr.clo != nil {
		ls = f.fr.clo.Loops[n]
	} else if f.spec != nil {
		ls = f.spec.Loops[n]
	}
	return ls != nil
}

func (f *fctx) constInt(e ast.Expr) (int64, bool) {
	tv, ok := f.info().Types[unparen(e)]
	if !ok || tv.Value == nil {
		return 0, false
	}
	v := constant.ToInt(tv.Value)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

// unrollFor: for i := a; i < b; i++  with constants a and b, and the likes.
func (f *fctx) unrollFor(x *ast.ForStmt) bool {
	if f.nextLoopSpecified() || !plainBody(x.Body) || x.Cond == nil {
		return false
	}
	a, ok := x.Init.(*ast.AssignStmt)
	if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return false
	}
	id, ok := a.Lhs[0].(*ast.Ident)
	post, ok2 := x.Post.(*ast.IncDecStmt)
	cond, ok3 := unparen(x.Cond).(*ast.BinaryExpr)
	if !ok || !ok2 || !ok3 {
		return false
	}
	o := f.info().Defs[id]
	is := func(e ast.Expr) bool {
		i, ok := unparen(e).(*ast.Ident)
		return ok && f.info().ObjectOf(i) == o
	}
	if o == nil || !isInt(o.Type()) || !is(post.X) || !is(cond.X) || assignedIn(f.info(), x.Body.List, o) {
		return false
	}
	lo, ok := f.constInt(a.Rhs[0])
	hi, ok2 := f.constInt(cond.Y)
	if !ok || !ok2 || lo < -1000 || lo > 1000 {
		return false
	}
	step := int64(1)
	if post.Tok == token.DEC {
		step = -1
	}
	var vals []int64
	for i := lo; constant.Compare(constant.MakeInt64(i), cond.Op, constant.MakeInt64(hi)); i += step {
		if len(vals) == maxUnroll {
			return false
		}
		vals = append(vals, i)
	}
	f.emit("{")
	f.ind++
	f.stmt(x.Init)
	b := f.lookup(o)
	f.unroll(x.Body, len(vals), func(i int) {
		f.ghostSet(b.name, f.constVal(constant.MakeInt64(vals[i]), o.Type()))
	})
	f.ind--
	f.emit("}")
	return true
}

// unrollRange: range over an array or a constant.
func (f *fctx) unrollRange(x *ast.RangeStmt) bool {
	if f.nextLoopSpecified() || !plainBody(x.Body) {
		return false
	}
	xt := f.typeOf(x.X)
	n := int64(0)
	arr, isArr := xt.Underlying().(*types.Array)
	if isArr {
		n = arr.Len()
	} else if c, ok := f.constInt(x.X); ok && isInt(xt) {
		n = c
	} else if c, ok := f.listed(x.X); ok {
		n, isArr = c, true
	} else {
		return false
	}
	if n < 0 || n > maxUnroll {
		return false
	}
	f.emit("{")
	f.ind++
	val := ""
	if isArr && x.Value != nil && !f.isBlank(x.Value) {
		val = f.tmp()
		f.emit("let ghost %s: %s = %s;", val, f.t.ty(xt), f.expr(x.X))
	}
	f.unroll(x.Body, int(n), func(i int) {
		k := f.constVal(constant.MakeInt64(int64(i)), types.Typ[types.Int])
		if x.Key != nil {
			f.assignVal(x.Key, k, x.Tok == token.DEFINE, nil)
		}
		if val != "" {
			f.assignVal(x.Value, val+"["+k+"]", x.Tok == token.DEFINE, nil)
		}
	})
	f.ind--
	f.emit("}")
	return true
}

// listed: how many elements has a slice written out in place or in a package variable nothing changes.
func (f *fctx) listed(e ast.Expr) (int64, bool) {
	e = unparen(e)
	if !isSlice(f.typeOf(e).Underlying()) {
		return 0, false
	}
	var v *types.Var
	switch x := e.(type) {
	case *ast.Ident:
		v, _ = f.info().Uses[x].(*types.Var)
	case *ast.SelectorExpr:
		v, _ = f.info().Uses[x.Sel].(*types.Var)
	}
	if v != nil {
		p := f.t.w.Pkgs[pkgPath(v)]
		if p == nil || v.Parent() != v.Pkg().Scope() {
			return 0, false
		}
		init, written := f.t.initOf(p, v)
		if init == nil || written {
			return 0, false
		}
		e = unparen(init)
	}
	c, ok := e.(*ast.CompositeLit)
	if !ok {
		return 0, false
	}
	for _, el := range c.Elts {
		if _, kv := el.(*ast.KeyValueExpr); kv {
			return 0, false
		}
	}
	return int64(len(c.Elts)), true
}

func pkgPath(v *types.Var) string {
	if v.Pkg() == nil {
		return ""
	}
	return v.Pkg().Path()
}

func (f *fctx) unroll(body *ast.BlockStmt, n int, set func(i int)) {
	var guards []string
	flag := ""
	if hasBranch(body, token.BREAK) {
		flag = f.tmp()
		f.emit("let ghost mut %s: bool = false;", flag)
		guards = append(guards, flag)
	}
	if f.fr.inline && hasReturn(body) {
		guards = append(guards, f.fr.retFlag)
	}
	if exits(body) && n > 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		guarded := i > 0 && len(guards) > 0
		if guarded {
			f.emit("if cond(Ghost(!(%s))) {", strings.Join(guards, " || "))
			f.flow('I', "")
			f.ind++
		}
		set(i)
		f.pushJump(jumpTarget{flag: flag})
		f.stmts(body.List)
		f.popJump()
		if guarded {
			f.ind--
			f.emit("}")
			f.flow('X', "")
		}
	}
}

// searchInv: for a loop  { if C { leave } }  without a contract, the fact that
// C was false for the elements passed. Verus checks it like any invariant.
func (f *fctx) searchInv(body *ast.BlockStmt, key, val types.Object, elem func(j string) string, lo, idx string) string {
	if len(body.List) != 1 {
		return ""
	}
	s, ok := body.List[0].(*ast.IfStmt)
	if !ok || s.Init != nil || s.Else != nil || !exits(s.Body) || hasBranch(s.Body, token.CONTINUE) {
		return ""
	}
	changed := false
	ast.Inspect(s.Cond, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := f.info().Uses[id].(*types.Var); ok && assignedIn(f.info(), body.List, o) {
				changed = true
			}
		}
		return !changed
	})
	if changed {
		return ""
	}
	const j = "j_"
	save := map[types.Object]*bind{}
	set := func(o types.Object, v string) {
		if o == nil {
			return
		}
		save[o] = f.fr.vars[o]
		f.fr.vars[o] = &bind{name: v, ty: o.Type()}
	}
	set(key, j)
	if val != nil {
		set(val, elem(j))
	}
	c, _, ok := f.tryPure(func() string { return f.expr(s.Cond) })
	for o, b := range save {
		if b == nil {
			delete(f.fr.vars, o)
		} else {
			f.fr.vars[o] = b
		}
	}
	if !ok {
		return ""
	}
	e := elem(j)
	if e == "" || !strings.Contains(c, e) {
		if e == "" {
			return ""
		}
		return "forall|" + j + ": int| " + lo + " <= " + j + " < " + idx + " ==> !(" + c + ") || #[trigger] " + e + " != " + e
	}
	// the element is the trigger
	c = strings.Replace(c, e, "#[trigger] "+e, 1)
	return "forall|" + j + ": int| " + lo + " <= " + j + " < " + idx + " ==> !(" + c + ")"
}
