package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// ---- control flow helpers -----------------------------------------------------

// exits: the statement never completes normally.
func exits(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.BlockStmt:
		for _, t := range x.List {
			if exits(t) {
				return true
			}
		}
	case *ast.IfStmt:
		return x.Else != nil && exits(x.Body) && exits(x.Else)
	case *ast.ExprStmt:
		return isPanic(x.X)
	case *ast.ForStmt:
		return x.Cond == nil && !hasBreak(x.Body, true)
	case *ast.SwitchStmt:
		return switchExits(x.Body)
	case *ast.TypeSwitchStmt:
		return switchExits(x.Body)
	}
	return false
}

func switchExits(b *ast.BlockStmt) bool {
	def := false
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = true
		}
		ok := false
		for _, s := range cc.Body {
			if exits(s) {
				ok = true
			}
			if hasBreak(s, true) {
				return false
			}
		}
		if !ok {
			return false
		}
	}
	return def
}

func isPanic(e ast.Expr) bool {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "panic"
}

// hasBreak: contains an unlabelled break that targets the construct whose
// body is n (switches and loops inside n capture their own breaks).
func hasBreak(n ast.Node, top bool) bool { return hasBranch(n, token.BREAK) }

func hasBranch(n ast.Node, tok token.Token) bool {
	found := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				return m == n && false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				if tok == token.BREAK {
					return false
				}
			case *ast.BranchStmt:
				if x.Tok == tok {
					found = true
				}
			}
			return true
		})
	}
	switch x := n.(type) {
	case *ast.BlockStmt:
		for _, s := range x.List {
			walk(s)
		}
	default:
		walk(n)
	}
	return found
}

func hasReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		}
		return true
	})
	return found
}

// ---- statements ------------------------------------------------------------------

type jumpTarget struct {
	flag string // ghost flag set by a break of a switch or once-loop
	loop bool   // a real loop
	post func()
	end  func()
}

func (f *fctx) stmts(list []ast.Stmt) {
	for i, s := range list {
		flags := f.stmtFlags(s)
		f.stmt(s)
		if exits(s) && len(flags) == 0 {
			return
		}
		if exits(s) {
			return
		}
		if len(flags) > 0 && i+1 < len(list) {
			f.emit("if cond(Ghost(!(%s))) {", strings.Join(flags, " || "))
			f.flow('I', "")
			f.ind++
			f.stmts(list[i+1:])
			f.ind--
			f.emit("}")
			f.flow('X', "")
			return
		}
	}
}

// stmtFlags: the flags a statement may set on leaving abnormally.
func (f *fctx) stmtFlags(s ast.Stmt) []string {
	var r []string
	if f.fr.inline && hasReturn(s) {
		r = append(r, f.fr.retFlag)
	}
	if n := len(f.fr.jumps); n > 0 {
		switch s.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			// breaks inside target the statement itself; but a break flag of an
			// enclosing once-loop cannot be set from inside
		default:
			if j := f.fr.jumps[n-1]; j.flag != "" && hasBranch(s, token.BREAK) {
				r = append(r, j.flag)
			}
		}
	}
	return r
}

func (f *fctx) stmt(s ast.Stmt) {
	f.curPos = f.pos(s)
	multi, target := f.multi, f.target
	f.multi, f.target = f.realCalls(s) > 1, ""
	defer func() { f.multi, f.target = multi, target }()
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		f.stmts(x.List)
	case *ast.ExprStmt:
		if c, ok := unparen(x.X).(*ast.CallExpr); ok {
			f.call(c)
			return
		}
		f.expr(x.X)
	case *ast.AssignStmt:
		f.assign(x)
	case *ast.IncDecStmt:
		p := f.lvalue(x.X)
		t := f.typeOf(x.X)
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		one := "1int"
		if u := ubits(t); u > 0 {
			one = fmt.Sprintf("1u%d", u)
		}
		f.assignPlace(p, f.arith(op, p.read(), one, t, x))
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) > 0 && len(vs.Values) != len(vs.Names) {
				rs := f.call(unparen(vs.Values[0]).(*ast.CallExpr))
				for i, n := range vs.Names {
					f.declare(f.info().Defs[n], rs[i])
				}
				continue
			}
			for i, n := range vs.Names {
				o := f.info().Defs[n]
				if o == nil {
					if len(vs.Values) > 0 {
						f.evalAll(vs.Values[i : i+1])
					}
					continue
				}
				if len(vs.Values) > 0 {
					f.define(o, vs.Values[i])
					continue
				}
				f.declareZero(o)
			}
		}
	case *ast.ReturnStmt:
		f.ret(x)
	case *ast.IfStmt:
		f.ifStmt(x)
	case *ast.ForStmt:
		f.forStmt(x)
	case *ast.RangeStmt:
		f.rangeStmt(x)
	case *ast.SwitchStmt:
		f.switchStmt(x)
	case *ast.TypeSwitchStmt:
		f.typeSwitch(x)
	case *ast.BranchStmt:
		f.branch(x)
	default:
		unsup("statement %T at %s", s, f.pos(s))
	}
}

func (f *fctx) declareZero(o types.Object) {
	if n := namedOf(o.Type()); n != nil && f.t.inModule(n) && hasCell(f.t, n) {
		f.needCell(n)
	}
	f.noEv++
	f.declare(o, f.t.zero(o.Type()))
	f.noEv--
	if b := f.fr.vars[o]; b != nil && hasContainer(o.Type(), nil) {
		f.event('a', b.name, "")
	}
}

// define handles  x := e.
func (f *fctx) define(o types.Object, e ast.Expr) {
	e = unparen(e)
	if lit, ok := e.(*ast.FuncLit); ok {
		if sig := sigOf(o.Type()); f.t.fnTrait(sig) != "pure" {
			f.fr.vars[o] = &bind{name: "", ty: o.Type(), clo: &closure{lit: lit}, cloFr: f.fr}
			return
		}
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		if _, isLit := unparen(u.X).(*ast.CompositeLit); !isLit {
			p := f.addressed(u.X)
			f.guard(p)
			f.fr.vars[o] = &bind{name: p.root, ty: o.Type(), alias: &p}
			return
		}
	}
	if n := namedOf(o.Type()); n != nil && f.t.inModule(n) && hasCell(f.t, n) {
		f.needCell(n)
	}
	v := f.exprTo(e, o.Type())
	f.noEv++
	f.declare(o, v)
	f.noEv--
	if b := f.lookup(o); b != nil {
		f.evAssign(b.name, e, o.Type(), v)
	}
}

func (f *fctx) assign(x *ast.AssignStmt) {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
		t := f.typeOf(x.Lhs[0])
		if op == token.SHL || op == token.SHR {
			p := f.lvalue(x.Lhs[0])
			b := &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: x.Rhs[0], OpPos: x.Pos()}
			f.info().Types[b] = types.TypeAndValue{Type: t}
			f.assignPlace(p, f.binary(b))
			return
		}
		p := f.lvalue(x.Lhs[0])
		v := f.exprTo(x.Rhs[0], t)
		f.assignPlace(p, f.arith(op, p.read(), v, t, x))
		return
	}
	if len(x.Lhs) == len(x.Rhs) {
		if len(x.Lhs) == 1 {
			f.assign1(x.Lhs[0], x.Rhs[0], x.Tok == token.DEFINE)
			return
		}
		// operands first, then the assignments from left to right
		var vals []string
		places := f.targets(x)
		for i, e := range x.Rhs {
			t := f.lhsType(x.Lhs[i], e)
			vals = append(vals, f.freezeOf(f.exprTo(e, t), t, e))
		}
		for i, l := range x.Lhs {
			f.assignVal(l, vals[i], x.Tok == token.DEFINE, places[i])
		}
		return
	}
	// multi-value forms
	var vals []string
	places := f.targets(x)
	switch r := unparen(x.Rhs[0]).(type) {
	case *ast.CallExpr:
		vals = f.call(r)
	case *ast.IndexExpr:
		m := f.typeOf(r.X).Underlying().(*types.Map)
		b := f.hoistSeq(f.expr(r.X), f.typeOf(r.X))
		k := f.hoist(f.exprTo(r.Index, m.Key()), m.Key())
		vals = []string{fmt.Sprintf("go_map_get(%s, %s, %s)", b, k, f.t.zero(m.Elem())), fmt.Sprintf("%s.m.dom().contains(%s)", b, k)}
	case *ast.TypeAssertExpr:
		v := f.hoist(f.expr(r.X), f.typeOf(r.X))
		a, ok := f.typeAssert(v, f.typeOf(r.X), f.typeOf(r.Type))
		vals = []string{a, ok}
	default:
		unsup("multi-value assignment")
	}
	if tup, ok := f.info().Types[x.Rhs[0]].Type.(*types.Tuple); ok {
		for i := range vals {
			if f.isBlank(x.Lhs[i]) {
				continue
			}
			if lt := f.lhsType(x.Lhs[i], nil); lt != nil {
				vals[i] = f.coerce(vals[i], tup.At(i).Type(), lt)
			}
		}
	}
	// later values must not see earlier assignments
	for i := range vals {
		if !f.isBlank(x.Lhs[i]) {
			if lt := f.lhsType(x.Lhs[i], nil); lt != nil {
				if simpleVal(vals[i]) && isTemp(vals[i]) {
					continue
				}
				vals[i] = f.freeze(vals[i], lt)
			}
		}
	}
	for i, l := range x.Lhs {
		f.assignVal(l, vals[i], x.Tok == token.DEFINE, places[i])
	}
}

// targets evaluates the operands of the left side of a multiple assignment.
func (f *fctx) targets(x *ast.AssignStmt) []*place {
	r := make([]*place, len(x.Lhs))
	var roots []string
	for i, l := range x.Lhs {
		l = unparen(l)
		if _, ok := l.(*ast.Ident); ok {
			if !f.isBlank(l) && f.info().Defs[l.(*ast.Ident)] == nil {
				roots = append(roots, f.lvalue(l).root)
			}
			continue
		}
		p := f.addressed(l)
		r[i] = &p
	}
	for _, p := range r {
		if p != nil && contains(roots, p.root) {
			unsup("assignment to %s and a part of it", p.root)
		}
	}
	return r
}

func (f *fctx) isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (f *fctx) lhsType(l ast.Expr, r ast.Expr) types.Type {
	if f.isBlank(l) {
		if r != nil {
			return types.Default(f.typeOf(r))
		}
		return nil
	}
	if id, ok := l.(*ast.Ident); ok {
		if o := f.info().ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return f.typeOf(l)
}

func (f *fctx) assignVal(l ast.Expr, v string, def bool, to *place) {
	if f.isBlank(l) {
		return
	}
	if id, ok := l.(*ast.Ident); ok && def {
		if o := f.info().Defs[id]; o != nil {
			f.declare(o, v)
			return
		}
	}
	var p place
	if to != nil {
		p = *to
	} else {
		p = f.lvalue(l)
	}
	f.assignPlace(p, v)
	if hasContainer(p.typ(), nil) {
		f.evVal(p.path(len(p.elems)), v)
	}
}

func (f *fctx) assign1(l, r ast.Expr, def bool) {
	if f.isBlank(l) {
		f.evalAll([]ast.Expr{r})
		return
	}
	if id, ok := l.(*ast.Ident); ok && def {
		if o := f.info().Defs[id]; o != nil {
			f.define(o, r)
			return
		}
	}
	if sx, ok := l.(*ast.SelectorExpr); ok {
		if sel := f.info().Selections[sx]; sel != nil {
			if fv, ok := sel.Obj().(*types.Var); ok && isCellField(f.t, fv) {
				f.setCell(fv, r)
				return
			}
		}
	}
	if id, ok := l.(*ast.Ident); ok {
		if b := f.lookup(f.info().ObjectOf(id)); b != nil && (b.clo != nil || b.alias != nil && isPtr(b.ty)) {
			unsup("reassignment of %s", id.Name)
		}
	}
	// Go evaluates index operands of the target before the right side; the
	// operands have no side effects on each other here unless calls occur.
	t := f.typeOf(l)
	if f.realCalls(l) > 0 && f.realCalls(r) > 0 {
		p := f.addressed(l)
		v := f.exprTo(r, t)
		read := p.read()
		f.assignPlace(p, v)
		f.evAssignTo(p, read, r, t, v)
		return
	}
	if p, ok := f.placeOf(l); ok {
		f.target = p.path(len(p.elems))
	}
	v := f.exprTo(r, t)
	f.target = ""
	p := f.lvalue(l)
	read := p.read()
	f.assignPlace(p, v)
	f.evAssignTo(p, read, r, t, v)
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// ---- return -------------------------------------------------------------------------

func (f *fctx) ret(x *ast.ReturnStmt) {
	var vals []string
	rts := f.results
	named := f.fr.named
	if f.fr.inline {
		rts = f.fr.resT
	}
	switch {
	case len(x.Results) == 0 && len(rts) > 0:
		for _, o := range named {
			n := f.lookup(o).name
			if hasContainer(o.Type(), nil) {
				f.event('r', n, "")
			}
			vals = append(vals, n)
		}
	case len(x.Results) == 1 && len(rts) > 1:
		c := unparen(x.Results[0]).(*ast.CallExpr)
		vals = f.call(c)
		tup := f.info().Types[c].Type.(*types.Tuple)
		for i := range vals {
			vals[i] = f.coerce(vals[i], tup.At(i).Type(), rts[i])
		}
	default:
		for i, e := range x.Results {
			v := f.exprTo(e, rts[i])
			if len(rts) > 1 {
				v = f.hoistT(v, f.t.ty(rts[i]), rts[i])
			}
			vals = append(vals, v)
		}
	}
	f.returning = x
	defer func() { f.returning = nil }()
	if f.fr.inline {
		for i, v := range vals {
			f.ghostSet(f.fr.resVars[i], v)
			if hasContainer(rts[i], nil) {
				if i < len(x.Results) && len(x.Results) == len(rts) {
					f.evExpr(f.fr.resVars[i], x.Results[i], v)
				} else {
					f.evVal(f.fr.resVars[i], v)
				}
			}
		}
		f.ghostSet(f.fr.retFlag, "true")
		if f.inLoop() {
			f.emit("break;")
		}
		f.flow('K', f.fr.retFlag)
		return
	}
	if f.spec != nil && !f.inClosure {
		f.retN++
		for i, v := range vals {
			if !hasContainer(rts[i], nil) {
				continue
			}
			path := fmt.Sprintf("ret%d_%d", f.retN, i)
			f.curPos = f.pos(x)
			f.event('d', path, "")
			if len(x.Results) == len(rts) {
				f.evExpr(path, x.Results[i], v)
			} else {
				f.evVal(path, v)
			}
		}
		for i := range vals {
			if f.spec.fresh(i) && hasContainer(rts[i], nil) {
				f.event('f', fmt.Sprintf("ret%d_%d", f.retN, i), "")
			}
		}
	}
	f.emitReturn(vals)
}

func (f *fctx) hoistT(v, ty string, t types.Type) string {
	if simpleVal(v) {
		return v
	}
	n := f.tmp()
	f.emit("let ghost %s: %s = %s;", n, ty, v)
	f.evCopy(n, v, t)
	return n
}

// inLoop: is there a real loop inside the current frame.
func (f *fctx) inLoop() bool {
	for _, j := range f.fr.jumps {
		if j.loop {
			return true
		}
	}
	return false
}

// emitReturn leaves the generated function.
func (f *fctx) emitReturn(vals []string) {
	defer f.flow('R', "")
	exit := ""
	if f.spec != nil && !f.inClosure {
		exit = f.spec.Exit
	} else if f.fr0clo() != nil {
		exit = f.fr0clo().Exit
	}
	all := append([]string{}, vals...)
	for _, o := range f.outs {
		all = append(all, f.outVal(o))
	}
	if exit != "" {
		for i, v := range vals {
			n := "result"
			if len(f.results) > 1 {
				n = "result" + strconv.Itoa(i)
			}
			f.emit("let ghost %s: %s = %s;", n, f.t.ty(f.results[i]), v)
			all[i] = n
		}
		f.emitProof(f.specText(exit), "exit")
	}
	if f.smoke() {
		o := f.t.obl(f.key, "smoke", "exit", "must fail", "", "verus")
		f.emit("proof { assert(false); } /*@O %d*/", o.ID)
	}
	if f.inClosure {
		f.emit("return Ghost(%s);", f.cloRet(vals))
		return
	}
	for _, fr := range f.frameChecks {
		o := f.t.obl(f.key, "frame", "unchanged "+fr, fr+" is not modified", "", "verus")
		f.emit("proof { assert(%s == old_%s); } /*@O %d*/", fr, fr, o.ID)
	}
	switch len(all) {
	case 0:
		f.emit("return Ghost(());")
	case 1:
		f.emit("return Ghost(%s);", all[0])
	default:
		f.emit("return Ghost((%s));", strings.Join(all, ", "))
	}
}

func (f *fctx) smoke() bool { return f.t.smoke }

func (f *fctx) fr0clo() *ClosureSpec { return f.fr.clo }

func (f *fctx) outVal(o outParam) string {
	if o.obj != nil {
		if b := f.lookup(o.obj); b != nil && b.alias != nil && !b.param {
			return b.alias.read()
		}
	}
	return o.specName
}

// ---- if / switch ---------------------------------------------------------------------

func (f *fctx) ifStmt(x *ast.IfStmt) {
	if x.Init != nil {
		f.emit("{")
		f.ind++
		f.stmt(x.Init)
		defer func() { f.ind--; f.emit("}") }()
	}
	c := f.expr(x.Cond)
	f.emit("if cond(Ghost(%s)) {", c)
	f.flow('I', "")
	f.ind++
	f.stmts(x.Body.List)
	f.ind--
	if x.Else != nil {
		f.emit("} else {")
		f.flow('E', "")
		f.ind++
		if b, ok := x.Else.(*ast.BlockStmt); ok {
			f.stmts(b.List)
		} else {
			f.stmt(x.Else)
		}
		f.ind--
	}
	f.emit("}")
	f.flow('X', "")
}

func (f *fctx) pushJump(j jumpTarget) { f.fr.jumps = append(f.fr.jumps, j) }
func (f *fctx) popJump()              { f.fr.jumps = f.fr.jumps[:len(f.fr.jumps)-1] }

func (f *fctx) switchStmt(x *ast.SwitchStmt) {
	f.emit("{")
	f.ind++
	defer func() { f.ind--; f.emit("}") }()
	if x.Init != nil {
		f.stmt(x.Init)
	}
	tag := ""
	var tt types.Type
	if x.Tag != nil {
		tt = f.typeOf(x.Tag)
		if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			tt = types.Default(tt)
		}
		tag = f.hoist(f.exprTo(x.Tag, tt), tt)
	}
	j := jumpTarget{}
	if hasBreakIn(x.Body) {
		j.flag = f.tmp()
		f.emit("let ghost mut %s: bool = false;", j.flag)
	} else {
		j.flag = "false"
	}
	f.pushJump(j)
	defer f.popJump()
	var def *ast.CaseClause
	depth := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if x.Tag == nil {
				cs = append(cs, f.expr(e))
				continue
			}
			v := f.exprTo(e, tt)
			op := "=="
			if isString(tt) {
				op = "=~="
			}
			cs = append(cs, fmt.Sprintf("(%s %s %s)", tag, op, v))
		}
		f.emit("if cond(Ghost((%s))) {", strings.Join(cs, " || "))
		f.flow('I', "")
		f.ind++
		f.caseBody(cc.Body)
		f.ind--
		f.emit("} else {")
		f.flow('E', "")
		f.ind++
		depth++
	}
	if def != nil {
		f.caseBody(def.Body)
	}
	for ; depth > 0; depth-- {
		f.ind--
		f.emit("}")
		f.flow('X', "")
	}
}

func hasBreakIn(b *ast.BlockStmt) bool {
	for _, c := range b.List {
		for _, s := range c.(*ast.CaseClause).Body {
			if hasBranch(s, token.BREAK) {
				return true
			}
		}
	}
	return false
}

func (f *fctx) caseBody(list []ast.Stmt) {
	for _, s := range list {
		if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
			unsup("fallthrough")
		}
	}
	f.stmts(list)
}

func (f *fctx) typeSwitch(x *ast.TypeSwitchStmt) {
	f.emit("{")
	f.ind++
	defer func() { f.ind--; f.emit("}") }()
	if x.Init != nil {
		f.stmt(x.Init)
	}
	var ta *ast.TypeAssertExpr
	bound := false
	switch a := x.Assign.(type) {
	case *ast.ExprStmt:
		ta = unparen(a.X).(*ast.TypeAssertExpr)
	case *ast.AssignStmt:
		ta = unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
		bound = true
	}
	from := f.typeOf(ta.X)
	v := f.hoist(f.expr(ta.X), from)
	j := jumpTarget{flag: "false"}
	if hasBreakIn(x.Body) {
		j.flag = f.tmp()
		f.emit("let ghost mut %s: bool = false;", j.flag)
	}
	f.pushJump(j)
	defer f.popJump()
	var def *ast.CaseClause
	depth := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var cs []string
		val, vt := v, from
		for _, e := range cc.List {
			if isNilIdent(f.info(), e) {
				cs = append(cs, "("+v+" is Nil)")
				continue
			}
			tt := f.typeOf(e)
			a, ok := f.typeAssert(v, from, tt)
			cs = append(cs, ok)
			if len(cc.List) == 1 {
				val, vt = a, tt
			}
		}
		f.emit("if cond(Ghost((%s))) {", strings.Join(cs, " || "))
		f.flow('I', "")
		f.ind++
		if bound {
			if o := f.info().Implicits[cc]; o != nil {
				_ = vt
				f.declare(o, val)
			}
		}
		f.caseBody(cc.Body)
		f.ind--
		f.emit("} else {")
		f.flow('E', "")
		f.ind++
		depth++
	}
	if def != nil {
		if bound {
			if o := f.info().Implicits[def]; o != nil {
				f.declare(o, v)
			}
		}
		f.caseBody(def.Body)
	}
	for ; depth > 0; depth-- {
		f.ind--
		f.emit("}")
		f.flow('X', "")
	}
}

func (f *fctx) branch(x *ast.BranchStmt) {
	if x.Label != nil {
		unsup("labelled branch")
	}
	n := len(f.fr.jumps)
	switch x.Tok {
	case token.BREAK:
		if n == 0 {
			unsup("break outside of loop")
		}
		j := f.fr.jumps[n-1]
		if j.loop {
			f.emit("break;")
			f.flow('B', "")
			return
		}
		f.ghostSet(j.flag, "true")
	case token.CONTINUE:
		for i := n - 1; i >= 0; i-- {
			if f.fr.jumps[i].loop {
				if f.fr.jumps[i].end != nil {
					f.fr.jumps[i].end()
				}
				f.fr.jumps[i].post()
				f.emit("continue;")
				f.flow('C', "")
				return
			}
		}
		unsup("continue in a loop that runs at most once")
	default:
		unsup("%s", x.Tok)
	}
}

// ---- loops ----------------------------------------------------------------------------

var tokRe = regexp.MustCompile(`\b(idx|seq|ivar|len|key|left|arg)(\d+)\b`)

// specText substitutes loop placeholders and renamed locals.
var stateNowRe = regexp.MustCompile(`\bclo_(\d+)\(\)`)
var litRe = regexp.MustCompile(`\blit_(\d+)\(\)`)

func (f *fctx) specText(s string) string {
	if f.spec != nil {
		s = stateNowRe.ReplaceAllStringFunc(s, func(m string) string {
			if n, err := strconv.Atoi(m[4 : len(m)-2]); err == nil && n >= 1 && n <= len(f.lits) {
				return f.stateNow(n)
			}
			return m
		})
		s = litRe.ReplaceAllStringFunc(s, func(m string) string {
			if n, err := strconv.Atoi(m[4 : len(m)-2]); err == nil && n >= 1 && n <= len(f.lits) {
				return f.funcValue(f.lits[n-1])
			}
			return m
		})
	}
	s = tokRe.ReplaceAllStringFunc(s, func(m string) string {
		if v, ok := f.subst[m]; ok {
			return v
		}
		return m
	})
	for n, v := range f.globalNames {
		s = regexp.MustCompile(`(^|[^.\w])`+n+`\b`).ReplaceAllString(s, "${1}"+v)
	}
	return s
}

func (f *fctx) nextLoop() (int, *LoopSpec) {
	*f.fr.nloop++
	n := *f.fr.nloop
	var ls *LoopSpec
	if f.fr.clo != nil {
		ls = f.fr.clo.Loops[n]
	} else if f.spec != nil {
		ls = f.spec.Loops[n]
	}
	if ls == nil {
		ls = &LoopSpec{}
	}
	return n, ls
}

type loopHead struct {
	cond      string
	obls      []string
	lens      []string
	reads     []string // variables of the condition
	autoInv   []string
	autoDec   string
	n         int
	ls        *LoopSpec
	node      ast.Node
	isRange   bool
	condPure  bool
	pick      func() // before the hints at the start of the body
	body      func()
	post      func()
	bodyNode  ast.Node
	preGlobal []string
}

func (f *fctx) emitLoop(h *loopHead) {
	ls := h.ls
	if ls.Before != "" {
		f.emitProof(f.specText(ls.Before), fmt.Sprintf("loop %d", h.n))
	}
	for _, o := range h.obls {
		f.check(o, "safety", h.node, "loop condition: "+o)
	}
	dec := ls.Decreases
	if dec == "" {
		dec = h.autoDec
	}
	f.emit("#[verifier::loop_isolation(false)]")
	if dec == "" {
		f.emit("#[verifier::exec_allows_no_decreases_clause]")
		if f.spec == nil || !f.spec.Partial {
			o := f.t.obl(f.key, "termination", fmt.Sprintf("loop %d", h.n), "no measure", f.pos(h.node), "none")
			o.Failed = "no termination measure for this loop"
		}
	}
	flag := ""
	if f.fr.inline && hasReturn(h.bodyNode) {
		flag = f.fr.retFlag
		f.emit("#[verifier::allow_complex_invariants]")
	}
	// while cond(..) needs a condition without statements
	f.emit("while cond(Ghost(%s))", h.cond)
	f.ind++
	brk := hasBranch(h.bodyNode, token.BREAK) || flag != ""
	except := []string{}
	inv := append([]string{}, h.autoInv...)
	if flag != "" {
		except = append(except, "!"+flag)
	}
	if brk {
		if len(except) > 0 {
			f.emit("invariant_except_break")
			for _, e := range except {
				f.emit("    %s,", e)
			}
		}
	}
	if len(inv)+len(ls.Inv) > 0 {
		f.emit("invariant")
		for _, e := range inv {
			f.emit("    %s,", e)
		}
		for _, c := range ls.Inv {
			if !f.t.active(c) {
				continue
			}
			o := f.t.obl(f.key, "invariant", fmt.Sprintf("loop %d %s", h.n, c.Label), c.Text, f.pos(h.node), "verus")
			f.emitTagged(f.specText(c.Text)+",", o.ID)
		}
	}
	if brk {
		var ens []string
		if flag != "" && !hasBranch(h.bodyNode, token.BREAK) {
			ens = append(ens, fmt.Sprintf("%s || !(%s)", flag, h.cond))
		}
		if len(ens)+len(ls.Ens) > 0 {
			f.emit("ensures")
			for _, e := range ens {
				f.emit("    %s,", e)
			}
			for _, c := range ls.Ens {
				if !f.t.active(c) {
					continue
				}
				o := f.t.obl(f.key, "loop-ensures", fmt.Sprintf("loop %d %s", h.n, c.Label), c.Text, f.pos(h.node), "verus")
				f.emitTagged(f.specText(c.Text)+",", o.ID)
			}
		}
	}
	if dec != "" {
		o := f.t.obl(f.key, "termination", fmt.Sprintf("loop %d", h.n), dec, f.pos(h.node), "verus")
		f.emit("decreases")
		f.emitTagged("    "+f.specText(dec)+",", o.ID)
	}
	f.ind--
	f.emit("{")
	f.ind++
	f.pureLens = h.lens
	f.flushLens()
	if h.pick != nil {
		h.pick()
	}
	if ls.Begin != "" {
		f.emitProof(f.specText(ls.Begin), fmt.Sprintf("loop %d body", h.n))
	}
	end := func() {
		if ls.End != "" {
			f.emitProof(f.specText(ls.End), fmt.Sprintf("loop %d end", h.n))
		}
	}
	post := func() {
		if h.post != nil {
			h.post()
		}
		end()
		for _, o := range h.obls {
			f.check(o, "safety", h.node, "loop condition: "+o)
		}
	}
	f.pushJump(jumpTarget{loop: true, post: post})
	f.loopSeq++
	f.loopID = append(f.loopID, f.loopSeq)
	f.flow('L', "")
	for _, r := range h.reads {
		f.event('r', r, "")
	}
	if f.t.smoke {
		o := f.t.obl(f.key, "smoke", fmt.Sprintf("loop %d body", h.n), "must fail", "", "verus")
		f.emit("if cond(Ghost(smoke_nd(%dint))) { proof { assert(false); } /*@O %d*/ }", o.ID, o.ID)
	}
	h.body()
	if !exits(bodyBlock(h.bodyNode)) {
		post()
	}
	f.popJump()
	for _, r := range h.reads {
		f.event('r', r, "")
	}
	f.flow('M', "")
	f.loopID = f.loopID[:len(f.loopID)-1]
	f.ind--
	f.emit("}")
	if ls.After != "" {
		f.emitProof(f.specText(ls.After), fmt.Sprintf("after loop %d", h.n))
	}
	// leave enclosing loops of an inlined body after a return
	if flag != "" && f.inLoop() {
		f.emit("if cond(Ghost(%s)) { break; }", flag)
	}
}

func bodyBlock(n ast.Node) ast.Stmt { return n.(ast.Stmt) }

func (f *fctx) emitTagged(text string, id int) {
	for _, l := range strings.Split(text, "\n") {
		f.emit("%s", fmt.Sprintf("    %s /*@O %d*/", l, id))
	}
}

func onceBody(b *ast.BlockStmt) bool {
	return exits(b) && !hasBranch(b, token.CONTINUE)
}

func (f *fctx) forStmt(x *ast.ForStmt) {
	if x.Cond != nil && onceBody(x.Body) {
		// runs at most once: a structured jump
		f.emit("{")
		f.ind++
		if x.Init != nil {
			f.stmt(x.Init)
		}
		c := f.expr(x.Cond)
		flag := f.tmp()
		f.emit("let ghost mut %s: bool = false;", flag)
		f.emit("if cond(Ghost(%s)) {", c)
		f.flow('I', "")
		f.ind++
		f.pushJump(jumpTarget{flag: flag})
		f.stmts(x.Body.List)
		f.popJump()
		f.ind--
		f.emit("}")
		f.flow('X', "")
		f.ind--
		f.emit("}")
		return
	}
	if f.unrollFor(x) {
		return
	}
	n, ls := f.nextLoop()
	f.emit("{")
	f.ind++
	defer func() { f.ind--; f.emit("}") }()
	if x.Init != nil {
		f.stmt(x.Init)
	}
	h := &loopHead{n: n, ls: ls, node: x, bodyNode: x.Body}
	f.pickSubst(n, x)
	if x.Cond == nil {
		h.cond = "true"
	} else {
		v, obls, ok := f.tryPure(func() string { return f.expr(x.Cond) })
		if !ok {
			f.loopImpureCond(x, n, ls)
			return
		}
		h.cond, h.obls = v, obls
		h.lens = append([]string{}, f.pureLens...)
		h.reads = append([]string{}, f.pureReads...)
		if len(f.pureWrites) > 0 {
			unsup("append in a loop condition")
		}
		f.flushLens()
	}
	f.canonical(n, x, h)
	h.body = func() { f.stmts(x.Body.List) }
	if x.Post != nil {
		h.post = func() { f.stmt(x.Post) }
	}
	f.emitLoop(h)
}

// loopImpureCond: for C {B} with an effectful C becomes
// for { c := C; if !c {break}; B }.
func (f *fctx) loopImpureCond(x *ast.ForStmt, n int, ls *LoopSpec) {
	c := f.tmp()
	f.emit("let ghost mut %s: bool = true;", c)
	body := &ast.BlockStmt{List: x.Body.List}
	h := &loopHead{n: n, ls: ls, node: x, bodyNode: x.Body, cond: c}
	_ = body
	h.body = func() {
		f.ghostSet(c, f.expr(x.Cond))
		f.emit("if cond(Ghost(%s)) {", c)
		f.flow('I', "")
		f.ind++
		f.stmts(x.Body.List)
		if !exits(x.Body) && x.Post != nil {
			f.stmt(x.Post)
		}
		f.ind--
		f.emit("}")
		f.flow('X', "")
	}
	if hasBranch(x.Body, token.CONTINUE) && x.Post != nil {
		unsup("continue in a loop with an effectful condition")
	}
	f.emitLoop(h)
}

func isConstExpr(info *types.Info, e ast.Expr) bool { return info.Types[e].Value != nil }

// pickSubst maps ivarN to the variable of the loop.
func (f *fctx) pickSubst(n int, x *ast.ForStmt) {
	var id *ast.Ident
	if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 {
		id, _ = a.Lhs[0].(*ast.Ident)
	}
	if id == nil {
		if p, ok := x.Post.(*ast.IncDecStmt); ok {
			id, _ = p.X.(*ast.Ident)
		}
	}
	if id != nil {
		if b := f.lookup(f.info().ObjectOf(id)); b != nil && b.alias == nil {
			f.subst["ivar"+strconv.Itoa(n)] = b.name
		}
	}
}

// canonical recognises  for i := a; i < n; i++  and  i--  loops.
func (f *fctx) canonical(n int, x *ast.ForStmt, h *loopHead) {
	post, ok := x.Post.(*ast.IncDecStmt)
	if !ok {
		return
	}
	id, ok := post.X.(*ast.Ident)
	if !ok {
		return
	}
	o := f.info().ObjectOf(id)
	b := f.lookup(o)
	if b == nil || b.alias != nil || ubits(o.Type()) > 0 || assignedIn(f.info(), x.Body.List, o) {
		return
	}
	be, ok := unparen(x.Cond).(*ast.BinaryExpr)
	if !ok {
		return
	}
	l, lok := unparen(be.X).(*ast.Ident)
	if !lok || f.info().ObjectOf(l) != o {
		return
	}
	k := strconv.Itoa(n)
	lim, obls, ok := f.tryPure(func() string { return f.exprTo(be.Y, o.Type()) })
	if !ok || len(obls) > 0 && x.Cond == nil { // the condition itself has these obligations
		return
	}
	if post.Tok == token.INC && (be.Op == token.LSS || be.Op == token.NEQ) {
		f.subst["idx"+k] = b.name
		f.subst["len"+k] = "(" + lim + ")"
		f.subst["left"+k] = "(" + lim + " - " + b.name + ")"
		if c, ok := unparen(be.Y).(*ast.CallExpr); ok {
			if fid, ok := c.Fun.(*ast.Ident); ok && fid.Name == "len" {
				if s, _, ok := f.tryPure(func() string { return f.expr(c.Args[0]) }); ok {
					f.subst["seq"+k] = "(" + s + ")"
				}
			}
		}
		lo := ""
		if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
			if v, obls, ok := f.tryPure(func() string { return f.exprTo(a.Rhs[0], o.Type()) }); ok && len(obls) == 0 && isConstInt(v) {
				lo = strings.TrimSuffix(v, "int")
			}
		}
		if lo == "" {
			lo = f.tmp()
			f.emit("let ghost %s: int = %s;", lo, b.name)
		}
		h.autoInv = append(h.autoInv, fmt.Sprintf("%s <= %s", lo, b.name))
		h.autoInv = append(h.autoInv, fmt.Sprintf("%s <= %s || %s == %s", b.name, lim, b.name, lo))
		if sq := f.subst["seq"+k]; sq != "" && len(h.ls.Inv) == 0 {
			if inv := f.searchInv(x.Body, o, nil, func(j string) string { return sq + "[" + j + "]" }, lo, b.name); inv != "" {
				h.autoInv = append(h.autoInv, inv)
			}
		}
		h.autoDec = fmt.Sprintf("%s - %s", lim, b.name)
		if be.Op == token.NEQ {
			h.autoDec = fmt.Sprintf("if %s <= %s { %s - %s } else { 0int }", b.name, lim, lim, b.name)
		}
	}
	if post.Tok == token.DEC && (be.Op == token.GEQ || be.Op == token.GTR) && isConstInt(lim) {
		f.subst["ivar"+k] = b.name
		f.subst["left"+k] = "(" + b.name + " - (" + lim + "))"
		if be.Op == token.GEQ {
			f.subst["left"+k] = "(" + b.name + " - (" + lim + ") + 1)"
		}
		h.autoDec = fmt.Sprintf("%s - (%s) + 1", b.name, lim)
		lo := lim
		if be.Op == token.GEQ {
			lo = lim + " - 1"
		}
		{
			// the start value can be below the limit; then the loop does not run
			init := f.tmp()
			f.emit("let ghost %s: int = %s;", init, b.name)
			h.autoInv = append(h.autoInv, fmt.Sprintf("%s <= %s", b.name, init), fmt.Sprintf("%s <= %s || %s == %s", lo, b.name, b.name, init))
		}
	}
}

func isConstInt(s string) bool {
	s = strings.TrimSuffix(s, "int")
	if s == "" {
		return false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// rangeCur is a loop over a container: seq is what it was at the start. Only the
// element of the current round may be written meanwhile.
type rangeCur struct {
	seq, path, key string
	keyObj         types.Object
	elems          bool
}

func (f *fctx) rangeOver(sq string, base types.Type, src string, x *ast.RangeStmt) *rangeCur {
	c := &rangeCur{seq: sq}
	if _, ok := base.Underlying().(*types.Array); ok {
		return c
	}
	f.event('d', sq, "")
	f.evVal(sq, src)
	c.elems = x.Value != nil && !f.isBlank(x.Value)
	if q, ok := valuePath(src); ok {
		c.path = q
	}
	if id, ok := x.Key.(*ast.Ident); ok && x.Tok == token.DEFINE {
		if o := f.info().Defs[id]; o != nil && !assignedIn(f.info(), x.Body.List, o) {
			c.keyObj = o
		}
	}
	return c
}

func (f *fctx) inRange(c *rangeCur, body func()) {
	if c.keyObj != nil && c.path != "" {
		if b := f.lookup(c.keyObj); b != nil {
			c.key = b.name
			f.ranges = append(f.ranges, *c)
			defer func() { f.ranges = f.ranges[:len(f.ranges)-1] }()
		}
	}
	body()
}

func (f *fctx) rangeStmt(x *ast.RangeStmt) {
	if f.unrollRange(x) {
		return
	}
	n, ls := f.nextLoop()
	k := strconv.Itoa(n)
	xt := f.typeOf(x.X)
	f.emit("{")
	f.ind++
	defer func() { f.ind--; f.emit("}") }()
	h := &loopHead{n: n, ls: ls, node: x, bodyNode: x.Body}
	setVar := func(e ast.Expr, v string) {
		if e == nil || f.isBlank(e) {
			return
		}
		f.assignVal(e, v, x.Tok == token.DEFINE, nil)
	}
	base := xt
	var src string
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		base = p.Elem()
		src = f.derefPlaceR(x.X, x).read()
	} else if isInt(xt) {
		src = f.exprTo(x.X, types.Typ[types.Int])
	} else {
		src = f.expr(x.X)
	}
	idx := f.fresh("idx" + k)
	f.subst["idx"+k] = idx
	switch u := base.Underlying().(type) {
	case *types.Slice, *types.Array:
		sq := f.fresh("seq" + k)
		f.emit("let ghost %s: %s = %s;", sq, f.t.ty(base), src)
		cur := f.rangeOver(sq, base, src, x)
		f.subst["seq"+k] = sq
		f.subst["ivar"+k] = idx
		if p, ok := unparen(x.X).(*ast.SliceExpr); ok && p.Low != nil && isConstExpr(f.info(), p.Low) {
			// the position in the whole
			f.subst["ivar"+k] = "(" + idx + " + " + f.exprTo(p.Low, types.Typ[types.Int]) + ")"
		}
		f.subst["left"+k] = "(" + sq + ".len() - " + idx + ")"
		f.subst["len"+k] = "(" + sq + ".len() as int)"
		f.emit("let ghost mut %s: int = 0;", idx)
		if _, ok := u.(*types.Slice); ok {
			f.emit("proof { assume(%s.len() <= GO_MAXLEN); } /*@A*/", sq)
			f.t.assumes = append(f.t.assumes, f.key+": no container has more than 2^56 elements")
			h.autoInv = append(h.autoInv, fmt.Sprintf("%s.len() <= GO_MAXLEN", sq))
		}
		h.cond = fmt.Sprintf("%s < %s.len()", idx, sq)
		h.autoInv = append(h.autoInv, fmt.Sprintf("0 <= %s <= %s.len()", idx, sq))
		h.autoDec = fmt.Sprintf("%s.len() - %s", sq, idx)
		if len(ls.Inv) == 0 && x.Tok == token.DEFINE {
			def := func(e ast.Expr) types.Object {
				if id, ok := e.(*ast.Ident); ok {
					return f.info().Defs[id]
				}
				return nil
			}
			if inv := f.searchInv(x.Body, def(x.Key), def(x.Value), func(j string) string { return sq + "[" + j + "]" }, "0", idx); inv != "" {
				h.autoInv = append(h.autoInv, inv)
			}
		}
		h.body = func() {
			if cur.elems {
				f.event('r', sq, "")
			}
			setVar(x.Key, idx)
			setVar(x.Value, sq+"["+idx+"]")
			f.inRange(cur, func() { f.stmts(x.Body.List) })
		}
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			unsup("range over %s", xt)
		}
		lim := f.hoistInt(src)
		f.subst["len"+k] = lim
		f.subst["ivar"+k] = idx
		f.subst["left"+k] = "(" + lim + " - " + idx + ")"
		f.emit("let ghost mut %s: int = 0;", idx)
		h.cond = fmt.Sprintf("%s < %s", idx, lim)
		h.autoInv = []string{fmt.Sprintf("0 <= %s && (%s <= %s || %s == 0)", idx, idx, lim, idx)}
		h.autoDec = fmt.Sprintf("%s - %s", lim, idx)
		h.body = func() {
			setVar(x.Key, idx)
			f.stmts(x.Body.List)
		}
	case *types.Map:
		// every iteration takes some key not visited yet
		sq := f.fresh("seq" + k)
		f.emit("let ghost %s: %s = %s;", sq, f.t.ty(base), src)
		cur := f.rangeOver(sq, base, src, x)
		f.subst["seq"+k] = sq
		kt := f.t.ty(u.Key())
		f.emit("let ghost mut %s: Set<%s> = %s.m.dom();", idx, kt, sq)
		h.cond = fmt.Sprintf("%s.len() > 0", idx)
		h.autoInv = []string{fmt.Sprintf("%s.subset_of(%s.m.dom())", idx, sq)}
		h.autoDec = fmt.Sprintf("%s.len()", idx)
		key := f.tmp()
		h.pick = func() {
			f.emit("let Ghost(%s) = go_pick::<%s>(Ghost(%s));", key, kt, idx)
			f.subst["key"+k] = key
		}
		h.body = func() {
			f.event('r', sq, "")
			setVar(x.Key, key)
			setVar(x.Value, fmt.Sprintf("%s.m[%s]", sq, key))
			f.inRange(cur, func() { f.stmts(x.Body.List) })
		}
		h.post = func() { f.ghostSet(idx, fmt.Sprintf("%s.remove(%s)", idx, key)) }
		f.emitLoop(h)
		return
	default:
		unsup("range over %s", xt)
	}
	h.post = func() { f.ghostSet(idx, idx+" + 1") }
	f.emitLoop(h)
}
