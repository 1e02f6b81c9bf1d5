package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (f *fctx) constVal(v constant.Value, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return seqLit(constant.StringVal(v))
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprint(constant.BoolVal(v))
		case u.Info()&types.IsInteger != 0:
			iv := constant.ToInt(v)
			if n := ubits(u); n > 0 {
				return fmt.Sprintf("%su%d", iv.ExactString(), n)
			}
			if constant.Sign(iv) < 0 {
				return fmt.Sprintf("(%sint)", iv.ExactString())
			}
			return iv.ExactString() + "int"
		}
	}
	unsup("constant of type %s", t)
	return ""
}

// exprTo evaluates e converted to type to (interface wrapping).
func (f *fctx) exprTo(e ast.Expr, to types.Type) string {
	if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
		if _, isNil := f.info().Uses[id].(*types.Nil); isNil {
			return f.t.zero(to)
		}
	}
	tv := f.info().Types[e]
	if tv.Value != nil {
		tt := to
		if _, isI := to.Underlying().(*types.Interface); isI {
			tt = types.Default(tv.Type)
			return f.coerce(f.constVal(tv.Value, tt), tt, to)
		}
		return f.constVal(tv.Value, tt)
	}
	return f.coerce(f.expr(e), f.typeOf(e), to)
}

func (f *fctx) coerce(v string, from, to types.Type) string {
	if types.Identical(from, to) || isError(from) && isError(to) {
		return v
	}
	ti, ok := to.Underlying().(*types.Interface)
	if !ok {
		return v
	}
	if _, fromI := from.Underlying().(*types.Interface); fromI {
		if ti.Empty() {
			unsup("interface %s to any", from)
		}
		if f.t.ty(from) == f.t.ty(to) {
			return v
		}
		unsup("interface conversion %s to %s", from, to)
	}
	if isError(to) {
		unsup("custom error type %s", from)
	}
	n, isN := types.Unalias(to).(*types.Named)
	if isN && f.t.inModule(n) {
		if f.t.visitorIface(n) {
			return "Some(" + v + ")"
		}
		fn, ok := types.Unalias(from).(*types.Named)
		if !ok {
			unsup("conversion of %s to %s", from, to)
		}
		f.t.ty(to)
		return fmt.Sprintf("%s::%s(%s)", f.t.namedName(n), rn(fn.Obj().Name()), v)
	}
	unsup("conversion of %s to %s", from, to)
	return ""
}

// intExpr evaluates an index-like expression as int.
func (f *fctx) intExpr(e ast.Expr) string {
	t := f.typeOf(e)
	v := f.exprTo(e, t)
	if ubits(t) > 0 {
		return "(" + v + " as int)"
	}
	return v
}

func (f *fctx) expr(e ast.Expr) string {
	tv := f.info().Types[e]
	if tv.Value != nil {
		return f.constVal(tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.expr(x.X)
	case *ast.Ident:
		return f.ident(x)
	case *ast.BinaryExpr:
		return f.binary(x)
	case *ast.UnaryExpr:
		return f.unary(x)
	case *ast.SelectorExpr:
		return f.selector(x)
	case *ast.IndexExpr:
		return f.index(x)
	case *ast.SliceExpr:
		return f.slice(x)
	case *ast.StarExpr:
		return f.derefPlaceR(x.X, x).read()
	case *ast.CallExpr:
		rs := f.call(x)
		if len(rs) != 1 {
			unsup("call with %d results as value", len(rs))
		}
		if f.multi && f.pure == 0 && f.realCall(x) {
			return f.freezeOf(rs[0], f.typeOf(x), x)
		}
		return rs[0]
	case *ast.CompositeLit:
		return f.composite(x, f.typeOf(x))
	case *ast.TypeAssertExpr:
		v, ok := f.typeAssert(f.expr(x.X), f.typeOf(x.X), f.typeOf(x.Type))
		f.check(ok, "type-assertion", x, "dynamic type matches")
		return v
	case *ast.FuncLit:
		return f.funcValue(x)
	}
	unsup("expression %T at %s", e, f.pos(e))
	return ""
}

// derefPlaceR is derefPlace for reading; the operand may be any expression.
func (f *fctx) derefPlaceR(e ast.Expr, n ast.Node) place {
	switch p := e.(type) {
	case *ast.ParenExpr:
		return f.derefPlaceR(p.X, n)
	case *ast.Ident, *ast.SelectorExpr, *ast.UnaryExpr:
		pl := f.derefPlace(e, n)
		f.reads(pl.root)
		return pl
	}
	pt := f.typeOf(e).Underlying().(*types.Pointer)
	v := f.hoist(f.expr(e), pt)
	f.check(v+" is Some", "nil-deref", n, "pointer is not nil")
	return place{root: v, rootT: pt, elems: []pelem{{kind: 'o', after: pt.Elem()}}}
}

// reads records that a variable is read.
func (f *fctx) reads(n string) {
	switch {
	case n == "":
	case f.pure == 0:
		f.event('r', n, "")
	default:
		f.pureReads = append(f.pureReads, n)
	}
}

func (f *fctx) ident(x *ast.Ident) string {
	if x.Name == "nil" {
		unsup("untyped nil at %s", f.pos(x))
	}
	o := f.info().ObjectOf(x)
	if b := f.lookup(o); b != nil {
		if hasContainer(b.ty, nil) {
			n := b.name
			if n == "" && b.alias != nil {
				n = b.alias.root
			}
			f.reads(n)
		}
		if b.clo != nil {
			unsup("function literal as value")
		}
		if b.alias != nil {
			if _, isP := b.ty.Underlying().(*types.Pointer); isP {
				return "Some(" + b.alias.read() + ")"
			}
			return b.alias.read()
		}
		return b.name
	}
	if v, ok := o.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
		return f.t.globalVar(f, v)
	}
	if fn, ok := o.(*types.Func); ok {
		return f.funcObjValue(fn)
	}
	unsup("identifier %s", x.Name)
	return ""
}

func (f *fctx) arith(op token.Token, a, b string, t types.Type, n ast.Node) string {
	if isString(t) && op == token.ADD {
		return fmt.Sprintf("(%s + %s)", a, b)
	}
	if u := ubits(t); u > 0 {
		ut := fmt.Sprintf("u%d", u)
		switch op {
		case token.ADD:
			return fmt.Sprintf("add(%s, %s)", a, b)
		case token.SUB:
			return fmt.Sprintf("sub(%s, %s)", a, b)
		case token.MUL:
			return fmt.Sprintf("go_mul_u%d(%s, %s)", u, a, b)
		case token.QUO:
			f.check(b+" != 0", "div-zero", n, "divisor is not zero")
			return fmt.Sprintf("((%s / %s) as %s)", a, b, ut)
		case token.REM:
			f.check(b+" != 0", "div-zero", n, "divisor is not zero")
			return fmt.Sprintf("((%s %% %s) as %s)", a, b, ut)
		case token.AND:
			return fmt.Sprintf("(%s & %s)", a, b)
		case token.OR:
			return fmt.Sprintf("(%s | %s)", a, b)
		case token.XOR:
			return fmt.Sprintf("(%s ^ %s)", a, b)
		case token.AND_NOT:
			return fmt.Sprintf("(%s & (!%s))", a, b)
		}
	}
	if s := sbits(t); s > 0 {
		r := ""
		switch op {
		case token.ADD:
			r = fmt.Sprintf("(%s + %s)", a, b)
		case token.SUB:
			r = fmt.Sprintf("(%s - %s)", a, b)
		case token.MUL:
			r = fmt.Sprintf("(%s * %s)", a, b)
		case token.QUO:
			f.check(b+" != 0", "div-zero", n, "divisor is not zero")
			return fmt.Sprintf("go_div(%s, %s)", a, b)
		case token.REM:
			f.check(b+" != 0", "div-zero", n, "divisor is not zero")
			return fmt.Sprintf("go_rem(%s, %s)", a, b)
		default:
			unsup("operator %s on signed integers", op)
		}
		f.check(fmt.Sprintf("go_in_i%d(%s)", s, r), "overflow", n, "no overflow in "+r)
		return r
	}
	unsup("operator %s on %s", op, t)
	return ""
}

func (f *fctx) binary(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		a := f.expr(x.X)
		v, obls, ok := f.tryPure(func() string { return f.expr(x.Y) })
		if ok {
			f.flushLens()
		}
		if ok {
			g := "(" + a + ")"
			if x.Op == token.LOR {
				g = "!" + g
			}
			f.addPureObls(g, obls, x)
			if x.Op == token.LAND {
				return fmt.Sprintf("((%s) && (%s))", a, v)
			}
			return fmt.Sprintf("((%s) || (%s))", a, v)
		}
		t := f.tmp()
		f.emit("let ghost mut %s: bool = %s;", t, a)
		g := t
		if x.Op == token.LOR {
			g = "!" + t
		}
		f.emit("if cond(Ghost(%s)) {", g)
		f.flow('I', "")
		f.ind++
		f.ghostSet(t, f.expr(x.Y))
		f.ind--
		f.emit("}")
		f.flow('X', "")
		return t
	case token.SHL, token.SHR:
		t := f.typeOf(x.X)
		a := f.expr(x.X)
		n := f.intExpr(x.Y)
		u := ubits(t)
		if u == 0 {
			unsup("shift of signed integer")
		}
		op := "<<"
		if x.Op == token.SHR {
			op = ">>"
		}
		cv := f.info().Types[x.Y]
		if cv.Value != nil {
			return fmt.Sprintf("((%s %s %su%d) as u%d)", a, op, constant.ToInt(cv.Value).ExactString(), u, u)
		}
		f.check(fmt.Sprintf("0 <= %s < %d", n, u), "shift", x, "shift count in range")
		if ubits(f.typeOf(x.Y)) > 0 {
			n = strings.TrimSuffix(strings.TrimPrefix(n, "("), " as int)")
		}
		return fmt.Sprintf("((%s %s ((%s) as u%d)) as u%d)", a, op, n, u, u)
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return f.compare(x)
	}
	t := f.typeOf(x)
	a := f.exprTo(x.X, t)
	b := f.exprTo(x.Y, t)
	return f.arith(x.Op, a, b, t, x)
}

func isNilIdent(info *types.Info, e ast.Expr) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	_, isNil := info.Uses[id].(*types.Nil)
	return isNil
}

func (f *fctx) compare(x *ast.BinaryExpr) string {
	l, r := x.X, x.Y
	if isNilIdent(f.info(), l) {
		l, r = r, l
	}
	if isNilIdent(f.info(), r) {
		lt := f.typeOf(l)
		v := f.expr(l)
		var c string
		switch u := lt.Underlying().(type) {
		case *types.Interface:
			if isError(lt) {
				c = fmt.Sprintf("(%s is Nil)", v)
			} else if u.Empty() {
				c = fmt.Sprintf("(%s is Nil)", v)
			} else if vn, ok := types.Unalias(lt).(*types.Named); ok && f.t.visitorIface(vn) {
				c = fmt.Sprintf("(%s is None)", v)
			} else {
				c = fmt.Sprintf("(%s is Nil)", v)
			}
		case *types.Pointer:
			c = fmt.Sprintf("(%s is None)", v)
		case *types.Map:
			c = fmt.Sprintf("(%s.isnil)", v)
		case *types.Slice:
			// a sequence does not tell nil from empty: either may be meant
			n := f.tmp()
			f.emit("let Ghost(%s) = go_havoc::<bool>();", n)
			c = fmt.Sprintf("(%s && (%s).len() == 0)", n, v)
		default:
			unsup("comparison of %s with nil", lt)
		}
		if x.Op == token.NEQ {
			return "(!" + c + ")"
		}
		return c
	}
	lt, rt := f.typeOf(l), f.typeOf(r)
	t := lt
	if f.info().Types[l].Value != nil {
		t = rt
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	_, li := lt.Underlying().(*types.Interface)
	_, ri := rt.Underlying().(*types.Interface)
	if li != ri && li {
		t = lt
	} else if li != ri && ri {
		t = rt
	}
	a := f.exprTo(l, t)
	b := f.exprTo(r, t)
	if isError(t) && !f.t.allocMode(f.fi) {
		unsup("comparison of error values")
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		op := "=="
		if isString(t) {
			op = "=~="
		} else {
			switch t.Underlying().(type) {
			case *types.Basic:
			case *types.Interface:
				if !isError(t) {
					n, ok := types.Unalias(t).(*types.Named)
					if !ok || !f.t.inModule(n) || f.t.visitorIface(n) || hasCell(f.t, n) {
						unsup("comparison of %s", t)
					}
					for _, im := range f.t.implementers(n, t.Underlying().(*types.Interface)) {
						if !plainComparable(im) {
							unsup("comparison of %s", t)
						}
					}
					// types from elsewhere may compare as they like, or panic
					f.check(fmt.Sprintf("!(%s is Other && %s is Other)", a, b), "compare", x, "compared values are of known types")
				}
			case *types.Pointer:
				unsup("comparison of pointers")
			case *types.Struct, *types.Array:
				if !plainComparable(t) {
					unsup("comparison of %s", t)
				}
				op = "=~="
			default:
				unsup("comparison of %s", t)
			}
		}
		if x.Op == token.EQL {
			return fmt.Sprintf("(%s %s %s)", a, op, b)
		}
		return fmt.Sprintf("(!(%s %s %s))", a, op, b)
	}
	if !isInt(t) {
		unsup("ordering of %s", t)
	}
	return fmt.Sprintf("(%s %s %s)", a, x.Op, b)
}

// plainComparable: equal values are those with equal contents.
func plainComparable(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainComparable(u.Field(i).Type()) || u.Field(i).Name() == "_" {
				return false
			}
		}
		return true
	case *types.Array:
		return plainComparable(u.Elem())
	}
	return false
}

func (f *fctx) unary(x *ast.UnaryExpr) string {
	switch x.Op {
	case token.NOT:
		return "(!(" + f.expr(x.X) + "))"
	case token.SUB:
		t := f.typeOf(x)
		return f.arith(token.SUB, f.t.zero(t), f.expr(x.X), t, x)
	case token.ADD:
		return f.expr(x.X)
	case token.XOR:
		if ubits(f.typeOf(x)) > 0 {
			return "(!" + f.expr(x.X) + ")"
		}
	case token.AND:
		if c, ok := x.X.(*ast.CompositeLit); ok {
			return "Some(" + f.composite(c, f.typeOf(c)) + ")"
		}
		return "Some(" + f.expr(x.X) + ")"
	}
	unsup("unary %s on %s", x.Op, f.typeOf(x.X))
	return ""
}

func (f *fctx) selector(x *ast.SelectorExpr) string {
	sel := f.info().Selections[x]
	if sel == nil { // package-qualified
		o := f.info().Uses[x.Sel]
		switch v := o.(type) {
		case *types.Var:
			return f.t.globalVar(f, v)
		case *types.Func:
			return f.funcObjValue(v)
		}
		unsup("selector %s", x.Sel.Name)
	}
	if sel.Kind() != types.FieldVal {
		return f.methodValue(x, sel)
	}
	if len(sel.Index()) != 1 {
		unsup("embedded field %s", x.Sel.Name)
	}
	fv := sel.Obj().(*types.Var)
	if isCellField(f.t, fv) {
		return fmt.Sprintf("%s.%s", f.cells, rn(fv.Name()))
	}
	bt := f.typeOf(x.X)
	if _, isP := bt.Underlying().(*types.Pointer); isP {
		return f.derefPlaceR(x.X, x).read() + "." + rn(x.Sel.Name)
	}
	return f.atom(f.expr(x.X)) + "." + rn(x.Sel.Name)
}

func (f *fctx) atom(s string) string {
	for _, c := range s {
		if !(c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return "(" + s + ")"
		}
	}
	return s
}

func (f *fctx) index(x *ast.IndexExpr) string {
	bt := f.typeOf(x.X)
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
		b := f.derefPlaceR(x.X, x).read()
		i := f.hoistInt(f.intExpr(x.Index))
		f.check(fmt.Sprintf("0 <= %s < %s.len()", i, b), "bounds", x, "index in range")
		return b + "[" + i + "]"
	}
	b := f.atom(f.expr(x.X))
	if m, ok := bt.Underlying().(*types.Map); ok {
		k := f.exprTo(x.Index, m.Key())
		return fmt.Sprintf("go_map_get(%s, %s, %s)", b, k, f.t.zero(m.Elem()))
	}
	i := f.hoistInt(f.intExpr(x.Index))
	f.check(fmt.Sprintf("0 <= %s < %s.len()", i, b), "bounds", x, "index in range")
	return b + "[" + i + "]"
}

func (f *fctx) goLen(v string) string {
	l := f.atom(v) + ".len()"
	if f.pure == 0 {
		f.emit("proof { assume(%s <= GO_MAXLEN); } /*@A*/", l)
		f.t.assumes = append(f.t.assumes, f.key+": no container has more than 2^56 elements")
	}
	if f.pure > 0 {
		f.pureLens = append(f.pureLens, l)
	}
	return "(" + l + " as int)"
}

func (f *fctx) slice(x *ast.SliceExpr) string {
	if x.Slice3 {
		unsup("three-index slice")
	}
	b := f.hoistSeq(f.expr(x.X), f.typeOf(x.X))
	lo, hi := "0int", "("+b+".len() as int)"
	if x.Low != nil {
		lo = f.hoistInt(f.intExpr(x.Low))
	}
	if x.High != nil {
		hi = f.hoistInt(f.intExpr(x.High))
	}
	f.check(fmt.Sprintf("0 <= %s <= %s <= %s.len()", lo, hi, b), "bounds", x, "slice bounds in range")
	return fmt.Sprintf("%s.subrange(%s, %s)", b, lo, hi)
}

func (f *fctx) hoistSeq(v string, t types.Type) string {
	if f.pure > 0 {
		return f.atom(v)
	}
	if f.atom(v) == v {
		return v
	}
	return f.hoist(v, t)
}

func (f *fctx) composite(x *ast.CompositeLit, t types.Type) string {
	t = f.t.anon(t)
	if n, ok := t.(*types.Named); ok && !f.t.inModule(n) {
		if len(x.Elts) == 0 {
			return f.t.zero(t)
		}
		unsup("literal of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return "Some(" + f.composite(x, u.Elem()) + ")"
	case *types.Struct:
		n, ok := t.(*types.Named)
		if !ok {
			if u.NumFields() == 0 {
				return "()"
			}
			unsup("anonymous struct")
		}
		name := f.t.ty(t)
		vals := map[string]string{}
		for i, el := range x.Elts {
			var fv *types.Var
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				fv = f.info().Uses[kv.Key.(*ast.Ident)].(*types.Var)
				v = kv.Value
			} else {
				fv = u.Field(i)
			}
			if isCellField(f.t, fv) {
				if f.cells == "" {
					f.needCell(n)
				}
				f.setCell(fv, v)
				continue
			}
			vals[fv.Name()] = f.elemExpr(v, fv.Type())
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			if isCellField(f.t, fl) {
				continue
			}
			v, ok := vals[fl.Name()]
			if !ok {
				v = f.t.zero(fl.Type())
			}
			fs = append(fs, rn(fl.Name())+": "+v)
		}
		return name + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice, *types.Array:
		var el types.Type
		n := int64(-1)
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
			n = u.(*types.Array).Len()
		}
		var vs []string
		for _, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				unsup("keyed array literal")
			}
			vs = append(vs, f.elemExpr(e, el))
		}
		if n >= 0 && int64(len(vs)) < n {
			for int64(len(vs)) < n {
				vs = append(vs, f.t.zero(el))
			}
		}
		if len(vs) == 0 {
			return "Seq::<" + f.t.ty(el) + ">::empty()"
		}
		return seqOf(vs)
	case *types.Map:
		v := "GoMap::<" + f.t.ty(u.Key()) + ", " + f.t.ty(u.Elem()) + ">::new_map()"
		for _, e := range x.Elts {
			kv := e.(*ast.KeyValueExpr)
			v += ".put(" + f.elemExpr(kv.Key, u.Key()) + ", " + f.elemExpr(kv.Value, u.Elem()) + ")"
		}
		return v
	}
	unsup("composite literal of %s", t)
	return ""
}

// elemExpr handles elided types in nested literals.
func (f *fctx) elemExpr(e ast.Expr, t types.Type) string {
	if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
		return f.composite(c, t)
	}
	return f.exprTo(e, t)
}

// typeAssert gives value and success condition of v.(to).
func (f *fctx) typeAssert(v string, from, to types.Type) (string, string) {
	if from.Underlying().(*types.Interface).Empty() {
		return f.anyAssert(v, to)
	}
	fn, ok := types.Unalias(from).(*types.Named)
	tn, ok2 := types.Unalias(to).(*types.Named)
	if !ok || !ok2 || !f.t.inModule(fn) || !f.t.inModule(tn) {
		unsup("type assertion %s to %s", from, to)
	}
	if _, isI := tn.Underlying().(*types.Interface); isI {
		unsup("type assertion to interface")
	}
	f.t.ty(from)
	vn := rn(tn.Obj().Name())
	en := f.t.namedName(fn)
	z := f.t.zero(to)
	return fmt.Sprintf("(match %s { %s::%s(x_) => x_, _ => %s })", v, en, vn, z), fmt.Sprintf("(%s is %s)", v, vn)
}

func (f *fctx) anyAssert(v string, to types.Type) (string, string) {
	to = types.Unalias(to)
	if p, ok := to.(*types.Pointer); ok && stdName(p.Elem()) == "bytes.Buffer" {
		return fmt.Sprintf("(match %s { GoAny::Buffer(x_) => x_, _ => Option::<Seq<u8>>::None })", v), fmt.Sprintf("(%s is Buffer)", v)
	}
	if stdName(to) == "io.Reader" {
		return fmt.Sprintf("(go_any_reader(%s))", v), fmt.Sprintf("(%s is Reader || %s is Buffer)", v, v)
	}
	if b, ok := to.(*types.Basic); ok && b.Kind() == types.String {
		return fmt.Sprintf("(match %s { GoAny::Str(x_) => x_, _ => Seq::<u8>::empty() })", v), fmt.Sprintf("(%s is Str)", v)
	}
	if s, ok := to.(*types.Slice); ok {
		if b, ok := s.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return fmt.Sprintf("(match %s { GoAny::Bytes(x_) => x_, _ => Seq::<u8>::empty() })", v), fmt.Sprintf("(%s is Bytes)", v)
		}
	}
	unsup("type assertion of any to %s", to)
	return "", ""
}
