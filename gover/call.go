package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func sigOf(t types.Type) *types.Signature {
	s, _ := t.Underlying().(*types.Signature)
	return s
}

// call evaluates a call and returns one expression per result.
func (f *fctx) call(x *ast.CallExpr) []string {
	fun := unparen(x.Fun)
	if tv := f.info().Types[fun]; tv.IsType() {
		return []string{f.convert(x.Args[0], tv.Type, x)}
	}
	if x.Ellipsis != token.NoPos {
		if id, ok := fun.(*ast.Ident); !ok || id.Name != "append" {
			// only variadic forwarding to a module function is understood
			if f.staticCallee(fun) == nil {
				unsup("call with ...")
			}
		}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := f.info().Uses[id].(*types.Builtin); ok {
			return f.builtin(b.Name(), x)
		}
	}
	if lit, ok := fun.(*ast.FuncLit); ok {
		return f.inlineLit(lit, f.fr, x)
	}
	// local closure or function parameter
	if id, ok := fun.(*ast.Ident); ok {
		if v, ok := f.info().ObjectOf(id).(*types.Var); ok {
			return f.callVar(v, x)
		}
	}
	if sx, ok := fun.(*ast.SelectorExpr); ok {
		if sel := f.info().Selections[sx]; sel != nil && sel.Kind() == types.FieldVal {
			return f.callField(sx, sel, x)
		}
	}
	fn := f.staticCallee(fun)
	if fn == nil {
		unsup("call of %T", fun)
	}
	sx, _ := fun.(*ast.SelectorExpr)
	if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
		if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
			return f.callIface(fn, sx, x)
		}
	}
	if fi := f.t.w.ByObj[fn]; fi != nil {
		return f.callFunc(fi, sx, x)
	}
	return f.callStd(fn, sx, x)
}

func (f *fctx) staticCallee(fun ast.Expr) *types.Func {
	switch v := fun.(type) {
	case *ast.Ident:
		fn, _ := f.info().Uses[v].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := f.info().Uses[v.Sel].(*types.Func)
		return fn
	}
	return nil
}

// ---- conversions and builtins -----------------------------------------------

func (f *fctx) convert(e ast.Expr, to types.Type, n ast.Node) string {
	from := f.typeOf(e)
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return f.t.zero(to)
	}
	if tv := f.info().Types[e]; tv.Value != nil && isInt(to) {
		return f.constVal(tv.Value, to)
	}
	if isInt(from) && isInt(to) {
		v := f.exprTo(e, from)
		return f.convInt(v, from, to, n)
	}
	if isInt(from) && isString(to) {
		unsup("conversion of integer to string")
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return f.exprTo(e, to)
	}
	v := f.exprTo(e, from)
	if f.t.ty(from) != f.t.ty(to) {
		unsup("conversion of %s to %s", from, to)
	}
	return v
}

func (f *fctx) convInt(v string, from, to types.Type, n ast.Node) string {
	fu, tu := ubits(from), ubits(to)
	switch {
	case fu > 0 && tu > 0:
		if fu == tu {
			return v
		}
		return fmt.Sprintf("((%s) as u%d)", v, tu)
	case fu > 0:
		r := fmt.Sprintf("((%s) as int)", v)
		if fu >= sbits(to) {
			f.check(fmt.Sprintf("go_in_i%d(%s)", sbits(to), r), "overflow", n, "conversion does not wrap")
		}
		return r
	case tu > 0:
		return fmt.Sprintf("go_to_u%d(%s)", tu, v)
	default:
		if sbits(to) < sbits(from) {
			f.check(fmt.Sprintf("go_in_i%d(%s)", sbits(to), v), "overflow", n, "conversion does not wrap")
		}
		return v
	}
}

func (f *fctx) args(x *ast.CallExpr, ts []types.Type) []string {
	var r []string
	for i, a := range x.Args {
		r = append(r, f.exprTo(a, ts[i]))
	}
	return r
}

func (f *fctx) builtin(name string, x *ast.CallExpr) []string {
	switch name {
	case "len":
		t := f.typeOf(x.Args[0])
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			v := f.atom(f.expr(x.Args[0]))
			if f.pure == 0 {
				f.emit("proof { assume(go_map_len(%s) <= GO_MAXLEN); } /*@A*/", v)
				f.t.assumes = append(f.t.assumes, f.key+": no container has more than 2^56 elements")
			}
			return []string{"go_map_len(" + v + ")"}
		case *types.Array:
			return []string{fmt.Sprintf("%dint", u.Len())}
		}
		return []string{f.goLen(f.hoistSeq(f.expr(x.Args[0]), t))}
	case "append":
		t := f.typeOf(x)
		el := t.Underlying().(*types.Slice).Elem()
		b := f.exprTo(x.Args[0], t)
		if len(x.Args) > 1 {
			f.appendPart(x.Args[0])
		}
		if len(x.Args) > 1 {
			f.appendWrites(sliceBase(x.Args[0]))
		}
		if len(x.Args) == 1 {
			return []string{b}
		}
		if x.Ellipsis != token.NoPos {
			return []string{fmt.Sprintf("(%s + %s)", f.atom(b), f.atom(f.exprTo(x.Args[1], f.typeOf(x.Args[1]))))}
		}
		v := f.atom(b)
		for _, a := range x.Args[1:] {
			v += ".push(" + f.exprTo(a, el) + ")"
		}
		return []string{v}
	case "make":
		t := f.typeOf(x)
		switch u := t.Underlying().(type) {
		case *types.Map:
			for _, a := range x.Args[1:] {
				f.intExpr(a)
			}
			return []string{"GoMap::<" + f.t.ty(u.Key()) + ", " + f.t.ty(u.Elem()) + ">::new_map()"}
		case *types.Slice:
			n := f.hoistInt(f.intExpr(x.Args[1]))
			f.check("0 <= "+n, "makeslice", x, "length is not negative")
			if len(x.Args) > 2 {
				c := f.hoistInt(f.intExpr(x.Args[2]))
				f.check(n+" <= "+c, "makeslice", x, "length within capacity")
			}
			return []string{fmt.Sprintf("go_make::<%s>(%s, %s)", f.t.ty(u.Elem()), n, f.t.zero(u.Elem()))}
		}
	case "new":
		return []string{"Some(" + f.t.zero(f.typeOf(x.Args[0])) + ")"}
	case "panic":
		f.expr(x.Args[0])
		f.emitPanic(x, "panic is unreachable")
		return nil
	case "delete":
		p := f.lvalue(x.Args[0])
		m := f.typeOf(x.Args[0]).Underlying().(*types.Map)
		k := f.exprTo(x.Args[1], m.Key())
		f.event('w', p.path(len(p.elems)), "")
		f.assignPlaceNoCheck(p, fmt.Sprintf("%s.del(%s)", p.read(), k))
		return nil
	case "copy":
		dst, lo := x.Args[0], "0int"
		var p place
		if s, ok := unparen(dst).(*ast.SliceExpr); ok && s.High == nil && s.Low != nil {
			p = f.lvalue(s.X)
			lo = f.hoistInt(f.intExpr(s.Low))
			f.check(fmt.Sprintf("0 <= %s <= %s.len()", lo, p.read()), "bounds", x, "slice bounds")
		} else {
			p = f.lvalue(dst)
		}
		st := f.typeOf(x.Args[1])
		src := f.hoistSeq(f.exprTo(x.Args[1], st), st)
		n := f.hoistInt(fmt.Sprintf("go_min(%s.len() - %s, %s.len() as int)", p.read(), lo, src))
		f.event('w', p.path(len(p.elems)), "")
		f.assignPlaceNoCheck(p, fmt.Sprintf("go_copy(%s, %s, %s)", p.read(), lo, src))
		if el, ok := p.typ().Underlying().(*types.Slice); ok && hasContainer(el.Elem(), nil) {
			if q, ok := valuePath(src); ok {
				f.event('c', p.path(len(p.elems))+".[]", q+".[]")
			} else {
				f.foreign(p.path(len(p.elems))+".[]", nil, src)
			}
		}
		return []string{n}
	case "min", "max":
		t := f.typeOf(x)
		if sbits(t) > 0 && ubits(t) == 0 {
			v := f.exprTo(x.Args[0], t)
			for _, a := range x.Args[1:] {
				v = fmt.Sprintf("go_%s(%s, %s)", name, v, f.exprTo(a, t))
			}
			return []string{v}
		}
	}
	unsup("builtin %s", name)
	return nil
}

func sliceBase(e ast.Expr) ast.Expr {
	e = unparen(e)
	for {
		s, ok := e.(*ast.SliceExpr)
		if !ok {
			return e
		}
		e = unparen(s.X)
	}
}

func (f *fctx) emitPanic(n ast.Node, text string) {
	if f.pure > 0 {
		*f.pureObl = append(*f.pureObl, "false")
		return
	}
	o := f.t.obl(f.key, "panic", "panic", text, f.pos(n), "verus")
	f.emit("proof { assert(false); } /*@O %d*/", o.ID)
}

func (f *fctx) assignPlaceNoCheck(p place, val string) {
	f.checkGuards(p)
	f.evWrite(p)
	f.ghostSet(p.root, f.placeWrite(p, val))
}

// ---- closures -------------------------------------------------------------------

// callVar calls a local function variable or a function parameter.
func (f *fctx) callVar(v *types.Var, x *ast.CallExpr) []string {
	b := f.lookup(v)
	if b == nil {
		unsup("call of package variable %s", v.Name())
	}
	sig := sigOf(v.Type())
	if b.clo != nil {
		return f.inlineLit(b.clo.lit, b.cloFr, x)
	}
	name := b.name
	if b.alias != nil {
		name = b.alias.read()
	}
	return f.callFnVal(sig, name, func(nv string) {
		if b.alias != nil {
			f.assignPlaceNoCheck(*b.alias, nv)
		} else {
			f.ghostSet(b.name, nv)
		}
	}, x)
}

// callFnVal calls a function value held in ghost state.
func (f *fctx) callFnVal(sig *types.Signature, val string, set func(string), x *ast.CallExpr) []string {
	var args []string
	for i, a := range x.Args {
		args = append(args, f.hoist(f.exprTo(a, sig.Params().At(i).Type()), sig.Params().At(i).Type()))
	}
	tr := f.t.fnTrait(sig)
	if tr == "pure" {
		return []string{"(" + val + ")(" + strings.Join(args, ", ") + ")"}
	}
	if tr == "" {
		unsup("function type %s", sigKey(sig))
	}
	if f.pure > 0 {
		panic(notPure{})
	}
	as := ""
	for _, a := range args {
		as += ", Ghost(" + a + ")"
	}
	t := f.tmp()
	o := f.t.obl(f.key, "precondition", "closure-pre", "precondition of function value", f.pos(x), "verus")
	f.emit("let Ghost(%s) = %s::call(Ghost(%s)%s); /*@O %d*/", t, f.fnGeneric, val, as, o.ID)
	if sig.Results().Len() == 0 {
		set(t)
		return nil
	}
	var res []string
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, fmt.Sprintf("%s.%d", t, i))
	}
	set(fmt.Sprintf("%s.%d", t, sig.Results().Len()))
	return res
}

// callField calls a function held in a struct field.
func (f *fctx) callField(sx *ast.SelectorExpr, sel *types.Selection, x *ast.CallExpr) []string {
	fv := sel.Obj().(*types.Var)
	sig := sigOf(fv.Type())
	if isCellField(f.t, fv) {
		p := f.lvalue(sx)
		return f.callFnVal(sig, p.read(), func(nv string) { f.assignPlaceNoCheck(p, nv) }, x)
	}
	if f.t.fnTrait(sig) != "pure" {
		unsup("call of field %s", fv.Name())
	}
	return f.callFnVal(sig, f.expr(sx), nil, x)
}

// inlineLit inlines a function literal at its call.
func (f *fctx) inlineLit(lit *ast.FuncLit, fr *frame, x *ast.CallExpr) []string {
	sig := sigOf(fr.info.Types[lit].Type)
	var args []string
	for i, a := range x.Args {
		args = append(args, f.exprTo(a, sig.Params().At(i).Type()))
	}
	nf := &frame{parent: fr, vars: map[types.Object]*bind{}, fi: fr.fi, info: fr.info, inline: true, nloop: f.fr.nloop, spec: f.fr.spec, clo: f.fr.clo}
	return f.inlineBody(nf, lit.Type, lit.Body, nil, nil, "", args, sig, lit)
}

// ---- module functions ---------------------------------------------------------------

func paramObjs(info *types.Info, ft *ast.FuncType) []types.Object {
	var os []types.Object
	for _, fl := range ft.Params.List {
		if len(fl.Names) == 0 {
			os = append(os, nil)
		}
		for _, n := range fl.Names {
			os = append(os, info.Defs[n])
		}
	}
	return os
}

// contractOf is the contract used at calls of fi (nil: inline).
func (t *Tr) contractOf(fi *FuncInfo) *FuncSpec {
	s := t.ss.Funcs[fi.Key]
	if s == nil || s.Inline {
		return nil
	}
	sig := fi.Obj.Type().(*types.Signature)
	n := sig.Params().Len()
	if sig.Recv() != nil {
		n++
	}
	if n != len(s.Params) {
		return nil
	}
	if s.Sig != "" && s.Sig != t.sigText(fi) {
		return nil
	}
	if !fi.Obj.Exported() && len(s.Loops) == 0 && s.SpecFn == "" && t.sigChanged(fi) {
		return nil
	}
	s.maybeModifies(sig)
	return s
}

// sigChanged: the function was written with other parameters or results than
// its contract, pointers aside.
func (t *Tr) sigChanged(fi *FuncInfo) bool {
	old := t.w.shape[strings.TrimPrefix(fi.Pkg.Types.Path(), t.w.Module)]
	if old == nil {
		return false
	}
	name := strings.TrimPrefix(funcKeyIn(fi.Pkg, fi.Decl), "*")
	was, ok := old.Funcs[name]
	if !ok {
		if was, ok = old.Funcs["*"+name]; !ok {
			return false
		}
	}
	now := sigText(fi.Pkg, fi.Obj.Type().(*types.Signature))
	return strings.ReplaceAll(was.Sig, "*", "") != strings.ReplaceAll(now, "*", "")
}

// maybeModifies: "@modifies ?p" counts where p is a pointer.
func (s *FuncSpec) maybeModifies(sig *types.Signature) {
	var ms []string
	for _, m := range s.Modifies {
		if !strings.HasPrefix(m, "?") {
			ms = append(ms, m)
			continue
		}
		i := 0
		isPtr := func(v *types.Var) {
			_, ok := v.Type().Underlying().(*types.Pointer)
			if p := s.Params[i]; ok && (m[1:] == p || strings.HasPrefix(m[1:], p+".")) {
				ms = append(ms, m[1:])
			}
			i++
		}
		if sig.Recv() != nil {
			isPtr(sig.Recv())
		}
		for k := 0; k < sig.Params().Len(); k++ {
			isPtr(sig.Params().At(k))
		}
	}
	s.Modifies = ms
}

// sigText is the translated signature; a contract with @sig applies only to
// functions that still have it.
func (t *Tr) sigText(fi *FuncInfo) string {
	sig := fi.Obj.Type().(*types.Signature)
	q := func(p *types.Package) string { return p.Name() }
	r := ""
	if sig.Recv() != nil {
		r = types.TypeString(sig.Recv().Type(), q) + ": "
	}
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, types.TypeString(sig.Params().At(i).Type(), q))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, types.TypeString(sig.Results().At(i).Type(), q))
	}
	return r + "(" + strings.Join(ps, ", ") + ") (" + strings.Join(rs, ", ") + ")"
}

func (s *FuncSpec) modifies(name string) bool {
	for _, m := range s.Modifies {
		if m == name || strings.HasPrefix(m, name+".") {
			return true
		}
	}
	return false
}

// modifiesWhole: the whole parameter, not some fields of it.
func (s *FuncSpec) modifiesWhole(name string) bool {
	for _, m := range s.Modifies {
		if m == name {
			return true
		}
	}
	return false
}

type carg struct {
	val   string
	place *place
	clo   *closure
	fnSet func(string)
}

func (f *fctx) callFunc(fi *FuncInfo, sx *ast.SelectorExpr, x *ast.CallExpr) []string {
	sig := fi.Obj.Type().(*types.Signature)
	sp := f.t.contractOf(fi)
	if sp == nil || (f.pure > 0 && sp.SpecFn == "") {
		if f.pure > 0 && sp != nil {
			panic(notPure{})
		}
		return f.inlineCall(fi, sx, x)
	}
	f.t.need(fi.Key)
	sp.used = true
	f.callN[fi.Key]++
	callNo := f.callN[fi.Key]
	// receiver and arguments
	type pt struct {
		name string
		ty   types.Type
	}
	var ps []pt
	var cargs []carg
	pi := 0
	addArg := func(e ast.Expr, pty types.Type, recv bool) {
		name := sp.Params[pi]
		pi++
		ps = append(ps, pt{name, pty})
		if ptr, ok := pty.Underlying().(*types.Pointer); ok {
			var p place
			if recv {
				if _, isP := f.typeOf(e).Underlying().(*types.Pointer); isP {
					p = f.derefPlace(e, x)
				} else {
					p = f.lvalueOrTmp(e)
				}
			} else {
				p = f.derefPlace(e, x)
			}
			_ = ptr
			f.reads(p.root)
			cargs = append(cargs, carg{val: p.read(), place: &p})
			return
		}
		if s := sigOf(pty); s != nil && f.t.fnTrait(s) != "pure" {
			cargs = append(cargs, f.fnArg(e))
			return
		}
		if recv {
			if _, isP := f.typeOf(e).Underlying().(*types.Pointer); isP {
				cargs = append(cargs, carg{val: f.derefPlaceR(e, x).read()})
				return
			}
		}
		v := f.exprTo(e, pty)
		c := carg{}
		if sp.modifies(name) {
			p := f.lvalueOrTmp(e)
			c.place = &p
		} else {
			v = f.hoist(v, pty)
		}
		c.val = v
		cargs = append(cargs, c)
	}
	if sig.Recv() != nil {
		if sx == nil {
			unsup("method value call")
		}
		sel := f.info().Selections[sx]
		if len(sel.Index()) != 1 {
			unsup("promoted method")
		}
		addArg(sx.X, sig.Recv().Type(), true)
	}
	np := sig.Params().Len()
	for i := 0; i < np; i++ {
		pty := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 && x.Ellipsis == token.NoPos {
			el := pty.(*types.Slice).Elem()
			vs := []string{}
			for _, a := range x.Args[i:] {
				vs = append(vs, f.exprTo(a, el))
			}
			v := "Seq::<" + f.t.ty(el) + ">::empty()"
			for _, a := range vs {
				v += ".push(" + a + ")"
			}
			ps = append(ps, pt{sp.Params[pi], pty})
			pi++
			cargs = append(cargs, carg{val: f.hoist(v, pty)})
			continue
		}
		addArg(x.Args[i], pty, false)
	}
	if f.pure > 0 { // a contract that names a spec function is usable inside expressions
		var as []string
		for _, c := range cargs {
			as = append(as, c.val)
		}
		*f.pureObl = append(*f.pureObl, "true")
		return []string{sp.SpecFn + "(" + strings.Join(as, ", ") + ")"}
	}
	{
		var names []string
		var tys []types.Type
		for _, p := range ps {
			names = append(names, p.name)
			tys = append(tys, p.ty)
		}
		f.checkOverlap(sp, names, cargs, tys)
	}
	for i, c := range cargs {
		f.subst["arg"+strconv.Itoa(i)] = "(" + c.val + ")"
	}
	f.hints("before", fi.Key, callNo)
	as := []string{}
	gen := ""
	for i, c := range cargs {
		if s := sigOf(ps[i].ty); s != nil && f.t.fnTrait(s) != "pure" {
			if c.clo != nil {
				gen = c.clo.name
			} else {
				gen = f.fnGeneric
			}
		}
		as = append(as, "Ghost("+c.val+")")
	}
	world := f.t.worldOf(fi)
	if world != "" {
		if !strings.Contains(f.t.visTy, "VT") && f.cells == "" {
			unsup("call of %s without a visitor", fi.Key)
		}
		switch {
		case world != "VT":
			gen = f.fnGeneric
		case strings.Contains(f.t.visTy, "VT"):
			gen = "VT"
		default:
			gen = "Vis_" + f.t.namedName(f.cellT) + "<" + f.fnGeneric + ">"
			f.t.emitVis(f.cellT)
		}
		as = append(as, "Ghost(w_)")
	}
	if sp.hasAlloc() {
		if !f.alloc {
			unsup("call of allocating %s", fi.Key)
		}
		as = append(as, "Ghost(al_)")
	}
	t := f.tmp()
	tag := ""
	if len(sp.Requires) > 0 {
		var txt []string
		for _, r := range sp.Requires {
			txt = append(txt, r.Text)
		}
		o := f.t.obl(f.key, "precondition", "call of "+fi.Key, strings.Join(txt, " && "), f.pos(x), "verus")
		tag = fmt.Sprintf(" /*@O %d*/", o.ID)
	}
	if gen != "" {
		gen = "::<" + gen + ">"
	}
	if f.t.recursive(fi, f.fi) {
		o := f.t.obl(f.key, "termination", "recursive call of "+fi.Key, sp.Decreases, f.pos(x), "verus")
		tag += fmt.Sprintf(" /*@O %d*/", o.ID)
	}
	f.emit("let Ghost(%s) = %s%s(%s);%s", t, mangle(fi.Key), gen, strings.Join(as, ", "), tag)
	// results and outs
	n := 0
	total := sig.Results().Len()
	var outIdx []int
	for i := range ps {
		if isOut(f.t, sp, ps[i].name, ps[i].ty) {
			outIdx = append(outIdx, i)
			total++
		}
	}
	if sp.hasAlloc() {
		total++
	}
	if world != "" {
		total++
	}
	comp := func() string {
		s := t
		if total > 1 {
			s = fmt.Sprintf("%s.%d", t, n)
		}
		n++
		return s
	}
	var res []string
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, comp())
	}
	for _, i := range outIdx {
		v := comp()
		switch {
		case cargs[i].fnSet != nil:
			cargs[i].fnSet(v)
		case cargs[i].place != nil:
			pl := *cargs[i].place
			f.checkGuards(pl)
			if sp.modifiesWhole(ps[i].name) || pl.inContainer() {
				f.evWrite(pl)
			} else {
				f.event('v', pl.path(len(pl.elems)), "")
			}
			f.ghostSet(pl.root, f.placeWrite(pl, v))
		}
	}
	if world != "" {
		f.ghostSet("w_", comp())
	}
	var gone []string
	for i := range ps {
		for k, m := range append(append([]string{}, sp.Modifies...), sp.Owns...) {
			if !pathPrefix(ps[i].name, m) {
				continue
			}
			kind, path := byte('W'), ""
			if k >= len(sp.Modifies) {
				kind = 'O'
			}
			if cargs[i].place != nil {
				pl := *cargs[i].place
				if !hasContainer(pl.typ(), nil) && !f.params[pl.root] {
					continue
				}
				path = pl.path(len(pl.elems))
			} else if q, ok := valuePath(cargs[i].val); ok {
				path = q
			} else {
				f.event('W', "U_unknown", "")
				continue
			}
			path += m[len(ps[i].name):]
			f.event(kind, path, "")
			if kind == 'O' {
				gone = append(gone, path)
			}
			// the callee may read its other arguments afterwards, and (@keeps) keep them
			for j, c := range cargs {
				if j == i || c.val == "" || sigOf(ps[j].ty) != nil || !hasContainer(ps[j].ty, nil) {
					continue
				}
				f.event('r', c.val, "")
				if sp.Keeps && mayShare(ps[i].ty, ps[j].ty) {
					f.event('m', path, c.val)
				}
			}
		}
	}
	for i := range res {
		rt := sig.Results().At(i).Type()
		switch {
		case !hasContainer(rt, nil):
		case sp.fresh(i):
			f.event('a', res[i], "")
		default:
			f.event('n', res[i], "")
			for j, c := range cargs {
				if c.val != "" && sigOf(ps[j].ty) == nil && mayShare(rt, ps[j].ty) {
					f.event('m', res[i], c.val)
				}
			}
		}
	}
	for _, p := range gone {
		f.event('o', p, "")
	}
	if sp.hasAlloc() {
		f.ghostSet("al_", comp())
	}
	f.hintsRes("after", fi.Key, callNo, t)
	return res
}

// worldOf tells whether a function threads a visitor's world: "VT" for any
// visitor, else the name of the handle struct.
func (t *Tr) worldOf(fi *FuncInfo) string {
	sig := fi.Obj.Type().(*types.Signature)
	if sig.Recv() != nil {
		if n := namedOf(sig.Recv().Type()); n != nil && hasCell(t, n) {
			return t.namedName(n)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if n := namedOf(sig.Params().At(i).Type()); n != nil && t.visitorIface(n) {
			return "VT"
		}
	}
	return ""
}

// emitVis makes a handle struct an instance of the abstract visitor: its method
// is the translated one, its relation comes from the spec modules.
func (t *Tr) emitVis(n *types.Named) {
	nm := t.namedName(n)
	if t.typeDone["Vis_"+nm] {
		return
	}
	t.typeDone["Vis_"+nm] = true
	var key string
	for k, fi := range t.w.Funcs {
		sig := fi.Obj.Type().(*types.Signature)
		if sig.Recv() != nil && namedOf(sig.Recv().Type()) == n && fi.Obj.Name() == "Visit" {
			key = k
		}
	}
	if key == "" || t.ss.Funcs[key] == nil {
		unsup("no contract for the visitor %s", nm)
	}
	t.need(key)
	t.visOut = append(t.visOut, fmt.Sprintf(`pub struct Vis_%[1]s<F> { f: F }
impl<F: %[2]s> cst_Visitor_Tr for Vis_%[1]s<F> {
    type V = %[1]s;
    type W = %[1]s_cell<F>;
    open spec fn vpre(v: Self::V, n: cst_Node, w: Self::W) -> bool { vis_pre_%[1]s::<F>(v, n, w) }
    open spec fn vpost(v: Self::V, n: cst_Node, w: Self::W, w2: Self::W, r: Option<Self::V>) -> bool { vis_post_%[1]s::<F>(v, n, w, w2, r) }
    fn go_Visit(Ghost(v): Ghost<Self::V>, Ghost(n): Ghost<cst_Node>, Ghost(w): Ghost<Self::W>) -> (ret: Ghost<(Self::W, Option<Self::V>)>)
    {
        let Ghost(t) = %[3]s::<F>(Ghost(v), Ghost(n), Ghost(w));
        Ghost((t.1, t.0))
    }
}
`, nm, t.cellTrait(n), mangle(key)))
}

func (s *FuncSpec) hasAlloc() bool {
	for _, a := range s.Attrs {
		if a == "alloc" {
			return true
		}
	}
	return false
}

// isOut tells whether a parameter has an <p>_out result.
func isOut(t *Tr, sp *FuncSpec, name string, ty types.Type) bool {
	if s := sigOf(ty); s != nil {
		return t.fnTrait(s) != "pure"
	}
	return sp.modifies(name)
}

func (f *fctx) hints(where, key string, n int) {
	f.hintsRes(where, key, n, "")
}

func (f *fctx) hintsRes(where, key string, n int, res string) {
	for _, h := range f.curHints() {
		if h.Where == where && h.Call == key && (h.N == 0 || h.N == n) {
			txt := f.specText(h.Text)
			if res != "" {
				txt = strings.ReplaceAll(txt, "res_", res)
			}
			f.emitProof(txt, "hint "+where+" "+key)
		}
	}
}

func (f *fctx) curHints() []Hint {
	if f.fr.clo != nil {
		return f.fr.clo.Hints
	}
	if f.spec != nil {
		return f.spec.Hints
	}
	return nil
}

// emitProof emits a proof block supplied by a contract.
func (f *fctx) emitProof(text, label string) {
	text = strings.TrimSpace(text)
	if text == "" {
		return
	}
	o := f.t.obl(f.key, "lemma", label, "proof steps of the contract", "", "verus")
	lines := strings.Split(text, "\n")
	// lines "let ghost x = e;" go outside the proof block
	var body []string
	for _, l := range lines {
		if strings.HasPrefix(strings.TrimSpace(l), "let ghost ") {
			f.emit("%s", fmt.Sprintf("%s /*@O %d*/", strings.TrimSpace(l), o.ID))
			continue
		}
		body = append(body, l)
	}
	if len(body) == 0 {
		return
	}
	f.emit("proof { /*@O %d*/", o.ID)
	for _, l := range body {
		if strings.TrimSpace(l) != "" {
			f.emit("%s", fmt.Sprintf("    %s /*@O %d*/", l, o.ID))
		}
	}
	f.emit("}")
}

// fnArg prepares a function-typed argument: a closure state.
func (f *fctx) fnArg(e ast.Expr) carg {
	e = unparen(e)
	if lit, ok := e.(*ast.FuncLit); ok {
		return f.closureState(lit, f.fr)
	}
	if id, ok := e.(*ast.Ident); ok {
		b := f.lookup(f.info().ObjectOf(id))
		if b == nil {
			unsup("function %s as value", id.Name)
		}
		if b.clo != nil {
			return f.closureState(b.clo.lit, b.cloFr)
		}
		if b.alias != nil {
			al := *b.alias
			return carg{val: al.read(), fnSet: func(v string) { f.assignPlaceNoCheck(al, v) }}
		}
		return carg{val: b.name, fnSet: func(v string) { f.ghostSet(b.name, v) }}
	}
	unsup("function argument %T", e)
	return carg{}
}

// inlineCall inlines a module function.
func (f *fctx) inlineCall(fi *FuncInfo, sx *ast.SelectorExpr, x *ast.CallExpr) []string {
	if f.depth > 12 {
		unsup("recursive call of %s without contract", fi.Key)
	}
	f.t.inlined[fi.Key] = true
	guards := len(f.guards)
	defer func() { f.guards = f.guards[:guards] }()
	sig := fi.Obj.Type().(*types.Signature)
	nf := &frame{vars: map[types.Object]*bind{}, fi: fi, info: fi.Pkg.Info, inline: true, nloop: f.fr.nloop, spec: f.fr.spec, clo: f.fr.clo}
	var recvObj types.Object
	var recvPlace *place
	recvVal := ""
	if sig.Recv() != nil {
		if sx == nil {
			unsup("method expression")
		}
		if len(f.info().Selections[sx].Index()) != 1 {
			unsup("promoted method")
		}
		if l := fi.Decl.Recv.List[0]; len(l.Names) > 0 {
			recvObj = fi.Pkg.Info.Defs[l.Names[0]]
		}
		_, isP := f.typeOf(sx.X).Underlying().(*types.Pointer)
		_, wantP := sig.Recv().Type().Underlying().(*types.Pointer)
		switch {
		case wantP && isP:
			p := f.derefPlace(sx.X, x)
			recvPlace = &p
		case wantP:
			save := f.frozen
			f.frozen = true
			p := f.lvalueOrTmp(sx.X)
			f.frozen = save
			f.guard(p)
			recvPlace = &p
		case isP:
			recvVal = f.derefPlaceR(sx.X, x).read()
		default:
			recvVal = f.expr(sx.X)
		}
	}
	var args []string
	np := sig.Params().Len()
	objs := paramObjs(fi.Pkg.Info, fi.Decl.Type)
	for i := 0; i < np; i++ {
		pty := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 && x.Ellipsis == token.NoPos {
			el := pty.(*types.Slice).Elem()
			v := "Seq::<" + f.t.ty(el) + ">::empty()"
			for _, a := range x.Args[i:] {
				v += ".push(" + f.exprTo(a, el) + ")"
			}
			args = append(args, v)
			continue
		}
		if _, ok := pty.Underlying().(*types.Pointer); ok {
			if isNilIdent(f.info(), x.Args[i]) {
				unsup("nil pointer argument")
			}
			p := f.derefPlace(x.Args[i], x)
			f.guard(p)
			if objs[i] != nil {
				nf.vars[objs[i]] = &bind{name: p.root, ty: pty, alias: &p}
			}
			args = append(args, "")
			continue
		}
		if s := sigOf(pty); s != nil && f.t.fnTrait(s) != "pure" {
			a := unparen(x.Args[i])
			if lit, ok := a.(*ast.FuncLit); ok {
				nf.vars[objs[i]] = &bind{ty: pty, clo: &closure{lit: lit}, cloFr: f.fr}
			} else if id, ok := a.(*ast.Ident); ok {
				b := f.lookup(f.info().ObjectOf(id))
				if b == nil {
					unsup("function value %s", id.Name)
				}
				nf.vars[objs[i]] = b
			} else {
				unsup("function argument")
			}
			args = append(args, "")
			continue
		}
		if objs[i] != nil && f.sharesArg(fi, objs[i], x, i, sx) {
			if p, ok := f.placeOf(x.Args[i]); ok && f.plainPlace(p, nf, recvPlace) {
				f.expr(x.Args[i])
				nf.vars[objs[i]] = &bind{name: p.root, ty: pty, alias: &p}
				args = append(args, "")
				continue
			}
		}
		args = append(args, f.exprTo(x.Args[i], pty))
	}
	if f.inl == nil {
		f.inl = map[*ast.CallExpr]*frame{}
	}
	f.inlPure = nil
	res := f.inlineBody(nf, fi.Decl.Type, fi.Decl.Body, recvObj, recvPlace, recvVal, args, sig, fi.Decl)
	f.inl[x] = f.inlPure
	f.inlPure = nil
	return res
}

// sharesArg: the callee writes elements of a slice or map it was given, and
// nothing else: its parameter is the argument.
func (f *fctx) sharesArg(fi *FuncInfo, o types.Object, x *ast.CallExpr, arg int, sx *ast.SelectorExpr) bool {
	switch o.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return false
	}
	if !types.Identical(f.typeOf(x.Args[arg]), o.Type()) {
		return false
	}
	for i, a := range x.Args {
		bad := false
		ast.Inspect(a, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.FuncLit:
				bad = true
			case *ast.CallExpr:
				if !f.info().Types[y.Fun].IsType() && !f.info().Types[y.Fun].IsBuiltin() {
					bad = true
				}
			case *ast.Ident:
				if sigOf(f.typeOf(y)) != nil {
					bad = true
				}
			}
			return true
		})
		if bad || i == arg && x.Ellipsis != token.NoPos {
			return false
		}
	}
	return writesElems(fi.Pkg.Info, fi.Decl.Body, o)
}

// plainPlace: a variable or a field of one, not reached by another parameter.
func (f *fctx) plainPlace(p place, nf *frame, recv *place) bool {
	for _, e := range p.elems {
		if e.kind != 'f' {
			return false
		}
	}
	if f.pure > 0 || !simpleVal(p.root) || p.root == "" || p.root[0] >= '0' && p.root[0] <= '9' || recv != nil && recv.root == p.root {
		return false
	}
	for _, b := range nf.vars {
		if b.alias != nil && b.alias.root == p.root || b.clo != nil {
			return false
		}
	}
	return true
}

// rootName is the variable an expression selects from, or nil.
func rootName(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.Ident:
			return x
		default:
			return nil
		}
	}
}

// writesElems: a body writes elements of a variable, and never the variable.
func writesElems(info *types.Info, body *ast.BlockStmt, o types.Object) bool {
	writes, whole := false, false
	lhs := func(e ast.Expr) {
		deep := false
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e, deep = x.X, true
				continue
			case *ast.IndexExpr:
				e, deep = x.X, true
				continue
			case *ast.StarExpr:
				e, deep = x.X, true
				continue
			case *ast.SliceExpr:
				e, deep = x.X, true
				continue
			case *ast.Ident:
				if info.ObjectOf(x) == o {
					if deep {
						writes = true
					} else {
						whole = true
					}
				}
			}
			return
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			whole = true
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs(l)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				lhs(x.X)
				if id, ok := unparen(x.X).(*ast.Ident); !ok || info.ObjectOf(id) == o {
					lhs(x.X)
				}
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				lhs(x.Key)
				if x.Value != nil {
					lhs(x.Value)
				}
			}
		case *ast.CallExpr:
			if id, ok := unparen(x.Fun).(*ast.Ident); ok {
				if _, isB := info.Uses[id].(*types.Builtin); isB && id.Name == "append" && info.ObjectOf(rootName(x.Args[0])) == o {
					writes = true
				}
				if _, isB := info.Uses[id].(*types.Builtin); isB && id.Name != "delete" && id.Name != "copy" && id.Name != "clear" {
					return true
				}
			}
			if info.Types[x.Fun].IsType() {
				return true
			}
			for _, a := range x.Args {
				if id, ok := unparen(a).(*ast.Ident); ok && info.ObjectOf(id) == o {
					writes = true
				}
			}
		}
		return true
	})
	return writes && !whole
}

// inlineBody runs a body in a new frame. Parameters already bound in nf keep
// their binding.
func (f *fctx) inlineBody(nf *frame, ft *ast.FuncType, body *ast.BlockStmt, recvObj types.Object, recvPlace *place, recvVal string, args []string, sig *types.Signature, n ast.Node) []string {
	f.depth++
	defer func() { f.depth-- }()
	objs := paramObjs(nf.info, ft)
	// pure attempt
	{
		pf := *nf
		pf.vars = map[types.Object]*bind{}
		for k, v := range nf.vars {
			pf.vars[k] = v
		}
		bindPure := func(o types.Object, v string) {
			if o != nil && o.Name() != "_" {
				if _, ok := pf.vars[o]; !ok {
					pf.vars[o] = &bind{name: f.atom(v), ty: o.Type()}
				}
			}
		}
		if recvObj != nil && recvPlace != nil {
			pf.vars[recvObj] = &bind{name: recvPlace.root, ty: recvObj.Type(), alias: recvPlace}
		} else if recvObj != nil {
			bindPure(recvObj, recvVal)
		}
		for i, o := range objs {
			bindPure(o, args[i])
		}
		var obls []string
		nobl := len(f.t.obls)
		v, obls, ok := f.tryPure(func() string {
			save := f.fr
			f.fr = &pf
			defer func() { f.fr = save }()
			return f.pureBody(body.List, sig)
		})
		if ok {
			f.flushLens()
			f.addPureObls("", obls, n)
			if sig.Results().Len() == 1 {
				f.inlPure = &pf
				return []string{v}
			}
		}
		f.t.obls = f.t.obls[:nobl]
	}
	if f.pure > 0 {
		panic(notPure{})
	}
	caller := f.fr
	f.fr = nf
	decl := func(o types.Object, v string) {
		if o == nil || o.Name() == "_" {
			return
		}
		if _, ok := nf.vars[o]; ok {
			return
		}
		f.declare(o, v)
	}
	// arguments were evaluated in the caller's frame
	if recvObj != nil {
		if recvPlace != nil {
			nf.vars[recvObj] = &bind{name: recvPlace.root, ty: recvObj.Type(), alias: recvPlace}
		} else {
			decl(recvObj, recvVal)
		}
	}
	for i, o := range objs {
		decl(o, args[i])
		// contracts name a parameter of the function: here it goes on under this name
		if p := strings.Trim(args[i], "()"); f.spec != nil && f.globalNames != nil && f.params[p] && o != nil && nf.vars[o] != nil && nf.vars[o].alias == nil && nf.vars[o].name != p {
			if v, ok := o.(*types.Var); ok && hasLoop(body) && changed(nf.info, body, v) {
				was, had := f.globalNames[p]
				f.globalNames[p] = nf.vars[o].name
				defer func() {
					delete(f.globalNames, p)
					if had {
						f.globalNames[p] = was
					}
				}()
			}
		}
	}
	// results
	var named []types.Object
	if ft.Results != nil {
		for _, fl := range ft.Results.List {
			for _, nm := range fl.Names {
				named = append(named, nf.info.Defs[nm])
			}
		}
	}
	nf.named = named
	var res []string
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		nm := f.tmp()
		f.emit("let ghost mut %s: %s = %s;", nm, f.t.ty(rt), f.t.zero(rt))
		res = append(res, nm)
		nf.resT = append(nf.resT, rt)
	}
	nf.resVars = res
	for i, o := range named {
		if o != nil && o.Name() != "_" {
			f.declare(o, f.t.zero(nf.resT[i]))
		}
	}
	nf.retFlag = f.tmp()
	nf.callerLoops = caller
	f.emit("let ghost mut %s: bool = false;", nf.retFlag)
	f.noCopies(body, nf.info)
	f.stmts(body.List)
	f.flow('J', nf.retFlag)
	f.fr = caller
	return res
}

func hasLoop(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			r = true
		}
		return !r
	})
	return r
}

// pureBody turns a side-effect free body into an expression.
func (f *fctx) pureBody(list []ast.Stmt, sig *types.Signature) string {
	if len(list) == 0 || sig.Results().Len() != 1 {
		panic(notPure{})
	}
	rt := sig.Results().At(0).Type()
	switch s := list[0].(type) {
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			panic(notPure{})
		}
		return f.exprTo(s.Results[0], rt)
	case *ast.IfStmt:
		if s.Init != nil {
			panic(notPure{})
		}
		c := f.expr(s.Cond)
		branch := func(l []ast.Stmt, neg bool) string {
			save := f.pureObl
			var ob []string
			f.pureObl = &ob
			v := f.pureBody(l, sig)
			f.pureObl = save
			g := "(" + c + ")"
			if neg {
				g = "!" + g
			}
			for _, o := range ob {
				*f.pureObl = append(*f.pureObl, "("+g+" ==> "+o+")")
			}
			return v
		}
		if !exits(s.Body) {
			panic(notPure{})
		}
		a := branch(s.Body.List, false)
		var rest []ast.Stmt
		switch e := s.Else.(type) {
		case nil:
			rest = list[1:]
		case *ast.BlockStmt:
			rest = e.List
		case *ast.IfStmt:
			rest = []ast.Stmt{e}
		}
		b := branch(rest, true)
		return fmt.Sprintf("(if %s { %s } else { %s })", c, a, b)
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
			id := s.Lhs[0].(*ast.Ident)
			o := f.info().Defs[id]
			if o == nil || assignedIn(f.info(), list[1:], o) {
				panic(notPure{})
			}
			v := f.expr(s.Rhs[0])
			f.fr.vars[o] = &bind{name: f.atom(v), ty: o.Type()}
			return f.pureBody(list[1:], sig)
		}
	case *ast.EmptyStmt:
		return f.pureBody(list[1:], sig)
	case *ast.SwitchStmt:
		if s.Init != nil || s.Tag == nil {
			panic(notPure{})
		}
	}
	panic(notPure{})
}

// assignedIn: is o written (or its address taken) in the statements.
func assignedIn(info *types.Info, list []ast.Stmt, o types.Object) bool {
	found := false
	root := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if info.Uses[x.Sel] == o {
					found = true
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.Ident:
				if info.ObjectOf(x) == o {
					found = true
				}
			}
			return
		}
	}
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					root(l)
				}
			case *ast.IncDecStmt:
				root(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					root(x.X)
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					root(x.Key)
					if x.Value != nil {
						root(x.Value)
					}
				}
			case *ast.CallExpr:
				// method call with pointer receiver
				if sx, ok := x.Fun.(*ast.SelectorExpr); ok {
					if sel := info.Selections[sx]; sel != nil && sel.Kind() == types.MethodVal {
						if r := sel.Obj().Type().(*types.Signature).Recv(); r != nil {
							if _, ok := r.Type().(*types.Pointer); ok && !isReplacer(r.Type()) {
								root(sx.X)
							}
						}
					}
				}
			}
			return true
		})
	}
	return found
}

// ---- interface methods ------------------------------------------------------------------

func (f *fctx) callIface(fn *types.Func, sx *ast.SelectorExpr, x *ast.CallExpr) []string {
	it := f.typeOf(sx.X)
	if isError(it) {
		v := f.expr(sx.X)
		f.check("!("+v+" is Nil)", "nil-deref", x, "error is not nil")
		return f.havoc(f.t.tyStr("Seq<u8>"))
	}
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || !f.t.inModule(n) {
		return f.callStd(fn, sx, x)
	}
	sig := fn.Type().(*types.Signature)
	if f.t.visitorIface(n) {
		return f.callVisitor(fn, sx, x)
	}
	u := n.Underlying().(*types.Interface)
	en := f.t.namedName(n)
	f.t.ty(n)
	v := f.hoist(f.expr(sx.X), it)
	f.check("!("+v+" is Nil)", "nil-deref", x, "interface is not nil")
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		unsup("interface method %s", fn.Name())
	}
	rt := sig.Results().At(0).Type()
	// pure dispatch
	arms := []string{}
	okAll := true
	var stm []*FuncInfo
	var ims []*types.Named
	for _, im := range f.t.implementers(n, u) {
		if hasCell(f.t, im) {
			continue
		}
		fi := f.t.methodOf(im, fn.Name())
		if fi == nil {
			unsup("method %s of %s", fn.Name(), im)
		}
		stm = append(stm, fi)
		ims = append(ims, im)
		if f.t.contractOf(fi) != nil && f.t.contractOf(fi).SpecFn != "" {
			f.t.need(fi.Key)
			arms = append(arms, fmt.Sprintf("%s::%s(x_) => %s(x_)", en, rn(im.Obj().Name()), f.t.contractOf(fi).SpecFn))
			continue
		}
		if f.t.contractOf(fi) != nil {
			okAll = false
			continue
		}
		nf := &frame{vars: map[types.Object]*bind{}, fi: fi, info: fi.Pkg.Info, inline: true}
		if l := fi.Decl.Recv.List[0]; len(l.Names) > 0 {
			if o := fi.Pkg.Info.Defs[l.Names[0]]; o != nil {
				nf.vars[o] = &bind{name: "x_", ty: o.Type()}
			}
		}
		val, obls, ok := f.tryPure(func() string {
			save := f.fr
			f.fr = nf
			defer func() { f.fr = save }()
			return f.pureBody(fi.Decl.Body.List, sig)
		})
		if !ok || len(obls) > 0 || len(f.pureWrites) > 0 {
			okAll = false
			continue
		}
		f.t.inlined[fi.Key] = true
		arms = append(arms, fmt.Sprintf("%s::%s(x_) => %s", en, rn(im.Obj().Name()), val))
	}
	oth := f.t.ifaceOther(n, fn.Name(), rt)
	if okAll {
		arms = append(arms, fmt.Sprintf("%s::Other(x_) => %s(x_)", en, oth), fmt.Sprintf("%s::Nil => %s", en, f.t.zero(rt)))
		return []string{"(match " + v + " { " + strings.Join(arms, ", ") + " })"}
	}
	if f.pure > 0 {
		panic(notPure{})
	}
	r := f.tmp()
	f.emit("let ghost mut %s: %s = %s;", r, f.t.ty(rt), f.t.zero(rt))
	f.emit("if cond(Ghost(%s is Other)) {", v)
	f.emit("    proof { %s = %s(%s->Other_0); }", r, oth, v)
	f.emit("}")
	for i, fi := range stm {
		vn := rn(ims[i].Obj().Name())
		f.emit("if cond(Ghost(%s is %s)) {", v, vn)
		f.flow('I', "")
		f.ind++
		rv := fmt.Sprintf("%s->%s_0", v, vn)
		if sp := f.t.contractOf(fi); sp != nil {
			f.t.need(fi.Key)
			sp.used = true
			t := f.tmp()
			tag := ""
			if len(sp.Requires) > 0 {
				o := f.t.obl(f.key, "precondition", "call of "+fi.Key, "", f.pos(x), "verus")
				tag = fmt.Sprintf(" /*@O %d*/", o.ID)
			}
			f.emit("let Ghost(%s) = %s(Ghost(%s));%s", t, mangle(fi.Key), rv, tag)
			f.ghostSet(r, t)
		} else {
			nf := &frame{vars: map[types.Object]*bind{}, fi: fi, info: fi.Pkg.Info, inline: true, nloop: f.fr.nloop, spec: f.fr.spec, clo: f.fr.clo}
			var ro types.Object
			if l := fi.Decl.Recv.List[0]; len(l.Names) > 0 {
				ro = fi.Pkg.Info.Defs[l.Names[0]]
			}
			f.t.inlined[fi.Key] = true
			rs := f.inlineBody(nf, fi.Decl.Type, fi.Decl.Body, ro, nil, rv, nil, sig, fi.Decl)
			f.ghostSet(r, rs[0])
			if hasContainer(rt, nil) {
				f.evVal(r, rs[0])
			}
		}
		f.ind--
		f.emit("}")
		f.flow('X', "")
	}
	return []string{r}
}

func (t *Tr) methodOf(n *types.Named, name string) *FuncInfo {
	return t.w.Funcs[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+name]
}

// ifaceOther is the uninterpreted result of a method on a foreign
// implementation.
func (t *Tr) ifaceOther(n *types.Named, m string, rt types.Type) string {
	name := "other_" + t.namedName(n) + "_" + m
	if !t.typeDone[name] {
		t.typeDone[name] = true
		t.typesOut = append(t.typesOut, fmt.Sprintf("pub uninterp spec fn %s(x: int) -> %s;\n", name, t.ty(rt)))
	}
	return name
}

type tyName string

func (t *Tr) tyStr(s string) tyName { return tyName(s) }

// havoc introduces an arbitrary value.
func (f *fctx) havoc(t tyName) []string {
	if f.pure > 0 {
		return []string{"arbitrary::<" + string(t) + ">()"}
	}
	n := f.tmp()
	f.emit("let Ghost(%s) = go_havoc::<%s>();", n, t)
	return []string{n}
}

// ---- standard library ----------------------------------------------------------------------

func (f *fctx) newErr() string {
	if f.alloc {
		if f.pure > 0 {
			panic(notPure{})
		}
		n := f.tmp()
		f.emit("let ghost %s: Err = Err::E(al_);", n)
		f.ghostSet("al_", "al_ + 1")
		return n
	}
	if f.pure > 0 {
		panic(notPure{})
	}
	n := f.tmp()
	f.emit("let Ghost(%s) = go_new_err();", n)
	return n
}

// evalAll evaluates arguments for their effects and panics.
func (f *fctx) evalAll(xs []ast.Expr) {
	for _, a := range xs {
		if isNilIdent(f.info(), a) {
			continue
		}
		if _, ok := f.typeOf(a).(*types.Tuple); ok {
			f.call(a.(*ast.CallExpr))
			continue
		}
		f.expr(a)
	}
}

// format models fmt verbs; ok is false when the text is not determined.
func (f *fctx) format(args []ast.Expr) string {
	tv := f.info().Types[args[0]]
	if tv.Value == nil || tv.Value.Kind() != constant.String {
		f.evalAll(args)
		return f.havoc("Seq<u8>")[0]
	}
	fs := constant.StringVal(tv.Value)
	parts := []string{}
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, seqLit(lit))
			lit = ""
		}
	}
	rest := args[1:]
	ai := 0
	bad := false
	var vals []string
	for _, a := range rest {
		if isNilIdent(f.info(), a) {
			vals = append(vals, "")
			bad = true
			continue
		}
		vals = append(vals, f.expr(a))
	}
	for i := 0; i < len(fs) && !bad; i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("0123456789+-# .", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			bad = true
			break
		}
		verb := fs[i+1 : j+1]
		i = j
		if verb == "%" {
			lit += "%"
			continue
		}
		if ai >= len(rest) {
			bad = true
			break
		}
		t := f.typeOf(rest[ai])
		v := vals[ai]
		ai++
		flush()
		switch {
		case verb == "02X" && ubits(t) == 8:
			parts = append(parts, "go_hex2("+v+")")
		case verb == "s" && isString(t):
			parts = append(parts, f.atom(v))
		case verb == "d" && isInt(t):
			if ubits(t) > 0 {
				v = "(" + v + " as int)"
			}
			parts = append(parts, "go_itoa("+v+")")
		default:
			bad = true
		}
	}
	flush()
	if bad || ai != len(rest) {
		return f.havoc("Seq<u8>")[0]
	}
	if len(parts) == 0 {
		return "Seq::<u8>::empty()"
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

func (f *fctx) bufArg(e ast.Expr) (place, bool) {
	t := f.typeOf(e)
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return place{}, false
	}
	switch stdName(p.Elem()) {
	case "bytes.Buffer", "strings.Builder":
		return f.derefPlace(e, e), true
	}
	return place{}, false
}

func (f *fctx) callStd(fn *types.Func, sx *ast.SelectorExpr, x *ast.CallExpr) []string {
	name := fn.FullName()
	f.t.stdUsed[name] = true
	sig := fn.Type().(*types.Signature)
	str := types.Typ[types.String]
	switch name {
	case "errors.New", "fmt.Errorf":
		f.evalAll(x.Args)
		return []string{f.newErr()}
	case "fmt.Sprintf":
		return []string{f.format(x.Args)}
	case "fmt.Sprint", "fmt.Sprintln":
		f.evalAll(x.Args)
		return f.havoc("Seq<u8>")
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		f.evalAll(x.Args)
		return []string{f.havoc("int")[0], f.havoc("Err")[0]}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		p, ok := f.bufArg(x.Args[0])
		if !ok {
			unsup("%s to a general writer", name)
		}
		var s string
		if name == "fmt.Fprintf" {
			s = f.format(x.Args[1:])
		} else if (name == "fmt.Fprint" || name == "io.WriteString") && len(x.Args) == 2 && isString(f.typeOf(x.Args[1])) {
			s = f.exprTo(x.Args[1], str)
		} else {
			f.evalAll(x.Args[1:])
			s = f.havoc("Seq<u8>")[0]
		}
		s = f.hoist(s, str)
		f.assignPlaceNoCheck(p, p.read()+" + "+s)
		return []string{f.goLen(s), "Err::Nil"}
	case "strings.NewReplacer":
		// of single bytes only: those are replaced one by one, the first of equal
		// ones counts
		body := "seq![b]"
		for i := len(x.Args) - 2; i >= 0; i -= 2 {
			o, n := f.info().Types[x.Args[i]].Value, f.info().Types[x.Args[i+1]].Value
			if o == nil || n == nil || len(constant.StringVal(o)) != 1 {
				unsup("replacer of other than single bytes")
			}
			body = fmt.Sprintf("if b == %d { %s } else { %s }", constant.StringVal(o)[0], f.exprTo(x.Args[i+1], str), body)
		}
		if len(x.Args)%2 != 0 || x.Ellipsis.IsValid() {
			unsup("replacer of other than single bytes")
		}
		return []string{"(GoReplacer { swap: |b: u8| " + body + " })"}
	case "(*strings.Replacer).Replace":
		r := f.expr(sx.X)
		return []string{"str_swap(" + f.exprTo(x.Args[0], str) + ", " + r + ".swap)"}
	case "strings.ReplaceAll":
		a := f.args(x, []types.Type{str, str, str})
		return []string{"str_replace_all(" + strings.Join(a, ", ") + ")"}
	case "strings.Replace":
		if tv := f.info().Types[x.Args[3]]; tv.Value != nil && constant.Sign(tv.Value) < 0 {
			var a []string
			for _, e := range x.Args[:3] {
				a = append(a, f.exprTo(e, str))
			}
			return []string{"str_replace_all(" + strings.Join(a, ", ") + ")"}
		}
	case "strings.ContainsRune", "strings.IndexByte", "strings.ContainsAny", "strings.Contains":
		a := f.exprTo(x.Args[0], str)
		if tv := f.info().Types[x.Args[1]]; tv.Value != nil {
			switch {
			case name == "strings.ContainsRune":
				if v, ok := constant.Int64Val(tv.Value); ok && v >= 0 && v < 128 {
					return []string{fmt.Sprintf("%s.contains(%du8)", f.atom(a), v)}
				}
			case name == "strings.Contains" || name == "strings.ContainsAny":
				if s := constant.StringVal(tv.Value); len(s) == 1 && s[0] < 128 {
					return []string{fmt.Sprintf("%s.contains(%du8)", f.atom(a), s[0])}
				}
			case name == "strings.IndexByte":
				v, _ := constant.Int64Val(tv.Value)
				return []string{fmt.Sprintf("go_index_byte(%s, %du8)", a, v)}
			}
		}
	case "strings.HasPrefix":
		a := f.args(x, []types.Type{str, str})
		return []string{fmt.Sprintf("go_has_prefix(%s, %s)", a[0], a[1])}
	case "strings.HasSuffix":
		a := f.args(x, []types.Type{str, str})
		return []string{fmt.Sprintf("go_has_suffix(%s, %s)", a[0], a[1])}
	case "strings.Join":
		st := types.NewSlice(str)
		a := f.args(x, []types.Type{st, str})
		return []string{fmt.Sprintf("str_join(%s, %s)", a[0], a[1])}
	case "strconv.Itoa":
		a := f.args(x, []types.Type{types.Typ[types.Int]})
		return []string{"go_itoa(" + a[0] + ")"}
	case "bytes.Equal":
		bt := types.NewSlice(types.Typ[types.Byte])
		a := f.args(x, []types.Type{bt, bt})
		return []string{fmt.Sprintf("(%s =~= %s)", f.atom(a[0]), f.atom(a[1]))}
	case "math/bits.OnesCount64":
		a := f.args(x, []types.Type{types.Typ[types.Uint64]})
		return []string{"go_popcount(" + a[0] + ")"}
	case "math/bits.TrailingZeros64":
		a := f.args(x, []types.Type{types.Typ[types.Uint64]})
		return []string{"go_ctz(" + a[0] + ")"}
	case "math/bits.Len64":
		a := f.args(x, []types.Type{types.Typ[types.Uint64]})
		return []string{"go_bitlen(" + a[0] + ")"}
	case "math/bits.LeadingZeros64":
		a := f.args(x, []types.Type{types.Typ[types.Uint64]})
		return []string{"(64 - go_bitlen(" + a[0] + "))"}
	case "sort.SearchInts":
		it := types.NewSlice(types.Typ[types.Int])
		a := f.args(x, []types.Type{it, types.Typ[types.Int]})
		if f.pure > 0 {
			panic(notPure{})
		}
		n := f.tmp()
		f.emit("let Ghost(%s) = go_search_ints(Ghost(%s), Ghost(%s));", n, a[0], a[1])
		return []string{n}
	case "sort.Ints", "sort.Sort":
		e := unparen(x.Args[0])
		if c, ok := e.(*ast.CallExpr); ok && name == "sort.Sort" && stdName(f.typeOf(e)) == "sort.IntSlice" {
			e = c.Args[0]
		} else if name == "sort.Sort" {
			break
		}
		p := f.lvalue(e)
		n := f.tmp()
		f.event('w', p.path(len(p.elems)), "")
		f.emit("let Ghost(%s) = go_sort_ints(Ghost(%s));", n, p.read())
		f.assignPlaceNoCheck(p, n)
		return nil
	case "io.ReadAll":
		if stdName(f.typeOf(x.Args[0])) == "io.Reader" {
			v := f.expr(x.Args[0])
			if f.pure > 0 {
				panic(notPure{})
			}
			n := f.tmp()
			f.emit("let Ghost(%s) = go_read_all(Ghost(%s));", n, v)
			return []string{n + ".0", n + ".1"}
		}
	}
	if sig.Recv() != nil && sx != nil {
		if r, ok := f.stdMethod(fn, sx, x); ok {
			return r
		}
	}
	unsup("call of %s", name)
	return nil
}

func (f *fctx) stdMethod(fn *types.Func, sx *ast.SelectorExpr, x *ast.CallExpr) ([]string, bool) {
	rt := namedOf(f.typeOf(sx.X))
	if rt == nil {
		return nil, false
	}
	sn := stdName(rt)
	if sn != "strings.Builder" && sn != "bytes.Buffer" {
		return nil, false
	}
	var p place
	if _, isP := f.typeOf(sx.X).Underlying().(*types.Pointer); isP {
		p = f.derefPlace(sx.X, x)
	} else {
		p = f.lvalueOrTmp(sx.X)
	}
	switch fn.Name() {
	case "WriteByte":
		v := f.exprTo(x.Args[0], types.Typ[types.Byte])
		f.assignPlaceNoCheck(p, f.atom(p.read())+".push("+v+")")
		return []string{"Err::Nil"}, true
	case "WriteString", "Write":
		v := f.exprTo(x.Args[0], fn.Type().(*types.Signature).Params().At(0).Type())
		if f.pure > 0 {
			panic(notPure{})
		}
		v = f.hoist(v, types.Typ[types.String])
		f.assignPlaceNoCheck(p, p.read()+" + "+v)
		return []string{"(" + v + ".len() as int)", "Err::Nil"}, true
	case "WriteRune":
		if tv := f.info().Types[x.Args[0]]; tv.Value != nil {
			if v, ok := constant.Int64Val(tv.Value); ok && v >= 0 && v < 128 {
				f.assignPlaceNoCheck(p, fmt.Sprintf("%s.push(%du8)", f.atom(p.read()), v))
				return []string{"1int", "Err::Nil"}, true
			}
		}
	case "String", "Bytes":
		return []string{p.read()}, true
	case "Len":
		return []string{f.goLen(p.read())}, true
	case "Grow":
		n := f.intExpr(x.Args[0])
		f.check("0 <= "+n, "grow", x, "not negative")
		return nil, true
	case "Reset":
		f.assignPlaceNoCheck(p, "Seq::<u8>::empty()")
		return nil, true
	case "Truncate":
		n := f.hoistInt(f.intExpr(x.Args[0]))
		f.check(fmt.Sprintf("0 <= %s <= %s.len()", n, p.read()), "bounds", x, "truncate within length")
		f.assignPlaceNoCheck(p, fmt.Sprintf("%s.subrange(0, %s)", p.read(), n))
		return nil, true
	}
	return nil, false
}
