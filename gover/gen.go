package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func (t *Tr) need(key string) {
	if !t.queued[key] {
		t.queued[key] = true
		t.queue = append(t.queue, key)
	}
}

func (t *Tr) recursive(callee, cur *FuncInfo) bool { return callee == cur }

// active: is the clause part of this check. A label "C04_C05-name" limits a
// clause to those properties.
func (t *Tr) active(c Clause) bool {
	tags := clauseTags(c.Label)
	if len(tags) == 0 || len(t.tags) == 0 {
		return true
	}
	for _, a := range tags {
		if t.tags[a] {
			return true
		}
	}
	return false
}

func clauseTags(label string) []string {
	var r []string
	head, _, _ := strings.Cut(label, "-")
	for _, p := range strings.Split(head, "_") {
		if len(p) == 3 && p[0] == 'C' && p[1] >= '0' && p[1] <= '9' {
			r = append(r, p)
		}
	}
	return r
}

// visitorIface: an interface whose methods take parameters is abstract: its
// calls go through a trait.
func (t *Tr) visitorIface(n *types.Named) bool {
	u, ok := n.Underlying().(*types.Interface)
	if !ok || !t.inModule(n) {
		return false
	}
	args := false
	for i := 0; i < u.NumMethods(); i++ {
		if u.Method(i).Type().(*types.Signature).Params().Len() > 0 {
			args = true
		}
	}
	if !args {
		return false
	}
	if r, ok := t.visitors[n]; ok {
		return r
	}
	// some function takes any implementation
	r := false
	for _, fi := range t.w.Funcs {
		sig := fi.Obj.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			r = r || namedOf(sig.Params().At(i).Type()) == n
		}
	}
	if t.visitors == nil {
		t.visitors = map[*types.Named]bool{}
	}
	t.visitors[n] = r
	return r
}

// callVisitor calls a method of an abstract interface.
func (f *fctx) callVisitor(fn *types.Func, sx *ast.SelectorExpr, x *ast.CallExpr) []string {
	if f.pure > 0 {
		panic(notPure{})
	}
	sig := fn.Type().(*types.Signature)
	v := f.hoist(f.expr(sx.X), f.typeOf(sx.X))
	f.check(fmt.Sprintf("%s is Some", v), "nil-deref", x, "interface is not nil")
	args := []string{"Ghost(" + v + "->0)"}
	for i, a := range x.Args {
		args = append(args, "Ghost("+f.exprTo(a, sig.Params().At(i).Type())+")")
	}
	args = append(args, "Ghost(w_)")
	t := f.tmp()
	o := f.t.obl(f.key, "precondition", "call of "+fn.Name(), "precondition of the visitor", f.pos(x), "verus")
	f.callN[fn.Name()]++
	f.hints("before", fn.Name(), f.callN[fn.Name()])
	f.emit("let Ghost(%s) = VT::go_%s(%s); /*@O %d*/", t, fn.Name(), strings.Join(args, ", "), o.ID)
	f.ghostSet("w_", t+".0")
	f.hintsRes("after", fn.Name(), f.callN[fn.Name()], t)
	return []string{t + ".1"}
}

// initOf: the expression a package variable starts with, and whether a function assigns it.
func (t *Tr) initOf(p *Pkg, v *types.Var) (ast.Expr, bool) {
	var init ast.Expr
	for _, file := range p.Files {
		for _, d := range file.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for i, n := range vs.Names {
						if p.Info.Defs[n] == v && i < len(vs.Values) {
							init = vs.Values[i]
						}
					}
				}
			}
		}
	}
	for _, q := range t.w.Order {
		for _, file := range q.Files {
			for _, d := range file.Decls {
				if x, ok := d.(*ast.FuncDecl); ok && x.Body != nil && assignedIn(q.Info, x.Body.List, v) {
					return nil, true
				}
			}
		}
	}
	return init, false
}

// globalVar gives the value of a package variable that is never written.
func (t *Tr) globalVar(f *fctx, v *types.Var) string {
	name := "g_" + v.Pkg().Name() + "_" + v.Name()
	if t.typeDone[name] {
		return name + "()"
	}
	p := t.w.Pkgs[v.Pkg().Path()]
	if p == nil {
		unsup("package variable %s", v.Name())
	}
	init, written := t.initOf(p, v)
	if written {
		unsup("package variable %s is written", v.Name())
	}
	if init == nil {
		unsup("package variable %s without value", v.Name())
	}
	if c, ok := unparen(init).(*ast.CallExpr); ok && v.Type().String() == "error" {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if fn, ok := p.Info.Uses[s.Sel].(*types.Func); ok && (fn.FullName() == "errors.New" || fn.FullName() == "fmt.Errorf") {
				// some error, its text is not modelled
				t.typeDone[name] = true
				t.typesOut = append(t.typesOut, fmt.Sprintf("pub open spec fn %s() -> Err { Err::G(%d) }\n", name, t.globalErrs))
				t.globalErrs++
				return name + "()"
			}
		}
	}
	g := &fctx{t: t, key: "package " + v.Pkg().Name(), fr: &frame{vars: map[types.Object]*bind{}, info: p.Info}, used: map[string]bool{}, subst: map[string]string{}}
	val, obls, ok := g.tryPure(func() string { return g.exprTo(init, v.Type()) })
	if !ok || len(obls) > 0 {
		unsup("initial value of %s", v.Name())
	}
	t.typeDone[name] = true
	ty := t.ty(v.Type())
	if items, ok := seqItems(val); ok && strings.HasPrefix(ty, "Seq<") {
		// element access by position, cheaper for the solver than push chains
		el := strings.TrimSuffix(strings.TrimPrefix(ty, "Seq<"), ">")
		if !strings.ContainsAny(el, "<{") {
			var b strings.Builder
			fmt.Fprintf(&b, "pub open spec fn %s_at(i: int) -> %s {\n", name, el)
			for i, it := range items {
				fmt.Fprintf(&b, "    if i == %d { %s } else\n", i, it)
			}
			fmt.Fprintf(&b, "    { arbitrary() }\n}\n")
			fmt.Fprintf(&b, "pub open spec fn %s() -> %s { Seq::new(%dnat, |i: int| %s_at(i)) }\n", name, ty, len(items), name)
			t.typesOut = append(t.typesOut, b.String())
			return name + "()"
		}
	}
	t.typesOut = append(t.typesOut, fmt.Sprintf("pub open spec fn %s() -> %s { %s }\n", name, ty, val))
	return name + "()"
}

func (t *Tr) allocMode(fi *FuncInfo) bool {
	sp := t.ss.Funcs[fi.Key]
	return sp != nil && sp.hasAlloc()
}

func (f *fctx) methodValue(x *ast.SelectorExpr, sel *types.Selection) string {
	unsup("method value %s", x.Sel.Name)
	return ""
}

func (f *fctx) funcObjValue(fn *types.Func) string {
	unsup("function %s as value", fn.Name())
	return ""
}

// visitorInst is unused: abstract interface values are options of the handle.
func (f *fctx) visitorInst(n *types.Named) string { return "" }

// needCell declares the threaded cell of a handle struct.
func (f *fctx) needCell(n *types.Named) {
	if f.cells != "" {
		unsup("second handle struct")
	}
	f.cells = "w_"
	f.cellT = n
	f.cellsT = cellType{n, f.t.namedName(n) + "_cell"}
	f.emit("let ghost mut w_: %s_cell<%s> = arbitrary();", f.t.namedName(n), f.fnGeneric)
}

// setCell assigns a pointer or function field of a handle struct.
func (f *fctx) setCell(fv *types.Var, e ast.Expr) {
	e = unparen(e)
	cp := place{root: f.cells, rootT: f.cellsT, elems: []pelem{{kind: 'f', name: rn(fv.Name()), cont: f.cellsT, after: fv.Type()}}}
	if f.cells == "" {
		unsup("handle field %s", fv.Name())
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op.String() == "&" {
		if id, ok := unparen(u.X).(*ast.Ident); ok {
			b := f.lookup(f.info().ObjectOf(id))
			if b != nil && b.alias == nil {
				cp.elems[0].after = b.ty
				f.ghostSet(f.cells, f.placeWrite(cp, b.name))
				b.alias = &cp
				b.param = false
				return
			}
		}
	}
	if id, ok := e.(*ast.Ident); ok {
		if b := f.lookup(f.info().ObjectOf(id)); b != nil && b.alias == nil && b.clo == nil {
			f.ghostSet(f.cells, f.placeWrite(cp, b.name))
			b.alias = &cp
			b.param = false
			return
		}
	}
	unsup("handle field %s", fv.Name())
}

// ---- closures -----------------------------------------------------------------------------

func (f *fctx) litOrdinal(lit *ast.FuncLit) int {
	for i, l := range f.lits {
		if l == lit {
			return i + 1
		}
	}
	return 0
}

// captured variables of a literal, in order of first use.
func (f *fctx) captures(lit *ast.FuncLit, fr *frame) (objs []types.Object) {
	seen := map[types.Object]bool{}
	save := f.fr
	f.fr = fr
	defer func() { f.fr = save }()
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := fr.info.Uses[id].(*types.Var)
		if !ok || seen[o] || o.IsField() {
			return true
		}
		if b := f.lookup(o); b != nil {
			seen[o] = true
			objs = append(objs, o)
		}
		return true
	})
	return
}

var stateRe = regexp.MustCompile(`\b(self|post|s_)\.([A-Za-z]\w*)\b`)

// alsoNamed adds the variables that the contract of a literal mentions.
func (f *fctx) alsoNamed(caps []types.Object, fr *frame, text string) []types.Object {
	seen := map[string]bool{}
	for _, o := range caps {
		if b := f.lookup(o); b != nil {
			seen[b.name] = true
		}
	}
	for _, m := range stateRe.FindAllStringSubmatch(text, -1) {
		if seen[m[2]] {
			continue
		}
		for o, b := range fr.vars {
			if b.name == m[2] && b.clo == nil && (b.alias == nil || b.param) {
				seen[m[2]] = true
				caps = append(caps, o)
				break
			}
		}
	}
	return caps
}

// stateNow is the state of literal n made from the present values.
func (f *fctx) stateNow(n int) string {
	lit := f.lits[n-1]
	caps := f.captures(lit, f.fr)
	if cs := f.spec.Closures[n]; cs != nil {
		caps = f.alsoNamed(caps, f.fr, cs.Pre+" "+cs.Step)
	}
	var vals []string
	for _, o := range caps {
		b := f.lookup(o)
		nm := b.name
		if b.alias != nil {
			nm = b.alias.root
		}
		vals = append(vals, nm+": "+nm)
	}
	if f.alloc {
		vals = append(vals, "al_: al_")
	}
	return fmt.Sprintf("Clo_%s_%d { %s }", mangle(f.key), n, strings.Join(vals, ", "))
}

// closureState passes a function literal as a ghost state.
func (f *fctx) closureState(lit *ast.FuncLit, fr *frame) carg {
	n := f.litOrdinal(lit)
	sig := sigOf(fr.info.Types[lit].Type)
	trait := f.t.fnTrait(sig)
	if trait == "" || trait == "pure" {
		unsup("function type %s", sigKey(sig))
	}
	var cs *ClosureSpec
	if f.spec != nil {
		cs = f.spec.Closures[n]
	}
	name := fmt.Sprintf("Clo_%s_%d", mangle(f.key), n)
	caps := f.captures(lit, fr)
	save := f.fr
	f.fr = fr
	if cs != nil {
		caps = f.alsoNamed(caps, fr, cs.Pre+" "+cs.Step)
	}
	type cv struct {
		name, ty string
		obj      types.Object
		b        *bind
		written  bool
		gt       types.Type
	}
	var cvs []cv
	for _, o := range caps {
		b := f.lookup(o)
		if b.clo != nil {
			unsup("function literal captures function %s", o.Name())
		}
		nm, gt := b.name, b.ty
		if b.alias != nil {
			if !b.param {
				unsup("function literal captures alias %s", o.Name())
			}
			gt = b.alias.rootT
			nm = b.alias.root
		}
		cvs = append(cvs, cv{nm, f.t.ty(gt), o, b, assignedIn(fr.info, lit.Body.List, o), gt})
	}
	f.fr = save
	if !f.cloDone[lit] {
		f.cloDone[lit] = true
		if cs == nil {
			unsup("function literal %d of %s has no contract", n, f.key)
		}
		// the literal as a function over its state
		g := &fctx{t: f.t, fi: f.fi, spec: f.spec, key: fmt.Sprintf("%s.func%d", f.key, n), used: map[string]bool{}, subst: map[string]string{},
			callN: map[string]int{}, localsWanted: f.localsWanted, globalNames: f.globalNames, fnGeneric: f.fnGeneric, alloc: f.alloc, inClosure: true, params: map[string]bool{}, cloDone: f.cloDone, lits: f.lits}
		zero := 0
		g.fr = &frame{vars: map[types.Object]*bind{}, fi: f.fi, info: fr.info, clo: cs, nloop: &zero}
		g.ind = 2
		var flds, sets []string
		for _, c := range cvs {
			flds = append(flds, fmt.Sprintf("    pub %s: %s,", c.name, c.ty))
			sets = append(sets, c.name)
			g.used[c.name] = true
			b := &bind{name: c.name, ty: c.b.ty}
			if c.b.alias != nil {
				b.alias = &place{root: c.name, rootT: c.gt}
				b.param = true
			}
			g.fr.vars[c.obj] = b
			g.emit("let ghost mut %s: %s = s_.%s;", c.name, c.ty, c.name)
			g.event('d', c.name, "")
			g.event('a', c.name, "")
		}
		if f.alloc {
			flds = append(flds, "    pub al_: int,")
			sets = append(sets, "al_")
			g.emit("let ghost mut al_: int = s_.al_;")
		}
		objs := paramObjs(fr.info, lit.Type)
		if len(objs) != 1 {
			unsup("function literal with %d parameters", len(objs))
		}
		pty := f.t.ty(sig.Params().At(0).Type())
		if objs[0] != nil && objs[0].Name() != "_" {
			pn := g.fresh(objs[0].Name())
			g.fr.vars[objs[0]] = &bind{name: pn, ty: objs[0].Type()}
			g.emit("let ghost mut %s: %s = arg;", pn, pty)
			g.params[pn] = true
		}
		for i := 0; i < sig.Results().Len(); i++ {
			g.results = append(g.results, sig.Results().At(i).Type())
		}
		g.cloSets = sets
		if cs.Entry != "" {
			g.emitProof(g.specText(cs.Entry), "entry")
		}
		g.stmts(lit.Body.List)
		if !exits(lit.Body) {
			g.curPos = f.pos(lit)
			g.emitReturn(nil)
		} else {
			g.emit("return go_unreachable();")
		}
		g.checkOwnership()
		for _, e := range g.ev {
			if strings.IndexByte("wWOr", e.kind) >= 0 {
				for _, c := range cvs {
					if rootOf(e.path) == c.name {
						if f.t.cloEv == nil {
							f.t.cloEv = map[*ast.FuncLit][]event{}
						}
						f.t.cloEv[lit] = append(f.t.cloEv[lit], e)
					}
				}
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "pub struct %s {\n%s\n}\n", name, strings.Join(flds, "\n"))
		pre, step := cs.Pre, cs.Step
		if pre == "" {
			pre = "true"
		}
		if step == "" {
			step = "true"
		}
		retT := ""
		retP := "Self"
		if len(g.results) == 1 {
			retT = "ret: " + f.t.ty(g.results[0]) + ", "
			retP = "(" + f.t.ty(g.results[0]) + ", Self)"
		}
		has := map[string]bool{}
		for _, s := range sets {
			has[s] = true
		}
		outer := func(s string) string { // package variables are no part of the state
			return stateRe.ReplaceAllStringFunc(s, func(m string) string {
				x := m[strings.Index(m, ".")+1:]
				if v, ok := f.globalNames[x]; ok && !has[x] {
					return v
				}
				return m
			})
		}
		pre, step = outer(pre), outer(step)
		os := f.t.obl(g.key, "postcondition", "step", step, f.pos(lit), "verus")
		fmt.Fprintf(&b, "impl %s for %s {\n", trait, name)
		fmt.Fprintf(&b, "    open spec fn pre(self, arg: %s) -> bool { %s }\n", pty, strings.TrimSpace(f.specText(pre)))
		fmt.Fprintf(&b, "    open spec fn step(self, arg: %s, %spost: Self) -> bool {\n        %s\n    }\n", pty, retT, strings.TrimSpace(f.specText(step)))
		fmt.Fprintf(&b, "    fn call(Ghost(s_): Ghost<Self>, Ghost(arg): Ghost<%s>) -> (ret_: Ghost<%s>) /*@O %d*/\n    {\n", pty, retP, os.ID)
		// a postcondition failure is reported at the trait's ensures clause; the
		// return lines carry the obligation
		for _, l := range g.lines {
			if strings.Contains(l, "return Ghost(") {
				l += fmt.Sprintf(" /*@O %d*/", os.ID)
			}
			b.WriteString(l + "\n")
		}
		fmt.Fprintf(&b, "    }\n}\n")
		f.extra = append(f.extra, g.extra...)
		f.extra = append(f.extra, b.String())
	}
	// what the literal does with the variables it captures, any number of times
	f.flow('L', "")
	for _, e := range f.t.cloEv[lit] {
		f.event(e.kind, e.path, "")
	}
	f.flow('M', "")
	var vals []string
	for _, c := range cvs {
		vals = append(vals, c.name+": "+c.name)
	}
	if f.alloc {
		vals = append(vals, "al_: al_")
	}
	return carg{val: name + " { " + strings.Join(vals, ", ") + " }", clo: &closure{lit: lit, name: name}, fnSet: func(v string) {
		for _, c := range cvs {
			if c.written {
				f.ghostSet(c.name, v+"."+c.name)
			}
		}
		if f.alloc {
			f.ghostSet("al_", v+".al_")
		}
	}}
}

func (f *fctx) cloRet(vals []string) string {
	s := f.cloName() + " { " + strings.Join(f.cloSets, ", ") + " }"
	if len(vals) == 0 {
		return s
	}
	return "(" + vals[0] + ", " + s + ")"
}

func (f *fctx) cloName() string { return "Self" }

// funcValue translates a predicate literal.
func (f *fctx) funcValue(lit *ast.FuncLit) string {
	sig := sigOf(f.info().Types[lit].Type)
	if f.t.fnTrait(sig) != "pure" {
		unsup("function literal as value")
	}
	n := f.litOrdinal(lit)
	var cs *ClosureSpec
	if f.spec != nil {
		cs = f.spec.Closures[n]
	}
	objs := paramObjs(f.info(), lit.Type)
	if cs == nil || cs.Pure == "" {
		nf := &frame{parent: f.fr, vars: map[types.Object]*bind{}, fi: f.fi, info: f.info(), inline: true}
		var ps []string
		for i, o := range objs {
			nm := fmt.Sprintf("a%d_", i)
			if o != nil && o.Name() != "_" {
				nf.vars[o] = &bind{name: nm, ty: o.Type()}
			}
			ps = append(ps, nm+": "+f.t.ty(sig.Params().At(i).Type()))
		}
		val, obls, ok := f.tryPure(func() string {
			save := f.fr
			f.fr = nf
			defer func() { f.fr = save }()
			return f.pureBody(lit.Body.List, sig)
		})
		if !ok || len(obls) > 0 || len(f.pureWrites) > 0 {
			unsup("function literal %d of %s needs a contract", n, f.key)
		}
		return "(|" + strings.Join(ps, ", ") + "| " + val + ")"
	}
	// verified against the expression of its contract
	hd, body, _ := strings.Cut(strings.TrimPrefix(strings.TrimSpace(cs.Pure), "|"), "|")
	pn := strings.TrimSpace(hd)
	if len(objs) != 1 {
		unsup("predicate with %d parameters", len(objs))
	}
	caps := f.captures(lit, f.fr)
	for _, c := range cs.Requires {
		o := f.t.obl(f.key, "precondition", "literal "+c.Label, c.Text, f.pos(lit), "verus")
		f.emit("proof { assert(%s); } /*@O %d*/", f.specText(c.Text), o.ID)
	}
	if !f.cloDone[lit] {
		f.cloDone[lit] = true
		g := &fctx{t: f.t, fi: f.fi, spec: nil, key: fmt.Sprintf("%s.func%d", f.key, n), used: map[string]bool{}, subst: map[string]string{},
			callN: map[string]int{}, localsWanted: f.localsWanted, globalNames: f.globalNames, fnGeneric: f.fnGeneric, params: map[string]bool{}, cloDone: f.cloDone, lits: f.lits}
		zero := 0
		g.fr = &frame{vars: map[types.Object]*bind{}, fi: f.fi, info: f.info(), clo: cs, nloop: &zero}
		g.ind = 1
		var ps []string
		for _, o := range caps {
			b := f.lookup(o)
			if b.alias != nil || b.clo != nil {
				unsup("captured %s", o.Name())
			}
			ps = append(ps, fmt.Sprintf("Ghost(%s): Ghost<%s>", b.name, f.t.ty(b.ty)))
			g.fr.vars[o] = &bind{name: b.name, ty: b.ty}
			g.used[b.name] = true
			g.params[b.name] = true
			g.emit("let ghost mut %s = %s;", b.name, b.name)
		}
		pty := f.t.ty(sig.Params().At(0).Type())
		ps = append(ps, fmt.Sprintf("Ghost(%s): Ghost<%s>", pn, pty))
		if objs[0] != nil {
			g.fr.vars[objs[0]] = &bind{name: pn, ty: objs[0].Type()}
			g.params[pn] = true
			g.emit("let ghost mut %s = %s;", pn, pn)
		}
		g.results = []types.Type{sig.Results().At(0).Type()}
		if cs.Entry != "" {
			g.emitProof(g.specText(cs.Entry), "entry")
		}
		g.stmts(lit.Body.List)
		g.emit("return go_unreachable();")
		g.checkOwnership()
		var b strings.Builder
		fmt.Fprintf(&b, "pub fn pred_%s_%d(%s) -> (ret_: Ghost<%s>)\n", mangle(f.key), n, strings.Join(ps, ", "), f.t.ty(g.results[0]))
		if len(cs.Requires) > 0 {
			b.WriteString("    requires\n")
			for _, c := range cs.Requires {
				fmt.Fprintf(&b, "        %s,\n", f.specText(c.Text))
			}
		}
		o := f.t.obl(g.key, "postcondition", "predicate", body, f.pos(lit), "verus")
		fmt.Fprintf(&b, "    ensures\n        ret_@ == (%s), /*@O %d*/\n{\n", strings.TrimSpace(f.specText(body)), o.ID)
		for _, l := range g.lines {
			b.WriteString(l + "\n")
		}
		b.WriteString("}\n")
		f.extra = append(f.extra, b.String())
	}
	return "(|" + pn + ": " + f.t.ty(sig.Params().At(0).Type()) + "| " + strings.TrimSpace(f.specText(body)) + ")"
}

// ---- functions -----------------------------------------------------------------------------

type genResult struct {
	text string
	err  string
}

// GenFunc translates one function with contract.
func (t *Tr) GenFunc(key string) (text string) {
	fi := t.w.Funcs[key]
	sp := t.ss.Funcs[key]
	f := &fctx{t: t, fi: fi, spec: sp, key: key, used: map[string]bool{}, callN: map[string]int{}, subst: map[string]string{},
		params: map[string]bool{}, cloDone: map[*ast.FuncLit]bool{}}
	zero := 0
	f.fr = &frame{vars: map[types.Object]*bind{}, fi: fi, spec: sp, info: fi.Pkg.Info, nloop: &zero}
	f.alloc = sp.hasAlloc()
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			f.lits = append(f.lits, l)
		}
		return true
	})
	head := ""
	nobl := len(t.obls)
	ninl := map[string]bool{}
	for k := range t.inlined {
		ninl[k] = true
	}
	if t.stub[key] != "" {
		h, _ := f.header(true)
		o := t.obl(key, "function", "contract", "the whole contract", f.pos(fi.Decl), "verus")
		o.Failed = t.stub[key]
		return f.undefined() + "#[verifier::external_body]\n" + h + "{ unimplemented!() }\n"
	}
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch u := r.(type) {
			case unsupported:
				msg = "outside the translated subset: " + u.msg
			case notPure:
				msg = "outside the translated subset: side effect in expression"
			default:
				if t.debug {
					panic(r)
				}
				msg = fmt.Sprint("translation failed: ", r)
			}
			t.obls = t.obls[:nobl]
			g := &fctx{t: t, fi: fi, spec: sp, key: key, used: map[string]bool{}, subst: map[string]string{}, params: map[string]bool{}}
			g.fr = f.fr
			h, err := g.headerSafe()
			o := t.obl(key, "function", "contract", "the whole contract", f.pos(fi.Decl), "verus")
			o.Failed = msg
			if err != "" {
				text = ""
				return
			}
			text = "#[verifier::external_body]\n" + h + "{ unimplemented!() }\n"
			text = g.undefined() + text
		}
	}()
	f.pickLocals()
	var outs []outParam
	head, outs = f.header(false)
	f.outs = outs
	f.ind = 1
	f.bindParams()
	sp = f.spec
	if sp.Define != "" {
		f.defineBody()
	}
	if sp.Entry != "" {
		f.emitProof(f.specText(sp.Entry), "entry")
	}
	if t.smoke {
		o := t.obl(key, "smoke", "entry", "must fail", "", "verus")
		f.emit("if cond(Ghost(smoke_nd(%dint))) { proof { assert(false); } /*@O %d*/ }", o.ID, o.ID)
	}
	// named results
	if fi.Decl.Type.Results != nil {
		for _, fl := range fi.Decl.Type.Results.List {
			for _, nm := range fl.Names {
				o := f.info().Defs[nm]
				f.fr.named = append(f.fr.named, o)
				if o != nil && nm.Name != "_" {
					f.declare(o, t.zero(o.Type()))
				}
			}
		}
	}
	f.noCopies(fi.Decl.Body, f.info())
	f.stmts(fi.Decl.Body.List)
	if !exits(fi.Decl.Body) {
		f.emitReturn(nil)
	} else {
		f.emit("return go_unreachable();")
	}
	f.checkOwnership()
	var b strings.Builder
	for _, e := range f.extra {
		b.WriteString(e)
	}
	b.WriteString(head)
	b.WriteString("{\n")
	for _, l := range f.lines {
		b.WriteString(l + "\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// defineBody gives the body, an expression without effects, a name in specifications.
func (f *fctx) defineBody() {
	sig := f.fi.Obj.Type().(*types.Signature)
	v, obls, ok := f.tryPure(func() string {
		pf := *f.fr
		pf.vars = map[types.Object]*bind{}
		for k, v := range f.fr.vars {
			pf.vars[k] = v
		}
		save := f.fr
		f.fr = &pf
		defer func() { f.fr = save }()
		return f.pureBody(f.fi.Decl.Body.List, sig)
	})
	if !ok || len(obls) > 0 || len(f.pureWrites) > 0 {
		unsup("the body is not an expression")
	}
	f.extra = append(f.extra, fmt.Sprintf("pub open spec fn %s { %s }\n", f.defined(), v))
}

// defined is the signature of the spec function for the body.
func (f *fctx) defined() string {
	var ps []string
	for _, p := range f.paramList() {
		ps = append(ps, p.name+": "+f.paramTy(p.ty))
	}
	return fmt.Sprintf("%s(%s) -> %s", f.spec.Define, strings.Join(ps, ", "), f.t.ty(f.fi.Obj.Type().(*types.Signature).Results().At(0).Type()))
}

// undefined keeps the name alive where there is no translation.
func (f *fctx) undefined() string {
	if f.spec.Define == "" {
		return ""
	}
	return "pub uninterp spec fn " + f.defined() + ";\n"
}

func (f *fctx) headerSafe() (h string, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Sprint(r)
		}
	}()
	h, _ = f.header(true)
	return
}

// changed tells whether v is assigned, or a method that may change it called,
// after its declaration.
func changed(info *types.Info, body *ast.BlockStmt, v *types.Var) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			defines := false
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && info.Defs[id] == v {
					defines = true
				}
			}
			if !defines && assignedIn(info, []ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok}}, v) {
				found = true
			}
		case *ast.IncDecStmt, *ast.ExprStmt:
			found = found || assignedIn(info, []ast.Stmt{x.(ast.Stmt)}, v)
		}
		return true
	})
	return found
}

// standsFor: a parameter of an inlined function that is the argument, not a copy.
func standsFor(info *types.Info, fi *FuncInfo, v *types.Var) bool {
	switch v.Type().Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Slice, *types.Map:
		return writesElems(info, fi.Decl.Body, v)
	}
	return false
}

// pickLocals maps the names used by the contract to the locals of the code:
// by name, else by being the only unclaimed local of that type.
func (f *fctx) pickLocals() {
	f.localsWanted = map[types.Object]string{}
	f.globalNames = map[string]string{}
	if len(f.spec.Locals) == 0 && !f.spec.Variants {
		return
	}
	loops := 0
	ranged := map[int]bool{}
	var bodies []*ast.BlockStmt
	type lv struct {
		o    types.Object
		ty   string
		loop bool // declared in a function with a loop
		deep int  // how many calls away
		par  bool // parameter of a helper
		mod  bool // changed after its declaration
	}
	var all []lv
	made := map[types.Object]bool{} // errors made by their declaration
	var globals []*types.Var        // package variables of type error in use
	q := func(p *types.Package) string { return p.Name() }
	var visit func(info *types.Info, fi *FuncInfo, depth int, seen map[types.Object]bool)
	visit = func(info *types.Info, fi *FuncInfo, depth int, seen map[types.Object]bool) {
		loop := false
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt:
				loop = true
				loops++
				bodies = append(bodies, n.Body)
			case *ast.RangeStmt:
				loop = true
				loops++
				ranged[loops] = true
				bodies = append(bodies, n.Body)
			}
			return true
		})
		add := func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() {
					if depth > 0 && id.Pos() < fi.Decl.Body.Pos() && standsFor(info, fi, v) {
						return true
					}
					all = append(all, lv{v, types.TypeString(v.Type(), q), loop, depth, depth > 0 && id.Pos() < fi.Decl.Body.Pos(), changed(info, fi.Decl.Body, v)})
				}
			}
			return true
		}
		if depth > 0 {
			ast.Inspect(fi.Decl.Type.Params, add)
		}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			add(n)
			if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
				if id, ok := a.Lhs[0].(*ast.Ident); ok && info.Defs[id] != nil {
					if c, ok := unparen(a.Rhs[0]).(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok {
							if fn, ok := info.Uses[s.Sel].(*types.Func); ok && (fn.FullName() == "errors.New" || fn.FullName() == "fmt.Errorf") {
								made[info.Defs[id]] = true
							}
						}
					}
				}
			}
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && v.Pkg() == fi.Obj.Pkg() && v.Parent() == v.Pkg().Scope() && v.Type().String() == "error" {
					globals = append(globals, v)
				}
			}
			if x, ok := n.(*ast.CallExpr); ok {
				var o types.Object
				switch fn := unparen(x.Fun).(type) {
				case *ast.Ident:
					o = info.Uses[fn]
				case *ast.SelectorExpr:
					o = info.Uses[fn.Sel]
				}
				if fi := f.t.w.ByObj[o]; fi != nil && depth < 4 && !seen[o] && f.t.contractOf(fi) == nil {
					seen[o] = true
					visit(fi.Pkg.Info, fi, depth+1, seen)
				}
			}
			return true
		})
	}
	if r := f.fi.Decl.Type.Results; r != nil {
		ast.Inspect(r, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := f.info().Defs[id].(*types.Var); ok {
					all = append(all, lv{o: v, ty: types.TypeString(v.Type(), q), mod: true})
				}
			}
			return true
		})
	}
	visit(f.info(), f.fi, 0, map[types.Object]bool{})
	inLoops := func(name string) bool {
		re := regexp.MustCompile(`\b` + name + `\b`)
		for _, l := range f.spec.Loops {
			text := l.Begin + l.End + l.Before + l.After
			for _, c := range l.Inv {
				text += c.Text
			}
			if re.MatchString(text) {
				return true
			}
		}
		return false
	}
	// a name says less than the place of the loop that the contract is about;
	// strings, byte slices and builders are the same to the contracts
	texts := map[string]bool{"string": true, "[]byte": true, "strings.Builder": true, "bytes.Buffer": true, "*strings.Builder": true}
	claimed := map[types.Object]bool{}
	for _, named := range []bool{true, false} {
		for _, l := range f.spec.Locals {
			done := false
			for _, w := range f.localsWanted {
				done = done || w == l.Name
			}
			if done {
				continue
			}
			best, bestScore := types.Object(nil), -1
			looped := inLoops(l.Name)
			for _, v := range all {
				if l.Type == "error" && len(globals) > 0 && !made[v.o] {
					continue
				}
				if claimed[v.o] || l.Opt && !v.mod || v.ty != l.Type && !(texts[v.ty] && texts[l.Type]) || named && v.o.Name() != l.Name {
					continue
				}
				s := 1
				if v.par {
					s = 0
				}
				if looped && v.loop {
					s += 4
				}
				if v.o.Name() == l.Name {
					s += 2
				}
				if v.ty == l.Type {
					s++
				}
				s = 8*s - v.deep
				if s > bestScore {
					best, bestScore = v.o, s
				}
			}
			// a variable of that name that is not near the loop: look further
			if named && bestScore >= 0 && looped && bestScore < 5*8-4 {
				others := false
				for _, v := range all {
					others = others || v.loop && v.ty == l.Type && !claimed[v.o]
				}
				if others {
					continue
				}
			}
			if best != nil {
				f.localsWanted[best] = l.Name
				claimed[best] = true
			} else if !named && l.Type == "error" && len(globals) > 0 {
				f.globalNames[l.Name] = f.t.globalVar(f, globals[0])
			}
		}
	}
	if f.spec.Variants {
		v, err := f.t.ss.variant(f.spec.Key, func(c string) bool {
			if n, ok := strings.CutPrefix(c, "loops=="); ok {
				return n == strconv.Itoa(loops)
			}
			if n, ok := strings.CutPrefix(c, "range:"); ok {
				i, _ := strconv.Atoi(n)
				return ranged[i]
			}
			inside := strings.HasPrefix(c, "inside:")
			for o, w := range f.localsWanted {
				if w == strings.TrimPrefix(c, "inside:") {
					in := false
					for _, b := range bodies {
						in = in || b.Pos() <= o.Pos() && o.Pos() < b.End()
					}
					return in || !inside
				}
			}
			return false
		})
		if err != nil {
			unsup("contract: %v", err)
		}
		sp := *f.spec
		sp.Entry, sp.Exit, sp.Loops, sp.Closures, sp.Hints, sp.Uses, sp.Decreases = v.Entry, v.Exit, v.Loops, v.Closures, v.Hints, v.Uses, v.Decreases
		f.spec = &sp
	}
}

type paramInfo struct {
	name string
	obj  types.Object
	ty   types.Type
}

func (f *fctx) paramList() []paramInfo {
	fi, sp := f.fi, f.spec
	sig := fi.Obj.Type().(*types.Signature)
	var ps []paramInfo
	i := 0
	if sig.Recv() != nil {
		var o types.Object
		if l := fi.Decl.Recv.List[0]; len(l.Names) > 0 {
			o = fi.Pkg.Info.Defs[l.Names[0]]
		}
		ps = append(ps, paramInfo{sp.Params[0], o, sig.Recv().Type()})
		i++
	}
	objs := paramObjs(fi.Pkg.Info, fi.Decl.Type)
	for k := 0; k < sig.Params().Len(); k++ {
		ps = append(ps, paramInfo{sp.Params[i], objs[k], sig.Params().At(k).Type()})
		i++
	}
	return ps
}

func (f *fctx) paramTy(p types.Type) string {
	if ptr, ok := p.Underlying().(*types.Pointer); ok {
		return f.t.ty(ptr.Elem())
	}
	if s := sigOf(p); s != nil && f.t.fnTrait(s) != "pure" {
		f.t.ty(p)
		f.fnGeneric = "F"
		return "F"
	}
	return f.t.ty(p)
}

// header writes the signature and the contract.
func (f *fctx) header(stub bool) (string, []outParam) {
	t, sp, fi := f.t, f.spec, f.fi
	sig := fi.Obj.Type().(*types.Signature)
	ps := f.paramList()
	var outs []outParam
	var args []string
	var comps, names []string
	gens := []string{}
	visTy := ""
	if sig.Recv() != nil {
		if n := namedOf(sig.Recv().Type()); n != nil && hasCell(t, n) {
			f.cells = "w_"
			f.cellT = n
			f.cellsT = cellType{n, t.namedName(n) + "_cell"}
			f.fnGeneric = "F"
			gens = append(gens, "F: "+t.cellTrait(n))
			visTy = t.namedName(n)
		}
	}
	generic := false
	for _, p := range ps {
		if n := namedOf(p.ty); n != nil && t.visitorIface(n) {
			generic = true
			gens = append(gens, "VT: "+t.namedName(n)+"_Tr")
			visTy = "VT::V"
		}
	}
	for _, p := range ps {
		if s := sigOf(p.ty); s != nil && t.fnTrait(s) != "pure" {
			gens = append(gens, "F: "+t.fnTrait(s))
			f.fnGeneric = "F"
		}
	}
	t.visTy = visTy
	if visTy == "" {
		// a local handle struct
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			if lit, ok := n.(*ast.CompositeLit); ok {
				if nn, ok := types.Unalias(fi.Pkg.Info.TypeOf(lit)).(*types.Named); ok && t.inModule(nn) && hasCell(t, nn) {
					t.visTy = t.namedName(nn)
				}
			}
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := fi.Pkg.Info.Defs[id].(*types.Var); ok {
					if nn, ok := types.Unalias(v.Type()).(*types.Named); ok && t.inModule(nn) && hasCell(t, nn) {
						t.visTy = t.namedName(nn)
					}
				}
			}
			return true
		})
	}
	for i := 0; i < sig.Results().Len(); i++ {
		comps = append(comps, t.ty(sig.Results().At(i).Type()))
		f.results = append(f.results, sig.Results().At(i).Type())
		if sig.Results().Len() == 1 {
			names = append(names, "result")
		} else {
			names = append(names, fmt.Sprintf("result%d", i))
		}
	}
	for _, p := range ps {
		ty := f.paramTy(p.ty)
		args = append(args, fmt.Sprintf("Ghost(%s): Ghost<%s>", p.name, ty))
		if isOut(t, sp, p.name, p.ty) {
			outs = append(outs, outParam{specName: p.name, obj: p.obj, ty: p.ty, tystr: ty})
			comps = append(comps, ty)
			names = append(names, p.name+"_out")
		}
	}
	if f.cells != "" || generic {
		wt := "VT::W"
		if !generic {
			wt = f.cellsT.name + "<F>"
		}
		args = append(args, fmt.Sprintf("Ghost(w_): Ghost<%s>", wt))
		outs = append(outs, outParam{specName: "w_", tystr: wt})
		comps = append(comps, wt)
		names = append(names, "w_out")
	}
	if sp.hasAlloc() {
		args = append(args, "Ghost(al_): Ghost<int>")
		outs = append(outs, outParam{specName: "al_", tystr: "int"})
		comps = append(comps, "int")
		names = append(names, "al_out")
	}
	ret := "()"
	if len(comps) == 1 {
		ret = comps[0]
	} else if len(comps) > 1 {
		ret = "(" + strings.Join(comps, ", ") + ")"
	}
	var b strings.Builder
	for _, a := range sp.Attrs {
		if a != "alloc" {
			fmt.Fprintf(&b, "#[%s]\n", a)
		}
	}
	if sp.Partial {
		fmt.Fprintf(&b, "#[verifier::exec_allows_no_decreases_clause]\n")
	}
	g := ""
	if len(gens) > 0 {
		g = "<" + strings.Join(gens, ", ") + ">"
	}
	fmt.Fprintf(&b, "pub fn %s%s(%s) -> (ret_: Ghost<%s>)\n", mangle(f.key), g, strings.Join(args, ", "), ret)
	if len(sp.Requires) > 0 {
		b.WriteString("    requires\n")
		for _, c := range sp.Requires {
			if t.active(c) {
				fmt.Fprintf(&b, "        (%s),\n", c.Text)
			}
		}
	}
	let := ""
	for i, n := range names {
		v := "ret_@"
		if len(names) > 1 {
			v = fmt.Sprintf("ret_@.%d", i)
		}
		let += fmt.Sprintf("let %s = %s; ", n, v)
	}
	var ens []string
	// frames below a pointer parameter
	for _, o := range outs {
		fr := f.autoFrame(o)
		if fr == "" {
			continue
		}
		id := 0
		if !stub {
			id = t.obl(f.key, "frame", "frame of "+o.specName, fr, f.pos(fi.Decl), "verus").ID
		}
		ens = append(ens, fmt.Sprintf("        ({ %s%s }), /*@O %d*/", let, fr, id))
	}
	for _, c := range sp.Ensures {
		if !t.active(c) {
			continue
		}
		id := 0
		if !stub {
			id = t.obl(f.key, "postcondition", c.Label, c.Text, f.pos(fi.Decl), "verus").ID
		}
		lines := strings.Split(fmt.Sprintf("({ %s%s }),", usedLets(names, let, c.Text), c.Text), "\n")
		for _, l := range lines {
			ens = append(ens, fmt.Sprintf("        %s /*@O %d*/", l, id))
		}
	}
	if len(ens) > 0 {
		b.WriteString("    ensures\n" + strings.Join(ens, "\n") + "\n")
	}
	if sp.Decreases != "" {
		fmt.Fprintf(&b, "    decreases %s,\n", sp.Decreases)
	}
	return b.String(), outs
}

// usedLets keeps only the bindings a clause mentions.
func usedLets(names []string, let, text string) string {
	r := ""
	for _, l := range strings.Split(strings.TrimSpace(let), "; ") {
		l = strings.TrimSuffix(strings.TrimSpace(l), ";")
		if l == "" {
			continue
		}
		n := strings.Fields(strings.TrimPrefix(l, "let "))[0]
		if strings.Contains(text, n) {
			r += l + "; "
		}
	}
	return r
}

func (t *Tr) cellTrait(n *types.Named) string {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sig := sigOf(s.Field(i).Type()); sig != nil && t.fnTrait(sig) != "pure" {
			return t.fnTrait(sig)
		}
	}
	return "Sized"
}

// autoFrame: the fields not listed under @modifies are unchanged.
func (f *fctx) autoFrame(o outParam) string {
	if o.ty == nil {
		return ""
	}
	var fields []string
	for _, m := range f.spec.Modifies {
		if m == o.specName {
			return ""
		}
		if strings.HasPrefix(m, o.specName+".") {
			fields = append(fields, strings.Split(m, ".")[1])
		}
	}
	if len(fields) == 0 {
		return ""
	}
	var fs []string
	sort.Strings(fields)
	last := ""
	for _, x := range fields {
		if x == last {
			continue
		}
		last = x
		fs = append(fs, fmt.Sprintf("%s: %s_out.%s", rn(x), o.specName, rn(x)))
	}
	return fmt.Sprintf("%s_out == %s { %s, ..%s }", o.specName, o.tystr, strings.Join(fs, ", "), o.specName)
}

// assumeRange: signed integers are mathematical ones in the translation, whose
// arithmetic is checked not to overflow. Those that come in are in range.
func (f *fctx) assumeRange(val string, t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok && f.t.isPlain(p.Elem()) {
			f.rangeFields(val, st)
		}
		return
	}
	if n := sbits(t); n > 0 {
		f.emit("proof { assume(go_in_i%d(%s)); } /*@A*/", n, val)
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok && f.t.isPlain(t) {
		f.rangeFields(val, st)
	}
}

func (f *fctx) rangeFields(val string, st *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, ptr := ft.Underlying().(*types.Pointer); !ptr {
			f.assumeRange(val+"."+rn(st.Field(i).Name()), ft)
		}
	}
}

// isPlain: a struct of the module that is translated to a struct.
func (t *Tr) isPlain(ty types.Type) bool {
	n, ok := types.Unalias(ty).(*types.Named)
	return ok && t.inModule(n) && !hasCell(t, n)
}

// bindParams makes the parameters available to the body.
func (f *fctx) bindParams() {
	for _, p := range f.paramList() {
		ty := f.paramTy(p.ty)
		f.emit("let ghost old_%s: %s = %s;", p.name, ty, p.name)
		f.emit("let ghost mut %s: %s = %s;", p.name, ty, p.name)
		f.used[p.name] = true
		f.params[p.name] = true
		if p.obj == nil {
			continue
		}
		f.assumeRange(p.name, p.ty)
		b := &bind{name: p.name, ty: p.ty, param: true}
		if ptr, ok := p.ty.Underlying().(*types.Pointer); ok {
			b.alias = &place{root: p.name, rootT: ptr.Elem()}
			if f.ptrParams == nil {
				f.ptrParams = map[string]bool{}
			}
			f.ptrParams[p.name] = true
			if !f.spec.modifies(p.name) {
				f.frameChecks = append(f.frameChecks, p.name)
			}
		}
		f.fr.vars[p.obj] = b
	}
	if f.cells != "" {
		f.emit("let ghost mut w_ = w_;")
	} else if strings.Contains(f.t.visTy, "VT") {
		f.emit("let ghost mut w_ = w_;")
	}
	if f.alloc {
		f.emit("let ghost old_al_: int = al_;")
		f.emit("let ghost mut al_: int = al_;")
	}
}
