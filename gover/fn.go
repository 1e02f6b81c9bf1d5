package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// ---- places -------------------------------------------------------------

type pelem struct {
	kind  byte // f field, i index, m map key, o option payload
	name  string
	cont  types.Type // container type
	after types.Type
	zero  string
}

type place struct {
	root  string
	rootT types.Type
	elems []pelem
}

func (p place) typ() types.Type {
	if len(p.elems) == 0 {
		return p.rootT
	}
	return p.elems[len(p.elems)-1].after
}

func (p place) readTo(n int) string {
	s := p.root
	for _, e := range p.elems[:n] {
		switch e.kind {
		case 'f':
			s += "." + e.name
		case 'i':
			s += "[" + e.name + "]"
		case 'm':
			s = "go_map_get(" + s + ", " + e.name + ", " + e.zero + ")"
		case 'o':
			s += "->0"
		}
	}
	return s
}

func (p place) read() string { return p.readTo(len(p.elems)) }

// write gives the new value of the root.
func (f *fctx) placeWrite(p place, val string) string {
	v := val
	for n := len(p.elems) - 1; n >= 0; n-- {
		e := p.elems[n]
		base := p.readTo(n)
		switch e.kind {
		case 'f':
			v = fmt.Sprintf("%s { %s: %s, ..%s }", f.structName(e.cont), e.name, v, base)
		case 'i':
			v = fmt.Sprintf("%s.update(%s, %s)", base, e.name, v)
		case 'm':
			v = fmt.Sprintf("%s.put(%s, %s)", base, e.name, v)
		case 'o':
			v = "Some(" + v + ")"
		}
	}
	return v
}

func (f *fctx) structName(t types.Type) string {
	if c, ok := t.(cellType); ok {
		return c.name
	}
	return f.t.ty(t)
}

// cellType is the pseudo type of a threaded cell struct.
type cellType struct {
	types.Type
	name string
}

// ---- frames and bindings --------------------------------------------------

type bind struct {
	name  string
	ty    types.Type
	alias *place
	param bool
	clo   *closure // local function literal
	cloFr *frame
}

type frame struct {
	parent *frame
	vars   map[types.Object]*bind
	fi     *FuncInfo
	spec   *FuncSpec // loop annotations
	clo    *ClosureSpec
	info   *types.Info
	inline bool
	// inline return handling
	resVars     []string
	resT        []types.Type
	named       []types.Object
	retFlag     string
	retUsed     bool
	loopOrd     map[ast.Node]int
	nloop       *int
	prefix      string
	jumps       []jumpTarget
	callerLoops *frame
}

type closure struct {
	lit  *ast.FuncLit
	name string // struct name
}

type outParam struct {
	specName string // name in the contract
	obj      types.Object
	ty       types.Type
	tystr    string
	mutated  bool
}

type fctx struct {
	t            *Tr
	fi           *FuncInfo
	spec         *FuncSpec
	fr           *frame
	key          string
	lines        []string
	ind          int
	used         map[string]bool
	tmpN, retN   int
	outs         []outParam
	results      []types.Type
	pure         int // >0: collecting a pure expression, no statements allowed
	pureObl      *[]string
	cloN         int
	cloDone      map[*ast.FuncLit]bool
	cloSets      []string
	extra        []string // generated closure impls
	generics     string
	callN        map[string]int
	depth        int
	cells        string
	cellsT       cellType
	inClosure    bool
	alloc        bool
	localsWanted map[types.Object]string
	globalNames  map[string]string // locals of the contract that are package variables
	fnGeneric    string
	subst        map[string]string
	frameChecks  []string
	cellT        *types.Named
	ev           []event
	loopID       []int
	loopSeq      int
	params       map[string]bool
	ptrParams    map[string]bool
	curPos       string
	noEv         int
	pureLens     []string // lengths read in the pure expression under translation
	lits         []*ast.FuncLit
	multi        bool                     // the statement has several calls
	frozen       bool                     // indices of places are frozen
	frozenCall   map[string]*ast.CallExpr // temporaries that hold the value of a call
	selfRead     string                   // the place assigned to
	pureWrites   []func()                 // writes of the pure expression under translation
	inl          map[*ast.CallExpr]*frame // of calls inlined as expressions
	inlPure      *frame
	inlDepth     int
	ranges       []rangeCur      // loops over containers
	pureReads    []string        // variables read in the pure expression under translation
	guards       []string        // what pointers point into
	returning    *ast.ReturnStmt // the return statement under translation
	target       string          // where the value of the assignment goes
}

func (f *fctx) emit(format string, a ...any) {
	if f.pure > 0 {
		panic(notPure{})
	}
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	for _, l := range strings.Split(s, "\n") {
		f.lines = append(f.lines, strings.Repeat("    ", f.ind)+l)
	}
}

type notPure struct{}

func (f *fctx) pos(n ast.Node) string {
	p := f.t.w.Fset.Position(n.Pos())
	return strings.TrimPrefix(p.Filename, f.t.w.Root+"/") + ":" + fmt.Sprint(p.Line)
}

func (f *fctx) check(cond, kind string, n ast.Node, text string) {
	if cond == "true" {
		return
	}
	if f.pure > 0 {
		*f.pureObl = append(*f.pureObl, "("+cond+")")
		return
	}
	o := f.t.obl(f.key, kind, kind, text, f.pos(n), "verus")
	f.emit("proof { assert(%s); } /*@O %d*/", cond, o.ID)
}

func (f *fctx) ghostSet(name, val string) { f.emit("proof { %s = %s; }", name, val) }

func (f *fctx) fresh(base string) string {
	base = rn(base)
	if !f.used[base] {
		f.used[base] = true
		return base
	}
	for i := 2; ; i++ {
		n := fmt.Sprintf("%s_%d", base, i)
		if !f.used[n] {
			f.used[n] = true
			return n
		}
	}
}

func (f *fctx) tmp() string {
	f.tmpN++
	return fmt.Sprintf("t%d_", f.tmpN)
}

func (f *fctx) lookup(o types.Object) *bind {
	for fr := f.fr; fr != nil; fr = fr.parent {
		if b, ok := fr.vars[o]; ok {
			return b
		}
	}
	return nil
}

func (f *fctx) objName(o types.Object) string {
	if w, ok := f.localsWanted[o]; ok {
		f.used[w] = true
		return w
	}
	return f.fresh(o.Name())
}

// declare introduces a Go variable.
func (f *fctx) declare(o types.Object, val string) {
	if o == nil || o.Name() == "_" {
		return
	}
	b := &bind{name: f.objName(o), ty: o.Type()}
	f.fr.vars[o] = b
	f.emit("let ghost mut %s: %s = %s;", b.name, f.t.ty(o.Type()), val)
	f.event('d', b.name, "")
	if f.noEv == 0 && hasContainer(o.Type(), nil) {
		f.evVal(b.name, val)
	}
}

// evVal classifies a translated value.
func (f *fctx) evVal(path, val string) {
	if q, ok := valuePath(val); ok {
		f.event('c', path, q)
		return
	}
	for _, p := range []string{"Seq::<", "GoMap::<", "go_make::", "Option::<"} {
		if strings.HasPrefix(val, p) && !strings.Contains(val, ".push(") && !strings.Contains(val, ".put(") {
			f.event('a', path, "")
			return
		}
	}
	if items, ok := seqItems(val); ok && items[0][0] >= '0' && items[0][0] <= '9' {
		f.event('a', path, "")
		return
	}
	f.foreign(path, nil, val)
}

func (f *fctx) info() *types.Info { return f.fr.info }

func (f *fctx) typeOf(e ast.Expr) types.Type {
	tv, ok := f.info().Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info().ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	unsup("no type for expression")
	return nil
}

// ---- lvalues ---------------------------------------------------------------

func (f *fctx) lvalue(e ast.Expr) place {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.lvalue(x.X)
	case *ast.Ident:
		o := f.info().ObjectOf(x)
		b := f.lookup(o)
		if b == nil {
			unsup("assignment to package variable %s", x.Name)
		}
		if b.alias != nil {
			return *b.alias
		}
		return place{root: b.name, rootT: b.ty}
	case *ast.StarExpr:
		return f.derefPlace(x.X, x)
	case *ast.SelectorExpr:
		sel := f.info().Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
			unsup("selector %s", x.Sel.Name)
		}
		fv := sel.Obj().(*types.Var)
		if isCellField(f.t, fv) {
			return place{root: f.cells, rootT: f.cellsT, elems: []pelem{{kind: 'f', name: rn(fv.Name()), cont: f.cellsT, after: fv.Type()}}}
		}
		var base place
		bt := f.typeOf(x.X)
		if _, isP := bt.Underlying().(*types.Pointer); isP {
			base = f.derefPlace(x.X, x)
		} else {
			base = f.lvalue(x.X)
		}
		base.elems = append(append([]pelem{}, base.elems...), pelem{kind: 'f', name: rn(x.Sel.Name), cont: base.typ(), after: fv.Type()})
		return base
	case *ast.IndexExpr:
		bt := f.typeOf(x.X).Underlying()
		var base place
		if p, ok := bt.(*types.Pointer); ok {
			base = f.derefPlace(x.X, x)
			bt = p.Elem().Underlying()
		} else {
			base = f.lvalue(x.X)
		}
		switch u := bt.(type) {
		case *types.Map:
			k := f.hoist(f.exprTo(x.Index, u.Key()), u.Key())
			if f.frozen {
				k = f.freeze(k, u.Key())
			}
			base.elems = append(append([]pelem{}, base.elems...), pelem{kind: 'm', name: k, cont: base.typ(), after: u.Elem(), zero: f.t.zero(u.Elem())})
			return base
		case *types.Slice, *types.Array:
			idx := f.hoistInt(f.intExpr(x.Index))
			if f.frozen && f.pure == 0 && !isLiteral(idx) {
				n := f.tmp()
				f.emit("let ghost %s: int = %s;", n, idx)
				idx = n
			}
			f.check(fmt.Sprintf("0 <= %s < %s.len()", idx, base.read()), "bounds", x, "index in range")
			var el types.Type
			if s, ok := u.(*types.Slice); ok {
				el = s.Elem()
			} else {
				el = u.(*types.Array).Elem()
			}
			base.elems = append(append([]pelem{}, base.elems...), pelem{kind: 'i', name: idx, cont: base.typ(), after: el})
			return base
		}
	}
	unsup("assignment target at %s", f.pos(e))
	return place{}
}

// derefPlace is the place *e for pointer-typed e.
func (f *fctx) derefPlace(e ast.Expr, n ast.Node) place {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return f.addressed(u.X)
	}
	if id, ok := e.(*ast.Ident); ok {
		b := f.lookup(f.info().ObjectOf(id))
		if b != nil && b.alias != nil {
			return *b.alias
		}
	}
	pt := f.typeOf(e).Underlying().(*types.Pointer)
	if sx, ok := e.(*ast.SelectorExpr); ok {
		if sel := f.info().Selections[sx]; sel != nil {
			if fv, ok := sel.Obj().(*types.Var); ok && isCellField(f.t, fv) {
				// the cell itself is the pointee
				return place{root: f.cells, rootT: f.cellsT, elems: []pelem{{kind: 'f', name: rn(fv.Name()), cont: f.cellsT, after: pt.Elem()}}}
			}
		}
	}
	base := f.lvalueOrTmp(e)
	f.check(fmt.Sprintf("%s is Some", base.read()), "nil-deref", n, "pointer is not nil")
	base.elems = append(append([]pelem{}, base.elems...), pelem{kind: 'o', cont: base.typ(), after: pt.Elem()})
	return base
}

func (f *fctx) lvalueOrTmp(e ast.Expr) place {
	switch e.(type) {
	case *ast.CallExpr, *ast.CompositeLit, *ast.TypeAssertExpr:
		t := f.typeOf(e)
		v := f.hoist(f.expr(e), t)
		if n := bare(v); f.pure == 0 && n != v && isTemp(n) && rootOf(n) == n {
			// the temporary may be written through its address
			m := f.tmp()
			f.emit("let ghost mut %s: %s = %s;", m, f.t.ty(t), n)
			f.evCopy(m, n, t)
			v = m
		}
		return place{root: v, rootT: t}
	}
	return f.lvalue(e)
}

func (f *fctx) assignPlace(p place, val string) {
	// map writes need a non-nil map
	for n, e := range p.elems {
		if e.kind == 'm' {
			f.check(fmt.Sprintf("!%s.isnil", p.readTo(n)), "nil-map", f.fi.Decl, "map is not nil")
		}
	}
	f.checkGuards(p)
	f.evWrite(p)
	f.ghostSet(p.root, f.placeWrite(p, val))
}

// hoist evaluates once into a ghost temporary (in pure mode: no-op).
func (f *fctx) hoist(val string, t types.Type) string {
	if f.pure > 0 || simpleVal(val) {
		return "(" + val + ")"
	}
	n := f.tmp()
	f.emit("let ghost %s: %s = %s;", n, f.t.ty(t), val)
	f.evCopy(n, val, t)
	return n
}

func (f *fctx) hoistInt(val string) string {
	if f.pure > 0 || simpleVal(val) {
		return val
	}
	n := f.tmp()
	f.emit("let ghost %s: int = %s;", n, val)
	return n
}

func simpleVal(s string) bool {
	for _, c := range s {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

// ---- pure sub-evaluation ---------------------------------------------------

// tryPure evaluates fn without emitting statements; obligations are returned.
func (f *fctx) tryPure(fn func() string) (val string, obls []string, ok bool) {
	saveObl, savePure := f.pureObl, f.pure
	tmp, used := f.tmpN, len(f.t.obls)
	fr := f.fr
	if f.pure == 0 {
		f.pureLens, f.pureReads, f.pureWrites = nil, nil, nil
	}
	f.pureObl, f.pure = &obls, f.pure+1
	defer func() {
		f.pureObl, f.pure = saveObl, savePure
		if r := recover(); r != nil {
			if _, is := r.(notPure); is {
				f.fr = fr
				f.tmpN = tmp
				f.t.obls = f.t.obls[:used]
				ok = false
				return
			}
			panic(r)
		}
	}()
	val = fn()
	if savePure == 0 {
		f.pure = 0
		for _, r := range f.pureReads {
			f.event('r', r, "")
		}
		writes := f.pureWrites
		for _, w := range writes {
			w()
		}
		f.pureWrites = writes
	}
	return val, obls, true
}

// flushLens states that the lengths read by a pure expression are bounded.
func (f *fctx) flushLens() {
	if f.pure > 0 {
		return
	}
	done := map[string]bool{}
	for _, l := range f.pureLens {
		if !done[l] && !boundVarRe.MatchString(l) {
			done[l] = true
			f.emit("proof { assume(%s <= GO_MAXLEN); } /*@A*/", l)
			f.t.assumes = append(f.t.assumes, f.key+": no container has more than 2^56 elements")
		}
	}
	f.pureLens = nil
}

var boundVarRe = regexp.MustCompile(`\bx_\b`)

func (f *fctx) addPureObls(guard string, obls []string, n ast.Node) {
	for _, o := range obls {
		c := o
		if guard != "" {
			c = guard + " ==> " + o
		}
		f.check(c, "safety", n, c)
	}
}
