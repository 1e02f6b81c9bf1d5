package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// Slices, maps and pointees are values in the translation. That is faithful
// only while no container is written through one name and seen through
// another. Every write to a container element therefore yields a frame
// obligation, decided here: the container is fresh in this function (built by
// make, a literal, append to a fresh slice, ...), not handed to anything else
// before the write, or listed in the contract under @modifies / @owns.

type event struct {
	kind  byte // w write to a container, W write to anything below, a assign fresh, n assign foreign, c copy from another path, m moved, d declare
	path  string
	from  string
	loops []int
	pos   string
}

var theTr *Tr

// sealed: only this module can implement it, a method being unexported
func sealed(n *types.Named, u *types.Interface) bool {
	if theTr == nil || !theTr.inModule(n) {
		return false
	}
	for i := 0; i < u.NumMethods(); i++ {
		if !u.Method(i).Exported() {
			return true
		}
	}
	return false
}

// ifaceContainer: some implementation holds a container.
func (t *Tr) ifaceContainer(n *types.Named, u *types.Interface, seen map[types.Type]bool) bool {
	for _, p := range t.w.Order {
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if nt.TypeParams().Len() > 0 {
				return true
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, u) {
				if hasContainer(nt, seen) {
					return true
				}
			} else if types.Implements(types.NewPointer(nt), u) {
				return true
			}
		}
	}
	return false
}

func hasContainer(t types.Type, seen map[types.Type]bool) bool {
	if seen == nil {
		seen = map[types.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch stdName(t) {
	case "strings.Builder", "bytes.Buffer":
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if isError(t) {
			return false
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && sealed(n, u) {
			return theTr.ifaceContainer(n, u, seen)
		}
		return true
	case *types.Slice, *types.Map, *types.Pointer:
		return !isError(t)
	case *types.Array:
		return hasContainer(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasContainer(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// evPath is the path of a place; the parameter of an inlined function may
// stand for a value.
func (f *fctx) evPath(p place) (string, bool) {
	q := p.path(len(p.elems))
	if simpleVal(p.root) {
		return q, true
	}
	r, ok := valuePath(p.root)
	if !ok {
		return "", false
	}
	return r + q[len(p.root):], true
}

// appendWrites: append writes behind the elements of its slice.
func (f *fctx) appendWrites(e ast.Expr) {
	if f.pure > 0 {
		fr := f.fr
		f.pureWrites = append(f.pureWrites, func() {
			save := f.fr
			f.fr = fr
			f.appendWrites(e)
			f.fr = save
		})
		return
	}
	if p, ok := f.placeOf(e); ok {
		if q, ok := f.evPath(p); ok {
			f.event('w', q, "")
			return
		}
	}
	if isNilIdent(f.info(), e) {
		return
	}
	n := f.tmp()
	f.evExpr(n, e, "")
	f.event('w', n, "")
}

func (p place) path(n int) string {
	s := p.root
	for _, e := range p.elems[:n] {
		switch e.kind {
		case 'f':
			s += "." + e.name
		default:
			s += ".[]"
		}
	}
	return s
}

func pathPrefix(a, b string) bool { return a == b || strings.HasPrefix(b, a+".") }

func (f *fctx) event(k byte, path, from string) {
	if f.pure > 0 {
		return
	}
	f.ev = append(f.ev, event{k, path, from, append([]int{}, f.loopID...), f.curPos})
}

// evWrite records a write to a place: the innermost container on the way is
// what changes.
func (f *fctx) evWrite(p place) {
	f.event('v', p.path(len(p.elems)), "")
	last := -1
	for i, e := range p.elems {
		if e.kind == 'm' || e.kind == 'o' {
			last = i
		}
		if e.kind == 'i' {
			if _, ok := e.cont.Underlying().(*types.Slice); ok {
				last = i
			}
		}
	}
	if last >= 0 {
		seq := ""
		if last == len(p.elems)-1 {
			for _, r := range f.ranges {
				if r.path == p.path(last) && (p.elems[last].name == r.key || p.elems[last].name == "("+r.key+")") {
					seq = r.seq
				}
			}
		}
		f.event('w', p.path(last), seq)
	} else if f.ptrParams[p.root] {
		f.event('w', p.path(len(p.elems)), "")
	}
}

func (p place) inContainer() bool {
	for _, e := range p.elems {
		if e.kind == 'm' || e.kind == 'o' {
			return true
		}
		if e.kind == 'i' {
			if _, ok := e.cont.Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	return false
}

// evAssign records that a place now holds the value of e.
func (f *fctx) evAssign(path string, e ast.Expr, t types.Type, val string) {
	if !hasContainer(t, nil) {
		return
	}
	f.evExpr(path, e, val)
}

// evAssignTo is evAssign to a place; appending to it or cutting it off is no copy.
func (f *fctx) evAssignTo(p place, read string, e ast.Expr, t types.Type, val string) {
	save := f.selfRead
	f.selfRead = read
	f.evAssign(p.path(len(p.elems)), e, t, val)
	f.selfRead = save
}

func (f *fctx) evCopy(name, val string, t types.Type) {
	if q, ok := valuePath(val); ok {
		f.event('c', name, q)
	} else if t == nil || hasContainer(t, nil) {
		f.evVal(name, val)
	}
}

// readPath recognises a value string that is the plain read of a place.
func readPath(val string) (string, bool) {
	val = strings.TrimSuffix(strings.TrimPrefix(val, "("), ")")
	parts := strings.Split(val, ".")
	for _, p := range parts {
		if !simpleVal(p) || p == "" || p[0] >= '0' && p[0] <= '9' {
			if p == "0" || p == "1" || p == "2" || p == "3" {
				continue
			}
			return "", false
		}
	}
	return val, true
}

// valuePath is readPath for elements and parts of places as well.
func valuePath(val string) (string, bool) {
	val = strings.TrimSpace(val)
	for strings.HasPrefix(val, "(") && closing(val, 0) == len(val)-1 {
		val = val[1 : len(val)-1]
	}
	if q, ok := readPath(val); ok && !strings.ContainsAny(val, "()") {
		return q, true
	}
	if strings.HasPrefix(val, "go_map_get(") {
		if e := closing(val, len("go_map_get(")-1); e > 0 {
			if a := topArgs(val[len("go_map_get("):e]); len(a) >= 2 {
				q, ok := valuePath(a[0])
				return restPath(q+".[]", val[e+1:], ok)
			}
		}
		return "", false
	}
	n := 0
	if strings.HasPrefix(val, "(") {
		if n = closing(val, 0) + 1; n <= 0 {
			return "", false
		}
	} else {
		for n < len(val) && (val[n] == '_' || val[n] >= '0' && val[n] <= '9' || val[n] >= 'a' && val[n] <= 'z' || val[n] >= 'A' && val[n] <= 'Z') {
			n++
		}
	}
	if n == 0 || n == len(val) {
		return "", false
	}
	q, ok := valuePath(val[:n])
	return restPath(q, val[n:], ok)
}

// restPath follows the reads after a path.
func restPath(q, rest string, ok bool) (string, bool) {
	for rest != "" && ok {
		switch {
		case strings.HasPrefix(rest, ".m["):
			e := closing(rest, 2)
			if e < 0 {
				return "", false
			}
			q, rest = q+".[]", rest[e+1:]
		case rest[0] == '[':
			e := closing(rest, 0)
			if e < 0 {
				return "", false
			}
			q, rest = q+".[]", rest[e+1:]
		case strings.HasPrefix(rest, "->0"):
			q, rest = q+".[]", rest[3:]
		case rest[0] == '.':
			m := identPathRe.FindString(rest[1:])
			if m == "" || !strings.HasPrefix(rest[1:], m) {
				return "", false
			}
			if i := strings.Index(m, "."); i >= 0 {
				m = m[:i]
			}
			after := rest[1+len(m):]
			if strings.HasPrefix(after, "(") {
				e := closing(after, 0)
				if e < 0 || m != "skip" && m != "take" && m != "subrange" {
					return "", false
				}
				rest = after[e+1:]
				continue
			}
			if strings.HasPrefix(after, ":") {
				return "", false
			}
			q, rest = q+"."+m, after
		default:
			return "", false
		}
	}
	return q, ok
}

// closing gives the bracket that matches the one at i.
func closing(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			if d--; d == 0 {
				return i
			}
		case '"', '\'':
			return -1
		}
	}
	return -1
}

func topArgs(s string) []string {
	var r []string
	d, from := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, s[from:i])
				from = i + 1
			}
		}
	}
	return append(r, s[from:])
}

func (f *fctx) evExpr(path string, e ast.Expr, val string) {
	if e == nil {
		f.event('a', path, "")
		return
	}
	e = unparen(e)
	if isNilIdent(f.info(), e) {
		f.event('a', path, "")
		return
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		f.event('a', path, "")
		t := f.typeOf(x)
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i, el := range x.Elts {
				name := ""
				v := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					name = kv.Key.(*ast.Ident).Name
					v = kv.Value
				} else {
					name = st.Field(i).Name()
				}
				if hasContainer(f.typeOf(v), nil) || isNilIdent(f.info(), v) {
					f.evExpr(path+"."+rn(name), v, "")
				}
			}
			return
		}
		for _, el := range x.Elts {
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				v = kv.Value
			}
			if c, ok := v.(*ast.CompositeLit); ok && c.Type == nil {
				continue
			}
			if hasContainer(f.typeOf(v), nil) {
				f.evExpr(path+".[]", v, "")
			}
		}
		return
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, lit := unparen(x.X).(*ast.CompositeLit); !lit {
				if f.leaving(x.X) {
					f.evExpr(path, x.X, "")
					return
				}
				// a pointer to something that is also reached by its name
				if p, ok := f.placeOf(x.X); ok {
					f.event('s', path, p.path(len(p.elems)))
				}
				f.foreign(path, x, val)
				return
			}
			f.evExpr(path, x.X, "")
			return
		}
	case *ast.SliceExpr:
		if isString(f.typeOf(x.X)) {
			f.event('a', path, "")
			return
		}
		if t := f.typeOf(x.X).Underlying(); !isSlice(t) {
			// a slice of an array stays part of the array
			if p, ok := f.placeOf(x.X); ok {
				f.event('s', path, p.path(len(p.elems)))
			}
			f.foreign(path, x, val)
			return
		}
		f.evExpr(path, x.X, "")
		return
	case *ast.CallExpr:
		fun := unparen(x.Fun)
		if tv := f.info().Types[fun]; tv.IsType() {
			if isString(f.typeOf(x.Args[0])) || isString(tv.Type) {
				f.event('a', path, "")
				return
			}
			f.evExpr(path, x.Args[0], "")
			return
		}
		if id, ok := fun.(*ast.Ident); ok {
			if b, ok := f.info().Uses[id].(*types.Builtin); ok {
				switch b.Name() {
				case "make", "new":
					f.event('a', path, "")
				case "append":
					f.evExpr(path, x.Args[0], "")
					el := f.typeOf(x).Underlying().(*types.Slice).Elem()
					if !hasContainer(el, nil) {
						return
					}
					for _, a := range x.Args[1:] {
						if x.Ellipsis != token.NoPos {
							if p, ok := f.placeOf(a); ok {
								f.event('c', path+".[]", p.path(len(p.elems))+".[]")
							} else {
								f.foreign(path+".[]", a, "")
							}
							continue
						}
						f.evExpr(path+".[]", a, "")
					}
				default:
					f.foreign(path, x, val)
				}
				return
			}
		}
		if fn := f.staticCallee(fun); fn != nil {
			if fi := f.t.w.ByObj[fn]; fi != nil {
				if sp := f.t.contractOf(fi); sp != nil {
					if q, ok := valuePath(val); ok {
						f.event('c', path, q)
					} else if sp.fresh(0) {
						f.event('a', path, "")
					} else {
						f.foreign(path, x, val)
					}
					return
				}
			} else {
				switch fn.FullName() {
				case "io.ReadAll", "(*bytes.Buffer).Bytes", "(*strings.Builder).String", "(bytes.Buffer).Bytes":
					f.event('a', path, "")
					return
				}
			}
		}
		if q, ok := valuePath(val); ok {
			// what an inlined function gives back may be what the place holds
			if fi := f.t.w.ByObj[f.staticCallee(fun)]; fi != nil && f.selfRead != "" && f.frozenCall[q] == x && f.inl[x] != nil && f.inlinedValue(path, fi, x, "") {
				return
			}
			f.event('c', path, q)
			return
		}
		if fn := f.staticCallee(fun); fn != nil {
			if fi := f.t.w.ByObj[fn]; fi != nil && f.inlinedValue(path, fi, x, val) {
				return
			}
		}
		f.foreign(path, x, val)
		return
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if p, ok := f.placeOf(x); ok {
			q, ok := f.evPath(p)
			if !ok {
				if p.root == "" || len(p.elems) > 0 {
					f.foreign(path, nil, p.root)
				} else {
					f.evVal(path, p.root)
				}
				return
			}
			if q != path || f.selfRead == "" || bare(p.read()) != bare(f.selfRead) {
				f.event('c', path, q)
			}
			return
		}
	}
	f.foreign(path, e, val)
}

var parenName = regexp.MustCompile(`([ (,])\((\w+)\)`)

// bare strips the parentheses around a value and the names in it.
func bare(v string) string {
	v = parenName.ReplaceAllString(v, "$1$2")
	for len(v) > 2 && v[0] == '(' && closing(v, 0) == len(v)-1 {
		v = v[1 : len(v)-1]
	}
	return v
}

// inlinedValue: the value of an inlined one-line function.
func (f *fctx) inlinedValue(path string, fi *FuncInfo, x *ast.CallExpr, val string) bool {
	if fr := f.inl[x]; fr != nil {
		return f.inlinedReturns(path, fi, fr)
	}
	l := fi.Decl.Body.List
	if len(l) != 1 || fi.Decl.Recv != nil || x.Ellipsis != token.NoPos || fi.Obj.Type().(*types.Signature).Variadic() {
		return false
	}
	r, ok := l[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return false
	}
	args := map[types.Object]ast.Expr{}
	for i, o := range paramObjs(fi.Pkg.Info, fi.Decl.Type) {
		if o != nil {
			args[o] = x.Args[i]
		}
	}
	return f.evBuilt(path, unparen(r.Results[0]), fi.Pkg.Info, args, false) && f.evBuilt(path, unparen(r.Results[0]), fi.Pkg.Info, args, true)
}

// inlinedReturns: what a function inlined as an expression may return.
func (f *fctx) inlinedReturns(path string, fi *FuncInfo, fr *frame) bool {
	var rets []ast.Expr
	ok := true
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		switch r := n.(type) {
		case *ast.FuncLit:
			ok = false
			return false
		case *ast.ReturnStmt:
			if len(r.Results) != 1 {
				ok = false
				return false
			}
			rets = append(rets, r.Results[0])
		}
		return true
	})
	if !ok || len(rets) == 0 || f.inlDepth > 8 {
		return false
	}
	save, self, ret := f.fr, f.selfRead, f.returning
	f.fr = fr
	f.returning = nil
	f.inlDepth++
	var one func(i int)
	one = func(i int) {
		if i == len(rets)-1 {
			f.evExpr(path, rets[i], "")
			return
		}
		f.flow('I', "")
		f.evExpr(path, rets[i], "")
		f.flow('E', "")
		f.selfRead = self
		one(i + 1)
		f.flow('X', "")
	}
	one(0)
	f.inlDepth--
	f.fr, f.selfRead, f.returning = save, self, ret
	return true
}

// evBuilt: a composite literal over the arguments of a call.
func (f *fctx) evBuilt(path string, e ast.Expr, info *types.Info, args map[types.Object]ast.Expr, emit bool) bool {
	t := info.Types[e].Type
	if isNilIdent(info, e) {
		if emit {
			f.event('a', path, "")
		}
		return true
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.evBuilt(path, x.X, info, args, emit)
	case *ast.Ident:
		if a, ok := args[info.Uses[x]]; ok {
			if emit {
				f.evExpr(path, a, "")
			}
			return true
		}
	case *ast.UnaryExpr:
		if _, lit := unparen(x.X).(*ast.CompositeLit); lit && x.Op == token.AND {
			return f.evBuilt(path, unparen(x.X), info, args, emit)
		}
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "make" || b.Name() == "new") {
				if emit {
					f.event('a', path, "")
				}
				return true
			}
		}
	case *ast.CompositeLit:
		if emit {
			f.event('a', path, "")
		}
		st, isStruct := t.Underlying().(*types.Struct)
		for i, el := range x.Elts {
			sub := path + ".[]"
			v := el
			kv, keyed := el.(*ast.KeyValueExpr)
			if keyed {
				v = kv.Value
			}
			vt := info.Types[v].Type
			if isStruct {
				n := ""
				if keyed {
					n = kv.Key.(*ast.Ident).Name
				} else {
					n = st.Field(i).Name()
				}
				sub = path + "." + rn(n)
			}
			if vt == nil || !isNilIdent(info, v) && !hasContainer(vt, nil) {
				continue
			}
			if !f.evBuilt(sub, v, info, args, emit) {
				return false
			}
		}
		return true
	}
	return false
}

// leaving tells whether e is a local variable named once in the return
// statement being translated: nothing reaches it by its name afterwards.
func (f *fctx) leaving(e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || f.returning == nil || f.inClosure {
		return false
	}
	v, ok := f.info().Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Parent() == nil || v.Parent() == v.Pkg().Scope() {
		return false
	}
	n := 0
	ast.Inspect(f.returning, func(m ast.Node) bool {
		if i, ok := m.(*ast.Ident); ok && f.info().Uses[i] == v {
			n++
		}
		return true
	})
	if f.fr.fi == nil || n != 1 {
		return false
	}
	captured := false
	ast.Inspect(f.fr.fi.Decl, func(m ast.Node) bool {
		lit, ok := m.(*ast.FuncLit)
		if !ok || lit.Pos() <= v.Pos() && v.Pos() < lit.End() {
			return true
		}
		ast.Inspect(lit, func(m ast.Node) bool {
			if i, ok := m.(*ast.Ident); ok && f.info().Uses[i] == v {
				captured = true
			}
			return true
		})
		return true
	})
	return !captured
}

// placeOf resolves a place without emitting anything.
func (f *fctx) placeOf(e ast.Expr) (p place, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	_, _, ok2 := f.tryPure(func() string { p = f.lvalue(e); return "" })
	return p, ok2
}

// checkOwnership decides the frame obligations of the function.
func (f *fctx) checkOwnership() {
	for si, s := range f.ev {
		if s.kind != 's' || isTemp(s.path) {
			continue
		}
		fail := ""
		for wi, w := range f.ev {
			if w.kind == 'v' && (pathPrefix(w.path, s.from) || pathPrefix(s.from, w.path)) && (wi > si || sharedLoops(s.loops, w.loops) > 0) {
				fail = w.path + " is written after its address was kept"
			}
		}
		o := f.t.obl(f.key, "frame", "address of "+s.from, "what is written is not reached by another name", s.pos, "ownership")
		o.Failed = fail
	}
	fails, kept := f.aliases()
	if f.spec != nil && len(f.spec.Modifies) > 0 && !f.spec.Keeps && !f.inClosure {
		o := f.t.obl(f.key, "frame", "keeps nothing", "what it modifies holds no container of another parameter afterwards", "", "ownership")
		o.Failed = kept
	}
	done := map[string]bool{}
	for i, e := range f.ev {
		name, text := "", ""
		switch e.kind {
		case 'f':
			name, text = "result"+e.path[strings.Index(e.path, "_")+1:]+" is fresh", "the result is built here and nothing else holds it"
		case 'w', 'W', 'O':
			name, text = "write to "+e.path, "only containers of its own (or listed in @modifies) are written, and none that another name reaches"
		default:
			continue
		}
		if key := string(e.kind) + name + fails[i]; e.kind == 'f' || !done[key] {
			done[key] = true
			o := f.t.obl(f.key, "frame", name, text, e.pos, "ownership")
			o.Failed = fails[i]
		}
	}
}

func sharedLoops(a, b []int) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func rootOf(p string) string {
	if i := strings.Index(p, "."); i >= 0 {
		return p[:i]
	}
	return p
}

func isSlice(t types.Type) bool {
	_, ok := t.(*types.Slice)
	return ok
}

func isTemp(p string) bool {
	p = rootOf(p)
	if len(p) < 3 || p[0] != 't' || p[len(p)-1] != '_' {
		return false
	}
	for _, c := range p[1 : len(p)-1] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
