package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
)

// Which containers may be one and the same: a may-analysis over the events of a
// function in the order of its control flow.
//
// Every container has a token: where it was built, or the parameter it came in
// with, and the path from there (".f" a field, ".[]" any element or pointee). A
// place is bound to the tokens it may hold. A write through a place makes every
// other place that may hold a written token stale, until it gets a new value; a
// stale place must not be read, kept or handed back. A write needs tokens that
// were built here or that the contract lists.

type tok struct {
	site, suf string
	deep      bool // anything from there on
}

type toks map[tok]bool

type aliasState struct {
	bind  map[string]toks
	stale map[string]int // place -> the event that wrote its content
	dup   toks           // held by two elements of one container
	dead  bool
}

const maxSuf = 7

func elemsOf(p string) int { return strings.Count(p, ".") }

// cut shortens a path; deep tells that something was lost.
func cutPath(p string, n int) (string, bool) {
	parts := strings.Split(p, ".")
	if len(parts) <= n+1 {
		return p, false
	}
	return strings.Join(parts[:n+1], "."), true
}

func mkTok(t tok, rest string) tok {
	if t.deep || rest == "" {
		return t
	}
	s, d := cutPath(t.suf+rest, maxSuf)
	return tok{t.site, s, d}
}

func (s *aliasState) clone() *aliasState {
	n := &aliasState{bind: map[string]toks{}, stale: map[string]int{}, dup: toks{}, dead: s.dead}
	for k, v := range s.bind {
		n.bind[k] = v.clone()
	}
	for k, v := range s.stale {
		n.stale[k] = v
	}
	for k := range s.dup {
		n.dup[k] = true
	}
	return n
}

func (t toks) clone() toks {
	n := toks{}
	for k := range t {
		n[k] = true
	}
	return n
}

func (t toks) add(o toks) toks {
	for k := range o {
		t[k] = true
	}
	return t
}

// lookup gives the tokens a place may hold.
func (s *aliasState) lookup(p string) toks {
	q := p
	for {
		if b, ok := s.bind[q]; ok {
			r := toks{}
			for t := range b {
				r[mkTok(t, p[len(q):])] = true
			}
			return r
		}
		i := strings.LastIndex(q, ".")
		if i < 0 {
			return toks{tok{"U:" + q, p[len(q):], false}: true}
		}
		q = q[:i]
	}
}

func (s *aliasState) below(p string) []string {
	var r []string
	for k := range s.bind {
		if k != p && pathPrefix(p, k) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// all tokens at a place or below it.
func (s *aliasState) reach(p string) toks {
	r := s.lookup(p)
	for _, k := range s.below(p) {
		r.add(s.bind[k])
	}
	return r
}

func weakPath(p string) bool { return strings.Contains(p, "[]") }

// set binds a place; content below it comes with sub.
func (s *aliasState) set(p string, t toks, sub map[string]toks) {
	if q, lost := cutPath(p, maxSuf); lost {
		d := toks{}
		for k := range t {
			d[tok{k.site, k.suf, true}] = true
		}
		for _, m := range sub {
			for k := range m {
				d[tok{k.site, k.suf, true}] = true
			}
		}
		s.set(q, d, nil)
		return
	}
	if weakPath(p) {
		old := s.lookup(p)
		for k := range t {
			if old[k] {
				s.dup[k] = true
			}
		}
		below := map[string]bool{}
		for _, k := range s.below(p) {
			below[k[len(p):]] = true
		}
		for r := range sub {
			below[r] = true
		}
		for r := range below {
			n := s.lookup(p + r)
			o, ok := sub[r]
			if !ok {
				o = toks{}
				for k := range t {
					o[mkTok(k, r)] = true
				}
			}
			if q, lost := cutPath(p+r, maxSuf); lost {
				for k := range o {
					old[tok{k.site, k.suf, true}] = true
				}
				_ = q
				continue
			}
			s.bind[p+r] = n.add(o)
		}
		s.bind[p] = old.add(t)
		return
	}
	for _, k := range s.below(p) {
		delete(s.bind, k)
	}
	for k := range s.stale {
		if pathPrefix(p, k) {
			delete(s.stale, k)
		}
	}
	s.bind[p] = t.clone()
	for r, o := range sub {
		if _, lost := cutPath(p+r, maxSuf); lost {
			for k := range o {
				s.bind[p][tok{k.site, k.suf, true}] = true
			}
			continue
		}
		s.bind[p+r] = o.clone()
	}
}

// fresh: the site builds a new container; the ones built there before stay apart.
func (s *aliasState) fresh(site string) {
	ren := func(m toks) {
		for k := range m {
			if k.site == site {
				delete(m, k)
				m[tok{site + "'", k.suf, k.deep}] = true
			}
		}
	}
	for _, m := range s.bind {
		ren(m)
	}
	ren(s.dup)
}

func joinStates(a, b *aliasState) *aliasState {
	if a == nil || a.dead {
		return b
	}
	if b == nil || b.dead {
		return a
	}
	n := a.clone()
	for k := range b.bind {
		_, ra := a.bind[rootOf(k)]
		if _, ok := a.bind[k]; !ok && ra {
			n.bind[k] = a.lookup(k)
		} else if !ok {
			n.bind[k] = toks{}
		}
	}
	for k := range n.bind {
		if _, rb := b.bind[rootOf(k)]; rb {
			n.bind[k].add(b.lookup(k))
		}
	}
	for k, v := range b.stale {
		if _, ok := n.stale[k]; !ok {
			n.stale[k] = v
		}
	}
	n.dup.add(b.dup)
	return n
}

func sameState(a, b *aliasState) bool {
	if a.dead != b.dead || len(a.bind) != len(b.bind) || len(a.stale) != len(b.stale) || len(a.dup) != len(b.dup) {
		return false
	}
	for k, v := range a.bind {
		w, ok := b.bind[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for t := range v {
			if !w[t] {
				return false
			}
		}
	}
	for k := range a.stale {
		if _, ok := b.stale[k]; !ok {
			return false
		}
	}
	for k := range a.dup {
		if !b.dup[k] {
			return false
		}
	}
	return true
}

// ---- the control flow -----------------------------------------------------------

type flowNode struct {
	ev         int // event
	kind       byte
	body, els_ []*flowNode
}

// flow records a point of the control flow: I if, E else, X end of if, L loop,
// M end of loop, B break, C continue, R return, K return of an inlined body,
// J end of an inlined body.
func (f *fctx) flow(k byte, arg string) {
	f.event(k, arg, "")
}

type aliasRun struct {
	f      *fctx
	fails  map[int]string
	loops  []*[2]*aliasState // break, continue
	frames map[string]*aliasState
	roots  map[string]bool
	kept   string
}

func (f *fctx) aliases() (map[int]string, string) {
	a := &aliasRun{f: f, fails: map[int]string{}, frames: map[string]*aliasState{}, roots: map[string]bool{}}
	for _, e := range f.ev {
		switch e.kind {
		case 'a', 'n', 'c', 'd', 'm':
			a.roots[rootOf(e.path)] = true
		}
	}
	if os.Getenv("GOVER_EV") == f.key {
		for i, e := range f.ev {
			fmt.Fprintln(os.Stderr, i, string(e.kind), e.path, "<-", e.from, e.pos)
		}
	}
	i := 0
	tree := a.parse(&i)
	if i < len(f.ev) {
		panic(fmt.Sprint("control flow of ", f.key, " does not close"))
	}
	st := &aliasState{bind: map[string]toks{}, stale: map[string]int{}, dup: toks{}}
	for p := range f.params {
		a.roots[p] = true
		st.bind[p] = toks{tok{"P:" + p, "", false}: true}
	}
	a.block(tree, st)
	return a.fails, a.kept
}

func (a *aliasRun) parse(i *int) []*flowNode {
	var r []*flowNode
	for *i < len(a.f.ev) {
		k := a.f.ev[*i].kind
		switch k {
		case 'I':
			*i++
			n := &flowNode{kind: 'I', ev: *i - 1}
			n.body = a.parse(i)
			if *i < len(a.f.ev) && a.f.ev[*i].kind == 'E' {
				*i++
				n.els_ = a.parse(i)
			}
			*i++
			r = append(r, n)
		case 'L':
			*i++
			n := &flowNode{kind: 'L', ev: *i - 1}
			n.body = a.parse(i)
			*i++
			r = append(r, n)
		case 'E', 'X', 'M':
			return r
		default:
			r = append(r, &flowNode{kind: k, ev: *i})
			*i++
		}
	}
	return r
}

func (a *aliasRun) block(l []*flowNode, st *aliasState) *aliasState {
	for _, n := range l {
		switch n.kind {
		case 'I':
			t := a.block(n.body, st.clone())
			e := a.block(n.els_, st.clone())
			st = joinStates(t, e)
		case 'L':
			in := st
			var ctx *[2]*aliasState
			for k := 0; ; k++ {
				ctx = &[2]*aliasState{}
				a.loops = append(a.loops, ctx)
				end := a.block(n.body, in.clone())
				a.loops = a.loops[:len(a.loops)-1]
				if ctx[1] != nil {
					end = joinStates(end, ctx[1])
				}
				nx := joinStates(in, end)
				if sameState(nx, in) {
					break
				}
				if k > 60 {
					a.fails[n.ev] = "the containers of a loop are not settled"
					for i, e := range a.f.ev {
						if strings.IndexByte("wWOf", e.kind) >= 0 {
							a.fails[i] = a.fails[n.ev]
						}
					}
					break
				}
				in = nx.clone()
			}
			st = in.clone()
			if ctx[0] != nil {
				st = joinStates(st, ctx[0])
			}
		case 'B', 'C':
			x := 0
			if n.kind == 'C' {
				x = 1
			}
			if k := len(a.loops); k > 0 && !st.dead {
				a.loops[k-1][x] = joinStates(a.loops[k-1][x], st.clone())
			}
			st = st.clone()
			st.dead = true
		case 'R':
			if !st.dead {
				a.exit(st)
			}
			st = st.clone()
			st.dead = true
		case 'K':
			p := a.f.ev[n.ev].path
			if !st.dead {
				a.frames[p] = joinStates(a.frames[p], st.clone())
			}
			st = st.clone()
			st.dead = true
		case 'J':
			p := a.f.ev[n.ev].path
			if s := a.frames[p]; s != nil {
				st = joinStates(st, s)
				delete(a.frames, p)
			}
		default:
			if !st.dead {
				a.step(n.ev, st)
			}
		}
	}
	return st
}

func (a *aliasRun) fail(i int, msg string) {
	if _, ok := a.fails[i]; !ok {
		a.fails[i] = msg
	}
}

// exit: what goes back to the caller is up to date.
func (a *aliasRun) exit(st *aliasState) {
	for p, w := range st.stale {
		if a.f.params[rootOf(p)] {
			a.fail(w, a.f.ev[w].path+" shares its content with "+p+", which goes back to the caller")
		}
	}
	if a.f.spec == nil || a.f.spec.Keeps {
		return
	}
	// what was modified holds nothing of the other parameters
	for _, m := range a.f.spec.Modifies {
		root := rootOf(m)
		if !a.f.params[root] {
			continue
		}
		for t := range st.reach(m) {
			if strings.HasPrefix(t.site, "P:") && t.site != "P:"+root {
				a.kept = m + " keeps a part of " + t.site[2:] + t.suf
			}
		}
	}
}

// mayHold: the two tokens may stand for one container, or (deep) for containers
// of which one is part of the other.
func overlap(t, u tok, sub bool) bool {
	if t.site != u.site {
		return false
	}
	switch {
	case t.deep && u.deep:
		return pathPrefix(t.suf, u.suf) || pathPrefix(u.suf, t.suf)
	case t.deep:
		return pathPrefix(t.suf, u.suf)
	case u.deep:
		return pathPrefix(u.suf, t.suf)
	}
	return t.suf == u.suf || sub && pathPrefix(t.suf, u.suf)
}

func (st *aliasState) staleAt(p string) (string, int, bool) {
	best := ""
	for k := range st.stale {
		if (pathPrefix(k, p) || pathPrefix(p, k)) && (best == "" || k < best) {
			best = k
		}
	}
	if best == "" {
		return "", 0, false
	}
	return best, st.stale[best], true
}

// mark makes the other places that may hold what p holds stale.
func (a *aliasRun) mark(i int, st *aliasState, p string, deep bool) {
	written := st.lookup(p)
	if deep {
		written = st.reach(p)
	}
	keys := make([]string, 0, len(st.bind))
	for k := range st.bind {
		keys = append(keys, k)
	}
	for _, q := range keys {
		for u := range st.bind[q] {
			for t := range written {
				if t.site != u.site {
					continue
				}
				if overlap(t, u, deep) {
					if q != p && !(deep && pathPrefix(p, q)) && q != a.f.ev[i].from {
						st.stale[q] = i
					}
					continue
				}
				if !t.deep && !u.deep && pathPrefix(u.suf, t.suf) {
					at := q + t.suf[len(u.suf):]
					if at == p || deep && pathPrefix(p, at) || !st.lookup(at)[t] {
						continue
					}
					st.stale[at] = i
				}
			}
		}
	}
	if weakPath(p) {
		for t := range written {
			for u := range st.dup {
				if t.site == u.site && (overlap(t, u, deep) || pathPrefix(u.suf, t.suf)) {
					a.fail(i, "two elements of "+p+" may share their content")
				}
			}
		}
	}
}

var identPathRe = regexp.MustCompile(`[A-Za-z_]\w*(?:\.(?:[A-Za-z_]\w*|\d+))*`)

// places named in a value.
func (a *aliasRun) named(val string) []string {
	if a.roots[rootOf(val)] {
		return []string{val}
	}
	var r []string
	for _, m := range identPathRe.FindAllString(val, -1) {
		if a.roots[rootOf(m)] {
			r = append(r, rootOf(m))
		}
	}
	return r
}

func (a *aliasRun) read(st *aliasState, p string) {
	if k, w, ok := st.staleAt(p); ok {
		a.fail(w, a.f.ev[w].path+" shares its content with "+k+", which is used later")
	}
}

func (a *aliasRun) allowed(path string) bool {
	if a.f.spec == nil {
		return false
	}
	for _, m := range append(append([]string{}, a.f.spec.Modifies...), a.f.spec.Owns...) {
		if pathPrefix(m, path) {
			return true
		}
	}
	return false
}

func (a *aliasRun) step(i int, st *aliasState) {
	e := a.f.ev[i]
	site := fmt.Sprintf("#%d", i)
	switch e.kind {
	case 'a':
		st.fresh(site)
		st.set(e.path, toks{tok{site, "", false}: true}, nil)
	case 'n':
		st.set(e.path, toks{tok{"?" + site, "", true}: true}, nil)
	case 'm':
		for _, q := range a.named(e.from) {
			if pathPrefix(e.path, q) || pathPrefix(q, e.path) {
				continue
			}
			a.read(st, q)
			d := toks{}
			for t := range st.reach(q) {
				d[tok{t.site, t.suf, true}] = true
			}
			b := st.lookup(e.path)
			if weakPath(e.path) {
				st.set(e.path, d, nil)
			} else {
				st.bind[e.path] = b.add(d)
			}
		}
	case 'c':
		if e.from == e.path && !weakPath(e.path) {
			return
		}
		a.read(st, e.from)
		t := st.lookup(e.from)
		sub := map[string]toks{}
		for _, k := range st.below(e.from) {
			sub[k[len(e.from):]] = st.bind[k].clone()
		}
		st.set(e.path, t, sub)
	case 'r':
		for _, q := range a.named(e.path) {
			a.read(st, q)
		}
	case 'w', 'W', 'O':
		if _, w, ok := st.staleAt(e.path); ok && w != i {
			if p, _, _ := st.staleAt(e.path); pathPrefix(p, e.path) || e.kind != 'w' {
				a.fail(w, a.f.ev[w].path+" shares its content with "+e.path+", which is written later")
			}
		}
		ts := st.lookup(e.path)
		if e.kind != 'w' {
			ts = st.reach(e.path)
		}
		for t := range ts {
			switch {
			case strings.HasPrefix(t.site, "P:"):
				if !a.allowed(t.site[2:] + t.suf) {
					if rootOf(e.path) == t.site[2:] {
						a.fail(i, e.path+" belongs to the caller")
					} else {
						a.fail(i, e.path+" may be shared: it is part of "+t.site[2:]+t.suf)
					}
				}
			case strings.HasPrefix(t.site, "?"), strings.HasPrefix(t.site, "U:"), t.deep:
				a.fail(i, e.path+" may be shared")
			}
		}
		a.mark(i, st, e.path, e.kind != 'w')
	case 'o':
		st.stale[e.path] = i
	case 'f':
		n := e.path[:strings.Index(e.path, "_")]
		held := st.reach(e.path)
		for t := range held {
			switch {
			case strings.HasPrefix(t.site, "P:"), strings.HasPrefix(t.site, "U:"):
				a.fail(i, "the result shares "+t.site[2:]+t.suf)
			case strings.HasPrefix(t.site, "?"), t.deep:
				a.fail(i, "the result may be shared")
			}
		}
		for q, us := range st.bind {
			r := rootOf(q)
			if !(a.f.params[r] || strings.HasPrefix(r, n+"_") && r != rootOf(e.path)) {
				continue
			}
			for u := range us {
				for t := range held {
					if t.site == u.site {
						a.fail(i, "the result is also held by "+q)
					}
				}
			}
		}
	}
}

// ---- where values come from -------------------------------------------------------

// foreign records a value of unknown origin: it may be part of anything it was
// computed from.
func (f *fctx) foreign(path string, e ast.Expr, val string) {
	f.event('n', path, "")
	if val != "" {
		f.event('m', path, val)
		return
	}
	if e == nil {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		if b := f.lookup(f.info().Uses[id]); b != nil && b.clo == nil {
			p := b.name
			if b.alias != nil {
				p = b.alias.root
			}
			if p != "" && mayShare(f.typeOf(e), b.ty) {
				f.event('m', path, p)
			}
		}
		return true
	})
}

// mayShare: values of the two types can hold one container.
func mayShare(a, b types.Type) bool {
	x, y := map[string]bool{}, map[string]bool{}
	heldTypes(a, x, map[types.Type]bool{})
	heldTypes(b, y, map[types.Type]bool{})
	if x["*"] && len(y) > 0 || y["*"] && len(x) > 0 {
		return true
	}
	for k := range x {
		if y[k] {
			return true
		}
	}
	return false
}

func heldTypes(t types.Type, m map[string]bool, seen map[types.Type]bool) {
	if t == nil || seen[t] || isError(t) {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice:
		m["[]"+u.Elem().Underlying().String()] = true
		heldTypes(u.Elem(), m, seen)
	case *types.Map:
		m[u.Underlying().String()] = true
		heldTypes(u.Elem(), m, seen)
		heldTypes(u.Key(), m, seen)
	case *types.Pointer:
		m["*"+u.Elem().String()] = true
		heldTypes(u.Elem(), m, seen)
		// a pointer may lead into a slice of its pointees
		m["[]"+u.Elem().Underlying().String()] = true
	case *types.Array:
		heldTypes(u.Elem(), m, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			heldTypes(u.Field(i).Type(), m, seen)
		}
	case *types.Interface, *types.Signature, *types.Chan, *types.TypeParam:
		if hasContainer(t, nil) {
			m["*"] = true
		}
	}
}

// noCopies refuses copies of strings.Builder and bytes.Buffer: a copied builder
// panics, a copied buffer shares its content.
func (f *fctx) noCopies(body *ast.BlockStmt, info *types.Info) {
	bad := func(e ast.Expr) {
		if e == nil {
			return
		}
		e = unparen(e)
		switch x := e.(type) {
		case *ast.CompositeLit:
			return
		case *ast.CallExpr:
			if !info.Types[x.Fun].IsType() {
				return
			}
		}
		if tv, ok := info.Types[e]; ok && tv.IsValue() && holdsBuilder(tv.Type) {
			unsup("copy of a %s", tv.Type)
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i, e := range x.Rhs {
				if len(x.Lhs) == len(x.Rhs) {
					if id, ok := x.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
						continue
					}
				}
				bad(e)
			}
		case *ast.ValueSpec:
			for _, e := range x.Values {
				bad(e)
			}
		case *ast.ReturnStmt:
			for _, e := range x.Results {
				bad(e)
			}
		case *ast.KeyValueExpr:
			bad(x.Value)
		case *ast.CompositeLit:
			for _, e := range x.Elts {
				bad(e)
			}
		case *ast.RangeStmt:
			if x.Value != nil {
				if t := info.TypeOf(x.Value); t != nil && holdsBuilder(t) {
					unsup("copy of a %s", t)
				}
			}
		case *ast.CallExpr:
			for _, e := range x.Args {
				bad(e)
			}
			if sx, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
				if sel := info.Selections[sx]; sel != nil && sel.Kind() == types.MethodVal {
					if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil && holdsBuilder(sig.Recv().Type()) {
						unsup("copy of a %s", sig.Recv().Type())
					}
				}
			}
		}
		return true
	})
}

func holdsBuilder(t types.Type) bool {
	if t == nil {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "strings.Builder", "bytes.Buffer":
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return holdsBuilder(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsBuilder(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}
