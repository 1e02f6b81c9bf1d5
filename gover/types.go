package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Obl is one named proof obligation.
type Obl struct {
	ID      int    `json:"id"`
	Func    string `json:"func"`
	Kind    string `json:"kind"`
	Label   string `json:"label"`
	Text    string `json:"text"`
	Pos     string `json:"pos"`
	Backend string `json:"backend"`
	Failed  string `json:"failed,omitempty"`
}

type Tr struct {
	cloEv      map[*ast.FuncLit][]event // what function literals do with captured variables
	visitors   map[*types.Named]bool
	anons      []*types.Named // struct types without name
	w          *World
	ss         *SpecSet
	obls       []*Obl
	assumes    []string
	typesOut   []string
	typeDone   map[string]bool
	globalErrs int
	zeroDone   map[string]bool
	consts     map[string]string
	funcText   map[string]string
	queue      []string
	queued     map[string]bool
	mutCache   map[string]bool
	inlined    map[string]bool
	stdUsed    map[string]bool
	smoke      bool
	visOut     []string
	notes      []string
	traits     map[string]string
	stub       map[string]string
	tags       map[string]bool
	visTy      string
	debug      bool
}

type unsupported struct{ msg string }

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func (t *Tr) obl(fn, kind, label, text, pos, backend string) *Obl {
	o := &Obl{ID: len(t.obls) + 1, Func: fn, Kind: kind, Label: label, Text: strings.Join(strings.Fields(text), " "), Pos: pos, Backend: backend}
	t.obls = append(t.obls, o)
	return o
}

func mangle(s string) string {
	r := strings.NewReplacer(".", "_", "@", "__", "*", "p", "[", "_", "]", "_", "/", "_", " ", "_", "(", "_", ")", "_", ",", "_")
	return r.Replace(s)
}

var rustKw = map[string]bool{"type": true, "ref": true, "in": true, "fn": true, "let": true, "mut": true, "match": true, "impl": true,
	"mod": true, "move": true, "pub": true, "self": true, "static": true, "super": true, "trait": true, "use": true, "where": true,
	"while": true, "loop": true, "as": true, "crate": true, "enum": true, "extern": true, "dyn": true, "box": true, "final": true,
	"open": true, "spec": true, "proof": true, "exec": true, "ghost": true, "tracked": true, "requires": true, "ensures": true,
	"invariant": true, "decreases": true, "assert": true, "assume": true, "forall": true, "exists": true, "choose": true, "yield": true,
	"priv": true, "abstract": true, "become": true, "do": true, "macro": true, "override": true, "try": true, "typeof": true, "unsized": true,
	"virtual": true, "async": true, "await": true, "is": true, "has": true, "matches": true, "old": true, "via": true, "when": true, "any": true}

func rn(s string) string {
	if rustKw[s] {
		return s + "_"
	}
	return s
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// unsigned machine width, 0 when represented as a mathematical int
func ubits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

func sbits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8:
		return 8
	case types.Int16:
		return 16
	case types.Int32, types.UntypedRune:
		return 32
	case types.Int64, types.Int, types.UntypedInt:
		return 64
	}
	return 0
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

func stdName(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (t *Tr) inModule(n *types.Named) bool {
	return n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == t.w.Module || strings.HasPrefix(n.Obj().Pkg().Path(), t.w.Module+"/"))
}

// anon gives a struct type without name one that identical types share.
func (t *Tr) anon(gt types.Type) types.Type {
	gt = types.Unalias(gt)
	s, ok := gt.(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return gt
	}
	for i := 0; i < s.NumFields(); i++ {
		if p := s.Field(i).Pkg(); p == nil || t.w.Pkgs[p.Path()] == nil || s.Field(i).Name() == "_" {
			return gt
		}
	}
	for _, n := range t.anons {
		if types.IdenticalIgnoreTags(n.Underlying(), s) {
			return n
		}
	}
	n := types.NewNamed(types.NewTypeName(token.NoPos, s.Field(0).Pkg(), fmt.Sprintf("anon%d", len(t.anons)+1), nil), s, nil)
	t.anons = append(t.anons, n)
	return n
}

func (t *Tr) namedName(n *types.Named) string {
	return n.Obj().Pkg().Name() + "_" + n.Obj().Name()
}

// isReplacer: replacers do not change, a pointer to one is as good as a value.
func isReplacer(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && stdName(p.Elem()) == "strings.Replacer"
}

// ty translates a Go type.
func (t *Tr) ty(gt types.Type) string {
	gt = t.anon(gt)
	if isError(gt) {
		return "Err"
	}
	if isReplacer(gt) {
		return "GoReplacer"
	}
	switch stdName(gt) {
	case "strings.Builder", "bytes.Buffer":
		return "Seq<u8>"
	case "io.Reader":
		return "GoReader"
	case "sort.IntSlice":
		return "Seq<int>"
	}
	if n, ok := gt.(*types.Named); ok && t.inModule(n) {
		switch u := n.Underlying().(type) {
		case *types.Struct:
			t.emitStruct(n, u)
			return t.namedName(n)
		case *types.Interface:
			if t.visitorIface(n) {
				return "Option<" + t.visTy + ">"
			}
			t.emitIface(n, u)
			return t.namedName(n)
		default:
			return t.ty(u)
		}
	}
	switch u := gt.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "Seq<u8>"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case ubits(u) > 0:
			return fmt.Sprintf("u%d", ubits(u))
		case sbits(u) > 0:
			return "int"
		}
	case *types.Slice:
		return "Seq<" + t.ty(u.Elem()) + ">"
	case *types.Array:
		return "Seq<" + t.ty(u.Elem()) + ">"
	case *types.Map:
		return "GoMap<" + t.ty(u.Key()) + ", " + t.ty(u.Elem()) + ">"
	case *types.Pointer:
		return "Option<" + t.ty(u.Elem()) + ">"
	case *types.Interface:
		if u.Empty() {
			return "GoAny"
		}
	case *types.Signature:
		return t.fnTy(u)
	case *types.Struct:
		if u.NumFields() == 0 {
			return "()"
		}
	}
	unsup("type %s", gt)
	return ""
}

// function types: pure predicates become spec_fn, the others are ghost
// closure states with a trait.
func sigKey(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.TypeString(s.Params().At(i).Type(), q))
	}
	var rs []string
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), q))
	}
	return "func(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

func (t *Tr) fnTrait(s *types.Signature) string {
	k := sigKey(s)
	if tr, ok := t.traits[k]; ok {
		return tr
	}
	return ""
}

func (t *Tr) fnTy(s *types.Signature) string {
	switch t.fnTrait(s) {
	case "pure":
		var ps []string
		for i := 0; i < s.Params().Len(); i++ {
			ps = append(ps, t.ty(s.Params().At(i).Type()))
		}
		return "spec_fn(" + strings.Join(ps, ",") + ") -> " + t.ty(s.Results().At(0).Type())
	case "":
		unsup("function type %s", sigKey(s))
	}
	return "FSTATE"
}

func (t *Tr) emitStruct(n *types.Named, s *types.Struct) {
	name := t.namedName(n)
	if t.typeDone[name] {
		return
	}
	t.typeDone[name] = true
	var b strings.Builder
	fmt.Fprintf(&b, "pub struct %s {\n", name)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			unsup("embedded field in %s", name)
		}
		ft := t.fieldTy(n, f)
		if ft == "" {
			continue
		}
		fmt.Fprintf(&b, "    pub %s: %s,\n", rn(f.Name()), ft)
	}
	fmt.Fprintf(&b, "}\n")
	t.typesOut = append(t.typesOut, b.String())
}

// fieldTy is "" for fields that live in a threaded cell (func-typed or
// pointer fields of a handle struct).
func (t *Tr) fieldTy(n *types.Named, f *types.Var) string {
	if isCellField(t, f) {
		return ""
	}
	return t.ty(f.Type())
}

func isCellField(t *Tr, f *types.Var) bool {
	if s, ok := f.Type().Underlying().(*types.Signature); ok {
		return t.fnTrait(s) != "pure"
	}
	if p, ok := f.Type().(*types.Pointer); ok {
		return isError(p.Elem())
	}
	return false
}

func (t *Tr) implementers(n *types.Named, u *types.Interface) []*types.Named {
	var res []*types.Named
	for _, p := range t.w.Order {
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, u) {
				res = append(res, nt)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Obj().Name() < res[j].Obj().Name() })
	return res
}

func (t *Tr) emitIface(n *types.Named, u *types.Interface) {
	name := t.namedName(n)
	if t.typeDone[name] {
		return
	}
	t.typeDone[name] = true
	var b strings.Builder
	fmt.Fprintf(&b, "pub enum %s {\n    Nil,\n    Other(int),\n", name)
	for _, im := range t.implementers(n, u) {
		if hasCell(t, im) {
			continue
		}
		fmt.Fprintf(&b, "    %s(%s),\n", rn(im.Obj().Name()), t.ty(im))
	}
	fmt.Fprintf(&b, "}\n")
	t.typesOut = append(t.typesOut, b.String())
	for i := 0; i < u.NumMethods(); i++ {
		sig := u.Method(i).Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			t.ifaceOther(n, u.Method(i).Name(), sig.Results().At(0).Type())
		}
	}
}

func hasCell(t *Tr, n *types.Named) bool {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isCellField(t, s.Field(i)) {
			return true
		}
	}
	return false
}

// zero is the Verus expression of a Go zero value.
func (t *Tr) zero(gt types.Type) string {
	gt = t.anon(gt)
	if isError(gt) {
		return "Err::Nil"
	}
	if isReplacer(gt) {
		unsup("nil replacer")
	}
	switch stdName(gt) {
	case "strings.Builder", "bytes.Buffer":
		return "Seq::<u8>::empty()"
	case "io.Reader":
		unsup("nil io.Reader")
	}
	if n, ok := gt.(*types.Named); ok && t.inModule(n) {
		if s, ok := n.Underlying().(*types.Struct); ok {
			t.ty(n)
			var fs []string
			for i := 0; i < s.NumFields(); i++ {
				if isCellField(t, s.Field(i)) {
					continue
				}
				fs = append(fs, rn(s.Field(i).Name())+": "+t.zero(s.Field(i).Type()))
			}
			return t.namedName(n) + " { " + strings.Join(fs, ", ") + " }"
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			if t.visitorIface(n) {
				return "Option::<" + t.visTy + ">::None"
			}
			return t.ty(n) + "::Nil"
		}
	}
	switch u := gt.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "Seq::<u8>::empty()"
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case ubits(u) > 0:
			return fmt.Sprintf("0u%d", ubits(u))
		case sbits(u) > 0:
			return "0int"
		}
	case *types.Slice:
		return "Seq::<" + t.ty(u.Elem()) + ">::empty()"
	case *types.Array:
		return fmt.Sprintf("Seq::new(%dnat, |i_: int| %s)", u.Len(), t.zero(u.Elem()))
	case *types.Map:
		return "GoMap::<" + t.ty(u.Key()) + ", " + t.ty(u.Elem()) + ">::nil_map()"
	case *types.Pointer:
		return "Option::<" + t.ty(u.Elem()) + ">::None"
	case *types.Interface:
		return "GoAny::Nil"
	case *types.Signature:
		if t.fnTrait(u) == "pure" {
			var ps []string
			for i := 0; i < u.Params().Len(); i++ {
				ps = append(ps, fmt.Sprintf("a%d_: %s", i, t.ty(u.Params().At(i).Type())))
			}
			return "(|" + strings.Join(ps, ", ") + "| arbitrary())"
		}
	}
	unsup("zero value of %s", gt)
	return ""
}

func seqLit(s string) string {
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	var p []string
	for i := 0; i < len(s); i++ {
		p = append(p, fmt.Sprintf("%du8", s[i]))
	}
	return seqOf(p)
}

// seqLit is the sequence of the given items (macros are not usable inside
// Ghost(..)).
func seqOf(vs []string) string {
	return "Seq::empty()" + ".push(" + strings.Join(vs, ").push(") + ")"
}

func seqItems(val string) ([]string, bool) {
	rest, ok := strings.CutPrefix(val, "Seq::empty().push(")
	if !ok || !strings.HasSuffix(rest, ")") {
		return nil, false
	}
	items := strings.Split(strings.TrimSuffix(rest, ")"), ").push(")
	for _, it := range items {
		if !simpleVal(it) {
			return nil, false
		}
	}
	return items, true
}
