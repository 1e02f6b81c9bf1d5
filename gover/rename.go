package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// The contracts name functions, types and fields. When a declaration of the
// package only got another name since the contracts were written, the old name
// is put back before translation: what a declaration is called is not
// behaviour. The names and shapes of the time of writing are in a file made by
// gover -shape; a declaration is taken to be renamed when its name is gone and
// exactly one new declaration has its shape. Afterwards the package is type
// checked again, and every identifier has to stand for what it stood for
// before; otherwise the names stay as they are.

type PkgShape struct {
	Types  map[string]string   // name -> underlying type
	Fields map[string][]string // struct -> "name type"
	Funcs  map[string]FuncShape
}

type FuncShape struct {
	Sig   string
	Words []string // identifiers of the body
}

type Shape map[string]*PkgShape // by import path

func (p *Pkg) relative(o *types.Package) string {
	if o == p.Types {
		return ""
	}
	return o.Name()
}

func fieldList(p *Pkg, s *types.Struct) []string {
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i).Name()+" "+types.TypeString(s.Field(i).Type(), p.relative))
	}
	return r
}

// under is the underlying type without the names of fields, and of methods.
func under(p *Pkg, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, types.TypeString(u.Field(i).Type(), p.relative))
		}
		return "struct{" + strings.Join(r, ";") + "}"
	default:
		return types.TypeString(u, p.relative)
	}
}

func sigText(p *Pkg, s *types.Signature) string {
	var a, b []string
	for i := 0; i < s.Params().Len(); i++ {
		a = append(a, types.TypeString(s.Params().At(i).Type(), p.relative))
	}
	for i := 0; i < s.Results().Len(); i++ {
		b = append(b, types.TypeString(s.Results().At(i).Type(), p.relative))
	}
	r := "(" + strings.Join(a, ",") + ")(" + strings.Join(b, ",") + ")"
	if s.Variadic() {
		r += "..."
	}
	return r
}

func funcKeyIn(p *Pkg, fd *ast.FuncDecl) string {
	if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
		if r := o.Type().(*types.Signature).Recv(); r != nil {
			star := ""
			if _, ok := types.Unalias(r.Type()).(*types.Pointer); ok {
				star = "*"
			}
			return star + namedOf(r.Type()).Obj().Name() + "." + fd.Name.Name
		}
	}
	return fd.Name.Name
}

func bodyWords(p *Pkg, fd *ast.FuncDecl) []string {
	m := map[string]bool{}
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id != fd.Name {
			m[id.Name] = true
		}
		if bl, ok := n.(*ast.BasicLit); ok {
			m[bl.Value] = true
		}
		return true
	})
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (p *Pkg) shape() *PkgShape {
	s := &PkgShape{Types: map[string]string{}, Fields: map[string][]string{}, Funcs: map[string]FuncShape{}}
	for _, n := range p.Types.Scope().Names() {
		tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		s.Types[n] = under(p, tn.Type())
		if st, ok := tn.Type().Underlying().(*types.Struct); ok {
			s.Fields[n] = fieldList(p, st)
		}
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
					s.Funcs[funcKeyIn(p, fd)] = FuncShape{sigText(p, o.Type().(*types.Signature)), bodyWords(p, fd)}
				}
			}
		}
	}
	return s
}

func likeness(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	if len(a)+len(b) == 0 {
		return 1
	}
	return float64(n) / float64(len(a)+len(b)-n)
}

// restoreNames undoes renamings of p since the shape was taken.
func (w *World) restoreNames(p *Pkg, old *PkgShape) {
	if old == nil {
		return
	}
	steps := []func(*PkgShape) map[types.Object]string{
		// types
		func(now *PkgShape) map[types.Object]string {
			r := map[types.Object]string{}
			pair(missing(old.Types, now.Types), missing(now.Types, old.Types), func(a, b string) float64 {
				x, y := old.Types[a], now.Types[b]
				// a type may mention itself
				if x == y || x == swapWord(y, b, a) {
					return 1
				}
				return 0
			}, func(a, b string) { r[p.Types.Scope().Lookup(b)] = a })
			return r
		},
		// fields
		func(now *PkgShape) map[types.Object]string {
			r := map[types.Object]string{}
			for n, of := range old.Fields {
				nf, ok := now.Fields[n]
				if !ok {
					continue
				}
				st := p.Types.Scope().Lookup(n).Type().Underlying().(*types.Struct)
				split := func(l []string) map[string]string {
					m := map[string]string{}
					for _, x := range l {
						a, b, _ := strings.Cut(x, " ")
						m[a] = b
					}
					return m
				}
				om, nm := split(of), split(nf)
				at := func(l []string, n string) int {
					for i, x := range l {
						if strings.HasPrefix(x, n+" ") {
							return i
						}
					}
					return -1
				}
				pair(missing(om, nm), missing(nm, om), func(a, b string) float64 {
					if om[a] != nm[b] {
						return 0
					}
					if len(of) == len(nf) && at(of, a) == at(nf, b) {
						return 1
					}
					return 0.5
				}, func(a, b string) { r[st.Field(at(nf, b))] = a })
			}
			return r
		},
		// functions and methods
		func(now *PkgShape) map[types.Object]string {
			r := map[types.Object]string{}
			objs := map[string]types.Object{}
			for _, f := range p.Files {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						if o := p.Info.Defs[fd.Name]; o != nil {
							objs[funcKeyIn(p, fd)] = o
						}
					}
				}
			}
			recv := func(k string) (string, string) {
				if i := strings.LastIndex(k, "."); i >= 0 {
					return k[:i], k[i+1:]
				}
				return "", k
			}
			pair(missing(old.Funcs, now.Funcs), missing(now.Funcs, old.Funcs), func(a, b string) float64 {
				ra, _ := recv(a)
				rb, _ := recv(b)
				if ra != rb || old.Funcs[a].Sig != now.Funcs[b].Sig {
					return 0
				}
				if l := likeness(old.Funcs[a].Words, now.Funcs[b].Words); l >= 0.3 {
					return l
				}
				return 0
			}, func(a, b string) {
				_, n := recv(a)
				r[objs[b]] = n
			})
			return r
		},
	}
	for _, st := range steps {
		// types mention types
		for more := true; more; {
			todo := st(p.shape())
			for o := range todo {
				if o == nil || o.Exported() {
					delete(todo, o)
				}
			}
			more = len(todo) > 0 && w.rename(p, todo)
		}
	}
}

func missing[T any](a, b map[string]T) []string {
	var r []string
	for k := range a {
		if _, ok := b[k]; !ok {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// pair takes the pairs of highest likeness, as long as they are clear.
func pair(as, bs []string, like func(a, b string) float64, take func(a, b string)) {
	done := map[string]bool{}
	for {
		best, second := 0.0, 0.0
		var ba, bb string
		for _, a := range as {
			for _, b := range bs {
				if done["a"+a] || done["b"+b] {
					continue
				}
				l := like(a, b)
				if l > best {
					best, ba, bb = l, a, b
				}
			}
		}
		if best == 0 {
			return
		}
		for _, a := range as {
			for _, b := range bs {
				if done["a"+a] || done["b"+b] || (a == ba) == (b == bb) {
					continue
				}
				if l := like(a, b); l > second {
					second = l
				}
			}
		}
		done["a"+ba], done["b"+bb] = true, true
		if second < best {
			take(ba, bb)
		}
	}
}

func swapWord(s, a, b string) string {
	var r strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		if j == i {
			r.WriteByte(s[i])
			i++
			continue
		}
		if s[i:j] == a {
			r.WriteString(b)
		} else {
			r.WriteString(s[i:j])
		}
		i = j
	}
	return r.String()
}

func (w *World) rename(p *Pkg, todo map[types.Object]string) bool {
	idents := map[*ast.Ident]string{}
	was := map[*ast.Ident]token.Pos{}
	note := func(m map[*ast.Ident]types.Object) {
		for id, o := range m {
			if o == nil {
				continue
			}
			was[id] = o.Pos()
			if v, ok := o.(*types.Var); ok {
				o = v.Origin()
			}
			if f, ok := o.(*types.Func); ok {
				o = f.Origin()
			}
			if n, ok := todo[o]; ok {
				idents[id] = n
			}
		}
	}
	note(p.Info.Defs)
	note(p.Info.Uses)
	old := map[*ast.Ident]string{}
	for id, n := range idents {
		old[id] = id.Name
		id.Name = n
	}
	oldT, oldI := p.Types, p.Info
	p.Info = newInfo()
	conf := types.Config{Importer: w}
	tp, err := conf.Check(p.Path, w.Fset, p.Files, p.Info)
	ok := err == nil
	if ok {
		same := func(m map[*ast.Ident]types.Object) {
			for id, o := range m {
				if o != nil && was[id] != o.Pos() {
					ok = false
				}
			}
		}
		same(p.Info.Defs)
		same(p.Info.Uses)
	}
	var l []string
	for o, n := range todo {
		l = append(l, fmt.Sprintf("%s is %s.%s of the contracts", o.Name(), p.Name, n))
	}
	sort.Strings(l)
	if !ok {
		for id, n := range old {
			id.Name = n
		}
		p.Types, p.Info = oldT, oldI
		return false
	}
	p.Types = tp
	w.Renamed = append(w.Renamed, l...)
	return true
}

func loadShape(file string) Shape {
	s := Shape{}
	if file == "" {
		return s
	}
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &s); err != nil {
		die("%s: %v", file, err)
	}
	return s
}
