package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Contract files: lines starting with "@keyword" open a clause that runs to
// the next such line.

type Clause struct {
	Label, Text string
	File        string
	Line        int
}

type LoopSpec struct {
	Inv, Ens  []Clause
	Decreases string
	Begin     string
	End       string
	Before    string
	After     string
}

type ClosureSpec struct {
	Pure      string // |args| expr  for pure predicates
	Pre, Step string
	Requires  []Clause
	Entry     string
	Exit      string
	Loops     map[int]*LoopSpec
	Hints     []Hint
}

type Hint struct {
	Where string // before | after
	Call  string // callee key
	N     int    // ordinal, 0: all
	Text  string
}

// LocalSpec names a local; one marked with ? may be missing in the code.
type LocalSpec struct {
	Name, Type string
	Opt        bool
}

// hintsOnly are the keywords that may stand under @if: they help the proof and
// promise nothing to callers.
var hintsOnly = map[string]bool{"loop": true, "endloop": true, "invariant": true, "decreases": true, "begin": true, "end": true,
	"pre_loop": true, "post_loop": true, "entry": true, "exit": true, "before": true, "after": true, "closure": true, "endclosure": true,
	"pure": true, "pre": true, "step": true, "use": true, "ensures": true}

type FuncSpec struct {
	Key       string
	Params    []string
	Requires  []Clause
	Ensures   []Clause
	Decreases string
	Modifies  []string
	Owns      []string
	Keeps     bool // what is modified may hold parts of the other parameters afterwards
	Fresh     bool
	FreshRes  []int  // which results; empty: all
	Inline    bool   // loop annotations only
	SpecFn    string // equivalent spec function
	Define    string // name for the body as a spec function
	Sig       string // applies only to this signature
	Attrs     []string
	Locals    []LocalSpec
	Entry     string
	Exit      string
	Loops     map[int]*LoopSpec
	Closures  map[int]*ClosureSpec
	Hints     []Hint
	Uses      []string // rust "use" lines / broadcast uses
	File      string
	Line      int
	used      bool
	Partial   bool // termination is another run's obligation
	Variants  bool // has @if
}

type SpecSet struct {
	Funcs map[string]*FuncSpec
	files []string
}

func newFuncSpec(key string) *FuncSpec {
	return &FuncSpec{Key: key, Loops: map[int]*LoopSpec{}, Closures: map[int]*ClosureSpec{}}
}

func LoadSpecs(files []string) (*SpecSet, error) {
	sort.Strings(files)
	ss := &SpecSet{Funcs: map[string]*FuncSpec{}, files: files}
	for _, f := range files {
		if err := ss.loadFile(f, "", nil); err != nil {
			return nil, err
		}
	}
	return ss, nil
}

// @set NAME text: %NAME% stands for text in the hints that follow.
// variant reads the contract of key again, with the conditions of @if decided.
func (ss *SpecSet) variant(key string, holds func(string) bool) (*FuncSpec, error) {
	v := &SpecSet{Funcs: map[string]*FuncSpec{}}
	for _, f := range ss.files {
		if err := v.loadFile(f, key, holds); err != nil {
			return nil, err
		}
	}
	return v.Funcs[key], nil
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "\n" + b
}

func splitLabel(s string) (string, string) {
	i := strings.Index(s, ":")
	if i > 0 && (i+1 >= len(s) || s[i+1] != ':') {
		l := strings.TrimSpace(s[:i])
		ok := l != ""
		for _, c := range l {
			if !(c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				ok = false
			}
		}
		if ok {
			return l, strings.TrimSpace(s[i+1:])
		}
	}
	return "", strings.TrimSpace(s)
}

func (ss *SpecSet) loadFile(file, only string, holds func(string) bool) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type ent struct {
		kw, text string
		line     int
	}
	var ents []ent
	for n, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "@") {
			kw, rest, _ := strings.Cut(t[1:], " ")
			ents = append(ents, ent{kw, rest, n + 1})
			continue
		}
		if strings.HasPrefix(t, "##") {
			continue
		}
		if len(ents) > 0 {
			ents[len(ents)-1].text += "\n" + l
		}
	}
	var cur *FuncSpec
	var loop *LoopSpec
	var clo *ClosureSpec
	bad := func(e ent, m string) error { return fmt.Errorf("%s:%d: @%s: %s", filepath.Base(file), e.line, e.kw, m) }
	var conds []bool
	macros := map[string]string{}
	skip := false
	for _, e := range ents {
		if e.kw == "func" || e.kw == "extend" {
			k, _, _ := strings.Cut(strings.TrimSpace(e.text), "(")
			skip = only != "" && strings.TrimSpace(k) != only
			macros = map[string]string{}
			if len(conds) > 0 {
				return bad(e, "@if without @endif")
			}
		}
		if skip {
			continue
		}
		switch e.kw {
		case "if":
			if cur == nil {
				return bad(e, "outside @func")
			}
			cur.Variants = true
			w, rest, _ := strings.Cut(strings.TrimSpace(e.text), "\n")
			if strings.TrimSpace(rest) != "" {
				return bad(e, "text without a keyword")
			}
			conds = append(conds, holds != nil && holds(w))
			continue
		case "else":
			if len(conds) == 0 {
				return bad(e, "without @if")
			}
			conds[len(conds)-1] = !conds[len(conds)-1]
			continue
		case "endif":
			if len(conds) == 0 {
				return bad(e, "without @if")
			}
			conds = conds[:len(conds)-1]
			continue
		}
		if len(conds) > 0 {
			if e.kw != "set" && !hintsOnly[e.kw] || (e.kw == "decreases" || e.kw == "ensures") && loop == nil {
				return bad(e, "under @if")
			}
			off := false
			for _, c := range conds {
				off = off || !c
			}
			if off {
				continue
			}
		}
		if e.kw == "set" {
			k, v, _ := strings.Cut(strings.TrimSpace(e.text), "\n")
			macros[strings.TrimSpace(k)] = strings.TrimSpace(v)
			continue
		}
		if hintsOnly[e.kw] && !((e.kw == "decreases" || e.kw == "ensures") && loop == nil) {
			for k, v := range macros {
				e.text = strings.ReplaceAll(e.text, "%"+k+"%", v)
			}
		}
		label, text := splitLabel(e.text)
		cl := Clause{label, text, file, e.line}
		full := strings.TrimSpace(e.text)
		if e.kw == "func" {
			h := full
			params := []string{}
			if i := strings.Index(h, "("); i >= 0 {
				for _, p := range strings.Split(strings.TrimSuffix(h[i+1:], ")"), ",") {
					if p = strings.TrimSpace(p); p != "" {
						params = append(params, p)
					}
				}
				h = h[:i]
			}
			cur = newFuncSpec(strings.TrimSpace(h))
			cur.Params = params
			cur.File, cur.Line = file, e.line
			loop, clo = nil, nil
			if _, dup := ss.Funcs[cur.Key]; dup {
				return bad(e, "duplicate "+cur.Key)
			}
			ss.Funcs[cur.Key] = cur
			continue
		}
		if e.kw == "extend" {
			cur = ss.Funcs[full]
			loop, clo = nil, nil
			if cur == nil {
				return bad(e, "no @func "+full)
			}
			continue
		}
		if cur == nil {
			return bad(e, "outside @func")
		}
		if cl.Label == "" {
			cl.Label = e.kw + strconv.Itoa(e.line)
		}
		switch e.kw {
		case "requires":
			if clo != nil {
				clo.Requires = append(clo.Requires, cl)
			} else {
				cur.Requires = append(cur.Requires, cl)
			}
		case "ensures":
			if loop != nil {
				loop.Ens = append(loop.Ens, cl)
			} else {
				cur.Ensures = append(cur.Ensures, cl)
			}
		case "decreases":
			if loop != nil {
				loop.Decreases = full
			} else {
				cur.Decreases = full
			}
		case "modifies":
			cur.Modifies = append(cur.Modifies, strings.Fields(strings.ReplaceAll(full, ",", " "))...)
		case "owns":
			cur.Owns = append(cur.Owns, strings.Fields(strings.ReplaceAll(full, ",", " "))...)
		case "fresh":
			cur.Fresh = true
			for _, r := range strings.Fields(full) {
				i, err := strconv.Atoi(strings.TrimPrefix(r, "result"))
				if r == "result" {
					i, err = 0, nil
				}
				if err != nil {
					i = -1
				}
				cur.FreshRes = append(cur.FreshRes, i)
			}
		case "spec_fn":
			cur.SpecFn = full
			cur.Ensures = append(cur.Ensures, Clause{Label: "spec", Text: "result == " + full + "(" + strings.Join(cur.Params, ", ") + ")"})
		case "define":
			cur.Define = full
		case "sig":
			cur.Sig = full
		case "keeps":
			cur.Keeps = true
		case "partial":
			cur.Partial = true
		case "inline":
			cur.Inline = true
		case "attr":
			cur.Attrs = append(cur.Attrs, full)
		case "locals":
			for _, p := range strings.Split(full, ",") {
				n, ty, ok := strings.Cut(strings.TrimSpace(p), " ")
				if !ok {
					return bad(e, "name type")
				}
				opt := strings.HasPrefix(n, "?")
				cur.Locals = append(cur.Locals, LocalSpec{strings.TrimPrefix(n, "?"), strings.TrimSpace(ty), opt})
			}
		case "loop":
			n, err := strconv.Atoi(full)
			if err != nil {
				return bad(e, err.Error())
			}
			loops := cur.Loops
			if clo != nil {
				loops = clo.Loops
			}
			if loops[n] == nil {
				loops[n] = &LoopSpec{}
			}
			loop = loops[n]
		case "closure":
			n, err := strconv.Atoi(full)
			if err != nil {
				return bad(e, err.Error())
			}
			clo = &ClosureSpec{Loops: map[int]*LoopSpec{}}
			cur.Closures[n] = clo
			loop = nil
		case "endclosure":
			clo, loop = nil, nil
		case "endloop":
			loop = nil
		case "pure":
			clo.Pure = full
		case "pre":
			clo.Pre = full
		case "step":
			clo.Step = full
		case "invariant":
			if loop == nil {
				return bad(e, "outside loop")
			}
			loop.Inv = append(loop.Inv, cl)
		case "begin":
			loop.Begin = join(loop.Begin, full)
		case "end":
			loop.End = join(loop.End, full)
		case "pre_loop":
			loop.Before = join(loop.Before, full)
		case "post_loop":
			loop.After = join(loop.After, full)
		case "entry":
			if clo != nil {
				clo.Entry = join(clo.Entry, full)
			} else {
				cur.Entry = join(cur.Entry, full)
			}
		case "exit":
			if clo != nil {
				clo.Exit = join(clo.Exit, full)
			} else {
				cur.Exit = join(cur.Exit, full)
			}
		case "before", "after":
			h, text, _ := strings.Cut(full, "\n")
			h = strings.TrimSpace(h)
			n := 0
			if i := strings.Index(h, "#"); i >= 0 {
				n, _ = strconv.Atoi(h[i+1:])
				h = h[:i]
			}
			hint := Hint{e.kw, h, n, text}
			if clo != nil {
				clo.Hints = append(clo.Hints, hint)
			} else {
				cur.Hints = append(cur.Hints, hint)
			}
		case "use":
			cur.Uses = append(cur.Uses, full)
		default:
			return bad(e, "unknown keyword")
		}
	}
	return nil
}

// fresh tells whether the contract promises that result i is built by the
// function and held by nothing else.
func (s *FuncSpec) fresh(i int) bool {
	if !s.Fresh {
		return false
	}
	if len(s.FreshRes) == 0 {
		return true
	}
	for _, r := range s.FreshRes {
		if r == i {
			return true
		}
	}
	return false
}
