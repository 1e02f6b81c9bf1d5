// gover translates Go functions of the repository, together with the
// contracts of /verif/spec, into a Verus crate: every Go value becomes a ghost
// value, every Go statement the corresponding ghost statement.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "", "contract files, comma separated")
	mods := flag.String("mods", "", "spec modules (.rs), comma separated")
	roots := flag.String("roots", "", "functions to verify")
	only := flag.String("only", "", "verify only these and stub the rest")
	tags := flag.String("tags", "", "properties")
	force := flag.String("types", "", "types the spec modules need")
	stubs := flag.String("stub", "", "JSON file: functions to stub, with reason")
	out := flag.String("out", "crate.rs", "")
	oblF := flag.String("obl", "obl.json", "")
	smoke := flag.Bool("smoke", false, "vacuity run")
	debug := flag.Bool("debug", false, "")
	list := flag.Bool("list", false, "list functions")
	traits := flag.String("traits", "", "sig=trait;...")
	names := flag.String("names", "", "shape the contracts were written with")
	takeShape := flag.Bool("shape", false, "print the shape of the repository")
	prelude := flag.String("prelude", "", "")
	flag.Parse()
	w, err := Load(*repo, loadShape(*names))
	if err != nil {
		die("load: %v", err)
	}
	normalize(w)
	if *takeShape {
		s := Shape{}
		for _, p := range w.Order {
			s[strings.TrimPrefix(p.Path, w.Module)] = p.shape()
		}
		j, _ := json.MarshalIndent(s, "", " ")
		fmt.Println(string(j))
		return
	}
	if *list {
		var ks []string
		for k := range w.Funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	split := func(s string) []string {
		var r []string
		for _, p := range strings.Split(s, ",") {
			if p = strings.TrimSpace(p); p != "" {
				r = append(r, p)
			}
		}
		return r
	}
	ss, err := LoadSpecs(split(*specs))
	if err != nil {
		die("%v", err)
	}
	t := &Tr{w: w, ss: ss, typeDone: map[string]bool{}, queued: map[string]bool{}, inlined: map[string]bool{}, stdUsed: map[string]bool{},
		smoke: *smoke, debug: *debug, traits: map[string]string{}, stub: map[string]string{}, tags: map[string]bool{}}
	theTr = t
	for _, n := range w.Renamed {
		t.notes = append(t.notes, "renamed: "+n)
	}
	for _, x := range split(*tags) {
		t.tags[x] = true
	}
	for _, x := range strings.Split(*traits, ";") {
		if k, v, ok := strings.Cut(x, "="); ok {
			t.traits[k] = v
		}
	}
	if *stubs != "" {
		b, err := os.ReadFile(*stubs)
		if err == nil {
			json.Unmarshal(b, &t.stub)
		}
	}
	for _, ty := range split(*force) {
		pn, tn, _ := strings.Cut(ty, ".")
		done := false
		for _, p := range w.Order {
			if p.Name == pn {
				if o := p.Types.Scope().Lookup(tn); o != nil {
					func() {
						defer func() {
							if r := recover(); r != nil {
								t.notes = append(t.notes, fmt.Sprint("type ", ty, ": ", r))
							}
						}()
						t.ty(o.Type())
						done = true
					}()
				}
			}
		}
		if !done {
			t.notes = append(t.notes, "type "+ty+" not found")
		}
	}
	text := map[string]string{}
	var order []string
	for _, r := range split(*roots) {
		if w.Funcs[r] == nil || ss.Funcs[r] == nil || t.contractOf(w.Funcs[r]) == nil {
			o := t.obl(r, "function", "contract", "function with the contract's signature exists", "", "verus")
			o.Failed = "no such function, or its signature differs from the contract"
			continue
		}
		t.need(r)
	}
	onlySet := map[string]bool{}
	for _, o := range split(*only) {
		onlySet[o] = true
	}
	for len(t.queue) > 0 {
		k := t.queue[0]
		t.queue = t.queue[1:]
		order = append(order, k)
		if len(onlySet) > 0 && !onlySet[k] {
			t.stub[k] = "not verified in this run"
		}
		text[k] = t.GenFunc(k)
	}
	var b strings.Builder
	b.WriteString("#![allow(unused_imports,dead_code,non_snake_case,unused_variables,non_camel_case_types,unused_mut,unused_parens,unused_braces,unused_assignments,non_shorthand_field_patterns,unreachable_code,unused_labels,unused_comparisons)]\n")
	b.WriteString("use vstd::prelude::*;\nuse vstd::seq::*;\nuse vstd::seq_lib::*;\nuse vstd::map::*;\nuse vstd::set::*;\n")
	b.WriteString("fn main() {}\n")
	if *prelude != "" {
		p, err := os.ReadFile(*prelude)
		if err != nil {
			die("%v", err)
		}
		b.WriteString("pub mod prelude_ {\n" + common + string(p) + "\n}\npub use prelude_::*;\n")
	}
	b.WriteString("pub mod types_ {\n" + common + "verus! {\n" + strings.Join(t.typesOut, "\n") + "}\n}\npub use types_::*;\n")
	for _, m := range split(*mods) {
		p, err := os.ReadFile(m)
		if err != nil {
			die("%v", err)
		}
		n := m
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		n = strings.TrimSuffix(n, ".rs")
		b.WriteString("pub mod " + n + " {\n" + common + string(p) + "\n}\npub use " + n + "::*;\n")
	}
	if len(t.visOut) > 0 {
		b.WriteString("pub mod vis_ {\n" + common + "verus! {\n" + strings.Join(t.visOut, "\n") + "}\n}\npub use vis_::*;\n")
	}
	for _, k := range order {
		uses := ""
		if sp := ss.Funcs[k]; sp != nil {
			for _, u := range sp.Uses {
				uses += u + "\n"
			}
		}
		if text[k] == "" {
			continue
		}
		b.WriteString("pub mod f_" + mangle(k) + " {\n" + common + "verus! {\n" + uses + text[k] + "}\n}\npub use f_" + mangle(k) + "::*;\n")
	}
	if err := os.WriteFile(*out, []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
	keys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	am := map[string]bool{}
	for _, a := range t.assumes {
		am[a] = true
	}
	res := map[string]any{"obligations": t.obls, "functions": order, "inlined": keys(t.inlined), "std": keys(t.stdUsed), "assumes": keys(am), "notes": t.notes}
	j, _ := json.MarshalIndent(res, "", " ")
	if err := os.WriteFile(*oblF, j, 0o644); err != nil {
		die("%v", err)
	}
}

const common = "#[allow(unused_imports)] use crate::*;\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use vstd::seq::*;\n#[allow(unused_imports)] use vstd::seq_lib::*;\n#[allow(unused_imports)] use vstd::map::*;\n#[allow(unused_imports)] use vstd::set::*;\n"
