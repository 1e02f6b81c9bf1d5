package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// symSpec is a symbol: kind "t" a terminal, "n" a nonterminal, "e" the empty string
type symSpec struct {
	K string
	V []byte `json:",omitempty"`
}
type bnfRule struct {
	Name []byte
	Alts [][]symSpec
}
type gramCase struct {
	Rules []bnfRule
	Srcs  [][]byte `json:",omitempty"`
	Want  []bool   `json:",omitempty"` // which sources the grammar derives, where known by construction
	Share bool     `json:",omitempty"` // alternatives and symbols lie in shared arrays
}

func (s symSpec) build() bnf.Symbol {
	switch s.K {
	case "t":
		return bnf.SymbolTerminal{Name: string(s.V)}
	case "n":
		return bnf.SymbolNonTerminal{Name: string(s.V)}
	}
	return bnf.SymbolNothing{}
}

func (c gramCase) build() bnf.Grammar {
	var g bnf.Grammar
	if c.Share {
		// everything in one array, so that writing past a slice shows
		var syms []bnf.Symbol
		var seqs []bnf.Sequence
		for _, r := range c.Rules {
			for _, a := range r.Alts {
				for _, s := range a {
					syms = append(syms, s.build())
				}
				seqs = append(seqs, bnf.Sequence{})
			}
		}
		n, m := 0, 0
		for _, r := range c.Rules {
			m0 := m
			for _, a := range r.Alts {
				seqs[m].Symbols = syms[n : n+len(a)]
				n += len(a)
				m++
			}
			g.Rules = append(g.Rules, bnf.Rule{Head: bnf.SymbolNonTerminal{Name: string(r.Name)}, Tail: bnf.Substitution{Sequences: seqs[m0:m]}})
		}
		return g
	}
	for _, r := range c.Rules {
		var sub bnf.Substitution
		for _, a := range r.Alts {
			var seq bnf.Sequence
			for _, s := range a {
				seq.Symbols = append(seq.Symbols, s.build())
			}
			sub.Sequences = append(sub.Sequences, seq)
		}
		g.Rules = append(g.Rules, bnf.Rule{Head: bnf.SymbolNonTerminal{Name: string(r.Name)}, Tail: sub})
	}
	return g
}

func (c gramCase) String() string {
	s := ""
	for _, r := range c.Rules {
		s += fmt.Sprintf("<%s> ::=", short(string(r.Name)))
		for i, a := range r.Alts {
			if i > 0 {
				s += " |"
			}
			for _, y := range a {
				if len(s) > 600 {
					return s + "..."
				}
				switch y.K {
				case "t":
					s += fmt.Sprintf(" %q", short(string(y.V)))
				case "n":
					s += fmt.Sprintf(" <%s>", short(string(y.V)))
				default:
					s += ` ""`
				}
			}
		}
		s += "; "
		if len(s) > 600 {
			return s + "..."
		}
	}
	return s
}

// ---- the textbook, written down directly ------------------------------------------

type byteRel [256]bool

type bookTable struct {
	rows     []map[byte][]symSpec
	conflict string
	index    map[string]int
	first    []byteRel // [0]: vanishes
	follow   []byteRel
}

func (c gramCase) wellFormed() bool {
	names := map[string]bool{}
	for _, r := range c.Rules {
		if names[string(r.Name)] {
			return false
		}
		names[string(r.Name)] = true
	}
	for _, r := range c.Rules {
		for _, a := range r.Alts {
			if len(a) == 0 {
				return false
			}
			for _, s := range a {
				switch s.K {
				case "t":
					if len(s.V) == 0 || s.V[0] == 0 {
						return false
					}
				case "n":
					if !names[string(s.V)] {
						return false
					}
				default:
					if len(a) != 1 {
						return false
					}
				}
			}
		}
	}
	return len(c.Rules) > 0
}

// what begins a sequence, [0] telling whether it vanishes
func (b *bookTable) begins(seq []symSpec) byteRel {
	var res byteRel
	for _, s := range seq {
		switch s.K {
		case "t":
			res[s.V[0]] = true
			return res
		case "n":
			f := b.first[b.index[string(s.V)]]
			for x := 1; x < 256; x++ {
				res[x] = res[x] || f[x]
			}
			if !f[0] {
				return res
			}
		}
	}
	res[0] = true
	return res
}

func (c gramCase) book() *bookTable {
	b := &bookTable{index: map[string]int{}, first: make([]byteRel, len(c.Rules)), follow: make([]byteRel, len(c.Rules))}
	for i, r := range c.Rules {
		b.index[string(r.Name)] = i
	}
	for again := true; again; {
		again = false
		for i := len(c.Rules) - 1; i >= 0; i-- {
			for _, a := range c.Rules[i].Alts {
				f := b.begins(a)
				for x := range f {
					if f[x] && !b.first[i][x] {
						b.first[i][x], again = true, true
					}
				}
			}
		}
	}
	b.follow[0][0] = true
	for again := true; again; {
		again = false
		for i, r := range c.Rules {
			for _, a := range r.Alts {
				for m, s := range a {
					if s.K != "n" {
						continue
					}
					j := b.index[string(s.V)]
					f := b.begins(a[m+1:])
					for x := range f {
						if ((x > 0 && f[x]) || (f[0] && b.follow[i][x])) && !b.follow[j][x] {
							b.follow[j][x], again = true, true
						}
					}
				}
			}
		}
	}
	for i, r := range c.Rules {
		row := map[byte][]symSpec{}
		put := func(x int, cell []symSpec) {
			if _, ok := row[byte(x)]; ok && b.conflict == "" {
				b.conflict = fmt.Sprintf("row %d byte %q", i, x)
			}
			row[byte(x)] = cell
		}
		for _, a := range r.Alts {
			f := b.begins(a)
			for x := 1; x < 256; x++ {
				if f[x] {
					put(x, a)
				}
			}
			if f[0] {
				for x := range b.follow[i] {
					if b.follow[i][x] {
						put(x, nil)
					}
				}
			}
		}
		b.rows = append(b.rows, row)
	}
	return b
}

// ---- running the real code --------------------------------------------------------

func (c gramCase) generate() (*map[int]map[byte][]parser.ParserOp, *map[int]string, error) {
	return tablegen.FromGrammar(c.build())
}

func (c gramCase) sameCell(b *bookTable, cell []parser.ParserOp, want []symSpec) error {
	var ops []parser.ParserOp
	for _, s := range want {
		if s.K == "t" {
			ops = append(ops, parser.OpTerminal(string(s.V)))
		} else {
			ops = append(ops, parser.OpNonTerminal(b.index[string(s.V)]))
		}
	}
	if len(cell) != len(ops) {
		return fmt.Errorf("%d symbols instead of %d", len(cell), len(ops))
	}
	for i := range ops {
		if !reflect.DeepEqual(cell[i], ops[i]) {
			return fmt.Errorf("symbol %d is %v instead of %v", i, cell[i], ops[i])
		}
	}
	return nil
}

func runTable(c gramCase) error {
	if !c.wellFormed() {
		return nil
	}
	t, _, err := c.generate()
	if err != nil {
		return nil
	}
	b := c.book()
	for i, row := range b.rows {
		got := (*t)[i]
		for x := 0; x < 256; x++ {
			cell, ok := got[byte(x)]
			want, ok2 := row[byte(x)]
			if ok != ok2 {
				return fmt.Errorf("%v: cell of row %d and byte %d is present: %v, should be: %v", c, i, x, ok, ok2)
			}
			if ok && b.conflict == "" {
				if e := c.sameCell(b, cell, want); e != nil {
					return fmt.Errorf("%v: cell of row %d and byte %d: %v", c, i, x, e)
				}
			}
		}
	}
	return nil
}

func runConflict(c gramCase) error {
	if !c.wellFormed() {
		return nil
	}
	_, _, err := c.generate()
	b := c.book()
	if b.conflict != "" && err == nil {
		return fmt.Errorf("%v: two entries for %s but no error", c, b.conflict)
	}
	if b.conflict == "" && err != nil {
		return fmt.Errorf("%v: no conflict but error %v", c, err)
	}
	return nil
}

func runTotal(c gramCase) error {
	g, want := c.build(), c.build()
	t, n, err := tablegen.FromGrammar(g)
	if (err == nil) != (t != nil) || (err == nil) != (n != nil) {
		return fmt.Errorf("%v: table %v, names %v, error %v", c, t != nil, n != nil, err)
	}
	if !reflect.DeepEqual(g, want) {
		return fmt.Errorf("%v: the grammar is changed to %v", c, g)
	}
	for _, r := range g.Rules {
		s := r.Tail.Sequences
		for _, e := range s {
			if k := cap(e.Symbols); k > len(e.Symbols) && !c.Share {
				for _, y := range e.Symbols[len(e.Symbols):k] {
					if y != nil {
						return fmt.Errorf("%v: the arrays of the grammar are written", c)
					}
				}
			}
		}
		if k := cap(s); k > len(s) && !c.Share {
			for _, e := range s[len(s):k] {
				if e.Symbols != nil {
					return fmt.Errorf("%v: the arrays of the grammar are written", c)
				}
			}
		}
	}
	return nil
}

func runRows(c gramCase) error {
	if !c.wellFormed() {
		return nil
	}
	t, n, err := c.generate()
	if err != nil {
		return nil
	}
	if len(*t) != len(c.Rules) || len(*n) != len(c.Rules) {
		return fmt.Errorf("%v: %d rows and %d names", c, len(*t), len(*n))
	}
	for i, r := range c.Rules {
		if _, ok := (*t)[i]; !ok {
			return fmt.Errorf("%v: no row %d", c, i)
		}
		if name, ok := (*n)[i]; !ok || name != string(r.Name) {
			return fmt.Errorf("%v: row %d is named %q", c, i, name)
		}
		for x, cell := range (*t)[i] {
			for _, o := range cell {
				found := false
				for j := range c.Rules {
					if reflect.DeepEqual(o, parser.OpNonTerminal(j)) {
						found = true
					}
				}
				for _, a := range r.Alts {
					for _, s := range a {
						if s.K == "t" && reflect.DeepEqual(o, parser.OpTerminal(string(s.V))) {
							found = true
						}
					}
				}
				if !found {
					return fmt.Errorf("%v: the cell of row %d and byte %d refers to %v", c, i, x, o)
				}
			}
		}
	}
	return nil
}

// ---- languages, from the grammar alone ------------------------------------------------

// spans says for every rule and start which ends it derives, as the least fixpoint
func (c gramCase) spans(src []byte) [][]map[int]bool {
	index := map[string]int{}
	for i, r := range c.Rules {
		index[string(r.Name)] = i
	}
	res := make([][]map[int]bool, len(c.Rules))
	for i := range res {
		res[i] = make([]map[int]bool, len(src)+1)
		for p := range res[i] {
			res[i][p] = map[int]bool{}
		}
	}
	for again := true; again; {
		again = false
		for i, r := range c.Rules {
			for p := 0; p <= len(src); p++ {
				for _, a := range r.Alts {
					ends := map[int]bool{p: true}
					for _, s := range a {
						next := map[int]bool{}
						for q := range ends {
							switch s.K {
							case "t":
								if bytes.HasPrefix(src[q:], s.V) {
									next[q+len(s.V)] = true
								}
							case "n":
								for e := range res[index[string(s.V)]][q] {
									next[e] = true
								}
							default:
								next[q] = true
							}
						}
						ends = next
					}
					for e := range ends {
						if !res[i][p][e] {
							res[i][p][e], again = true, true
						}
					}
				}
			}
		}
	}
	return res
}

func (c gramCase) parser() parser.LL1Parser {
	t, n, err := c.generate()
	if err != nil {
		return nil
	}
	return parser.NewLL1Parser(*t, *n)
}

func runLanguage(c gramCase) error {
	if !c.wellFormed() {
		return nil
	}
	p := c.parser()
	if p == nil {
		return nil
	}
	for k, src := range c.Srcs {
		_, _, err := p.Parse(string(src))
		if len(c.Want) > 0 {
			if c.Want[k] != (err == nil) {
				return fmt.Errorf("%v: source %s: derived: %v, parser says %v", c, short(fmt.Sprintf("%q", src)), c.Want[k], err)
			}
			continue
		}
		if want := c.spans(src)[0][0][len(src)]; want != (err == nil) {
			return fmt.Errorf("%v: source %q: derived: %v, parser says %v", c, src, want, err)
		}
	}
	return nil
}

func runHalts(c gramCase) error {
	if !c.wellFormed() {
		return nil
	}
	p := c.parser()
	if p == nil {
		return nil
	}
	for _, src := range c.Srcs {
		n, m, err := p.Parse(string(src))
		if (err == nil) != (n != nil) || (err == nil) != (m != nil) {
			return fmt.Errorf("%v: source %s: tree %v, names %v, error %v", c, short(fmt.Sprintf("%q", src)), n != nil, m != nil, err)
		}
	}
	return nil
}

// ---- generation -------------------------------------------------------------------------

func genName(rnd *rand.Rand, i int) []byte {
	pads := []string{" ", "  ", "\t", "\n", "-", "_", "<", ">", "\x00", "\"", "\\"}
	if rnd.Intn(60) == 0 {
		return append(special(rnd), fmt.Sprint(i)...)
	}
	if rnd.Intn(40) == 0 { // a name like no other
		return [][]byte{{}, []byte(pads[rnd.Intn(len(pads))]), special(rnd)}[rnd.Intn(3)]
	}
	switch rnd.Intn(12) {
	case 8:
		return []byte(fmt.Sprint("r", i/2) + pads[rnd.Intn(len(pads))] + fmt.Sprint(i%2))
	case 9:
		return []byte(fmt.Sprint("r", i/2) + []string{"", pads[rnd.Intn(len(pads))]}[i%2])
	case 10:
		return []byte([]string{"", pads[rnd.Intn(len(pads))]}[i%2] + fmt.Sprint("r", i/2))
	case 11:
		return []byte(fmt.Sprintf("%c%d", "rR"[i%2], i/2))
	case 0:
		return []byte(fmt.Sprintf("%c", 'A'+i%26) + fmt.Sprint(i))
	case 1:
		return []byte(fmt.Sprintf("r-%d", i))
	case 2:
		return append([]byte{byte(rnd.Intn(256))}, fmt.Sprint(i)...)
	}
	return []byte(fmt.Sprintf("r%d", i))
}

func genText(rnd *rand.Rand, alpha []byte) []byte {
	n := 1
	switch rnd.Intn(6) {
	case 0:
		n = 2
	case 1:
		n = 1 + rnd.Intn(4)
	}
	if rnd.Intn(60) == 0 {
		n = rnd.Intn(40) + 1
	}
	if rnd.Intn(60) == 0 {
		return special(rnd)
	}
	n = many(rnd, n, 300)
	res := make([]byte, n)
	for i := range res {
		res[i] = alpha[rnd.Intn(len(alpha))]
	}
	if n > 1 && rnd.Intn(10) == 0 {
		res[1+rnd.Intn(n-1)] = 0
	}
	return res
}

func genAlpha(rnd *rand.Rand) []byte {
	switch rnd.Intn(4) {
	case 0:
		return []byte("ab")
	case 1:
		return []byte("abcdefgh")
	case 2:
		var res []byte
		for i := 0; i < 2+rnd.Intn(6); i++ {
			res = append(res, byte(1+rnd.Intn(255)))
		}
		return res
	}
	var res []byte
	for i := 1; i < 256; i++ {
		res = append(res, byte(i))
	}
	return res
}

// free random grammars, mostly in conflict
func genFree(rnd *rand.Rand) gramCase {
	alpha := genAlpha(rnd)
	n := 1 + rnd.Intn(5)
	names := make([][]byte, n)
	for i := range names {
		names[i] = genName(rnd, i)
	}
	var c gramCase
	for i := 0; i < n; i++ {
		r := bnfRule{Name: names[i]}
		for k := many(rnd, 1+rnd.Intn(3), 60); k > 0; k-- {
			var a []symSpec
			if rnd.Intn(4) == 0 {
				a = []symSpec{{K: "e"}}
			} else {
				for m := many(rnd, 1+rnd.Intn(4), 60); m > 0; m-- {
					if rnd.Intn(2) == 0 {
						a = append(a, symSpec{K: "t", V: genText(rnd, alpha)})
					} else {
						a = append(a, symSpec{K: "n", V: names[rnd.Intn(n)]})
					}
				}
			}
			r.Alts = append(r.Alts, a)
		}
		c.Rules = append(c.Rules, r)
	}
	return c
}

// grammars whose alternatives mostly begin differently
func genApart(rnd *rand.Rand, n int) gramCase {
	alpha := genAlpha(rnd)
	names := make([][]byte, n)
	for i := range names {
		names[i] = genName(rnd, i)
	}
	var c gramCase
	perm := rnd.Perm(255)
	used := 0
	for i := 0; i < n; i++ {
		r := bnfRule{Name: names[i]}
		if rnd.Intn(3) > 0 {
			used = 0
		}
		for k := many(rnd, 1+rnd.Intn(4), 60); k > 0; k-- {
			var a []symSpec
			x := rnd.Intn(10)
			switch {
			case x == 0 || (k == 1 && x < 4):
				a = []symSpec{{K: "e"}}
			case x < 4:
				for m := 1 + rnd.Intn(3); m > 0; m-- {
					a = append(a, symSpec{K: "n", V: names[rnd.Intn(n)]})
				}
			default:
				var b byte
				if len(alpha) < 200 {
					b = alpha[used%len(alpha)]
				} else {
					b = byte(1 + perm[used%255])
				}
				used++
				v := []byte{b}
				if rnd.Intn(3) == 0 {
					v = append(v, genText(rnd, alpha)...)
				}
				a = append(a, symSpec{K: "t", V: v})
			}
			if a[0].K != "e" {
				for m := many(rnd, rnd.Intn(4), 60); m > 0; m-- {
					if rnd.Intn(2) == 0 {
						a = append(a, symSpec{K: "t", V: genText(rnd, alpha)})
					} else {
						a = append(a, symSpec{K: "n", V: names[rnd.Intn(n)]})
					}
				}
			}
			r.Alts = append(r.Alts, a)
		}
		c.Rules = append(c.Rules, r)
	}
	return c
}

// chains of rules through which facts travel slowly
func genChain(rnd *rand.Rand, n int) gramCase {
	order := rnd.Perm(n)
	switch rnd.Intn(3) {
	case 0:
		sort.Ints(order)
	case 1:
		sort.Sort(sort.Reverse(sort.IntSlice(order)))
	}
	name := func(i int) []byte { return []byte(fmt.Sprintf("c%d", i)) }
	null := rnd.Intn(2) == 0
	tail := rnd.Intn(3)
	var c gramCase
	c.Rules = append(c.Rules, bnfRule{Name: []byte("s"), Alts: [][]symSpec{{{K: "n", V: name(0)}, {K: "t", V: []byte("!")}}}})
	for _, i := range order {
		r := bnfRule{Name: name(i)}
		if i < n-1 {
			a := []symSpec{{K: "n", V: name(i + 1)}}
			if tail == 1 {
				a = append(a, symSpec{K: "n", V: []byte("z")})
			} else if tail == 2 && !null {
				a = append(a, symSpec{K: "t", V: []byte{byte(1 + i%255)}})
			}
			r.Alts = [][]symSpec{a}
		} else {
			r.Alts = [][]symSpec{{{K: "t", V: []byte("x")}}}
			if null {
				r.Alts = append(r.Alts, []symSpec{{K: "e"}})
			}
		}
		c.Rules = append(c.Rules, r)
	}
	c.Rules = append(c.Rules, bnfRule{Name: []byte("z"), Alts: [][]symSpec{{{K: "e"}}}})
	return c
}

// genWide: many different bytes in one first set, follow set, row or cell
func genWide(rnd *rand.Rand) gramCase {
	n := 2 + rnd.Intn(250)
	bs := rnd.Perm(255)
	if rnd.Intn(3) == 0 {
		sort.Ints(bs)
	}
	t := func(k int) symSpec { return symSpec{K: "t", V: []byte{byte(1 + bs[k])}} }
	nt := func(s string) symSpec { return symSpec{K: "n", V: []byte(s)} }
	e := []symSpec{{K: "e"}}
	name := func(k int) string { return fmt.Sprintf("w%d", k) }
	s := bnfRule{Name: []byte("s")}
	var rest []bnfRule
	switch rnd.Intn(5) {
	case 0: // a sequence of rules that may vanish
		var a []symSpec
		for k := 0; k < n; k++ {
			a = append(a, nt(name(k)))
			rest = append(rest, bnfRule{Name: []byte(name(k)), Alts: [][]symSpec{{t(k)}, e}})
		}
		if rnd.Intn(2) == 0 {
			a = append(a, t(n))
		}
		s.Alts = [][]symSpec{a}
	case 1: // many alternatives, sometimes two with one beginning
		for k := 0; k < n; k++ {
			s.Alts = append(s.Alts, []symSpec{t(k)})
		}
		if rnd.Intn(2) == 0 {
			s.Alts = append(s.Alts, []symSpec{t(rnd.Intn(n)), t(0)})
		}
	case 2: // a rule many bytes follow, sometimes one it can begin with
		for k := 0; k < n; k++ {
			s.Alts = append(s.Alts, []symSpec{t(k), nt("x"), t(k)})
		}
		q := n
		if rnd.Intn(2) == 0 {
			q = rnd.Intn(n)
		}
		rest = []bnfRule{{Name: []byte("x"), Alts: [][]symSpec{{t(q), t(q)}, e}}}
	case 3: // a long cell
		var a []symSpec
		for k := 0; k < n; k++ {
			a = append(a, []symSpec{t(k), nt("x"), nt("s")}[rnd.Intn(3)])
		}
		s.Alts = [][]symSpec{append([]symSpec{t(n)}, a...), {t(n + 1)}}
		rest = []bnfRule{{Name: []byte("x"), Alts: [][]symSpec{{t(0)}}}}
	case 4: // many rules in one
		for k := 0; k < n; k++ {
			s.Alts = append(s.Alts, []symSpec{nt(name(k)), t(n - k)})
			rest = append(rest, bnfRule{Name: []byte(name(k)), Alts: [][]symSpec{{t(k)}}})
		}
		if rnd.Intn(2) == 0 {
			rest[n-1].Alts = append(rest[n-1].Alts, e)
		}
	}
	return gramCase{Rules: append([]bnfRule{s}, rest...)}
}

func genGram(rnd *rand.Rand, i int) gramCase {
	var c gramCase
	if i%60 == 59 {
		return genWide(rnd)
	}
	for try := 0; try < 12; try++ {
		switch x := rnd.Intn(40); {
		case x < 12:
			c = genFree(rnd)
		case x < 36:
			c = genApart(rnd, 1+rnd.Intn(6))
		case x < 38:
			c = genApart(rnd, many(rnd, 1+rnd.Intn(30), 70))
		case x == 38 && i > 200:
			c = genChain(rnd, 2+rnd.Intn(70))
		default:
			c = genChain(rnd, 2+rnd.Intn(8))
		}
		if rnd.Intn(3) == 0 || (c.wellFormed() && c.book().conflict == "") {
			break
		}
	}
	c.Share = rnd.Intn(3) == 0
	return c
}

// any grammar, however malformed
func genMalformed(rnd *rand.Rand, i int) gramCase {
	if i == 0 {
		return gramCase{}
	}
	c := genGram(rnd, i)
	for n := rnd.Intn(4); n > 0; n-- {
		if len(c.Rules) == 0 {
			break
		}
		r := &c.Rules[rnd.Intn(len(c.Rules))]
		switch x := rnd.Intn(12); x {
		case 0:
			r.Alts = nil
		case 1:
			r.Alts = append(r.Alts, nil)
		case 2:
			r.Name = c.Rules[rnd.Intn(len(c.Rules))].Name
		case 3:
			r.Name = nil
		case 4:
			r.Name = []byte("other")
		default:
			if len(r.Alts) == 0 {
				continue
			}
			a := &r.Alts[rnd.Intn(len(r.Alts))]
			s := symSpec{K: "e"}
			switch x {
			case 5, 6:
				s = symSpec{K: "t"}
			case 7:
				s = symSpec{K: "t", V: []byte{0}}
			case 8:
				s = symSpec{K: "n", V: []byte("missing")}
			case 9:
				s = symSpec{K: "n", V: r.Name}
			}
			p := rnd.Intn(len(*a) + 1)
			*a = append((*a)[:p:p], append([]symSpec{s}, (*a)[p:]...)...)
		}
	}
	return c
}

// sentence derives a random sentence, giving up when it gets long
func (c gramCase) sentence(rnd *rand.Rand) []byte {
	index := map[string]int{}
	for i, r := range c.Rules {
		index[string(r.Name)] = i
	}
	fuel := 60
	var res []byte
	var walk func(i, depth int)
	walk = func(i, depth int) {
		fuel--
		r := c.Rules[i]
		if fuel < 0 || depth > 30 || len(r.Alts) == 0 {
			return
		}
		for _, s := range r.Alts[rnd.Intn(len(r.Alts))] {
			switch s.K {
			case "t":
				res = append(res, s.V...)
			case "n":
				walk(index[string(s.V)], depth+1)
			}
		}
	}
	walk(0, 0)
	max := 24
	if rnd.Intn(8) == 0 {
		max = 60
	}
	if len(res) > max {
		res = res[:max]
	}
	return res
}

func genSourced(rnd *rand.Rand, i int) gramCase {
	c := genGram(rnd, i)
	for len(c.Rules) > 40 || !c.wellFormed() || (rnd.Intn(20) > 0 && c.book().conflict != "") {
		c = genGram(rnd, i)
	}
	c.Srcs = [][]byte{{}}
	for k := 0; k < 6; k++ {
		s := c.sentence(rnd)
		c.Srcs = append(c.Srcs, s)
		m := append([]byte{}, s...)
		switch rnd.Intn(6) {
		case 0:
			m = append(m, byte(rnd.Intn(256)))
		case 1:
			if len(m) > 0 {
				m = m[:rnd.Intn(len(m))]
			}
		case 2:
			if len(m) > 0 {
				m[rnd.Intn(len(m))] = byte(rnd.Intn(256))
			}
		case 3:
			if len(m) > 0 {
				p := rnd.Intn(len(m))
				m = append(m[:p:p], m[p+1:]...)
			}
		case 4:
			m = append(m, c.sentence(rnd)...)
			if len(m) > 24 {
				m = m[:24]
			}
		case 5:
			m = append(m, 0)
		}
		c.Srcs = append(c.Srcs, m)
	}
	return c
}

func shrinkGram(c gramCase) []gramCase {
	var res []gramCase
	if len(c.Want) > 0 { // the answers belong to the sources
		for i := range c.Srcs {
			if len(c.Srcs) > 1 {
				d := c
				d.Srcs, d.Want = c.Srcs[i:i+1], c.Want[i:i+1]
				res = append(res, d)
			}
		}
		return res
	}
	add := func(f func(*gramCase)) {
		d := gramCase{Share: c.Share}
		for _, r := range c.Rules {
			q := bnfRule{Name: r.Name}
			for _, a := range r.Alts {
				q.Alts = append(q.Alts, append([]symSpec(nil), a...))
			}
			d.Rules = append(d.Rules, q)
		}
		d.Srcs = append(d.Srcs, c.Srcs...)
		f(&d)
		res = append(res, d)
	}
	for i := range c.Srcs {
		i := i
		if len(c.Srcs) > 1 {
			add(func(d *gramCase) { d.Srcs = d.Srcs[i : i+1] })
		}
		if n := len(c.Srcs[i]); n > 0 && len(c.Srcs) == 1 {
			add(func(d *gramCase) { d.Srcs[i] = d.Srcs[i][:n/2] })
			for p := 0; p < n; p++ {
				p := p
				add(func(d *gramCase) { s := d.Srcs[i]; d.Srcs[i] = append(append([]byte{}, s[:p]...), s[p+1:]...) })
			}
		}
	}
	for i := range c.Rules {
		i := i
		add(func(d *gramCase) { d.Rules = append(d.Rules[:i], d.Rules[i+1:]...) })
		for k := range c.Rules[i].Alts {
			k := k
			add(func(d *gramCase) { a := d.Rules[i].Alts; d.Rules[i].Alts = append(a[:k], a[k+1:]...) })
			for m := range c.Rules[i].Alts[k] {
				m := m
				add(func(d *gramCase) { a := d.Rules[i].Alts[k]; d.Rules[i].Alts[k] = append(a[:m], a[m+1:]...) })
			}
		}
	}
	if c.Share {
		add(func(d *gramCase) { d.Share = false })
	}
	return res
}

func gramProp(id, rule string, gen func(*rand.Rand, int) gramCase, run func(gramCase) error) {
	props[id] = &prop[gramCase]{id: id, rule: rule, gen: gen, run: run, shrink: shrinkGram,
		trivial: func(c gramCase) bool { return len(c.Rules) < 2 }}
}

func init() {
	gramProp("C04", "random grammars, most without conflicts, some long chains: every cell compared with a table computed from the textbook definitions", genGram, runTable)
	gramProp("C05", "random grammars with and without conflicts: error exactly if the textbook table needs two entries in a cell", genGram, runConflict)
	gramProp("C06", "random and malformed grammars: terminates without panic, gives a table and names or an error, leaves the grammar as it was", genMalformed, runTotal)
	gramProp("C07", "random grammars: rows 0 to n-1, the names of the rules, references only to rows", genGram, runRows)
	gramProp("C10", "random grammars without conflicts with derived and mutated sources: accepted exactly if a fixpoint recogniser derives the source", withBigGram(genSourced), runLanguage)
	gramProp("C11", "random grammars without conflicts with derived and mutated sources: parsing returns, with a tree and names or an error", withBigGram(genSourced), runHalts)
}
