package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
)

// ---- C16: from trees to grammars ------------------------------------------------------------

type bindSpec struct {
	Ignore                         []int
	Rule, Head, Tail, Alts, Symbol int
	Terminals                      []int
	Nonterminal, Escape            int
	Escapes                        map[string]string
}

func (b bindSpec) build() fromcst.BNFCSTtoASTBindings {
	m := map[string]string{}
	for k, v := range b.Escapes {
		m[k] = v
	}
	return fromcst.BNFCSTtoASTBindings{
		IgnoreNodeTypes: append([]int{}, b.Ignore...), RuleType: b.Rule, RuleHeadType: b.Head, RuleTailType: b.Tail,
		ExpressionSequencesType: b.Alts, SequencesSymbolType: b.Symbol, SymbolTerminalTypes: append([]int{}, b.Terminals...),
		SymbolNonTerminalType: b.Nonterminal, EscapeCharacterType: b.Escape, EscapeMapping: m,
	}
}

var documentedBind = bindSpec{
	Ignore: []int{25}, Rule: 4, Head: 18, Tail: 5, Alts: 7, Symbol: 9, Terminals: []int{11, 12}, Nonterminal: 18, Escape: 17,
	Escapes: map[string]string{"t": "\t", "n": "\n", "r": "\r", "\"": "\"", "\\": "\\"},
}

// astCase is a text with the tree the parser of the self grammar gives it, or with another
type astCase struct {
	Text []byte
	Tree *treeSpec `json:",omitempty"`
	Bind *bindSpec `json:",omitempty"`
}

func specOf(n cst.Node) treeSpec {
	t := treeSpec{Type: n.Type(), Pos: n.Pos(), End: n.End()}
	for _, k := range n.Childs() {
		t.Kids = append(t.Kids, specOf(k))
	}
	return t
}

// top gives the topmost nodes that are wanted, outside of ignored ones
func (t *treeSpec) top(ignored []int, want func(int) bool) (res []*treeSpec) {
	for _, x := range ignored {
		if x == t.Type {
			return nil
		}
	}
	if want(t.Type) {
		return []*treeSpec{t}
	}
	for i := range t.Kids {
		res = append(res, t.Kids[i].top(ignored, want)...)
	}
	return
}

func (b *bindSpec) all(t *treeSpec, k int) []*treeSpec {
	return t.top(b.Ignore, func(x int) bool { return x == k })
}

func (b *bindSpec) symbol(t *treeSpec, s []byte) (res symSpec, ok bool) {
	for _, k := range b.Terminals {
		l := b.all(t, k)
		if len(l) == 0 {
			continue
		}
		res.K = "t"
		for _, c := range l[0].top(nil, func(x int) bool { return x == 16 || x == -1 }) {
			if c.Type == -1 {
				res.V = append(res.V, s[c.Pos:c.End]...)
				continue
			}
			e := b.all(c, b.Escape)
			if len(e) == 0 {
				return res, false
			}
			v, ok := b.Escapes[string(s[e[0].Pos:e[0].End])]
			if !ok {
				return res, false
			}
			res.V = append(res.V, v...)
		}
		if len(res.V) == 0 {
			res.K = "e"
		}
		return res, true
	}
	l := b.all(t, b.Nonterminal)
	if len(l) == 0 {
		return res, false
	}
	return symSpec{K: "n", V: s[l[0].Pos:l[0].End]}, true
}

func (b *bindSpec) grammar(t *treeSpec, s []byte) (res []bnfRule, ok bool) {
	for _, n := range b.all(t, b.Rule) {
		heads, tails := b.all(n, b.Head), b.all(n, b.Tail)
		if len(heads) == 0 || len(tails) == 0 {
			return nil, false
		}
		r := bnfRule{Name: s[heads[0].Pos:heads[0].End]}
		for _, a := range b.all(tails[0], b.Alts) {
			alt := []symSpec{}
			for _, y := range b.all(a, b.Symbol) {
				sym, ok := b.symbol(y, s)
				if !ok {
					return nil, false
				}
				alt = append(alt, sym)
			}
			r.Alts = append(r.Alts, alt)
		}
		res = append(res, r)
	}
	return res, true
}

func sameGrammar(g bnf.Grammar, want []bnfRule) error {
	if len(g.Rules) != len(want) {
		return fmt.Errorf("%d rules, want %d", len(g.Rules), len(want))
	}
	for i, r := range want {
		h := g.Rules[i]
		if h.Head.Name != string(r.Name) {
			return fmt.Errorf("rule %d is named %q, want %q", i, short(h.Head.Name), short(string(r.Name)))
		}
		if len(h.Tail.Sequences) != len(r.Alts) {
			return fmt.Errorf("rule %d has %d alternatives, want %d", i, len(h.Tail.Sequences), len(r.Alts))
		}
		for k, a := range r.Alts {
			got := h.Tail.Sequences[k].Symbols
			if len(got) != len(a) {
				return fmt.Errorf("alternative %d of rule %d has %d symbols, want %d", k, i, len(got), len(a))
			}
			for m, y := range a {
				if y.K == "t" && len(y.V) == 0 {
					y.K = "e"
				}
				if got[m] != y.build() {
					return fmt.Errorf("symbol %d of alternative %d of rule %d is %s, want %s", m, k, i, short(plain(got[m])), short(plain(y.build())))
				}
			}
		}
	}
	return nil
}

func runAST(c astCase) error {
	b := documentedBind
	bind := fromcst.SelfCSTtoASTBindings
	if c.Bind != nil {
		b = *c.Bind
		bind = b.build
	}
	var root cst.Node
	var t treeSpec
	spelled, isSpelled := []bnfRule(nil), false
	if c.Tree != nil {
		t = *c.Tree
		root = t.build()
	} else {
		p, err := selfParser()
		if err != nil {
			return nil // C18
		}
		if root, _, err = p.Parse(c.Text); err != nil || root == nil {
			return nil
		}
		t = specOf(root)
		if c.Bind == nil {
			spelled, isSpelled = read(c.Text)
		}
	}
	text := string(c.Text)
	bs := bind()
	want, ok := b.grammar(&t, c.Text)
	for i := 0; i < 2; i++ {
		g, err := bs.ToAST(root, text)
		if isSpelled {
			if err != nil || g == nil {
				return fmt.Errorf("%q is not converted: %v", short(text), err)
			}
			if err := sameGrammar(*g, spelled); err != nil {
				return fmt.Errorf("%q: %v", short(text), err)
			}
		} else if !ok {
			if err == nil {
				return fmt.Errorf("converted though a name, a body, a kind or an escape is missing")
			}
			if g != nil {
				return fmt.Errorf("a grammar next to the error %v", err)
			}
		} else {
			if err != nil || g == nil {
				return fmt.Errorf("not converted: %v", err)
			}
			if err := sameGrammar(*g, want); err != nil {
				return err
			}
		}
		if err := t.check(root); err != nil {
			return fmt.Errorf("the tree changed: %v", err)
		}
		if text != string(c.Text) {
			return fmt.Errorf("the text changed")
		}
	}
	return nil
}

// each visits every node
func (t *treeSpec) each(f func(*treeSpec)) {
	f(t)
	for i := range t.Kids {
		t.Kids[i].each(f)
	}
}

func genBind(rnd *rand.Rand) *bindSpec {
	b := documentedBind
	switch rnd.Intn(4) {
	case 0:
		return nil
	case 1:
		// other numbers
		perm := rnd.Perm(12)
		b.Rule, b.Head, b.Tail, b.Alts, b.Symbol, b.Nonterminal, b.Escape = perm[0], perm[1], perm[2], perm[3], perm[4], perm[5], perm[6]
		b.Terminals = perm[7 : 7+rnd.Intn(4)]
		b.Ignore = []int{30, perm[10], 22, perm[11], 5 + rnd.Intn(30)}[rnd.Intn(4):]
	case 2:
		b.Terminals = [][]int{{12, 11}, {11}, {12}, {}, {11, 12, 11}}[rnd.Intn(5)]
		b.Ignore = [][]int{{}, {25, 24}, {40, 25, 3}, {25, 6, 24, 2, 1}, {15, 25}}[rnd.Intn(5)]
	case 3:
		b.Escapes = map[string]string{"t": "", "n": "xy", "\"": "\\"}
		if rnd.Intn(2) == 0 {
			b.Escapes = nil
		}
	}
	return &b
}

func genAST(rnd *rand.Rand, i int) (c astCase) {
	c.Text = genGrammarText(rnd)
	if i%3 == 0 {
		return
	}
	if i%3 == 1 {
		p, err := selfParser()
		if err != nil {
			return
		}
		root, _, err := p.Parse(c.Text)
		if err != nil || root == nil {
			return
		}
		t := specOf(root)
		c.Tree = &t
		c.Bind = genBind(rnd)
		if rnd.Intn(3) == 0 {
			// the same tree over another text: escapes no text of the grammar has
			t.each(func(x *treeSpec) {
				if x.Type == documentedBind.Escape && x.Pos < x.End && rnd.Intn(2) == 0 {
					text := []byte(c.Text)
					text[x.Pos] = byte(rnd.Intn(256))
					if rnd.Intn(2) == 0 {
						text[x.Pos] = byte(32 + rnd.Intn(95))
					}
					c.Text = text
				}
			})
			return
		}
		for n := rnd.Intn(3); n >= 0; n-- {
			// nodes near the root or of the kinds that matter are rare
			var nodes []*treeSpec
			t.each(func(x *treeSpec) { nodes = append(nodes, x) })
			types := map[int][]*treeSpec{}
			for _, x := range nodes {
				types[x.Type] = append(types[x.Type], x)
			}
			keys := []int{}
			for k := -2; k < 26; k++ {
				if len(types[k]) > 0 {
					keys = append(keys, k)
				}
			}
			l := types[keys[rnd.Intn(len(keys))]]
			x := l[rnd.Intn(len(l))]
			switch rnd.Intn(6) {
			case 0:
				if len(x.Kids) > 0 {
					k := rnd.Intn(len(x.Kids))
					x.Kids = append(append([]treeSpec{}, x.Kids[:k]...), x.Kids[k+1:]...)
				}
			case 1:
				x.Kids = nil
			case 2:
				x.Type = rnd.Intn(28) - 2
			case 3:
				x.Pos = rnd.Intn(len(c.Text) + 1)
				x.End = x.Pos + rnd.Intn(len(c.Text)+1-x.Pos)
			case 4:
				if len(x.Kids) > 0 {
					k := rnd.Intn(len(x.Kids))
					x.Kids = append(append([]treeSpec{}, x.Kids...), x.Kids[k])
				}
			case 5:
				x.Foreign = true
			}
		}
		return
	}
	// any tree, over few types
	if len(c.Text) > 12 {
		c.Text = c.Text[:rnd.Intn(12)]
	}
	if c.Bind = genBind(rnd); c.Bind == nil {
		c.Bind = &documentedBind
	}
	b := c.Bind
	order := []int{b.Rule, b.Head, b.Tail, b.Alts, b.Symbol, b.Nonterminal, 16, b.Escape, -1}
	order = append(order, b.Terminals...)
	var grow func(depth int) treeSpec
	grow = func(depth int) treeSpec {
		t := treeSpec{Type: order[rnd.Intn(len(order))], Foreign: rnd.Intn(10) == 0, Nil: rnd.Intn(2) == 0}
		if rnd.Intn(8) == 0 {
			t.Type = rnd.Intn(30) - 3
		}
		if rnd.Intn(12) == 0 && len(b.Ignore) > 0 {
			t.Type = b.Ignore[rnd.Intn(len(b.Ignore))]
		}
		t.Pos = rnd.Intn(len(c.Text) + 1)
		t.End = t.Pos + rnd.Intn(len(c.Text)+1-t.Pos)
		if depth > 0 {
			for k := rnd.Intn(4); k > 0; k-- {
				t.Kids = append(t.Kids, grow(depth-1-rnd.Intn(2)))
			}
		}
		return t
	}
	t := grow(2 + rnd.Intn(6))
	// along the order of the parts, so that conversion gets far
	for d := len(order) - 1; d >= 0 && rnd.Intn(6) > 0; d-- {
		if d == 5 || d == 1 {
			continue
		}
		p := treeSpec{Type: order[d], Pos: t.Pos, End: t.End, Kids: []treeSpec{t}}
		for rnd.Intn(2) == 0 {
			if q := grow(2); rnd.Intn(2) == 0 {
				p.Kids = append(p.Kids, q)
			} else {
				p.Kids = append([]treeSpec{q}, p.Kids...)
			}
		}
		t = p
	}
	c.Tree = &t
	return
}

func (c astCase) shrink() (res []astCase) {
	if c.Tree == nil {
		for _, x := range (textCase{Text: c.Text}).shrink() {
			res = append(res, astCase{Text: x.Text, Bind: c.Bind})
		}
		return
	}
	var subs func(t treeSpec) []treeSpec
	subs = func(t treeSpec) (r []treeSpec) {
		for i := range t.Kids {
			d := t
			d.Kids = append(append([]treeSpec{}, t.Kids[:i]...), t.Kids[i+1:]...)
			r = append(r, d)
		}
		r = append(r, t.Kids...)
		for i := range t.Kids {
			for _, k := range subs(t.Kids[i]) {
				d := t
				d.Kids = append([]treeSpec{}, t.Kids...)
				d.Kids[i] = k
				r = append(r, d)
			}
		}
		return
	}
	for _, t := range subs(*c.Tree) {
		t := t
		res = append(res, astCase{Text: c.Text, Tree: &t, Bind: c.Bind})
	}
	return
}

// ---- C17: printing, parsing and converting ---------------------------------------------------

func runBack(c gramCase) error {
	if len(c.Rules) == 0 {
		return nil
	}
	for _, r := range c.Rules {
		if len(r.Alts) == 0 {
			return nil
		}
		for _, a := range r.Alts {
			if len(a) == 0 {
				return nil
			}
		}
	}
	g := c.build()
	text := g.String()
	p, err := selfParser()
	if err != nil {
		return err
	}
	root, _, err := p.Parse([]byte(text))
	if err != nil || root == nil {
		return fmt.Errorf("%q is printed and not accepted: %v", short(text), err)
	}
	back, err := fromcst.SelfCSTtoASTBindings().ToAST(root, text)
	if err != nil || back == nil {
		return fmt.Errorf("%q is printed and not converted: %v", short(text), err)
	}
	if err := sameGrammar(*back, c.Rules); err != nil {
		return fmt.Errorf("%q is printed and read back otherwise: %v", short(text), err)
	}
	if !reflect.DeepEqual(*back, c.build()) {
		return fmt.Errorf("%q is printed and read back as another value", short(text))
	}
	return nil
}

func genBack(rnd *rand.Rand, i int) (c gramCase) {
	if i < len(writableBytes) {
		b := writableBytes[i]
		var alts [][]symSpec
		for _, pre := range []string{"", "'", "\"", "'\"", "\"'", "\\", "a"} {
			for _, post := range []string{"", "'", "\"", "\\", "n"} {
				alts = append(alts, []symSpec{{K: "t", V: append([]byte(pre+string(b)), post...)}})
			}
		}
		return gramCase{Rules: []bnfRule{{Name: []byte("a"), Alts: alts}}}
	}
	for n := many(rnd, rnd.Intn(4), 40); n >= 0; n-- {
		r := bnfRule{Name: []byte(genRuleName(rnd))}
		for k := many(rnd, rnd.Intn(4), 60); k >= 0; k-- {
			var a []symSpec
			for m := many(rnd, rnd.Intn(4), 60); m >= 0; m-- {
				switch rnd.Intn(6) {
				case 0:
					a = append(a, symSpec{K: "e"})
				case 1, 2:
					a = append(a, symSpec{K: "n", V: []byte(genRuleName(rnd))})
				default:
					s := symSpec{K: "t"}
					for k := many(rnd, 1, 1100); len(s.V) < k || rnd.Intn(3) > 0; {
						if rnd.Intn(20) == 0 {
							if t := special(rnd); writable(t) {
								s.V = append(s.V, t...)
								continue
							}
						}
						if rnd.Intn(3) == 0 {
							s.V = append(s.V, "\\\"'\t\n\rtnr<>|:= "[rnd.Intn(15)])
						} else {
							s.V = append(s.V, writableBytes[rnd.Intn(len(writableBytes))])
						}
					}
					a = append(a, s)
				}
			}
			r.Alts = append(r.Alts, a)
		}
		c.Rules = append(c.Rules, r)
	}
	c.Share = rnd.Intn(3) == 0
	return c
}

func init() {
	props["C16"] = &prop[astCase]{id: "C16", rule: "texts with the parser's trees against a hand-written reader of the documented syntax, changed and random trees under several bindings against a direct search for the parts; tree and text compared afterwards", gen: withBigText(genAST), run: runAST, shrink: astCase.shrink,
		trivial: func(c astCase) bool { return c.Tree != nil && len(c.Tree.Kids) == 0 }}
	gramProp("C17", "every writable byte beside quotes and backslashes, then random grammars: printed, parsed and converted, compared with the original", withBigBack(genBack), runBack)
}

func writable(s []byte) bool {
	for _, b := range s {
		if strings.IndexByte(writableBytes, b) < 0 {
			return false
		}
	}
	return true
}
