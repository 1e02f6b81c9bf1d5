package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// ---- the documented syntax, by hand -------------------------------------------------------

// reader reads texts in the documented syntax. It shares nothing with the
// code under test.
type reader struct {
	s []byte
	p int
}

func (r *reader) at() int {
	if r.p < len(r.s) {
		return int(r.s[r.p])
	}
	return -1
}
func (r *reader) eat(t string) bool {
	if strings.HasPrefix(string(r.s[r.p:]), t) {
		r.p += len(t)
		return true
	}
	return false
}
func (r *reader) spaces() {
	for r.eat(" ") {
	}
}
func isLetter(c int) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
func isDigit(c int) bool  { return c >= '0' && c <= '9' }
func isSymbol(c int) bool {
	return c > 0 && c < 127 && strings.IndexByte("| !#$%&()*+,-./:;>=<?@[]^_`{}~", byte(c)) >= 0
}

func (r *reader) ruleName() ([]byte, bool) {
	b := r.p
	if !isLetter(r.at()) {
		return nil, false
	}
	for isLetter(r.at()) || isDigit(r.at()) || r.at() == '-' {
		r.p++
	}
	return r.s[b:r.p], true
}
func (r *reader) literal() ([]byte, bool) {
	q := r.at()
	r.p++
	res := []byte{}
	for {
		c := r.at()
		switch {
		case c == q:
			r.p++
			return res, true
		case c == '\\':
			r.p++
			i := strings.IndexByte("tnr\"\\", byte(r.at()))
			if r.at() < 0 || i < 0 {
				return nil, false
			}
			res = append(res, "\t\n\r\"\\"[i])
		case c == '\'' || c == '"' || isLetter(c) || isDigit(c) || isSymbol(c):
			res = append(res, byte(c))
		default:
			return nil, false
		}
		r.p++
	}
}
func (r *reader) content() (rule bnfRule, ok bool) {
	if !r.eat("<") {
		return rule, false
	}
	if rule.Name, ok = r.ruleName(); !ok || !r.eat(">") {
		return rule, false
	}
	r.spaces()
	if !r.eat("::=") {
		return rule, false
	}
	for {
		r.spaces()
		alt := []symSpec{}
		for r.at() == '<' || r.at() == '"' || r.at() == '\'' {
			var s symSpec
			if r.at() == '<' {
				r.p++
				s.K = "n"
				if s.V, ok = r.ruleName(); !ok || !r.eat(">") {
					return rule, false
				}
			} else {
				s.K = "t"
				if s.V, ok = r.literal(); !ok {
					return rule, false
				}
			}
			alt = append(alt, s)
			r.spaces()
		}
		if len(alt) == 0 {
			return rule, false
		}
		rule.Alts = append(rule.Alts, alt)
		if !r.eat("|") {
			return rule, true
		}
	}
}

// read gives the rules a text spells, or false when it is not in the syntax
func read(src []byte) (res []bnfRule, ok bool) {
	r := &reader{s: src}
	r.spaces()
	rule, ok := r.content()
	if !ok {
		return nil, false
	}
	res = append(res, rule)
	for r.p < len(src) {
		if !r.eat("\n") && !r.eat("\r\n") {
			return nil, false
		}
		r.spaces()
		if r.at() == '<' {
			if rule, ok = r.content(); !ok {
				return nil, false
			}
			res = append(res, rule)
		}
	}
	return res, true
}

// ---- texts --------------------------------------------------------------------------------

const writableBytes = "\t\n\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func genRuleName(rnd *rand.Rand) string {
	const letters = "abcxyzABCXYZklm"
	s := string(letters[rnd.Intn(len(letters))])
	for n := many(rnd, rnd.Intn(4)*rnd.Intn(3), 1100); n > 0; n-- {
		s += string("abzAZ09-5m"[rnd.Intn(10)])
	}
	return s
}

func genLiteral(rnd *rand.Rand) string {
	q := "\"'"[rnd.Intn(2)]
	s := string(q)
	for n := many(rnd, rnd.Intn(5), 1100); n > 0; n-- {
		switch c := writableBytes[rnd.Intn(len(writableBytes))]; {
		case rnd.Intn(4) == 0:
			s += "\\" + string("tnr\"\\"[rnd.Intn(5)])
		case c == '\t' || c == '\n' || c == '\r' || c == '\\' || c == q:
		default:
			s += string(c)
		}
	}
	return s + string(q)
}

func genGrammarText(rnd *rand.Rand) []byte {
	sp := func() string { return strings.Repeat(" ", many(rnd, rnd.Intn(3), 300)) }
	s := ""
	for n := many(rnd, 1+rnd.Intn(4), 40); n > 0; n-- {
		if s != "" {
			for s += []string{"\n", "\r\n"}[rnd.Intn(2)]; rnd.Intn(4) == 0; {
				s += sp() + []string{"\n", "\r\n"}[rnd.Intn(2)]
			}
		}
		s += sp() + "<" + genRuleName(rnd) + ">" + sp() + "::=" + sp()
		for a := many(rnd, rnd.Intn(3), 60); a >= 0; a-- {
			for k := many(rnd, rnd.Intn(4), 60); k >= 0; k-- {
				if rnd.Intn(2) == 0 {
					s += "<" + genRuleName(rnd) + ">" + sp()
				} else {
					s += genLiteral(rnd) + sp()
				}
			}
			if a > 0 {
				s += "|" + sp()
			}
		}
	}
	for rnd.Intn(3) == 0 {
		s += []string{"\n", "\r\n"}[rnd.Intn(2)] + sp()
	}
	return []byte(s)
}

func mutateText(rnd *rand.Rand, s []byte) []byte {
	s = append([]byte{}, s...)
	for n := 1 + rnd.Intn(2); n > 0 && len(s) > 0; n-- {
		i := rnd.Intn(len(s))
		c := "<>:=|\"'\\ \n\rtnrab0-\x00\xff\x7f"[rnd.Intn(21)]
		switch rnd.Intn(7) {
		case 4:
			s = append(s[:i:i], append(special(rnd), s[i:]...)...)
		case 5:
			s = append(special(rnd), s...)
		case 6:
			s = append(s, special(rnd)...)
		case 0:
			s = append(s[:i], s[i+1:]...)
		case 1:
			s[i] = c
		case 2:
			s = append(s[:i], append([]byte{c}, s[i:]...)...)
		default:
			s = s[:i]
		}
	}
	return s
}

// textCase holds a text; Plan is the case without one
type textCase struct {
	Text []byte
	Plan bool `json:",omitempty"`
}

func (c textCase) shrink() (res []textCase) {
	if c.Plan {
		return nil
	}
	for n := len(c.Text) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(c.Text); i += n {
			res = append(res, textCase{Text: append(append([]byte{}, c.Text[:i]...), c.Text[i+n:]...)})
		}
	}
	return
}

var selfTable struct {
	done  bool
	table *map[int]map[byte][]parser.ParserOp
	names *map[int]string
	err   error
}

func selfParser() (parser.LL1Parser, error) {
	if !selfTable.done {
		selfTable.done = true
		selfTable.table, selfTable.names, selfTable.err = tablegen.FromGrammar(bnf.SelfGrammar())
	}
	if selfTable.err != nil {
		return nil, fmt.Errorf("no table for the self grammar: %v", selfTable.err)
	}
	if selfTable.table == nil || selfTable.names == nil {
		return nil, fmt.Errorf("no table for the self grammar")
	}
	return parser.NewLL1Parser(*selfTable.table, *selfTable.names), nil
}

func genText18(rnd *rand.Rand, i int) textCase {
	if i == 0 {
		return textCase{Plan: true}
	}
	if i <= 4*256 {
		// every byte in both kinds of quotes, as it is and after a backslash
		b, q := byte(i-1), []string{"'", `"`, `'\`, `"\`}[(i-1)/256]
		return textCase{Text: append(append([]byte("<a> ::= "+q), b), q[0])}
	}
	if i <= 7*256 {
		b := byte(i - 1)
		return textCase{Text: append(append([]byte([]string{"<", "<a", "<a> ::= "}[(i-1)/256-4]), b), []string{"> ::= <a>", "> ::= <a>", "<a>"}[(i-1)/256-4]...)}
	}
	s := genGrammarText(rnd)
	if rnd.Intn(2) == 0 {
		s = mutateText(rnd, s)
	}
	return textCase{Text: s}
}

func plain(s bnf.Symbol) string {
	switch v := s.(type) {
	case bnf.SymbolTerminal:
		return fmt.Sprintf("t%q", v.Name)
	case bnf.SymbolNonTerminal:
		return fmt.Sprintf("n%q", v.Name)
	case bnf.SymbolNothing:
		return "e"
	}
	return fmt.Sprintf("%T", s)
}

func sortedAlts(alts []bnf.Sequence) string {
	var res []string
	for _, a := range alts {
		s := ""
		for _, y := range a.Symbols {
			s += " " + plain(y)
		}
		res = append(res, s)
	}
	sort.Strings(res)
	return strings.Join(res, "|")
}

func runSelf(c textCase) error {
	if c.Plan {
		g := bnf.SelfGrammar()
		want := 0
		for i, line := range documentedText {
			rules, ok := read([]byte(line))
			if !ok || len(rules) != 1 {
				return fmt.Errorf("harness: cannot read %q", line)
			}
			want++
			if i >= len(g.Rules) {
				continue
			}
			var alts []bnf.Sequence
			for _, a := range rules[0].Alts {
				var q bnf.Sequence
				for _, s := range a {
					if s.K == "t" && len(s.V) == 0 {
						s.K = "e"
					}
					q.Symbols = append(q.Symbols, s.build())
				}
				alts = append(alts, q)
			}
			if g.Rules[i].Head.Name != string(rules[0].Name) {
				return fmt.Errorf("rule %d is <%s>, documented <%s>", i, g.Rules[i].Head.Name, rules[0].Name)
			}
			if a, b := sortedAlts(g.Rules[i].Tail.Sequences), sortedAlts(alts); a != b {
				return fmt.Errorf("<%s> has alternatives%s, documented%s", rules[0].Name, short(a), short(b))
			}
		}
		if len(g.Rules) != want {
			return fmt.Errorf("%d rules, documented %d", len(g.Rules), want)
		}
		_, err := selfParser()
		return err
	}
	p, err := selfParser()
	if err != nil {
		return err
	}
	_, want := read(c.Text)
	root, names, err := p.Parse(c.Text)
	if want != (err == nil) {
		return fmt.Errorf("parsing %q: error %v, in the documented syntax: %v", short(string(c.Text)), err, want)
	}
	if err == nil && (root == nil || names == nil) {
		return fmt.Errorf("parsing %q gives neither a tree nor an error", short(string(c.Text)))
	}
	return nil
}

func init() {
	props["C18"] = &prop[textCase]{id: "C18", rule: "the self grammar against the documented rules; every byte in each kind of quotes, in names and between symbols; derived and mutated texts: accepted exactly if a hand-written reader of the documented syntax reads them", gen: genText18, run: runSelf, shrink: textCase.shrink}
}
