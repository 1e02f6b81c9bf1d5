package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

// ---- C15: printing ------------------------------------------------------------------------

func wantText(s symSpec) string {
	switch s.K {
	case "n":
		return "<" + string(s.V) + ">"
	case "t":
		var single, double bool
		for _, b := range s.V {
			single = single || b == '\''
			double = double || b == '"'
		}
		q := byte('"')
		if double && !single {
			q = '\''
		}
		res := []byte{q}
		for _, b := range s.V {
			switch {
			case b == '\\':
				res = append(res, '\\', '\\')
			case b == '\t':
				res = append(res, '\\', 't')
			case b == '\n':
				res = append(res, '\\', 'n')
			case b == '\r':
				res = append(res, '\\', 'r')
			case b == '"' && q == '"':
				res = append(res, '\\', '"')
			default:
				res = append(res, b)
			}
		}
		return string(append(res, q))
	}
	return `""`
}

func runPrint(c gramCase) error {
	g, before := c.build(), c.build()
	want := ""
	for i, r := range c.Rules {
		line := "<" + string(r.Name) + "> ::="
		for k, a := range r.Alts {
			if k > 0 {
				line += " |"
			}
			for m, s := range a {
				line += " " + wantText(s)
				if got := g.Rules[i].Tail.Sequences[k].Symbols[m].String(); got != wantText(s) {
					return fmt.Errorf("symbol %s %q prints as %q, want %q", s.K, s.V, short(got), short(wantText(s)))
				}
			}
		}
		if got := g.Rules[i].String(); got != line {
			return fmt.Errorf("rule prints as %q, want %q", short(got), short(line))
		}
		if i > 0 {
			want += "\n"
		}
		want += line
	}
	if got := g.String(); got != want {
		return fmt.Errorf("%v prints as %q, want %q", c, short(got), short(want))
	}
	if got := (bnf.Grammar{}).String(); got != "" {
		return fmt.Errorf("the empty grammar prints as %q", got)
	}
	if !reflect.DeepEqual(g, before) {
		return fmt.Errorf("%v was changed by printing it", c)
	}
	return nil
}

// genQuoted makes text dense in the bytes that quoting cares about
func genQuoted(rnd *rand.Rand) []byte {
	dense := []byte("\\\\\t\n\r\"'`tnr0abx \x00\x07\x0b\x0c\x7f\x80\xc3\xa9\xff<>|:=")
	n := rnd.Intn(7)
	if rnd.Intn(30) == 0 {
		n = rnd.Intn(80)
	}
	n = many(rnd, n, 1100)
	res := []byte{}
	if rnd.Intn(30) == 0 {
		res = append(res, special(rnd)...)
	}
	for i := 0; i < n; i++ {
		if rnd.Intn(6) == 0 {
			res = append(res, byte(rnd.Intn(256)))
		} else {
			res = append(res, dense[rnd.Intn(len(dense))])
		}
	}
	return res
}

func genPrint(rnd *rand.Rand, i int) gramCase {
	var c gramCase
	if i < 256 {
		// every byte by itself, and between others
		b := byte(i)
		c.Rules = []bnfRule{{Name: []byte{b}, Alts: [][]symSpec{
			{{K: "t", V: []byte{b}}, {K: "t", V: []byte{b, '"'}}, {K: "t", V: []byte{'\'', b, '"'}}, {K: "t", V: []byte{'\\', b}}, {K: "t", V: []byte{'\'', b}}},
			{{K: "n", V: []byte{b}}}}}}
		return c
	}
	for n := many(rnd, rnd.Intn(4), 60); n >= 0; n-- {
		r := bnfRule{Name: genQuoted(rnd)}
		for k := many(rnd, rnd.Intn(4), 60); k > 0; k-- {
			var a []symSpec
			for m := many(rnd, rnd.Intn(4), 60); m > 0; m-- {
				switch rnd.Intn(6) {
				case 0:
					a = append(a, symSpec{K: "e"})
				case 1, 2:
					a = append(a, symSpec{K: "n", V: genQuoted(rnd)})
				default:
					a = append(a, symSpec{K: "t", V: genQuoted(rnd)})
				}
			}
			r.Alts = append(r.Alts, a)
		}
		c.Rules = append(c.Rules, r)
	}
	c.Share = rnd.Intn(3) == 0
	return c
}

func init() {
	gramProp("C15", "every byte by itself and in mixed quotes, then random grammars of texts dense in quotes, backslashes and controls: text compared with a rewriting byte by byte", genPrint, runPrint)
}
