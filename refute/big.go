package main

import (
	"bytes"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
)

// bigSizes are sizes at which limits are likely: usual ones and those the code names.
func bigSizes() []int {
	set := map[int]bool{300: true, 1030: true, 4100: true, 33000: true, 66000: true}
	for _, k := range dictSizes {
		if k >= 200 {
			set[k+2], set[k-1] = true, true
			if k <= 1<<16 {
				set[2*k+2] = true
			}
		}
	}
	for _, s := range strings.Fields(os.Getenv("REFUTE_SIZES")) { // to try the search itself
		if k, err := strconv.Atoi(s); err == nil {
			set[k] = true
		}
	}
	var res []int
	for k := range set {
		res = append(res, k)
	}
	sort.Ints(res)
	return res
}

const bigEvery = 150 // one big case after so many others

const shapes = 9

// bigCase is a parse of size n in one of the shapes a source can grow in.
func bigCase(shape, n int) (parseCase, bool) {
	lit := func(s string) opSpec { return opSpec{T: []byte(s)} }
	nt := func(k int) opSpec { return opSpec{N: k} }
	rep := func(o opSpec, n int) []opSpec {
		l := make([]opSpec, n)
		for i := range l {
			l[i] = o
		}
		return l
	}
	one := func(cells map[int][]opSpec, src []byte) (parseCase, bool) {
		return parseCase{Rows: []rowSpec{{0, cells}, {1, map[int][]opSpec{'x': {}, 0: {}, 'a': {lit("a")}, '\n': {nt(-2)}, '\r': {nt(-2)}}}}, Names: map[int]string{0: "rule0", 1: "rule1"}, Src: src, Cut: 512}, true
	}
	switch shape {
	case 0: // nesting
		return one(map[int][]opSpec{'(': {lit("("), nt(0), lit(")")}, ')': {}, 0: {}}, append(bytes.Repeat([]byte("("), n), bytes.Repeat([]byte(")"), n)...))
	case 1: // a list
		return one(map[int][]opSpec{'a': {lit("a"), nt(0)}, 0: {}}, bytes.Repeat([]byte("a"), n))
	case 2: // a list whose end does not fit
		return one(map[int][]opSpec{'a': {lit("a"), nt(0)}, 0: {}}, append(bytes.Repeat([]byte("a"), n), 'b'))
	case 3: // one long literal
		return one(map[int][]opSpec{'a': {lit(strings.Repeat("ab", n/2)), lit("x")}}, append(bytes.Repeat([]byte("ab"), n/2), 'x'))
	case 4: // a cell of many symbols that vanish
		return one(map[int][]opSpec{'x': append(rep(nt(1), n), lit("x"))}, []byte("x"))
	case 5: // a cell of many literals
		return one(map[int][]opSpec{'a': rep(lit("a"), n)}, bytes.Repeat([]byte("a"), n))
	case 6: // many lines
		return one(map[int][]opSpec{'a': {nt(1), nt(0)}, '\n': {nt(1), nt(0)}, '\r': {nt(1), nt(0)}, 0: {}}, bytes.Repeat([]byte("a\r\n\n"), n/4+1))
	case 7: // many rows
		if n > 3000 {
			return parseCase{}, false
		}
		c := parseCase{Names: map[int]string{}, Src: []byte("ab"), Cut: 1}
		for i := 0; i < n; i++ {
			c.Rows = append(c.Rows, rowSpec{i, map[int][]opSpec{'a': {nt(i + 1)}}})
		}
		c.Rows = append(c.Rows, rowSpec{n, map[int][]opSpec{'a': {lit("ab")}}})
		return c, true
	case 8: // few symbols that vanish in many steps
		if n > 1<<17 {
			return parseCase{}, false
		}
		c := parseCase{Names: map[int]string{}, Cut: 1, Fuel: 4 * n}
		i := 0
		for ; 1<<i < n; i++ {
			c.Rows = append(c.Rows, rowSpec{i, map[int][]opSpec{0: {nt(i + 1), nt(i + 1)}}})
		}
		c.Rows = append(c.Rows, rowSpec{i, map[int][]opSpec{0: {}}})
		return c, true
	}
	return parseCase{}, false
}

// genBig is genParse with a big case now and then.
func genBig(max int) func(rnd *rand.Rand, i int) parseCase {
	return func(rnd *rand.Rand, i int) parseCase {
		if i%bigEvery == bigEvery-1 {
			k, limit := i/bigEvery, max
			if traceFile != "" && limit > 5000 { // slow run
				limit = 5000
			}
			if k%shapes == 3 && traceFile == "" { // one literal costs little
				limit = 1 << 23
			}
			if s := bigSizes(); k < len(s)*shapes && s[k/shapes] <= limit {
				if c, ok := bigCase(k%shapes, s[k/shapes]); ok {
					return c
				}
			}
		}
		if i%60 == 59 {
			return nearLiteral(rnd)
		}
		return genParse(rnd, i)
	}
}

// nearLiteral is a literal of some length against a source that differs in one bit or one byte.
func nearLiteral(rnd *rand.Rand) parseCase {
	w := make([]byte, 2+rnd.Intn(2+rnd.Intn(300)))
	for k := range w {
		w[k] = byte(1 + rnd.Intn(255))
		if rnd.Intn(3) > 0 {
			w[k] = "abcxyzABCXYZ019 \n\r"[rnd.Intn(18)]
		}
	}
	src := append([]byte{}, w...)
	k := 1 + rnd.Intn(len(w)-1)
	switch rnd.Intn(5) {
	case 0, 1:
		src[k] ^= 0x20
	case 2:
		src[k] ^= 1 << rnd.Intn(8)
	case 3:
		src[k] = byte(rnd.Intn(256))
	}
	c := parseCase{Rows: []rowSpec{{0, map[int][]opSpec{int(w[0]): {{T: w}}}}}, Names: map[int]string{0: "rule0"}, Src: src, Cut: k}
	if rnd.Intn(2) == 0 {
		c.Rows[0].Cells[int(w[0])] = []opSpec{{N: 1}, {T: w[:1]}}
		c.Rows = append(c.Rows, rowSpec{1, map[int][]opSpec{int(w[0]): {{T: w}}}})
		c.Src = append(c.Src, w[0])
	}
	return c
}

// bigGram is a grammar without conflicts of size n, with sources and whether it derives them.
func bigGram(shape, n int) (gramCase, bool) {
	t := func(s string) symSpec { return symSpec{K: "t", V: []byte(s)} }
	nt := func(s string) symSpec { return symSpec{K: "n", V: []byte(s)} }
	e := []symSpec{{K: "e"}}
	one := func(srcs [][]byte, want []bool, s ...[]symSpec) (gramCase, bool) {
		return gramCase{Rules: []bnfRule{{Name: []byte("s"), Alts: s}, {Name: []byte("a"), Alts: [][]symSpec{e}}, {Name: []byte("b"), Alts: [][]symSpec{{t("b")}}}}, Srcs: srcs, Want: want}, true
	}
	rep := bytes.Repeat
	switch shape {
	case 0:
		return one([][]byte{append(rep([]byte("("), n), rep([]byte(")"), n)...), append(rep([]byte("("), n), rep([]byte(")"), n-1)...), append(rep([]byte("("), n), rep([]byte(")"), n+1)...)},
			[]bool{true, false, false}, []symSpec{t("("), nt("s"), t(")")}, e)
	case 1:
		return one([][]byte{rep([]byte("a"), n), append(rep([]byte("a"), n), 'b')}, []bool{true, false}, []symSpec{t("a"), nt("s")}, e)
	case 2:
		if n > 4200 {
			return gramCase{}, false
		}
		var l []symSpec
		for i := 0; i < n; i++ {
			l = append(l, nt("a"))
		}
		return one([][]byte{[]byte("x"), {}, []byte("xx")}, []bool{true, false, false}, append(l, t("x")))
	case 3:
		var l []symSpec
		for i := 0; i < n; i++ {
			l = append(l, nt("b"))
			if n > 4000 {
				l[i] = t("b")
			}
		}
		return one([][]byte{rep([]byte("b"), n), rep([]byte("b"), n-1), rep([]byte("b"), n+1)}, []bool{true, false, false}, l)
	case 4:
		w := strings.Repeat("ab", n/2)
		return one([][]byte{[]byte(w), []byte(w[1:]), []byte(w[:len(w)-1]), []byte(w + "a")}, []bool{true, false, false, false}, []symSpec{t(w)})
	case 5:
		if n > 1<<17 {
			return gramCase{}, false
		}
		c := gramCase{Srcs: [][]byte{{}, []byte("x")}, Want: []bool{true, false}}
		i := 0
		for ; 1<<i < n; i++ {
			y := nt(strconv.Itoa(i + 1))
			c.Rules = append(c.Rules, bnfRule{Name: []byte(strconv.Itoa(i)), Alts: [][]symSpec{{y, y}}})
		}
		c.Rules = append(c.Rules, bnfRule{Name: []byte(strconv.Itoa(i)), Alts: [][]symSpec{e}})
		return c, true
	}
	return gramCase{}, false
}

const gramShapes = 6

func withBigGram(gen func(*rand.Rand, int) gramCase) func(*rand.Rand, int) gramCase {
	return func(rnd *rand.Rand, i int) gramCase {
		if i%bigEvery == bigEvery-1 {
			k := i / bigEvery
			if s := bigSizes(); k < len(s)*gramShapes {
				if c, ok := bigGram(k%gramShapes, s[k/gramShapes]); ok {
					return c
				}
			}
		}
		return gen(rnd, i)
	}
}

const backShapes = 7

// bigBack is a grammar of size n in the writable part of the language, and its text.
func bigBack(shape, n int) (gramCase, []byte, bool) {
	if shape < 4 && n > 4200 || n > 70000 {
		return gramCase{}, nil, false
	}
	sym := symSpec{K: "t", V: []byte("x")}
	name, alts, syms, rules := "a", 1, 1, 1
	switch shape {
	case 0:
		rules = n
	case 1:
		alts = n
	case 2:
		syms = n
	case 3:
		syms, sym = n, symSpec{K: "n", V: []byte("b-c")}
	case 4:
		sym.V = bytes.Repeat([]byte("xyz"), n/3+1)
	case 5:
		name = strings.Repeat("r", n)
	case 6:
		sym.V = bytes.Repeat([]byte("\t"), n)
	default:
		return gramCase{}, nil, false
	}
	var c gramCase
	var text bytes.Buffer
	for i := 0; i < rules; i++ {
		if i > 0 {
			text.WriteByte('\n')
		}
		r := bnfRule{Name: []byte(name)}
		if rules > 1 {
			r.Name = []byte("r" + strconv.Itoa(i))
		}
		text.WriteString("<" + string(r.Name) + "> ::=")
		for k := 0; k < alts; k++ {
			if k > 0 {
				text.WriteString(" |")
			}
			var a []symSpec
			for m := 0; m < syms; m++ {
				a = append(a, sym)
				if sym.K == "n" {
					text.WriteString(" <" + string(sym.V) + ">")
				} else {
					text.WriteString(" \"" + strings.ReplaceAll(string(sym.V), "\t", "\\t") + "\"")
				}
			}
			r.Alts = append(r.Alts, a)
		}
		c.Rules = append(c.Rules, r)
	}
	return c, text.Bytes(), true
}

func withBigBack(gen func(*rand.Rand, int) gramCase) func(*rand.Rand, int) gramCase {
	return func(rnd *rand.Rand, i int) gramCase {
		if i%bigEvery == bigEvery-1 {
			k := i / bigEvery
			if s := bigSizes(); k < len(s)*backShapes {
				if c, _, ok := bigBack(k%backShapes, s[k/backShapes]); ok {
					return c
				}
			}
		}
		return gen(rnd, i)
	}
}

func withBigText(gen func(*rand.Rand, int) astCase) func(*rand.Rand, int) astCase {
	return func(rnd *rand.Rand, i int) astCase {
		if i%bigEvery == bigEvery-1 {
			k := i / bigEvery
			if s := bigSizes(); k < len(s)*backShapes {
				if _, text, ok := bigBack(k%backShapes, s[k/backShapes]); ok {
					return astCase{Text: text}
				}
			}
		}
		return gen(rnd, i)
	}
}

// sameTree compares without deep reflection.
func sameTree(a, b refTree) bool {
	if a.t != b.t || a.p != b.p || a.e != b.e || len(a.kids) != len(b.kids) {
		return false
	}
	for i := range a.kids {
		if !sameTree(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

// cuts are the ways to leave a part of a source out.
func cuts(src []byte) [][]byte {
	var res [][]byte
	step := 1
	if len(src) > 64 {
		step = len(src) / 16
		for k := len(src) / 2; k >= 1; k /= 4 {
			res = append(res, append([]byte{}, src[k:]...), append([]byte{}, src[:len(src)-k]...))
		}
	}
	for p := 0; p+step <= len(src); p += step {
		res = append(res, append(append([]byte{}, src[:p]...), src[p+step:]...))
	}
	return res
}
