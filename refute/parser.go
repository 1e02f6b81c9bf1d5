package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type opSpec struct {
	T []byte // a terminal, or
	N int    // a nonterminal if T is nil
}

type rowSpec struct {
	Row   int
	Cells map[int][]opSpec
}

type parseCase struct {
	Rows  []rowSpec
	Names map[int]string
	Src   []byte
	More  [][]byte // further sources, for reuse
	Form  int
	Cut   int // readers: bytes per read
	Fuel  int `json:",omitempty"` // more steps for the reference
}

func (o opSpec) String() string {
	if o.T != nil {
		return fmt.Sprintf("%q", o.T)
	}
	return fmt.Sprintf("<%d>", o.N)
}

// spare content beyond the length of a cell
var spare = parser.OpNonTerminal(12345)

func (c parseCase) table() map[int]map[byte][]parser.ParserOp {
	t := map[int]map[byte][]parser.ParserOp{}
	for _, r := range c.Rows {
		m := map[byte][]parser.ParserOp{}
		for b, ops := range r.Cells {
			l := make([]parser.ParserOp, 0, len(ops)+3)
			for _, o := range ops {
				if o.T != nil {
					l = append(l, parser.OpTerminal(string(o.T)))
				} else {
					l = append(l, parser.OpNonTerminal(o.N))
				}
			}
			full := l[:cap(l)]
			for i := len(l); i < len(full); i++ {
				full[i] = spare
			}
			m[byte(b)] = l
		}
		t[r.Row] = m
	}
	return t
}

func (c parseCase) row(n int) (rowSpec, bool) {
	r, ok := rowSpec{}, false
	for _, x := range c.Rows {
		if x.Row == n {
			r, ok = x, true
		}
	}
	return r, ok
}

func (c parseCase) cell(n int, b byte) ([]opSpec, bool) {
	if n < 0 {
		if n == -2 && b == '\n' {
			return []opSpec{{T: []byte("\n")}}, true
		}
		if n == -2 && b == '\r' {
			return []opSpec{{T: []byte("\r")}, {T: []byte("\n")}}, true
		}
		return nil, false
	}
	r, ok := c.row(n)
	if !ok {
		return nil, false
	}
	ops, ok := r.Cells[int(b)]
	return ops, ok
}

func at(src []byte, p int) byte {
	if p < len(src) {
		return src[p]
	}
	return 0
}

type refTree struct {
	t, p, e int
	kids    []refTree
}

var errFuel = errors.New("fuel")
var errNo = errors.New("no derivation")

// derive finds the derivation of a symbol at a position by recursive descent.
func (c parseCase) derive(src []byte, o opSpec, p int, fuel *int, depth int) (refTree, error) {
	*fuel--
	if *fuel < 0 || depth > 1<<20+10 {
		return refTree{}, errFuel
	}
	if o.T != nil {
		if !bytes.HasPrefix(src[p:], o.T) {
			return refTree{}, errNo
		}
		if len(o.T) == 0 {
			return refTree{-1, p, p, []refTree{{-2, p, p, nil}}}, nil
		}
		return refTree{-1, p, p + len(o.T), nil}, nil
	}
	ops, ok := c.cell(o.N, at(src, p))
	if !ok {
		return refTree{}, errNo
	}
	r := refTree{o.N, p, p, nil}
	for _, k := range ops {
		x, err := c.derive(src, k, r.e, fuel, depth+1)
		if err != nil {
			return r, err
		}
		r.e = x.e
		r.kids = append(r.kids, x)
	}
	if len(ops) == 0 {
		r.kids = []refTree{{-2, p, p, nil}}
	}
	return r, nil
}

// reference: the derivation of the whole source; errFuel if it does not end soon
func (c parseCase) reference(src []byte) (refTree, error) {
	fuel := 20000 + 20*len(src) + c.Fuel
	for _, r := range c.Rows {
		for _, ops := range r.Cells {
			fuel += 2 * len(ops)
		}
	}
	r, err := c.derive(src, opSpec{N: 0}, 0, &fuel, 0)
	if err == nil && r.e != len(src) {
		err = errNo
	}
	return r, err
}

func toRef(n cst.Node) refTree {
	if n == nil {
		return refTree{t: -99}
	}
	r := refTree{n.Type(), n.Pos(), n.End(), nil}
	for _, k := range n.Childs() {
		r.kids = append(r.kids, toRef(k))
	}
	return r
}

func (r refTree) String() string {
	var b strings.Builder
	r.write(&b)
	return b.String()
}

func (r refTree) write(b *strings.Builder) {
	if b.Len() > 2000 {
		return
	}
	fmt.Fprintf(b, "%d[%d:%d]", r.t, r.p, r.e)
	if len(r.kids) > 0 {
		b.WriteString("(")
		for i, k := range r.kids {
			if i > 0 {
				b.WriteString(" ")
			}
			k.write(b)
		}
		b.WriteString(")")
	}
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// isDerivation checks a returned tree against the table, top down.
func (c parseCase) isDerivation(src []byte, o opSpec, n refTree) error {
	if n.p < 0 || n.p > n.e || n.e > len(src) {
		return fmt.Errorf("span %d..%d of %v is not within the source", n.p, n.e, o)
	}
	if o.T != nil {
		if n.t != -1 || string(src[n.p:n.e]) != string(o.T) {
			return fmt.Errorf("node %s for literal %v", n, o)
		}
		if len(o.T) == 0 {
			if len(n.kids) != 1 || n.kids[0].t != -2 || n.kids[0].p != n.p || n.kids[0].e != n.p || len(n.kids[0].kids) != 0 {
				return fmt.Errorf("empty literal without its marker: %s", n)
			}
		} else if len(n.kids) != 0 {
			return fmt.Errorf("literal with children: %s", n)
		}
		return nil
	}
	if n.t != o.N {
		return fmt.Errorf("node of type %d for nonterminal %d", n.t, o.N)
	}
	ops, ok := c.cell(o.N, at(src, n.p))
	if !ok {
		return fmt.Errorf("node for row %d at %d, where the table has no cell for byte %d", o.N, n.p, at(src, n.p))
	}
	if len(ops) == 0 {
		if n.e != n.p || len(n.kids) != 1 || n.kids[0].t != -2 || n.kids[0].p != n.p || n.kids[0].e != n.p || len(n.kids[0].kids) != 0 {
			return fmt.Errorf("empty cell without its marker: %s", n)
		}
		return nil
	}
	if len(n.kids) != len(ops) {
		return fmt.Errorf("%d children for a cell of %d symbols: %s", len(n.kids), len(ops), n)
	}
	p := n.p
	for i, k := range n.kids {
		if k.p != p {
			return fmt.Errorf("child %d starts at %d, not at %d: %s", i, k.p, p, n)
		}
		p = k.e
		if err := c.isDerivation(src, ops[i], k); err != nil {
			return err
		}
	}
	if p != n.e {
		return fmt.Errorf("children end at %d: %s", p, n)
	}
	return nil
}

func (n refTree) tiles(src []byte) error {
	if n.p < 0 || n.p > n.e || n.e > len(src) {
		return fmt.Errorf("span %d..%d", n.p, n.e)
	}
	p := n.p
	for i, k := range n.kids {
		if k.p != p {
			return fmt.Errorf("child %d of %s starts at %d, expected %d", i, n, k.p, p)
		}
		p = k.e
		if err := k.tiles(src); err != nil {
			return err
		}
	}
	if len(n.kids) > 0 && p != n.e {
		return fmt.Errorf("the last child of %s ends at %d", n, p)
	}
	return nil
}

func (n refTree) leaves(src []byte) string {
	var b strings.Builder
	n.spell(src, &b)
	return b.String()
}

func (n refTree) spell(src []byte, b *strings.Builder) {
	if len(n.kids) == 0 {
		b.Write(src[n.p:n.e])
	}
	for _, k := range n.kids {
		k.spell(src, b)
	}
}

func (n refTree) types(m map[int]bool) {
	m[n.t] = true
	for _, k := range n.kids {
		k.types(m)
	}
}

// one parse; where the reference does not end neither may the parser
func (c parseCase) parse(p parser.LL1Parser, src any) (refTree, map[int]string, error) {
	n, m, err := p.Parse(src)
	if err != nil {
		if n != nil || m != nil {
			return refTree{}, nil, fmt.Errorf("BAD: an error together with a tree or names")
		}
		return refTree{}, nil, err
	}
	if n == nil || m == nil {
		return refTree{}, nil, fmt.Errorf("BAD: no error, and no tree or no names")
	}
	return toRef(n), *m, nil
}

func isBad(err error) bool { return err != nil && strings.HasPrefix(err.Error(), "BAD") }

// ---- generation ---------------------------------------------------------------

var symbols = []byte{'a', 'b', 'c', '\n', '\r', 0, 0xff, ' ', '<'}

func genParse(rnd *rand.Rand, i int) parseCase {
	c := parseCase{Names: map[int]string{}}
	nrow := 1 + rnd.Intn(4)
	rows := []int{0}
	for k := 1; k < nrow; k++ {
		if rnd.Intn(8) == 0 {
			rows = append(rows, 100+rnd.Intn(1000000))
		} else {
			rows = append(rows, k)
		}
	}
	nalpha := 2 + rnd.Intn(3)
	alpha := append([]byte{}, symbols[:3]...)
	if rnd.Intn(2) == 0 {
		rnd.Shuffle(len(symbols), func(i, j int) { symbols[i], symbols[j] = symbols[j], symbols[i] })
		alpha = append([]byte{}, symbols[:nalpha]...)
	}
	lit := func(first int) opSpec {
		n := 1 + rnd.Intn(2)
		if rnd.Intn(4) == 0 {
			n = rnd.Intn(5)
		}
		n = many(rnd, n, 1100)
		s := []byte{}
		for k := 0; k < n; k++ {
			s = append(s, alpha[rnd.Intn(len(alpha))])
		}
		if rnd.Intn(60) == 0 {
			s = special(rnd)
		}
		if first >= 0 {
			if len(s) == 0 {
				s = []byte{0}
			}
			s[0] = byte(first)
		}
		return opSpec{T: s}
	}
	sym := func() opSpec {
		switch k := rnd.Intn(12); {
		case k < 6:
			return lit(-1)
		case k < 11:
			return opSpec{N: rows[rnd.Intn(len(rows))]}
		default:
			if rnd.Intn(4) == 0 {
				return opSpec{N: -1 - rnd.Intn(4)}
			}
			return opSpec{N: -2}
		}
	}
	for k := nrow - 1; k >= 0; k-- {
		r := rowSpec{Row: rows[k], Cells: map[int][]opSpec{}}
		for _, b := range append([]byte{0, '\n', '\r'}, alpha...) {
			if rnd.Intn(4) == 0 {
				continue
			}
			var ops []opSpec
			switch rnd.Intn(6) {
			case 0: // empty
			case 1:
				if k+1 < nrow {
					ops = append(ops, opSpec{N: rows[k+1+rnd.Intn(nrow-k-1)]})
				} else {
					ops = append(ops, lit(int(b)))
				}
			case 2:
				ops = append(ops, sym())
			default:
				ops = append(ops, lit(int(b)))
			}
			for k := many(rnd, 0, 300); len(ops) < k; {
				ops = append(ops, lit(int(b)))
			}
			for rnd.Intn(2) == 0 && len(ops) < 5 {
				ops = append(ops, sym())
			}
			if rnd.Intn(60) == 0 {
				for len(ops) < 70 {
					ops = append(ops, lit(int(b)))
				}
			}
			r.Cells[int(b)] = ops
		}
		c.Rows = append(c.Rows, r)
		c.Names[rows[k]] = fmt.Sprintf("rule%d", k)
	}
	if rnd.Intn(10) == 0 {
		delete(c.Names, rows[rnd.Intn(nrow)])
	}
	if rnd.Intn(20) == 0 {
		c.Names[rows[rnd.Intn(nrow)]] = string(special(rnd))
	}
	if rnd.Intn(10) == 0 {
		c.Names[-1-rnd.Intn(3)] = "own"
	}
	if rnd.Intn(8) == 0 { // names as an earlier parse returned them
		c.Names[-1], c.Names[-2] = "_literal", "_nothing"
		if rnd.Intn(4) == 0 {
			delete(c.Names, -1-rnd.Intn(2))
		}
	}
	if rnd.Intn(24) == 0 { // many rules the sources do not use
		for k := 20 + rnd.Intn(1+rnd.Intn(600)); k > 0; k-- {
			c.Names[100+k] = "unused"
		}
	}
	if rnd.Intn(16) == 0 {
		c.Names = nil
	}
	c.Src = c.genSrc(rnd, alpha)
	for k := rnd.Intn(4); k > 0; k-- {
		c.More = append(c.More, c.genSrc(rnd, alpha))
	}
	c.Form = rnd.Intn(24)
	c.Cut = 1 + rnd.Intn(4)
	return c
}

func (c parseCase) genSrc(rnd *rand.Rand, alpha []byte) []byte {
	var out []byte
	fuel := 60
	if rnd.Intn(10) == 0 {
		fuel = 2000
	}
	var ex func(o opSpec, depth int)
	ex = func(o opSpec, depth int) {
		fuel--
		if fuel < 0 || depth > 200 {
			return
		}
		if o.T != nil {
			out = append(out, o.T...)
			return
		}
		if o.N == -2 {
			out = append(out, []string{"\n", "\r\n"}[rnd.Intn(2)]...)
			return
		}
		r, ok := c.row(o.N)
		if !ok || len(r.Cells) == 0 {
			return
		}
		var keys []int
		for b := range r.Cells {
			keys = append(keys, b)
		}
		sort.Ints(keys)
		for _, k := range r.Cells[keys[rnd.Intn(len(keys))]] {
			ex(k, depth+1)
		}
	}
	if rnd.Intn(12) > 0 {
		ex(opSpec{N: 0}, 0)
	}
	if rnd.Intn(3) == 0 {
		for k := rnd.Intn(3); k >= 0; k-- {
			b := alpha[rnd.Intn(len(alpha))]
			switch i := rnd.Intn(len(out) + 1); rnd.Intn(4) {
			case 0:
				out = append(out[:i:i], append([]byte{b}, out[i:]...)...)
			case 1:
				if i < len(out) {
					out = append(out[:i:i], out[i+1:]...)
				}
			case 2:
				if i < len(out) {
					out[i] = b
				}
			case 3:
				out = append(out, b)
			}
		}
	}
	if rnd.Intn(30) == 0 {
		if s := special(rnd); rnd.Intn(2) == 0 {
			out = append(s, out...)
		} else {
			out = append(out, s...)
		}
	}
	if out == nil {
		out = []byte{}
	}
	return out
}

func shrinkParse(c parseCase) []parseCase {
	var res []parseCase
	for i := range c.More {
		d := c
		d.More = append(append([][]byte{}, c.More[:i]...), c.More[i+1:]...)
		res = append(res, d)
	}
	for i := range c.Rows {
		if len(c.Rows) > 1 {
			d := c
			d.Rows = append(append([]rowSpec{}, c.Rows[:i]...), c.Rows[i+1:]...)
			res = append(res, d)
		}
		for b, ops := range c.Rows[i].Cells {
			with := func(n []opSpec, del bool) {
				d := c
				d.Rows = append([]rowSpec{}, c.Rows...)
				m := map[int][]opSpec{}
				for k, v := range c.Rows[i].Cells {
					m[k] = v
				}
				m[b] = n
				if del {
					delete(m, b)
				}
				d.Rows[i] = rowSpec{c.Rows[i].Row, m}
				res = append(res, d)
			}
			with(nil, true)
			for j := range ops {
				with(append(append([]opSpec{}, ops[:j]...), ops[j+1:]...), false)
				if len(ops[j].T) > 1 {
					n := append([]opSpec{}, ops...)
					n[j] = opSpec{T: ops[j].T[:len(ops[j].T)-1]}
					with(n, false)
				}
			}
		}
	}
	for n := len(c.Names) / 2; n > 0; n /= 2 {
		d := c
		d.Names = map[int]string{}
		var ids []int
		for k := range c.Names {
			ids = append(ids, k)
		}
		sort.Ints(ids)
		for _, k := range ids[:len(ids)-n] {
			d.Names[k] = c.Names[k]
		}
		res = append(res, d)
	}
	for _, src := range cuts(c.Src) {
		d := c
		d.Src = src
		res = append(res, d)
	}
	return res
}

const parseRule = "random tables of up to 4 rows over small alphabets with newlines, returns, byte 0 and 255, literals of 0 to 4 bytes, empty cells and built-in symbols; sources drawn from the table, some of them damaged"

func parserProp(id, rule string, run func(parseCase) error) {
	props[id] = &prop[parseCase]{id: id, rule: rule, gen: genBig(1<<20 + 2), shrink: shrinkParse, run: run,
		trivial: func(c parseCase) bool { return len(c.Src) == 0 }}
}

// halting cases only: the others tell nothing
func halting(c parseCase, src []byte) (refTree, error, bool) {
	r, err := c.reference(src)
	return r, err, err != errFuel
}

func init() {
	parserProp("C08", parseRule+"; the returned tree is checked top down against the table", func(c parseCase) error {
		if _, _, ok := halting(c, c.Src); !ok {
			return nil
		}
		t, _, err := c.parse(parser.NewLL1Parser(c.table(), c.Names), string(c.Src))
		if isBad(err) {
			return err
		}
		if err != nil {
			return nil
		}
		if t.p != 0 || t.e != len(c.Src) {
			return fmt.Errorf("the root spans %d..%d of %d bytes", t.p, t.e, len(c.Src))
		}
		return c.isDerivation(c.Src, opSpec{N: 0}, t)
	})
	parserProp("C09", parseRule+"; a recursive descent by the table is the oracle", func(c parseCase) error {
		want, werr, ok := halting(c, c.Src)
		if !ok {
			return nil
		}
		t, _, err := c.parse(parser.NewLL1Parser(c.table(), c.Names), string(c.Src))
		if isBad(err) {
			return err
		}
		if werr == nil && err != nil {
			return fmt.Errorf("parsing fails (%v), though the table allows %s", err, short(want.String()))
		}
		if werr == nil && !sameTree(t, want) {
			return fmt.Errorf("the tree is %s, the only derivation is %s", short(t.String()), short(want.String()))
		}
		return nil
	})
	parserProp("C12", parseRule, func(c parseCase) error {
		if _, _, ok := halting(c, c.Src); !ok {
			return nil
		}
		t, _, err := c.parse(parser.NewLL1Parser(c.table(), c.Names), c.Src)
		if err != nil {
			return nil
		}
		if t.p != 0 || t.e != len(c.Src) {
			return fmt.Errorf("the root spans %d..%d of %d bytes", t.p, t.e, len(c.Src))
		}
		if err := t.tiles(c.Src); err != nil {
			return err
		}
		if l := t.leaves(c.Src); l != string(c.Src) {
			return fmt.Errorf("the leaves spell %q, the source is %q", l, c.Src)
		}
		return nil
	})
	parserProp("C13", parseRule+"; several sources are parsed in turn and in parallel with one parser, fresh ones are the oracle", runReuse)
	props["C13"].(*prop[parseCase]).gen = genBig(1 << 17)
	parserProp("C14", parseRule+"; one source in all forms, broken sources and broken tables", runForms)
	props["C14"].(*prop[parseCase]).gen = genBig(1 << 17)
}

func copyNames(m map[int]string) map[int]string {
	if m == nil {
		return nil
	}
	r := map[int]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func runReuse(c parseCase) error {
	srcs := append([][]byte{c.Src}, c.More...)
	srcs = append(srcs, c.Src)
	for _, s := range srcs {
		if _, _, ok := halting(c, s); !ok {
			return nil
		}
	}
	table, names := c.table(), copyNames(c.Names)
	p := parser.NewLL1Parser(table, names)
	unchanged := func() error {
		want := c.table()
		for r, m := range want {
			for b, ops := range m {
				got := table[r][b]
				if len(got) != len(ops) || !reflect.DeepEqual(got[:cap(got)], ops[:cap(ops)]) {
					return fmt.Errorf("the cell of row %d and byte %d has changed", r, b)
				}
			}
		}
		if !reflect.DeepEqual(table, want) {
			return fmt.Errorf("the table has changed")
		}
		if !reflect.DeepEqual(names, copyNames(c.Names)) {
			return fmt.Errorf("the names have changed to %v", names)
		}
		return nil
	}
	wantNames := copyNames(c.Names)
	if wantNames == nil {
		wantNames = map[int]string{}
	}
	wantNames[-1], wantNames[-2] = "_literal", "_nothing"
	type res struct {
		t refTree
		e bool
	}
	var want []res
	for _, s := range srcs {
		t, _, err := c.parse(parser.NewLL1Parser(c.table(), copyNames(c.Names)), string(s))
		want = append(want, res{t, err != nil})
	}
	for i, s := range srcs {
		buf := make([]byte, len(s), len(s)+4)
		copy(buf, s)
		full := buf[:cap(buf)]
		for k := len(s); k < len(full); k++ {
			full[k] = 0x55
		}
		before := append([]byte{}, full...)
		t, m, err := c.parse(p, buf)
		if isBad(err) {
			return err
		}
		if !bytes.Equal(before, full) {
			return fmt.Errorf("parsing changed the source")
		}
		if want[i].e != (err != nil) || !sameTree(want[i].t, t) {
			return fmt.Errorf("parse %d with one parser gives %s (error %v), a fresh one %s (error %v)", i, short(t.String()), err, short(want[i].t.String()), want[i].e)
		}
		if e := unchanged(); e != nil {
			return e
		}
		if err == nil {
			if !reflect.DeepEqual(m, wantNames) {
				return fmt.Errorf("naming map %v, expected %v", m, wantNames)
			}
			types := map[int]bool{}
			t.types(types)
			named := true
			for _, r := range c.Rows {
				if _, ok := c.Names[r.Row]; !ok {
					named = false
				}
			}
			for ty := range types {
				if _, ok := m[ty]; !ok && named {
					return fmt.Errorf("no name for type %d", ty)
				}
			}
			// the map is the caller's
			m[0] = "changed"
			m[77] = "added"
			delete(m, -1)
			if e := unchanged(); e != nil {
				return fmt.Errorf("writing to the returned map: %v", e)
			}
		}
	}
	var wg sync.WaitGroup
	srcs = append(srcs, srcs...)
	want = append(want, want...)
	errs := make([]error, len(srcs))
	for i, s := range srcs {
		wg.Add(1)
		i, s := i, s
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			var src any = string(s)
			switch i % 4 {
			case 1:
				src = append([]byte{}, s...)
			case 2:
				src = bytes.NewReader(s)
			case 3:
				src = &chunks{s, 3, io.EOF, false}
			}
			t, m, err := c.parse(p, src)
			if want[i].e != (err != nil) || !sameTree(want[i].t, t) {
				errs[i] = fmt.Errorf("parsing in parallel gives another result")
			}
			if err == nil && !reflect.DeepEqual(m, wantNames) {
				errs[i] = fmt.Errorf("parsing in parallel: naming map %v", m)
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return unchanged()
}

type chunks struct {
	b   []byte
	cut int
	err error // at the end
	tog bool  // the error together with the last bytes
}

func (r *chunks) Read(p []byte) (int, error) {
	n := len(r.b)
	if n > r.cut {
		n = r.cut
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && (r.tog || n == 0) {
		return n, r.err
	}
	return n, nil
}

type myString string
type myBytes []byte

func runForms(c parseCase) error {
	if _, _, ok := halting(c, c.Src); !ok {
		return nil
	}
	if _, _, ok := halting(c, c.Src[:len(c.Src)/2]); !ok {
		return nil
	}
	p := parser.NewLL1Parser(c.table(), c.Names)
	t0, m0, err0 := c.parse(p, string(c.Src))
	if isBad(err0) {
		return err0
	}
	same := func(what string, src any) error {
		t, m, err := c.parse(p, src)
		if isBad(err) {
			return fmt.Errorf("%s: %v", what, err)
		}
		if (err == nil) != (err0 == nil) || !sameTree(t, t0) || !reflect.DeepEqual(m, m0) {
			return fmt.Errorf("%s: %s, error %v; as a string: %s, error %v", what, short(t.String()), err, short(t0.String()), err0)
		}
		return nil
	}
	if err := same("byte slice", append([]byte{}, c.Src...)); err != nil {
		return err
	}
	if len(c.Src) == 0 {
		if err := same("nil byte slice", []byte(nil)); err != nil {
			return err
		}
	}
	buf := bytes.NewBuffer(append([]byte("xyz"), c.Src...))
	buf.Next(3)
	for i := 0; i < 2; i++ {
		if err := same("buffer", buf); err != nil {
			return err
		}
		if !bytes.Equal(buf.Bytes(), c.Src) {
			return fmt.Errorf("the buffer holds %q after parsing %q", buf.Bytes(), c.Src)
		}
	}
	for what, r := range map[string]io.Reader{
		"strings.Reader":        strings.NewReader(string(c.Src)),
		"bytes.Reader":          bytes.NewReader(c.Src),
		"reader in small parts": &chunks{c.Src, c.Cut, io.EOF, false},
		"reader with early EOF": &chunks{c.Src, c.Cut, io.EOF, true},
		"io.MultiReader":        io.MultiReader(bytes.NewReader(c.Src[:len(c.Src)/2]), bytes.NewReader(c.Src[len(c.Src)/2:])),
	} {
		if err := same(what, r); err != nil {
			return err
		}
	}
	bad := func(what string, p parser.LL1Parser, src any) error {
		n, m, err := p.Parse(src)
		if err == nil || n != nil || m != nil {
			return fmt.Errorf("%s: tree %v, names %v, error %v", what, n, m, err)
		}
		return nil
	}
	var nilBuf *bytes.Buffer
	s := string(c.Src)
	for what, src := range map[string]any{
		"no source": nil, "nil buffer": nilBuf, "int": 1, "pointer to string": &s, "runes": []rune(s),
		"named string": myString(s), "named bytes": myBytes(c.Src), "pointer to bytes": &c.Src, "error": errNo, "strings": []string{s}, "buffer value": *bytes.NewBuffer(c.Src),
		"failing reader":           &chunks{c.Src, c.Cut, errNo, false},
		"reader failing at once":   &chunks{nil, c.Cut, io.ErrUnexpectedEOF, false},
		"reader failing with data": &chunks{c.Src, c.Cut, errNo, true},
		"closed pipe":              closedPipe(),
	} {
		if err := bad(what, p, src); err != nil {
			return err
		}
	}
	if err := bad("nil table", parser.NewLL1Parser(nil, c.Names), s); err != nil {
		return err
	}
	if err := bad("empty table", parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{}, c.Names), s); err != nil {
		return err
	}
	t := c.table()
	delete(t, 0)
	return bad("table without row 0", parser.NewLL1Parser(t, c.Names), s)
}

func closedPipe() io.Reader {
	r, _ := io.Pipe()
	r.CloseWithError(io.ErrClosedPipe)
	return r
}
