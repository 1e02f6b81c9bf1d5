package main

import (
	"fmt"
	"math/rand"
	"strings"

	bs "github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
)

type setOp struct {
	Op string // add remove
	B  byte
}

type setCase struct {
	A, B []byte // contents given to New
	Ops  []setOp
}

func randBytes(rnd *rand.Rand, i int) []byte {
	var r []byte
	switch rnd.Intn(5) {
	case 0:
		return []byte{}
	case 1:
		r = append(r, byte(rnd.Intn(256)))
	case 2:
		for k := rnd.Intn(8); k >= 0; k-- {
			r = append(r, byte(rnd.Intn(256)))
		}
	case 3:
		p := rnd.Intn(100)
		for b := 0; b < 256; b++ {
			if rnd.Intn(100) < p {
				r = append(r, byte(b))
			}
		}
		rnd.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	case 4:
		// edges of the words
		for _, b := range []byte{0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255} {
			if rnd.Intn(2) == 0 {
				r = append(r, b)
			}
		}
	}
	return r
}

func genSets(rnd *rand.Rand, i int) setCase {
	if i < 256 {
		return setCase{A: []byte{byte(i)}, B: []byte{}, Ops: []setOp{{"add", byte(255 - i)}, {"remove", byte(i)}}}
	}
	c := setCase{A: randBytes(rnd, i), B: randBytes(rnd, i)}
	if rnd.Intn(4) == 0 { // nearly equal
		c.B = append([]byte{}, c.A...)
		if rnd.Intn(2) == 0 {
			c.B = append(c.B, byte(rnd.Intn(256)))
		}
		if len(c.B) > 0 && rnd.Intn(2) == 0 {
			c.B = c.B[:len(c.B)-1]
		}
	}
	for k := rnd.Intn(6); k > 0; k-- {
		op := setOp{"add", byte(rnd.Intn(256))}
		if rnd.Intn(2) == 0 {
			op.Op = "remove"
			if len(c.A) > 0 {
				op.B = c.A[rnd.Intn(len(c.A))]
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func shrinkSets(c setCase) []setCase {
	var r []setCase
	for i := range c.Ops {
		d := c
		d.Ops = append(append([]setOp{}, c.Ops[:i]...), c.Ops[i+1:]...)
		r = append(r, d)
	}
	for i := range c.A {
		d := c
		d.A = append(append([]byte{}, c.A[:i]...), c.A[i+1:]...)
		r = append(r, d)
	}
	for i := range c.B {
		d := c
		d.B = append(append([]byte{}, c.B[:i]...), c.B[i+1:]...)
		r = append(r, d)
	}
	return r
}

type model [256]bool

func modelOf(b []byte) (m model) {
	for _, x := range b {
		m[x] = true
	}
	return
}

func sameSet(what string, s bs.ByteSet, m model) error {
	for b := 0; b < 256; b++ {
		if s.Contains(byte(b)) != m[b] {
			return fmt.Errorf("%s: Contains(0x%02X) = %v, want %v", what, b, !m[b], m[b])
		}
	}
	return nil
}

func runAlgebra(c setCase) error {
	a, b := bs.New(c.A...), bs.New(c.B...)
	ma, mb := modelOf(c.A), modelOf(c.B)
	if err := sameSet("New", a, ma); err != nil {
		return err
	}
	for _, o := range c.Ops {
		before := a
		mbefore := ma
		if o.Op == "add" {
			a.Add(o.B)
			ma[o.B] = true
		} else {
			a.Remove(o.B)
			ma[o.B] = false
		}
		if err := sameSet(fmt.Sprintf("after %s(0x%02X)", o.Op, o.B), a, ma); err != nil {
			return err
		}
		if err := sameSet("copy taken before", before, mbefore); err != nil {
			return err
		}
	}
	var mu model
	eq, sub, sup := true, true, true
	for i := range mu {
		mu[i] = ma[i] || mb[i]
		eq = eq && ma[i] == mb[i]
		sub = sub && (!ma[i] || mb[i])
		sup = sup && (!mb[i] || ma[i])
	}
	u := a.Union(b)
	if err := sameSet("Union", u, mu); err != nil {
		return err
	}
	if a.Equal(b) != eq {
		return fmt.Errorf("Equal = %v, want %v", !eq, eq)
	}
	if a.IsSubSet(b) != sub {
		return fmt.Errorf("IsSubSet = %v, want %v", !sub, sub)
	}
	if a.IsSuperSet(b) != sup {
		return fmt.Errorf("IsSuperSet = %v, want %v", !sup, sup)
	}
	if err := sameSet("left operand", a, ma); err != nil {
		return err
	}
	return sameSet("right operand", b, mb)
}

func runListing(c setCase) error {
	a := bs.New(c.A...)
	ma := modelOf(c.A)
	for _, o := range c.Ops {
		if o.Op == "add" {
			a.Add(o.B)
			ma[o.B] = true
		} else {
			a.Remove(o.B)
			ma[o.B] = false
		}
	}
	var want []byte
	var txt []string
	for b := range ma {
		if ma[b] {
			want = append(want, byte(b))
			txt = append(txt, fmt.Sprintf("%02X", b))
		}
	}
	if got := a.Bytes(); string(got) != string(want) {
		return fmt.Errorf("Bytes = % X, want % X", got, want)
	}
	if a.Len() != len(want) {
		return fmt.Errorf("Len = %d, want %d", a.Len(), len(want))
	}
	if w := "[" + strings.Join(txt, " ") + "]"; a.String() != w {
		return fmt.Errorf("String = %q, want %q", a.String(), w)
	}
	return nil
}

func init() {
	props["C01"] = &prop[setCase]{id: "C01", rule: "two sets built from byte lists (singletons of all 256 bytes first, then random, word edges, nearly equal pairs) and a random sequence of add/remove; non-trivial: all", gen: genSets, run: runAlgebra, shrink: shrinkSets}
	props["C02"] = &prop[setCase]{id: "C02", rule: "as C01", gen: genSets, run: runListing, shrink: shrinkSets}
}
