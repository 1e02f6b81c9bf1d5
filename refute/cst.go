package main

import (
	"fmt"
	"math/rand"

	"github.com/TooManySugar/ll1parser/pkg/cst"
)

// a tree and, per visitor name and node type, the answer of a visit
type treeSpec struct {
	Type, Pos, End int
	Foreign        bool
	Nil            bool // childs given as nil
	Kids           []treeSpec
}

type walkCase struct {
	Tree treeSpec
	// Answer[v*8+t%8]: visitor returned by visitor v on a node of type t, -1 none
	Answer []int
}

type foreignNode struct {
	t, p, e int
	kids    []cst.Node
}

func (f foreignNode) Type() int          { return f.t }
func (f foreignNode) Pos() int           { return f.p }
func (f foreignNode) End() int           { return f.e }
func (f foreignNode) Childs() []cst.Node { return f.kids }

func (t treeSpec) build() cst.Node {
	var kids []cst.Node
	if !t.Nil {
		kids = []cst.Node{}
	}
	for _, k := range t.Kids {
		kids = append(kids, k.build())
	}
	if t.Foreign {
		return foreignNode{t.Type, t.Pos, t.End, kids}
	}
	return cst.NewNode(t.Type, t.Pos, t.End, kids)
}

func (t treeSpec) check(n cst.Node) error {
	for i := 0; i < 2; i++ {
		if n == nil {
			return fmt.Errorf("nil node")
		}
		if n.Type() != t.Type || n.Pos() != t.Pos || n.End() != t.End {
			return fmt.Errorf("node reports %d %d %d, constructed with %d %d %d", n.Type(), n.Pos(), n.End(), t.Type, t.Pos, t.End)
		}
		if len(n.Childs()) != len(t.Kids) {
			return fmt.Errorf("node reports %d children, constructed with %d", len(n.Childs()), len(t.Kids))
		}
	}
	for i, k := range t.Kids {
		if err := k.check(n.Childs()[i]); err != nil {
			return err
		}
	}
	return nil
}

type recorder struct {
	id  int
	c   *walkCase
	log *[]string
}

func (r recorder) Visit(n cst.Node) cst.Visitor {
	*r.log = append(*r.log, fmt.Sprintf("%d:%d/%d/%d", r.id, n.Type(), n.Pos(), n.End()))
	a := r.c.Answer[r.id*8+((n.Type()%8)+8)%8]
	if a < 0 {
		return nil
	}
	return recorder{a, r.c, r.log}
}

func (c *walkCase) expect(v int, t treeSpec, out *[]string) {
	*out = append(*out, fmt.Sprintf("%d:%d/%d/%d", v, t.Type, t.Pos, t.End))
	a := c.Answer[v*8+((t.Type%8)+8)%8]
	if a < 0 {
		return
	}
	for _, k := range t.Kids {
		c.expect(a, k, out)
	}
}

func randTree(rnd *rand.Rand, depth int, n *int) treeSpec {
	t := treeSpec{Type: rnd.Intn(8), Pos: *n, End: rnd.Intn(50) - 5}
	*n++
	switch rnd.Intn(12) {
	case 0:
		t.Type = -1
	case 1:
		t.Type = -2
	case 2:
		t.Type = rnd.Int() - rnd.Int()
	case 3:
		t.Pos, t.End = rnd.Int()-rnd.Int(), rnd.Int()-rnd.Int()
	}
	t.Foreign = rnd.Intn(8) == 0
	t.Nil = rnd.Intn(2) == 0
	if depth > 0 {
		k := rnd.Intn(4)
		if rnd.Intn(40) == 0 {
			k = rnd.Intn(40)
		}
		if *n < 3000 {
			k = many(rnd, k, 1100)
		}
		for i := 0; i < k; i++ {
			t.Kids = append(t.Kids, randTree(rnd, depth-1-rnd.Intn(2), n))
		}
	}
	return t
}

func init() {
	props["C03"] = &prop[walkCase]{
		id:   "C03",
		rule: "a random tree (also with foreign node implementations) and a random decision table of four visitors; non-trivial: the root has children",
		gen: func(rnd *rand.Rand, i int) walkCase {
			n := 0
			c := walkCase{Tree: randTree(rnd, 1+rnd.Intn(6), &n)}
			for k := many(rnd, 0, 300); k > 0; k-- {
				c.Tree = treeSpec{Type: k % 8, Pos: n, End: k, Kids: []treeSpec{c.Tree}}
			}
			for k := 0; k < 32; k++ {
				if rnd.Intn(4) == 0 {
					c.Answer = append(c.Answer, -1)
				} else {
					c.Answer = append(c.Answer, rnd.Intn(4))
				}
			}
			return c
		},
		trivial: func(c walkCase) bool { return len(c.Tree.Kids) == 0 },
		run: func(c walkCase) error {
			n := c.Tree.build()
			if err := c.Tree.check(n); err != nil {
				return err
			}
			var got, want []string
			cst.Walk(recorder{0, &c, &got}, n)
			c.expect(0, c.Tree, &want)
			if len(got) != len(want) {
				return fmt.Errorf("walk offers %d nodes, want %d: %v want %v", len(got), len(want), got, want)
			}
			for i := range got {
				if got[i] != want[i] {
					return fmt.Errorf("offer %d is %s, want %s", i, got[i], want[i])
				}
			}
			return c.Tree.check(n)
		},
		shrink: func(c walkCase) []walkCase {
			var r []walkCase
			for i := range c.Tree.Kids {
				d := c
				d.Tree.Kids = append(append([]treeSpec{}, c.Tree.Kids[:i]...), c.Tree.Kids[i+1:]...)
				r = append(r, d)
				e := c
				e.Tree = c.Tree.Kids[i]
				r = append(r, e)
			}
			return r
		},
	}
}
