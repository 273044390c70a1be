package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/cst"

	"verif/harness/sym"
)

// otherNode is a Node of somebody else's making.
type otherNode struct {
	typ, pos, end int
	kids          []cst.Node
}

func (n *otherNode) Type() int          { return n.typ }
func (n *otherNode) Pos() int           { return n.pos }
func (n *otherNode) End() int           { return n.end }
func (n *otherNode) Childs() []cst.Node { return n.kids }

// leaf is a Node without children that equals others of its kind.
type leaf int

func (n leaf) Type() int        { return int(n) }
func (leaf) Pos() int           { return 0 }
func (leaf) End() int           { return 0 }
func (leaf) Childs() []cst.Node { return nil }

// what a visitor was asked
type event struct {
	visitor int
	typ     int
	pos     int
	end     int
	kids    int
}

type tree struct {
	typ, pos, end int
	kids          []*tree
	node          cst.Node
}

func (t *tree) event(v int) event { return event{v, t.typ, t.pos, t.end, len(t.kids)} }

// what the nodes are made of
const (
	built      = iota // by NewNode
	mixed             // some of another kind
	leaves            // leaves that are equal to each other
	overlapped        // of any position
	mixes
)

type grower struct {
	next, max, width, mix int
	shared                *tree
}

func (g *grower) grow(depth int) *tree {
	id := g.next
	g.next++
	n := strconv.Itoa(id)
	// types and positions say nothing to Walk
	t := &tree{typ: sym.Int("type"+n, -3, 252)}
	if g.mix == overlapped {
		t.pos, t.end = sym.Int("pos"+n, 0, 255), sym.Int("end"+n, 0, 255)
	}
	var kids []cst.Node
	if depth > 0 {
		n := sym.Concrete(sym.Int("kids"+n, 0, g.width))
		for i := 0; i < n && g.next < g.max; i++ {
			k := g.grow(depth - 1)
			t.kids = append(t.kids, k)
			kids = append(kids, k.node)
		}
	}
	switch {
	case g.mix == leaves && len(kids) == 0:
		t.node = leaf(t.typ)
	case g.mix == mixed && id%2 == 1:
		t.node = &otherNode{t.typ, t.pos, t.end, kids}
	default:
		t.node = cst.NewNode(t.typ, t.pos, t.end, kids)
	}
	return t
}

type plan struct {
	log  []event
	what []int // by visit: 0 stop, 1 go on, 2 go on with another visitor, 3 with one that counts
}

func (p *plan) at() int {
	if n := len(p.log); n < len(p.what) {
		return p.what[n]
	}
	return 0 // too many visits
}

func (p *plan) note(v int, n cst.Node) {
	p.log = append(p.log, event{v, n.Type(), n.Pos(), n.End(), len(n.Childs())})
}

type visitor struct {
	id int
	p  *plan
}

func (v visitor) Visit(n cst.Node) cst.Visitor {
	k := len(v.p.log)
	w := v.p.at()
	v.p.note(v.id, n)
	switch w {
	case 0:
		return nil
	case 1:
		return v
	case 2:
		return visitor{id: 100*v.id + k + 1, p: v.p}
	}
	return &ptrVisitor{p: v.p, id: -k}
}

// ptrVisitor counts for itself: state kept in a visitor must survive.
type ptrVisitor struct {
	id, seen int
	p        *plan
}

func (v *ptrVisitor) Visit(n cst.Node) cst.Visitor {
	v.seen++
	w := v.p.at()
	v.p.note(v.id*1000-v.seen, n)
	if w == 0 {
		return nil
	}
	return v
}

// want is what walking has to do.
func (t *tree) want(id int, seen *int, p *plan, log *[]event) {
	rec := id
	if seen != nil {
		*seen++
		rec = id*1000 - *seen
	}
	k := len(*log)
	*log = append(*log, t.event(rec))
	w := p.what[k]
	if w == 0 {
		return
	}
	if seen == nil {
		switch w {
		case 2:
			id = 100*id + k + 1
		case 3:
			id = -k
			seen = new(int)
		}
	}
	for _, x := range t.kids {
		x.want(id, seen, p, log)
	}
}

// C13_Walk: any small tree, any behaviour of the visitors.
func C13_Walk() {
	max := sym.Shard("nodes", 16)
	g := &grower{max: max, width: sym.Shard("width", 8), mix: sym.Shard("mix", mixes)}
	t := g.grow(sym.Shard("depth", 8))
	p := &plan{}
	for i := 0; i < g.next; i++ {
		p.what = append(p.what, sym.Int("what"+strconv.Itoa(i), 0, 3))
	}
	sym.Freeze("tree", t.node)
	cst.Walk(visitor{id: 1, p: p}, t.node)
	var want []event
	t.want(1, nil, p, &want)
	same := len(want) == len(p.log)
	if same {
		for i := range want {
			if want[i] != p.log[i] {
				same = false
			}
		}
	}
	sym.Assert(same, "the visits are not the ones asked for")
	sym.Observe("visits", len(want))
	if len(want) == g.next {
		sym.Reach("C13 all visited")
	} else {
		sym.Reach("C13 pruned")
	}
}

// C13_Wide: many children and long chains.
func C13_Wide() {
	n := sym.Shard("n", 200000)
	chain := sym.Shard("chain", 2)
	at := int(sym.Byte("at")) % 4
	stop := sym.Concrete([]int{0, 1, n / 2, n - 1}[at])
	var root cst.Node
	if chain == 1 {
		root = cst.NewNode(n-1, 0, 0, nil)
		for i := n - 2; i >= 0; i-- {
			root = cst.NewNode(i, 0, 0, []cst.Node{root})
		}
	} else {
		var kids []cst.Node
		for i := 1; i < n; i++ {
			kids = append(kids, cst.NewNode(i, 0, 0, nil))
		}
		root = cst.NewNode(0, 0, 0, kids)
	}
	p := &plan{what: make([]int, n)}
	for i := range p.what {
		p.what[i] = 1
	}
	p.what[stop] = 0
	cst.Walk(visitor{id: 1, p: p}, root)
	seen := n
	if chain == 1 || stop == 0 {
		seen = stop + 1
	}
	ok := len(p.log) == seen
	for i, e := range p.log {
		if e.typ != i || e.visitor != 1 {
			ok = false
		}
	}
	sym.Assert(ok, "a long walk misses or repeats nodes")
	sym.Reach("C13 wide")
}

// C13_Node: nodes report what they were built with.
func C13_Node() {
	n := sym.Shard("kids", 8)
	typ, pos, end := int(sym.Uint64("type")), int(sym.Uint64("pos")), int(sym.Uint64("end"))
	var kids []cst.Node
	for i := 0; i < n; i++ {
		kids = append(kids, cst.NewNode(i, i, i, nil))
	}
	sym.Freeze("children", kids)
	x := cst.NewNode(typ, pos, end, kids)
	sym.Assert(x.Type() == typ, "type")
	sym.Assert(x.Pos() == pos, "start")
	sym.Assert(x.End() == end, "end")
	got := x.Childs()
	sym.Assert(len(got) == n, "number of children")
	for i := range got {
		sym.Assert(got[i].Type() == i && got[i].Pos() == i && got[i].End() == i, "children")
	}
	sym.Assert(len(x.Childs()) == n && x.Type() == typ && x.Pos() == pos && x.End() == end, "asking again")
	sym.Reach("C13 node")
}

func init() {
	reg("C13_Walk", C13_Walk)
	reg("C13_Wide", C13_Wide)
	reg("C13_Node", C13_Node)
}
