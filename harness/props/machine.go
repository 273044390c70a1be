package props

import (
	"github.com/TooManySugar/ll1parser/pkg/cst"
)

// A reference for the table-driven leftmost derivation, by recursive descent.

type rsym struct {
	term bool
	text string
	rule int // negative: the built-in line end
}

type rnode struct {
	typ, pos, end int
	kids          []*rnode
}

const (
	refOK       = iota
	refChar     // a terminal's character does not match
	refCell     // the row has no entry for the look-ahead
	refRow      // there is no such row
	refLeftover // input is left
	refLineEnd  // no line end
	refBudget   // more steps than asked for
)

type machine struct {
	in     []byte
	hasRow func(r int) bool
	cell   func(r int, look byte) ([]rsym, bool)
	budget int

	at   int
	fail int
	char byte // expected, for refChar
	rule int  // for refCell and refRow
	root *rnode
}

func (x *machine) look() byte {
	if x.at < len(x.in) {
		return x.in[x.at]
	}
	return 0
}

func (x *machine) run() {
	x.root = x.do(rsym{rule: 0})
	if x.fail == refOK && x.at < len(x.in) {
		x.fail = refLeftover
	}
}

func (x *machine) do(s rsym) *rnode {
	n := &rnode{pos: x.at}
	x.budget--
	if x.budget < 0 {
		x.fail = refBudget
		return n
	}
	if s.term {
		n.typ = -1
		for i := 0; i < len(s.text); i++ {
			if x.at >= len(x.in) || x.in[x.at] != s.text[i] {
				x.fail, x.char = refChar, s.text[i]
				return n
			}
			x.at++
		}
		n.end = x.at
		return n
	}
	n.typ = s.rule
	var body []rsym
	if s.rule < 0 {
		switch x.look() {
		case '\n':
			body = []rsym{{term: true, text: "\n"}}
		case '\r':
			body = []rsym{{term: true, text: "\r"}, {term: true, text: "\n"}}
		default:
			x.fail = refLineEnd
			return n
		}
	} else {
		if !x.hasRow(s.rule) {
			x.fail, x.rule = refRow, s.rule
			return n
		}
		var ok bool
		body, ok = x.cell(s.rule, x.look())
		if !ok {
			x.fail, x.rule = refCell, s.rule
			return n
		}
	}
	for _, b := range body {
		k := x.do(b)
		if x.fail != refOK {
			return n
		}
		n.kids = append(n.kids, k)
	}
	if len(body) == 0 {
		n.kids = []*rnode{{typ: -2, pos: x.at, end: x.at}}
	}
	n.end = x.at
	return n
}

// mirrors tells whether a returned tree is the reference's.
func mirrors(n cst.Node, r *rnode) bool {
	if n == nil || n.Type() != r.typ || n.Pos() != r.pos || n.End() != r.end {
		return false
	}
	if r.typ == -1 {
		return true
	}
	kids := n.Childs()
	if len(kids) != len(r.kids) {
		return false
	}
	for i, k := range kids {
		if !mirrors(k, r.kids[i]) {
			return false
		}
	}
	return true
}

// sameTree tells whether two returned trees are equal.
func sameTree(a, b cst.Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Type() != b.Type() || a.Pos() != b.Pos() || a.End() != b.End() {
		return false
	}
	x, y := a.Childs(), b.Childs()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !sameTree(x[i], y[i]) {
			return false
		}
	}
	return true
}

// faithful tells what is wrong with the tree of an accepted input ("" when
// nothing is).
func (m *gram) faithful(root cst.Node, in []byte) string {
	if root == nil {
		return "no tree"
	}
	if root.Type() != 0 {
		return "the root is not the first rule"
	}
	if root.Pos() != 0 || root.End() != len(in) {
		return "the root does not span the input"
	}
	return m.faithfulNode(root, in)
}

func (m *gram) faithfulNode(n cst.Node, in []byte) string {
	r := n.Type()
	if r < 0 || r >= m.nr {
		return "an inner node is not a rule"
	}
	kids := n.Childs()
	if len(kids) == 0 {
		return "a rule's node has no children"
	}
	at := n.Pos()
	for _, k := range kids {
		if k == nil {
			return "a child is missing"
		}
		if k.Pos() != at || k.End() < at {
			return "children are not adjacent and in order"
		}
		at = k.End()
	}
	if at != n.End() {
		return "the children do not fill their parent"
	}
	if len(kids) == 1 && kids[0].Type() == -2 {
		if n.Pos() != n.End() || len(kids[0].Childs()) != 0 {
			return "an empty marker is not empty"
		}
		if !m.nullable(r) {
			return "a rule that does not derive the empty string is marked empty"
		}
		return ""
	}
	spelled := false
	for _, alt := range m.rules[r] {
		if len(alt) != len(kids) {
			continue
		}
		same := true
		for i, c := range alt {
			k := kids[i]
			if m.isRule(c) {
				same = same && k.Type() == m.ruleOf(c)
				continue
			}
			if c == 0 || k.Type() != -1 || len(m.terms[c-1]) != k.End()-k.Pos() || k.End() > len(in) || m.terms[c-1] != string(in[k.Pos():k.End()]) {
				same = false
			}
		}
		if same {
			spelled = true
		}
	}
	if !spelled {
		return "the children spell no alternative of their rule"
	}
	for _, k := range kids {
		if k.Type() == -1 {
			if len(k.Childs()) != 0 {
				return "a terminal's leaf has children"
			}
			continue
		}
		if why := m.faithfulNode(k, in); why != "" {
			return why
		}
	}
	return ""
}

func (m *gram) nullable(r int) bool {
	return m.sets().first[len(m.terms)+1+r]&nullBit != 0
}
