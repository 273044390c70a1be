package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

var namedShapes = []shapeOf{
	{"a|bS", 2},
	{"A[cd]|a;b|-", 2},
	{"A[bB]|d;c[AB]|-;a", 2},
	{"AB;a|-;b[AS]|c", 2},
	{"[aA]|S;b", 2},
}

// The maps are compared key by key, so that their order plays no part here.

func sameNames(a, b map[int]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k := -3; k < len(a)+3; k++ {
		v, has := a[k]
		w, ok := b[k]
		if has != ok || v != w {
			return false
		}
	}
	return true
}

func sameTable(a, b map[int]map[byte][]parser.ParserOp) bool {
	if len(a) != len(b) {
		return false
	}
	for r := 0; r < len(a); r++ {
		x, has := a[r]
		y, ok := b[r]
		if has != ok || len(x) != len(y) {
			return false
		}
		for i := 0; i < 256; i++ {
			p, has := x[byte(i)]
			q, ok := y[byte(i)]
			if has != ok || len(p) != len(q) {
				return false
			}
			for i := range p {
				if p[i] != q[i] {
					return false
				}
			}
		}
	}
	return true
}

func typesIn(n cst.Node, names map[int]string) bool {
	if _, ok := names[n.Type()]; !ok {
		return false
	}
	for _, k := range n.Childs() {
		if !typesIn(k, names) {
			return false
		}
	}
	return true
}

// renamed gives the rules of a grammar other names.
func (m *gram) renamed(names []string) bnf.Grammar {
	g := bnf.Grammar{}
	for r, alts := range m.rules {
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: names[r]}}
		for _, alt := range alts {
			var seq bnf.Sequence
			for _, c := range alt {
				if m.isRule(c) {
					seq.Symbols = append(seq.Symbols, bnf.SymbolNonTerminal{Name: names[m.ruleOf(c)]})
				} else {
					seq.Symbols = append(seq.Symbols, m.symbol(c))
				}
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		g.Rules = append(g.Rules, rule)
	}
	return g
}

// C10_Names: rule names of arbitrary bytes.
func C10_Names() {
	sh := namedShapes[sym.Shard("shape", len(namedShapes))]
	m := newGram(sh.shape, sh.alphabet, true)
	var rn []string
	for r := 0; r < m.nr; r++ {
		ln := sym.Shard("name", 4)
		if ln == 0 && r != m.nr-1 {
			ln = 1 // beside a rule of no name
		}
		n := sym.String("name"+strconv.Itoa(r), ln)
		if r == m.nr-1 && sym.Shard("name", 4) > 1 {
			n = n[:1] // a name may begin another
		}
		for _, o := range rn {
			sym.Assume(o != n)
		}
		rn = append(rn, n)
	}
	numbering(m, rn, m.renamed(rn))
}

// C10_Shape: the shapes of the other checks.
func C10_Shape() {
	sh := shapes[sym.Shard("shape", len(shapes))]
	m := newGram(sh.shape, sh.alphabet, true)
	var rn []string
	for r := 0; r < m.nr; r++ {
		rn = append(rn, m.name(r))
	}
	numbering(m, rn, m.g)
}

func numbering(m *gram, rn []string, g bnf.Grammar) {
	sym.Freeze("grammar", g)
	table, names, err := tablegen.FromGrammar(g)
	table2, names2, err2 := tablegen.FromGrammar(g)
	sym.Assert((err == nil) == (err2 == nil), "generating again gives another outcome")
	if err != nil || err2 != nil {
		sym.Reach("C10 rejected")
		return
	}
	sym.Assert(sameTable(*table, *table2) && sameNames(*names, *names2), "generating again gives another table")
	want := map[int]string{}
	rows := len(*table) == m.nr
	for r := 0; r < m.nr; r++ {
		want[r] = rn[r]
		if _, ok := (*table)[r]; !ok {
			rows = false
		}
	}
	sym.Assert(rows, "the rows are not the rules' positions")
	sym.Assert(sameNames(*names, want), "the naming map does not give each rule's name")
	in := sym.Bytes("in", sym.Shard("len", 8))
	root, got, err := parser.NewLL1Parser(*table, *names).Parse(in)
	if err != nil {
		sym.Reach("C10 no parse")
		return
	}
	sym.Reach("C10 parsed")
	for r := 0; r < m.nr; r++ {
		v, ok := (*got)[r]
		sym.Assert(ok && v == want[r], "a returned name is not the given one")
	}
	_, lit := (*got)[-1]
	_, non := (*got)[-2]
	sym.Assert(len(*got) == m.nr+2 && lit && non, "the returned names are not the given ones and two more")
	sym.Assert(typesIn(root, *got), "a node's type has no name")
	sym.Observe("names", len(*got))
}

// C10_Many: more rules than fit a byte, each of its own look-ahead.
func C10_Many() {
	n := sym.Shard("rules", 1000)
	var g bnf.Grammar
	want := map[int]string{}
	for i := 0; i < n; i++ {
		name := "rule-" + strconv.Itoa(i)
		want[i] = name
		seqs := []bnf.Sequence{
			{Symbols: []bnf.Symbol{bnf.SymbolTerminal{Name: string([]byte{byte(i%250 + 1), byte(i / 250)})}}},
		}
		if i+1 < n {
			seqs[0].Symbols = append(seqs[0].Symbols, bnf.SymbolNonTerminal{Name: "rule-" + strconv.Itoa(i+1)})
		}
		if i == n-1 || i%100 == 7 {
			seqs = append(seqs, bnf.Sequence{Symbols: []bnf.Symbol{bnf.SymbolNothing{}}})
		}
		g.Rules = append(g.Rules, bnf.Rule{Head: bnf.SymbolNonTerminal{Name: name}, Tail: bnf.Substitution{Sequences: seqs}})
	}
	table, names, err := tablegen.FromGrammar(g)
	sym.Assert(err == nil, "rejected")
	if err != nil {
		return
	}
	sym.Assert(sameNames(*names, want), "the naming map does not give each rule's name")
	r := int(sym.Byte("rule")) | int(sym.Byte("rule high"))<<8
	sym.Assume(r < n)
	r = sym.Concrete(r)
	row := (*table)[r]
	key := byte(r%250 + 1)
	ops := row[key]
	ok := len(row) == 1 && len(ops) == 2
	if r == n-1 {
		ok = len(row) == 2 && len(ops) == 1
	} else if r%100 == 7 {
		ok = len(row) == 2 && len(ops) == 2
	}
	ok = ok && ops[0] == parser.OpTerminal(string([]byte{key, byte(r / 250)}))
	if ok && r < n-1 {
		ok = ops[1] == parser.OpNonTerminal(r+1)
	}
	sym.Assert(ok, "a rule has the wrong row")
	sym.Reach("C10 many")
}

func init() {
	reg("C10_Names", C10_Names)
	reg("C10_Shape", C10_Shape)
	reg("C10_Many", C10_Many)
}
