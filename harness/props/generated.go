package props

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Grammar, table and parser together, on inputs of arbitrary bytes.

type shapeOf struct {
	shape    string
	alphabet int
}

// shapes of larger grammars, most of which are LL(1); see newGram
var shapes = []shapeOf{
	{"AB[cdC]|d;[ac]|-;[bB-]|[-b];c", 2},         // 0: nullable prefixes
	{"ABC[dS];[aB]|-;[bC]|-;c|[-ad]", 2},         // 1
	{"A[BC]C[dA];a|[-d];b|[-d];[cdA]|[-b]", 2},   // 2: FOLLOW through nullable symbols
	{"?S?|?;?|e", 2},                             // 3: nested recursion
	{"A?;?A|-;?B|e", 2},                          // 4: right recursion
	{"N?|d;N|c;aN|b;-|T", 2},                     // 5: unit rules
	{"x?|bA;y?|?;T|-", 2},                        // 6: terminals of more than one byte
	{"?A|?;x?|y?|-", 2},                          // 7
	{"AbN;B;C|[d-];[cA]|-", 2},                   // 8: chains
	{"aNb|cNd|[dA];[abd]|-;[cd]N|[abd]", 2},      // 9
	{"ABC[CD]d;a|[-d];b|-;c|-;[hiB]|[-y]", 2},    // 10: five rules
	{"hA|iB|T;i?|-;h|e", 2},                      // 11: bytes from 128, NUL inside a terminal
	{"a[AS]b|[-cB];[AS]B|[-bc];d[SBA]B|-", 2},    // 12: bracketed lists
	{"D;?b|n;C;c?|-;NAB", 2},                     // 13: the start rule refers to later and earlier ones
	{"*A|?;*?|-", 2},                             // 14: an arbitrary leading byte
	{"A*N|?;T|-;*|T", 2},                         // 15
	{"[aA]?|[bB]|[c-];[ad]|[-c];[bx]|[dA]", 2},   // 16: three alternatives
	{"[abA][SA]|[b-];c[SA]|[-d]", 2},             // 17: recursion at the end
	{"A[abB]|[dy];[bB]S|[cx];a[bA]|[-d]", 2},     // 18: recursion through other rules
	{"zA|T;TzB|-;T|e", 2},                        // 19
	{"A;B;C;D;E;N;aN|-", 1},                      // 20: a long unit chain
	{"AE|BE|[cd];aC;bD;cN|-;dN|-;[cdb]|[hC]", 2}, // 21: mutual recursion
	{"ABAN[acA];[abd]|T;b|-", 2},                 // 22: a rule used more than once
	{"AcNd|[abd];[ab]B|-;b[AS]|-", 2},            // 23
	{"?A?|T;T|e;?|-", 2},                         // 24
	{"abNcd|b[aA]C;[BC][acd]d;[ac]|b;[bd]|-", 2}, // 25: longer alternatives
	{"Aa|Bb|hN;[aC]|[dx];[bi]B|[yi];c[CAd]", 2},  // 26: alternatives told apart by their first rules
	{"NNNN;a|-;b|-;c", 2},                        // 27: any arrangement of nullable rules
	{"NNd;?N|-;?N|T", 2},                         // 28
	{"A|B|C|[dS];a[ABC]|-;b[ABCd];c[abcA]", 2},   // 29
	{"[ab][AB]h;[ci][AB]|-;[di][AS]|[h-]", 2},    // 30
}

// shapes most of which have a conflict
var clashing = []shapeOf{
	{"AB?|?;t|t;t|t", 2},                 // nullable prefixes
	{"ABN;t|-;b|-;c|n", 3},               //
	{"ABC?;a|-;b|-;?|e", 2},              // FOLLOW through nullable symbols
	{"ABCNd;a|-;b|-;c|-;e|-", 2},         // five rules
	{"aAb|T;NB|-;dSN|-", 3},              // bracketed lists
	{"?|?|?;?|e|a", 2},                   // three alternatives
	{"S?|?;SA|e", 2},                     // left recursion
	{"A?|T;BS|t;Ab|n", 2},                // left recursion through other rules
	{"AE|BE|T;aC|-;bD;cN|-;dN|-;t|h", 3}, // mutual recursion
	{"?A?|T;T|e;?|-", 2},                 //
	{"Na|Nb|Nc;T|d;T|b;T|c", 2},          //
	{"A|B|C|?;aN|-;bN|b;cT|cT", 2},       //
	{"N;n|a;n|b;n|c", 2},                 // unit rules and empty loops
	{"S|-", 2}, {"S|a", 2}, {"SS|-", 2}, {"SS|a", 2}, {"A;S", 2}, {"Aa|b;S|-", 2},
}

func generated(ln int) (*gram, []byte, cst.Node, *map[int]string, error, bool) {
	sh := shapes[sym.Shard("shape", len(shapes))]
	m := newGram(sh.shape, sh.alphabet, true)
	table, names, err := tablegen.FromGrammar(m.g)
	if err != nil {
		return nil, nil, nil, nil, nil, false
	}
	m.fix()
	p := parser.NewLL1Parser(*table, *names)
	in := sym.Bytes("in", ln)
	root, nm, err := p.Parse(in)
	return m, in, root, nm, err, true
}

// C01_Accepts: a generated parser accepts exactly the sentences.
func C01_Accepts() {
	m, in, _, _, err, ok := generated(sym.Shard("len", 16))
	if !ok {
		return
	}
	sentence := m.sentence(in) == 1
	if err == nil {
		sym.Assert(sentence, "accepted an input the grammar does not derive")
		sym.Reach("C01 accepted")
	} else {
		sym.Assert(!sentence, "rejected a sentence of the grammar")
		sym.Reach("C01 rejected")
	}
	sym.Observe("accepted", err == nil)
}

// C03_Tree: the tree of an accepted input is a derivation of it.
func C03_Tree() {
	m, in, root, _, err, ok := generated(sym.Shard("len", 16))
	if !ok || err != nil {
		return
	}
	why := m.faithful(root, in)
	sym.Assert(why == "", why)
	sym.Reach("C03 accepted")
	sym.Observe("kids", len(root.Childs()))
}

// C03_Far: trees of long sources.
func C03_Far() {
	n := sym.Shard("n", 200000)
	list := sym.Shard("list", 2) == 1
	term := func(s string) bnf.Symbol { return bnf.SymbolTerminal{Name: s} }
	rule := func(s string) bnf.Symbol { return bnf.SymbolNonTerminal{Name: s} }
	alts := func(as ...[]bnf.Symbol) bnf.Substitution {
		var r bnf.Substitution
		for _, a := range as {
			r.Sequences = append(r.Sequences, bnf.Sequence{Symbols: a})
		}
		return r
	}
	head := func(s string) bnf.SymbolNonTerminal { return bnf.SymbolNonTerminal{Name: s} }
	long := strings.Repeat("a", n)
	g := bnf.Grammar{Rules: []bnf.Rule{
		{Head: head("S"), Tail: alts([]bnf.Symbol{term("a"), rule("S")}, []bnf.Symbol{rule("T")})},
		{Head: head("T"), Tail: alts([]bnf.Symbol{term("t"), rule("E"), term("u")})},
		{Head: head("E"), Tail: alts([]bnf.Symbol{term("bc")}, []bnf.Symbol{bnf.SymbolNothing{}})},
	}}
	if !list {
		g.Rules[0].Tail = alts([]bnf.Symbol{term(long), rule("T")})
	}
	table, names, err := tablegen.FromGrammar(g)
	sym.Assert(err == nil, "no table")
	if err != nil {
		return
	}
	last := sym.Bytes("in", 4)
	sym.Assume(last[0] != 'a')
	in := append([]byte(long), last...)
	root, _, err := parser.NewLL1Parser(*table, *names).Parse(in)
	at := 0
	if err != nil {
		return
	}
	node := func(x cst.Node, typ, pos, end, kids int) bool {
		return x != nil && x.Type() == typ && x.Pos() == pos && x.End() == end && len(x.Childs()) == kids
	}
	ok := true
	if list {
		for at < n && ok {
			ok = node(root, 0, at, n+4, 2) && node(root.Childs()[0], -1, at, at+1, 0)
			if ok {
				root = root.Childs()[1]
				at++
			}
		}
		ok = ok && node(root, 0, n, n+4, 1)
		if ok {
			root = root.Childs()[0]
		}
	} else {
		ok = node(root, 0, 0, n+4, 2) && node(root.Childs()[0], -1, 0, n, 0)
		if ok {
			root = root.Childs()[1]
		}
	}
	ok = ok && node(root, 1, n, n+4, 3)
	if ok {
		k := root.Childs()
		ok = node(k[0], -1, n, n+1, 0) && node(k[1], 2, n+1, n+3, 1) && node(k[2], -1, n+3, n+4, 0) && node(k[1].Childs()[0], -1, n+1, n+3, 0)
	}
	sym.Assert(ok, "the tree of a long source is not a derivation of it")
	sym.Reach("C03 far")
}

func charCode(b byte) string { return fmt.Sprintf("'%c' (%d)", b, b) }

// C15_Names: the same with other rule names.
func C15_Names() {
	nameStyle = sym.Shard("names", 4)
	C15_Where()
	nameStyle = 0
}

// C15_Where: a rejected input is diagnosed at its first impossible byte.
func C15_Where() {
	m, in, root, nm, err, ok := generated(sym.Shard("len", 16))
	if !ok || err == nil {
		return
	}
	sym.Assume(m.useful())
	sym.Assert(root == nil && nm == nil, "an error comes with a result")
	s := m.sets()
	// A NUL byte may be looked up as the end is: what is expected there can then
	// be told either way.
	x, y := m.reference(s, in, true), m.reference(s, in, false)
	sym.Assert(x.fail != refOK && x.at == y.at, "rejected an input the reference accepts")
	v := m.viable(in)
	var look byte
	if x.at < len(in) {
		look = in[x.at]
		sym.Assert(v>>uint(x.at+1)&1 == 0, "the reference stops early")
	}
	sym.Assert(v>>uint(x.at)&1 == 1, "the reference stops late")
	text := err.Error()
	sym.Assert(strings.Contains(text, charCode(look)), "the error does not name the first impossible byte")
	sym.Observe("text", text)
	sym.Assert(m.explains(text, x) || m.explains(text, y), "the error does not say what was expected")
	if i := strings.LastIndex(text, "got"); i >= 0 && x.fail != refCell {
		sym.Assert(strings.Contains(text[i:], charCode(look)), "the error says another byte was there")
		if x.fail == refChar && x.char != look {
			sym.Assert(strings.Contains(text[:i], charCode(x.char)), "the error says another byte was expected")
		}
	}
	switch x.fail {
	case refChar:
		sym.Reach("C15 char")
	case refCell:
		sym.Reach("C15 rule")
	case refLeftover:
		sym.Reach("C15 end")
	}
}

func (m *gram) reference(s *sets, in []byte, nul bool) *machine {
	x := &machine{in: in, budget: 1000}
	x.hasRow = func(r int) bool { return r < m.nr }
	x.cell = func(r int, look byte) ([]rsym, bool) {
		return m.choose(s, r, look, x.at == len(in) || nul && look == 0)
	}
	x.run()
	return x
}

// explains tells whether an error's text names what the reference expected.
func (m *gram) explains(text string, x *machine) bool {
	switch x.fail {
	case refChar:
		return strings.Contains(text, charCode(x.char))
	case refCell:
		if nameStyle == 3 { // names within names
			return strings.Contains(text, "<"+m.name(x.rule)+">")
		}
		return strings.Contains(text, m.name(x.rule))
	case refLeftover:
		return strings.Contains(text, "end of input")
	}
	return false
}

// choose is the definition's table.
func (m *gram) choose(s *sets, r int, look byte, end bool) ([]rsym, bool) {
	bit := uint64(0)
	if end {
		bit = eosBit
	} else {
		for i, b := range m.lead {
			if b == look {
				bit = 1 << uint(i)
			}
		}
	}
	for i, alt := range m.rules[r] {
		if s.sel[r][i]&bit == 0 {
			continue
		}
		if s.alt[r][i]&bit == 0 {
			return nil, true
		}
		var b []rsym
		for _, c := range alt {
			if m.isRule(c) {
				b = append(b, rsym{rule: m.ruleOf(c)})
			} else if c > 0 {
				b = append(b, rsym{term: true, text: m.terms[c-1]})
			}
		}
		return b, true
	}
	return nil, false
}

func init() {
	reg("C01_Accepts", C01_Accepts)
	reg("C03_Far", C03_Far)
	reg("C03_Tree", C03_Tree)
	reg("C15_Where", C15_Where)
	reg("C15_Names", C15_Names)
}
