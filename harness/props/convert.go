package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Conversion of syntax trees to grammars by bindings.

// converter is what the documentation of the bindings says. Where it says
type converter struct {
	b      fromcst.BNFCSTtoASTBindings
	text   string
	failed bool
}

func (c *converter) skip(n cst.Node) bool {
	for _, t := range c.b.IgnoreNodeTypes {
		if n.Type() == t {
			return true
		}
	}
	return false
}

// topmost lists the uppermost nodes of a type in textual order.
func (c *converter) topmost(n cst.Node, typ int) []cst.Node {
	if c.skip(n) {
		return nil
	}
	if n.Type() == typ {
		return []cst.Node{n}
	}
	var r []cst.Node
	for _, k := range n.Childs() {
		r = append(r, c.topmost(k, typ)...)
	}
	return r
}

func (c *converter) str(n cst.Node) string { return c.text[n.Pos():n.End()] }

func (c *converter) literal(n cst.Node) string {
	switch n.Type() {
	case parser.BuiltinTerminal:
		return c.str(n)
	case c.b.EscapeSequenceType:
		chars := c.topmost(n, c.b.EscapeCharacterType)
		if len(chars) == 0 {
			c.failed = true
			return ""
		}
		s, ok := c.b.EscapeMapping[c.str(chars[0])]
		if !ok {
			c.failed = true
		}
		return s
	}
	s := ""
	for _, k := range n.Childs() {
		s += c.literal(k)
		if c.failed {
			return ""
		}
	}
	return s
}

func (c *converter) symbol(n cst.Node) bnf.Symbol {
	for _, t := range c.b.SymbolTerminalTypes {
		if ns := c.topmost(n, t); len(ns) > 0 {
			s := c.literal(ns[0])
			if s == "" {
				return bnf.SymbolNothing{}
			}
			return bnf.SymbolTerminal{Name: s}
		}
	}
	ns := c.topmost(n, c.b.SymbolNonTerminalType)
	if len(ns) == 0 {
		c.failed = true
		return nil
	}
	return bnf.SymbolNonTerminal{Name: c.str(ns[0])}
}

func (c *converter) grammar(root cst.Node) bnf.Grammar {
	var g bnf.Grammar
	for _, r := range c.topmost(root, c.b.RuleType) {
		heads := c.topmost(r, c.b.RuleHeadType)
		tails := c.topmost(r, c.b.RuleTailType)
		if len(heads) == 0 || len(tails) == 0 {
			c.failed = true
			return g
		}
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: c.str(heads[0])}}
		for _, q := range c.topmost(tails[0], c.b.ExpressionSequencesType) {
			var seq bnf.Sequence
			for _, s := range c.topmost(q, c.b.SequencesSymbolType) {
				v := c.symbol(s)
				if c.failed {
					return g
				}
				seq.Symbols = append(seq.Symbols, v)
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		g.Rules = append(g.Rules, rule)
	}
	return g
}

// converts compares a conversion with the documentation.
func converts(b fromcst.BNFCSTtoASTBindings, root cst.Node, text string) {
	sym.Freeze("tree", root)
	sym.Freeze("bindings", b)
	var g *bnf.Grammar
	var err error
	panicked, msg := sym.Catch(func() { g, err = b.ToAST(root, text) })
	sym.Assert(!panicked, "conversion panics: "+msg)
	if panicked {
		return
	}
	c := &converter{b: b, text: text}
	want := c.grammar(root)
	sym.Observe("ok", err == nil)
	if err != nil {
		sym.Assert(c.failed, "a tree the bindings describe is not converted")
		sym.Assert(g == nil, "an error comes with a grammar")
		sym.Reach("C16 error")
		return
	}
	sym.Assert(!c.failed, "a tree the bindings do not describe is converted")
	sym.Assert(g != nil && sameGrammar(*g, want), "the grammar is not the one the bindings describe")
	sym.Reach("C16 converted")
	if g != nil {
		sym.Observe("rules", len(g.Rules))
	}
}

// texts of the bundled syntax; '~' is an arbitrary byte
var convertTexts = []string{
	"<a>::=\"x\"",
	"<ab> ::= <c> 'y' | \"\" | \"a\\tb\"\n\n  <c>::= \"\\\\\" 'q\"' \r\n<d>::=<a>",
	"<a>::=\"~~\" <b~> ''",
	"<s>::='\\n\\r\\t\\\"\\\\' \"'\"|''\r\n",
}

func bnfTree(i int) (string, cst.Node) {
	p := bnfParser()
	text := []byte(convertTexts[i])
	for i, c := range text {
		if c == '~' {
			text[i] = sym.Byte("x" + strconv.Itoa(i))
		}
	}
	root, _, err := p.Parse(text)
	sym.Assume(err == nil)
	return string(text), root
}

func renumbered(n cst.Node, to func(int) int) cst.Node {
	var kids []cst.Node
	if n.Childs() != nil {
		kids = []cst.Node{}
	}
	for _, k := range n.Childs() {
		kids = append(kids, renumbered(k, to))
	}
	return cst.NewNode(to(n.Type()), n.Pos(), n.End(), kids)
}

func selfBindings() fromcst.BNFCSTtoASTBindings { return fromcst.SelfCSTtoASTBindings() }

// C16_Renumber: any consistent renumbering gives the same grammar.
func C16_Renumber() {
	text, root := bnfTree(sym.Shard("text", len(convertTexts)))
	b := selfBindings()
	plain, err := b.ToAST(root, text)
	sym.Assert(err == nil && plain != nil, "a BNF text is not converted")
	if err != nil || plain == nil {
		return
	}
	// new numbers, distinct where the bindings tell types apart
	bound := []int{4, 5, 7, 9, 11, 12, 16, 17, 18, 25}
	num := map[int]int{-1: -1, -2: -2}
	var vals []int
	for _, t := range bound {
		v := sym.Int("type"+strconv.Itoa(t), -100, 150)
		sym.Assume(v != -1)
		sym.Assume(v != -2)
		for _, o := range vals {
			sym.Assume(v != o)
		}
		num[t] = v
		vals = append(vals, v)
	}
	other := sym.Int("other", -100, 150)
	sym.Assume(other != -1)
	for _, o := range vals {
		sym.Assume(other != o)
	}
	to := func(t int) int {
		if v, ok := num[t]; ok {
			return v
		}
		return other
	}
	nb := fromcst.BNFCSTtoASTBindings{
		IgnoreNodeTypes:         []int{num[25]},
		RuleType:                num[4],
		RuleHeadType:            num[18],
		RuleTailType:            num[5],
		ExpressionSequencesType: num[7],
		SequencesSymbolType:     num[9],
		SymbolTerminalTypes:     []int{num[11], num[12]},
		SymbolNonTerminalType:   num[18],
		EscapeSequenceType:      num[16],
		EscapeCharacterType:     num[17],
		EscapeMapping:           b.EscapeMapping,
	}
	tree := renumbered(root, to)
	sym.Freeze("tree", tree)
	sym.Freeze("bindings", nb)
	g, err := nb.ToAST(tree, text)
	sym.Assert(err == nil && g != nil, "a renumbered tree is not converted")
	if err != nil || g == nil {
		return
	}
	sym.Assert(sameGrammar(*g, *plain), "a renumbered tree gives another grammar")
	sym.Reach("C16 renumbered")
	sym.Observe("rules", len(g.Rules))
}

// C16_Ignore: ignored types, in any order.
func C16_Ignore() {
	text, root := bnfTree(sym.Shard("text", len(convertTexts)))
	b := selfBindings()
	n := sym.Shard("n", 6)
	var types []int
	for i := 0; i < n; i++ {
		// anything but the types the bindings look for
		t := sym.Int("ignored"+strconv.Itoa(i), -5, 30)
		given(func() bool {
			return t != 4 && t != 5 && t != 7 && t != 9 && t != 11 && t != 12 && (t < 16 || t > 18) && t >= 0
		})
		types = append(types, t)
	}
	b.IgnoreNodeTypes = types
	converts(b, root, text)
}

// C16_Order: the order of the ignored types.
func C16_Order() {
	text, root := bnfTree(sym.Shard("text", len(convertTexts)))
	pool := []int{25, 24, 40, 23, 99}
	n := 2 + sym.Shard("n", 4)
	b := selfBindings()
	var order []int
	for i := 0; i < n; i++ {
		k := sym.Concrete(sym.Int("pick"+strconv.Itoa(i), 0, n-1))
		for _, o := range order {
			sym.Assume(o != pool[k])
		}
		order = append(order, pool[k])
	}
	b.IgnoreNodeTypes = order
	converts(b, root, text)
}

// C16_Bindings: any two of the bindings changed to any type.
func C16_Bindings() {
	text, root := bnfTree(sym.Shard("text", len(convertTexts)))
	b := selfBindings()
	any := func(n string) int {
		t := sym.Int(n, 0, 27)
		sym.Assume(t != 25)
		return t
	}
	set := []*int{&b.RuleType, &b.RuleHeadType, &b.RuleTailType, &b.ExpressionSequencesType,
		&b.SequencesSymbolType, &b.SymbolNonTerminalType, &b.EscapeSequenceType, &b.EscapeCharacterType,
		&b.SymbolTerminalTypes[0], &b.SymbolTerminalTypes[1]}
	i, k := 0, sym.Shard("pair", len(set)*(len(set)+1)/2)
	for k >= len(set)-i {
		k -= len(set) - i
		i++
	}
	k += i
	*set[i] = any("first")
	if k != i {
		*set[k] = any("second")
	}
	converts(b, root, text)
}

// C16_Mapping: the mapping given is the one applied.
func C16_Mapping() {
	text, root := bnfTree(sym.Shard("text", len(convertTexts)))
	b := selfBindings()
	b.EscapeMapping = map[string]string{}
	missing := sym.Shard("missing", 6)
	for i, k := range []string{"t", "n", "r", "\"", "\\"} {
		if i != missing {
			b.EscapeMapping[k] = sym.String("to"+strconv.Itoa(i), 1+i%3)
		}
	}
	converts(b, root, text)
}

// trees as parents' indices; node 0 is the root
var treeForms = [][]int{
	{0, 1, 2, 3, 4},          // a chain of six
	{0, 0, 1, 1, 2},          //
	{0, 1, 1, 2, 3, 3},       //
	{0, 0, 0, 1, 2, 3, 3},    //
	{0, 1, 2, 2, 3, 4, 5, 5}, //
	{0, 0, 2, 3, 4, 5, 6},    // head, then rule tail, list, symbol, text, literal
	{0, 0, 2, 3, 4, 5, 6, 7, 6},
	{0, 0, 2, 3, 4, 4, 5, 6}, // a symbol of two texts
}

// C16_Tree: trees of any types.
func C16_Tree() {
	form := treeForms[sym.Shard("form", len(treeForms))]
	text := "abcdefghijklmnopqrstuvw"
	b := fromcst.BNFCSTtoASTBindings{
		IgnoreNodeTypes: []int{12, 11}, RuleType: 1, RuleHeadType: 2, RuleTailType: 3,
		ExpressionSequencesType: 4, SequencesSymbolType: 5, SymbolTerminalTypes: []int{6, 7},
		SymbolNonTerminalType: 2, EscapeSequenceType: 8, EscapeCharacterType: 9,
		EscapeMapping: map[string]string{"defghijklmnopqrst": "", "efghijklmnopqrs": "Z", "fghijklmnopqr": "\x00", "ghijklmnopq": "\"", "hijklmnop": "", "ijklmno": "XY"},
	}
	n := len(form) + 1
	kids := make([][]cst.Node, n)
	var root cst.Node
	for i := n - 1; i >= 0; i-- {
		t := sym.Int("t"+strconv.Itoa(i), -2, 12)
		node := cst.NewNode(t, i, len(text)-i, kids[i])
		if i == 0 {
			root = node
			break
		}
		p := form[i-1]
		kids[p] = append([]cst.Node{node}, kids[p]...)
	}
	converts(b, root, text)
}

func init() {
	reg("C16_Renumber", C16_Renumber)
	reg("C16_Ignore", C16_Ignore)
	reg("C16_Order", C16_Order)
	reg("C16_Bindings", C16_Bindings)
	reg("C16_Mapping", C16_Mapping)
	reg("C16_Tree", C16_Tree)
}
