package props

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Sizes far from those of the other harnesses: what is long, deep or wide is
// mostly fixed, with a few open places.

func term(s string) bnf.Symbol              { return bnf.SymbolTerminal{Name: s} }
func ref(s string) bnf.Symbol               { return bnf.SymbolNonTerminal{Name: s} }
func head(s string) bnf.SymbolNonTerminal   { return bnf.SymbolNonTerminal{Name: s} }
func symbols(ss ...bnf.Symbol) []bnf.Symbol { return ss }

// C01_Deep: nested and repeated inputs.
func C01_Deep() {
	n := sym.Shard("n", 100000)
	var g bnf.Grammar
	var in []byte
	var want bool
	ln := sym.Shard("open", 4)
	open := sym.Bytes("in", ln)
	switch sym.Shard("kind", 4) {
	case 0: // brackets around one letter
		g.Rules = []bnf.Rule{{Head: head("S"), Tail: alternatives(symbols(term("("), ref("S"), term(")")), symbols(term("x")))}}
		in = append(append(bytes.Repeat([]byte("("), n), open...), bytes.Repeat([]byte(")"), n)...)
		sym.Merge(func() { want = string(open) == "x" || string(open) == "(x)" })
	case 1: // brackets around nothing
		g.Rules = []bnf.Rule{{Head: head("S"), Tail: alternatives(symbols(term("(("), ref("S"), term(")")), symbols(bnf.SymbolNothing{}))}}
		in = append(append(bytes.Repeat([]byte("(("), n), open...), bytes.Repeat([]byte(")"), n)...)
		sym.Merge(func() { want = string(open) == "" || string(open) == "(()" })
	case 2: // a list that ends anyhow
		g.Rules = []bnf.Rule{
			{Head: head("S"), Tail: alternatives(symbols(ref("A"), ref("T")))},
			{Head: head("T"), Tail: alternatives(symbols(bnf.SymbolNothing{}), symbols(term(","), ref("A"), ref("T")))},
			{Head: head("A"), Tail: alternatives(symbols(term("a")), symbols(term("bb")))},
		}
		in = append(bytes.Repeat([]byte("a,bb,"), n), open...)
		sym.Merge(func() {
			s := string(open)
			want = s == "a" || s == "bb" || s == "a,a"
		})
	case 3: // a list of empty things and a terminator
		g.Rules = []bnf.Rule{
			{Head: head("S"), Tail: alternatives(symbols(term("a"), ref("E"), ref("S")), symbols(term(".")))},
			{Head: head("E"), Tail: alternatives(symbols(bnf.SymbolNothing{}), symbols(term("e")))},
		}
		in = append(bytes.Repeat([]byte("aae"), n), open...)
		sym.Merge(func() {
			s := string(open)
			want = s == "." || s == "a." || s == "ae." || s == "aa."
		})
	}
	table, names, err := tablegen.FromGrammar(g)
	sym.Assert(err == nil, "no table")
	if err != nil {
		return
	}
	root, _, err := parser.NewLL1Parser(*table, *names).Parse(in)
	if want {
		sym.Assert(err == nil, "a long sentence is rejected")
		if err == nil {
			sym.Assert(root.Pos() == 0 && root.End() == len(in), "the tree does not span the source")
		}
		sym.Reach("C01 deep accepted")
	} else {
		sym.Assert(err != nil, "a long string that is no sentence is accepted")
		sym.Reach("C01 deep rejected")
	}
}

func isNode(x cst.Node, typ, pos, end, kids int) bool {
	return x != nil && x.Type() == typ && x.Pos() == pos && x.End() == end && len(x.Childs()) == kids
}

// C03_Wide: nodes of many children.
func C03_Wide() {
	n := sym.Shard("n", 100000)
	// S ::= E a E a ... E b, with E "e" or empty
	var alt []bnf.Symbol
	var in []byte
	var open []byte
	for i := 0; i < n; i++ {
		alt = append(alt, ref("E"), term("ab"))
	}
	alt = append(alt, ref("E"))
	g := bnf.Grammar{Rules: []bnf.Rule{
		{Head: head("S"), Tail: alternatives(alt)},
		{Head: head("E"), Tail: alternatives(symbols(term("e")), symbols(bnf.SymbolNothing{}))},
	}}
	table, names, err := tablegen.FromGrammar(g)
	sym.Assert(err == nil, "no table")
	if err != nil {
		return
	}
	// which E are not empty: any of three, and every fifth
	is := make([]bool, n+1)
	for i := range is {
		is[i] = i%5 == 4
	}
	for k, i := range []int{0, n / 2, n} {
		is[i] = sym.Decide(sym.Bool("e" + strconv.Itoa(k)))
	}
	for i := 0; i <= n; i++ {
		if is[i] {
			in = append(in, 'e')
		}
		if i < n {
			in = append(in, "ab"...)
		}
	}
	open = sym.Bytes("open", 1)
	in[n/2] = open[0]
	root, _, err := parser.NewLL1Parser(*table, *names).Parse(in)
	if err != nil {
		return
	}
	sym.Assert(isNode(root, 0, 0, len(in), 2*n+1), "the root is wrong")
	at := 0
	for i, k := range root.Childs() {
		if i%2 == 1 {
			sym.Assert(isNode(k, -1, at, at+2, 0), "a terminal is wrong")
			at += 2
		} else if is[i/2] {
			sym.Assert(isNode(k, 1, at, at+1, 1) && isNode(k.Childs()[0], -1, at, at+1, 0), "a rule's node is wrong")
			at++
		} else {
			sym.Assert(isNode(k, 1, at, at, 1) && isNode(k.Childs()[0], -2, at, at, 0), "an empty rule's node is wrong")
		}
	}
	sym.Reach("C03 wide")
}

// C04_Wide: long operation lists, long terminals, full rows.
func C04_Wide() {
	n := sym.Shard("n", 100000)
	var ops []parser.ParserOp
	for i := 0; i < n; i++ {
		ops = append(ops, parser.OpTerminal("a"))
	}
	full := map[byte][]parser.ParserOp{}
	for b := 0; b < 256; b++ {
		full[byte(b)] = []parser.ParserOp{parser.OpTerminal(string([]byte{byte(b)})), parser.OpNonTerminal(n)}
	}
	long := strings.Repeat("long", n)
	table := map[int]map[byte][]parser.ParserOp{
		0:       {'a': append(ops, parser.OpNonTerminal(1<<40), parser.OpTerminal("")), 'l': {parser.OpTerminal(long)}},
		1 << 40: full,
		n:       {'l': {parser.OpTerminal(long)}, 'z': {}, 0: {}},
	}
	in := sym.Bytes("in", 2)
	var src []byte
	kind := sym.Shard("kind", 3)
	if kind == 0 { // a...aXY
		src = append(bytes.Repeat([]byte("a"), n), in...)
	} else {
		src = append(bytes.Repeat([]byte("a"), n), in[0])
		src = append(src, long...)
		if kind == 1 {
			src[len(src)-3] = in[1]
		} else {
			src = append(src, in[1])
		}
	}
	if n > 6 {
		src[n-7] = 'a'
	}
	root, names, err := parser.NewLL1Parser(table, nil).Parse(src)
	var want bool
	switch kind {
	case 0: // Y is left over unless it is matched by nothing
		want = false
	case 1:
		want = in[1] == long[len(long)-3]
	case 2:
		want = false
	}
	sym.Assert((err == nil) == want, "a long table entry is not executed as written")
	if err != nil {
		sym.Assert(root == nil && names == nil, "an error comes with a result")
		sym.Reach("C04 wide rejected")
		return
	}
	ok := isNode(root, 0, 0, len(src), n+2)
	for i := 0; ok && i < n; i++ {
		ok = isNode(root.Childs()[i], -1, i, i+1, 0)
	}
	if ok {
		k, e := root.Childs()[n], root.Childs()[n+1]
		ok = isNode(k, 1<<40, n, len(src), 2) && isNode(e, -1, len(src), len(src), 1)
		if ok {
			x, y := k.Childs()[0], k.Childs()[1]
			ok = isNode(x, -1, n, n+1, 0) && isNode(y, n, n+1, len(src), 1) && isNode(y.Childs()[0], -1, n+1, len(src), 0)
		}
	}
	sym.Assert(ok, "the tree does not mirror the operations")
	sym.Reach("C04 wide")
}

// C07_Large: long names and terminals, many rules and alternatives.
func C07_Large() {
	n := sym.Shard("n", 100000)
	p := bnfParser()
	names := []string{}
	for i := 0; i < 3; i++ {
		names = append(names, strings.Repeat("Name-", n/5)+nameOf("name"+strconv.Itoa(i), 1)+strconv.Itoa(i))
	}
	var g bnf.Grammar
	switch sym.Shard("kind", 4) {
	case 0: // long names
		g.Rules = []bnf.Rule{
			{Head: head(names[0]), Tail: alternatives(symbols(ref(names[1]), ref(names[2])))},
			{Head: head(names[1]), Tail: alternatives(symbols(bnf.SymbolNothing{}))},
		}
	case 1: // long terminals
		text := []byte(strings.Repeat("t\\e 'xt", n/7))
		for i, at := range []int{len(text) / 2, len(text) - 1} {
			text[at] = textOf("t"+strconv.Itoa(i), 1)[0]
		}
		g.Rules = []bnf.Rule{{Head: head("S"), Tail: alternatives(symbols(bnf.SymbolTerminal{Name: string(text)}))}}
	case 2: // many alternatives and symbols
		var as [][]bnf.Symbol
		for i := 0; i < n; i++ {
			as = append(as, symbols(term(strconv.Itoa(i)), ref("S")))
			if i%3 == 0 {
				as = append(as, symbols(bnf.SymbolNothing{}))
			}
		}
		var long []bnf.Symbol
		for i := 0; i < n; i++ {
			long = append(long, ref("A"), term("b"))
		}
		as = append(as, append(long, term(textOf("t", 2))))
		g.Rules = []bnf.Rule{{Head: head("S"), Tail: alternatives(as...)}}
	case 3: // many rules
		for i := 0; i < n; i++ {
			g.Rules = append(g.Rules, bnf.Rule{Head: head("R" + strconv.Itoa(i)), Tail: alternatives(symbols(term("x"), ref("R"+strconv.Itoa(i/2))))})
		}
		g.Rules[n/2].Tail.Sequences[0].Symbols[0] = term(textOf("t", 2))
		g.Rules[n-1].Head.Name = nameOf("last", 2)
	}
	roundTrip(p, g)
}

// C08_Large: long texts.
func C08_Large() {
	n := sym.Shard("n", 100000)
	open := sym.Bytes("x", 2)
	x := string(open)
	s := strings.Repeat
	var text string
	switch sym.Shard("kind", 6) {
	case 0: // spaces
		text = s(" ", n) + "<a>" + s(" ", n) + "::=" + s(" ", n) + x + s(" ", n) + "<b>" + s(" ", n) + "|" + s(" ", n) + "'c'" + s(" ", n)
	case 1: // blank lines
		text = "<a>::='x'" + s("\n", n) + x[:1] + s("\r\n", n) + "<b>::=\"\"" + s(" \n", n) + x[1:] + s("\n", n)
	case 2: // a long name
		text = "<" + s("aB-9", n/4) + x + ">::=<b" + s("9", n) + x[:1] + ">"
	case 3: // a long literal
		text = "<a>::=\"" + s("\\n~", n/3) + x + s(" |", n/2) + "\""
	case 4: // many alternatives
		text = "<a>::=" + s("'x'|\"y\"<c>|", n/8) + "''" + x + s("|<z>", n/4)
	case 5: // many rules
		text = s("<a>::='b'\n", n/10) + x + s("\n<a>::='b'", n/10)
	}
	understood([]byte(text))
}

// C09_Far: one flaw anywhere in a large grammar.
func C09_Far() {
	n := sym.Shard("n", 100)
	name := func(i int) string { return "L" + strconv.Itoa(i) }
	var g bnf.Grammar
	for i := 0; i < n; i++ {
		g.Rules = append(g.Rules, bnf.Rule{Head: head(name(i)), Tail: alternatives(
			symbols(term("a"), ref(name((i+1)%n)), term("z")),
			symbols(term("b"), ref(name((i*7+3)%n))),
			symbols(term("c")),
			symbols(bnf.SymbolNothing{}),
		)})
	}
	r := sym.Concrete(sym.Int("rule", 0, n-1))
	a := sym.Concrete(sym.Int("alternative", 0, 3))
	seq := &g.Rules[r].Tail.Sequences[a]
	p := sym.Concrete(sym.Int("place", 0, len(seq.Symbols)-1))
	kind := sym.Shard("kind", 7)
	switch kind {
	case 0:
		seq.Symbols[p] = term("")
	case 1:
		seq.Symbols[p] = term("\x00x")
	case 2:
		seq.Symbols[p] = ref("L" + strconv.Itoa(n))
	case 3: // beside another symbol
		seq.Symbols = append(append(append([]bnf.Symbol{}, seq.Symbols[:p]...), bnf.SymbolNothing{}), seq.Symbols[p:]...)
	case 4:
		seq.Symbols = nil
	case 5: // a rule twice
		q := sym.Concrete(sym.Int("other", 0, n-1))
		sym.Assume(q != r && a == 0 && p == 0)
		g.Rules[r].Head.Name = name(q)
		// every reference to r is one to another rule
		for i := range g.Rules {
			for _, s := range g.Rules[i].Tail.Sequences {
				for k, x := range s.Symbols {
					if x == ref(name(r)) {
						s.Symbols[k] = ref(name(q))
					}
				}
			}
		}
	case 6: // beside another symbol, behind it
		seq.Symbols = append(append(append([]bnf.Symbol{}, seq.Symbols[:p+1]...), bnf.SymbolNothing{}), seq.Symbols[p+1:]...)
	}
	var table *map[int]map[byte][]parser.ParserOp
	var names *map[int]string
	var err error
	panicked, msg := sym.Catch(func() { table, names, err = tablegen.FromGrammar(g) })
	sym.Assert(!panicked, "table generation panics: "+msg)
	sym.Assert(sym.Prints() == 0, "table generation prints")
	sym.Assert(err != nil, "a malformed grammar is accepted")
	sym.Assert(table == nil && names == nil, "an error comes with a table")
	sym.Reach("C09 far")
}

// C14_Ring: recursion through many rules.
func C14_Ring() {
	n := sym.Shard("n", 300)
	at := func(i int) bnf.Symbol { return ref("L" + strconv.Itoa(i%n)) }
	var g bnf.Grammar
	kind := sym.Shard("kind", 5)
	for i := 0; i < n; i++ {
		var alts bnf.Substitution
		switch kind {
		case 0: // nothing but each other
			alts = alternatives(symbols(at(i + 1)))
		case 1: // the last may end it
			alts = alternatives(symbols(at(i + 1)))
			if i == n-1 {
				alts = alternatives(symbols(at(0), term("a")), symbols(term("b")))
			}
		case 2: // with something empty before
			alts = alternatives(symbols(ref("E"), at(i+1)))
		case 3: // with a letter somewhere
			alts = alternatives(symbols(at(i+1), term("a")))
			if i == n/2 {
				alts = alternatives(symbols(term("a"), at(i+1)), symbols(bnf.SymbolNothing{}))
			}
		case 4: // empty or each other
			alts = alternatives(symbols(at(i+1)), symbols(bnf.SymbolNothing{}))
		}
		g.Rules = append(g.Rules, bnf.Rule{Head: head("L" + strconv.Itoa(i)), Tail: alts})
	}
	if kind == 2 {
		g.Rules = append(g.Rules, bnf.Rule{Head: head("E"), Tail: alternatives(symbols(bnf.SymbolNothing{}), symbols(term("e")))})
	}
	table, names, err := tablegen.FromGrammar(g)
	sym.Reach("C14 ring")
	if kind == 1 || kind == 4 {
		sym.Assert(err != nil, "a left-recursive grammar is accepted")
	}
	if err != nil {
		return
	}
	_, _, err = parser.NewLL1Parser(*table, *names).Parse(sym.Bytes("in", 3))
	sym.Observe("ok", err == nil)
}

func init() {
	reg("C01_Deep", C01_Deep)
	reg("C03_Wide", C03_Wide)
	reg("C04_Wide", C04_Wide)
	reg("C07_Large", C07_Large)
	reg("C08_Large", C08_Large)
	reg("C09_Far", C09_Far)
	reg("C14_Ring", C14_Ring)
}
