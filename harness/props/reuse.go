package props

import (
	"bytes"
	"io"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// what the reuse and source checks parse
var fixedGrammars = []string{
	"cSb|AB;ab|-;dB|b", // nested, nullable first rule
	"ABc|d;xd|-;b|-",   // nullable rules, longer terminals
	"aAc|i|hS;dSA|-",   // lists
	"AS|-;a|zA|b",      // right recursion
	"a|*A;bA|*|-",      // arbitrary bytes
}

// fixedParser gives the table of a fixed grammar by definition, without the
// table generator.
func fixedParser(which int) (*gram, map[int]map[byte][]parser.ParserOp, map[int]string) {
	m := newGram(fixedGrammars[which], 1, true)
	s := m.sets()
	sym.Assume(s.ll1)
	table, names := map[int]map[byte][]parser.ParserOp{}, map[int]string{}
	for r, alts := range m.rules {
		table[r], names[r] = map[byte][]parser.ParserOp{}, m.name(r)
		for i, alt := range alts {
			var ops []parser.ParserOp
			for _, c := range alt {
				if c > 0 {
					ops = append(ops, m.op(c))
				}
			}
			add := func(b byte, bit uint64) {
				if s.alt[r][i]&bit != 0 {
					table[r][b] = ops
				} else if s.sel[r][i]&bit != 0 {
					table[r][b] = []parser.ParserOp{}
				}
			}
			for k, b := range m.lead {
				add(b, 1<<uint(k))
			}
			add(0, eosBit)
		}
	}
	return m, table, names
}

type result struct {
	root  cst.Node
	names *map[int]string
	err   error
}

func parse(p parser.LL1Parser, src any) result {
	root, names, err := p.Parse(src)
	return result{root, names, err}
}

func same(a, b result) bool {
	if (a.err == nil) != (b.err == nil) {
		return false
	}
	if a.err != nil {
		return a.root == nil && b.root == nil && a.names == nil && b.names == nil && a.err.Error() == b.err.Error()
	}
	return a.names != nil && b.names != nil && sameTree(a.root, b.root) && sameNames(*a.names, *b.names)
}

// C05_Again: parsing leaves everything alone and repeats.
func C05_Again() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	switch sym.Shard("names", 3) {
	case 1:
		names = nil
	case 2:
		names[-1], names[-2], names[77] = "mine", "mine too", "unused"
	}
	x, y := sym.Bytes("x", sym.Shard("x", 8)), sym.Bytes("y", sym.Shard("y", 8))
	sym.Freeze("table", table)
	sym.Freeze("names", names)
	sym.Freeze("source", x)
	p := parser.NewLL1Parser(table, names)
	first := parse(p, x)
	if first.err == nil {
		sym.Freeze("tree", first.root)
		sym.Freeze("naming map", *first.names)
	}
	second := parse(p, y)
	again := parse(p, x)
	sym.Assert(same(first, again), "parsing the same source again gives another result")
	other := parser.NewLL1Parser(table, names)
	sym.Assert(same(second, parse(other, y)), "another parser of the same table gives another result")
	sym.Assert(same(first, parse(other, string(x))), "another parser of the same table gives another result")
	if first.err == nil {
		sym.Reach("C05 accepted")
	} else {
		sym.Reach("C05 rejected")
	}
	if first.err == nil && second.err != nil {
		sym.Reach("C05 rejected in between")
	}
}

// C05_Buffer: a source's memory is the caller's to use again.
func C05_Buffer() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	n := sym.Shard("x", 8)
	x, y := sym.Bytes("x", n), sym.Bytes("y", n)
	p := parser.NewLL1Parser(table, names)
	buf := append([]byte{}, x...)
	first := parse(p, buf)
	if first.err == nil {
		sym.Freeze("tree", first.root)
	}
	copy(buf, y)
	second := parse(p, buf)
	sym.Assert(same(second, parse(parser.NewLL1Parser(table, names), string(y))), "a source given before shows in a later result")
	copy(buf, x)
	sym.Assert(same(first, parse(p, buf)), "parsing the same source again gives another result")

	// what follows the source in the caller's memory is not the parser's
	large := append(append(make([]byte, 0, 2*n+2), x...), y...)
	sym.Freeze("memory of the caller", large)
	third := parse(p, large[:n])
	sym.Assert(same(first, third), "what follows the source in memory changes the result")
	fourth := parse(p, bytes.NewBuffer(large[:n]))
	sym.Assert(same(first, fourth), "what follows the source in memory changes the result")
	sym.Reach("C05 buffer")
}

// C05_Many: a parse after many others.
func C05_Many() {
	which := sym.Shard("grammar", len(fixedGrammars))
	_, table, names := fixedParser(which)
	x := sym.Bytes("x", sym.Shard("x", 8))
	sym.Freeze("table", table)
	sym.Freeze("names", names)
	p := parser.NewLL1Parser(table, names)
	first := parse(p, x)
	if first.err == nil {
		sym.Freeze("tree", first.root)
		sym.Freeze("naming map", *first.names)
	}
	for i, n := 0, sym.Shard("n", 10000); i < n; i++ {
		// sentences, others and long ones
		src := make([]byte, i%7)
		for k := range src {
			src[k] = "abcdxz"[(i/7+k*(i%5))%6]
		}
		if i%50 == 49 {
			src = bytes.Repeat(src, 20)
		}
		parse(p, src)
	}
	sym.Assert(same(first, parse(p, x)), "parsing the same source again gives another result")
	sym.Assert(same(first, parse(parser.NewLL1Parser(table, names), x)), "a fresh parser gives another result")
	sym.Reach("C05 many")
}

// C05_Caller: what callers do with the naming maps they get.
func C05_Caller() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	x := sym.Bytes("x", sym.Shard("x", 8))
	given := map[int]string{}
	for k, v := range names {
		given[k] = v
	}
	p := parser.NewLL1Parser(table, names)
	first := parse(p, x)
	if first.err != nil {
		return
	}
	keep := map[int]string{}
	for k, v := range *first.names {
		keep[k] = v
	}
	switch sym.Shard("what", 4) {
	case 0:
		(*first.names)[0] = "changed"
	case 1:
		delete(*first.names, 0)
		delete(*first.names, -1)
		delete(*first.names, -2)
	case 2:
		(*first.names)[500] = "added"
	case 3:
		*first.names = map[int]string{9: "replaced"}
	}
	second := parse(p, x)
	sym.Assert(second.err == nil && sameTree(first.root, second.root), "a change of a returned map changes later parses")
	sym.Assert(second.names != nil && sameNames(*second.names, keep), "a change of a returned map shows in later ones")
	sym.Assert(sameNames(names, given), "the given names change")
	// and the tree's slices are the caller's as well
	if kids := first.root.Childs(); len(kids) > 0 {
		kids[0] = nil
	}
	third := parse(p, x)
	sym.Assert(third.err == nil && sameTree(second.root, third.root), "a change of a returned tree changes later ones")
	sym.Reach("C05 caller")
}

// asking is a reader during the reading of which something else is done.
type asking struct {
	r    io.Reader
	when int
	do   func()
}

func (a *asking) Read(p []byte) (int, error) {
	if a.when == 0 {
		a.do()
	}
	a.when--
	return a.r.Read(p)
}

// C05_Reenter: the source of one parse is read by way of another one, or its
// reader panics.
func C05_Reenter() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	x, y := sym.Bytes("x", sym.Shard("x", 8)), sym.Bytes("y", sym.Shard("y", 8))
	p := parser.NewLL1Parser(table, names)
	fresh := func(src any) result { return parse(parser.NewLL1Parser(table, names), src) }
	var inner result
	ran := false
	when := sym.Concrete(sym.Int("when", 0, 1))
	switch sym.Shard("what", 3) {
	case 0: // another parse while the source is read
		outer := parse(p, &asking{&pieces{data: x, most: 1}, when, func() { inner, ran = parse(p, y), true }})
		sym.Assert(!ran || same(inner, fresh(y)), "a parse within another one gives another result")
		sym.Assert(same(outer, fresh(x)), "a parse within another one changes the result")
		sym.Reach("C05 nested")
	case 1: // the same of the same kind
		var innermost result
		outer := parse(p, &asking{bytes.NewReader(x), when, func() {
			inner = parse(p, &asking{bytes.NewReader(y), when, func() { innermost = parse(p, x) }})
		}})
		sym.Assert(same(inner, fresh(y)), "a parse within another one gives another result")
		sym.Assert(same(outer, fresh(x)) && same(outer, innermost), "a parse within another one changes the result")
		sym.Reach("C05 nested twice")
	case 2: // a parse that is given up
		gone := func() {
			sym.Catch(func() { parse(p, &asking{bytes.NewReader(y), when, func() { panic("reader") }}) })
		}
		gone()
		first := parse(p, x)
		sym.Assert(same(first, fresh(x)), "a parse that was given up changes the next one")
		gone()
		sym.Assert(same(first, parse(p, bytes.NewReader(x))), "a parse that was given up changes the next one")
		sym.Reach("C05 given up")
	}
}

// C05_Cross: parsers of other tables or names are other parsers.
func C05_Cross() {
	which := sym.Shard("grammar", len(fixedGrammars))
	_, table, names := fixedParser(which)
	x, y := sym.Bytes("x", sym.Shard("x", 8)), sym.Bytes("y", sym.Shard("y", 8))
	other := map[int]map[byte][]parser.ParserOp{
		0: {'a': {parser.OpTerminal("a"), parser.OpNonTerminal(0)}, 'b': {parser.OpTerminal("b")}, 0: {}},
	}
	otherNames := map[int]string{}
	for k, v := range names {
		otherNames[k] = v + "'"
	}
	mk := []func() parser.LL1Parser{
		func() parser.LL1Parser { return parser.NewLL1Parser(table, names) },
		func() parser.LL1Parser { return parser.NewLL1Parser(other, names) },
		func() parser.LL1Parser { return parser.NewLL1Parser(table, otherNames) },
		func() parser.LL1Parser { return parser.NewLL1Parser(nil, otherNames) },
	}
	var ps []parser.LL1Parser
	for _, f := range mk {
		ps = append(ps, f())
	}
	var first []result
	for _, p := range ps {
		first = append(first, parse(p, x))
	}
	for i := len(ps) - 1; i >= 0; i-- {
		parse(ps[i], y)
	}
	for i, p := range ps {
		sym.Assert(same(first[i], parse(p, x)), "what another parser has parsed changes the result")
	}
	// the same table for itself and the same language again
	sym.Assert((first[0].err == nil) == (first[2].err == nil), "the names decide what is accepted")
	if first[0].err == nil {
		sym.Assert(sameTree(first[0].root, first[2].root), "the names change the tree")
		want := map[int]string{}
		for k, v := range *first[0].names {
			want[k] = v
		}
		for k := range names {
			if k >= 0 {
				want[k] = names[k] + "'"
			}
		}
		sym.Assert(sameNames(*first[2].names, want), "another parser's names are returned")
		sym.Reach("C05 cross accepted")
	}
	as := true
	for i, b := range x {
		if b != 'a' && (b != 'b' || i != len(x)-1) {
			as = false
		}
	}
	sym.Assert((first[1].err == nil) == as, "another parser's table is used")
	sym.Assert(first[3].err != nil, "another parser's table is used")
	sym.Reach("C05 cross")
}

// C05_Parallel: parses running at the same time share nothing they write.
func C05_Parallel() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	x := sym.Bytes("x", sym.Shard("x", 8))
	var src any = x
	if sym.Shard("form", 2) == 1 {
		src = string(x)
	}
	p := parser.NewLL1Parser(table, names)
	sym.Parallel(func() {
		r := parse(p, src)
		if r.err == nil {
			sym.Reach("C05 parallel accepted")
		}
	})
}

func init() {
	reg("C05_Again", C05_Again)
	reg("C05_Buffer", C05_Buffer)
	reg("C05_Many", C05_Many)
	reg("C05_Caller", C05_Caller)
	reg("C05_Reenter", C05_Reenter)
	reg("C05_Cross", C05_Cross)
	reg("C05_Parallel", C05_Parallel)
}
