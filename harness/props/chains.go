package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// chain is a grammar of many rules in which what one rule derives decides what
// happens many rules away, with two open terminals x and y. A conflict there is
// if and only if x and y are the same, except where clash says otherwise.
type chain struct {
	g     bnf.Grammar
	x, y  byte
	n     int
	at    []int // position in the grammar of link i
	clash bool
	list  [][]byte // sentences
	// what the row of link i holds, by look-ahead
	cells func(i int) map[byte][]parser.ParserOp
}

const chainKinds = 7

func link(i int) bnf.SymbolNonTerminal { return bnf.SymbolNonTerminal{Name: "L" + strconv.Itoa(i)} }

func alternatives(as ...[]bnf.Symbol) bnf.Substitution {
	var r bnf.Substitution
	for _, a := range as {
		r.Sequences = append(r.Sequences, bnf.Sequence{Symbols: a})
	}
	return r
}

func newChain() *chain {
	c := &chain{n: sym.Shard("n", 500), x: sym.Byte("x"), y: sym.Byte("y")}
	sym.Assume(c.x > 0 && c.x < 'a' && c.y > 0 && c.y < 'a')
	n := c.n
	// the start rule is first, the others in one of three orders
	c.at = make([]int, n)
	for i := 1; i < n; i++ {
		switch sym.Shard("order", 3) {
		case 0:
			c.at[i] = i
		case 1:
			c.at[i] = n - i
		case 2: // odd ones up, even ones down
			if i%2 == 1 {
				c.at[i] = (i + 1) / 2
			} else {
				c.at[i] = n - i/2
			}
		}
	}
	c.g.Rules = make([]bnf.Rule, n)
	x, y := bnf.SymbolTerminal{Name: string([]byte{c.x})}, bnf.SymbolTerminal{Name: string([]byte{c.y})}
	opX, opY := parser.OpTerminal(x.Name), parser.OpTerminal(y.Name)
	none := bnf.SymbolNothing{}
	seq := func(ss ...bnf.Symbol) []bnf.Symbol { return ss }
	op := func(i int) parser.ParserOp { return parser.OpNonTerminal(c.at[i]) }
	last := n - 1
	c.clash = c.x == c.y
	set := func(i int, as ...[]bnf.Symbol) {
		c.g.Rules[c.at[i]] = bnf.Rule{Head: link(i), Tail: alternatives(as...)}
	}
	list := func(ss ...string) {
		for _, s := range ss {
			c.list = append(c.list, []byte(s))
		}
	}
	type row = map[byte][]parser.ParserOp
	ops := func(os ...parser.ParserOp) []parser.ParserOp { return os }
	switch sym.Shard("kind", chainKinds) {
	case 0: // FIRST from the last link
		for i := 0; i < last; i++ {
			set(i, seq(link(i+1)))
		}
		set(last, seq(x), seq(y))
		list(x.Name, y.Name)
		c.cells = func(i int) map[byte][]parser.ParserOp {
			if i == last {
				return row{c.x: ops(opX), c.y: ops(opY)}
			}
			return row{c.x: ops(op(i + 1)), c.y: ops(op(i + 1))}
		}
	case 1: // FOLLOW to the last link, which may be empty
		set(0, seq(link(1), x))
		for i := 1; i < last; i++ {
			set(i, seq(link(i+1)))
		}
		set(last, seq(y), seq(none))
		list(y.Name+x.Name, x.Name)
		c.cells = func(i int) map[byte][]parser.ParserOp {
			switch i {
			case 0:
				return row{c.x: ops(op(1), opX), c.y: ops(op(1), opX)}
			case last:
				return row{c.x: nil, c.y: ops(opY)}
			}
			return row{c.x: nil, c.y: ops(op(i + 1))}
		}
	case 2: // every link is followed by the next, which may be empty
		set(0, seq(link(1), x))
		for i := 1; i < last; i++ {
			if i%2 == 1 {
				set(i, seq(link(i+1), link(last)))
			} else {
				set(i, seq(link(i+1)))
			}
		}
		set(last, seq(none))
		// the links are all empty; y is before them
		c.g.Rules[0].Tail = alternatives(seq(link(1), x), seq(y))
		list(x.Name, y.Name)
		c.cells = func(i int) map[byte][]parser.ParserOp {
			if i == 0 {
				return row{c.x: ops(op(1), opX), c.y: ops(opY)}
			}
			return row{c.x: nil}
		}
	case 3: // one long sequence of links that may be empty
		all := seq()
		for i := 1; i < n; i++ {
			all = append(all, link(i))
			set(i, seq(none))
		}
		set(last, seq(none), seq(y))
		set(0, append(all, x))
		list(x.Name, y.Name+x.Name)
		c.cells = func(i int) map[byte][]parser.ParserOp {
			switch i {
			case 0:
				var os []parser.ParserOp
				for k := 1; k < n; k++ {
					os = append(os, op(k))
				}
				os = append(os, opX)
				return row{c.x: os, c.y: os}
			case last:
				return row{c.x: nil, c.y: ops(opY)}
			}
			return row{c.x: nil, c.y: nil}
		}
	case 4: // each link has its own FIRST and hands the rest on
		for i := 0; i < last; i++ {
			set(i, seq(bnf.SymbolTerminal{Name: string([]byte{byte(128 + i%100)})}, link(i+1)), seq(link(i+1), bnf.SymbolTerminal{Name: "z"}))
		}
		set(last, seq(x), seq(y))
		c.clash = c.clash || n > 100
		c.cells = func(i int) map[byte][]parser.ParserOp {
			if i == last {
				return row{c.x: ops(opX), c.y: ops(opY)}
			}
			z := parser.OpTerminal("z")
			r := row{c.x: ops(op(i+1), z), c.y: ops(op(i+1), z)}
			for k := i; k < last; k++ {
				if k == i {
					r[byte(128+k)] = ops(parser.OpTerminal(string([]byte{byte(128 + k)})), op(i+1))
				} else {
					r[byte(128+k)] = ops(op(i+1), z)
				}
			}
			return r
		}
	case 5: // as many alternatives as there are links
		var as [][]bnf.Symbol
		for i := 1; i < n; i++ {
			t := bnf.SymbolTerminal{Name: string([]byte{byte(i + 'g'), 'q'})}
			as = append(as, seq(t, link(i)))
			set(i, seq(none), seq(t))
		}
		set(last, seq(x), seq(y))
		c.g.Rules[0] = bnf.Rule{Head: link(0), Tail: alternatives(append(as, seq(x))...)}
		c.cells = func(i int) map[byte][]parser.ParserOp {
			t := parser.OpTerminal(string([]byte{byte(i + 'g'), 'q'}))
			switch i {
			case 0:
				r := row{c.x: ops(opX)}
				for k := 1; k < n; k++ {
					r[byte(k+'g')] = ops(parser.OpTerminal(string([]byte{byte(k + 'g'), 'q'})), op(k))
				}
				return r
			case last:
				return row{c.x: ops(opX), c.y: ops(opY)}
			}
			return row{0: nil, byte(i + 'g'): ops(t)}
		}
		list(x.Name, "hqhq", "hq", string([]byte{byte(last + 'g'), 'q', c.y}))
	case 6: // a ring: every link hands on to the next, the last to the first but one
		for i := 1; i < n; i++ {
			next := i + 1
			if next == n {
				next = 1
			}
			set(i, seq(bnf.SymbolTerminal{Name: "a"}, link(next)), seq(none))
		}
		set(0, seq(link(1), x))
		set(last, seq(bnf.SymbolTerminal{Name: "a"}, link(1)), seq(none), seq(y))
		list(x.Name, "a"+x.Name, "aa"+x.Name)
		c.cells = func(i int) map[byte][]parser.ParserOp {
			a := parser.OpTerminal("a")
			switch i {
			case 0:
				// y only if the first link is also the last
				r := row{c.x: ops(op(1), opX), 'a': ops(op(1), opX)}
				if last == 1 {
					r[c.y] = ops(op(1), opX)
				}
				return r
			case last:
				return row{c.x: nil, 'a': ops(a, op(1)), c.y: ops(opY)}
			}
			return row{c.x: nil, 'a': ops(a, op(i+1))}
		}
	}
	return c
}

// C02_Chain: conflicts and look-aheads that are many rules away.
func C02_Chain() {
	c := newChain()
	var table *map[int]map[byte][]parser.ParserOp
	var err error
	panicked, msg := sym.Catch(func() { table, _, err = tablegen.FromGrammar(c.g) })
	sym.Assert(!panicked, "table generation panics: "+msg)
	if panicked {
		return
	}
	sym.Assert((err != nil) == c.clash, "a chain of rules is misjudged")
	if err != nil {
		sym.Assert(table == nil, "an error comes with a table")
		sym.Reach("C02 chain rejected")
		return
	}
	sym.Reach("C02 chain accepted")
	sym.Assert(len(*table) == c.n, "the table does not have one row per rule")
	for i := 0; i < c.n; i++ {
		want, got := c.cells(i), (*table)[c.at[i]]
		sym.Assert(len(want) == len(got), "a row has the wrong look-aheads")
		for b, os := range want {
			g, ok := got[b]
			sym.Assert(ok, "a row has the wrong look-aheads")
			if os == nil && len(g) == 0 {
				continue // the empty string
			}
			if os == nil {
				// an alternative that derives the empty string
				continue
			}
			fine := len(g) == len(os)
			for k := 0; fine && k < len(os); k++ {
				fine = g[k] == os[k]
			}
			sym.Assert(fine, "a cell has the wrong operations")
		}
	}
}

// C01_Chain: the language of such grammars.
func C01_Chain() {
	c := newChain()
	table, names, err := tablegen.FromGrammar(c.g)
	if err != nil || c.clash || c.list == nil {
		return
	}
	p := parser.NewLL1Parser(*table, *names)
	for _, s := range c.list {
		_, _, err := p.Parse(s)
		sym.Assert(err == nil, "a sentence is not accepted")
		sym.Reach("C01 chain")
	}
	in := sym.Bytes("in", sym.Shard("len", 4))
	given(func() bool {
		for _, s := range c.list {
			if string(in) == string(s) {
				return false
			}
		}
		return true
	})
	for _, b := range in {
		sym.Assume(b != 'a' && b != 'q') // the kinds with more sentences than listed
	}
	_, _, err = p.Parse(in)
	sym.Assert(err != nil, "a string that is not a sentence is accepted")
}

func init() {
	reg("C02_Chain", C02_Chain)
	reg("C01_Chain", C01_Chain)
}
