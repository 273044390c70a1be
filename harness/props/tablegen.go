package props

import (
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// C02_Small: every grammar of two rules with two alternatives each, of the
// given numbers of symbols.
func C02_Small() {
	part := func(n string) string {
		if sym.Shard(n, 3) == 2 {
			return "??"
		}
		return "e"
	}
	generation(newGram(part("s1")+"|"+part("s2")+";"+part("a1")+"|"+part("a2"), 2, false))
}

// C02_Shape: generation succeeds exactly for the LL(1) grammars of a shape and
// gives the table the definition calls for.
func C02_Shape() {
	sh := shapes[sym.Shard("shape", len(shapes))]
	generation(newGram(sh.shape, sh.alphabet, false))
}

// C02_Clash: the same for shapes with many conflicts.
func C02_Clash() {
	sh := clashing[sym.Shard("shape", len(clashing))]
	generation(newGram(sh.shape, sh.alphabet, false))
}

func generation(m *gram) {
	var table *map[int]map[byte][]parser.ParserOp
	var names *map[int]string
	var err error
	s := m.sets()
	panicked, msg := sym.Catch(func() { table, names, err = tablegen.FromGrammar(m.g) })
	sym.Assert(!panicked, "table generation panics: "+msg)
	if panicked {
		return
	}
	if err != nil {
		sym.Assert(!s.ll1, "an LL(1) grammar is rejected")
		sym.Assert(table == nil && names == nil, "an error comes with a table")
		sym.Reach("C02 rejected")
		sym.Observe("rows", 0)
		return
	}
	sym.Assert(s.ll1, "a grammar with a conflict is accepted")
	rows, cells, ops := m.tableSays(s, *table)
	sym.Assert(rows, "the table does not have one row per rule")
	sym.Assert(cells, "a row has the wrong look-aheads")
	sym.Assert(ops, "a cell has the wrong operations")
	sym.Reach("C02 accepted")
	sym.Observe("rows", len(*table))
}

func init() {
	reg("C02_Shape", C02_Shape)
	reg("C02_Clash", C02_Clash)
	reg("C02_Small", C02_Small)
}
