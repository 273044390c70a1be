package props

import (
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Jobs with these harnesses report a run that exceeds its instruction limit.

// C14_Generate: generation ends on the grammars of a shape, conflicts and
// recursion of any kind included.
func C14_Generate() {
	all := append(append([]shapeOf{}, clashing...), shapes...)
	sh := all[sym.Shard("shape", len(all))]
	m := newGram(sh.shape, sh.alphabet, false)
	_, _, err := tablegen.FromGrammar(m.g)
	sym.Reach("C14 generated")
	sym.Observe("ok", err == nil)
}

// C14_Parse: a parser of an accepted grammar ends on every input of a length.
func C14_Parse() {
	all := append(append([]shapeOf{}, clashing...), shapes...)
	sh := all[sym.Shard("shape", len(all))]
	m := newGram(sh.shape, sh.alphabet, true)
	table, names, err := tablegen.FromGrammar(m.g)
	if err != nil {
		return
	}
	in := sym.Bytes("in", sym.Shard("len", 16))
	_, _, err = parser.NewLL1Parser(*table, *names).Parse(in)
	sym.Reach("C14 parsed")
	sym.Observe("ok", err == nil)
}

// C14_Small: two rules of two alternatives each, recursion of any kind.
func C14_Small() {
	part := func(n string) string {
		if sym.Shard(n, 3) == 2 {
			return "NN"
		}
		return "e"
	}
	m := newGram(part("s1")+"|"+part("s2")+";"+part("a1")+"|"+part("a2"), 2, false)
	table, names, err := tablegen.FromGrammar(m.g)
	sym.Reach("C14 generated")
	sym.Observe("ok", err == nil)
	if err != nil {
		return
	}
	m.fix()
	in := sym.Bytes("in", 3)
	_, _, err = parser.NewLL1Parser(*table, *names).Parse(in)
	sym.Reach("C14 parsed")
	sym.Observe("parsed", err == nil)
}

func init() {
	reg("C14_Generate", C14_Generate)
	reg("C14_Parse", C14_Parse)
	reg("C14_Small", C14_Small)
}
