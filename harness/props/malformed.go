package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Grammar values of any kind. A shape gives the number of symbols of every
// alternative; '-' is a rule without alternatives.
var anyShapes = []string{
	"",
	"1",
	"0",
	"-",
	"2",
	"1|0",
	"1|1",
	"3",
	"1;1",
	"2;0",
	"2;-",
	"1|2;1",
	"2|1;2",
	"1;1;1",
	"1;2|0;1",
	"1;1;0|1;1",
	"1;1|1;1|1",
	"2;1;2",
}

type oddSymbol struct{}

func (oddSymbol) Type() int      { return 7 }
func (oddSymbol) String() string { return "odd" }

const (
	symNothing = iota
	symA
	symAB
	symRule0
	symRule1
	symRule2
	symEmpty
	symNUL
	symNULa
	symUndefined
	symNoName
	symOdd // from here on: nothing is said about these but that they do no harm
	symNil
	symPtr
	symKinds
)

// C09_Any: generation returns normally and malformed grammars are errors.
func C09_Any() {
	shape := anyShapes[sym.Shard("shape", len(anyShapes))]
	kinds := []bnf.Symbol{
		bnf.SymbolNothing{},
		bnf.SymbolTerminal{Name: "a"},
		bnf.SymbolTerminal{Name: "b\x00"},
		bnf.SymbolNonTerminal{Name: "S"},
		bnf.SymbolNonTerminal{Name: "A"},
		bnf.SymbolNonTerminal{Name: "B"},
		bnf.SymbolTerminal{Name: ""},
		bnf.SymbolTerminal{Name: "\x00"},
		bnf.SymbolTerminal{Name: "\x00a"},
		bnf.SymbolNonTerminal{Name: "Undefined"},
		bnf.SymbolNonTerminal{Name: ""},
		oddSymbol{},
		nil,
		&bnf.SymbolTerminal{Name: "a"},
	}
	heads := []string{"S", "A", "B", ""}
	var g bnf.Grammar
	malformed := shape == ""
	var defined, used [4]bool
	var hs []int
	hole := 0
	if shape != "" {
		for i, text := range split(shape, ';') {
			h := sym.Int("head"+strconv.Itoa(i), 0, len(heads)-1)
			rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: heads[h]}}
			sym.Merge(func() {
				if defined[h] {
					malformed = true
				}
				defined[h] = true
			})
			hs = append(hs, h)
			if text != "-" {
				for _, alt := range split(text, '|') {
					n := int(alt[0] - '0')
					var seq bnf.Sequence
					for k := 0; k < n; k++ {
						c := sym.Int("s"+strconv.Itoa(hole), 0, symKinds-1)
						hole++
						seq.Symbols = append(seq.Symbols, kinds[c])
						sym.Merge(func() {
							switch c {
							case symNothing:
								malformed = malformed || n > 1
							case symEmpty, symNUL, symNULa, symUndefined:
								malformed = true
							case symRule0:
								used[0] = true
							case symRule1:
								used[1] = true
							case symRule2:
								used[2] = true
							case symNoName:
								used[3] = true
							}
						})
					}
					if n == 0 {
						malformed = true
					}
					rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
				}
			}
			g.Rules = append(g.Rules, rule)
		}
	}
	sym.Merge(func() {
		for i := range used {
			if used[i] && !defined[i] {
				malformed = true
			}
		}
	})
	sym.Freeze("grammar", g)
	var table *map[int]map[byte][]parser.ParserOp
	var names *map[int]string
	var err error
	panicked, msg := sym.Catch(func() { table, names, err = tablegen.FromGrammar(g) })
	sym.Assert(!panicked, "table generation panics: "+msg)
	sym.Assert(sym.Prints() == 0, "table generation prints")
	if panicked {
		return
	}
	if err == nil {
		sym.Assert(!malformed, "a malformed grammar is accepted")
		sym.Assert(table != nil && names != nil, "no error and no table")
		sym.Reach("C09 accepted")
	} else {
		sym.Assert(table == nil && names == nil, "an error comes with a table")
		sym.Reach("C09 rejected")
	}
	sym.Observe("ok", err == nil)
}

func init() {
	reg("C09_Any", C09_Any)
}
