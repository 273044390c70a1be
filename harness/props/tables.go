package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Hand-written tables. Every cell is left open and is only decided when a
// parse consults it.

// what cells may hold; nil stands for no entry
var menus = [][][]rsym{
	{ // 0: one operation
		nil, {}, {t("a")}, {t("ab")}, {r(1)}, {r(2)}, {t("b")}, {t("aba")},
	},
	{ // 1: pairs
		nil, {}, {t("a"), r(1)}, {r(1), t("b")}, {r(1), r(2)}, {r(2), r(1)}, {t("b"), t("a")},
	},
	{ // 2: any byte
		nil, {}, {t("\x00")}, {t("\xff\x00"), r(1)}, {t("\x80")}, {r(1), t("\x00")}, {t("\xc3\xa9")},
	},
	{ // 3: recursion
		nil, {}, {t("a"), r(0)}, {t("b"), r(0), t("a")}, {r(0)}, {r(0), r(1)}, {t("a")},
	},
	{ // 4: line ends
		nil, {}, {r(-2)}, {r(-2), r(1)}, {t("\r")}, {t("\n"), r(-2)}, {t("a")},
	},
	{ // 5: longer lists
		nil, {}, {t("a"), t("b"), r(1)}, {r(1), t("b"), r(2), t("a")}, {t("aba")}, {r(1), r(1), r(1), r(1), t("a")},
	},
	{ // 6: missing rows, empty terminals
		nil, {}, {r(7)}, {t(""), r(1)}, {t("a"), t("")}, {r(2), r(1)}, {t("a"), r(7)},
	},
	{ // 7: nothing is nullable
		nil, {r(1)}, {r(2)}, {t("ba")}, {t("aa"), r(1), r(1)}, {t("a")}, {r(1), r(2)},
	},
}

func t(s string) rsym { return rsym{term: true, text: s} }
func r(n int) rsym    { return rsym{rule: n} }

func op(s rsym) parser.ParserOp {
	if s.term {
		return parser.OpTerminal(s.text)
	}
	if s.rule >= 0 && s.rule < len(rowNumber) {
		return parser.OpNonTerminal(rowNumber[s.rule])
	}
	return parser.OpNonTerminal(s.rule)
}

// rows need not be numbered one after the other
var rowNumber = []int{0, 3, 70000}

func renumber(n *rnode) {
	if n.typ > 0 {
		n.typ = rowNumber[n.typ]
	}
	for _, k := range n.kids {
		renumber(k)
	}
}

// C04_Table: a parse does what the table says.
func C04_Table() {
	menu := menus[sym.Shard("menu", len(menus))]
	ln := sym.Shard("len", 16)
	rows := sym.Shard("rows", 4)
	k := sym.Byte("key")
	sym.Assume(k != 0 && k != 'a')
	keys := []byte{0, 'a', k}
	ops := make([][]parser.ParserOp, len(menu))
	for i, m := range menu {
		ops[i] = []parser.ParserOp{}
		for _, s := range m {
			ops[i] = append(ops[i], op(s))
		}
	}
	table := map[int]map[byte][]parser.ParserOp{}
	pick := make([][]int, rows)
	names := map[int]string{}
	for row := 0; row < rows; row++ {
		table[rowNumber[row]] = map[byte][]parser.ParserOp{}
		names[rowNumber[row]] = "row" + strconv.Itoa(row)
		for c, key := range keys {
			i := sym.Int("cell"+strconv.Itoa(row)+strconv.Itoa(c), 0, len(menu)-1)
			pick[row] = append(pick[row], i)
			cell := ops[i]
			sym.Merge(func() {
				if i != 0 {
					table[rowNumber[row]][key] = cell
				}
			})
		}
	}
	in := sym.Bytes("in", ln)
	x := &machine{in: in, budget: 6 + 4*ln}
	x.hasRow = func(r int) bool { return r < rows }
	x.cell = func(r int, look byte) ([]rsym, bool) {
		for c, key := range keys {
			if look == key {
				i := pick[r][c]
				if i == 0 {
					return nil, false
				}
				return menu[i], true
			}
		}
		return nil, false
	}
	x.run()
	sym.Assume(x.fail != refBudget)
	var root cst.Node
	var nm *map[int]string
	var err error
	p := parser.NewLL1Parser(table, names)
	panicked, msg := sym.Catch(func() { root, nm, err = p.Parse(in) })
	sym.Assert(!panicked, "parsing panics: "+msg)
	if panicked {
		return
	}
	if x.fail != refOK {
		sym.Assert(err != nil, "accepted what the table does not")
		sym.Assert(root == nil && nm == nil, "an error comes with a result")
		sym.Reach("C04 rejected")
	} else {
		sym.Assert(err == nil, "rejected what the table accepts")
		if err == nil {
			renumber(x.root)
			sym.Assert(mirrors(root, x.root), "the tree does not mirror the operations")
			sym.Assert(nm != nil, "no naming map")
		}
		sym.Reach("C04 accepted")
	}
	sym.Observe("accepted", err == nil)
}

func init() {
	reg("C04_Table", C04_Table)
}
