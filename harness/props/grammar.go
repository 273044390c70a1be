package props

import (
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// Grammars with some symbols left to the solver, and what the definition of
// LL(1) says about them, computed without any of the code under test.
//
// A shape is written as rules separated by ';', alternatives by '|' and
// symbols as single characters:
//
//	S A B C D E F   the rule of that name (S is the first rule, in this order)
//	a b c d         the terminal consisting of that letter
//	x y z           the terminals "ab", "ba" and "cac"
//	h i             the terminals "\xff" and "\x80\x00"
//	*               a terminal of one arbitrary byte other than NUL and the
//	                first bytes of the other terminals
//	-               the empty string
//	?               any terminal of the alphabet or any rule
//	N               any rule
//	T               any terminal of the alphabet
//	e               the empty string, any terminal, or any rule
//	t               the empty string or any terminal
//	n               the empty string or any rule
//	[...]           any of the symbols in brackets
//
// The alphabet is the letters a..  up to the given number of terminals.

const ruleLetters = "SABCDEFGHIJK"

const (
	nullBit = uint64(1) << 63 // derives the empty string
	eosBit  = uint64(1) << 62 // end of input
)

type gram struct {
	g     bnf.Grammar
	rules [][][]int // symbol codes
	terms []string  // code 1+i
	lead  []byte    // look-ahead bytes, bit i of a set
	leadB []uint64  // bit of the first byte of each terminal
	nr    int
	star  int // code of the arbitrary terminal, 0 if there is none
}

func (m *gram) isRule(code int) bool { return code > len(m.terms) }
func (m *gram) ruleOf(code int) int  { return code - len(m.terms) - 1 }

func (m *gram) symbol(code int) bnf.Symbol {
	if code == 0 {
		return bnf.SymbolNothing{}
	}
	if m.isRule(code) {
		return bnf.SymbolNonTerminal{Name: m.name(m.ruleOf(code))}
	}
	return bnf.SymbolTerminal{Name: m.terms[code-1]}
}

// nameStyle chooses other names for the rules of the grammars of a run.
var nameStyle int

func (m *gram) name(r int) string {
	switch nameStyle {
	case 1:
		return "100%" + ruleLetters[r:r+1] + " %d%s%!v(%c) {{\x00<\xff>}}"
	case 2:
		return strings.Repeat("a long name ", 30) + ruleLetters[r:r+1]
	case 3:
		return strings.Repeat("-", r)
	}
	if r < len(ruleLetters) {
		return ruleLetters[r:r+1] + "-rule"
	}
	return "R" + strconv.Itoa(r) + "-rule"
}

// op is what the table holds for a symbol
func (m *gram) op(code int) parser.ParserOp {
	if m.isRule(code) {
		return parser.OpNonTerminal(m.ruleOf(code))
	}
	if code == 0 {
		return nil
	}
	return parser.OpTerminal(m.terms[code-1])
}

func (m *gram) codes() int { return 1 + len(m.terms) + m.nr }

func split(s string, c byte) []string {
	var r []string
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			r = append(r, s[start:i])
			start = i + 1
		}
	}
	return append(r, s[start:])
}

// newGram makes the grammar of a shape; alphabet is the number of one-letter
// terminals the open symbols range over. An eager grammar has every open symbol
// decided (each way on its own path) before it is used.
func newGram(shape string, alphabet int, eager bool) *gram {
	rules := split(shape, ';')
	m := &gram{nr: len(rules)}
	m.terms = []string{"a", "b", "c", "d", "ab", "ba", "cac", "\xff", "\x80\x00"}
	m.setLead()
	for i := 0; i < len(shape); i++ {
		if shape[i] == '*' && m.star == 0 {
			any := sym.Byte("any")
			sym.Assume(any != 0 && (any < 'a' || any > 'd') && any != 0xff && any != 0x80)
			m.star = len(m.terms) + 1
			m.leadB = append(m.leadB, 1<<uint(len(m.lead)))
			m.lead = append(m.lead, any)
			m.terms = append(m.terms, string([]byte{any}))
		}
	}
	all := make([]bnf.Symbol, m.codes())
	for c := range all {
		all[c] = m.symbol(c)
	}
	hole := 0
	pick := func(from []int) (int, bnf.Symbol) {
		i := sym.Int("h"+strconv.Itoa(hole), 0, len(from)-1)
		hole++
		if m.star != 0 || eager {
			i = sym.Concrete(i)
		}
		ss := make([]bnf.Symbol, len(from))
		for k, c := range from {
			ss[k] = all[c]
		}
		return from[i], ss[i]
	}
	var ts, ns []int
	for i := 0; i < alphabet; i++ {
		ts = append(ts, 1+i)
	}
	for i := 0; i < m.nr; i++ {
		ns = append(ns, len(m.terms)+1+i)
	}
	cat := func(xs ...[]int) []int {
		var r []int
		for _, x := range xs {
			r = append(r, x...)
		}
		return r
	}
	for r, text := range rules {
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: m.name(r)}}
		var codes [][]int
		for _, alt := range split(text, '|') {
			var seq bnf.Sequence
			var cs []int
			for i := 0; i < len(alt); i++ {
				var code int
				var s bnf.Symbol
				switch c := alt[i]; c {
				case '[':
					var set []int
					for i++; alt[i] != ']'; i++ {
						set = append(set, m.codeOf(alt[i]))
					}
					code, s = pick(set)
				case '?':
					code, s = pick(cat(ts, ns))
				case 'N':
					code, s = pick(ns)
				case 'T':
					code, s = pick(ts)
				case 'e':
					code, s = pick(cat([]int{0}, ts, ns))
				case 't':
					code, s = pick(cat([]int{0}, ts))
				case 'n':
					code, s = pick(cat([]int{0}, ns))
				default:
					code = m.codeOf(c)
					s = all[code]
				}
				cs = append(cs, code)
				seq.Symbols = append(seq.Symbols, s)
			}
			codes = append(codes, cs)
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		m.rules = append(m.rules, codes)
		m.g.Rules = append(m.g.Rules, rule)
	}
	return m
}

func (m *gram) codeOf(c byte) int {
	switch {
	case c == '-':
		return 0
	case c == 'x':
		return 5
	case c == 'y':
		return 6
	case c == 'z':
		return 7
	case c == 'h':
		return 8
	case c == 'i':
		return 9
	case c == '*':
		return m.star
	case c >= 'a' && c <= 'd':
		return 1 + int(c-'a')
	}
	for r := 0; r < len(ruleLetters); r++ {
		if ruleLetters[r] == c {
			return len(m.terms) + 1 + r
		}
	}
	panic("bad shape symbol " + string(c))
}

func (m *gram) setLead() {
	m.lead, m.leadB = nil, nil
	for _, t := range m.terms {
		k := -1
		for i, b := range m.lead {
			if b == t[0] {
				k = i
			}
		}
		if k < 0 {
			k = len(m.lead)
			m.lead = append(m.lead, t[0])
		}
		m.leadB = append(m.leadB, 1<<uint(k))
	}
}

// sets is what the textbook definitions give for a grammar. All of it is
// computed without branches on the open symbols.
type sets struct {
	first  []uint64   // by code; nullBit when nullable
	follow []uint64   // by rule
	alt    [][]uint64 // FIRST of each alternative
	sel    [][]uint64 // look-aheads that select each alternative
	ll1    bool
}

func allOnesIf(bit uint64, set uint64) uint64 { return -(set / bit & 1) }

// seqFirst is FIRST of a sequence of symbols
func (s *sets) seqFirst(cs []int) uint64 {
	var res uint64
	live := ^uint64(0)
	for _, c := range cs {
		f := s.first[c]
		res |= f &^ nullBit & live
		live &= allOnesIf(nullBit, f)
	}
	return res | nullBit&live
}

func (m *gram) sets() *sets {
	s := &sets{first: make([]uint64, m.codes()), follow: make([]uint64, m.nr)}
	s.first[0] = nullBit
	for i := range m.terms {
		s.first[1+i] = m.leadB[i]
	}
	base := len(m.terms) + 1
	for k := 0; k < 2*m.nr+1; k++ {
		for r, alts := range m.rules {
			f := s.first[base+r]
			for _, alt := range alts {
				f |= s.seqFirst(alt)
			}
			s.first[base+r] = f
		}
	}
	s.follow[0] = eosBit
	for k := 0; k < m.nr+1; k++ {
		for r, alts := range m.rules {
			for _, alt := range alts {
				// what may come after each symbol of the alternative
				after := s.follow[r]
				for i := len(alt) - 1; i >= 0; i-- {
					c := alt[i]
					for q := 0; q < m.nr; q++ {
						s.follow[q] |= after & -eqBit(c, base+q)
					}
					f := s.first[c]
					after = f&^nullBit | after&allOnesIf(nullBit, f)
				}
			}
		}
	}
	var clash uint64
	for r, alts := range m.rules {
		var fs, ss []uint64
		var seen uint64
		for _, alt := range alts {
			f := s.seqFirst(alt)
			fs = append(fs, f)
			l := f&^nullBit | s.follow[r]&allOnesIf(nullBit, f)
			ss = append(ss, l)
			clash |= seen & l
			seen |= l
		}
		s.alt = append(s.alt, fs)
		s.sel = append(s.sel, ss)
	}
	s.ll1 = clash == 0
	return s
}

func eqBit(a, b int) uint64 {
	// 1 if equal; codes are small
	d := uint64(a ^ b)
	return (d - 1) >> 63 & 1
}

// tableSays tells whether a generated table is the one the sets call for.
func (m *gram) tableSays(s *sets, table map[int]map[byte][]parser.ParserOp) (rows, cells, ops bool) {
	opOf := make([]parser.ParserOp, m.codes())
	for c := range opOf {
		opOf[c] = m.op(c)
	}
	rows, cells, ops = true, true, true
	sym.Merge(func() {
		if len(table) != m.nr {
			rows = false
		}
		for r, alts := range m.rules {
			row, ok := table[r]
			if !ok {
				rows = false
				continue
			}
			used := 0
			for k := 0; k <= len(m.lead); k++ {
				bit, key := eosBit, byte(0)
				if k < len(m.lead) {
					bit, key = uint64(1)<<uint(k), m.lead[k]
				}
				got, has := row[key]
				want := false
				for i, alt := range alts {
					if s.sel[r][i]&bit == 0 {
						continue
					}
					want = true
					if s.alt[r][i]&bit == 0 && len(got) == 0 {
						continue // selected because it derives nothing
					}
					if alt[0] == 0 {
						if len(got) != 0 {
							ops = false
						}
						continue
					}
					if len(got) != len(alt) {
						ops = false
						continue
					}
					for j, c := range alt {
						if got[j] != opOf[c] {
							ops = false
						}
					}
				}
				if want != has {
					cells = false
				}
				if has {
					used++
				}
			}
			if len(row) != used {
				cells = false
			}
		}
	})
	return
}

// fix makes every open symbol concrete on this path.
func (m *gram) fix() {
	for r, alts := range m.rules {
		for k, alt := range alts {
			for i, c := range alt {
				c = sym.Concrete(c)
				m.rules[r][k][i] = c
				m.g.Rules[r].Tail.Sequences[k].Symbols[i] = m.symbol(c)
			}
		}
	}
}

// ends computes, for every symbol and start position, the set of positions
// (as a bit mask) where a derivation of that symbol may end in the input.
func (m *gram) ends(in []byte) [][]uint16 {
	n := len(in)
	e := make([][]uint16, m.codes())
	for c := range e {
		e[c] = make([]uint16, n+1)
	}
	base := len(m.terms) + 1
	for p := 0; p <= n; p++ {
		e[0][p] = 1 << uint(p)
		for i, t := range m.terms {
			if p+len(t) > n {
				continue
			}
			var bad byte
			for k := 0; k < len(t); k++ {
				bad |= t[k] ^ in[p+k]
			}
			e[1+i][p] = uint16(zero8(bad)) << uint(p+len(t))
		}
	}
	for p := n; p >= 0; p-- {
		for k := 0; k < m.nr+1; k++ {
			for r, alts := range m.rules {
				for _, alt := range alts {
					e[base+r][p] |= seqEnds(e, alt, p, n)
				}
			}
		}
	}
	return e
}

// zero8 is 1 if b is 0
func zero8(b byte) byte { return byte((uint16(b) - 1) >> 15) }

func seqEnds(e [][]uint16, cs []int, p, n int) uint16 {
	cur := uint16(1) << uint(p)
	for _, c := range cs {
		var next uint16
		for q := p; q <= n; q++ {
			next |= e[c][q] & -(cur >> uint(q) & 1)
		}
		cur = next
	}
	return cur
}

// sentence tells whether the grammar derives the input (0 or 1).
func (m *gram) sentence(in []byte) uint16 {
	e := m.ends(in)
	return e[len(m.terms)+1][0] >> uint(len(in)) & 1
}

// viable is the set of lengths p (as a bit mask) such that the first p bytes
// of the input begin a sentence. Every rule must derive something.
func (m *gram) viable(in []byte) uint16 {
	n := len(in)
	e := m.ends(in)
	base := len(m.terms) + 1
	v := make([][]uint16, m.codes()) // from start position: viable up to
	for c := range v {
		v[c] = make([]uint16, n+1)
	}
	for p := 0; p <= n; p++ {
		v[0][p] = 1 << uint(p)
		for i, t := range m.terms {
			bit := byte(1)
			for k := 0; ; k++ {
				v[1+i][p] |= uint16(bit) << uint(p+k)
				if k == len(t) || p+k == n {
					break
				}
				bit &= zero8(t[k] ^ in[p+k])
			}
		}
	}
	for p := n; p >= 0; p-- {
		for k := 0; k < m.nr+1; k++ {
			for r, alts := range m.rules {
				for _, alt := range alts {
					cur := uint16(1) << uint(p)
					for _, c := range alt {
						var next uint16
						for q := p; q <= n; q++ {
							on := -(cur >> uint(q) & 1)
							v[base+r][p] |= v[c][q] & on
							next |= e[c][q] & on
						}
						cur = next
					}
					v[base+r][p] |= cur
				}
			}
		}
	}
	return v[base][0]
}

// useful tells whether every rule derives something and is reachable. The
// grammar must be concrete.
func (m *gram) useful() bool {
	base := len(m.terms) + 1
	prod := make([]bool, m.codes())
	for c := 0; c < base; c++ {
		prod[c] = true
	}
	reach := make([]bool, m.codes())
	reach[base] = true
	for k := 0; k <= m.nr; k++ {
		for r, alts := range m.rules {
			for _, alt := range alts {
				all := true
				for _, c := range alt {
					all = all && prod[c]
					if reach[base+r] {
						reach[c] = true
					}
				}
				if all {
					prod[base+r] = true
				}
			}
		}
	}
	for r := 0; r < m.nr; r++ {
		if !prod[base+r] || !reach[base+r] {
			return false
		}
	}
	return true
}
