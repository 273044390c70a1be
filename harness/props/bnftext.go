package props

import (
	"strconv"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

// bnfParser is the parser of the bundled BNF grammar.
func bnfParser() parser.LL1Parser {
	table, names, err := tablegen.FromGrammar(bnf.SelfGrammar())
	sym.Assert(err == nil, "no parser for the bundled BNF grammar")
	sym.Assume(err == nil)
	return parser.NewLL1Parser(*table, *names)
}

func sameGrammar(a, b bnf.Grammar) bool {
	if len(a.Rules) != len(b.Rules) {
		return false
	}
	for i, r := range a.Rules {
		q := b.Rules[i]
		if r.Head != q.Head || len(r.Tail.Sequences) != len(q.Tail.Sequences) {
			return false
		}
		for k, s := range r.Tail.Sequences {
			t := q.Tail.Sequences[k]
			if len(s.Symbols) != len(t.Symbols) {
				return false
			}
			for j := range s.Symbols {
				if s.Symbols[j] != t.Symbols[j] {
					return false
				}
			}
		}
	}
	return true
}

// reader is a hand-written recogniser for the documented syntax.
type bnfReader struct {
	text []byte
	at   int
	bad  bool
	g    bnf.Grammar
}

func (r *bnfReader) is(c byte) bool { return r.at < len(r.text) && r.text[r.at] == c }

func (r *bnfReader) take(s string) {
	for i := 0; i < len(s) && !r.bad; i++ {
		if !r.is(s[i]) {
			r.bad = true
			return
		}
		r.at++
	}
}

func (r *bnfReader) spaces() {
	for r.is(' ') {
		r.at++
	}
}

func isLetter(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// inLiteral: what stands for itself in either kind of literal
func inLiteral(c byte) bool {
	return c >= ' ' && c <= '~' && c != '"' && c != '\'' && c != '\\'
}

func (r *bnfReader) name() string {
	r.take("<")
	from := r.at
	for !r.bad && r.at < len(r.text) {
		c := r.text[r.at]
		if !(isLetter(c) || r.at > from && (isDigit(c) || c == '-')) {
			break
		}
		r.at++
	}
	if r.at == from {
		r.bad = true
	}
	if r.bad {
		return ""
	}
	n := string(r.text[from:r.at])
	r.take(">")
	return n
}

func (r *bnfReader) literal(quote byte) bnf.Symbol {
	r.at++
	var b []byte
	for {
		if r.at >= len(r.text) {
			r.bad = true
			return nil
		}
		c := r.text[r.at]
		r.at++
		switch {
		case c == quote:
			if len(b) == 0 {
				return bnf.SymbolNothing{}
			}
			return bnf.SymbolTerminal{Name: string(b)}
		case c == '\\':
			if r.at >= len(r.text) {
				r.bad = true
				return nil
			}
			e := r.text[r.at]
			r.at++
			switch e {
			case 't':
				b = append(b, '\t')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case '"', '\\':
				b = append(b, e)
			default:
				r.bad = true
				return nil
			}
		case inLiteral(c) || c == '"' || c == '\'':
			b = append(b, c)
		default:
			r.bad = true
			return nil
		}
	}
}

func (r *bnfReader) list() bnf.Sequence {
	var s bnf.Sequence
	for !r.bad {
		switch {
		case r.is('"'):
			s.Symbols = append(s.Symbols, r.literal('"'))
		case r.is('\''):
			s.Symbols = append(s.Symbols, r.literal('\''))
		case r.is('<'):
			s.Symbols = append(s.Symbols, bnf.SymbolNonTerminal{Name: r.name()})
		default:
			if len(s.Symbols) == 0 {
				r.bad = true
			}
			return s
		}
		r.spaces()
	}
	return s
}

func (r *bnfReader) rule() {
	var rule bnf.Rule
	rule.Head.Name = r.name()
	r.spaces()
	r.take("::=")
	r.spaces()
	for !r.bad {
		rule.Tail.Sequences = append(rule.Tail.Sequences, r.list())
		if !r.is('|') {
			break
		}
		r.at++
		r.spaces()
	}
	r.g.Rules = append(r.g.Rules, rule)
}

func (r *bnfReader) read() {
	r.spaces()
	r.rule()
	for !r.bad && r.at < len(r.text) {
		if r.is('\r') {
			r.at++
		}
		r.take("\n")
		r.spaces()
		if r.is('<') {
			r.rule()
		}
	}
}

func understood(text []byte) {
	p := bnfParser()
	root, _, err := p.Parse(text)
	r := &bnfReader{text: text}
	r.read()
	if err != nil {
		sym.Assert(r.bad, "a BNF text is rejected")
		sym.Reach("C08 rejected")
		sym.Observe("rules", 0)
		return
	}
	sym.Assert(!r.bad, "accepted text that is not BNF")
	sym.Assume(!r.bad)
	g, err := fromcst.SelfCSTtoASTBindings().ToAST(root, string(text))
	sym.Assert(err == nil && g != nil, "an accepted text is not converted")
	if err != nil || g == nil {
		return
	}
	sym.Assert(sameGrammar(*g, r.g), "the grammar is not what the text says")
	sym.Reach("C08 accepted")
	sym.Observe("rules", len(g.Rules))
}

// C08_Free: every text of a length.
func C08_Free() { understood(sym.Bytes("x", sym.Shard("len", 32))) }

// texts with places (~) for arbitrary bytes
var textShapes = []string{
	"<a>::=\"~~~~~\"",                       // 0
	"<a>::='~~~~~'",                         // 1
	"<a> ::= <b~~~> | ~~~\n<b-1> ::= \"x\"", // 2
	"<a>::=\"x\"~~~~<b>::='y'",              // 3
	" <a> ::= \"x\" ~~~~ \"y\"\n",           // 4
	"<a~~~>::=<~~c>\r\n\n  <q>::=\"\"",      // 5
	"<a>::=\"x\" | '\\\\~' ~ \"\\~\" | <z>", // 6
	"<a>~~~~\"x\"",                          // 7
	"<a>::=\"\"|'q'\r\n~~~~",                // 8
	"~~<a>::=\"x\"\n ~~<b>::=<a>",           // 9
	"<a>::=\"~\"'~'\"~\"'~'",                // 10
	"<abcdefghij-klm-9~> ::= \"a long terminal ~\" <abcdefghij-klm-9~> | '' ~ \n", // 11
}

// C08_Text: texts with arbitrary parts.
func C08_Text() {
	text := []byte(textShapes[sym.Shard("text", len(textShapes))])
	for i, c := range text {
		if c == '~' {
			text[i] = sym.Byte("x" + strconv.Itoa(i))
		}
	}
	understood(text)
}

// given assumes f, without a path for each way it can hold.
func given(f func() bool) {
	var ok bool
	sym.Merge(func() { ok = f() })
	sym.Assume(ok)
}

// nameOf is an arbitrary rule name of a length.
func nameOf(label string, n int) string {
	b := sym.Bytes(label, n)
	for i, c := range b {
		given(func() bool { return isLetter(c) || i > 0 && (isDigit(c) || c == '-') })
	}
	return string(b)
}

// textOf is an arbitrary terminal of a length.
func textOf(label string, n int) string {
	b := sym.Bytes(label, n)
	for _, c := range b {
		given(func() bool { return c >= ' ' && c <= '~' || c == '\t' || c == '\n' || c == '\r' })
	}
	return string(b)
}

// printed shapes: rules ';', alternatives '|', then '-' for nothing, a digit
// for a terminal of so many arbitrary bytes, A and B for the rules
var printShapes = []string{
	"1", "2", "3", "4",
	"11", "22", "1|1", "12|-",
	"A1B|-;B|2|A", "-1-|--;1A1",
	"1;1;1;-", "A;B;S",
	"5", "1A1|B1;-|1;A",
	"S|-|S1;B;-S-S", "AS|BA;B|S;SSA|AAB",
}

// C07_RoundTrip: printing and reading back.
func C07_RoundTrip() {
	p := bnfParser()
	shape := printShapes[sym.Shard("shape", len(printShapes))]
	rules := split(shape, ';')
	nl := sym.Shard("name", 8)
	heads := []string{"S", "A", "B"}
	for i := range heads {
		heads[i] = nameOf("name"+strconv.Itoa(i), nl)
	}
	var g bnf.Grammar
	for i, text := range rules {
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: heads[i%3]}}
		for k, alt := range split(text, '|') {
			var seq bnf.Sequence
			for j := 0; j < len(alt); j++ {
				var s bnf.Symbol
				switch c := alt[j]; {
				case c == '-':
					s = bnf.SymbolNothing{}
				case c == 'S':
					s = bnf.SymbolNonTerminal{Name: heads[0]}
				case c == 'A':
					s = bnf.SymbolNonTerminal{Name: heads[1]}
				case c == 'B':
					s = bnf.SymbolNonTerminal{Name: heads[2]}
				default:
					s = bnf.SymbolTerminal{Name: textOf("t"+strconv.Itoa(i)+strconv.Itoa(k)+strconv.Itoa(j), int(c-'0'))}
				}
				seq.Symbols = append(seq.Symbols, s)
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		g.Rules = append(g.Rules, rule)
	}
	roundTrip(p, g)
}

// C07_Self: the bundled grammar itself.
func C07_Self() { roundTrip(bnfParser(), bnf.SelfGrammar()) }

func roundTrip(p parser.LL1Parser, g bnf.Grammar) {
	sym.Freeze("grammar", g)
	text := g.String()
	root, _, err := p.Parse(text)
	sym.Assert(err == nil, "the printed grammar is not BNF")
	if err != nil {
		return
	}
	got, err := fromcst.SelfCSTtoASTBindings().ToAST(root, text)
	sym.Assert(err == nil && got != nil, "the printed grammar is not converted")
	if err != nil || got == nil {
		return
	}
	sym.Assert(sameGrammar(g, *got), "the grammar read back is another one")
	sym.Assert(got.String() == text, "the grammar read back prints differently")
	sym.Reach("C07 read back")
	sym.Observe("text", text)
}

func init() {
	reg("C07_RoundTrip", C07_RoundTrip)
	reg("C07_Self", C07_Self)
	reg("C08_Free", C08_Free)
	reg("C08_Text", C08_Text)
}
