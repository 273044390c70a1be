import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":observe or [],"hook_needed":hook}})
TG="pkg/bnf/tablegen/tablegen.go"; PA="pkg/parser/parser.go"; FC="pkg/bnf/fromcst/fromcst.go"; AST="pkg/bnf/ast.go"; SG="pkg/bnf/selfgrammar.go"; BS="pkg/bnf/tablegen/byteset/byteset.go"; CST="pkg/cst/cst.go"
def m(n,w): return {"name":n,"where":w}
p("C01","A generated parser accepts exactly the language of its grammar",
 "For every grammar the table generator accepts, the parser built from the generated table accepts a byte string if and only if the grammar derives exactly that string, starting from its first rule. In particular nullable symbols, chains of nullable symbols, multi-byte terminals, bytes of any value (NUL and bytes >= 128 included) and trailing input are all decided as the grammar says.",
 ["inputs","programs"],"all grammars for which a table is produced, all byte strings",
 "Tests fix four grammars and a dozen sentences; they never vary the grammar, never use a nullable symbol followed by another nullable symbol, and never feed a NUL or a non-ASCII byte.",
 [TG,PA],[m("FIRST/FOLLOW fixpoints and row construction","tablegen.go findFirsts/findFollows/makeTableRow"),m("stack machine","parser.go realParser.parse")],
 observe=["tablegen.FromGrammar","LL1Parser.Parse"])
p("C02","Table generation succeeds exactly for LL(1) grammars",
 "For every well-formed grammar, table generation returns a table if and only if no two alternatives of a rule can be selected by the same look-ahead byte (no FIRST/FIRST and no FIRST/FOLLOW conflict), whatever the order in which rules and alternatives are written. A grammar with a conflict, including every left-recursive one that can derive a sentence, is reported as an error and yields no table; an accepted grammar's table holds for each rule and look-ahead exactly the operations of the one alternative the look-ahead selects (an alternative selected because it derives the empty string may be represented by no operations).",
 ["programs"],"all well-formed grammars, all orders of alternatives",
 "Tests generate tables for four LL(1) grammars only; the single negative test (left recursion) is not among the reliable ones, and no test permutes alternatives or has an empty alternative before a conflicting one.",
 [TG,BS],[m("FIRST/FOLLOW fixpoints","tablegen.go findFirsts, findFollows"),m("cell construction and conflict detection","tablegen.go makeTableRow")],
 observe=["tablegen.FromGrammar"])
p("C03","The parse tree is a faithful derivation of the whole input",
 "Whenever a generated parser accepts, the root of the returned tree is the first rule and spans the whole input, every node's children lie inside it, adjacent and in order, and each inner node's children spell one alternative of its rule (or the single empty marker when the rule matched the empty string). Every leaf for a terminal spans bytes equal to that terminal's text, so that the leaves, read left to right, reproduce the input byte for byte.",
 ["inputs","programs"],"all grammars with a table, all accepted byte strings",
 "Reference dumps exist for six sentences of three tiny grammars, and the comparison helper ignores length differences; spans and child order for other shapes are untested.",
 [PA,CST],[m("reduce step building nodes from the production stack","parser.go processFunction"),m("per-character positions","parser.go processChar, processTerminal")],
 observe=["LL1Parser.Parse","cst.Node"])
p("C04","The parser executes hand-written tables exactly as written",
 "For every parsing table built by hand from terminal and non-terminal operations, parsing accepts a source if and only if the table-driven leftmost derivation from row 0 consumes exactly the whole source, choosing each row entry by the next source byte (byte 0 standing for the end of the source), and the tree mirrors the operations executed. A missing row, a missing entry, a terminal mismatch at any byte, running out of input inside a terminal or leftover input gives an error with no tree and no naming map, never a panic; the end of the source is never confused with a NUL byte in it.",
 ["inputs","programs"],"all tables over terminal and non-terminal operations whose derivation terminates, all byte strings",
 "One test runs one hand-written table on one sentence; absent rows, gaps, empty terminals, end of input inside a terminal and NUL bytes are never tried.",
 [PA],[m("operation dispatch","parser.go realParser.parse"),m("scanner look-ahead","parser.go ll1parserScanner.peek"),m("end of input check","parser.go processEOS")],
 observe=["parser.NewLL1Parser","LL1Parser.Parse"])
p("C05","Parsing is repeatable, re-entrant and leaves everything it was given alone",
 "Parsing never modifies the table, the names or the source it was given, nor anything returned by an earlier parse, so one parser gives equal results for equal sources whatever was parsed before, by however many callers, sequentially or concurrently. What a caller does with a returned naming map does not change the parser or later results.",
 ["histories","schedules","inputs"],"all sequences and interleavings of Parse calls on one parser (and on parsers sharing a table), all sources",
 "Every test parses each input once from a single goroutine with a freshly built parser and never looks at the table, names or source afterwards.",
 [PA],[m("per-call parser state","parser.go ll1parser_t.Parse, realParser"),m("naming map construction","parser.go processEOS")],
 state=[{"name":"table, names","meaning":"shared by all calls on one parser","where":"parser.go ll1parser_t"}],
 observe=["LL1Parser.Parse","go test -race"])
p("C06","Every supported source form is read completely and equivalently",
 "Parsing the same bytes given as a string, a byte slice, a bytes.Buffer (from its current read position) or any io.Reader gives the same result, however the reader splits its data into reads. A reader's failure is returned as an error, and a nil or unsupported source is an error rather than a panic or an empty parse.",
 ["inputs","fault_sequences"],"all byte strings, all source kinds, all ways a reader may chunk, stall with empty reads or fail",
 "All tests pass strings; no other source kind is exercised, nor any reader fault.",
 [PA],[m("source normalisation","parser.go readSource")],observe=["LL1Parser.Parse"])
p("C07","A grammar printed as BNF text reads back as the same grammar",
 "For every grammar with at least one rule, in which every rule has at least one alternative and every alternative at least one symbol, whose rule names follow the BNF name syntax and whose terminals are non-empty strings over printable ASCII, tab, newline and carriage return, printing the grammar and reading the text back (parse with the bundled BNF grammar, convert to a grammar) yields an equal grammar: same rules in the same order, same alternatives, same symbols, same terminal bytes. Quotes, backslashes and control characters in terminals survive in any combination.",
 ["inputs","programs"],"all grammars of that class",
 "No test prints a grammar; one example program checks one fixed grammar outside the test suite.",
 [AST,FC,SG,PA,TG],[m("printing and escaping","ast.go String methods"),m("literal decoding","fromcst.go parseTerminalName, parseEscape")],
 observe=["bnf.Grammar.String","fromcst ToAST"])
p("C08","BNF text is accepted and understood exactly as documented",
 "The bundled BNF parser accepts a text if and only if it follows the documented BNF syntax (one rule per line, optional spaces where documented, blank lines after the first rule, LF or CRLF line ends, single- or double-quoted literals with the documented escapes). The grammar converted from an accepted text has exactly the rules, alternatives, symbols and unescaped literals the text states, in textual order, an empty literal standing for the empty string.",
 ["inputs"],"all byte strings given as BNF text",
 "One two-line text is parsed in the tests and its result is not inspected; conversion to a grammar is not tested at all.",
 [SG,FC,PA,TG],[m("bundled grammar","selfgrammar.go SelfGrammar"),m("tree to grammar conversion","fromcst.go ToAST and helpers")],
 observe=["bnf.SelfGrammar","fromcst ToAST"])
p("C09","Malformed grammars are reported as errors, never as panics or tables",
 "Table generation on any grammar value returns normally: a grammar with no rules, with a rule defined twice, with an alternative that has no symbols, with a terminal of no characters or one that starts with NUL (reserved for end of input), with an empty-string symbol beside other symbols, or with a reference to an undefined rule anywhere, gives an error and no table. It never panics and never prints.",
 ["programs"],"all grammar values, well-formed or not",
 "Tests only generate tables from well-formed grammars.",
 [TG],[m("symbol checks","tablegen.go sequenceFirsts, symbolFirsts, makeTableRow")],
 observe=["tablegen.FromGrammar"])
p("C10","Rule numbering and names agree across table, naming map and tree",
 "For every accepted grammar the table has exactly one row per rule, numbered by the rule's position, and the naming map gives each number that rule's name and nothing else; a successful parse returns the given names plus the two reserved negative entries for literals and for the empty marker, and every node type in its tree is one of the returned keys. Generation is deterministic and leaves the grammar unchanged, so results do not depend on map iteration order.",
 ["programs","inputs"],"all accepted grammars, all accepted sources, all map iteration orders",
 "One test compares the naming map of one grammar; tree node types and input immutability are never checked, and iteration order is whatever the run happened to draw.",
 [TG,PA],[m("rule enumeration","tablegen.go collectRuleHeads, enumerate, FromGrammar"),m("reserved names","parser.go processEOS")],
 observe=["tablegen.FromGrammar","LL1Parser.Parse"])
p("C11","Byte sets obey set algebra for all 256 values",
 "For all byte sets and byte values, adding, removing, membership, union, equality, subset and superset agree with the mathematical set operations over the 256 byte values. Operations that return a new set, and queries, leave their operands unchanged.",
 ["inputs","histories"],"all pairs of byte sets (2^256 each), all byte values",
 "Byte sets have no tests of their own and the grammars used reach only ASCII members.",
 [BS],[m("bit arithmetic on four words","byteset.go Add, Remove, Contains, Union, Equal, IsSubSet")],
 observe=["byteset.ByteSet"])
p("C12","Byte set listing, counting and printing agree with membership",
 "For every byte set, the listed bytes are exactly its members, each once and in increasing order; the reported length is the number of members; and the printed form is the bracketed, space-separated list of the members as two upper-case hex digits in increasing order.",
 ["inputs"],"all byte sets",
 "No test enumerates, counts or prints a byte set directly; the bit trick used to find members depends on a 64-entry table of which ASCII grammars use a part.",
 [BS],[m("lowest set bit extraction and De Bruijn lookup","byteset.go realBytesF, log2pow2n"),m("bit count","byteset.go popCount")],
 observe=["byteset.ByteSet Bytes, Len, String"])
p("C13","Walking a tree visits every node once, in order, with the right visitor",
 "For every tree and visitor, walking calls the visitor on the root and then, for each child in order, walks that child with the visitor the parent's call returned; a nil visitor prunes exactly that node's children and nothing else. Constructed nodes report the type, span and children they were built with.",
 ["inputs","histories"],"all trees, all visitor behaviours",
 "One test walks one tree with a visitor that never prunes.",
 [CST],[m("depth-first walk","cst.go Walk"),m("node construction","cst.go NewNode")],observe=["cst.Walk"])
p("C14","Generation and parsing always terminate",
 "Table generation terminates on every grammar value, and a parser built from an accepted grammar finishes on every finite source, whatever recursion the grammar contains. No accepted grammar makes the parser expand rules forever without consuming input.",
 ["programs","inputs"],"all grammars, all byte strings",
 "Tests run a few non-recursive or right-recursive grammars; the left-recursive one in the test suite never reaches the parser.",
 [TG,PA],[m("fixpoint loops","tablegen.go findFirsts, findFollows"),m("main loop","parser.go realParser.parse")],
 observe=["tablegen.FromGrammar","LL1Parser.Parse"])
p("C15","A rejected source is diagnosed at the first byte that cannot continue",
 "When a generated parser for a grammar without useless rules rejects a source, it returns no tree and no naming map, and the error names (as character and decimal code, code 0 for the end of the source) the byte at the first position where the text read so far stops being a prefix of a sentence of the grammar. The error also says what was expected there: the terminal's character, the rule that has no matching alternative, or the end of input.",
 ["inputs","programs"],"all accepted grammars without useless rules, all rejected byte strings",
 "Five error messages for one grammar are compared; nothing relates the reported byte to viable prefixes in general.",
 [PA,TG],[m("error construction","parser.go processTableNonTerminal, processChar, processEOS, charCode")],
 observe=["error returned by LL1Parser.Parse"])
p("C16","Tree-to-grammar conversion is driven by its bindings alone",
 "Converting a syntax tree to a grammar depends on node type numbers only through the bindings: renumbering the node types of the tree and of the bindings consistently gives the same grammar, ignored node types may be listed in any order, and the escape mapping given is the one applied. Conversion never modifies the tree, the text or the bindings, and text that the bindings cannot interpret (an escape without mapping, a symbol that is neither terminal nor non-terminal, a rule without head or tail) is an error rather than a wrong grammar.",
 ["inputs","configurations"],"all consistent renumberings and orders of bindings, all escape mappings, all rule texts",
 "The conversion package has no tests.",
 [FC],[m("bindings-driven search","fromcst.go BNFCSTtoASTBindings.lrTraverse"),m("escape lookup","fromcst.go parseEscape")],
 observe=["fromcst.BNFCSTtoASTBindings.ToAST"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
