From df284be46d6b413c57f8edaf343e6837a6683cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 1/7] fix: FOLLOW of a symbol before nullable symbols considers
 the whole rest of the sequence

---
 pkg/bnf/tablegen/tablegen.go | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..7a3e4b2 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -143,34 +143,6 @@ func (tg *tableGenerator) findFirsts() error {
 	return nil
 }
 
-// symbolFirsts
-// Helper function to get firsts for symbol assuming
-// firsts sets already calculated
-func (tg *tableGenerator) symbolFirsts(symbol *bnf.Symbol) (bs.ByteSet, error) {
-	var ret bs.ByteSet
-	switch v := (*symbol).(type) {
-	case bnf.SymbolTerminal:
-		if len(v.Name) == 0 {
-			return ret, fmt.Errorf("terminal with empty string check grammar")
-		}
-		return terminalFirsts(v), nil
-
-	case bnf.SymbolNothing:
-		return bs.New(EOS), nil
-
-	case bnf.SymbolNonTerminal:
-		ruleIndex, ok := tg.ruleMap[v.Name]
-		if !ok {
-			return ret,
-				fmt.Errorf("no rules defined for non terminal <%s>", v.Name)
-		}
-		return tg.firsts[ruleIndex], nil
-
-	default:
-		return ret, fmt.Errorf("symbol of unknown type: %T", v)
-	}
-}
-
 func (tg *tableGenerator,
 ) ruleFollowsInSequence(
 	ruleIndex int,
@@ -229,14 +201,15 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for the rest of the sequence (can start with itself)
+		rest := bnf.Sequence{Symbols: (*sequence).Symbols[i+1:]}
+		nextFirsts, err := tg.sequenceFirsts(&rest)
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if rest of the sequence (q) 's firsts contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From 460f7809c5511f0132063d6922eb977a9e568eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 2/7] fix: report every table conflict whatever the order of
 alternatives

---
 pkg/bnf/tablegen/tablegen.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 7a3e4b2..d41faf2 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -11,6 +11,9 @@ import (
 
 const EOS = byte(0)
 
+var errMultipleOps = errors.New(
+	"grammar lead to multiple parser op sets per table cell")
+
 func collectRuleHeads(g bnf.Grammar) []string {
 	res := make([]string, len(g.Rules))
 	for i := range g.Rules {
@@ -306,11 +309,8 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
-					return res,
-						fmt.Errorf("grammar lead to multiple parser op " +
-							"sets per table cell")
+				if _, ok := res[byte(followTerm)]; ok {
+					return res, errMultipleOps
 				}
 				res[byte(followTerm)] = []parser.ParserOp{}
 			}
@@ -319,6 +319,10 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res, errMultipleOps
+			}
+
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From 4e9fd5dfe4f58caf3bf0154ad3a5ec1c021b9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 3/7] fix: do not confuse a NUL byte in the source with its end

---
 pkg/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..61ce625 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -210,6 +210,10 @@ func (s *ll1parserScanner) peek() byte {
 	return s.src[s.offset]
 }
 
+func (s *ll1parserScanner) atEnd() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) next() {
 	s.offset++
 }
@@ -350,7 +354,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.atEnd() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -372,7 +376,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.atEnd() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From 152171ecbb7ccc6359b611b9c71772c6388e5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 4/7] fix: return a copy of the naming map instead of writing
 to the given one

---
 pkg/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 61ce625..e7022dc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -368,7 +368,10 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	ret_names := make(map[int]string, len(p.names)+2)
+	for name_id, name := range p.names {
+		ret_names[name_id] = name
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 53b3d95b86eb5829bf14d80a50998437a1ddcc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 5/7] fix: take the escape sequence node type from the bindings

---
 pkg/bnf/fromcst/fromcst.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..9ef8012 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -88,6 +88,9 @@ type BNFCSTtoASTBindings struct {
 
 	SymbolNonTerminalType int
 
+	// nonterminal containing full escape sequence in a terminal's text
+	EscapeSequenceType int
+
 	// Content of this type (single character striung) will be used to replace
 	// with corresponding value from EscapeMapping
 	EscapeCharacterType int
@@ -164,7 +167,7 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		func(n int) bool { return n == b.EscapeSequenceType || n == parser.BuiltinTerminal },
 		fOnNode)
 
 	return sb.String(), err
@@ -333,6 +336,7 @@ func SelfCSTtoASTBindings() BNFCSTtoASTBindings {
 		SequencesSymbolType:     9,
 		SymbolTerminalTypes:     []int{11, 12},
 		SymbolNonTerminalType:   18,
+		EscapeSequenceType:      16,
 		EscapeCharacterType:     17,
 		EscapeMapping: map[string]string{
 			`t`: "\t",
-- 
2.43.0


From f0f44dd7bcc0c1e942df09c9e2321c07c3add412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 6/7] fix: ToAST does not reorder ignored node types of the
 caller

---
 pkg/bnf/fromcst/fromcst.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index 9ef8012..1e49611 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -304,6 +304,7 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0


From 6edb04bfc70d77d437ea89626fe443263bc97d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 7/7] fix: malformed grammars are errors of table generation

---
 pkg/bnf/tablegen/tablegen.go | 62 ++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index d41faf2..ed895e9 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -387,10 +387,72 @@ func (tg *tableGenerator) Run() (table *map[int]map[byte][]parser.ParserOp,
 	return tg.makeTable()
 }
 
+// checkGrammar
+// reports what makes grammar g malformed
+func checkGrammar(g bnf.Grammar) error {
+	if len(g.Rules) == 0 {
+		return errors.New("grammar has no rules")
+	}
+
+	defined := map[string]bool{}
+	for _, rule := range g.Rules {
+		if defined[rule.Head.Name] {
+			return fmt.Errorf("multiple rules defined for non terminal <%s>",
+				rule.Head.Name)
+		}
+		defined[rule.Head.Name] = true
+	}
+
+	for _, rule := range g.Rules {
+		for _, sequence := range rule.Tail.Sequences {
+			if len(sequence.Symbols) == 0 {
+				return fmt.Errorf("empty sequence in rule <%s>",
+					rule.Head.Name)
+			}
+
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return fmt.Errorf("terminal with empty string " +
+							"check grammar")
+					}
+					if v.Name[0] == EOS {
+						return fmt.Errorf("terminal %q starts with reserved "+
+							"end of input character", v.Name)
+					}
+
+				case bnf.SymbolNonTerminal:
+					if !defined[v.Name] {
+						return fmt.Errorf(
+							"no rules defined for non terminal <%s>", v.Name)
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return errors.New(
+							"empty string is not a single sequence symbol")
+					}
+
+				default:
+					return fmt.Errorf("symbol of unknown type %T", v)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
 
+	err = checkGrammar(g)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	ruleHeads := collectRuleHeads(g)
 
 	var tablegen tableGenerator
-- 
2.43.0

