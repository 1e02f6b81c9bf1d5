From 4d9b8e5d3845a0879e2105dae566095ac7691b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 1/9] fix: FromGrammar panics on an empty terminal

terminalFirsts indexes the first byte of the terminal, so a grammar with
SymbolTerminal{Name: ""} crashed table generation with an index out of range.
Report it with the error symbolFirsts already uses for it.
---
 pkg/bnf/tablegen/tablegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..51b1fdb 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -50,6 +50,9 @@ func (tg *tableGenerator,
 	for _, symbol := range (*sequence).Symbols {
 		switch v := symbol.(type) {
 		case bnf.SymbolTerminal:
+			if len(v.Name) == 0 {
+				return res, fmt.Errorf("terminal with empty string check grammar")
+			}
 			return res.Union(terminalFirsts(v)), nil
 
 		case bnf.SymbolNothing:
-- 
2.43.0


From e0297917af4735a8f9b9aa120b8d8870aaf81fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 2/9] fix: FromGrammar silently treats a terminal starting with
 NUL as empty

Byte 0 stands for the empty string in FIRST sets and for the end of input in
FOLLOW sets and in the table, so a terminal beginning with it was dropped from
the generated table without an error.
---
 pkg/bnf/tablegen/tablegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 51b1fdb..126b196 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -53,6 +53,9 @@ func (tg *tableGenerator,
 			if len(v.Name) == 0 {
 				return res, fmt.Errorf("terminal with empty string check grammar")
 			}
+			if v.Name[0] == EOS {
+				return res, fmt.Errorf("terminal starts with reserved byte 0")
+			}
 			return res.Union(terminalFirsts(v)), nil
 
 		case bnf.SymbolNothing:
-- 
2.43.0


From 96a4adfb63ea9b82c33e99b79d0a38a110830140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 3/9] fix: FromGrammar panics on a grammar without rules

---
 pkg/bnf/tablegen/tablegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 126b196..9049606 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -300,6 +300,10 @@ func (tg *tableGenerator) ruleFollowsInRule(ruleIndex int,
 }
 
 func (tg *tableGenerator) findFollows() error {
+	if tg.ruleCount == 0 {
+		return errors.New("grammar has no rules")
+	}
+
 	// rule 1
 	// Assuming starting rule is allways at index 0
 	tg.follows[0].Add(EOS)
-- 
2.43.0


From dc83d2554bbb041de653733adacf60fd5bdc41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 4/9] fix: FromGrammar panics on an empty string after a
 terminal

sequenceFirsts stops at the first symbol that cannot be empty, so it does not
see the empty string in <A> ::= "a" "" and makeTableRow ran into
panic("uncreachable"). Return the error used for the other positions.
---
 pkg/bnf/tablegen/tablegen.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 9049606..64fd129 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -374,13 +374,10 @@ func (tg *tableGenerator,
 						parser.OpNonTerminal(ruleIndex))
 
 				case bnf.SymbolNothing:
-					// This must be uncreachable:
-					//
-					// Nothing can only be a single symbol in sequence
-					// This means sequance's firsts only contains a empty string
-					// so iteration would be only over one item (empty string)
-					// and it guarded off at if guard before reaching this loop
-					panic("uncreachable")
+					// Firsts of the symbols before it end before sequenceFirsts
+					// gets to see it, e.g. <A> ::= "a" ""
+					return res, errors.New(
+						"empty string is not a single sequence symbol")
 
 				default:
 					panic(fmt.Sprintf("symbol of unknown type %T", v))
-- 
2.43.0


From 6c32fec1c5e855cfbd8791afe916fdbd5839d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 5/9] fix: FromGrammar merges alternatives that start with the
 same byte

Only cells filled for an empty alternative were checked for being taken, so
<A> ::= "ab" | "ac" got the single cell "ab" "ac" and the generated parser
accepted abac only. Report these conflicts like the others. Left recursion is
found this way as well (TestLRecursiveGrammarToParsingTableResErr).
---
 pkg/bnf/tablegen/tablegen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 64fd129..385ac59 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -356,6 +356,11 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+						"sets per table cell")
+			}
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From 9b2846422517110bac7e2c6689f4d445254d3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 6/9] fix: FOLLOW sets look no further than one symbol ahead

In <A> ::= <B> <C> <D> with <C> possibly empty, FOLLOW(B) got FOLLOW(A)
instead of FIRST(D), so the generated parser rejected valid inputs: the json
example could not parse 1E5. Use the firsts of the whole rest of the sequence.
symbolFirsts has no users left.
---
 pkg/bnf/tablegen/tablegen.go | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 385ac59..baa4885 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -149,34 +149,6 @@ func (tg *tableGenerator) findFirsts() error {
 	return nil
 }
 
-// symbolFirsts
-// Helper function to get firsts for symbol assuming
-// firsts sets already calculated
-func (tg *tableGenerator) symbolFirsts(symbol *bnf.Symbol) (bs.ByteSet, error) {
-	var ret bs.ByteSet
-	switch v := (*symbol).(type) {
-	case bnf.SymbolTerminal:
-		if len(v.Name) == 0 {
-			return ret, fmt.Errorf("terminal with empty string check grammar")
-		}
-		return terminalFirsts(v), nil
-
-	case bnf.SymbolNothing:
-		return bs.New(EOS), nil
-
-	case bnf.SymbolNonTerminal:
-		ruleIndex, ok := tg.ruleMap[v.Name]
-		if !ok {
-			return ret,
-				fmt.Errorf("no rules defined for non terminal <%s>", v.Name)
-		}
-		return tg.firsts[ruleIndex], nil
-
-	default:
-		return ret, fmt.Errorf("symbol of unknown type: %T", v)
-	}
-}
-
 func (tg *tableGenerator,
 ) ruleFollowsInSequence(
 	ruleIndex int,
@@ -235,14 +207,15 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for the rest of sequance (can begin with itself)
+		rest := bnf.Sequence{Symbols: (*sequence).Symbols[i+1:]}
+		nextFirsts, err := tg.sequenceFirsts(&rest)
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if rest of sequence (q) 's firsts contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From 933ea4512284464997f1a45755e1825323b5ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 7/9] fix: Parse ignores everything after a NUL byte

peek returns 0 both at the end of input and for a NUL byte in it, so
processEOS accepted "A::=C\x00 anything" as a complete parse.
---
 pkg/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..a571dd7 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -210,6 +210,10 @@ func (s *ll1parserScanner) peek() byte {
 	return s.src[s.offset]
 }
 
+func (s *ll1parserScanner) eos() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) next() {
 	s.offset++
 }
@@ -350,7 +354,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.eos() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
-- 
2.43.0


From 2ad1bf80cbf9fc637cd9291d71c613b32442ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 8/9] fix: Parse matches a NUL byte of a terminal past the end
 of input

With the terminal "a\x00" the input "a" was accepted and the tree covered a
byte behind the end of the source.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a571dd7..02e3fee 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -376,7 +376,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.eos() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From c14f509704620a7f0306349f9d9bdd64a41a0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 9/9] fix: Parse writes to the naming map given to NewLL1Parser

The builtin names were stored in the caller's map: it grew entries, Parse
panicked when it was nil, and concurrent use of one parser was a data race.
Return a copy.
---
 pkg/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 02e3fee..de3655b 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -368,7 +368,10 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	ret_names := make(map[int]string, len(p.names)+2)
+	for id, name := range p.names {
+		ret_names[id] = name
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0

