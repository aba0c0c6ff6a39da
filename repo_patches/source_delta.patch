From 18d46c1953a5b3b8561236d10c4475565b726797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 01/10] fix: truncate an existing output file before writing
 the JSON

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e2167c9a3ad6a5237bb1d9e502f87abfe7324530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 02/10] fix: report write errors of the output file

---
 cmd/root.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..28e2480 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,9 +107,9 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		// do not let a successful close hide a failed write
+		if cerr := f.Close(); err == nil {
+			err = cerr
 		}
 	}()
 
-- 
2.43.0


From ecedd1ccc8319def9d8645952413904b48a739a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 03/10] fix: bind the --trace flag

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 28e2480..1fc1ede 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From 868f4d9db3c0c0a7a4cc8c6b9e60b9511f003fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/10] fix: keep adjacent words of a call statement apart

---
 kfparser/visitor.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..56ab5c8 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -440,10 +440,51 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
+	if call := ctx.Call_stmt(); call != nil {
+		return joinTokens(tokensOf(call, nil))
+	}
+
 	stmt := strings.TrimSpace(ctx.GetText())
 	return stmt
 }
 
+// tokensOf appends the text of every token of the tree to tokens.
+func tokensOf(tree antlr.Tree, tokens []string) []string {
+	if node, ok := tree.(antlr.TerminalNode); ok {
+		return append(tokens, node.GetText())
+	}
+
+	for _, child := range tree.GetChildren() {
+		tokens = tokensOf(child, tokens)
+	}
+	return tokens
+}
+
+// joinTokens concatenates tokens, without white space except for a single
+// space between two tokens that would otherwise become one, e.g.
+// `not lower($a)` is not the same as `notlower($a)`.
+func joinTokens(tokens []string) string {
+	var text strings.Builder
+	for i, token := range tokens {
+		if i > 0 && isWord(tokens[i-1]) && isWordChar(token[0]) {
+			text.WriteByte(' ')
+		}
+		text.WriteString(token)
+	}
+	return text.String()
+}
+
+// isWord reports whether the token is a keyword, a name or a variable: unlike
+// a number, it extends over the word characters that follow it.
+func isWord(token string) bool {
+	last := token[len(token)-1]
+	return isWordChar(last) && (token[0] < '0' || token[0] > '9')
+}
+
+func isWordChar(c byte) bool {
+	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
+}
+
 // VisitInit_decl is called when parsing init declaration, return schema.Action
 func (v *KFVisitor) VisitInit_decl(ctx *kfgrammar.Init_declContext) interface{} {
 	a := schema.Action{}
-- 
2.43.0


From ac86806087af3b809f6a31b76a02da5269a9e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 05/10] fix: check variables nested in call arguments

---
 schema/validator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..4497542 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -229,6 +229,24 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		for _, input := range t.Inputs {
+			if err := checkArgRef(input, ctx, localCtx); err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 71639f88e09d00d57f898bf5e4741c793b979299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 06/10] fix: do not accept an index name as a column reference

---
 schema/validator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 4497542..d59dce7 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -88,7 +88,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if c.tableCtx[t.Name][col] != "column" {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,7 +169,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if c.tableCtx[c.currentDecl][col] != "column" {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +182,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if c.tableCtx[fk.ParentTable][col] != "column" {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From c8bc15afa4c3280077def19d20bb4976fe06e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 07/10] fix: parse escaped characters in annotation strings

---
 utils/annotation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..54813a9 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,8 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	// a string literal may contain any character escaped by a backslash
+	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'(?s:[^'\\]|\\.)*\')`
 )
 
 var (
-- 
2.43.0


From f1d128f690a6a33abd19846e3e492795c507e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 08/10] fix: do not add the list of syntax errors to itself

---
 kfparser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kfparser/parser.go b/kfparser/parser.go
index 8b845a0..ee4c2e3 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -63,7 +63,8 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 
 	parseTree := p.Source_unit()
 	if errorListener.Err() != nil {
-		return result, errorListener.Err()
+		// the deferred function returns the syntax errors
+		return result, nil
 	}
 
 	result, ok := visitor.Visit(parseTree).(ast.Ast)
-- 
2.43.0


From eb4d8e13efa2908d0e197738a3073c01171065b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 09/10] fix: reject operators in call arguments that actions do
 not have

---
 kfparser/visitor.go | 14 +++++++++++++-
 schema/errors.go    |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 56ab5c8..3fdbe67 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -448,9 +448,21 @@ func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interfac
 	return stmt
 }
 
-// tokensOf appends the text of every token of the tree to tokens.
+// tokensOf appends the text of every token of the tree to tokens. It panics on
+// an operator that actions do not have: whoever executes the action would skip
+// it, and the call would get another argument.
 func tokensOf(tree antlr.Tree, tokens []string) []string {
 	if node, ok := tree.(antlr.TerminalNode); ok {
+		switch node.GetSymbol().GetTokenType() {
+		case kfgrammar.KuneiformLexerTILDE,
+			kfgrammar.KuneiformLexerPIPE2,
+			kfgrammar.KuneiformLexerLT2,
+			kfgrammar.KuneiformLexerGT2,
+			kfgrammar.KuneiformLexerAMP,
+			kfgrammar.KuneiformLexerPIPE,
+			kfgrammar.KuneiformLexerEQ:
+			panic(fmt.Errorf("%w: %s", schema.ErrOperatorNotAllow, node.GetText()))
+		}
 		return append(tokens, node.GetText())
 	}
 
diff --git a/schema/errors.go b/schema/errors.go
index 0029443..2fb9041 100644
--- a/schema/errors.go
+++ b/schema/errors.go
@@ -12,6 +12,8 @@ var (
 	ErrActionMutabilityAlreadySet = errors.New("action mutability already specified")
 	ErrActionAuxiliaryAlreadySet  = errors.New("action auxiliary already specified")
 
+	ErrOperatorNotAllow = errors.New("operator not allowed")
+
 	// semantic errors at validation stage
 	ErrAttributeNotAllow = errors.New("attribute not allowed")
 
-- 
2.43.0


From 076c6c3619839c9cd179bae41472c65b01fef19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:38 +0000
Subject: [PATCH 10/10] fix: write the output into the directory that -o names,
 also through a symbolic link

An output directory such as link/../out was made where the operating
system looks for it, but the output was written to what remains after
the path is cleaned, which is another directory or none.
---
 cmd/root.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 1fc1ede..68dbfed 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/spf13/cobra"
 
@@ -74,7 +75,9 @@ var rootCmd = &cobra.Command{
 			os.Exit(CodeErrSerialize)
 		}
 
-		outputFilePath := filepath.Join(outputDir, fileName+".json")
+		// filepath.Join would drop a .. after a symbolic link, and so name
+		// another directory than the one made above
+		outputFilePath := strings.TrimRight(outputDir, "/") + "/" + fileName + ".json"
 		err = writeToFile(dbJson, outputFilePath)
 		if err != nil {
 			cmd.Println(err)
-- 
2.43.0

