From 56aef37476cafc1ac3a4a2a96c83d4fe556b1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 1/8] fix: truncate the output file before writing it

Compiling to an existing, longer output file left its old tail after the new JSON.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ab19657c81f131c524b109ff4de102036411b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 2/8] fix: report a failed write of the output file

The deferred close replaced the write error, so a short write exited 0.
---
 cmd/root.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..7658dfd 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,9 +107,8 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		if cerr := f.Close(); err == nil {
+			err = cerr
 		}
 	}()
 
-- 
2.43.0


From ce9e442ad404e2eeea87c9928f6ecad104219990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 3/8] fix: bind the --trace flag to the trace mode

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 7658dfd..15bdefa 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From 4e1c218985220cf5b61306c532bb95d0d38e366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 4/8] fix: do not resolve index and foreign key columns to
 index names

---
 schema/validator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..e84f913 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -88,7 +88,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if c.tableCtx[t.Name][col] != "column" {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,7 +169,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if c.tableCtx[c.currentDecl][col] != "column" {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +182,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if c.tableCtx[fk.ParentTable][col] != "column" {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From 42b7fe6ecc7529a74ca0e7c07807c3f85dce6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 5/8] fix: do not add the error list to itself on syntax errors

---
 kfparser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kfparser/parser.go b/kfparser/parser.go
index 8b845a0..59d523a 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -47,7 +47,8 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 			}
 		}
 
-		if err != nil {
+		// syntax errors are already in the listener, and returned as its list
+		if err != nil && err != errorListener.Err() {
 			errorListener.Add(err)
 		}
 
-- 
2.43.0


From 60223e5ed2741d90e0760015d92897ec0ed2349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 6/8] fix: handle escapes in the string values of annotations

---
 utils/annotation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..cec104d 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	regexAnnotation = `(?s)([a-zA-Z0-9_]+)\s*=\s*(\d+|'(?:[^'\\]|\\.)*')`
 )
 
 var (
-- 
2.43.0


From dffe829ebc0742e7ac48f5f60e6a627278836f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 7/8] fix: check variables nested in call argument expressions

Only an argument that is itself a variable was checked, so -$x, $x + 1,
$x = 1 and abs($x) were accepted with $x undefined.
---
 schema/validator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/schema/validator.go b/schema/validator.go
index e84f913..aa8e41d 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -229,11 +229,29 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		return checkArgRefs([]tree.Expression{t.Left, t.Right}, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		return checkArgRefs([]tree.Expression{t.Left, t.Right}, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		return checkArgRefs(t.Inputs, ctx, localCtx)
 	}
 
 	return nil
 }
 
+// checkArgRefs checks the operands of a nested expression
+func checkArgRefs(args []tree.Expression, ctx declCtx, localCtx map[string]bool) error {
+	for _, arg := range args {
+		if err := checkArgRef(arg, ctx, localCtx); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (c *ContextValidator) visitActions(actions []Action) error {
 	for _, a := range actions {
 		// track local defined variables
-- 
2.43.0


From b2244f21330487daa217c90db5ae97ced91afb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 8/8] fix: keep tokens apart in the recorded text of call
 statements

Joining all tokens turned $a and $b into $aand$b and not abs(1) into
notabs(1), so valid calls were rejected or changed their meaning.
---
 kfparser/visitor.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..1d28049 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/antlr4-go/antlr/v4"
 
@@ -441,9 +443,39 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
 	stmt := strings.TrimSpace(ctx.GetText())
+	if ctx.Sql_stmt() == nil {
+		stmt = callText(ctx)
+	}
 	return stmt
 }
 
+// callText returns the text of a call statement without its hidden tokens,
+// keeping a space where two tokens would otherwise merge, e.g. `$a and $b`
+func callText(ctx antlr.ParserRuleContext) string {
+	var text strings.Builder
+	afterWord := false // a keyword, name, variable or block variable came last
+
+	var join func(tree antlr.Tree)
+	join = func(tree antlr.Tree) {
+		if terminal, ok := tree.(antlr.TerminalNode); ok {
+			token := terminal.GetText()
+			r, _ := utf8.DecodeRuneInString(token)
+			if afterWord && (unicode.IsLetter(r) || unicode.IsDigit(r)) {
+				text.WriteByte(' ')
+			}
+			text.WriteString(token)
+			afterWord = unicode.IsLetter(r) || r == '$' || r == '@'
+			return
+		}
+		for _, child := range tree.GetChildren() {
+			join(child)
+		}
+	}
+	join(ctx)
+
+	return text.String()
+}
+
 // VisitInit_decl is called when parsing init declaration, return schema.Action
 func (v *KFVisitor) VisitInit_decl(ctx *kfgrammar.Init_declContext) interface{} {
 	a := schema.Action{}
-- 
2.43.0

