From abad47d1887ce1109667e230a68325aa1afc0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 01/15] fix: Expression.is_layer_qualifier_empty() returned the
 inverse, has_layer_qualifier() never matched

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..f8daf67 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -583,7 +583,7 @@ class Expression(QueryNode):
             bool: ``True`` if no Layer Type Identifier qualifier was set, ``False`` otherwise
         """
         # NOTE: check only `self.qualifier is None` ?
-        return bool(self.qualifier)
+        return not self.qualifier
 
     def has_layer_qualifier(self, qualifier: str) -> bool:
         """Check if the expression used a given qualifier for the Layer Type
-- 
2.43.0


From 419e3c58d75efb019647141e5e541948ce8435d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 02/15] fix: Expression.is_regex_flags_empty() returned the
 inverse

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index f8daf67..6e6ee47 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -626,7 +626,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no regex flags where set, ``False`` otherwise
         """
-        return bool(self.regex_flags)
+        return not self.regex_flags
 
     def has_regex_flag(self, flag: RegexFlag) -> bool:
         """Check if a regex flag is set.
-- 
2.43.0


From e06ed990720edd3c918e96588480e2e17c1fca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 03/15] fix: QueryGroup nodes carry the QUERY_GROUP node type
 (were visited/printed as segments)

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 6e6ee47..ba5f59e 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -864,7 +864,7 @@ class QueryGroup(QueryNode):
             min_occurs: the minimum occurrence
             max_occurs: the maximum occurrence
         """
-        super().__init__(QueryNodeType.QUERY_SEGMENT, child=child)
+        super().__init__(QueryNodeType.QUERY_GROUP, child=child)
 
         self.min_occurs = min_occurs
         """The minimum occurrence of group content."""
-- 
2.43.0


From 7e6d43d527a99e49e4e12fedaefd95ba89dc83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 04/15] fix: QueryNode.get_child() returns None for index ==
 child_count instead of raising IndexError

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index ba5f59e..6258e23 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -465,7 +465,7 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
             QueryNode: the child node of this node or ``None`` if not child was found
                        (e.g. type mismatch or index out of bounds)
         """
-        if not self.children or idx < 0 or idx > self.child_count:
+        if not self.children or idx < 0 or idx >= self.child_count:
             return None
         if not clazz:
             return self.children[idx]
-- 
2.43.0


From 7ef054a755afa8038be9f23bae3a468e4b8034d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 05/15] fix: QueryNode.get_last_child(clazz) returns the last
 child of that type

---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 6258e23..bd60eba 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -497,7 +497,10 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
         Returns:
             QueryNode: the last child node of this node or ``None``
         """
-        return self.get_child(self.child_count - 1, clazz=clazz)
+        for child in reversed(self.children):
+            if not clazz or isinstance(child, clazz):
+                return child
+        return None
 
     def __str__(self) -> str:
         chs = " ".join(map(str, self.children))
-- 
2.43.0


From cbf6d354756ca74e0d7b254a2d3369d282d12ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 06/15] fix: accept the escapes \} and \] that the FCS-QL
 grammar allows

---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index bd60eba..8047859 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1618,8 +1618,12 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                     chars.append("\\)")
                 elif cp == "{":  # regex: opening curly brace
                     chars.append("\\{")
+                elif cp == "}":  # regex: closing curly brace
+                    chars.append("\\}")
                 elif cp == "[":  # regex: opening square bracket
                     chars.append("\\[")
+                elif cp == "]":  # regex: closing square bracket
+                    chars.append("\\]")
                 elif cp == "|":  # regex: vertical bar
                     chars.append("\\|")
                 elif cp == "x":  # x HEX HEX
-- 
2.43.0


From 4670cbef205f0087b6dbaf75ab7a360d572bdf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 07/15] fix: report \U escapes above 7FFFFFFF as invalid
 codepoints

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 8047859..bba90ac 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1657,7 +1657,7 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                 cp |= ExpressionTreeBuilder.parseHexChar(val[i])
             try:
                 return chr(cp)
-            except ValueError:
+            except (ValueError, OverflowError):
                 raise ExpressionTreeBuilderException(f"invalid codepoint: U+{cp:X}")
 
         else:
-- 
2.43.0


From 2e14f1aaa839da6c849d761cbafc11b16a39f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 08/15] fix: QueryVisitor dispatches to the
 visit_Expression{Wildcard,Group,Not,And,Or} handlers

---
 src/fcsql/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index bba90ac..00bfa0f 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -153,6 +153,9 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
             method = "visit_" + node.node_type.value
 
+        Expression node types can also be handled by the methods declared in
+        `QueryVisitorAdapter`, e.g. ``visit_ExpressionNot`` for "Not" nodes.
+
         Args:
             node: the node to visit
 
@@ -164,7 +167,11 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
         # search for specific visit function based on node_type
         method_name = f"visit_{node.node_type}"
-        method = getattr(self, method_name, self.visitChildren)
+        method = getattr(self, method_name, None)
+        if method is None:
+            # the value of EXPRESSION_* types is abbreviated (e.g. "Not")
+            method_name = f"visit_{node.node_type.name.title().replace('_', '')}"
+            method = getattr(self, method_name, self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
             LOGGER.debug("visiting '%s()': %s", method.__name__, node)
-- 
2.43.0


From 1b6d1150abec65e228a7710b754910d4afdd74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 09/15] fix: position of token recognition errors is the offset
 in the query, also for multi-line queries

---
 src/fcsql/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 00bfa0f..15c7ab5 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -991,7 +991,9 @@ class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
                 LOGGER.debug(f"{recognizer=}")
 
         if pos is None:
-            pos = column
+            # NOTE: column is relative to the line, use the offset in the query string if known
+            start_index = getattr(e, "startIndex", None)
+            pos = column if start_index is None else start_index
 
         self.errors.append(
             ErrorDetail(
-- 
2.43.0


From 93d2ca80dafecf47251f969c5664aafe7a158207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 10/15] fix: antlr_parse() raises SyntaxError for token
 recognition errors, too

---
 src/fcsql/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..223ef3f 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -46,6 +46,7 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     """
     input_stream = InputStream(input)
     lexer = FCSLexer(input_stream)
+    lexer.addErrorListener(ExceptionThrowingErrorListener())
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
     parser.addErrorListener(ExceptionThrowingErrorListener())
-- 
2.43.0


From 5a85b155431f7afb287b642c8a8d8e92263ffa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 11/15] fix: reset node stack of reused Validator after a
 raised violation

---
 src/fcsql/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..64d3f0d 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -109,6 +109,8 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         # reset list of errors
         self.errors = []
         self.warnings = []
+        # reset parents, an aborted validation leaves its nodes behind
+        self.stack.clear()
 
         # start validation
         self.visit(node)
-- 
2.43.0


From 087666278b6e65da858b138c5ec96849a816fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 12/15] fix: validate() reports too deeply nested queries
 instead of raising RecursionError

---
 src/fcsql/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index 223ef3f..fbde0c3 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -173,6 +173,11 @@ def validate(
     except SpecificationValidationError:
         # not will raise if raise_at_first_violation enabled
         return False
+    except RecursionError:
+        # walking the tree may need more stack than parsing it (parser reports the same as error)
+        if not return_errors:
+            return False
+        return [ErrorDetail("query is nested too deeply to be validated", type="validation-error")]
 
     errors = list()
     errors.extend(validator.errors)
-- 
2.43.0


From ba957eee0f9227bae4a06a924671d1b5f7a6224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 13/15] fix: NOT > AND > OR precedence also for mixed
 expressions

The expression rules were ambiguous: '!' could take an unparenthesised
'|'/'&' expression and '&' an unparenthesised '|' expression as operand, e.g.
[a="1" & !b="2" | c="3" | d="4"] was parsed as
(a="1" & (!b="2" | c="3")) | d="4" and
[!a="1" | b="2" & c="3" | d="4"] as
(!(a="1" | b="2") & c="3") | d="4". The accepted language is unchanged.
---
 src/fcsql/FCSParser.g4     |  4 ++--
 src/fcsql/FCSParser.interp |  2 +-
 src/fcsql/FCSParser.py     | 40 +++++---------------------------------
 3 files changed, 8 insertions(+), 38 deletions(-)

diff --git a/src/fcsql/FCSParser.g4 b/src/fcsql/FCSParser.g4
index 397b510..fb150ae 100644
--- a/src/fcsql/FCSParser.g4
+++ b/src/fcsql/FCSParser.g4
@@ -91,7 +91,7 @@ expression_or
 // a="b" & c="d" | e="f"  <==>  (a="b" & c="d") | e="f"
 expression_and
     : (expression_basic | expression_group | expression_not)
-        (AND (expression_basic | expression_group | expression_or | expression_not))+
+        (AND (expression_basic | expression_group | expression_not))+
     ;
 
 
@@ -101,7 +101,7 @@ expression_group
 
 
 expression_not
-    : NOT (expression_basic | expression_group | expression_not | expression_or | expression_and)
+    : NOT (expression_basic | expression_group | expression_not)
     ;
 
 
diff --git a/src/fcsql/FCSParser.interp b/src/fcsql/FCSParser.interp
index f4d083d..9864db5 100644
--- a/src/fcsql/FCSParser.interp
+++ b/src/fcsql/FCSParser.interp
@@ -81,4 +81,4 @@ regexp_flag
 
 
 atn:
-[4, 1, 25, 211, 2, 0, 7, 0, 2, 1, 7, 1, 2, 2, 7, 2, 2, 3, 7, 3, 2, 4, 7, 4, 2, 5, 7, 5, 2, 6, 7, 6, 2, 7, 7, 7, 2, 8, 7, 8, 2, 9, 7, 9, 2, 10, 7, 10, 2, 11, 7, 11, 2, 12, 7, 12, 2, 13, 7, 13, 2, 14, 7, 14, 2, 15, 7, 15, 2, 16, 7, 16, 2, 17, 7, 17, 2, 18, 7, 18, 2, 19, 7, 19, 2, 20, 7, 20, 2, 21, 7, 21, 2, 22, 7, 22, 1, 0, 1, 0, 1, 0, 3, 0, 50, 8, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 58, 8, 1, 1, 2, 1, 2, 1, 2, 3, 2, 63, 8, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3, 2, 69, 8, 2, 4, 2, 71, 8, 2, 11, 2, 12, 2, 72, 1, 3, 1, 3, 4, 3, 77, 8, 3, 11, 3, 12, 3, 78, 1, 4, 1, 4, 1, 4, 3, 4, 84, 8, 4, 1, 4, 1, 4, 3, 4, 88, 8, 4, 1, 5, 1, 5, 3, 5, 92, 8, 5, 1, 5, 3, 5, 95, 8, 5, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 103, 8, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 110, 8, 6, 3, 6, 112, 8, 6, 1, 6, 3, 6, 115, 8, 6, 1, 7, 1, 7, 1, 8, 1, 8, 3, 8, 121, 8, 8, 1, 8, 1, 8, 1, 9, 1, 9, 1, 10, 1, 10, 1, 11, 1, 11, 1, 11, 1, 11, 1, 11, 3, 11, 134, 8, 11, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 140, 8, 12, 1, 12, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 147, 8, 12, 4, 12, 149, 8, 12, 11, 12, 12, 12, 150, 1, 13, 1, 13, 1, 13, 3, 13, 156, 8, 13, 1, 13, 1, 13, 1, 13, 1, 13, 1, 13, 3, 13, 163, 8, 13, 4, 13, 165, 8, 13, 11, 13, 12, 13, 166, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 3, 14, 175, 8, 14, 1, 14, 1, 14, 1, 15, 1, 15, 1, 15, 1, 15, 1, 15, 1, 15, 3, 15, 185, 8, 15, 1, 16, 1, 16, 1, 16, 1, 16, 1, 17, 1, 17, 1, 17, 3, 17, 194, 8, 17, 1, 17, 1, 17, 1, 18, 1, 18, 1, 19, 1, 19, 1, 20, 1, 20, 1, 20, 3, 20, 205, 8, 20, 1, 21, 1, 21, 1, 22, 1, 22, 1, 22, 0, 0, 23, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 0, 2, 1, 0, 15, 16, 1, 0, 18, 21, 237, 0, 46, 1, 0, 0, 0, 2, 57, 1, 0, 0, 0, 4, 62, 1, 0, 0, 0, 6, 76, 1, 0, 0, 0, 8, 80, 1, 0, 0, 0, 10, 91, 1, 0, 0, 0, 12, 114, 1, 0, 0, 0, 14, 116, 1, 0, 0, 0, 16, 118, 1, 0, 0, 0, 18, 124, 1, 0, 0, 0, 20, 126, 1, 0, 0, 0, 22, 133, 1, 0, 0, 0, 24, 139, 1, 0, 0, 0, 26, 155, 1, 0, 0, 0, 28, 168, 1, 0, 0, 0, 30, 178, 1, 0, 0, 0, 32, 186, 1, 0, 0, 0, 34, 193, 1, 0, 0, 0, 36, 197, 1, 0, 0, 0, 38, 199, 1, 0, 0, 0, 40, 201, 1, 0, 0, 0, 42, 206, 1, 0, 0, 0, 44, 208, 1, 0, 0, 0, 46, 49, 3, 2, 1, 0, 47, 48, 5, 18, 0, 0, 48, 50, 3, 18, 9, 0, 49, 47, 1, 0, 0, 0, 49, 50, 1, 0, 0, 0, 50, 51, 1, 0, 0, 0, 51, 52, 5, 0, 0, 1, 52, 1, 1, 0, 0, 0, 53, 58, 3, 10, 5, 0, 54, 58, 3, 8, 4, 0, 55, 58, 3, 6, 3, 0, 56, 58, 3, 4, 2, 0, 57, 53, 1, 0, 0, 0, 57, 54, 1, 0, 0, 0, 57, 55, 1, 0, 0, 0, 57, 56, 1, 0, 0, 0, 58, 3, 1, 0, 0, 0, 59, 63, 3, 10, 5, 0, 60, 63, 3, 6, 3, 0, 61, 63, 3, 8, 4, 0, 62, 59, 1, 0, 0, 0, 62, 60, 1, 0, 0, 0, 62, 61, 1, 0, 0, 0, 63, 70, 1, 0, 0, 0, 64, 68, 5, 5, 0, 0, 65, 69, 3, 10, 5, 0, 66, 69, 3, 6, 3, 0, 67, 69, 3, 8, 4, 0, 68, 65, 1, 0, 0, 0, 68, 66, 1, 0, 0, 0, 68, 67, 1, 0, 0, 0, 69, 71, 1, 0, 0, 0, 70, 64, 1, 0, 0, 0, 71, 72, 1, 0, 0, 0, 72, 70, 1, 0, 0, 0, 72, 73, 1, 0, 0, 0, 73, 5, 1, 0, 0, 0, 74, 77, 3, 10, 5, 0, 75, 77, 3, 8, 4, 0, 76, 74, 1, 0, 0, 0, 76, 75, 1, 0, 0, 0, 77, 78, 1, 0, 0, 0, 78, 76, 1, 0, 0, 0, 78, 79, 1, 0, 0, 0, 79, 7, 1, 0, 0, 0, 80, 83, 5, 1, 0, 0, 81, 84, 3, 4, 2, 0, 82, 84, 3, 6, 3, 0, 83, 81, 1, 0, 0, 0, 83, 82, 1, 0, 0, 0, 84, 85, 1, 0, 0, 0, 85, 87, 5, 2, 0, 0, 86, 88, 3, 12, 6, 0, 87, 86, 1, 0, 0, 0, 87, 88, 1, 0, 0, 0, 88, 9, 1, 0, 0, 0, 89, 92, 3, 14, 7, 0, 90, 92, 3, 16, 8, 0, 91, 89, 1, 0, 0, 0, 91, 90, 1, 0, 0, 0, 92, 94, 1, 0, 0, 0, 93, 95, 3, 12, 6, 0, 94, 93, 1, 0, 0, 0, 94, 95, 1, 0, 0, 0, 95, 11, 1, 0, 0, 0, 96, 115, 5, 11, 0, 0, 97, 115, 5, 12, 0, 0, 98, 115, 5, 13, 0, 0, 99, 111, 5, 9, 0, 0, 100, 112, 5, 22, 0, 0, 101, 103, 5, 22, 0, 0, 102, 101, 1, 0, 0, 0, 102, 103, 1, 0, 0, 0, 103, 104, 1, 0, 0, 0, 104, 105, 5, 14, 0, 0, 105, 112, 5, 22, 0, 0, 106, 107, 5, 22, 0, 0, 107, 109, 5, 14, 0, 0, 108, 110, 5, 22, 0, 0, 109, 108, 1, 0, 0, 0, 109, 110, 1, 0, 0, 0, 110, 112, 1, 0, 0, 0, 111, 100, 1, 0, 0, 0, 111, 102, 1, 0, 0, 0, 111, 106, 1, 0, 0, 0, 112, 113, 1, 0, 0, 0, 113, 115, 5, 10, 0, 0, 114, 96, 1, 0, 0, 0, 114, 97, 1, 0, 0, 0, 114, 98, 1, 0, 0, 0, 114, 99, 1, 0, 0, 0, 115, 13, 1, 0, 0, 0, 116, 117, 3, 40, 20, 0, 117, 15, 1, 0, 0, 0, 118, 120, 5, 3, 0, 0, 119, 121, 3, 22, 11, 0, 120, 119, 1, 0, 0, 0, 120, 121, 1, 0, 0, 0, 121, 122, 1, 0, 0, 0, 122, 123, 5, 4, 0, 0, 123, 17, 1, 0, 0, 0, 124, 125, 3, 20, 10, 0, 125, 19, 1, 0, 0, 0, 126, 127, 5, 19, 0, 0, 127, 21, 1, 0, 0, 0, 128, 134, 3, 32, 16, 0, 129, 134, 3, 28, 14, 0, 130, 134, 3, 24, 12, 0, 131, 134, 3, 26, 13, 0, 132, 134, 3, 30, 15, 0, 133, 128, 1, 0, 0, 0, 133, 129, 1, 0, 0, 0, 133, 130, 1, 0, 0, 0, 133, 131, 1, 0, 0, 0, 133, 132, 1, 0, 0, 0, 134, 23, 1, 0, 0, 0, 135, 140, 3, 32, 16, 0, 136, 140, 3, 28, 14, 0, 137, 140, 3, 26, 13, 0, 138, 140, 3, 30, 15, 0, 139, 135, 1, 0, 0, 0, 139, 136, 1, 0, 0, 0, 139, 137, 1, 0, 0, 0, 139, 138, 1, 0, 0, 0, 140, 148, 1, 0, 0, 0, 141, 146, 5, 5, 0, 0, 142, 147, 3, 32, 16, 0, 143, 147, 3, 28, 14, 0, 144, 147, 3, 26, 13, 0, 145, 147, 3, 30, 15, 0, 146, 142, 1, 0, 0, 0, 146, 143, 1, 0, 0, 0, 146, 144, 1, 0, 0, 0, 146, 145, 1, 0, 0, 0, 147, 149, 1, 0, 0, 0, 148, 141, 1, 0, 0, 0, 149, 150, 1, 0, 0, 0, 150, 148, 1, 0, 0, 0, 150, 151, 1, 0, 0, 0, 151, 25, 1, 0, 0, 0, 152, 156, 3, 32, 16, 0, 153, 156, 3, 28, 14, 0, 154, 156, 3, 30, 15, 0, 155, 152, 1, 0, 0, 0, 155, 153, 1, 0, 0, 0, 155, 154, 1, 0, 0, 0, 156, 164, 1, 0, 0, 0, 157, 162, 5, 6, 0, 0, 158, 163, 3, 32, 16, 0, 159, 163, 3, 28, 14, 0, 160, 163, 3, 24, 12, 0, 161, 163, 3, 30, 15, 0, 162, 158, 1, 0, 0, 0, 162, 159, 1, 0, 0, 0, 162, 160, 1, 0, 0, 0, 162, 161, 1, 0, 0, 0, 163, 165, 1, 0, 0, 0, 164, 157, 1, 0, 0, 0, 165, 166, 1, 0, 0, 0, 166, 164, 1, 0, 0, 0, 166, 167, 1, 0, 0, 0, 167, 27, 1, 0, 0, 0, 168, 174, 5, 1, 0, 0, 169, 175, 3, 32, 16, 0, 170, 175, 3, 28, 14, 0, 171, 175, 3, 24, 12, 0, 172, 175, 3, 26, 13, 0, 173, 175, 3, 30, 15, 0, 174, 169, 1, 0, 0, 0, 174, 170, 1, 0, 0, 0, 174, 171, 1, 0, 0, 0, 174, 172, 1, 0, 0, 0, 174, 173, 1, 0, 0, 0, 175, 176, 1, 0, 0, 0, 176, 177, 5, 2, 0, 0, 177, 29, 1, 0, 0, 0, 178, 184, 5, 7, 0, 0, 179, 185, 3, 32, 16, 0, 180, 185, 3, 28, 14, 0, 181, 185, 3, 30, 15, 0, 182, 185, 3, 24, 12, 0, 183, 185, 3, 26, 13, 0, 184, 179, 1, 0, 0, 0, 184, 180, 1, 0, 0, 0, 184, 181, 1, 0, 0, 0, 184, 182, 1, 0, 0, 0, 184, 183, 1, 0, 0, 0, 185, 31, 1, 0, 0, 0, 186, 187, 3, 34, 17, 0, 187, 188, 7, 0, 0, 0, 188, 189, 3, 40, 20, 0, 189, 33, 1, 0, 0, 0, 190, 191, 3, 36, 18, 0, 191, 192, 5, 17, 0, 0, 192, 194, 1, 0, 0, 0, 193, 190, 1, 0, 0, 0, 193, 194, 1, 0, 0, 0, 194, 195, 1, 0, 0, 0, 195, 196, 3, 38, 19, 0, 196, 35, 1, 0, 0, 0, 197, 198, 7, 1, 0, 0, 198, 37, 1, 0, 0, 0, 199, 200, 7, 1, 0, 0, 200, 39, 1, 0, 0, 0, 201, 204, 3, 42, 21, 0, 202, 203, 5, 8, 0, 0, 203, 205, 3, 44, 22, 0, 204, 202, 1, 0, 0, 0, 204, 205, 1, 0, 0, 0, 205, 41, 1, 0, 0, 0, 206, 207, 5, 23, 0, 0, 207, 43, 1, 0, 0, 0, 208, 209, 5, 20, 0, 0, 209, 45, 1, 0, 0, 0, 27, 49, 57, 62, 68, 72, 76, 78, 83, 87, 91, 94, 102, 109, 111, 114, 120, 133, 139, 146, 150, 155, 162, 166, 174, 184, 193, 204]
\ No newline at end of file
+[4, 1, 25, 211, 2, 0, 7, 0, 2, 1, 7, 1, 2, 2, 7, 2, 2, 3, 7, 3, 2, 4, 7, 4, 2, 5, 7, 5, 2, 6, 7, 6, 2, 7, 7, 7, 2, 8, 7, 8, 2, 9, 7, 9, 2, 10, 7, 10, 2, 11, 7, 11, 2, 12, 7, 12, 2, 13, 7, 13, 2, 14, 7, 14, 2, 15, 7, 15, 2, 16, 7, 16, 2, 17, 7, 17, 2, 18, 7, 18, 2, 19, 7, 19, 2, 20, 7, 20, 2, 21, 7, 21, 2, 22, 7, 22, 1, 0, 1, 0, 1, 0, 3, 0, 50, 8, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 58, 8, 1, 1, 2, 1, 2, 1, 2, 3, 2, 63, 8, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3, 2, 69, 8, 2, 4, 2, 71, 8, 2, 11, 2, 12, 2, 72, 1, 3, 1, 3, 4, 3, 77, 8, 3, 11, 3, 12, 3, 78, 1, 4, 1, 4, 1, 4, 3, 4, 84, 8, 4, 1, 4, 1, 4, 3, 4, 88, 8, 4, 1, 5, 1, 5, 3, 5, 92, 8, 5, 1, 5, 3, 5, 95, 8, 5, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 103, 8, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 110, 8, 6, 3, 6, 112, 8, 6, 1, 6, 3, 6, 115, 8, 6, 1, 7, 1, 7, 1, 8, 1, 8, 3, 8, 121, 8, 8, 1, 8, 1, 8, 1, 9, 1, 9, 1, 10, 1, 10, 1, 11, 1, 11, 1, 11, 1, 11, 1, 11, 3, 11, 134, 8, 11, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 140, 8, 12, 1, 12, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 147, 8, 12, 4, 12, 149, 8, 12, 11, 12, 12, 12, 150, 1, 13, 1, 13, 1, 13, 3, 13, 156, 8, 13, 1, 13, 1, 13, 1, 13, 1, 13, 1, 13, 3, 13, 163, 8, 13, 4, 13, 165, 8, 13, 11, 13, 12, 13, 166, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 3, 14, 175, 8, 14, 1, 14, 1, 14, 1, 15, 1, 15, 1, 15, 1, 15, 1, 15, 1, 15, 3, 15, 185, 8, 15, 1, 16, 1, 16, 1, 16, 1, 16, 1, 17, 1, 17, 1, 17, 3, 17, 194, 8, 17, 1, 17, 1, 17, 1, 18, 1, 18, 1, 19, 1, 19, 1, 20, 1, 20, 1, 20, 3, 20, 205, 8, 20, 1, 21, 1, 21, 1, 22, 1, 22, 1, 22, 0, 0, 23, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 0, 2, 1, 0, 15, 16, 1, 0, 18, 21, 231, 0, 46, 1, 0, 0, 0, 2, 57, 1, 0, 0, 0, 4, 62, 1, 0, 0, 0, 6, 76, 1, 0, 0, 0, 8, 80, 1, 0, 0, 0, 10, 91, 1, 0, 0, 0, 12, 114, 1, 0, 0, 0, 14, 116, 1, 0, 0, 0, 16, 118, 1, 0, 0, 0, 18, 124, 1, 0, 0, 0, 20, 126, 1, 0, 0, 0, 22, 133, 1, 0, 0, 0, 24, 139, 1, 0, 0, 0, 26, 155, 1, 0, 0, 0, 28, 168, 1, 0, 0, 0, 30, 178, 1, 0, 0, 0, 32, 186, 1, 0, 0, 0, 34, 193, 1, 0, 0, 0, 36, 197, 1, 0, 0, 0, 38, 199, 1, 0, 0, 0, 40, 201, 1, 0, 0, 0, 42, 206, 1, 0, 0, 0, 44, 208, 1, 0, 0, 0, 46, 49, 3, 2, 1, 0, 47, 48, 5, 18, 0, 0, 48, 50, 3, 18, 9, 0, 49, 47, 1, 0, 0, 0, 49, 50, 1, 0, 0, 0, 50, 51, 1, 0, 0, 0, 51, 52, 5, 0, 0, 1, 52, 1, 1, 0, 0, 0, 53, 58, 3, 10, 5, 0, 54, 58, 3, 8, 4, 0, 55, 58, 3, 6, 3, 0, 56, 58, 3, 4, 2, 0, 57, 53, 1, 0, 0, 0, 57, 54, 1, 0, 0, 0, 57, 55, 1, 0, 0, 0, 57, 56, 1, 0, 0, 0, 58, 3, 1, 0, 0, 0, 59, 63, 3, 10, 5, 0, 60, 63, 3, 6, 3, 0, 61, 63, 3, 8, 4, 0, 62, 59, 1, 0, 0, 0, 62, 60, 1, 0, 0, 0, 62, 61, 1, 0, 0, 0, 63, 70, 1, 0, 0, 0, 64, 68, 5, 5, 0, 0, 65, 69, 3, 10, 5, 0, 66, 69, 3, 6, 3, 0, 67, 69, 3, 8, 4, 0, 68, 65, 1, 0, 0, 0, 68, 66, 1, 0, 0, 0, 68, 67, 1, 0, 0, 0, 69, 71, 1, 0, 0, 0, 70, 64, 1, 0, 0, 0, 71, 72, 1, 0, 0, 0, 72, 70, 1, 0, 0, 0, 72, 73, 1, 0, 0, 0, 73, 5, 1, 0, 0, 0, 74, 77, 3, 10, 5, 0, 75, 77, 3, 8, 4, 0, 76, 74, 1, 0, 0, 0, 76, 75, 1, 0, 0, 0, 77, 78, 1, 0, 0, 0, 78, 76, 1, 0, 0, 0, 78, 79, 1, 0, 0, 0, 79, 7, 1, 0, 0, 0, 80, 83, 5, 1, 0, 0, 81, 84, 3, 4, 2, 0, 82, 84, 3, 6, 3, 0, 83, 81, 1, 0, 0, 0, 83, 82, 1, 0, 0, 0, 84, 85, 1, 0, 0, 0, 85, 87, 5, 2, 0, 0, 86, 88, 3, 12, 6, 0, 87, 86, 1, 0, 0, 0, 87, 88, 1, 0, 0, 0, 88, 9, 1, 0, 0, 0, 89, 92, 3, 14, 7, 0, 90, 92, 3, 16, 8, 0, 91, 89, 1, 0, 0, 0, 91, 90, 1, 0, 0, 0, 92, 94, 1, 0, 0, 0, 93, 95, 3, 12, 6, 0, 94, 93, 1, 0, 0, 0, 94, 95, 1, 0, 0, 0, 95, 11, 1, 0, 0, 0, 96, 115, 5, 11, 0, 0, 97, 115, 5, 12, 0, 0, 98, 115, 5, 13, 0, 0, 99, 111, 5, 9, 0, 0, 100, 112, 5, 22, 0, 0, 101, 103, 5, 22, 0, 0, 102, 101, 1, 0, 0, 0, 102, 103, 1, 0, 0, 0, 103, 104, 1, 0, 0, 0, 104, 105, 5, 14, 0, 0, 105, 112, 5, 22, 0, 0, 106, 107, 5, 22, 0, 0, 107, 109, 5, 14, 0, 0, 108, 110, 5, 22, 0, 0, 109, 108, 1, 0, 0, 0, 109, 110, 1, 0, 0, 0, 110, 112, 1, 0, 0, 0, 111, 100, 1, 0, 0, 0, 111, 102, 1, 0, 0, 0, 111, 106, 1, 0, 0, 0, 112, 113, 1, 0, 0, 0, 113, 115, 5, 10, 0, 0, 114, 96, 1, 0, 0, 0, 114, 97, 1, 0, 0, 0, 114, 98, 1, 0, 0, 0, 114, 99, 1, 0, 0, 0, 115, 13, 1, 0, 0, 0, 116, 117, 3, 40, 20, 0, 117, 15, 1, 0, 0, 0, 118, 120, 5, 3, 0, 0, 119, 121, 3, 22, 11, 0, 120, 119, 1, 0, 0, 0, 120, 121, 1, 0, 0, 0, 121, 122, 1, 0, 0, 0, 122, 123, 5, 4, 0, 0, 123, 17, 1, 0, 0, 0, 124, 125, 3, 20, 10, 0, 125, 19, 1, 0, 0, 0, 126, 127, 5, 19, 0, 0, 127, 21, 1, 0, 0, 0, 128, 134, 3, 32, 16, 0, 129, 134, 3, 28, 14, 0, 130, 134, 3, 24, 12, 0, 131, 134, 3, 26, 13, 0, 132, 134, 3, 30, 15, 0, 133, 128, 1, 0, 0, 0, 133, 129, 1, 0, 0, 0, 133, 130, 1, 0, 0, 0, 133, 131, 1, 0, 0, 0, 133, 132, 1, 0, 0, 0, 134, 23, 1, 0, 0, 0, 135, 140, 3, 32, 16, 0, 136, 140, 3, 28, 14, 0, 137, 140, 3, 26, 13, 0, 138, 140, 3, 30, 15, 0, 139, 135, 1, 0, 0, 0, 139, 136, 1, 0, 0, 0, 139, 137, 1, 0, 0, 0, 139, 138, 1, 0, 0, 0, 140, 148, 1, 0, 0, 0, 141, 146, 5, 5, 0, 0, 142, 147, 3, 32, 16, 0, 143, 147, 3, 28, 14, 0, 144, 147, 3, 26, 13, 0, 145, 147, 3, 30, 15, 0, 146, 142, 1, 0, 0, 0, 146, 143, 1, 0, 0, 0, 146, 144, 1, 0, 0, 0, 146, 145, 1, 0, 0, 0, 147, 149, 1, 0, 0, 0, 148, 141, 1, 0, 0, 0, 149, 150, 1, 0, 0, 0, 150, 148, 1, 0, 0, 0, 150, 151, 1, 0, 0, 0, 151, 25, 1, 0, 0, 0, 152, 156, 3, 32, 16, 0, 153, 156, 3, 28, 14, 0, 154, 156, 3, 30, 15, 0, 155, 152, 1, 0, 0, 0, 155, 153, 1, 0, 0, 0, 155, 154, 1, 0, 0, 0, 156, 164, 1, 0, 0, 0, 157, 162, 5, 6, 0, 0, 158, 163, 3, 32, 16, 0, 159, 163, 3, 28, 14, 0, 161, 163, 3, 30, 15, 0, 162, 158, 1, 0, 0, 0, 162, 159, 1, 0, 0, 0, 162, 161, 1, 0, 0, 0, 163, 165, 1, 0, 0, 0, 164, 157, 1, 0, 0, 0, 165, 166, 1, 0, 0, 0, 166, 164, 1, 0, 0, 0, 166, 167, 1, 0, 0, 0, 167, 27, 1, 0, 0, 0, 168, 174, 5, 1, 0, 0, 169, 175, 3, 32, 16, 0, 170, 175, 3, 28, 14, 0, 171, 175, 3, 24, 12, 0, 172, 175, 3, 26, 13, 0, 173, 175, 3, 30, 15, 0, 174, 169, 1, 0, 0, 0, 174, 170, 1, 0, 0, 0, 174, 171, 1, 0, 0, 0, 174, 172, 1, 0, 0, 0, 174, 173, 1, 0, 0, 0, 175, 176, 1, 0, 0, 0, 176, 177, 5, 2, 0, 0, 177, 29, 1, 0, 0, 0, 178, 184, 5, 7, 0, 0, 179, 185, 3, 32, 16, 0, 180, 185, 3, 28, 14, 0, 181, 185, 3, 30, 15, 0, 184, 179, 1, 0, 0, 0, 184, 180, 1, 0, 0, 0, 184, 181, 1, 0, 0, 0, 185, 31, 1, 0, 0, 0, 186, 187, 3, 34, 17, 0, 187, 188, 7, 0, 0, 0, 188, 189, 3, 40, 20, 0, 189, 33, 1, 0, 0, 0, 190, 191, 3, 36, 18, 0, 191, 192, 5, 17, 0, 0, 192, 194, 1, 0, 0, 0, 193, 190, 1, 0, 0, 0, 193, 194, 1, 0, 0, 0, 194, 195, 1, 0, 0, 0, 195, 196, 3, 38, 19, 0, 196, 35, 1, 0, 0, 0, 197, 198, 7, 1, 0, 0, 198, 37, 1, 0, 0, 0, 199, 200, 7, 1, 0, 0, 200, 39, 1, 0, 0, 0, 201, 204, 3, 42, 21, 0, 202, 203, 5, 8, 0, 0, 203, 205, 3, 44, 22, 0, 204, 202, 1, 0, 0, 0, 204, 205, 1, 0, 0, 0, 205, 41, 1, 0, 0, 0, 206, 207, 5, 23, 0, 0, 207, 43, 1, 0, 0, 0, 208, 209, 5, 20, 0, 0, 209, 45, 1, 0, 0, 0, 27, 49, 57, 62, 68, 72, 76, 78, 83, 87, 91, 94, 102, 109, 111, 114, 120, 133, 139, 146, 150, 155, 162, 166, 174, 184, 193, 204]
\ No newline at end of file
diff --git a/src/fcsql/FCSParser.py b/src/fcsql/FCSParser.py
index 6ff9c59..b34c942 100644
--- a/src/fcsql/FCSParser.py
+++ b/src/fcsql/FCSParser.py
@@ -28,7 +28,7 @@ def serializedATN():
         1,17,1,17,1,17,3,17,194,8,17,1,17,1,17,1,18,1,18,1,19,1,19,1,20,
         1,20,1,20,3,20,205,8,20,1,21,1,21,1,22,1,22,1,22,0,0,23,0,2,4,6,
         8,10,12,14,16,18,20,22,24,26,28,30,32,34,36,38,40,42,44,0,2,1,0,
-        15,16,1,0,18,21,237,0,46,1,0,0,0,2,57,1,0,0,0,4,62,1,0,0,0,6,76,
+        15,16,1,0,18,21,231,0,46,1,0,0,0,2,57,1,0,0,0,4,62,1,0,0,0,6,76,
         1,0,0,0,8,80,1,0,0,0,10,91,1,0,0,0,12,114,1,0,0,0,14,116,1,0,0,0,
         16,118,1,0,0,0,18,124,1,0,0,0,20,126,1,0,0,0,22,133,1,0,0,0,24,139,
         1,0,0,0,26,155,1,0,0,0,28,168,1,0,0,0,30,178,1,0,0,0,32,186,1,0,
@@ -69,16 +69,16 @@ def serializedATN():
         148,1,0,0,0,150,151,1,0,0,0,151,25,1,0,0,0,152,156,3,32,16,0,153,
         156,3,28,14,0,154,156,3,30,15,0,155,152,1,0,0,0,155,153,1,0,0,0,
         155,154,1,0,0,0,156,164,1,0,0,0,157,162,5,6,0,0,158,163,3,32,16,
-        0,159,163,3,28,14,0,160,163,3,24,12,0,161,163,3,30,15,0,162,158,
-        1,0,0,0,162,159,1,0,0,0,162,160,1,0,0,0,162,161,1,0,0,0,163,165,
+        0,159,163,3,28,14,0,161,163,3,30,15,0,162,158,
+        1,0,0,0,162,159,1,0,0,0,162,161,1,0,0,0,163,165,
         1,0,0,0,164,157,1,0,0,0,165,166,1,0,0,0,166,164,1,0,0,0,166,167,
         1,0,0,0,167,27,1,0,0,0,168,174,5,1,0,0,169,175,3,32,16,0,170,175,
         3,28,14,0,171,175,3,24,12,0,172,175,3,26,13,0,173,175,3,30,15,0,
         174,169,1,0,0,0,174,170,1,0,0,0,174,171,1,0,0,0,174,172,1,0,0,0,
         174,173,1,0,0,0,175,176,1,0,0,0,176,177,5,2,0,0,177,29,1,0,0,0,178,
         184,5,7,0,0,179,185,3,32,16,0,180,185,3,28,14,0,181,185,3,30,15,
-        0,182,185,3,24,12,0,183,185,3,26,13,0,184,179,1,0,0,0,184,180,1,
-        0,0,0,184,181,1,0,0,0,184,182,1,0,0,0,184,183,1,0,0,0,185,31,1,0,
+        0,184,179,1,0,0,0,184,180,1,
+        0,0,0,184,181,1,0,0,0,185,31,1,0,
         0,0,186,187,3,34,17,0,187,188,7,0,0,0,188,189,3,40,20,0,189,33,1,
         0,0,0,190,191,3,36,18,0,191,192,5,17,0,0,192,194,1,0,0,0,193,190,
         1,0,0,0,193,194,1,0,0,0,194,195,1,0,0,0,195,196,3,38,19,0,196,35,
@@ -1305,13 +1305,6 @@ class FCSParser ( Parser ):
             else:
                 return self.getToken(FCSParser.AND, i)
 
-        def expression_or(self, i:int=None):
-            if i is None:
-                return self.getTypedRuleContexts(FCSParser.Expression_orContext)
-            else:
-                return self.getTypedRuleContext(FCSParser.Expression_orContext,i)
-
-
         def getRuleIndex(self):
             return FCSParser.RULE_expression_and
 
@@ -1377,11 +1370,6 @@ class FCSParser ( Parser ):
                         pass
 
                     elif la_ == 3:
-                        self.state = 160
-                        self.expression_or()
-                        pass
-
-                    elif la_ == 4:
                         self.state = 161
                         self.expression_not()
                         pass
@@ -1526,14 +1514,6 @@ class FCSParser ( Parser ):
             return self.getTypedRuleContext(FCSParser.Expression_notContext,0)
 
 
-        def expression_or(self):
-            return self.getTypedRuleContext(FCSParser.Expression_orContext,0)
-
-
-        def expression_and(self):
-            return self.getTypedRuleContext(FCSParser.Expression_andContext,0)
-
-
         def getRuleIndex(self):
             return FCSParser.RULE_expression_not
 
@@ -1580,16 +1560,6 @@ class FCSParser ( Parser ):
                 self.expression_not()
                 pass
 
-            elif la_ == 4:
-                self.state = 182
-                self.expression_or()
-                pass
-
-            elif la_ == 5:
-                self.state = 183
-                self.expression_and()
-                pass
-
 
         except RecognitionException as re:
             localctx.exception = re
-- 
2.43.0


From 9e9e9b568f692af20dc1a60a95a434dbdb1476fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 14/15] fix: debug logging of visits with handlers that have no
 __name__

Handlers may be any callable (e.g. functools.partial); with debug logging
enabled visit() raised AttributeError for those.
---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 15c7ab5..a95123d 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -174,7 +174,7 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
             method = getattr(self, method_name, self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
-            LOGGER.debug("visiting '%s()': %s", method.__name__, node)
+            LOGGER.debug("visiting '%s()': %s", getattr(method, "__name__", method_name), node)
 
         return method(node)
 
-- 
2.43.0


From fc692b6ee515dfb621be879de2094fe1a3c421d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 15/15] fix: the end of an empty query is a position

The EOF token of the empty query starts at 0 and stops at -1, so its error was
reported without position, unlike that of any other query ending too early.
---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index a95123d..93b1a24 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -375,7 +375,8 @@ class SourceLocation:
     def fromToken(tok: Token):
         if tok.start is None or tok.start == -1:
             return None
-        if tok.stop is None or tok.stop == -1:
+        # NOTE: stop is -1 for the (empty) EOF token of an empty query
+        if tok.stop is None or (tok.stop == -1 and tok.start != 0):
             return None
 
         start = tok.start
-- 
2.43.0

