From 88a8c1d84f36341d5c4f1d8067f6d8c7ffe8c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 1/6] fix: reset the parent node stack for every validation

A validation that ended with an exception left its nodes on the stack, so the
next validation with the same validator saw a stale parent_node, and the old
query tree was kept alive.
---
 src/fcsql/validation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..5120483 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -110,8 +110,12 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         self.errors = []
         self.warnings = []
 
-        # start validation
-        self.visit(node)
+        # start validation, without parent nodes left behind by an earlier aborted run
+        self.stack.clear()
+        try:
+            self.visit(node)
+        finally:
+            self.stack.clear()
 
         num_issues = len(self.errors)
         if self.warnings_as_errors:
-- 
2.43.0


From 6bb92ba1cb59146bed848794290db7da9ffee0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 2/6] fix: report too deeply nested queries in validate()
 instead of raising RecursionError

---
 src/fcsql/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..0545319 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -172,6 +172,14 @@ def validate(
     except SpecificationValidationError:
         # not will raise if raise_at_first_violation enabled
         return False
+    except RecursionError:
+        # nested too deeply for the remaining call stack (same as for parsing errors)
+        if not return_errors:
+            return False
+
+        errors = list(validator.errors)
+        errors.append(ErrorDetail("query is nested too deeply to be validated", type="validation-error"))
+        return errors
 
     errors = list()
     errors.extend(validator.errors)
-- 
2.43.0


From 689892526f946340226b3e6eb81d075b84cb0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 3/6] fix: do not print to stderr in antlr_parse(), raise
 SyntaxError for tokenization errors

The default console listener printed every error and, with a missing or broken
stderr, replaced the documented SyntaxError by an OSError/AttributeError.
---
 src/fcsql/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index 0545319..673d874 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -48,7 +48,14 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     lexer = FCSLexer(input_stream)
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
-    parser.addErrorListener(ExceptionThrowingErrorListener())
+
+    # replace the default error listeners (they only print to stderr)
+    error_listener = ExceptionThrowingErrorListener()
+    lexer.removeErrorListeners()
+    parser.removeErrorListeners()
+    lexer.addErrorListener(error_listener)
+    parser.addErrorListener(error_listener)
+
     tree: FCSParser.QueryContext = parser.query()
     return tree
 
-- 
2.43.0


From 122a39151bd461a2e9359e54bb9f29626bd58d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 4/6] fix: do not rely on the antlr4.error attribute, which an
 interrupted first import leaves unset

---
 src/fcsql/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..ff5b194 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -18,11 +18,11 @@ from typing import TypeVar
 from typing import Union
 
 import antlr4
-import antlr4.error.ErrorListener
 from antlr4 import CommonTokenStream
 from antlr4 import InputStream
 from antlr4 import ParserRuleContext
 from antlr4 import Token
+from antlr4.error.ErrorListener import ErrorListener as AntlrErrorListener
 from antlr4.Recognizer import Recognizer
 from antlr4.tree.Tree import TerminalNodeImpl
 
@@ -947,7 +947,7 @@ class ErrorDetail:
     """optional query string fragment, may be a substring to quickly locate the issue"""
 
 
-class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
+class ErrorListener(AntlrErrorListener):
     def __init__(self, query: str) -> None:
         super().__init__()
         self.query = query
-- 
2.43.0


From b451458682ec07a843adea71e9f00eb711448e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 5/6] fix: import the module the ANTLR runtime loads during the
 first parse together with the library

---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index ff5b194..5655eb7 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -22,6 +22,10 @@ from antlr4 import CommonTokenStream
 from antlr4 import InputStream
 from antlr4 import ParserRuleContext
 from antlr4 import Token
+
+# The ANTLR runtime imports this module in the middle of the first parse of a process.
+# A process forked at that moment would wait forever for the import to be finished.
+from antlr4 import LL1Analyzer  # noqa: F401
 from antlr4.error.ErrorListener import ErrorListener as AntlrErrorListener
 from antlr4.Recognizer import Recognizer
 from antlr4.tree.Tree import TerminalNodeImpl
-- 
2.43.0


From a438a88c9f28785119522e3d2740baab989d315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:27 +0000
Subject: [PATCH 6/6] fix: SpecificationValidationError can be copied and
 unpickled

Exceptions are rebuilt by calling the class with its args, which lacked the
node: copy.copy(), copy.deepcopy() and pickle.loads() raised TypeError, and a
worker process raising this error broke its whole pool.
---
 src/fcsql/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 5120483..ebee3c7 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -42,6 +42,12 @@ class SpecificationValidationError(Exception):
         self.node = node
         self.query_fragment = query_fragment
 
+    def __reduce__(self):
+        # an exception is copied and unpickled by calling its class with ``args``,
+        # which contain neither the node nor the query fragment
+        _, (msg, *args), state = super().__reduce__()
+        return type(self), (msg, self.node, self.query_fragment, *args), state
+
 
 class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
     """An abstract base Validator for FCS-QL queries.
-- 
2.43.0

