From 60161208db82fcf8573b9e71c48498edea5155a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 01/50] fix: recognize decorator macros on async function
 definitions

---
 mcpyrate/expander.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..e2ee64c 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -273,6 +273,9 @@ class MacroExpander(BaseMacroExpander):
     def visit_FunctionDef(self, functiondef):
         return self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        return self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         """Detect a decorator macro invocation.
 
@@ -479,6 +482,9 @@ class MacroCollector(NodeVisitor):
     def visit_FunctionDef(self, functiondef):
         self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         macros, others = self.expander._detect_macro_items(decorated.decorator_list, "decorator")
         if macros:
-- 
2.43.0


From ca03c8476cb065091d5ba9bf2708675ac911f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 02/50] fix: pass an empty list as args to identifier macros,
 as documented

---
 mcpyrate/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index e2ee64c..330d50e 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -376,7 +376,7 @@ class MacroExpander(BaseMacroExpander):
             def ismodified(tree):
                 return not (type(tree) is Name and tree.id == macroname)
             with self._recursive_mode(False):
-                kw = {"args": None}
+                kw = {"args": []}
                 sourcecode = unparse_with_fallbacks(name, debug=True, color=True, expander=self)
                 new_tree = self.expand("name", name, macroname, name, sourcecode=sourcecode, kw=kw)
             if new_tree is None:
-- 
2.43.0


From c5c1ab34b6575ea22370c947fefbfa22b9bef027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 03/50] fix: let MacroCollector ignore subscripted calls that
 are not macro invocations

---
 mcpyrate/expander.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 330d50e..6def34d 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -443,8 +443,11 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
+            # Now we know it's a macro invocation, so we can validate the parenthesis syntax to pass arguments.
+            macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
             key = (macroname, "expr")
             if key not in self._seen:
                 self.collected.append(key)
-- 
2.43.0


From 2230782704f05f1535572aeb8c1e64b8785a8be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 04/50] fix: keep a valid expression when the output of an
 identifier macro expands to nothing

---
 mcpyrate/expander.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 6def34d..b4bf487 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -389,6 +389,8 @@ class MacroExpander(BaseMacroExpander):
                     new_tree = Done(new_tree)
                 elif self.recursive:  # and modified
                     new_tree = self.visit(new_tree)
+                    if new_tree is None:  # nothing left after expanding the output
+                        new_tree = _make_coverage_dummy_expr(name)
         else:
             new_tree = name
         return new_tree
-- 
2.43.0


From 55f94a7fa0957d5e3b1933c41dff685951a49a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 05/50] fix: give every position its own copy of a shared node
 before fixing ctx

When the same node instance was spliced into positions that need different
ctx (e.g. both the target and the value of an assignment), the state overrides
of the ctx fixer, which are keyed by id, collided; and lists shared by the
shallow copies were edited in place.
---
 mcpyrate/astfixers.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..853d257 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -5,20 +5,35 @@ __all__ = ["fix_ctx", "fix_locations"]
 
 from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
                  Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
 from . import walkers
 
-class _CtxFixer(walkers.ASTTransformer):
-    def __init__(self, *, copy_seen_nodes):
-        super().__init__(ctxclass=Load)
-        self.copy_seen_nodes = copy_seen_nodes
-
+class _Unsharer(walkers.ASTTransformer):
+    """Give each position its own copy of any node that has a `ctx`."""
     def reset(self, **bindings):
         super().reset(**bindings)
-        self._seen = set()
+        self._seen = {}  # also keeps the seen objects alive, so that the ids stay valid
+
+    def transform(self, tree):
+        if "ctx" in type(tree)._fields:
+            if id(tree) in self._seen:
+                tree = copy(tree)
+            self._seen[id(tree)] = tree
+        for fieldname, value in iter_fields(tree):
+            if isinstance(value, list):  # `generic_visit` edits lists in-place
+                if id(value) in self._seen:
+                    value = value[:]
+                    setattr(tree, fieldname, value)
+                self._seen[id(value)] = value
+        return self.generic_visit(tree)
+
+
+class _CtxFixer(walkers.ASTTransformer):
+    def __init__(self):
+        super().__init__(ctxclass=Load)
 
     def transform(self, tree):
         tree = self._fix_one(tree)
@@ -28,14 +43,7 @@ class _CtxFixer(walkers.ASTTransformer):
     def _fix_one(self, tree):
         """Fix one `ctx` attribute, using the currently active ctx class."""
         if "ctx" in type(tree)._fields:
-            if self.copy_seen_nodes:
-                # Shallow-copy `tree` if already seen. This mode is used in the
-                # global postprocess pass. Note only nodes whose `ctx` we have
-                # already updated are considered seen.
-                if id(tree) in self._seen:
-                    tree = copy(tree)
             tree.ctx = self.state.ctxclass()
-            self._seen.add(id(tree))
         return tree
 
     def _setup_subtree_contexts(self, tree):
@@ -101,7 +109,11 @@ def fix_ctx(tree, *, copy_seen_nodes):
 
     Modifies `tree` in-place. For convenience, returns the modified `tree`.
     """
-    return _CtxFixer(copy_seen_nodes=copy_seen_nodes).visit(tree)
+    if copy_seen_nodes:
+        # This mode is used in the global postprocess pass. Must be done first,
+        # because the fixer identifies subtrees by their `id`.
+        tree = _Unsharer().visit(tree)
+    return _CtxFixer().visit(tree)
 
 
 def fix_locations(tree, reference_node, *, mode):
-- 
2.43.0


From d48823235c959bdcd7e5a0c79eed25a6d19c2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 06/50] fix: delete a marker whose body is empty instead of
 crashing

---
 mcpyrate/markers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/markers.py b/mcpyrate/markers.py
index 6f073d8..c28fa9b 100644
--- a/mcpyrate/markers.py
+++ b/mcpyrate/markers.py
@@ -63,6 +63,8 @@ def delete_markers(tree, cls=ASTMarker):
     class ASTMarkerDeleter(walkers.ASTTransformer):
         def transform(self, tree):
             if isinstance(tree, cls):
+                if tree.body is None:  # e.g. a `Done` block that expanded to nothing
+                    return None
                 return self.visit(tree.body)
             return self.generic_visit(tree)
     return ASTMarkerDeleter().visit(tree)
-- 
2.43.0


From 433b63a5da5ca078974d2b76d6e90a768c25d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 07/50] fix: let step_expansion dump results that are not an
 AST or a list

---
 mcpyrate/debug.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..0f452a6 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -91,7 +91,11 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
             raise ValueError(f"unknown argument {repr(v)}")
 
         if v == "dump":
-            formatter = functools.partial(dump, include_attributes=True, color=True)
+            def formatter(tree):
+                # A macro may return `None`, or an iterable other than a list; there is no AST to dump.
+                if not isinstance(tree, (ast.AST, list)):
+                    return repr(tree)
+                return dump(tree, include_attributes=True, color=True)
         elif v == "detailed":
             print_details = True
 
-- 
2.43.0


From 2d4acebf3f945cbd748872cbd6be88bd7d4d4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 08/50] fix: let each dialect-import end at the end of its
 line, so that further ones are found

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..29e94dd 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\\n]+)\s*$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From b6a4140db5ef3fa8d7e7329a3f573c6a3914f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:15 +0000
Subject: [PATCH 09/50] fix: find the dependencies of a module whose surface
 syntax is not Python's

---
 mcpyrate/importer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..aa25503 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -8,11 +8,13 @@ from importlib.machinery import SourceFileLoader
 import importlib.util
 import os
 import pickle
+import re
 import sys
 import tokenize
 
 from . import compiler
 from .coreutils import resolve_package, ismacroimport
+from .dialects import _dialectimport
 from .multiphase import iswithphase
 from .unparser import unparse_with_fallbacks
 from .utils import format_location
@@ -55,6 +57,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
 # the same dependency appears again at another place in the graph, we can get
 # its timestamp from the timestamp cache.
 #
+_macroimport_line = re.compile(r"^[ \t]*from\s+\S+\s+import\s+(macros|dialects)\s*,.*$", flags=re.MULTILINE)
 _stdlib_path_stats = SourceFileLoader.path_stats
 def path_xstats(self, path):
     """[mcpyrate] Import hook to compute mtime, accounting for macro-imports.
@@ -155,7 +158,20 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            text = sourcefile.read()
+        try:
+            tree = ast.parse(text, filename=path)
+        except SyntaxError:
+            # A dialect that has a source transformer may introduce new surface syntax. Then
+            # only the text can be scanned; we look for dialect-imports and macro-imports on a single line.
+            if not _dialectimport.search(text):
+                raise
+            tree = ast.Module(body=[], type_ignores=[])
+            for match in _macroimport_line.finditer(text):
+                try:
+                    tree.body.extend(ast.parse(match.group(0).strip(), filename=path).body)
+                except SyntaxError:
+                    pass
 
         macroimports = []
         dialectimports = []
-- 
2.43.0


From 016bbcf2131ad259eae380833c9b0bea9dbd0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 10/50] fix: do not leave the temporary module in sys.modules
 when a multi-phase compile fails

---
 mcpyrate/multiphase.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..c2fb462 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -23,6 +23,7 @@ __all__ = ["phase", "ismultiphase", "detect_highest_phase", "isdebug", "multipha
 import ast
 import sys
 from copy import copy, deepcopy
+from functools import wraps
 
 from . import compiler
 from .colorizer import ColorScheme, setcolor
@@ -318,6 +319,23 @@ def isdebug(tree):
 # --------------------------------------------------------------------------------
 # The multi-phase compiler.
 
+def _restores_sysmodules_on_error(f):
+    """Decorator for `multiphase_expand`. If it fails, don't leave the temporary module in `sys.modules`."""
+    @wraps(f)
+    def wrapper(tree, *, self_module, **kwargs):
+        missing = object()
+        original_module = sys.modules.get(self_module, missing)
+        try:
+            return f(tree, self_module=self_module, **kwargs)
+        except BaseException:
+            if original_module is missing:
+                sys.modules.pop(self_module, None)
+            else:
+                sys.modules[self_module] = original_module
+            raise
+    return wrapper
+
+@_restores_sysmodules_on_error
 def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=-1):
     """Macro-expand an AST in multiple phases, controlled by `with phase[n]`.
 
-- 
2.43.0


From 0b54104c7959bce71369d9b6cea48d881a70a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 11/50] fix: pass on the optimization level to the bytecode
 compiler

---
 mcpyrate/importer.py   | 2 +-
 mcpyrate/multiphase.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index aa25503..b714de0 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -26,7 +26,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, self_module=self.name)
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index c2fb462..b5c3bee 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -418,7 +418,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # Compile the current tree, and run it in the namespace of the temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module)
+            compiler.run(phase_k_tree, module, optimize=_optimize)
 
     # restore `sys.modules` to how it was before we began the multi-phase compile for this module
     if original_module:
-- 
2.43.0


From 2f68a67875d3385d1125c20f2775b3705c29c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 12/50] fix: count the last future-import also when nothing
 follows it

---
 mcpyrate/coreutils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..4f57368 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -272,13 +272,10 @@ def split_futureimports(body):
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
     for k, bstmt in enumerate(body):
         if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+            return docstring, body[:k], body[k:]
+    return docstring, body, []
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From 76dfe152c77584281238e62d9d7e081dfbabea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 13/50] fix: do not take a constant other than a string for a
 docstring

---
 mcpyrate/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..8b5b1a9 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -189,7 +189,7 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            return docstring_node.value if type(docstring_node.value) is str else None
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From edf9fc5b556e66e9151a255379cd8c14e76d210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 14/50] fix: recognize also an empty docstring before
 future-imports

---
 mcpyrate/coreutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 4f57368..034bb8c 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,7 +266,7 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:
         docstring, *body = body
         docstring = [docstring]
     else:
-- 
2.43.0


From c9df62fbdcfaab14d7a77e28f3213deee7aac7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 15/50] fix: make temporary_module clean up an autogenerated
 name, and restore what it replaced

---
 mcpyrate/compiler.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..ddd0c50 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -563,24 +563,35 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     When the context exits, the temporary module is removed from
     `sys.modules`. If the `update_parent` optional kwarg is `True`,
     it is also removed from the parent package's namespace, for
-    symmetry.
+    symmetry. If it replaced an existing module (or attribute of the
+    parent package), the original is restored.
 
     This is useful for sandboxed testing of macros, because the
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    missing = object()
+    replaced_module = sys.modules.get(dotted_name, missing) if isinstance(dotted_name, str) else missing
+    replaced_attr = missing
+    package, finalcomponent = None, None
+    if update_parent and isinstance(dotted_name, str) and dotted_name.find(".") != -1:
+        packagename, finalcomponent = dotted_name.rsplit(".", maxsplit=1)
+        package = sys.modules.get(packagename, None)
+        replaced_attr = getattr(package, finalcomponent, missing)
+
+    module = create_module(dotted_name, filename, update_parent=update_parent)
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
-        try:
-            del sys.modules[dotted_name]
-
-            # The standard importer doesn't do this, but it seems nice for symmetry,
-            # considering the use case.
-            if update_parent and dotted_name.find(".") != -1:
-                packagename, finalcomponent = dotted_name.rsplit(".", maxsplit=1)
-                package = sys.modules.get(packagename, None)
+        if replaced_module is not missing:
+            sys.modules[module.__name__] = replaced_module
+        else:
+            sys.modules.pop(module.__name__, None)
+
+        # The standard importer doesn't do this, but it seems nice for symmetry,
+        # considering the use case.
+        if package is not None:
+            if replaced_attr is not missing:
+                setattr(package, finalcomponent, replaced_attr)
+            elif hasattr(package, finalcomponent):
                 delattr(package, finalcomponent)
-        except BaseException:
-            pass
-- 
2.43.0


From 7b1e56249963a73087c9a59d8cac06f2e2fe1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 16/50] fix: let a source file use macros from a module that
 was created dynamically

---
 mcpyrate/importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b714de0..9106d63 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -219,7 +219,10 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except ValueError:  # already loaded, but has no `__spec__`, e.g. a dynamically created module
+            spec = None
         if spec:  # self-macro-imports have no `spec`, and that's fine.
             origin = spec.origin
             stats = path_stats(origin, _stats_cache)
-- 
2.43.0


From 2682d7ff275cd1c3fc54e9377ad899d792bd1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 17/50] fix: report a source file that is not valid in its
 encoding as a syntax error

---
 mcpyrate/importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 9106d63..6314718 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -158,7 +158,10 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            text = sourcefile.read()
+            try:
+                text = sourcefile.read()
+            except UnicodeError as err:  # Python itself reports this as a syntax error
+                raise SyntaxError(f"(unicode error) {err}", (path, None, None, None)) from err
         try:
             tree = ast.parse(text, filename=path)
         except SyntaxError:
-- 
2.43.0


From 6f2ff934863dcc4c8a4d4d4faa754cf4c480a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 18/50] fix: match search-path entries by whole components, and
 deeper ones first as they resolve

---
 mcpyrate/coreutils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 034bb8c..bc239d8 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -57,15 +57,15 @@ def match_syspath(filename):
 
     If `filename` is not under any directory in `sys.path`, raises `ValueError`.
     """
-    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())
+    absolute_path = pathlib.Path(filename).expanduser().resolve()
+    absolute_filename = str(absolute_path)
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    def sortkey(path):
+        return -len(path.parts), str(path)
+    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):
+        if root_path == absolute_path or root_path in absolute_path.parents:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From 36c28a7cc6be1334a55e988ef48976ea31f0ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 19/50] fix: do not follow symbolic links when deleting
 bytecode cache directories

---
 mcpyrate/pycachecleaner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..a590026 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -38,6 +38,10 @@ def _delete_directory_recursively(path):
     Ignores `FileNotFoundError`, but other errors raise. If an error occurs,
     some files and directories may already have been deleted.
     """
+    if os.path.islink(path):  # `os.walk` follows a link at its top level; delete just the link itself
+        os.unlink(path)
+        return
+
     for root, dirs, files in os.walk(path, topdown=False, followlinks=False):
         for x in files:
             try:
@@ -47,7 +51,11 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
-                os.rmdir(os.path.join(root, x))
+                fullpath = os.path.join(root, x)
+                if os.path.islink(fullpath):
+                    os.unlink(fullpath)
+                else:
+                    os.rmdir(fullpath)
             except FileNotFoundError:
                 pass
 
-- 
2.43.0


From 18c4e233456d2b3996cb46b75756c239f7b29100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 20/50] fix: ignore also a link to a bytecode cache directory
 vanishing during cleaning

---
 mcpyrate/pycachecleaner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index a590026..8229ec2 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -39,7 +39,10 @@ def _delete_directory_recursively(path):
     some files and directories may already have been deleted.
     """
     if os.path.islink(path):  # `os.walk` follows a link at its top level; delete just the link itself
-        os.unlink(path)
+        try:
+            os.unlink(path)
+        except FileNotFoundError:
+            pass
         return
 
     for root, dirs, files in os.walk(path, topdown=False, followlinks=False):
-- 
2.43.0


From 1477420ec9f2a083b7d51d36d090f01f8fc12a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 21/50] fix: run the __main__ module of a package as the main
 program

---
 mcpyrate/repl/macropython.py | 43 +++++++++++-------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..ba55708 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -79,29 +79,28 @@ def import_module_as_main(name, script_mode):
         msg = f"No module named {absolute_name}"
         raise ModuleNotFoundError(msg, name=absolute_name)
 
+    # e.g. "macropython -m somepackage" (possibly a namespace package): initialize it,
+    # and then run its `__main__` module as the main program, like `python -m somepackage` does.
+    if spec.submodule_search_locations is not None and not script_mode:
+        mainpy_name = f"{absolute_name}.__main__"
+        try:
+            return import_module_as_main(mainpy_name, script_mode=False)
+        except ModuleNotFoundError as err:
+            if err.name == mainpy_name:
+                raise ImportError(f"No module named {mainpy_name}; '{absolute_name}' is a package and cannot be directly executed") from err
+            raise
+
     spec.name = "__main__"
     if spec.loader:
         spec.loader.name = "__main__"
 
     module = module_from_spec(spec)
-    try_mainpy = False
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
     elif path:  # e.g. "macropython -m somepackage.module"
         module.__package__ = parent_name
-    elif spec.origin.endswith("__init__.py"):  # e.g. "macropython -m somepackage"
-        module.__package__ = absolute_name
-        try_mainpy = True
-
-    if spec.origin == "namespace":
-        # https://docs.python.org/3/reference/import.html#__path__
-        module.__path__ = spec.submodule_search_locations
-
-    if try_mainpy:
-        # e.g. "import somepackage" in the above case; it's not __main__, so import it normally.
-        assert not script_mode
-        parent_module = import_module(absolute_name)
-    elif spec.loader:
+
+    if spec.loader:
         sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
         try:
             spec.loader.exec_module(module)
@@ -122,22 +121,6 @@ def import_module_as_main(name, script_mode):
         # # __main__ has no parent module so we don't need to do this.
         # if path is not None:
         #     setattr(parent_module, child_name, module)
-    else:  # namespace packages have loader=None
-        try_mainpy = True
-
-    # __init__.py (if any) has run; run __main__.py, like `python -m somepackage` does.
-    if try_mainpy:
-        has_mainpy = True
-        try:
-            # __main__.py doesn't need to have its name set to "__main__", so import it normally.
-            import_module(f"{absolute_name}.__main__")
-        except ImportError as e:
-            if "No module named" in e.msg:
-                has_mainpy = False
-            else:
-                raise
-        if not has_mainpy:
-            raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
 
     return module
 
-- 
2.43.0


From 3c5049620a7356e5ebbb34b15f67e7f0359bc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 22/50] fix: refuse to run a submodule of a module that is not
 a package

---
 mcpyrate/repl/macropython.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index ba55708..12febdc 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -67,6 +67,9 @@ def import_module_as_main(name, script_mode):
         parent_name, _, child_name = absolute_name.rpartition('.')
         parent_module = import_module(parent_name)
         path = parent_module.__spec__.submodule_search_locations
+        if path is None:  # the finders would look for the child at the top level
+            msg = f"No module named {absolute_name}; '{parent_name}' is not a package"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     for finder in sys.meta_path:
         if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-- 
2.43.0


From 58b2c9ed2ed180c794bef1abd3cb630ba538b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 23/50] fix: run the script file itself even if its name is
 that of a builtin module or contains dots

---
 mcpyrate/repl/macropython.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 12febdc..3377c9f 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -13,7 +13,7 @@ import os
 import pathlib
 import sys
 from importlib import import_module
-from importlib.util import module_from_spec, resolve_name
+from importlib.util import module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
@@ -28,9 +28,12 @@ _macropython_module = None  # sys.modules doesn't always seem to keep it, so sta
 
 # --------------------------------------------------------------------------------
 
-def import_module_as_main(name, script_mode):
+def import_module_as_main(name, script_mode, filename=None):
     """Import a module, pretending it's __main__.
 
+    In script mode, `filename` is the source file to run; if not given, it is
+    searched for in `sys.path` by `name`.
+
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
@@ -59,7 +62,7 @@ def import_module_as_main(name, script_mode):
     #     pass
 
     path = None
-    if '.' in absolute_name:
+    if '.' in absolute_name and not filename:
         if script_mode:
             raise ValueError("In script mode, please add the containing directory to `sys.path` and then top-level import the final component of the name.")
         # Import the module's parent package normally to initialize parent packages.
@@ -71,14 +74,17 @@ def import_module_as_main(name, script_mode):
             msg = f"No module named {absolute_name}; '{parent_name}' is not a package"
             raise ModuleNotFoundError(msg, name=absolute_name)
 
-    for finder in sys.meta_path:
+    # Use the given file, also if its name is that of a builtin module, or contains dots.
+    finders = [] if filename else sys.meta_path
+    spec = spec_from_file_location("__main__", filename, submodule_search_locations=None) if filename else None
+    for finder in finders:
         if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
             continue
         # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
         spec = finder.find_spec(absolute_name, path)
         if spec is not None:
             break
-    else:
+    if spec is None:
         msg = f"No module named {absolute_name}"
         raise ModuleNotFoundError(msg, name=absolute_name)
 
@@ -266,7 +272,7 @@ def main():
         elif module_name.endswith(".py"):
             module_name = module_name[:-3]
 
-        import_module_as_main(module_name, script_mode=True)
+        import_module_as_main(module_name, script_mode=True, filename=str(fullpath))
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From 09a3df385a70a099d3ecd790d1616886fbc3b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 24/50] fix: splice_dialect: combined docstring is a statement;
 splice_statements: accept a single-statement template

---
 mcpyrate/splicing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..9ba80a8 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
@@ -266,7 +266,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         template_doc = getdocstring(template_docstring)
         sep = "\n" + ("-" * 79) + "\n"
         new_doc = user_doc + sep + template_doc
-        new_docstring = ast.copy_location(ast.Constant(value=new_doc),
+        new_docstring = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Constant(value=new_doc),
+                                                                           user_docstring[0])),
                                           user_docstring[0])
         docstring = [new_docstring]
     else:
-- 
2.43.0


From ef1d77e7799650fa9bfaa1fa07367a5a49cea30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 25/50] fix: splice_dialect: no empty blocks after lifting the
 imports out

---
 mcpyrate/splicing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 9ba80a8..78b9b97 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -256,6 +256,7 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     for stmt in template:
         fix_locations(stmt, srcloc_dummynode, mode="overwrite")
 
+    first_user_stmt = body[0]
     user_docstring, user_futureimports, body = split_futureimports(body)
     template_docstring, template_futureimports, template = split_futureimports(template)
 
@@ -300,7 +301,12 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
                 if ismacroimport(tree, magicname):
                     self.collect(tree)
                     return None
-                return self.generic_visit(tree)
+                suites = [(suite, suite[-1]) for _, suite in ast.iter_fields(tree) if isinstance(suite, list) and suite]
+                tree = self.generic_visit(tree)
+                for suite, last in suites:
+                    if not suite:  # the imports were all there was in this block
+                        suite.append(ast.copy_location(ast.Pass(), last))
+                return tree
         w = MacroImportExtractor()
         w.visit(tree)
         return tree, w.collected
@@ -309,6 +315,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     body, user_dialect_imports = extract_macroimports(body, magicname="dialects")
     body, user_macro_imports = extract_macroimports(body)
 
+    if not body:  # the user code was all docstring and imports
+        body = [ast.copy_location(ast.Pass(), first_user_stmt)]
     finalbody = splice_statements(body, template, tag)
     return (docstring +
             futureimports +
-- 
2.43.0


From fe25cdb35535c3b3e6b531667c14da31e4b67504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 26/50] fix: rename: names in match patterns and type
 parameters

---
 mcpyrate/utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 8b5b1a9..3af0b32 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,8 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import (MatchAs, MatchClass, MatchMapping, MatchStar,
+                        ParamSpec, TypeVar, TypeVarTuple)
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -88,7 +89,8 @@ def rename(oldname, newname, tree):
 
     Currently: identifiers (names), attribute names, function and class names,
     function parameter names, arguments passed by name, name and asname in imports,
-    and the as-part of an exception handler (binding a name to the exception object).
+    the as-part of an exception handler (binding a name to the exception object),
+    names and attributes in `match` patterns, and type parameters.
 
     Some constructs such as `For` and `With` use `Name` nodes for named things,
     so those are transformed too.
@@ -142,7 +144,17 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:  # attributes matched by name
+                for j in range(len(tree.kwd_attrs)):
+                    if tree.kwd_attrs[j] == oldname:
+                        tree.kwd_attrs[j] = newname
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             return self.generic_visit(tree)
     return Renamer().visit(tree)
 
-- 
2.43.0


From 728b8d08f44742d2e021303550ed5daa4a42ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 27/50] fix: walkers: an override state may be empty, and its
 subtree must stay alive while the override is pending

---
 mcpyrate/walkers.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 248653f..7e6a251 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -51,6 +51,8 @@ class BaseASTWalker:
     def reset(self, **bindings):
         """Clear everything. Load new bindings into a blank `self.state`."""
         self._stack = [Bunch(**bindings)]
+        # `id(tree)` -> (`tree`, state). Keeping a reference to the tree itself prevents
+        # its `id` from being reused while the override is pending.
         self._subtree_overrides = {}
         self.collected = []
 
@@ -89,9 +91,9 @@ class BaseASTWalker:
         # suite, do it for each statement in it.
         if isinstance(tree, list):
             for elt in tree:
-                self._subtree_overrides[id(elt)] = newstate
+                self._subtree_overrides[id(elt)] = (elt, newstate)
         else:
-            self._subtree_overrides[id(tree)] = newstate
+            self._subtree_overrides[id(tree)] = (tree, newstate)
 
     def generic_withstate(self, tree, **bindings):
         """Like `withstate`, but set up the new state for all children of `tree`.
@@ -118,7 +120,7 @@ class BaseASTWalker:
         newstate.update(**bindings)
 
         for node in iter_child_nodes(tree):
-            self._subtree_overrides[id(node)] = newstate
+            self._subtree_overrides[id(node)] = (node, newstate)
 
     def collect(self, value):
         """Collect a value. The values are placed in the list `self.collected`."""
@@ -137,8 +139,8 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        _, newstate = self._subtree_overrides.pop(id(tree), (None, None))
+        if newstate is not None:
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -147,7 +149,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
                 return
             return self.examine(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
@@ -178,8 +180,8 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        _, newstate = self._subtree_overrides.pop(id(tree), (None, None))
+        if newstate is not None:
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -190,7 +192,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
                 return tree
             return self.transform(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
-- 
2.43.0


From 7ab06acc0d0ae10036b539ed0b5efdf802cd8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 28/50] fix: unparse: type parameters of functions and classes

---
 mcpyrate/unparser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..ce03630 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -489,6 +489,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -533,8 +534,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1144,13 +1147,17 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
-            self.write("[")
-            interleave(lambda: self.write(", "), self.dispatch, t.type_params)
-            self.write("]")
+        self.__type_params_helper(t)
         self.write(" = ")
         self.dispatch(t.value)
 
+    def __type_params_helper(self, t):  # `type` statement, function and class definitions
+        type_params = getattr(t, "type_params", None)  # missing before Python 3.12; macro-generated nodes might not have it
+        if type_params:
+            self.write("[")
+            interleave(lambda: self.write(", "), self.dispatch, type_params)
+            self.write("]")
+
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
         self.write(t.name)
-- 
2.43.0


From 32d192b17af4e9fe2630f20f7ef92f02bb0fb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 29/50] fix: unparse: dictionary unpacking

---
 mcpyrate/unparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index ce03630..7dd43fb 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -736,8 +736,11 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
-            self.dispatch(k)
-            self.write(": ")
+            if k is None:  # dictionary unpacking, `{**v}`
+                self.write("**")
+            else:
+                self.dispatch(k)
+                self.write(": ")
             self.dispatch(v)
         interleave(lambda: self.write(", "), write_pair, zip(t.keys, t.values))
         self.write("}")
-- 
2.43.0


From a68ee7ef3c2f1bb24bce610e7249fded3d158401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 30/50] fix: unparse: empty tuple as subscript, Expression, and
 a lone except clause

---
 mcpyrate/unparser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 7dd43fb..232112b 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -292,16 +292,17 @@ class Unparser:
         self.toplevelnode(t)
 
     def toplevelnode(self, t):
+        body = t.body if isinstance(t.body, list) else [t.body]  # the body of an `Expression` is a single node
         if self.debug:
             label = f"${t.__class__.__name__}"
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
+            for stmt in body:
                 self.dispatch(stmt)
             self.leave()
         else:
-            for stmt in t.body:
+            for stmt in body:
                 self.dispatch(stmt)
 
     # stmt
@@ -454,7 +455,8 @@ class Unparser:
         self.__Try_helper(t, mode="TryStar")
 
     def _ExceptHandler(self, t):
-        mode = self._except_handler_mode_stack[-1]
+        # A handler may also be unparsed by itself.
+        mode = self._except_handler_mode_stack[-1] if self._except_handler_mode_stack else "Try"
         if mode == "Try":
             self.fill(self.maybe_colorize_python_keyword("except"), lineno_node=t)
         elif mode == "TryStar":  # Python 3.11+
@@ -889,7 +891,7 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        if type(t.slice) is ast.Tuple and t.slice.elts:
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From 5ee9010259b2e5b4741063ad47f3fc4dd74f323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 31/50] fix: unparse: escaping in f-strings

---
 mcpyrate/unparser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 232112b..39a1e69 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -851,6 +851,12 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
+        # An expression starting with a brace needs a space, because `{{` is an escaped brace.
+        v = t.value
+        while isinstance(v, (ast.Attribute, ast.Subscript, ast.Call)):
+            v = v.func if isinstance(v, ast.Call) else v.value
+        if isinstance(v, (ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
+            self.write(" ")
         self.dispatch(t.value)
         if t.conversion == 115:
             self.write(c("!s"))
@@ -864,7 +870,7 @@ class Unparser:
             raise ValueError(f"Don't know how to unparse conversion code {t.conversion}")
         if t.format_spec:
             self.write(c(":"))
-            self._JoinedStr_helper(t.format_spec)
+            self._JoinedStr_helper(t.format_spec, is_format_spec=True)
         self.write(c("}"))
 
     def _JoinedStr(self, t):
@@ -872,9 +878,12 @@ class Unparser:
         self._JoinedStr_helper(t)
         self.write(self.maybe_colorize("'", ColorScheme.STRING))
 
-    def _JoinedStr_helper(self, t):
+    def _JoinedStr_helper(self, t, is_format_spec=False):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            s = repr('"' + s)[2:-1]  # the `"` makes `repr` use single quotes, like we do
+            if is_format_spec:  # no doubled braces there
+                return s.replace("{", r"\x7b").replace("}", r"\x7d")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From a3f3a5954be6b645e45b39e17908348149883498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 32/50] fix: unparse: signed numbers, nested or-patterns and
 as-patterns

---
 mcpyrate/unparser.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 39a1e69..0dafc18 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1082,7 +1082,19 @@ class Unparser:
         self.leave()
 
     def _MatchValue(self, t):
-        self.dispatch(t.value)
+        self.__pattern_value_helper(t.value)
+
+    def __pattern_value_helper(self, v):  # `MatchValue`, and the keys of a `MatchMapping`
+        # The grammar of patterns has signed numbers, and sums of a real and an imaginary number, but without parentheses.
+        if type(v) is ast.UnaryOp and type(v.op) is ast.USub:
+            self.write("-")
+            self.__pattern_value_helper(v.operand)
+        elif type(v) is ast.BinOp and type(v.op) in (ast.Add, ast.Sub):
+            self.__pattern_value_helper(v.left)
+            self.write(" " + self.binop[v.op.__class__.__name__] + " ")
+            self.__pattern_value_helper(v.right)
+        else:
+            self.dispatch(v)
 
     def _MatchSingleton(self, t):
         self.write(self.maybe_colorize(repr(t.value), ColorScheme.NAMECONSTANT))  # None, True or False.
@@ -1103,7 +1115,7 @@ class Unparser:
         self.write("{")
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            self.__pattern_value_helper(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
@@ -1140,16 +1152,28 @@ class Unparser:
                 self.write(t.name)
             else:
                 # The or-pattern usually doesn't use parentheses, but when named, they are useful.
-                if type(t.pattern) is ast.MatchOr:
+                # An as-pattern inside another one needs them.
+                parens = type(t.pattern) in (ast.MatchOr, ast.MatchAs) and not self.__is_simple_pattern(t.pattern)
+                if parens:
                     self.write("(")
                 self.dispatch(t.pattern)
-                if type(t.pattern) is ast.MatchOr:
+                if parens:
                     self.write(")")
                 self.write(" as ")
                 self.write(t.name)
 
+    def __is_simple_pattern(self, p):  # capture or wildcard
+        return type(p) is ast.MatchAs and p.pattern is None
+
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        def write_pattern(p):
+            parens = type(p) in (ast.MatchOr, ast.MatchAs) and not self.__is_simple_pattern(p)
+            if parens:
+                self.write("(")
+            self.dispatch(p)
+            if parens:
+                self.write(")")
+        interleave(lambda: self.write(" | "), write_pattern, t.patterns)
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From 4100fe4d82722e2dbb78c4b81b7d2795cc2d8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 33/50] fix: unparse: a with item that is a tuple

---
 mcpyrate/unparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 0dafc18..7ef12ac 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1043,7 +1043,13 @@ class Unparser:
             self.write(self.maybe_colorize_python_keyword(" as ") + t.asname)
 
     def _withitem(self, t):
+        # `with (a, b):` has two items; a single item that is a tuple needs another pair of parentheses.
+        parens = type(t.context_expr) is ast.Tuple and not t.optional_vars
+        if parens:
+            self.write("(")
         self.dispatch(t.context_expr)
+        if parens:
+            self.write(")")
         if t.optional_vars:
             self.write(self.maybe_colorize_python_keyword(" as "))
             self.dispatch(t.optional_vars)
-- 
2.43.0


From 70f433f533bd4986309283adda6844a72d71feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 34/50] fix: unparse: negative and nan constants

---
 mcpyrate/unparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 7ef12ac..e7a3a09 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -635,7 +635,11 @@ class Unparser:
             self.write("u")
         if type(t.value) in (int, float, complex):
             # Represent AST infinity as an overflowing decimal literal.
-            v = repr(t.value).replace("inf", INFSTR)
+            v = repr(t.value)
+            v = v.replace("nanj", "(infj-infj)").replace("nan", "(inf-inf)")
+            v = v.replace("inf", INFSTR)
+            if v.startswith("-"):  # no such literal; keep as one operand if inside an expression
+                v = f"({v})"
             v = self.maybe_colorize(v, ColorScheme.NUMBER)
         elif t.value is Ellipsis:
             v = "..."
-- 
2.43.0


From 94b7cfe5aeff8df9f5bb4f493d03f426ea042983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 35/50] fix: quasiquotes: splice lists of trees anywhere in the
 quoted code, and allow absent items in lists

---
 mcpyrate/quotes.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..2266271 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -223,16 +223,11 @@ def splice_ast_literals(tree, filename):
                     doit(item)
                     newthing.append(item)
             thing[:] = newthing
-        # As of Python 3.9, `Global` and `Nonlocal` are the only AST node types
-        # where a field contains a `list` of bare strings.
-        elif isinstance(thing, (ast.Global, ast.Nonlocal)):
-            pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
-                    doit(value)
-        else:
-            raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
+                doit(value)
+        # Else a bare value in an AST node field (e.g. an identifier), or an
+        # absent optional item (e.g. in `Dict.keys`); nothing to do.
     doit(tree)
 
     try:
-- 
2.43.0


From 65de2c3dd8b4ff69e9aa24e61fe0f1f12c5ce03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 36/50] fix: quasiquotes: lift complex numbers

---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 2266271..63ec9ea 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -709,7 +709,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From 31c4da41de454b2fc73b23d091ae88f1a70f35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 37/50] fix: unparse: empty set

---
 mcpyrate/unparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index e7a3a09..381c4a1 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -733,7 +733,9 @@ class Unparser:
         self.write(")")
 
     def _Set(self, t):
-        assert t.elts  # should be at least one element
+        if not t.elts:  # there is no literal for an empty set
+            self.write("{*()}")
+            return
         self.write("{")
         interleave(lambda: self.write(", "), self.dispatch, t.elts)
         self.write("}")
-- 
2.43.0


From f66f8bd4d8b198c199f12d7ccb26391acce0fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 38/50] fix: hygienic values: captures whose data gets the
 address of an earlier one's

---
 mcpyrate/quotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 63ec9ea..fed32fc 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -330,8 +330,9 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep also `frozen_value` alive, so that its id isn't reused for another capture.
+        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))
+    return _lookup_cache[cachekey][1]
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From 479742197b50334d822238046b15c407a30eb9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 39/50] fix: hygienic values: equal values captured twice in a
 module are separate

---
 mcpyrate/quotes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index fed32fc..d6de798 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -20,6 +20,7 @@ import ast
 import copy
 import pickle
 import sys
+import uuid
 
 from .core import Done, MacroExpansionError, global_bindings
 from .coreutils import _mcpyrate_attr
@@ -292,7 +293,10 @@ def capture_value(value, name):
     # Putting these considerations together, we pickle the value, causing a copy
     # and serialization.
     #
-    frozen_value = pickle.dumps(value)
+    # Equal constants in the same module are merged by Python's compiler, so we
+    # make the data of each capture unique. The unpickler ignores what comes
+    # after the pickled value.
+    frozen_value = pickle.dumps(value) + uuid.uuid4().bytes
     return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                     [ast.Tuple(elts=[ast.Constant(value=name),
                                      ast.Constant(value=frozen_value)])],
-- 
2.43.0


From 5bf20c14c2eaa7d78036840aecf5e47f8e5782e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 40/50] fix: expandsq and expand1sq in block mode expand the
 quoted block

---
 mcpyrate/metatools.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..2150cc7 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -184,10 +184,15 @@ def expand1sq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expand1sq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:  # the asname was meant for `q`, `expand1s` doesn't take it.
-        kw["optional_vars"] = None
-    return expand1s(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expand1s(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        kw = dict(kw)
+        kw["optional_vars"] = None  # the asname was meant for `q`, `expand1s` doesn't take it.
+        tree.value = expand1s(tree.value, syntax="expr", **kw)  # the RHS is an expression
+        return tree
 
 
 def expandsq(tree, *, syntax, **kw):
@@ -212,10 +217,15 @@ def expandsq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expandsq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:
-        kw["optional_vars"] = None
-    return expands(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expands(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        kw = dict(kw)
+        kw["optional_vars"] = None  # the asname was meant for `q`, `expands` doesn't take it.
+        tree.value = expands(tree.value, syntax="expr", **kw)  # the RHS is an expression
+        return tree
 
 
 def expand1s(tree, *, syntax, expander, **kw):
-- 
2.43.0


From 5bedab78ab16e70e792027f2f4f0d284e4cd5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 41/50] fix: unastify raises TypeError for calls that are not
 quoted code

---
 mcpyrate/quotes.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index d6de798..8bee5cd 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -806,21 +806,16 @@ def unastify(tree):
     you'll get the final AST with the actual unquoted values spliced in.
     """
     # CAUTION: in `unastify`, we implement only what we minimally need.
-    our_module_globals = globals()
     def lookup_thing(dotted_name):
-        if not dotted_name.startswith("mcpyrate.quotes"):
-            raise NotImplementedError(f"Don't know how to look up {repr(dotted_name)}")
-        path = dotted_name.split(".")
-        if not all(component.isidentifier() for component in path):
-            raise NotImplementedError(f"Dotted name {repr(dotted_name)} contains at least one non-identifier component")
-        if len(path) < 3:
-            raise NotImplementedError(f"Dotted name {repr(dotted_name)} has fewer than two dots (expected 'mcpyrate.quotes.something')")
-        name_of_thing = path[2]
-        thing = our_module_globals[name_of_thing]
-        if len(path) > 3:
-            for attrname in path[3:]:
-                thing = getattr(thing, attrname)
-        return thing
+        # For AST nodes, `astify` generates calls to `mcpyrate.quotes.ast.SomeNode` and `mcpyrate.quotes.Done`.
+        if dotted_name == "mcpyrate.quotes.Done":
+            return Done
+        module_name, _, name_of_thing = dotted_name.rpartition(".")
+        if module_name == "mcpyrate.quotes.ast":
+            thing = getattr(ast, name_of_thing, None)
+            if isinstance(thing, type) and issubclass(thing, ast.AST):
+                return thing
+        raise TypeError(f"Don't know how to unastify a call to {repr(dotted_name)}")
 
     T = type(tree)
 
-- 
2.43.0


From 164acc3c6aa962913991ab519c51d8bea31423dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 42/50] fix: expand_first accepts a hygienically captured macro
 q[h[macroname]]

---
 mcpyrate/metatools.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 2150cc7..72ee899 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -48,7 +48,7 @@ from .astfixers import fix_locations  # noqa: F401, used in macro output.
 from .coreutils import _mcpyrate_attr
 from .debug import step_expansion  # noqa: F401, used in macro output.
 from .expander import MacroExpander, namemacro, parametricmacro
-from .quotes import astify, capture_value, q, unastify
+from .quotes import Capture, astify, capture_value, q, unastify
 from .unparser import unparse_with_fallbacks
 from .utils import extract_bindings
 
@@ -515,6 +515,19 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # which hygienic captures are macros.
     args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
 
+    # At this point a `q[h[somemacro]]` is code that makes, at run time, a `Name` node
+    # for the captured macro. We need that node already now.
+    def capture_to_name(node):
+        if type(node) is ast.Call:
+            try:
+                captured = unastify(node)
+            except TypeError:  # not quoted code
+                return node
+            if type(captured) is Capture and type(captured.body) is ast.Name and captured.body.id in expander.bindings:
+                return captured.body
+        return node
+    args = [capture_to_name(node) for node in args]
+
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
     if invalid_args:
-- 
2.43.0


From 53dc4730610530c08dcc4d3764683fe24b6feba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 43/50] fix: quasiquote markers that have other fields than
 body can be copied

---
 mcpyrate/quotes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 8bee5cd..d7f9700 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -80,7 +80,7 @@ class LiftSourcecode(QuasiquoteMarker):
 
     This allows e.g. computing names of lexical variables.
     """
-    def __init__(self, body, filename):
+    def __init__(self, body=None, filename=None):  # `copy` and `deepcopy` call this without arguments
         super().__init__(body)
         self.filename = filename
         self._fields += ["filename"]
@@ -88,7 +88,7 @@ class LiftSourcecode(QuasiquoteMarker):
 
 class ASTLiteral(QuasiquoteMarker):  # similar to `macropy`'s `Literal`, but supports block mode, too.
     """Interpolate the given AST. Emitted by `a`."""
-    def __init__(self, body, syntax):
+    def __init__(self, body=None, syntax=None):  # `copy` and `deepcopy` call this without arguments
         super().__init__(body)
         self.syntax = syntax
         self._fields += ["syntax"]
@@ -115,7 +115,7 @@ class Capture(QuasiquoteMarker):  # like `macropy`'s `Captured`
     to support bytecode caching for source files that invoke a macro that uses
     `h[]` in its output.)
     """
-    def __init__(self, body, name):
+    def __init__(self, body=None, name=None):  # `copy` and `deepcopy` call this without arguments
         super().__init__(body)
         self.name = name
         self._fields += ["name"]
-- 
2.43.0


From 88b371c6dfc4d1d9fe7d20e988180dd94da4776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 44/50] fix: REPL: only what isn't Python code is an obj?
 command

---
 mcpyrate/repl/console.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..ccebe3e 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -135,16 +135,26 @@ class MacroConsole(code.InteractiveConsole):
         if source == "macros?":
             self.write(format_bindings(self.expander, color=True))
             return False  # complete input
-        elif source.endswith("??"):
-            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
-            return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
-        elif source.endswith("?"):
-            return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
 
         try:
             code = self.compile(source, filename, symbol)
         except (OverflowError, SyntaxError, ValueError):
             code = ""
+
+        # An `obj?` isn't valid Python, so it doesn't get mixed up with code that ends in a question
+        # mark (e.g. in a comment, or in a multiline string that is being entered).
+        if code == "":
+            for suffix, function_name in (("??", "sourcecode"), ("?", "doc")):
+                if source.endswith(suffix):
+                    thing = source[:-len(suffix)].strip()
+                    try:
+                        ast.parse(thing, mode="eval")
+                    except (SyntaxError, ValueError):
+                        continue
+                    # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
+                    self._internal_execute(f"mcpyrate.repl.utils.{function_name}({thing})")
+                    return False  # complete input
+
         if code is None:  # incomplete input
             return True
 
-- 
2.43.0


From 3cb2ed0ec1e28361da78dc3a3c36a19af797ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 45/50] fix: REPL: any error in importing or expanding macros
 is shown, and the session goes on

---
 mcpyrate/repl/console.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index ccebe3e..0e3ee59 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -193,6 +193,9 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # e.g. an error raised by the macro module itself while it was being imported
+            self.showtraceback()
+            return False  # erroneous input
 
         self.runcode(code)
         self._refresh_macro_functions()
-- 
2.43.0


From 0c7a66df7614d91cd3f810bb9495094ab07dd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 46/50] fix: REPL: support the symbols exec and eval in
 runsource

---
 mcpyrate/repl/console.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 0e3ee59..7fc2650 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -161,7 +161,7 @@ class MacroConsole(code.InteractiveConsole):
         try:
             # TODO: If we want to support dialects in the REPL, this is where to do it.
             #       Look at `mcpyrate.compiler.compile`.
-            tree = ast.parse(source, self.filename)
+            tree = ast.parse(source, self.filename, mode=("eval" if symbol == "eval" else "exec"))
 
             # macro-imports (this will import the modules)
             sys.modules[_magic_module_name].__dict__.clear()
@@ -170,15 +170,18 @@ class MacroConsole(code.InteractiveConsole):
             # defines a variable of the same name in the user namespace, the metadata fields
             # in the magic module won't be overwritten.
             sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)
-            bindings = find_macros(tree, filename=self.expander.filename,
-                                   reload=True, self_module=_magic_module_name)
+            bindings = {}
+            if symbol != "eval":  # an expression has no macro-imports
+                bindings = find_macros(tree, filename=self.expander.filename,
+                                       reload=True, self_module=_magic_module_name)
             if bindings:
                 self._macro_bindings_changed = True
                 self.expander.bindings.update(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
 
-            tree = ast.Interactive(tree.body)
+            if symbol == "single":
+                tree = ast.Interactive(tree.body)
             code = compile(tree, filename, symbol, self.compile.compiler.flags, 1)
         except (OverflowError, SyntaxError, ValueError, MacroExpansionError):
             self.showsyntaxerror(filename)
-- 
2.43.0


From 2c40cf9c463d657ce86a40f6bd66fce8d8363cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 47/50] fix: REPL: macro functions imported by an input are
 bound as such to their names

---
 mcpyrate/repl/console.py  | 26 +++++++-------------------
 mcpyrate/repl/iconsole.py | 28 +++++++---------------------
 2 files changed, 14 insertions(+), 40 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 7fc2650..2fceebc 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -40,7 +40,7 @@ class MacroConsole(code.InteractiveConsole):
     def __init__(self, locals=None, filename="<interactive input>"):
         """Parameters like in `code.InteractiveConsole`."""
         self.expander = MacroExpander(bindings={}, filename=filename)
-        self._macro_bindings_changed = False
+        self._imported_macros = {}
 
         if locals is None:
             locals = {}
@@ -175,7 +175,7 @@ class MacroConsole(code.InteractiveConsole):
                 bindings = find_macros(tree, filename=self.expander.filename,
                                        reload=True, self_module=_magic_module_name)
             if bindings:
-                self._macro_bindings_changed = True
+                self._imported_macros.update(bindings)
                 self.expander.bindings.update(bindings)
             tree = self.expander.visit(tree)
             tree = global_postprocess(tree)
@@ -205,24 +205,12 @@ class MacroConsole(code.InteractiveConsole):
         return False  # Successfully compiled. `runcode` takes care of any runtime failures.
 
     def _refresh_macro_functions(self):
-        """Refresh macro function imports.
+        """Make the macro functions imported by the input available as regular Python objects.
 
         Called after successfully compiling and running an input, so that
         `some_macro.__doc__` points to the right docstring.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-
-        for asname, function in self.expander.bindings.items():
-            # Catch broken bindings due to erroneous imports in user code
-            # (e.g. accidentally to a module object instead of to a function object)
-            if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
-                continue
-            if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
-                continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+        # We bind the function objects themselves, because a macro function doesn't need to have
+        # a name by which it could be imported (e.g. a closure returned by a decorator).
+        self.locals.update(self._imported_macros)
+        self._imported_macros.clear()
diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index b744c36..cb97c99 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -23,7 +23,6 @@ line magic.
 
 import ast
 import copy
-from functools import partial
 import sys
 
 from IPython.core import magic_arguments
@@ -138,7 +137,7 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
             if bindings:
-                self._ipyextension._macro_bindings_changed = True
+                self._ipyextension._imported_macros.update(bindings)
                 self.expander.bindings.update(bindings)
             new_tree = self.expander.visit(tree)
             new_tree = global_postprocess(new_tree)
@@ -153,7 +152,7 @@ class IMcpyrateExtension:
     """IPython extension. Import, define and use `mcpyrate` macros in the IPython REPL."""
 
     def __init__(self, shell):
-        self._macro_bindings_changed = False
+        self._imported_macros = {}
         self.src = _placeholder
         self.shell = shell
 
@@ -197,26 +196,13 @@ class IMcpyrateExtension:
         return lines
 
     def _refresh_macro_functions(self, info):
-        """Refresh macro function imports.
+        """Make the macro functions imported by the cell available as regular Python objects.
 
         Called after running a cell, so that IPython help "some_macro?" works
         for the currently available macros, allowing the user to easily view
         macro docstrings.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-        internal_execute = partial(self.shell.run_cell,
-                                   store_history=False,
-                                   silent=True)
-
-        for asname, function in self.macro_transformer.expander.bindings.items():
-            # Catch broken bindings due to erroneous imports in user code
-            # (e.g. accidentally to a module object instead of to a function object)
-            if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
-                continue
-            if not function.__module__:  # Macros defined in the REPL have `__module__=None`.
-                continue
-            commands = ["%%ignore_importerror",
-                        f"from {function.__module__} import {function.__qualname__} as {asname}"]
-            internal_execute("\n".join(commands))
+        # We bind the function objects themselves, because a macro function doesn't need to have
+        # a name by which it could be imported (e.g. a closure returned by a decorator).
+        self.shell.user_ns.update(self._imported_macros)
+        self._imported_macros.clear()
-- 
2.43.0


From f08d5538618b39eb004b2765d2c2f25bedeed98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 48/50] fix: Bunch: a missing attribute raises AttributeError,
 so hasattr, copying and pickling work

---
 mcpyrate/bunch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 9277e4a..e3bbd21 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -32,6 +32,9 @@ class Bunch:
         self._data = other.copy()._data
 
     def __getattr__(self, name):
+        # No data yet if we are being unpickled or copied.
+        if name in ("_data", "_reserved_names") or name not in self._data:
+            raise AttributeError(f"Bunch has no attribute '{name}'")
         return self._data[name]
     def __setattr__(self, name, value):
         if name in ("_data", "_reserved_names"):
@@ -40,6 +43,8 @@ class Bunch:
             raise AttributeError(f"Cannot write to reserved attribute '{name}'")
         self._data[name] = value
     def __delattr__(self, name):
+        if name not in self._data:
+            raise AttributeError(f"Bunch has no attribute '{name}'")
         del self._data[name]
 
     # Container, Iterable, Sized
-- 
2.43.0


From a96d77f907c02b48e8d264d02eb0d1bd7613bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 49/50] fix: IPython magic dump_ast: macros in a lone
 expression can be expanded (-m eval -e yes)

---
 mcpyrate/repl/iconsole.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index cb97c99..6a83606 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -134,8 +134,11 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             # in `user_ns` even if the user explicitly doesn't.)
             sys.modules[_magic_module_name].__dict__.update(self._ipyextension.magic_module_metadata)
             # macro-imports (this will import the modules)
-            bindings = find_macros(tree, filename=self.expander.filename,
-                                   reload=True, self_module=_magic_module_name)
+            # (there can be none in a lone expression, `%%dump_ast -m eval`)
+            bindings = {}
+            if not isinstance(tree, ast.Expression):
+                bindings = find_macros(tree, filename=self.expander.filename,
+                                       reload=True, self_module=_magic_module_name)
             if bindings:
                 self._ipyextension._imported_macros.update(bindings)
                 self.expander.bindings.update(bindings)
-- 
2.43.0


From 853bc92c25e3f2bae6024a79b5b9443ac70910cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 50/50] fix: code that calls capture_value, lookup_value or
 lookup_macro otherwise than captures do isn't taken for a capture

---
 mcpyrate/quotes.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index d7f9700..839106f 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -500,18 +500,13 @@ def is_captured_value(tree):
     # This AST destructuring and constant extraction must match the format
     # of the argument lists produced by the quasiquote system for calls to
     # `capture_value` and `lookup_value`.
+    # (Anything else is just some user code that calls these functions.)
     if callee.attr == "capture_value":  # the call is `capture_value(..., name)`
-        name_node = tree.args[1]
-        assert type(name_node) is ast.Constant and type(name_node.value) is str
-        return (name_node.value, None)  # the value hasn't been captured yet
-    elif callee.attr == "lookup_value":  # the call is `lookup_value(key)`
-        key_node = tree.args[0]
-        name_node, frozen_value_node = key_node.elts
-        assert type(name_node) is ast.Constant and type(name_node.value) is str
-        assert type(frozen_value_node) is ast.Constant and type(frozen_value_node.value) is bytes
-        return (name_node.value, frozen_value_node.value)
-
-    assert False  # cannot happen
+        if not (len(tree.args) == 2 and not tree.keywords and _is_constant(tree.args[1], str)):
+            return False
+        return (tree.args[1].value, None)  # the value hasn't been captured yet
+    else:  # the call is `lookup_value(key)`
+        return _extract_key(tree, str, bytes)
 
 
 def is_captured_macro(tree):
@@ -596,12 +591,21 @@ def is_captured_macro(tree):
     # This AST destructuring and constant extraction must match the format
     # of the argument lists produced by the quasiquote system for calls to
     # `lookup_macro`.
-    key_node = tree.args[0]  # the call is `lookup_macro(key)`
-    name_node, unique_name_node, frozen_macro_node = key_node.elts
-    assert type(name_node) is ast.Constant and type(name_node.value) is str
-    assert type(unique_name_node) is ast.Constant and type(unique_name_node.value) is str
-    assert type(frozen_macro_node) is ast.Constant and type(frozen_macro_node.value) is bytes
-    return (name_node.value, unique_name_node.value, frozen_macro_node.value)
+    return _extract_key(tree, str, str, bytes)  # the call is `lookup_macro(key)`
+
+
+def _is_constant(tree, cls):
+    return type(tree) is ast.Constant and type(tree.value) is cls
+
+
+def _extract_key(tree, *classes):
+    """Return the key in a `lookup_xxx(key)` call, or `False` if that isn't a tuple of constants of the given types."""
+    if len(tree.args) != 1 or tree.keywords or type(tree.args[0]) is not ast.Tuple:
+        return False
+    elts = tree.args[0].elts
+    if not (len(elts) == len(classes) and all(_is_constant(elt, cls) for elt, cls in zip(elts, classes))):
+        return False
+    return tuple(elt.value for elt in elts)
 
 
 def _is_mcpyrate_quotes_reference(tree):
@@ -622,7 +626,7 @@ def _is_mcpyrate_quotes_reference(tree):
     if type(moduleref) is ast.Name and moduleref.id == "mcpyrate":
         return "direct"  # ok, direct reference
     elif (type(moduleref) is ast.Call and type(moduleref.func) is ast.Name and
-          moduleref.func.id == "__import__" and type(moduleref.args[0]) is ast.Constant and
+          moduleref.func.id == "__import__" and moduleref.args and type(moduleref.args[0]) is ast.Constant and
           moduleref.args[0].value == "mcpyrate.quotes"):
         return "import"  # ok, reference by import
     else:
-- 
2.43.0

