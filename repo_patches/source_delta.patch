From 9f75ef24148f1ae7184f26f13ff0b81502166209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 01/25] fix: empty list of lists of dicts has the list-of-pairs
 element type

---
 opshin/type_impls.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 98bc8b8..a09366b 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3432,9 +3432,12 @@ def empty_list_sample_value(p: Type):
     if isinstance(p.typ, ListType):
         return uplc.BuiltinList([], empty_list_sample_value(p.typ.typ))
     if isinstance(p.typ, DictType):
-        return uplc.BuiltinPair(
-            uplc.PlutusConstr(0, frozenlist([])),
-            uplc.PlutusConstr(0, frozenlist([])),
+        return uplc.BuiltinList(
+            [],
+            uplc.BuiltinPair(
+                uplc.PlutusConstr(0, frozenlist([])),
+                uplc.PlutusConstr(0, frozenlist([])),
+            ),
         )
     if (
         isinstance(p.typ, RecordType)
-- 
2.43.0


From 0120f6e92b6f5441f4aec4adfa0bc1717119191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 02/25] fix: int() of text with an underscore not preceded by a
 digit fails as in Python

---
 opshin/type_impls.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index a09366b..ac370a7 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3067,6 +3067,20 @@ class IntImpl(PolymorphicFunction):
                             "is_whitespace",
                             OLambda(["b"], is_whitespace_expr),
                         ),
+                        (
+                            "is_digit",
+                            OLambda(
+                                ["b"],
+                                plt.And(
+                                    plt.LessThanEqualsInteger(
+                                        plt.Integer(ord("0")), OVar("b")
+                                    ),
+                                    plt.LessThanEqualsInteger(
+                                        OVar("b"), plt.Integer(ord("9"))
+                                    ),
+                                ),
+                            ),
+                        ),
                         (
                             "strip_left",
                             plt.RecFun(
@@ -3181,7 +3195,23 @@ class IntImpl(PolymorphicFunction):
                                                 plt.EqualsInteger(
                                                     OVar("b"), plt.Integer(ord("_"))
                                                 ),
-                                                OVar("s"),
+                                                # underscores may only follow a digit
+                                                plt.Ite(
+                                                    plt.Apply(
+                                                        OVar("is_digit"),
+                                                        plt.IndexByteString(
+                                                            OVar("e"),
+                                                            plt.SubtractInteger(
+                                                                OVar("i"),
+                                                                plt.Integer(1),
+                                                            ),
+                                                        ),
+                                                    ),
+                                                    OVar("s"),
+                                                    plt.TraceError(
+                                                        "ValueError: invalid literal for int() with base 10"
+                                                    ),
+                                                ),
                                                 plt.Ite(
                                                     plt.Or(
                                                         plt.LessThanInteger(
-- 
2.43.0


From 95d4d1125e1d17b47f60f92e9d58fc3661a413d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 03/25] fix: a None argument or list element is decoded to unit
 instead of an unapplied function

---
 opshin/type_impls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index ac370a7..d5df309 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3510,7 +3510,7 @@ TransformExtParamsMap = {
     IntegerInstanceType: lambda x: plt.UnIData(x),
     ByteStringInstanceType: lambda x: plt.UnBData(x),
     StringInstanceType: lambda x: plt.DecodeUtf8(plt.UnBData(x)),
-    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit())),
+    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit()), x),
     BoolInstanceType: lambda x: plt.NotEqualsInteger(plt.UnIData(x), plt.Integer(0)),
 }
 
-- 
2.43.0


From fa3eafb6c817035805850865207424a11ab84588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 04/25] fix: != on an object whose class defines only __eq__
 negates __eq__ as in Python

---
 opshin/type_inference.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1baf63d..223e5a6 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -678,6 +678,14 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         dunder_name = DUNDER_MAP[operation.__class__]
         receiver_class_name = receiver_type.typ.record.name
         resolved_method_name = method_name(receiver_class_name, dunder_name)
+        negate_result = isinstance(operation, ast.NotIn)
+        if isinstance(operation, ast.NotEq) and not any(
+            resolved_method_name in scope for scope in self.scopes
+        ):
+            # without a __ne__, Python negates the result of __eq__
+            dunder_name = DUNDER_MAP[ast.Eq]
+            resolved_method_name = method_name(receiver_class_name, dunder_name)
+            negate_result = True
         if not any(resolved_method_name in scope for scope in self.scopes):
             return None
         return DunderCompareOverride(
@@ -685,7 +693,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             function_type=self.variable_type(resolved_method_name),
             dunder_name=dunder_name,
             receiver_right=receiver_right,
-            negate_result=isinstance(operation, ast.NotIn),
+            negate_result=negate_result,
             receiver=receiver,
             argument=argument,
         )
-- 
2.43.0


From c0ce7e2da03690f4121ee89abf823eed7276606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 05/25] fix: comparison methods must accept the operand's type
 and return bool

---
 opshin/type_inference.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 223e5a6..24d8b29 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -688,9 +688,16 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             negate_result = True
         if not any(resolved_method_name in scope for scope in self.scopes):
             return None
+        function_type = self.variable_type(resolved_method_name)
+        assert (
+            function_type.typ.argtyps[-1] >= argument.typ
+        ), f"Operand of comparison does not match the argument of method '{dunder_name}', expected {function_type.typ.argtyps[-1].python_type()} but got {argument.typ.python_type()}"
+        assert (
+            BoolInstanceType >= function_type.typ.rettyp
+        ), f"Method '{dunder_name}' must return bool to be used in a comparison but returns {function_type.typ.rettyp.python_type()}"
         return DunderCompareOverride(
             method_name=resolved_method_name,
-            function_type=self.variable_type(resolved_method_name),
+            function_type=function_type,
             dunder_name=dunder_name,
             receiver_right=receiver_right,
             negate_result=negate_result,
-- 
2.43.0


From 9c5bb8ba628239b673516a8850874d53f272c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 06/25] fix: constant folding keeps containers whose type its
 value does not determine (nested empty, mixed elements)

---
 opshin/optimize/optimize_const_folding.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 97006c9..f9a31d6 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -93,6 +93,24 @@ SAFE_GLOBALS_LIST = [
 SAFE_GLOBALS = {x.__name__: x for x in SAFE_GLOBALS_LIST}
 
 
+def has_inferrable_type(value: typing.Any) -> bool:
+    """
+    Whether the type of a folded value is the type of the expression it stands for.
+    Empty containers have no element type and mixed containers are unions that need to be constructed at runtime.
+    """
+    if isinstance(value, list):
+        return (
+            len({type(v) for v in value}) == 1 and all(map(has_inferrable_type, value))
+        )
+    if isinstance(value, dict):
+        return has_inferrable_type(list(value.keys())) and has_inferrable_type(
+            list(value.values())
+        )
+    if isinstance(value, PlutusData):
+        return all(map(has_inferrable_type, value.__dict__.values()))
+    return True
+
+
 class ShallowNameDefCollector(CompilingNodeVisitor):
     step = "Collecting occurring variable names"
 
@@ -339,7 +357,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         if any(
             isinstance(node_eval, t)
             for t in ACCEPTED_ATOMIC_TYPES + [list, dict, PlutusData]
-        ) and not (node_eval == [] or node_eval == {}):
+        ) and has_inferrable_type(node_eval):
             new_node = Constant(node_eval, None)
             copy_location(new_node, node)
             return new_node
-- 
2.43.0


From 2f7ad9122d17f40b955e09832b7d70de85bfd101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 07/25] fix: constants of classes with their own __eq__ are not
 compared to empty containers at compile time

---
 opshin/rewrite/rewrite_empty_dicts.py | 2 +-
 opshin/rewrite/rewrite_empty_lists.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_empty_dicts.py b/opshin/rewrite/rewrite_empty_dicts.py
index e654038..7ec6795 100644
--- a/opshin/rewrite/rewrite_empty_dicts.py
+++ b/opshin/rewrite/rewrite_empty_dicts.py
@@ -16,6 +16,6 @@ class RewriteEmptyDicts(CompilingNodeTransformer):
         return RawPlutoExpr(typ=node.typ, expr=plt.MkNilPairData(plt.Unit()))
 
     def visit_Constant(self, node: TypedConstant):
-        if node.value != {}:
+        if not isinstance(node.value, dict) or node.value:
             return node
         return RawPlutoExpr(typ=node.typ, expr=plt.MkNilPairData(plt.Unit()))
diff --git a/opshin/rewrite/rewrite_empty_lists.py b/opshin/rewrite/rewrite_empty_lists.py
index e3d1036..412d51e 100644
--- a/opshin/rewrite/rewrite_empty_lists.py
+++ b/opshin/rewrite/rewrite_empty_lists.py
@@ -16,6 +16,6 @@ class RewriteEmptyLists(CompilingNodeTransformer):
         return RawPlutoExpr(typ=node.typ, expr=empty_list(node.typ.typ.typ))
 
     def visit_Constant(self, node: TypedConstant):
-        if node.value != []:
+        if not isinstance(node.value, list) or node.value:
             return node
         return RawPlutoExpr(typ=node.typ, expr=empty_list(node.typ.typ.typ))
-- 
2.43.0


From b635ba0ace39481b03bd3bb086bf3e51d6885722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 08/25] fix: names under which the integrity check was imported
 do not leak into later compilations

---
 opshin/compiler.py                               |  6 +++++-
 opshin/rewrite/rewrite_import_integrity_check.py | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index d0324dc..4d6204c 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -67,7 +67,10 @@ from .rewrite.rewrite_forbidden_return import RewriteForbiddenReturn
 from .rewrite.rewrite_import import RewriteImport
 from .rewrite.rewrite_import_dataclasses import RewriteImportDataclasses
 from .rewrite.rewrite_import_hashlib import RewriteImportHashlib
-from .rewrite.rewrite_import_integrity_check import RewriteImportIntegrityCheck
+from .rewrite.rewrite_import_integrity_check import (
+    RewriteImportIntegrityCheck,
+    forget_integrity_check_imports,
+)
 from .rewrite.rewrite_import_plutusdata import RewriteImportPlutusData
 from .rewrite.rewrite_import_typing import RewriteImportTyping
 from .rewrite.rewrite_import_uplc_builtins import RewriteImportUPLCBuiltins
@@ -1434,6 +1437,7 @@ def compile(
     config=DEFAULT_CONFIG,
     wrap_output=False,
 ) -> plt.Program:
+    forget_integrity_check_imports()
     compile_pipeline = [
         # Important to call this one first - it imports all further files
         RewriteImport(filename=filename),
diff --git a/opshin/rewrite/rewrite_import_integrity_check.py b/opshin/rewrite/rewrite_import_integrity_check.py
index c83a403..ba23f66 100644
--- a/opshin/rewrite/rewrite_import_integrity_check.py
+++ b/opshin/rewrite/rewrite_import_integrity_check.py
@@ -50,6 +50,17 @@ class IntegrityCheckImpl(PolymorphicFunction):
         )
 
 
+def forget_integrity_check_imports():
+    """Removes the names under which earlier compilations in this process imported the integrity check"""
+    for name, typ in list(INITIAL_SCOPE.items()):
+        if (
+            isinstance(typ, InstanceType)
+            and isinstance(typ.typ, PolymorphicFunctionType)
+            and isinstance(typ.typ.polymorphic_function, IntegrityCheckImpl)
+        ):
+            del INITIAL_SCOPE[name]
+
+
 class RewriteImportIntegrityCheck(CompilingNodeTransformer):
     step = "Resolving imports and usage of integrity check"
 
-- 
2.43.0


From 6ef6eaaa6ce105a06750387aabb59f13faa767da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 09/25] fix: dead expression removal keeps reads of names that
 are assigned only in one branch

---
 .../optimize/optimize_remove_deadconstants.py | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/opshin/optimize/optimize_remove_deadconstants.py b/opshin/optimize/optimize_remove_deadconstants.py
index 1dc31ad..253dced 100644
--- a/opshin/optimize/optimize_remove_deadconstants.py
+++ b/opshin/optimize/optimize_remove_deadconstants.py
@@ -60,6 +60,31 @@ class OptimizeRemoveDeadConstants(CompilingNodeTransformer):
                 res.append(r)
         return res
 
+    def visit_branch(self, stmts):
+        # names assigned in a branch are not guaranteed to be available after it
+        self.enter_scope()
+        res = self.visit_stmts(stmts)
+        self.exit_scope()
+        return res
+
+    def visit_If(self, node: If):
+        node_cp = copy(node)
+        node_cp.body = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_branch(node.orelse)
+        return node_cp
+
+    def visit_For(self, node: For):
+        node_cp = copy(node)
+        node_cp.body = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_branch(node.orelse)
+        return node_cp
+
+    def visit_While(self, node: While):
+        node_cp = copy(node)
+        node_cp.body = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_branch(node.orelse)
+        return node_cp
+
     def visit_Module(self, node: Module):
         node_cp = copy(node)
         self.enter_scope()
-- 
2.43.0


From e921e8ea59d0ff16ffefade957079211fa8b45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 10/25] fix: union expansion does not decide class tests on
 arguments whose name is rebound in the function

---
 opshin/optimize/optimize_union_expansion.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/opshin/optimize/optimize_union_expansion.py b/opshin/optimize/optimize_union_expansion.py
index 0e20053..ca9df78 100644
--- a/opshin/optimize/optimize_union_expansion.py
+++ b/opshin/optimize/optimize_union_expansion.py
@@ -86,6 +86,22 @@ def split_specialized_function_name(
     return function_name.split(UNION_SPECIALIZATION_SEPARATOR, 1)
 
 
+def rebound_names(stmt: FunctionDef) -> set[str]:
+    """
+    Names that may refer to something other than the argument of the function somewhere in its body
+    """
+    names = set()
+    for s in stmt.body:
+        for node in walk(s):
+            if isinstance(node, Name) and isinstance(node.ctx, Store):
+                names.add(node.id)
+            elif isinstance(node, arg):
+                names.add(node.arg)
+            elif isinstance(node, (FunctionDef, ClassDef)):
+                names.add(node.name)
+    return names
+
+
 class RewriteKnownIsinstanceChecks(CompilingNodeTransformer):
     def __init__(self, arg_types: dict[str, str]):
         self.arg_types = arg_types
@@ -127,8 +143,9 @@ class OptimizeUnionExpansion(CompilingNodeTransformer):
 
     def _union_arg_positions(self, stmt: FunctionDef) -> list[int]:
         positions = []
+        rebound = rebound_names(stmt)
         for i, arg in enumerate(stmt.args.args):
-            if self.is_Union_annotation(arg.annotation):
+            if self.is_Union_annotation(arg.annotation) and arg.arg not in rebound:
                 positions.append(i)
         return positions
 
-- 
2.43.0


From 1e06ddf0057bffa64fcd2254b0d3d6f9c8c059ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:10 +0000
Subject: [PATCH 11/25] fix: function values with a different signature or
 environment can not be assigned to the same variable

---
 opshin/rewrite/rewrite_function_closures.py | 30 +++++++++++++++++++++
 opshin/type_impls.py                        |  6 ++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_function_closures.py b/opshin/rewrite/rewrite_function_closures.py
index 3a39f8e..a6cc488 100644
--- a/opshin/rewrite/rewrite_function_closures.py
+++ b/opshin/rewrite/rewrite_function_closures.py
@@ -349,7 +349,37 @@ class RewriteFunctionClosures(ScopedSequenceNodeTransformer):
         self._validate_function_redefinitions(rewritten_body)
         return rewritten_body
 
+    def _assert_compatible_closures(self, node: AST):
+        # a call passes the environment of the function type that the called expression has,
+        # so all functions that the expression may evaluate to must expect the same environment
+        def check(expected_node: AST, actual_node: AST):
+            expected = getattr(expected_node, "typ", None)
+            actual = getattr(actual_node, "typ", None)
+            if (
+                isinstance(expected, InstanceType)
+                and isinstance(expected.typ, FunctionType)
+                and isinstance(actual, InstanceType)
+                and isinstance(actual.typ, FunctionType)
+            ):
+                assert (
+                    expected.typ.bound_vars.keys() == actual.typ.bound_vars.keys()
+                    and expected.typ.bind_self == actual.typ.bind_self
+                ), f"Functions of type '{actual.python_type()}' that read different variables may not be assigned to the same variable"
+
+        first_by_name = {}
+        for child in walk(node):
+            if isinstance(child, (Name, FunctionDef)) and hasattr(child, "typ"):
+                name = child.id if isinstance(child, Name) else child.name
+                check(first_by_name.setdefault(name, child), child)
+            elif isinstance(child, Assign):
+                for target in child.targets:
+                    check(target, child.value)
+            elif isinstance(child, IfExp):
+                check(child, child.body)
+                check(child, child.orelse)
+
     def visit_Module(self, node: Module) -> Module:
         module = super().visit_Module(node)
         self._assert_no_closure_placeholders(module)
+        self._assert_compatible_closures(module)
         return module
diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index d5df309..0ff0a50 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -1715,7 +1715,11 @@ class FunctionType(ClassType):
         if not (
             isinstance(other, FunctionType)
             and len(self.argtyps) == len(other.argtyps)
-            and all(a >= oa for a, oa in zip(self.argtyps, other.argtyps))
+            # arguments and results are not converted when calling through a variable
+            and all(
+                a >= oa and oa >= a for a, oa in zip(self.argtyps, other.argtyps)
+            )
+            and self.rettyp >= other.rettyp
             and other.rettyp >= self.rettyp
         ):
             return False
-- 
2.43.0


From d9d12a51805ef39c4e532ed502c67be94cac59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 12/25] fix: wrapped builtins apply the builtin they name
 on-chain (quotient_integer multiplied)

---
 opshin/rewrite/rewrite_import_uplc_builtins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_uplc_builtins.py b/opshin/rewrite/rewrite_import_uplc_builtins.py
index c7a52ec..bebdd31 100644
--- a/opshin/rewrite/rewrite_import_uplc_builtins.py
+++ b/opshin/rewrite/rewrite_import_uplc_builtins.py
@@ -4,6 +4,7 @@ from copy import copy
 from typing import Optional
 
 import pluthon as plt
+import uplc.ast as uplc
 from ..bridge import to_uplc_fun_name
 
 from ..util import CompilingNodeTransformer
@@ -47,10 +48,15 @@ class RewriteImportUPLCBuiltins(CompilingNodeTransformer):
             "_Signature"
         ):
             CamelCaseFunName = CamelCaseFunName.removesuffix("_Signature") + "Signature"
-        uplc_fun = plt.__dict__[CamelCaseFunName]
+        # apply the very builtin that is evaluated off-chain
+        uplc_fun = uplc.BuiltInFun[CamelCaseFunName]
+        forced_uplc_fun = plt.BuiltIn(uplc_fun)
+        for _ in range(uplc.BuiltInFunForceMap[uplc_fun]):
+            forced_uplc_fun = plt.Force(forced_uplc_fun)
         pluto_expression = RawPlutoExpr(
             typ=node.typ.typ.rettyp,
-            expr=uplc_fun(
+            expr=plt.Apply(
+                forced_uplc_fun,
                 *(plt.Force(plt.Var(a.arg)) for a in node.args.args),
             ),
         )
-- 
2.43.0


From 66214d2218e5c7914f78f6bcba03062d037a27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 13/25] fix: annotations of equals_string and of the BLS12-381
 G2 builtins

---
 opshin/std/builtins.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opshin/std/builtins.py b/opshin/std/builtins.py
index 8ffc826..11bb43a 100644
--- a/opshin/std/builtins.py
+++ b/opshin/std/builtins.py
@@ -167,7 +167,7 @@ def append_string(x: str, y: str) -> str:
 
 
 @wraps_builtin
-def equals_string(x: str, y: str) -> str:
+def equals_string(x: str, y: str) -> bool:
     """Returns x == y."""
     pass
 
@@ -256,20 +256,20 @@ def bls12_381_g2_compress(a: BLS12381G2Element) -> bytes:
 
 
 @wraps_builtin
-def bls12_381_g2_add(a: BLS12381G1Element, b: BLS12381G1Element) -> BLS12381G1Element:
-    """Adds two elements of the G1 group in BLS12_381"""
+def bls12_381_g2_add(a: BLS12381G2Element, b: BLS12381G2Element) -> BLS12381G2Element:
+    """Adds two elements of the G2 group in BLS12_381"""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_neg(a: BLS12381G1Element) -> BLS12381G1Element:
-    """Negate an element of the G1 group in BLS12_381."""
+def bls12_381_g2_neg(a: BLS12381G2Element) -> BLS12381G2Element:
+    """Negate an element of the G2 group in BLS12_381."""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_scalar_mul(a: int, b: BLS12381G1Element) -> BLS12381G1Element:
-    """Multiply an element of the G1 group in BLS12_381 with a scalar integer"""
+def bls12_381_g2_scalar_mul(a: int, b: BLS12381G2Element) -> BLS12381G2Element:
+    """Multiply an element of the G2 group in BLS12_381 with a scalar integer"""
     pass
 
 
-- 
2.43.0


From 0b63a9efd09b7b36a7196d2fa3f36a4a59068184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 14/25] fix: builtins that take data accept every value and
 list off-chain as they do on-chain

---
 opshin/bridge.py | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/opshin/bridge.py b/opshin/bridge.py
index 87d7374..2700e0d 100644
--- a/opshin/bridge.py
+++ b/opshin/bridge.py
@@ -3,9 +3,11 @@
 from functools import wraps
 
 import re
+import typing
 
 import uplc.ast
-from pycardano import PlutusData, RawCBOR
+from frozenlist2 import frozenlist
+from pycardano import Datum, PlutusData, RawCBOR
 
 from opshin.std.bls12_381 import (
     BLS12381G1Element,
@@ -24,7 +26,9 @@ def to_uplc_builtin(a):
     if isinstance(a, bytes):
         return uplc.ast.BuiltinByteString(a)
     if isinstance(a, list):
-        return uplc.ast.BuiltinList(list(map(to_uplc_builtin, a)))
+        # the element type of an empty list is not known and does not matter
+        sample_value = None if a else uplc.ast.PlutusData()
+        return uplc.ast.BuiltinList(list(map(to_uplc_builtin, a)), sample_value)
     if isinstance(a, PlutusData):
         return uplc.ast.data_from_cbor(a.to_cbor())
     if isinstance(a, BLS12381G1Element):
@@ -36,6 +40,38 @@ def to_uplc_builtin(a):
     raise NotImplementedError(f"Cannot convert {a} to uplc builtin")
 
 
+def to_uplc_data(a):
+    """Converts a python value into the data by which it is represented on-chain"""
+    if isinstance(a, int):
+        return uplc.ast.PlutusInteger(int(a))
+    if isinstance(a, str):
+        return uplc.ast.PlutusByteString(a.encode("utf8"))
+    if isinstance(a, bytes):
+        return uplc.ast.PlutusByteString(a)
+    if isinstance(a, list):
+        return uplc.ast.PlutusList(frozenlist(list(map(to_uplc_data, a))))
+    if isinstance(a, dict):
+        return uplc.ast.PlutusMap(
+            {to_uplc_data(k): to_uplc_data(v) for k, v in a.items()}
+        )
+    if a is None:
+        return uplc.ast.PlutusConstr(0, frozenlist([]))
+    if isinstance(a, RawCBOR):
+        return uplc.ast.data_from_cbor(a.cbor)
+    if isinstance(a, PlutusData):
+        return uplc.ast.data_from_cbor(a.to_cbor())
+    raise NotImplementedError(f"Cannot convert {a} to uplc data")
+
+
+def to_uplc_argument(a, annotation):
+    """Converts an argument of a builtin, given the annotation of the parameter"""
+    if annotation == Datum:
+        return to_uplc_data(a)
+    if annotation == typing.List[Datum]:
+        return uplc.ast.BuiltinList(list(map(to_uplc_data, a)), uplc.ast.PlutusData())
+    return to_uplc_builtin(a)
+
+
 def to_python(a):
     if (
         isinstance(a, uplc.ast.BuiltinInteger)
@@ -86,6 +122,8 @@ def to_uplc_fun_name(snake_case_fun_name: str) -> str:
 def wraps_builtin(func):
     snake_case_fun_name = func.__name__
     CamelCaseFunName = to_uplc_fun_name(snake_case_fun_name)
+    names = func.__code__.co_varnames[: func.__code__.co_argcount]
+    annotations = func.__annotations__
 
     @wraps(func)
     def wrapped(*args):
@@ -95,7 +133,10 @@ def wraps_builtin(func):
         """
         uplc_fun = uplc.ast.BuiltInFun.__dict__[CamelCaseFunName]
         return to_python(
-            uplc.ast.BuiltInFunEvalMap[uplc_fun](*(map(to_uplc_builtin, args)))
+            uplc.ast.BuiltInFunEvalMap[uplc_fun](
+                *(to_uplc_argument(a, annotations.get(n)) for n, a in zip(names, args)),
+                *map(to_uplc_builtin, args[len(names) :]),
+            )
         )
 
     return wrapped
-- 
2.43.0


From dbca7ec0170205deb8cab94596f7d9ebd93aafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 15/25] fix: elements of containers and comprehensions built
 from narrowed variables have the plain type

---
 opshin/type_inference.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 24d8b29..a1df06d 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -447,7 +447,8 @@ def find_max_type(elts: typing.List[InstanceType]):
             raise ValueError(
                 f"All elements must have a compatible type, found typs {tuple(e.typ.python_type() for e in elts)}"
             )
-    return max_typ
+    # elements of containers are stored like any other value, also if they originate from a narrowed variable
+    return strip_data_instance_type(max_typ)
 
 
 class TypeCheckVisitor(TypedNodeVisitor):
@@ -1059,7 +1060,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
     def visit_Tuple(self, node: Tuple) -> TypedTuple:
         tt = copy(node)
         tt.elts = [self.visit(e) for e in node.elts]
-        tt.typ = InstanceType(RawTupleType(frozenlist([e.typ for e in tt.elts])))
+        tt.typ = InstanceType(
+            RawTupleType(frozenlist([strip_data_instance_type(e.typ) for e in tt.elts]))
+        )
         return tt
 
     def visit_List(self, node: List) -> TypedList:
@@ -1814,7 +1817,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         self.implement_typechecks(prevtyps)
 
         self.exit_scope()
-        typed_listcomp.typ = InstanceType(ListType(typed_listcomp.elt.typ))
+        typed_listcomp.typ = InstanceType(
+            ListType(strip_data_instance_type(typed_listcomp.elt.typ))
+        )
         return typed_listcomp
 
     def visit_DictComp(self, node: DictComp) -> TypedDictComp:
@@ -1844,7 +1849,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         self.exit_scope()
         typed_dictcomp.typ = InstanceType(
-            DictType(typed_dictcomp.key.typ, typed_dictcomp.value.typ)
+            DictType(
+                strip_data_instance_type(typed_dictcomp.key.typ),
+                strip_data_instance_type(typed_dictcomp.value.typ),
+            )
         )
         return typed_dictcomp
 
-- 
2.43.0


From a98b9646376442368b3bf1949e7f925891e98d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 16/25] fix: a record can only substitute another record if the
 field names match

---
 opshin/type_impls.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 0ff0a50..f2a1493 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -233,7 +233,10 @@ class Record:
         return (
             self.constructor == other.constructor
             and len(self.fields) == len(other.fields)
-            and all(a >= b for a, b in zip(self.fields, other.fields))
+            and all(
+                a_name == b_name and a_typ >= b_typ
+                for (a_name, a_typ), (b_name, b_typ) in zip(self.fields, other.fields)
+            )
         )
 
 
-- 
2.43.0


From f4bf0fd9c1197091911c0c93fa8e539bedbfd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 17/25] fix: convert list and tuple values to the
 representation of the expected type wherever they are used

---
 opshin/compiler.py | 97 +++++++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 35 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 4d6204c..6c8d1e2 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -22,6 +22,7 @@ from .type_impls import (
     transform_ext_params_map,
     AnyType,
     transform_output_map,
+    strip_data_instance_type,
     ClassType,
     PolymorphicFunctionInstanceType,
     ListType,
@@ -120,6 +121,27 @@ def needs_data_cast(typ: Type) -> bool:
     return False
 
 
+def is_data_typ(typ: Type) -> bool:
+    """Whether values of this type are always represented as PlutusData"""
+    return isinstance(typ, InstanceType) and isinstance(typ.typ, (AnyType, UnionType))
+
+
+def needs_conversion(source: Type, target: Type) -> bool:
+    """Whether values of type source have to be converted to be used as values of type target"""
+    if needs_data_cast(target):
+        return True
+    if not isinstance(source, InstanceType) or not isinstance(target, InstanceType):
+        return False
+    if isinstance(target.typ, ListType):
+        if isinstance(source.typ, RawTupleType):
+            return True
+        if isinstance(source.typ, ListType):
+            return is_data_typ(source.typ.typ) or needs_conversion(
+                source.typ.typ, target.typ.typ
+            )
+    return False
+
+
 def transform_output_to_type(source: Type, target: Type):
     assert isinstance(source, InstanceType), "Can only transform instance types"
     assert isinstance(target, InstanceType), "Can only transform instance types"
@@ -127,8 +149,17 @@ def transform_output_to_type(source: Type, target: Type):
         return transform_output_map(source)
     if isinstance(target.typ, (AnyType, UnionType)):
         return transform_output_map(source)
+    if is_data_typ(source):
+        return transform_ext_params_map(target)
+    if isinstance(target.typ, ListType) and isinstance(source.typ, RawTupleType):
+        # the elements of tuples are always PlutusData
+        return lambda x: plt.MapList(
+            x,
+            OLambda(["x"], transform_ext_params_map(target.typ.typ)(OVar("x"))),
+            empty_list(target.typ.typ),
+        )
     if isinstance(target.typ, ListType) and isinstance(source.typ, ListType):
-        if not needs_data_cast(target.typ.typ):
+        if not needs_conversion(source, target):
             return lambda x: x
         return lambda x: plt.MapList(
             x,
@@ -307,7 +338,7 @@ class PlutoCompiler(CompilingNodeTransformer):
         assert isinstance(
             target, Name
         ), "Assignments to other things then names are not supported"
-        if needs_data_cast(target.typ):
+        if needs_conversion(source_typ, target.typ):
             compiled_e = transform_output_to_type(source_typ, target.typ)(compiled_e)
         varname = target.id
         return lambda x: plt.Let(
@@ -433,11 +464,16 @@ class PlutoCompiler(CompilingNodeTransformer):
                 op = node.right.typ.rbinop(node.op, node.left)
             except NotImplementedError:
                 raise e
-        return plt.Apply(
-            op,
-            self.visit(node.left),
-            self.visit(node.right),
-        )
+        operands = []
+        for operand in (node.left, node.right):
+            compiled = self.visit(operand)
+            if isinstance(node.typ.typ, ListType) and needs_conversion(
+                operand.typ, node.typ
+            ):
+                # both lists have to be of the same representation to be concatenated
+                compiled = transform_output_to_type(operand.typ, node.typ)(compiled)
+            operands.append(compiled)
+        return plt.Apply(op, *operands)
 
     def visit_BoolOp(self, node: TypedBoolOp) -> plt.AST:
         op = BoolOpMap.get(type(node.op))
@@ -655,7 +691,7 @@ class PlutoCompiler(CompilingNodeTransformer):
         ), "Assignments to other things then names are not supported"
         compiled_e = self.visit(node.value)
         varname = node.targets[0].id
-        if needs_data_cast(node.targets[0].typ):
+        if needs_conversion(node.value.typ, node.targets[0].typ):
             compiled_e = transform_output_to_type(node.value.typ, node.targets[0].typ)(
                 compiled_e
             )
@@ -676,16 +712,11 @@ class PlutoCompiler(CompilingNodeTransformer):
             node.target.typ, InstanceType
         ), "Can only assign instances to instances"
         val = self.visit(node.value)
-        if isinstance(node.value.typ, InstanceType) and (
-            isinstance(node.value.typ.typ, AnyType)
-            or isinstance(node.value.typ.typ, UnionType)
+        if is_data_typ(node.value.typ) or needs_conversion(
+            node.value.typ, node.target.typ
         ):
-            # we need to map this as it will originate from PlutusData
-            # AnyType is the only type other than the builtin itself that can be cast to builtin values
-            val = transform_ext_params_map(node.target.typ)(val)
-        if needs_data_cast(node.target.typ):
-            # we need to map this back as it will be treated as PlutusData
-            # AnyType is the only type other than the builtin itself that can be cast to from builtin values
+            # we need to map this as it will originate from PlutusData or will be treated as PlutusData
+            # AnyType is the only type other than the builtin itself that can be cast to and from builtin values
             val = transform_output_to_type(node.value.typ, node.target.typ)(val)
         return lambda x: plt.Let(
             [
@@ -744,7 +775,7 @@ class PlutoCompiler(CompilingNodeTransformer):
             assert isinstance(t, InstanceType)
             # pass in all arguments evaluated with the statemonad
             a_int = self.visit(a)
-            if needs_data_cast(t):
+            if needs_conversion(a.typ, t):
                 # if the function expects input of generic type data, wrap data before passing it inside
                 a_int = transform_output_to_type(a.typ, t)(a_int)
             args.append(a_int)
@@ -911,7 +942,7 @@ class PlutoCompiler(CompilingNodeTransformer):
     def visit_Return(self, node: TypedReturn) -> CallAST:
         value_plt = self.visit(node.value)
         assert self.current_function_typ, "Can not handle Return outside of a function"
-        if needs_data_cast(self.current_function_typ[-1].rettyp):
+        if needs_conversion(node.value.typ, self.current_function_typ[-1].rettyp):
             value_plt = transform_output_to_type(
                 node.value.typ, self.current_function_typ[-1].rettyp
             )(value_plt)
@@ -1261,9 +1292,9 @@ class PlutoCompiler(CompilingNodeTransformer):
         l = empty_list(el_typ)
         for e in reversed(node.elts):
             element = self.visit(e)
-            if isinstance(el_typ.typ, AnyType) or isinstance(el_typ.typ, UnionType):
-                # if the function expects input of generic type data, wrap data before passing it inside
-                element = transform_output_map(e.typ)(element)
+            if needs_conversion(e.typ, el_typ):
+                # if the list contains generic type data, wrap data before storing it inside
+                element = transform_output_to_type(e.typ, el_typ)(element)
             l = plt.MkCons(element, l)
         return l
 
@@ -1288,19 +1319,15 @@ class PlutoCompiler(CompilingNodeTransformer):
         return l
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
-        if isinstance(node.typ.typ, UnionType):
-            body = self.visit(node.body)
-            orelse = self.visit(node.orelse)
-            if not isinstance(node.body.typ, UnionType):
-                body = transform_output_map(node.body.typ)(body)
-            if not isinstance(node.orelse.typ, UnionType):
-                orelse = transform_output_map(node.orelse.typ)(orelse)
-            return plt.Ite(self.visit(node.test), body, orelse)
-        return plt.Ite(
-            self.visit(node.test),
-            self.visit(node.body),
-            self.visit(node.orelse),
-        )
+        target_typ = strip_data_instance_type(node.typ)
+        branches = []
+        for branch in (node.body, node.orelse):
+            compiled = self.visit(branch)
+            if needs_conversion(branch.typ, target_typ):
+                # both branches have to evaluate to the same representation
+                compiled = transform_output_to_type(branch.typ, target_typ)(compiled)
+            branches.append(compiled)
+        return plt.Ite(self.visit(node.test), *branches)
 
     def visit_ListComp(self, node: TypedListComp) -> plt.AST:
         assert len(node.generators) == 1, "Currently only one generator supported"
-- 
2.43.0


From 3de55a3cc62c2d84785b6cc338c20de441e36734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 18/25] fix: tuples and raw tuples are represented differently
 and can not substitute each other

---
 opshin/type_impls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index f2a1493..c898cf6 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -1047,7 +1047,8 @@ class TupleType(ClassType):
 
     def __ge__(self, other):
         return (
-            isinstance(other, TupleType)
+            # tuples and raw tuples are represented differently
+            type(other) is type(self)
             and len(self.typs) <= len(other.typs)
             and all(t >= ot for t, ot in zip(self.typs, other.typs))
         )
-- 
2.43.0


From dee7403095bf4e733cc50ba3e4c7b079c19e6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 19/25] fix: flatten unions of unions instead of dropping the
 remaining members

---
 opshin/type_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index a1df06d..1919708 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -379,7 +379,7 @@ def union_types(*ts: Type):
     while to_process:
         t = to_process.pop()
         if isinstance(t, UnionType):
-            to_process = to_process.extend(reversed(t.typs))
+            to_process.extend(reversed(t.typs))
         else:
             assert isinstance(
                 t, (RecordType, IntegerType, ByteStringType, ListType, DictType)
-- 
2.43.0


From 25426f0576290e15548a117e26573e44c4f79779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 20/25] fix: convert variables to a common representation where
 branches and loops merge

---
 opshin/compiler.py       | 48 ++++++----------------
 opshin/type_impls.py     | 35 ++++++++++++++++
 opshin/type_inference.py | 88 +++++++++++++++++++++++++++++++++++-----
 3 files changed, 124 insertions(+), 47 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 6c8d1e2..f866a66 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -20,6 +20,9 @@ from .type_impls import (
     Type,
     RecordType,
     transform_ext_params_map,
+    is_data_typ,
+    needs_conversion,
+    needs_data_cast,
     AnyType,
     transform_output_map,
     strip_data_instance_type,
@@ -107,41 +110,6 @@ BoolOpMap = {
 }
 
 
-def needs_data_cast(typ: Type) -> bool:
-    if not isinstance(typ, InstanceType):
-        return False
-    if isinstance(typ, DataInstanceType):
-        return True
-    if isinstance(typ.typ, (AnyType, UnionType)):
-        return True
-    if isinstance(typ.typ, ListType):
-        return needs_data_cast(typ.typ.typ)
-    if isinstance(typ.typ, DictType):
-        return needs_data_cast(typ.typ.key_typ) or needs_data_cast(typ.typ.value_typ)
-    return False
-
-
-def is_data_typ(typ: Type) -> bool:
-    """Whether values of this type are always represented as PlutusData"""
-    return isinstance(typ, InstanceType) and isinstance(typ.typ, (AnyType, UnionType))
-
-
-def needs_conversion(source: Type, target: Type) -> bool:
-    """Whether values of type source have to be converted to be used as values of type target"""
-    if needs_data_cast(target):
-        return True
-    if not isinstance(source, InstanceType) or not isinstance(target, InstanceType):
-        return False
-    if isinstance(target.typ, ListType):
-        if isinstance(source.typ, RawTupleType):
-            return True
-        if isinstance(source.typ, ListType):
-            return is_data_typ(source.typ.typ) or needs_conversion(
-                source.typ.typ, target.typ.typ
-            )
-    return False
-
-
 def transform_output_to_type(source: Type, target: Type):
     assert isinstance(source, InstanceType), "Can only transform instance types"
     assert isinstance(target, InstanceType), "Can only transform instance types"
@@ -695,6 +663,9 @@ class PlutoCompiler(CompilingNodeTransformer):
             compiled_e = transform_output_to_type(node.value.typ, node.targets[0].typ)(
                 compiled_e
             )
+        if getattr(node, "is_retyping", False):
+            # only changes the representation of the variable, which may be unbound at this point
+            return lambda x: plt.Let([(varname, plt.Delay(compiled_e))], x)
         # first evaluate the term, then wrap in a delay
         return lambda x: plt.Let(
             [
@@ -876,6 +847,11 @@ class PlutoCompiler(CompilingNodeTransformer):
             compiled_iter = self.visit(node.iter)
             written_vs = written_vars(node)
             pwritten_vs = [plt.Var(x) for x in written_vs]
+            element = plt.HeadList(OVar("iter"))
+            if needs_conversion(node.iter.typ.typ.typ, node.target.typ):
+                element = transform_output_to_type(
+                    node.iter.typ.typ.typ, node.target.typ
+                )(element)
             s_fun = lambda x: plt.Lambda(
                 [
                     opshin_name_scheme_compatible_varname("for"),
@@ -886,7 +862,7 @@ class PlutoCompiler(CompilingNodeTransformer):
                     OVar("iter"),
                     x,
                     plt.Let(
-                        [(node.target.id, plt.Delay(plt.HeadList(OVar("iter"))))],
+                        [(node.target.id, plt.Delay(element))],
                         compiled_s(
                             plt.Apply(
                                 OVar("for"),
diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index c898cf6..b888b61 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -1832,6 +1832,41 @@ def strip_data_instance_type(p: Type):
     return p
 
 
+def needs_data_cast(typ: Type) -> bool:
+    if not isinstance(typ, InstanceType):
+        return False
+    if isinstance(typ, DataInstanceType):
+        return True
+    if isinstance(typ.typ, (AnyType, UnionType)):
+        return True
+    if isinstance(typ.typ, ListType):
+        return needs_data_cast(typ.typ.typ)
+    if isinstance(typ.typ, DictType):
+        return needs_data_cast(typ.typ.key_typ) or needs_data_cast(typ.typ.value_typ)
+    return False
+
+
+def is_data_typ(typ: Type) -> bool:
+    """Whether values of this type are always represented as PlutusData"""
+    return isinstance(typ, InstanceType) and isinstance(typ.typ, (AnyType, UnionType))
+
+
+def needs_conversion(source: Type, target: Type) -> bool:
+    """Whether values of type source have to be converted to be used as values of type target"""
+    if needs_data_cast(target):
+        return True
+    if not isinstance(source, InstanceType) or not isinstance(target, InstanceType):
+        return False
+    if isinstance(target.typ, ListType):
+        if isinstance(source.typ, RawTupleType):
+            return True
+        if isinstance(source.typ, ListType):
+            return is_data_typ(source.typ.typ) or needs_conversion(
+                source.typ.typ, target.typ.typ
+            )
+    return False
+
+
 def data_repr_instance_type(p: Type):
     if isinstance(p, DataInstanceType):
         return p
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1919708..df5ec87 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -71,6 +71,8 @@ from .type_impls import (
     DataInstanceType,
     data_repr_instance_type,
     strip_data_instance_type,
+    is_data_typ,
+    needs_conversion,
 )
 
 # from frozendict import frozendict
@@ -580,6 +582,38 @@ def merge_scope(s1: typing.Dict[str, Type], s2: typing.Dict[str, Type]):
     return merged
 
 
+def retype_variables(
+    scope: typing.Dict[str, Type], merged_scope: typing.Dict[str, Type]
+) -> typing.List[TypedAssign]:
+    """Statements that change the representation of variables at the end of a branch to the type they have afterwards"""
+    stmts = []
+    for name, target in merged_scope.items():
+        source = scope.get(name, target)
+        if (
+            source is target
+            or isinstance(source, DataInstanceType)
+            or is_data_typ(source)
+            or not isinstance(source, InstanceType)
+            or isinstance(source.typ, (RecordType, FunctionType))
+            or not needs_conversion(source, target)
+            or (source == target and not isinstance(target, DataInstanceType))
+        ):
+            continue
+        orig_name = map_to_orig_name(name)
+        stmts.append(
+            TypedAssign(
+                targets=[
+                    TypedName(id=name, orig_id=orig_name, ctx=Store(), typ=target)
+                ],
+                value=TypedName(id=name, orig_id=orig_name, ctx=Load(), typ=source),
+                is_retyping=True,
+                lineno=None,
+                can_fall_through=True,
+            )
+        )
+    return stmts
+
+
 class AggressiveTypeInferencer(CompilingNodeTransformer):
     step = "Static Type Inference"
 
@@ -1111,6 +1145,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     target_typ = DataInstanceType(
                         strip_data_instance_type(typed_ass.value.typ).typ
                     )
+                else:
+                    # the variable keeps its representation
+                    target_typ = strip_data_instance_type(typed_ass.value.typ)
             self.set_variable_type(t.id, target_typ)
         typed_ass.targets = [self.visit(t) for t in node.targets]
         # for deconstructed tuples, check that the size matches
@@ -1197,6 +1234,14 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             (typed_if.body_can_fall_through, final_scope_body),
             (typed_if.orelse_can_fall_through, final_scope_else),
         )
+        if typed_if.body_can_fall_through and typed_if.orelse_can_fall_through:
+            # variables may be represented differently at the end of both branches
+            typed_if.body = typed_if.body + retype_variables(
+                final_scope_body, self.scopes[-1]
+            )
+            typed_if.orelse = typed_if.orelse + retype_variables(
+                final_scope_else, self.scopes[-1]
+            )
         return typed_if
 
     def visit_While(self, node: While) -> TypedWhile:
@@ -1213,19 +1258,27 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         typed_while.body, final_scope_body = self.visit_sequence_under_typechecks(
             node.body, typchecks
         )
-        self.scopes[-1] = initial_scope
+        self.scopes[-1] = copy(initial_scope)
         typed_while.orelse, final_scope_else = self.visit_sequence_under_typechecks(
             node.orelse, inv_typchecks
         )
         assert hasattr(
             typed_while, "orelse_can_fall_through"
         ), "Missing else fallthrough annotation on while statement"
+        merged_scope = merge_scope(final_scope_body, final_scope_else)
         self.scopes[-1] = self.merge_fallthrough_scopes(
             initial_scope,
-            (
-                typed_while.orelse_can_fall_through,
-                merge_scope(final_scope_body, final_scope_else),
-            ),
+            (typed_while.orelse_can_fall_through, merged_scope),
+        )
+        # variables defined in both branches may be represented differently
+        new_variables = {
+            name: typ for name, typ in merged_scope.items() if name not in initial_scope
+        }
+        typed_while.body = typed_while.body + retype_variables(
+            final_scope_body, new_variables
+        )
+        typed_while.orelse = typed_while.orelse + retype_variables(
+            final_scope_else, new_variables
         )
         return typed_while
 
@@ -1253,25 +1306,38 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             raise NotImplementedError(
                 "Type inference for loops over non-list and non-tuple objects is not supported"
             )
-        self.set_variable_type(node.target.id, vartyp)
+        if not (
+            self.is_defined_in_current_scope(node.target.id)
+            and data_repr_instance_type(self.variable_type(node.target.id)) >= vartyp
+        ):
+            self.set_variable_type(node.target.id, vartyp)
+        # otherwise the variable keeps its representation
         typed_for.target = self.visit(node.target)
         initial_scope = copy(self.scopes[-1])
         typed_for.body, final_scope_body = self.visit_sequence_under_typechecks(
             node.body, {}
         )
-        self.scopes[-1] = initial_scope
+        self.scopes[-1] = copy(initial_scope)
         typed_for.orelse, final_scope_else = self.visit_sequence_under_typechecks(
             node.orelse, {}
         )
         assert hasattr(
             typed_for, "orelse_can_fall_through"
         ), "Missing else fallthrough annotation on for statement"
+        merged_scope = merge_scope(final_scope_body, final_scope_else)
         self.scopes[-1] = self.merge_fallthrough_scopes(
             initial_scope,
-            (
-                typed_for.orelse_can_fall_through,
-                merge_scope(final_scope_body, final_scope_else),
-            ),
+            (typed_for.orelse_can_fall_through, merged_scope),
+        )
+        # variables defined in both branches may be represented differently
+        new_variables = {
+            name: typ for name, typ in merged_scope.items() if name not in initial_scope
+        }
+        typed_for.body = typed_for.body + retype_variables(
+            final_scope_body, new_variables
+        )
+        typed_for.orelse = typed_for.orelse + retype_variables(
+            final_scope_else, new_variables
         )
         return typed_for
 
-- 
2.43.0


From 8f185a36e6d6e9043b7d8861dd6cd7a2a882c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:37 +0000
Subject: [PATCH 21/25] fix: restore narrowed variables after class tests and
 for functions that are called elsewhere

A variable narrowed more than once in one boolean expression kept an intermediate type
afterwards, and the body of a nested function was typed with what is known about captured
variables at the end of the enclosing block instead of wherever the function may be called.
---
 opshin/type_inference.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index df5ec87..f835534 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -689,6 +689,23 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             self.set_variable_type(n, narrowed_type, force=True)
         return prevtyps
 
+    def widen_variables(self, scopes: typing.List[typing.Dict[str, Type]]) -> TypeMap:
+        """Assume about narrowed variables only what is known in all of the given scopes too"""
+        prevtyps = {}
+        for scope in scopes:
+            for name, typ in scope.items():
+                current = self.scopes[-1].get(name, typ)
+                if (
+                    current is typ
+                    or not isinstance(typ, InstanceType)
+                    or not isinstance(typ.typ, (AnyType, UnionType))
+                    or current >= typ
+                ):
+                    continue
+                prevtyps.setdefault(name, current)
+                self.scopes[-1][name] = merge_scope({name: current}, {name: typ})[name]
+        return prevtyps
+
     def resolve_compare_dunder(
         self,
         operation: ast.cmpop,
@@ -1045,8 +1062,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
             typed_stmts = [None] * len(node_seq)
             prevtyps = {}
+            scopes_before = []
 
             for i, node in enumerate(node_seq):
+                scopes_before.append(copy(self.scopes[-1]))
                 if isinstance(node, FunctionDef):
                     continue
                 stmt = self.visit(node)
@@ -1057,14 +1076,18 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                         self.allow_isinstance_anything
                     ).visit(stmt.test)
                     # for the time after this assert, the variable has the specialized type
-                    prevtyps.update(self.implement_typechecks(typchecks))
+                    prevtyps = {**self.implement_typechecks(typchecks), **prevtyps}
                 if not getattr(stmt, "can_fall_through", True):
                     break
             self.implement_typechecks(prevtyps)
 
             for i, node in enumerate(node_seq):
                 if isinstance(node, FunctionDef):
+                    # the function may be called by any statement after its definition
+                    prevtyps = self.widen_variables(scopes_before[i + 1 :])
                     typed_stmts[i] = self.visit(node)
+                    prevtyps.pop(node.name, None)
+                    self.scopes[-1].update(prevtyps)
 
             return typed_stmts
         finally:
@@ -1482,7 +1505,8 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     e_visited
                 )
                 # for the time after the shortcut and the variable type to the specialized type
-                prevtyps.update(self.implement_typechecks(typchecks))
+                # (a variable that is narrowed repeatedly is restored to its type before the first check)
+                prevtyps = {**self.implement_typechecks(typchecks), **prevtyps}
             self.implement_typechecks(prevtyps)
             tt.values = values
         elif isinstance(node.op, Or):
@@ -1494,7 +1518,8 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     self.allow_isinstance_anything
                 ).visit(values[-1])
                 # for the time after the shortcut or the variable type is *not* the specialized type
-                prevtyps.update(self.implement_typechecks(inv_typechecks))
+                # (a variable that is narrowed repeatedly is restored to its type before the first check)
+                prevtyps = {**self.implement_typechecks(inv_typechecks), **prevtyps}
             self.implement_typechecks(prevtyps)
             tt.values = values
         else:
-- 
2.43.0


From 6fb9b1c6c7dffaa9ec1e66899ad3327f4c5f088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 22/25] fix: decode script parameters faithfully in JSON and
 CBOR and reject values that do not match the declared type

---
 opshin/__main__.py | 55 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index e855ab9..c7e6a29 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -117,15 +117,6 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                     ): plutus_data_from_json(annotation_val, d["v"])
                     for d in x["map"]
                 }
-            if annotation.__origin__ == typing.Union:
-                for ann in annotation.__dict__["__args__"]:
-                    try:
-                        return plutus_data_from_json(ann, x)
-                    except (pycardano.DeserializeException, KeyError, ValueError):
-                        pass
-                raise ValueError(
-                    f"Could not find matching type for {x} in {annotation}"
-                )
             if annotation == pycardano.Datum:
                 if "int" in x:
                     return int(x["int"])
@@ -146,9 +137,29 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                         ): plutus_data_from_json(pycardano.Datum, d["v"])
                         for d in x["map"]
                     }
+                raise ValueError(f"Unknown datum representation {x}")
+            if annotation.__origin__ == typing.Union:
+                for ann in annotation.__dict__["__args__"]:
+                    try:
+                        return plutus_data_from_json(ann, x)
+                    except (pycardano.DeserializeException, KeyError, ValueError):
+                        pass
+                raise ValueError(
+                    f"Could not find matching type for {x} in {annotation}"
+                )
         if issubclass(annotation, pycardano.PlutusData):
-            return annotation.from_dict(x)
-    except (KeyError, ValueError, pycardano.DeserializeException):
+            # checks the types of the fields, in contrast to from_dict
+            return annotation.from_cbor(
+                uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
+            )
+    except (
+        KeyError,
+        ValueError,
+        TypeError,
+        AssertionError,
+        NotImplementedError,
+        pycardano.DeserializeException,
+    ):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {json.dumps(x)}"
         )
@@ -171,18 +182,28 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
             # Annotation is a List or Dict
             if annotation.__origin__ == list:
                 annotation_ann = annotation.__dict__["__args__"][0]
+                elements = cbor2.loads(x)
+                if not isinstance(elements, list):
+                    raise ValueError(f"Expected {annotation} but got {x.hex()}")
                 return [
                     plutus_data_from_cbor(annotation_ann, cbor2.dumps(k))
-                    for k in cbor2.loads(x)
+                    for k in elements
                 ]
             if annotation.__origin__ == dict:
                 annotation_key, annotation_val = annotation.__dict__["__args__"]
+                entries = cbor2.loads(x)
+                if not isinstance(entries, dict):
+                    raise ValueError(f"Expected {annotation} but got {x.hex()}")
                 return {
                     plutus_data_from_cbor(
                         annotation_key, cbor2.dumps(k)
                     ): plutus_data_from_cbor(annotation_val, cbor2.dumps(v))
-                    for k, v in cbor2.loads(x).items()
+                    for k, v in entries.items()
                 }
+            if annotation == pycardano.Datum:
+                return plutus_data_from_json(
+                    annotation, uplc.ast.data_from_cbor(x).to_json()
+                )
             if annotation.__origin__ == typing.Union:
                 for ann in annotation.__dict__["__args__"]:
                     try:
@@ -194,7 +215,13 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
                 )
         if issubclass(annotation, pycardano.PlutusData):
             return annotation.from_cbor(x)
-    except (KeyError, ValueError, pycardano.DeserializeException):
+    except (
+        KeyError,
+        ValueError,
+        TypeError,
+        NotImplementedError,
+        pycardano.DeserializeException,
+    ):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {x.hex()}"
         )
-- 
2.43.0


From e807688fd3c2e159d4f68cd6cda9fc99927020a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 23/25] fix: do not list already applied parameters in the
 blueprint written by opshin build

---
 opshin/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index c7e6a29..ef52291 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -449,7 +449,8 @@ Note that opshin errors may be overly restrictive as they aim to prevent code wi
             # TODO this actually does not work anymore
             datum_type=None,
             redeemer_type=None,
-            parameter_types=param_types,
+            # parameters passed on the command line are already applied
+            parameter_types=param_types[len(parsed_params) :],
             purpose=(Purpose.any,),
             title=pathlib.Path(input_file).stem,
         )
-- 
2.43.0


From 1ee2f93f51c8fd0dd19fbdc39679a316ded7a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 24/25] fix: keep license, purpose and script when artifacts
 without datum, redeemer or parameters are loaded

---
 opshin/builder.py | 64 +++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 697379c..1d300fd 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -114,17 +114,17 @@ class PlutusContract:
                         if self.datum_type is not None
                         else {}
                     ),
-                    "redeemer": (
-                        {
-                            "title": self.redeemer_type[0],
-                            "purpose": {
-                                "oneOf": [PURPOSE_MAP[p] for p in self.purpose]
-                            },
-                            "schema": to_plutus_schema(self.redeemer_type[1]),
-                        }
-                        if self.redeemer_type is not None
-                        else {}
-                    ),
+                    "redeemer": {
+                        "purpose": {"oneOf": [PURPOSE_MAP[p] for p in self.purpose]},
+                        **(
+                            {
+                                "title": self.redeemer_type[0],
+                                "schema": to_plutus_schema(self.redeemer_type[1]),
+                            }
+                            if self.redeemer_type is not None
+                            else {}
+                        ),
+                    },
                     **(
                         {
                             "parameters": [
@@ -167,6 +167,7 @@ class PlutusContract:
             self.version,
             self.title,
             self.description,
+            self.license,
         )
         return new_contract
 
@@ -444,35 +445,41 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
         # could be a plutus blueprint
         try:
             contract = json.loads(contract_content)
-            if "validators" in contract:
+            if isinstance(contract, dict) and "validators" in contract:
                 assert len(contract["validators"]) == 1, "Only one validator supported"
                 validator = contract["validators"][0]
                 # TODO this should be controlled by the version in the preamble
                 contract_cbor = PlutusV3Script(bytes.fromhex(validator["compiledCode"]))
+                # datum, redeemer and parameters are not specified for all contracts
+                datum = validator.get("datum", {})
+                redeemer = validator.get("redeemer", {})
                 datum_type = (
-                    validator["datum"]["title"],
-                    from_plutus_schema(validator["datum"]["schema"]),
+                    (datum["title"], from_plutus_schema(datum["schema"]))
+                    if "schema" in datum
+                    else None
                 )
                 redeemer_type = (
-                    validator["redeemer"]["title"],
-                    from_plutus_schema(validator["redeemer"]["schema"]),
+                    (redeemer["title"], from_plutus_schema(redeemer["schema"]))
+                    if "schema" in redeemer
+                    else None
                 )
                 parameter_types = [
                     (p["title"], from_plutus_schema(p["schema"]))
-                    for p in validator["parameters"]
+                    for p in validator.get("parameters", [])
                 ]
-                if "oneOf" in validator["redeemer"]["purpose"]:
+                redeemer_purpose = redeemer.get("purpose", {"oneOf": []})
+                if "oneOf" in redeemer_purpose:
                     purpose = [
                         k
                         for k, v in PURPOSE_MAP.items()
-                        if v in validator["redeemer"]["purpose"]["oneOf"]
+                        if v in redeemer_purpose["oneOf"]
                     ]
                 else:
                     purpose = [
-                        k
-                        for k, v in PURPOSE_MAP.items()
-                        if v == validator["redeemer"]["purpose"]
+                        k for k, v in PURPOSE_MAP.items() if v == redeemer_purpose
                     ]
+                if not purpose:
+                    purpose = [Purpose.any]
                 version = contract["preamble"].get("version")
                 title = contract["preamble"].get("title")
                 description = contract["preamble"].get("description")
@@ -501,21 +508,24 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
         try:
             # try to unwrap to see if it is cbor
             contract_cbor_unwrapped = cbor2.loads(bytes.fromhex(contract_content))
+            if not isinstance(contract_cbor_unwrapped, bytes):
+                raise ValueError("Not a wrapped script")
             contract_cbor = bytes.fromhex(contract_content)
             # if we can unwrap again, its doubly wrapped
+            # (trailing bytes are ignored here, so that this does not fail for all flat encoded scripts)
             try:
-                cbor2.loads(contract_cbor_unwrapped)
-                contract_cbor = contract_cbor_unwrapped
-            except ValueError:
+                if isinstance(cbor2.loads(contract_cbor_unwrapped), bytes):
+                    contract_cbor = contract_cbor_unwrapped
+            except (ValueError, EOFError):
                 pass
             break
-        except ValueError:
+        except (ValueError, EOFError):
             pass
         # could be a plutus json
         try:
             contract = json.loads(contract_content)
             contract_cbor = cbor2.loads(bytes.fromhex(contract["cborHex"]))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, TypeError):
             pass
         # could be uplc
         try:
-- 
2.43.0


From 7fba3accdf2fd69789a931954f91865e8953d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:29 +0000
Subject: [PATCH 25/25] fix: reject slices with a step instead of ignoring the
 step

---
 opshin/type_inference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index f835534..e61d0f6 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1553,6 +1553,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         ts.value = self.visit(node.value)
         assert isinstance(ts.value.typ, InstanceType), "Can only subscript instances"
+        assert (
+            not isinstance(ts.slice, Slice) or ts.slice.step is None
+        ), "Slices with a step are not supported"
         if isinstance(ts.value.typ.typ, TupleType):
             assert (
                 ts.value.typ.typ.typs
-- 
2.43.0

