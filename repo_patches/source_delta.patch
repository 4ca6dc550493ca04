From 0bca83c82edef6fdf81476662be7087b6574e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 01/33] fix: compare called functions by identity when lifting
 API arguments

A user-defined callable with its own __eq__ had it invoked (and, if it
returned true, had its arguments replaced) while ipyflow checked whether
the call targets one of its own API functions.
---
 core/ipyflow/tracing/ipyflow_tracer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index f66e931..fb3b604 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1073,8 +1073,10 @@ class DataflowTracer(StackFrameManager):
     def handle_lift_argument(
         self, arg_obj: Any, arg_node: ast.AST, *_, **__
     ) -> Optional[Union[Type["pyc.Null"], Symbol]]:
-        try:
-            if self.num_args_seen > 0 or self.cur_function not in (
+        # compare by identity; a user-defined callable may override __eq__
+        if self.num_args_seen > 0 or not any(
+            self.cur_function is api_function
+            for api_function in (
                 api_code,
                 api_deps,
                 api_has_tag,
@@ -1088,9 +1090,8 @@ class DataflowTracer(StackFrameManager):
                 api_unset_tag,
                 api_users,
                 api_watchpoints,
-            ):
-                return None
-        except TypeError:
+            )
+        ):
             return None
         resolved = [
             sym
-- 
2.43.0


From dd77f69ac10668108c44cd7894ff245a3ca76e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 02/33] fix: do not defer scope-sensitive container literals
 into a lambda

List, tuple and dict literals were always evaluated inside the lambda that
the before_*_literal instrumentation introduces.  Names of an enclosing
class body, assignment expressions, yield / await, zero-argument super()
and locals()/exec() have a different meaning there, so e.g.

    class C:
        a = 1
        b = [a]

raised NameError only under ipyflow.
---
 core/ipyflow/tracing/ipyflow_tracer.py | 20 +++++++++++--
 core/ipyflow/tracing/utils.py          | 39 ++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index fb3b604..2ae1a09 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -55,7 +55,10 @@ from ipyflow.tracing.external_calls.base_handlers import ExternalCallHandler
 from ipyflow.tracing.flow_ast_rewriter import DataflowAstRewriter
 from ipyflow.tracing.symbol_resolver import resolve_rval_symbols
 from ipyflow.tracing.uninstrument import uninstrument
-from ipyflow.tracing.utils import match_container_obj_or_namespace_with_literal_nodes
+from ipyflow.tracing.utils import (
+    can_evaluate_in_nested_scope,
+    match_container_obj_or_namespace_with_literal_nodes,
+)
 from ipyflow.types import SubscriptIndices, SupportedIndexType
 from ipyflow.utils.misc_utils import is_project_file
 
@@ -78,6 +81,13 @@ logger = logging.getLogger(__name__)
 logger.setLevel(logging.ERROR)
 
 
+def _is_literal_traceable(node_id: NodeId) -> bool:
+    node = pyc.BaseTracer.ast_node_by_id.get(node_id)
+    return node is None or can_evaluate_in_nested_scope(
+        node, pyc.BaseTracer.containing_ast_by_id
+    )
+
+
 class StackFrameManager(SingletonBaseTracer):
     should_patch_meta_path = False
     # TODO: we should also provide a way to prevent threads from running on instrumented ASTs
@@ -1287,7 +1297,9 @@ class DataflowTracer(StackFrameManager):
             pyc.before_dict_literal,
             pyc.before_list_literal,
             pyc.before_tuple_literal,
-        )
+        ),
+        when=_is_literal_traceable,
+        static=True,
     )
     @pyc.skip_when_tracing_disabled
     def before_literal(self, *_, **__):
@@ -1302,7 +1314,9 @@ class DataflowTracer(StackFrameManager):
             pyc.after_dict_literal,
             pyc.after_list_literal,
             pyc.after_tuple_literal,
-        )
+        ),
+        when=_is_literal_traceable,
+        static=True,
     )
     @pyc.skip_when_tracing_disabled
     def after_literal(
diff --git a/core/ipyflow/tracing/utils.py b/core/ipyflow/tracing/utils.py
index 3fe3fed..3b33056 100644
--- a/core/ipyflow/tracing/utils.py
+++ b/core/ipyflow/tracing/utils.py
@@ -11,6 +11,45 @@ logger = logging.getLogger(__name__)
 logger.setLevel(logging.ERROR)
 
 
+# evaluating these in a different function scope changes their meaning
+_SCOPE_SENSITIVE_NODES = (ast.Await, ast.NamedExpr, ast.Yield, ast.YieldFrom)
+_SCOPE_SENSITIVE_CALLS = ("dir", "eval", "exec", "locals", "super", "vars")
+
+
+def can_evaluate_in_nested_scope(
+    node: ast.AST, containing_ast_by_id: Dict[int, ast.AST]
+) -> bool:
+    """
+    Instrumentation for `before_*_literal` events moves the evaluation of the
+    literal into a lambda. This returns whether doing so preserves semantics.
+    """
+    for child in ast.walk(node):
+        if isinstance(child, _SCOPE_SENSITIVE_NODES):
+            return False
+        if isinstance(child, ast.comprehension) and child.is_async:
+            return False
+        if (
+            isinstance(child, ast.Call)
+            and isinstance(child.func, ast.Name)
+            and child.func.id in _SCOPE_SENSITIVE_CALLS
+        ):
+            return False
+    parent = containing_ast_by_id.get(id(node))
+    while parent is not None:
+        if isinstance(parent, ast.ClassDef):
+            # names bound in a class body are not visible from nested scopes
+            return False
+        if isinstance(parent, ast.Lambda) and node is parent.body:
+            break
+        if (
+            isinstance(parent, (ast.FunctionDef, ast.AsyncFunctionDef))
+            and node in parent.body
+        ):
+            break
+        node, parent = parent, containing_ast_by_id.get(id(parent))
+    return True
+
+
 # TODO: add generate return type to signature
 def match_container_obj_or_namespace_with_literal_nodes(
     container_obj_or_namespace: Union[
-- 
2.43.0


From f4a91ce90969b8716e6eeb0a679f67ec7f4b1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 03/33] fix: terminate liveness analysis for recursive
 functions

A cell that defines and calls a recursive function never finished the
liveness check (RecursionError, swallowed), so it was never reported ready.
---
 core/ipyflow/analysis/live_refs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index bcee1d5..2052217 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -378,10 +378,10 @@ class ComputeLiveSymbolRefs(
                 live=call_live,
                 modified=set(),
                 _func_ast_by_name=func_ast_by_name,
+                _visiting_func_calls=self._visiting_func_calls | {node.func.id},
             ):
                 self.generic_visit(func_ast.body)
             self.live |= call_live
-            self._visiting_func_calls.discard(node.func.id)
 
     def visit_Attribute(self, node: ast.Attribute) -> None:
         if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
-- 
2.43.0


From 056120e0c5b225b79eaec0fc9160f44e60440fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 04/33] fix: handle keyword-only arguments in the liveness
 analysis

Calling a same-cell function that has a keyword-only default crashed the
(exception-swallowing) liveness check; keyword-only defaults of a function
definition were not considered live.
---
 core/ipyflow/analysis/live_refs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 2052217..ff29e52 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -266,6 +266,7 @@ class ComputeLiveSymbolRefs(
         self, node: Union[ast.FunctionDef, ast.AsyncFunctionDef]
     ) -> None:
         self.generic_visit(node.args.defaults)
+        self.generic_visit([kw for kw in node.args.kw_defaults if kw is not None])
         self.generic_visit(node.decorator_list)
         self.dead.add(SymbolRef(node).canonical())
         self._func_ast_by_name[node.name] = node
@@ -364,7 +365,6 @@ class ComputeLiveSymbolRefs(
                 SymbolRef.from_string(arg.arg, scope=self._scope)
                 for arg in itertools.chain(
                     func_ast.args.args or [],
-                    func_ast.args.kw_defaults or [],
                     [a for a in [func_ast.args.vararg, func_ast.args.kwarg] if a],
                     getattr(func_ast.args, "posonlyargs", None) or [],
                     getattr(func_ast.args, "kwonlyargs", None) or [],
-- 
2.43.0


From 77d98727e0ef63b8704d60c197926e5213233835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 05/33] fix: treat except-handler and match-capture names as
 bound in liveness analysis

A cell with 'except E as e' or 'case x' was reported as waiting forever
because the bound name could not be resolved after the cell ran.
---
 core/ipyflow/analysis/live_refs.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index ff29e52..1ddce18 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -279,6 +279,27 @@ class ComputeLiveSymbolRefs(
             with self.kill_context():
                 self.visit(node.optional_vars)
 
+    def visit_ExceptHandler(self, node: ast.ExceptHandler) -> None:
+        if node.type is not None:
+            self.visit(node.type)
+        # the name is unbound again when the handler ends
+        bound = (
+            []
+            if node.name is None
+            else [ast.copy_location(ast.Name(node.name, ast.Store()), node)]
+        )
+        with self.killed_context(bound):
+            self.generic_visit(node.body)
+
+    def visit_pattern_capture(self, node) -> None:
+        # capture patterns (`case x`, `case [*x]`, `case {**x}`) bind a name
+        self.generic_visit(node)
+        name = getattr(node, "rest" if hasattr(node, "rest") else "name")
+        if name is not None:
+            self.dead.add(SymbolRef.from_string(name, scope=self._scope).canonical())
+
+    visit_MatchAs = visit_MatchStar = visit_MatchMapping = visit_pattern_capture
+
     def visit_Name(self, node: ast.Name) -> None:
         ref = SymbolRef(node, scope=self._scope)
         if self._in_kill_context:
-- 
2.43.0


From 8e1d0c2d2f4e94727e209ed1fa0180d57f058bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 06/33] fix: consider names read by a class body live

Class bodies execute when the class statement does, but names they read
were ignored, so the defining cell never became ready when they changed.
---
 core/ipyflow/analysis/live_refs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 1ddce18..6013da6 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -363,7 +363,15 @@ class ComputeLiveSymbolRefs(
 
     def visit_ClassDef(self, node: ast.ClassDef) -> None:
         self.generic_visit(node.bases)
+        self.generic_visit(node.keywords)
         self.generic_visit(node.decorator_list)
+        # the class body runs right away, but what it binds is not visible outside
+        with self.push_attributes(
+            dead=set(self.dead),
+            modified=set(),
+            _func_ast_by_name=dict(self._func_ast_by_name),
+        ):
+            self.generic_visit(node.body)
         self.dead.add(SymbolRef(node).canonical())
 
     def visit_Call(self, node: ast.Call) -> None:
-- 
2.43.0


From 52f45eafdc0fc6c37ca7230a497a71d77a2d4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 07/33] fix: keep a container waiting for its stale elements
 when it is merely displayed or aliased

---
 core/ipyflow/data_model/symbol.py                | 10 ++++++++--
 core/ipyflow/data_model/utils/update_protocol.py |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 3f57875..e6f5237 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1096,13 +1096,15 @@ class Symbol:
         if is_cascading_reactive:
             self.bump_cascading_reactive_cell_num()
         if refresh:
+            is_alias = self._is_underscore_or_simple_assign(new_deps)
             self.refresh(
                 # rationale: if this is a mutation for which we have more precise information,
                 # then we don't need to update the ns descendents as this will already have happened.
                 # also don't update ns descendents for things like `a = b`
                 refresh_descendent_namespaces=propagate
                 and not (mutated and not propagate_to_namespace_descendents)
-                and not self._is_underscore_or_simple_assign(new_deps),
+                and not is_alias,
+                is_alias=is_alias and not mutated,
             )
         if propagate:
             UpdateProtocol(self)(
@@ -1346,6 +1348,7 @@ class Symbol:
         refresh_descendent_namespaces: bool = False,
         timestamp: Optional[Timestamp] = None,
         seen: Optional[Set["Symbol"]] = None,
+        is_alias: bool = False,
     ) -> None:
         if seen is not None and self in seen:
             return
@@ -1370,7 +1373,10 @@ class Symbol:
             for alias in flow_.aliases.get(ns.obj_id, []):
                 for cell in alias.cells_where_deep_live:
                     cell.add_used_cell_counter(alias, self._timestamp.cell_num)
-        self.namespace_waiting_symbols.clear()
+        if not is_alias:
+            # an alias shares its contents with the symbols that it aliases, and
+            # binding it does not bring these up to date
+            self.namespace_waiting_symbols.clear()
         if not refresh_descendent_namespaces:
             return
         if seen is None:
diff --git a/core/ipyflow/data_model/utils/update_protocol.py b/core/ipyflow/data_model/utils/update_protocol.py
index 509ba7e..09ed9dd 100644
--- a/core/ipyflow/data_model/utils/update_protocol.py
+++ b/core/ipyflow/data_model/utils/update_protocol.py
@@ -174,6 +174,9 @@ class UpdateProtocol:
         if not skip_seen_check and sym in self.seen:
             return
         self.seen.add(sym)
+        if sym.is_underscore:
+            # the displayed value is only an alias of an object that lives elsewhere
+            return
         self_ns = flow().namespaces.get(sym.obj_id)
         if self_ns is None:
             return
-- 
2.43.0


From 9c6835b9d68c7095fc41ab4997a00b066e3e34d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 08/33] fix: do not treat a plain alias assignment as a
 mutation of the aliased object

---
 core/ipyflow/data_model/symbol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index e6f5237..b2cf7d1 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1062,8 +1062,9 @@ class Symbol:
         self.fresher_ancestor_timestamps.clear()
         if mutated or isinstance(self.stmt_node, ast.AugAssign):
             self.update_usage_info()
+        is_alias = self._is_underscore_or_simple_assign(new_deps)
         if (
-            (mutated or overwrite)
+            (mutated or (overwrite and not is_alias))
             and Timestamp.current().is_initialized
             and not self.is_immutable
             and not self.is_mutation_virtual_symbol
@@ -1096,7 +1097,6 @@ class Symbol:
         if is_cascading_reactive:
             self.bump_cascading_reactive_cell_num()
         if refresh:
-            is_alias = self._is_underscore_or_simple_assign(new_deps)
             self.refresh(
                 # rationale: if this is a mutation for which we have more precise information,
                 # then we don't need to update the ns descendents as this will already have happened.
-- 
2.43.0


From b6456019f7f41fe245d42d54def439e1bbf6212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 09/33] fix: consider what lambdas and comprehension iterables
 read live

---
 core/ipyflow/analysis/live_refs.py | 33 ++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 6013da6..7af438b 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -383,6 +383,7 @@ class ComputeLiveSymbolRefs(
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
         with self.attrsub_context():
             self.visit(node.func)
+        self._visit_lambda_bodies(node)
         if (
             isinstance(node.func, ast.Name)
             and node.func.id in self._func_ast_by_name
@@ -447,14 +448,17 @@ class ComputeLiveSymbolRefs(
         pass
 
     def generic_visit_comprehension(self, node) -> None:
+        # the first iterable is evaluated before any of the targets is bound
+        self.visit(node.generators[0].iter)
         with self.killed_context([gen.target for gen in node.generators]):
             if isinstance(node, ast.DictComp):
                 self.visit(node.key)
                 self.visit(node.value)
             else:
                 self.visit(node.elt)
-            for gen in node.generators:
-                self.visit(gen.iter)
+            for i, gen in enumerate(node.generators):
+                if i > 0:
+                    self.visit(gen.iter)
                 self.visit(gen.ifs)
 
     visit_DictComp = visit_ListComp = visit_SetComp = visit_GeneratorExp = (
@@ -462,8 +466,29 @@ class ComputeLiveSymbolRefs(
     )
 
     def visit_Lambda(self, node: ast.Lambda) -> None:
-        with self.kill_context():
-            self.visit(node.args)
+        # only the defaults are evaluated right away
+        self.generic_visit(node.args.defaults)
+        self.generic_visit([kw for kw in node.args.kw_defaults if kw is not None])
+
+    def _visit_lambda_bodies(self, node: ast.Call) -> None:
+        # lambdas that are called, or passed to a call, run as part of that call
+        for func in itertools.chain(
+            [node.func], node.args, (kwarg.value for kwarg in node.keywords)
+        ):
+            if not isinstance(func, ast.Lambda):
+                continue
+            args = func.args
+            bound = itertools.chain(
+                getattr(args, "posonlyargs", None) or [],
+                args.args,
+                args.kwonlyargs,
+                [arg for arg in (args.vararg, args.kwarg) if arg is not None],
+            )
+            params = [
+                ast.copy_location(ast.Name(arg.arg, ast.Store()), arg) for arg in bound
+            ]
+            with self.attrsub_context(False), self.killed_context(params):
+                self.visit(func.body)
 
     def visit_arg(self, node) -> None:
         ref = SymbolRef(node.arg, scope=self._scope)
-- 
2.43.0


From 94dd9bebfd3653829677bcfb08dbbf69cf0714f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 10/33] fix: follow calls of lambdas bound in the same cell; a
 bare annotation binds nothing

---
 core/ipyflow/analysis/live_refs.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 7af438b..8b06468 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -76,7 +76,7 @@ class ComputeLiveSymbolRefs(
         self._is_lhs = False
         self._include_killed_live = include_killed_live
         self._func_ast_by_name: Dict[
-            str, Union[ast.FunctionDef, ast.AsyncFunctionDef]
+            str, Union[ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda]
         ] = {}
         self._visiting_func_calls: Set[str] = set()
 
@@ -225,8 +225,17 @@ class ComputeLiveSymbolRefs(
 
     def visit_Assign(self, node: ast.Assign) -> None:
         self.visit_Assign_impl(node.targets, node.value)
+        for target in node.targets:
+            if not isinstance(target, ast.Name):
+                continue
+            self._func_ast_by_name.pop(target.id, None)
+            if isinstance(node.value, ast.Lambda):
+                self._func_ast_by_name[target.id] = node.value
 
     def visit_AnnAssign(self, node: ast.AnnAssign) -> None:
+        if node.value is None:
+            # a bare annotation does not bind anything
+            return
         self.visit_Assign_impl([node.target], node.value)
 
     def visit_AugAssign(self, node: ast.AugAssign) -> None:
@@ -410,7 +419,10 @@ class ComputeLiveSymbolRefs(
                 _func_ast_by_name=func_ast_by_name,
                 _visiting_func_calls=self._visiting_func_calls | {node.func.id},
             ):
-                self.generic_visit(func_ast.body)
+                if isinstance(func_ast, ast.Lambda):
+                    self.visit(func_ast.body)
+                else:
+                    self.generic_visit(func_ast.body)
             self.live |= call_live
 
     def visit_Attribute(self, node: ast.Attribute) -> None:
@@ -467,8 +479,9 @@ class ComputeLiveSymbolRefs(
 
     def visit_Lambda(self, node: ast.Lambda) -> None:
         # only the defaults are evaluated right away
-        self.generic_visit(node.args.defaults)
-        self.generic_visit([kw for kw in node.args.kw_defaults if kw is not None])
+        with self.attrsub_context(False):
+            self.generic_visit(node.args.defaults)
+            self.generic_visit([kw for kw in node.args.kw_defaults if kw is not None])
 
     def _visit_lambda_bodies(self, node: ast.Call) -> None:
         # lambdas that are called, or passed to a call, run as part of that call
-- 
2.43.0


From 0468340c39d23b789760c49ed78273b6cff7f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 11/33] fix: give the body of a one-line class its own
 namespace

---
 core/ipyflow/tracing/ipyflow_tracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 2ae1a09..57c563e 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1711,7 +1711,7 @@ class DataflowTracer(StackFrameManager):
         try:
             stmt_node = self.stmt_by_lineno_by_module_id[cell_num][lineno]
             if event == pyc.call and not isinstance(
-                stmt_node, (ast.AsyncFunctionDef, ast.FunctionDef)
+                stmt_node, (ast.AsyncFunctionDef, ast.ClassDef, ast.FunctionDef)
             ):
                 # TODO: this is bad and I should feel bad. Need a better way to figure out which
                 #  stmt is executing than by using line numbers.
@@ -1725,7 +1725,10 @@ class DataflowTracer(StackFrameManager):
                 if (
                     parent_node is not None
                     and getattr(parent_node, "lineno", None) == lineno
-                    and isinstance(parent_node, (ast.AsyncFunctionDef, ast.FunctionDef))
+                    and isinstance(
+                        parent_node,
+                        (ast.AsyncFunctionDef, ast.ClassDef, ast.FunctionDef),
+                    )
                 ):
                     stmt_node = parent_node
             return stmt_node
-- 
2.43.0


From 99d5e77fab380d62ac480e264b2cff59997f64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 12/33] fix: keep the binding of an alias in slices of what is
 read through it; deleting a name leaves its object as it is

---
 core/ipyflow/data_model/symbol.py      | 20 +++++++++++++++++++-
 core/ipyflow/tracing/ipyflow_tracer.py |  1 +
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index b2cf7d1..1adfd24 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -156,6 +156,8 @@ class Symbol:
         self._cascading_reactive_cell_num = -1
         self._override_ready_liveness_cell_num = -1
         self._override_timestamp: Optional[Timestamp] = None
+        # when the name was last bound (as opposed to its object being mutated)
+        self._bound_timestamp: Timestamp = self._timestamp
         self.watchpoints = Watchpoints()
 
         # The necessary last-updated timestamp / cell counter for this symbol to not be waiting
@@ -1039,6 +1041,8 @@ class Symbol:
             return
         # if we get here, no longer implicit
         self._implicit = False
+        if not mutated and not deleted:
+            self._bound_timestamp = Timestamp.current()
         # quick last fix to avoid overwriting if we appear inside the set of deps to add (or a 1st order ancestor)
         # TODO: check higher-order ancestors too?
         overwrite = overwrite and self not in new_deps
@@ -1064,7 +1068,8 @@ class Symbol:
             self.update_usage_info()
         is_alias = self._is_underscore_or_simple_assign(new_deps)
         if (
-            (mutated or (overwrite and not is_alias))
+            # deleting a name (or element) leaves the object it referred to as it is
+            (mutated or (overwrite and not is_alias and not deleted))
             and Timestamp.current().is_initialized
             and not self.is_immutable
             and not self.is_mutation_virtual_symbol
@@ -1103,6 +1108,7 @@ class Symbol:
                 # also don't update ns descendents for things like `a = b`
                 refresh_descendent_namespaces=propagate
                 and not (mutated and not propagate_to_namespace_descendents)
+                and not deleted
                 and not is_alias,
                 is_alias=is_alias and not mutated,
             )
@@ -1258,6 +1264,18 @@ class Symbol:
             is_usage = cells().at_timestamp(updated_time).is_visible
         return is_usage
 
+    def update_binding_usage_info(self) -> None:
+        """
+        Account for a usage of the name alone, e.g. of `y` in `y[0]`, where the
+        statement that binds `y` is needed no matter which namespace the element
+        was updated through.
+        """
+        if self.is_anonymous or not self._bound_timestamp.is_initialized:
+            return
+        self.update_usage_info_one_timestamp(
+            Timestamp.current(), self._bound_timestamp, is_static=False
+        )
+
     def update_usage_info(
         self,
         used_time: Optional[Timestamp] = None,
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 57c563e..b1782b7 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -970,6 +970,7 @@ class DataflowTracer(StackFrameManager):
                 pyc.before_subscript_load,
             ):
                 self.pending_usage_updates_by_sym.setdefault(sym, True)
+                sym_for_obj.update_binding_usage_info()
 
         obj_id = id(obj)
         if self.top_level_node_id_for_chain is None:
-- 
2.43.0


From 74adf667a8cbd876bc935a83a5ded165789075fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 13/33] fix: an object is used when an untracked member of it
 is read

---
 core/ipyflow/tracing/ipyflow_tracer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index b1782b7..c0ad7c8 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -956,9 +956,15 @@ class DataflowTracer(StackFrameManager):
                 )
             except TypeError:
                 sym = None
-            if call_context or event not in (
-                pyc.before_attribute_load,
-                pyc.before_subscript_load,
+            # if nothing is known about the member itself, it is the object that is used
+            if (
+                sym is None
+                or call_context
+                or event
+                not in (
+                    pyc.before_attribute_load,
+                    pyc.before_subscript_load,
+                )
             ):
                 self.pending_usage_updates_by_sym[sym_for_obj] = (
                     self.pending_usage_updates_by_sym.get(sym_for_obj, True)
-- 
2.43.0


From 07f9dd13588aa443c6548ea68273917cde9faefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 14/33] fix: a deletion needs the binding it deletes in its
 slice

---
 core/ipyflow/data_model/statement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 782ad97..1c76a9d 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -584,6 +584,12 @@ class Statement(SliceableMixin):
                 scope, obj, name, is_subscript = tracer().resolve_del_data_for_target(
                     target
                 )
+                sym = scope.lookup_symbol_by_name_this_indentation(
+                    name, is_subscript=is_subscript
+                )
+                if sym is not None:
+                    # there is nothing to delete without the binding
+                    sym.update_binding_usage_info()
                 scope.delete_symbol_for_name(name, is_subscript=is_subscript)
             except KeyError as e:
                 # this will happen if, e.g., a __delitem__ triggered a call
-- 
2.43.0


From 16efcbfb837d2cb90c62511402584a23c38f0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 15/33] fix: methods known to mutate do so even when they
 return something

---
 core/ipyflow/tracing/external_calls/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/external_calls/__init__.py b/core/ipyflow/tracing/external_calls/__init__.py
index 81de99d..3562e8d 100644
--- a/core/ipyflow/tracing/external_calls/__init__.py
+++ b/core/ipyflow/tracing/external_calls/__init__.py
@@ -11,6 +11,7 @@ from ipyflow.singletons import flow
 from ipyflow.tracing.external_calls.base_handlers import (
     REGISTERED_HANDLER_BY_FUNCTION,
     REGISTERED_HANDLER_BY_METHOD,
+    CallerMutation,
     ExternalCallHandler,
     MutatingMethodEventNotYetImplemented,
     NoopCallHandler,
@@ -90,7 +91,8 @@ def resolve_external_call(
     elif external_call_type is NoopCallHandler:
         return None
     elif external_call_type is MutatingMethodEventNotYetImplemented:
-        external_call_type = StandardMutation
+        # known to mutate, even if it returns something (e.g. dict.pop)
+        external_call_type = CallerMutation
 
     return external_call_type.create(
         module=module,
-- 
2.43.0


From a302aae8beef1128d440e9b5a982e4626e799be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 16/33] fix: resolve the callee when it is itself the result of
 a call

---
 core/ipyflow/tracing/symbol_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index 5de8290..a486dcd 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -113,7 +113,7 @@ class ResolveRvalSymbols(
         self.visit_AugAssign_or_AnnAssign(node)
 
     def visit_Call(self, node):
-        if isinstance(node.func, (ast.Attribute, ast.Subscript)):
+        if isinstance(node.func, (ast.Attribute, ast.Call, ast.Subscript)):
             self.visit(node.func)
         resolved = tracer().resolve_loaded_symbols(node.func)
         self._add_to_resolved(resolved, node.func)
-- 
2.43.0


From 22fe0e89354be8a61fcb6f5a8c71191d813cd3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 17/33] fix: what is read of an object depends on the deletion
 of its members

---
 core/ipyflow/data_model/statement.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 1c76a9d..9936d2f 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -591,6 +591,18 @@ class Statement(SliceableMixin):
                     # there is nothing to delete without the binding
                     sym.update_binding_usage_info()
                 scope.delete_symbol_for_name(name, is_subscript=is_subscript)
+                if obj is None or isinstance(obj, list):
+                    # the elements of lists are remapped instead
+                    continue
+                # whatever else is read of the container now depends on this, too
+                for alias in list(flow().aliases.get(id(obj), [])):
+                    alias.update_deps(
+                        set(),
+                        overwrite=False,
+                        mutated=True,
+                        propagate_to_namespace_descendents=False,
+                        refresh=False,
+                    )
             except KeyError as e:
                 # this will happen if, e.g., a __delitem__ triggered a call
                 # logger.info("got key error while trying to handle %s: %s", ast.dump(self.stmt_node), e)
-- 
2.43.0


From f6c0548f72ba428b3388b3b659611d26e279658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 18/33] fix: referencing an object from a new container does
 not update the object

---
 core/ipyflow/data_model/symbol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 1adfd24..b116d5b 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1418,11 +1418,17 @@ class Symbol:
             #     self.obj,
             #     ns.full_path,
             # )
+            # objects that also live elsewhere are merely referenced from here
+            is_alias = any(
+                alias.containing_namespace is not ns and not alias.is_anonymous
+                for alias in flow().aliases.get(sym.obj_id, [])
+            )
             sym.refresh(
-                refresh_descendent_namespaces=sym.name != "__class__",
+                refresh_descendent_namespaces=sym.name != "__class__" and not is_alias,
                 timestamp=self._timestamp,
                 take_timestamp_snapshots=False,
                 seen=seen,
+                is_alias=is_alias,
             )
 
     def resync_if_necessary(self, refresh: bool) -> None:
-- 
2.43.0


From f39bee8a95e1afa3de02377e5532b37f3c2dea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 19/33] fix: a reused memoized cell displays its last
 expression

The replacement content is not the content that ends up being compiled, because
cell transforms add a newline to it; the file name computed for the cell is then
not the one being run, its events are dropped and the value to display is lost.
---
 core/ipyflow/data_model/cell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index d434ae8..83c608a 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -612,9 +612,10 @@ class Cell(SliceableMixin):
         if ctr is None:
             return None
         if self.memoized_output_level == MemoizedOutputLevel.QUIET:
-            return "pass"
+            return "pass\n"
         else:
-            return f"Out.get({ctr})"
+            # newline-terminated so that it is left alone by cell transforms
+            return f"Out.get({ctr})\n"
 
     def _rewriter_and_sanitized_content(
         self, raw_cell: Optional[str] = None, path: Optional[str] = None
-- 
2.43.0


From f74e6bf2ab970643f34194c976f66201b2040ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 20/33] fix: memoization compares inputs by value, type and
 structure

Values that are equal but distinguishable (1 and True, 0.0 and -0.0, a list and
a tuple or set of the same elements, differently shaped arrays, functions with
different closures or defaults) were taken for identical inputs, and inputs
mutated in place were compared with themselves.
---
 core/ipyflow/data_model/symbol.py | 110 +++++++++++++++++++++---------
 1 file changed, 76 insertions(+), 34 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index b116d5b..636c5b3 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1481,38 +1481,52 @@ class Symbol:
 
     @staticmethod
     def _array_equal(obj1: Any, obj2: Any) -> bool:
-        import numpy as np
-
         try:
-            return np.alltrue(obj1 == obj2)  # type: ignore
+            return (
+                type(obj1) is type(obj2)
+                and obj1.dtype == obj2.dtype
+                and obj1.shape == obj2.shape
+                and bool((obj1 == obj2).all())
+            )
         except Exception:
             return False
 
     @staticmethod
     def _dataframe_equal(obj1: Any, obj2: Any) -> bool:
         try:
-            return obj1.equals(obj2)  # type: ignore
+            return type(obj1) is type(obj2) and bool(obj1.equals(obj2))
         except Exception:
             return False
 
     @staticmethod
-    def _make_list_eq(
+    def _make_tuple_eq(
         eqs: List[Callable[[Any, Any], bool]],
-    ) -> Callable[[List[Any], List[Any]], bool]:
-        def list_eq(lst1: List[Any], lst2: List[Any]) -> bool:
-            for eq, obj1, obj2 in zip(eqs, lst1, lst2):
-                if not eq(obj1, obj2):
-                    return False
-            return True
+    ) -> Callable[[Any, Any], bool]:
+        def tuple_eq(tup1: Any, tup2: Any) -> bool:
+            if not isinstance(tup1, tuple) or not isinstance(tup2, tuple):
+                return False
+            if not len(tup1) == len(tup2) == len(eqs):
+                return False
+            return all(eq(obj1, obj2) for eq, obj1, obj2 in zip(eqs, tup1, tup2))
 
-        return list_eq
+        return tuple_eq
 
     @classmethod
     def make_memoize_comparable_for_obj(
         cls, obj: Any, seen_ids: Set[int]
     ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]], int]:
-        if isinstance(obj, (bool, bytes, bytearray, int, float, str)):
-            return obj, cls._equal, 1
+        """
+        Comparables never share mutable state with `obj`, so that they
+        still describe it when it is mutated later, and values that are
+        equal but distinguishable (e.g. 1 and True) have different ones.
+        """
+        if isinstance(obj, (int, str)):  # includes bool
+            return (type(obj), obj), cls._equal, 1
+        elif isinstance(obj, (bytes, bytearray)):
+            return (type(obj), bytes(obj)), cls._equal, 1
+        elif isinstance(obj, float):
+            # repr distinguishes 0.0 and -0.0
+            return (type(obj), repr(obj)), cls._equal, 1
         if not isinstance(obj, tuple):
             if id(obj) in seen_ids:
                 return cls.NULL, None, -1
@@ -1522,7 +1536,7 @@ class Symbol:
             comp = []
             eqs: List[Callable[[Any, Any], bool]] = []
             if isinstance(obj, dict):
-                iterable: "Iterable[Any]" = sorted(obj.items())
+                iterable: "Iterable[Any]" = obj.items()
             else:
                 iterable = obj
             for inner in iterable:
@@ -1541,15 +1555,34 @@ class Symbol:
             elif isinstance(obj, (frozenset, set)):
                 return cls.NULL, None, -1
             else:
-                iter_eq = cls._make_list_eq(eqs)
-            ret = frozenset(comp) if isinstance(obj, (frozenset, set)) else comp
-            return ret, iter_eq, size
+                iter_eq = cls._make_tuple_eq([cls._equal] + eqs)
+            if isinstance(obj, (frozenset, set)):
+                return (type(obj), frozenset(comp)), iter_eq, size
+            else:
+                return (type(obj), *comp), iter_eq, size
         elif type(obj) in (type, FunctionType):
+            captured_comp: Any = None
+            if isinstance(obj, FunctionType):
+                # the symbol tells about the code, but not about
+                # the values with which the function was created
+                try:
+                    captured = (
+                        [cell.cell_contents for cell in obj.__closure__ or ()],
+                        obj.__defaults__ or (),
+                        obj.__kwdefaults__ or {},
+                    )
+                except ValueError:  # not (yet) initialized
+                    return cls.NULL, None, -1
+                captured_comp, eq, _ = cls.make_memoize_comparable_for_obj(
+                    captured, seen_ids
+                )
+                if eq is not cls._equal:
+                    return cls.NULL, None, -1
             # try to determine it based on the symbol
             for sym in flow().aliases.get(id(obj), []):
-                comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
+                comp, eq = sym._make_memoize_comparable_for_definition(seen_ids)
                 if comp is not cls.NULL and eq is not None:
-                    return comp, eq, 1
+                    return (comp, captured_comp), eq, 1
             return cls.NULL, None, -1
         else:
             # hacks to check if they are arrays, dataframes, etc without explicitly importing these
@@ -1557,15 +1590,19 @@ class Symbol:
             if module.startswith("numpy"):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith("ndarray"):
-                    return obj, cls._array_equal, obj.size
+                    if obj.size > cls._MAX_MEMOIZE_COMPARABLE_SIZE:
+                        return cls.NULL, None, -1
+                    return obj.copy(), cls._array_equal, obj.size
                 else:
                     numpy = sys.modules.get("numpy")
                     if numpy is not None and isinstance(obj, numpy.number):
-                        return obj, cls._equal, 1
+                        return (type(obj), repr(obj)), cls._equal, 1
             elif module.startswith(("modin", "pandas")):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith(("DataFrame", "Series")):
-                    return obj, cls._dataframe_equal, obj.size
+                    if obj.size > cls._MAX_MEMOIZE_COMPARABLE_SIZE:
+                        return cls.NULL, None, -1
+                    return obj.copy(), cls._dataframe_equal, obj.size
             elif module.startswith("ipywidgets"):
                 ipywidgets = sys.modules.get("ipywidgets")
                 if (
@@ -1573,24 +1610,29 @@ class Symbol:
                     and isinstance(obj, ipywidgets.Widget)
                     and hasattr(obj, "value")
                 ):
-                    return obj.value, cls._equal, 1
+                    return cls.make_memoize_comparable_for_obj(obj.value, seen_ids)
             return cls.NULL, None, -1
 
+    def _make_memoize_comparable_for_definition(
+        self, seen_ids: Set[int]
+    ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]]]:
+        if not isinstance(
+            self.stmt_node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
+        ):
+            return self.NULL, None
+        comps = [astunparse.unparse(self.stmt_node)]
+        for sym in sorted(self.parents.keys()):
+            par_comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
+            if par_comp is self.NULL or eq is not self._equal:
+                return self.NULL, None
+            comps.append(par_comp)
+        return tuple(comps), self._equal
+
     def make_memoize_comparable(
         self, seen_ids: Optional[Set[int]] = None
     ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]]]:
         if seen_ids is None:
             seen_ids = set()
-        if isinstance(
-            self.stmt_node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
-        ):
-            comps = [astunparse.unparse(self.stmt_node)]
-            for sym in sorted(self.parents.keys()):
-                par_comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
-                if par_comp is self.NULL or eq is not self._equal:
-                    return self.NULL, None
-                comps.append(par_comp)
-            return comps, self._equal
         obj, eq, size = self.make_memoize_comparable_for_obj(self.obj, seen_ids)
         if size > self._MAX_MEMOIZE_COMPARABLE_SIZE:
             return self.NULL, None
-- 
2.43.0


From 76b0b0c8a1247b0859f6cb891ed02ff2f73a721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 21/33] fix: memoized cells notice that an imported name is
 bound to another module

---
 core/ipyflow/data_model/cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 83c608a..8e45472 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -591,7 +591,9 @@ class Cell(SliceableMixin):
                         continue
                     else:
                         break
-                if sym.is_import or sym.timestamp.cell_num == in_ts.cell_num:
+                if sym.timestamp.cell_num == in_ts.cell_num:
+                    continue
+                elif sym.is_import and sym.obj_id == obj_id:
                     continue
                 elif sym.obj_id == obj_id and sym.memoize_timestamp in (
                     in_ts,
-- 
2.43.0


From 7cbfe6ebda0d419c34c8076d43ebf83bb6b1f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 22/33] fix: do not memoize cells that overwrite their own
 inputs

Such inputs were left out, so that e.g. `n = n + 1` was skipped when run again.
---
 core/ipyflow/data_model/cell.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 8e45472..e7193e1 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -327,13 +327,10 @@ class Cell(SliceableMixin):
                     if sym in inputs:
                         continue
                     sym_ts = sym.timestamp
-                    if sym_ts.cell_num == self.cell_ctr:
+                    if not sym.is_user_accessible or not sym.containing_scope.is_global:
                         continue
-                    elif (
-                        not sym.is_user_accessible or not sym.containing_scope.is_global
-                    ):
-                        continue
-                    elif sym_ts.cell_num > self.cell_ctr:
+                    elif sym_ts.cell_num >= self.cell_ctr:
+                        # the value that was used as input is gone
                         return
                     inputs[sym] = MemoizedInput(
                         sym,
@@ -347,6 +344,10 @@ class Cell(SliceableMixin):
             sym.last_updated_timestamp_by_obj_id[sym.obj_id] = sym.timestamp
             if not sym.is_user_accessible or not sym.containing_scope.is_global:
                 continue
+            for used_ts, ts_when_used in sym.timestamp_by_used_time.items():
+                if used_ts.cell_num == self.cell_ctr > ts_when_used.cell_num:
+                    # ditto (there are no edges from previous runs of this cell)
+                    return
             outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
         assert self.captured_output is not None
         assert self.executed_content is not None
-- 
2.43.0


From 0f3f8699fa2137ef780a0d50ceafdd4084b4c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 23/33] fix: do not reuse memoized results that were mutated
 after the fact

---
 core/ipyflow/data_model/cell.py        | 21 +++++++++++++++++++--
 core/ipyflow/memoization/__init__.py   |  1 +
 core/ipyflow/shell/interactiveshell.py |  2 +-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index e7193e1..5097a77 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -348,7 +348,12 @@ class Cell(SliceableMixin):
                 if used_ts.cell_num == self.cell_ctr > ts_when_used.cell_num:
                     # ditto (there are no edges from previous runs of this cell)
                     return
-            outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
+            outputs[sym] = MemoizedOutput(
+                sym,
+                sym.shallow_timestamp,
+                sym.obj,
+                sym.make_memoize_comparable()[0],
+            )
         assert self.captured_output is not None
         assert self.executed_content is not None
         self._memoized_executions.setdefault(self.executed_content, {})[
@@ -604,9 +609,21 @@ class Cell(SliceableMixin):
                 else:
                     break
             else:
-                return ctr
+                if all(
+                    self._is_memoized_output_intact(value, comparable)
+                    for _, _, value, comparable in outputs
+                ):
+                    return ctr
         return None
 
+    @staticmethod
+    def _is_memoized_output_intact(value: Any, comparable: Any) -> bool:
+        symbols_ = symbols()
+        if comparable is symbols_.NULL:
+            return True
+        current_comp, eq, _ = symbols_.make_memoize_comparable_for_obj(value, set())
+        return eq is not None and eq(current_comp, comparable)
+
     def get_transformed_memoized_content(
         self, ctr: Optional[int] = None
     ) -> Optional[str]:
diff --git a/core/ipyflow/memoization/__init__.py b/core/ipyflow/memoization/__init__.py
index 5c3d52b..656d610 100644
--- a/core/ipyflow/memoization/__init__.py
+++ b/core/ipyflow/memoization/__init__.py
@@ -38,6 +38,7 @@ class MemoizedOutput(NamedTuple):
     symbol: "Symbol"
     ts_at_execution: "Timestamp"
     value: Any
+    comparable: Any
 
 
 class MemoizedCellExecution(NamedTuple):
diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index 73bcf7e..220648f 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -521,7 +521,7 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
         print_purple(
             "Detected identical symbol usages to previous run; reusing memoized result..."
         )
-        for sym, out_ts, value in memoized_outputs:
+        for sym, out_ts, value, _ in memoized_outputs:
             if sym.obj is not value:
                 self.user_ns[sym.name] = value
                 sym.update_obj_ref(value)
-- 
2.43.0


From aa454bd4686e1384ad20cf44d0d66cc98c7fd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 24/33] fix: find out what list.remove removed without
 comparing elements

---
 .../tracing/external_calls/list_handlers.py   | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/core/ipyflow/tracing/external_calls/list_handlers.py b/core/ipyflow/tracing/external_calls/list_handlers.py
index 19ebe02..09d006d 100644
--- a/core/ipyflow/tracing/external_calls/list_handlers.py
+++ b/core/ipyflow/tracing/external_calls/list_handlers.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from typing import TYPE_CHECKING, Any, Optional
+from typing import TYPE_CHECKING, Any, List, Optional
 
 from ipyflow.singletons import flow
 from ipyflow.tracing.external_calls.base_handlers import ExternalCallHandler
@@ -25,13 +25,13 @@ class ListExtend(ListMethod):
     orig_len: int
 
     def initialize(self, **kwargs) -> None:
-        self.orig_len = len(self.caller_self)
+        self.orig_len = list.__len__(self.caller_self)
 
     def handle_namespace(self, namespace: "Namespace") -> None:
-        for upsert_pos in range(self.orig_len, len(namespace.obj)):
+        for upsert_pos in range(self.orig_len, list.__len__(namespace.obj)):
             namespace.upsert_symbol_for_name(
                 upsert_pos,
-                namespace.obj[upsert_pos],
+                list.__getitem__(namespace.obj, upsert_pos),
                 self.arg_syms,
                 overwrite=False,
                 is_subscript=True,
@@ -58,7 +58,7 @@ class ListInsert(ListMethod):
         namespace.shuffle_symbols_upward_from(self.insert_pos)
         namespace.upsert_symbol_for_name(
             self.insert_pos,
-            namespace.obj[self.insert_pos],
+            list.__getitem__(namespace.obj, self.insert_pos),
             inserted_syms,
             self.stmt_node,
             overwrite=False,
@@ -72,18 +72,29 @@ class ListInsert(ListMethod):
 
 
 class ListRemove(ListMethod):
+    orig_elts: Optional[List[Any]] = None
     remove_pos: Optional[int] = None
 
     def handle_namespace(self, namespace: "Namespace") -> None:
+        if self.orig_elts is not None:
+            # find out what was removed without comparing elements,
+            # since comparisons may run user code
+            elts = list.copy(namespace.obj)
+            if len(elts) != len(self.orig_elts) - 1:
+                return
+            pos = 0
+            while pos < len(elts) and elts[pos] is self.orig_elts[pos]:
+                pos += 1
+            # it is the first in a run of the same element that gets removed
+            while pos > 0 and self.orig_elts[pos - 1] is self.orig_elts[pos]:
+                pos -= 1
+            self.remove_pos = pos
         if self.remove_pos is None:
             return
         namespace.delete_symbol_for_name(self.remove_pos, is_subscript=True)
 
     def process_arg(self, remove_val: Any) -> None:
-        try:
-            self.remove_pos = self.caller_self.index(remove_val)
-        except ValueError:
-            pass
+        self.orig_elts = list.copy(self.caller_self)
 
 
 class ListPop(ListRemove):
-- 
2.43.0


From 4459f417523249720e96f11b743ffbeb5ec32b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 25/33] fix: do not run notebook-defined special methods while
 tracking and checking

---
 core/ipyflow/analysis/resolved_symbols.py     | 16 +++--
 core/ipyflow/data_model/namespace.py          | 37 ++++++++----
 core/ipyflow/data_model/statement.py          |  8 ++-
 core/ipyflow/data_model/symbol.py             | 18 ++++--
 core/ipyflow/flow.py                          | 58 ++++++++++++++++++-
 .../tracing/external_calls/__init__.py        | 12 ++--
 core/ipyflow/tracing/ipyflow_tracer.py        | 14 +++--
 7 files changed, 128 insertions(+), 35 deletions(-)

diff --git a/core/ipyflow/analysis/resolved_symbols.py b/core/ipyflow/analysis/resolved_symbols.py
index f044a59..df28cb4 100644
--- a/core/ipyflow/analysis/resolved_symbols.py
+++ b/core/ipyflow/analysis/resolved_symbols.py
@@ -165,19 +165,27 @@ class ResolvedSymbol(CommonEqualityMixin):
         if (
             isinstance(self.sym.obj, (list, tuple))
             and isinstance(self.next_atom.value, int)
+            and not flow().is_method_from_cell(self.sym.obj, "__len__")
             and self.next_atom.value >= len(self.sym.obj)
         ):
             return True
-        if isinstance(self.sym.obj, dict) and self.next_atom.value not in self.sym.obj:
+        if (
+            isinstance(self.sym.obj, dict)
+            and not flow().is_method_from_cell(self.sym.obj, "__contains__")
+            and self.next_atom.value not in self.sym.obj
+        ):
             return True
         if (
             not self.atom.is_callpoint
             and not isinstance(self.sym.obj, (dict, list, tuple))
             and isinstance(self.next_atom.value, str)
             and (
-                # the first check guards against properties; hasattr actually executes code for those if called
-                # on the actual object, which we want to avoid
-                not hasattr(self.sym.obj.__class__, self.next_atom.value)
+                # the first two checks guard against notebook code and properties; hasattr actually executes code
+                # for those if called on the actual object, which we want to avoid
+                not flow().is_lookup_from_cell(
+                    self.sym.obj, self.next_atom.value, is_subscript=False
+                )
+                and not hasattr(self.sym.obj.__class__, self.next_atom.value)
                 and not hasattr(self.sym.obj, self.next_atom.value)
             )
         ):
diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index 6dd8c2c..e16acbc 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -99,6 +99,14 @@ class Namespace(Scope):
             raise TypeError(
                 "tried to get length of non-container namespace %s: %s", self, self.obj
             )
+        return self._obj_len
+
+    @property
+    def _obj_len(self) -> int:
+        # avoid running any notebook code that overrides the length
+        for container_type in (dict, list, str, tuple):
+            if isinstance(self.obj, container_type):
+                return container_type.__len__(self.obj)
         return len(self.obj)
 
     @property
@@ -107,7 +115,7 @@ class Namespace(Scope):
 
     def _iter_inner(self) -> Generator[Optional[Symbol], None, None]:
         if isinstance(self.obj, (list, tuple)):
-            limit = len(self.obj)
+            limit = self._obj_len
         else:
             limit = len(self._subscript_symbol_by_name)
         for i in range(limit):
@@ -228,7 +236,10 @@ class Namespace(Scope):
 
     def make_namespace_qualified_name(self, sym: Symbol) -> str:
         path = self.full_namespace_path
-        name = str(sym.name)
+        if flow().is_method_from_cell(sym.name, "__str__", "__repr__"):
+            name = object.__repr__(sym.name)
+        else:
+            name = str(sym.name)
         if path:
             if sym.is_subscript or name.isdecimal():
                 return f"{path}[{name}]"
@@ -242,10 +253,13 @@ class Namespace(Scope):
         if (
             isinstance(self.obj, Sequence)
             and isinstance(name, int)
-            and hasattr(self.obj, "__len__")
+            and (
+                isinstance(self.obj, (list, str, tuple))
+                or not flow().is_method_from_cell(self.obj, "__len__")
+            )
         ):
             if name < 0 and ret is None:
-                name = len(self.obj) + name
+                name = self._obj_len + name
                 ret = self._subscript_symbol_by_name.get(name)
         return ret
 
@@ -301,13 +315,15 @@ class Namespace(Scope):
         subsym._is_dangling_on_edges = True
 
     def shuffle_symbols_upward_from(self, pos: int) -> None:
-        for idx in range(len(self.obj) - 1, pos, -1):
-            prev_obj = self.obj[idx + 1] if idx < len(self.obj) - 1 else None
+        elts: List[Any] = list.copy(self.obj)
+        for idx in range(len(elts) - 1, pos, -1):
+            prev_obj = elts[idx + 1] if idx < len(elts) - 1 else None
             self._remap_sym(idx - 1, idx, prev_obj)
 
     def _shuffle_symbols_downward_to(self, pos: int) -> None:
-        for idx in range(pos + 1, len(self.obj) + 1):
-            prev_obj = self.obj[idx - 2] if idx > pos + 1 else None
+        elts: List[Any] = list.copy(self.obj)
+        for idx in range(pos + 1, len(elts) + 1):
+            prev_obj = elts[idx - 2] if idx > pos + 1 else None
             self._remap_sym(idx, idx - 1, prev_obj)
 
     def delete_symbol_for_name(
@@ -316,9 +332,8 @@ class Namespace(Scope):
         if is_subscript:
             sym = self._subscript_symbol_by_name.pop(name, None)
             if sym is None and name == -1 and isinstance(self.obj, list):
-                name = len(
-                    self.obj
-                )  # it will have already been deleted, so don't subtract 1
+                # it will have already been deleted, so don't subtract 1
+                name = self._obj_len
                 sym = self._subscript_symbol_by_name.pop(name, None)
             if sym is not None:
                 sym.update_deps(set(), deleted=True)
diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 9936d2f..0c2f184 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -3,7 +3,7 @@ import ast
 import builtins
 import logging
 import sys
-from types import FrameType
+from types import FrameType, FunctionType
 from typing import TYPE_CHECKING, Dict, List, Optional, Set, Type, Union, cast
 
 import pyccolo as pyc
@@ -381,8 +381,10 @@ class Statement(SliceableMixin):
                 propagate=False,
                 implicit=True,
             )
-        if isinstance(target, ast.Name) and getattr(obj, "__name__", "").startswith(
-            Slice.FUNC_PREFIX
+        if (
+            isinstance(target, ast.Name)
+            and isinstance(obj, FunctionType)
+            and obj.__name__.startswith(Slice.FUNC_PREFIX)
         ):
             obj.__name__ = target.id
         subscript_vals_to_use = [is_subscript]
diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 636c5b3..2c85f44 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -563,7 +563,11 @@ class Symbol:
     @property
     def obj_len(self) -> Optional[int]:
         try:
-            if not self.is_obj_lazy_module and hasattr(self.obj, "__len__"):
+            if (
+                not self.is_obj_lazy_module
+                and hasattr(type(self.obj), "__len__")
+                and not flow().is_method_from_cell(self.obj, "__len__")
+            ):
                 return len(self.obj)
         except Exception:
             pass
@@ -590,7 +594,7 @@ class Symbol:
 
     @property
     def is_underscore(self) -> bool:
-        return self.name == "_" and self.containing_scope.is_global
+        return self.containing_scope.is_global and self.name == "_"
 
     @property
     def is_obj_lazy_module(self) -> bool:
@@ -881,8 +885,8 @@ class Symbol:
 
     def _get_calling_ast_node(self) -> Optional[ast.Call]:
         if tracer().tracing_disabled_since_last_module_stmt or (
-            not hasattr(self.obj, "__module__")
-            and getattr(type(self.obj), "__module__", None) == "builtins"
+            getattr(type(self.obj), "__module__", None) == "builtins"
+            and not hasattr(self.obj, "__module__")
         ):
             return None
         if self.func_def_stmt is not None and isinstance(
@@ -1155,7 +1159,11 @@ class Symbol:
     def _mercury_widgets_manager(self):
         if self.obj is None:
             return None
-        if self.is_obj_lazy_module or not hasattr(self.obj, "code_uid"):
+        if (
+            self.is_obj_lazy_module
+            or flow().is_lookup_from_cell(self.obj, "code_uid", is_subscript=False)
+            or not hasattr(self.obj, "code_uid")
+        ):
             return None
         try:
             return sys.modules.get(self.obj.__class__.__module__).WidgetsManager
diff --git a/core/ipyflow/flow.py b/core/ipyflow/flow.py
index 3f02798..8d9a057 100644
--- a/core/ipyflow/flow.py
+++ b/core/ipyflow/flow.py
@@ -1,11 +1,12 @@
 # -*- coding: utf-8 -*-
 import ast
+import inspect
 import logging
 import os
 import sys
 from collections import defaultdict
 from contextlib import contextmanager
-from types import FrameType
+from types import FrameType, FunctionType
 from typing import (
     Any,
     Dict,
@@ -647,6 +648,57 @@ class NotebookFlow(singletons.NotebookFlow):
             else:
                 ns.unmark_garbage()
 
+    def _is_cell_function(self, func: Any) -> bool:
+        return isinstance(func, FunctionType) and self.is_cell_file(
+            inspect.unwrap(func).__code__.co_filename
+        )
+
+    def is_method_from_cell(self, obj: Any, *names: str) -> bool:
+        """
+        Whether the type of `obj` defines any of the special methods in `names`
+        with notebook code, which we should never run on our own initiative.
+        """
+        for name in names:
+            for clazz in type(obj).__mro__:
+                if name in clazz.__dict__:
+                    if self._is_cell_function(clazz.__dict__[name]):
+                        return True
+                    break
+        return False
+
+    def is_lookup_from_cell(
+        self, obj: Any, attr_or_sub: SupportedIndexType, is_subscript: bool
+    ) -> bool:
+        """
+        Whether looking up an attribute / subscript of `obj` would run notebook code.
+        """
+        if is_subscript:
+            return self.is_method_from_cell(
+                obj, "__getitem__", "__missing__"
+            ) or self.is_method_from_cell(attr_or_sub, "__eq__", "__hash__")
+        if self.is_method_from_cell(obj, "__getattribute__"):
+            return True
+        for clazz in type(obj).__mro__:
+            if attr_or_sub not in clazz.__dict__:
+                continue
+            descriptor = clazz.__dict__[attr_or_sub]  # type: ignore[index]
+            if isinstance(descriptor, property):
+                return self._is_cell_function(descriptor.fget)
+            return self.is_method_from_cell(descriptor, "__get__")
+        try:
+            found = inspect.getattr_static(obj, cast(str, attr_or_sub))
+        except AttributeError:
+            return self.is_method_from_cell(obj, "__getattr__")
+        return isinstance(obj, type) and self.is_method_from_cell(found, "__get__")
+
+    def getattr_outside_cell(self, obj: Any, attr: str, default: Any = None) -> Any:
+        """
+        Like `getattr`, but gives the default if the lookup would run notebook code.
+        """
+        if self.is_lookup_from_cell(obj, attr, is_subscript=False):
+            return default
+        return getattr(obj, attr, default)
+
     def retrieve_namespace_attr_or_sub(
         self, obj: Any, attr_or_sub: SupportedIndexType, is_subscript: bool
     ):
@@ -657,10 +709,14 @@ class NotebookFlow(singletons.NotebookFlow):
                     #  or could cause side effects upon subscripting
                     if type(obj) is defaultdict:
                         raise TypeError("subscript on defaultdict not allowed")
+                    if self.is_lookup_from_cell(obj, attr_or_sub, is_subscript):
+                        raise TypeError("subscript would run notebook code")
                     return obj[attr_or_sub]
                 else:
                     if self.is_dev_mode:
                         assert isinstance(attr_or_sub, str)
+                    if self.is_lookup_from_cell(obj, attr_or_sub, is_subscript):
+                        raise AttributeError("attribute would run notebook code")
                     return getattr(obj, cast(str, attr_or_sub))
         except (AttributeError, IndexError, KeyError, TypeError):
             raise
diff --git a/core/ipyflow/tracing/external_calls/__init__.py b/core/ipyflow/tracing/external_calls/__init__.py
index 3562e8d..08991e6 100644
--- a/core/ipyflow/tracing/external_calls/__init__.py
+++ b/core/ipyflow/tracing/external_calls/__init__.py
@@ -33,11 +33,11 @@ def resolve_external_call(
 ) -> Optional[ExternalCallHandler]:
     if (
         function_or_method is not None
-        and hasattr(function_or_method, "__self__")
-        and hasattr(function_or_method, "__name__")
+        and flow().getattr_outside_cell(function_or_method, "__self__") is not None
+        and flow().getattr_outside_cell(function_or_method, "__name__") is not None
     ):
-        function_or_method = getattr(
-            function_or_method.__self__.__class__,
+        function_or_method = flow().getattr_outside_cell(
+            type(function_or_method.__self__),
             function_or_method.__name__,
             function_or_method,
         )
@@ -66,7 +66,9 @@ def resolve_external_call(
         caller_self = None
 
     try:
-        if function_or_method is None:
+        if function_or_method is None or flow().is_method_from_cell(
+            function_or_method, "__hash__", "__eq__"
+        ):
             external_call_type = None
         else:
             external_call_type = REGISTERED_HANDLER_BY_FUNCTION.get(function_or_method)
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index c0ad7c8..2d627e5 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -596,6 +596,9 @@ class DataflowTracer(StackFrameManager):
             # that gets stashed in `obj` for these cases, so use it instead of doing
             # the lookup (which may have side effects) to reduce intrusiveness
             attr_or_sub_obj = self.saved_assign_rhs_obj
+        elif flow().is_lookup_from_cell(obj, attr_or_sub, is_subscript):
+            # ditto; the lookup would run user code
+            attr_or_sub_obj = self.saved_assign_rhs_obj
         else:
             attr_or_sub_obj = flow().retrieve_namespace_attr_or_sub(
                 obj, attr_or_sub, is_subscript
@@ -723,13 +726,11 @@ class DataflowTracer(StackFrameManager):
         if isinstance(module_or_function, ModuleType):
             module: Optional[ModuleType] = module_or_function
         else:
-            module = getattr(module_or_function, "__module__", None)
+            module = flow().getattr_outside_cell(module_or_function, "__module__")
             if module is None:
                 # to handle numpy attributes
                 module = getattr(
-                    getattr(
-                        getattr(module_or_function, "__self__", None), "__class__", None
-                    ),
+                    type(flow().getattr_outside_cell(module_or_function, "__self__")),
                     "__module__",
                     None,
                 )
@@ -1188,7 +1189,8 @@ class DataflowTracer(StackFrameManager):
             self._resolve_external_call()
         if (
             ext_call_cand.modname != "builtins"
-            and getattr(arg_obj, "__name__", None) == "<lambda>"
+            and isinstance(arg_obj, FunctionType)
+            and arg_obj.__name__ == "<lambda>"
         ):
             return uninstrument(arg_obj)
         return None
@@ -1214,7 +1216,7 @@ class DataflowTracer(StackFrameManager):
     def before_call(
         self, function_or_method, node: ast.Call, frame: FrameType, *_, **__
     ):
-        qualname = getattr(function_or_method, "__qualname__", "")
+        qualname = flow().getattr_outside_cell(function_or_method, "__qualname__", "")
         if qualname is None:
             self._tracked_disable_tracing(frame)
             return
-- 
2.43.0


From 312602ff3760912748950c585181accf9d1599e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 26/33] fix: lambdas passed to library calls keep their
 globals, closure and defaults

---
 core/ipyflow/tracing/ipyflow_tracer.py |  6 ++--
 core/ipyflow/tracing/uninstrument.py   | 38 ++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 2d627e5..1c16733 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -54,7 +54,7 @@ from ipyflow.tracing.external_calls import resolve_external_call
 from ipyflow.tracing.external_calls.base_handlers import ExternalCallHandler
 from ipyflow.tracing.flow_ast_rewriter import DataflowAstRewriter
 from ipyflow.tracing.symbol_resolver import resolve_rval_symbols
-from ipyflow.tracing.uninstrument import uninstrument
+from ipyflow.tracing.uninstrument import uninstrument_lambda
 from ipyflow.tracing.utils import (
     can_evaluate_in_nested_scope,
     match_container_obj_or_namespace_with_literal_nodes,
@@ -1189,10 +1189,10 @@ class DataflowTracer(StackFrameManager):
             self._resolve_external_call()
         if (
             ext_call_cand.modname != "builtins"
+            and isinstance(arg_node, ast.Lambda)
             and isinstance(arg_obj, FunctionType)
-            and arg_obj.__name__ == "<lambda>"
         ):
-            return uninstrument(arg_obj)
+            return uninstrument_lambda(arg_obj)
         return None
 
     def _save_external_call_candidate(
diff --git a/core/ipyflow/tracing/uninstrument.py b/core/ipyflow/tracing/uninstrument.py
index 11dc779..fbfade7 100644
--- a/core/ipyflow/tracing/uninstrument.py
+++ b/core/ipyflow/tracing/uninstrument.py
@@ -77,6 +77,44 @@ def _get_uninstrumented_decorator(obj: FunctionType, seen: Set[int]):
     return _make_uninstrumented_function(obj, func_text, func_node, seen)
 
 
+def uninstrument_lambda(obj: FunctionType) -> Optional[FunctionType]:
+    """
+    Give an uninstrumented version of the lambda `obj` that otherwise behaves
+    the same, i.e. which shares its globals, closure, and argument defaults.
+    """
+    for alias in flow().aliases.get(id(obj), []):
+        if not alias.is_lambda or not isinstance(alias.func_def_stmt, ast.Lambda):
+            continue
+        node = copy.deepcopy(alias.func_def_stmt)
+        # these were evaluated already
+        args = node.args
+        args.defaults = [ast.Constant(None) for _ in args.defaults]
+        args.kw_defaults = [
+            None if default is None else ast.Constant(None)
+            for default in args.kw_defaults
+        ]
+        freevars = obj.__code__.co_freevars
+        func_text = f"""
+def {PYCCOLO_BUILTIN_PREFIX}_make_closure({", ".join(freevars)}):
+    return {astunparse.unparse(node).strip()}"""
+        local_env: Dict[str, Any] = {}
+        try:
+            exec(func_text, {}, local_env)
+            code = local_env[f"{PYCCOLO_BUILTIN_PREFIX}_make_closure"](
+                *freevars
+            ).__code__
+        except Exception:
+            continue
+        if code.co_freevars != freevars:
+            continue
+        new_obj = FunctionType(
+            code, obj.__globals__, obj.__name__, obj.__defaults__, obj.__closure__
+        )
+        new_obj.__kwdefaults__ = obj.__kwdefaults__
+        return new_obj
+    return None
+
+
 def uninstrument(
     obj: FunctionType, seen: Optional[Set[int]] = None
 ) -> Optional[FunctionType]:
-- 
2.43.0


From d65941dc4c196fa248fe66ab4647548f514cc252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 27/33] fix: slices of earlier versions of a variable include
 the updates to its elements

---
 core/ipyflow/data_model/symbol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 2c85f44..c605a8e 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -361,7 +361,11 @@ class Symbol:
             return {Timestamp(self.defined_cell_num, ts.stmt_num)}
         else:
             return self._compute_namespace_timestamps(
-                version_ubound=None if version == -1 else ts
+                version_ubound=(
+                    None
+                    if version == -1
+                    else self._snapshot_timestamp_ubounds[version]
+                )
             ) - {Timestamp.uninitialized()}
 
     def code(
-- 
2.43.0


From 135a17a080bc05a882250c5df6cd7f9aff944517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 28/33] fix: values that contain themselves no longer hang the
 update of namespaces

---
 core/ipyflow/data_model/scope.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/scope.py b/core/ipyflow/data_model/scope.py
index 3e39d70..5260ad8 100644
--- a/core/ipyflow/data_model/scope.py
+++ b/core/ipyflow/data_model/scope.py
@@ -49,7 +49,9 @@ class Scope:
         symtab: Optional[symtable.SymbolTable] = None,
     ):
         self.scope_name = str(scope_name)
-        self.parent_scope = parent_scope  # None iff this is the global scope
+        # None iff this is the global scope
+        self._parent_scope: Optional["Scope"] = None
+        self.parent_scope = parent_scope
         self.symtab = symtab
         self._symbol_by_name: Dict[SupportedIndexType, Symbol] = {}
 
@@ -89,6 +91,20 @@ class Scope:
             raise ValueError("Only namespace scopes carry subscripts")
         return self._symbol_by_name
 
+    @property
+    def parent_scope(self) -> Optional["Scope"]:
+        return self._parent_scope
+
+    @parent_scope.setter
+    def parent_scope(self, parent_scope: Optional["Scope"]) -> None:
+        # an object may contain itself, but the chain of scopes needs to end
+        ancestor = parent_scope
+        while ancestor is not None:
+            if ancestor is self:
+                return
+            ancestor = ancestor._parent_scope
+        self._parent_scope = parent_scope
+
     @property
     def non_namespace_parent_scope(self) -> Optional["Scope"]:
         # a scope nested inside of a namespace scope does not have access
-- 
2.43.0


From 4a677b8dd5dd5d3d353929e0f8d353dc1ee58d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 29/33] fix: augmented assignments that update an object in
 place count as updates of it

---
 core/ipyflow/data_model/symbol.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index c605a8e..3e662aa 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1047,6 +1047,15 @@ class Symbol:
             self.watchpoints.clear()
         if mutated and self.is_immutable:
             return
+        if (
+            isinstance(self.stmt_node, ast.AugAssign)
+            and not (mutated or deleted or overwrite or self.is_immutable)
+            and self.obj is prev_obj
+        ):
+            # updated in place, so this is visible through all the other names, too;
+            # the elements that were already in a list are still the same ones
+            mutated = True
+            propagate_to_namespace_descendents = not isinstance(self.obj, list)
         # if we get here, no longer implicit
         self._implicit = False
         if not mutated and not deleted:
-- 
2.43.0


From c2cbc6a436323f57fb2857ae53a72c30b25a9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 30/33] fix: track the resulting object of an augmented
 assignment to an element

---
 core/ipyflow/data_model/statement.py   |  4 +++-
 core/ipyflow/tracing/ipyflow_tracer.py | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 0c2f184..6ac9e85 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -669,7 +669,9 @@ class Statement(SliceableMixin):
                     is_subscript,
                     excluded_deps,
                 ) = tracer().resolve_store_data_for_target(
-                    target, self.frame  # type: ignore[arg-type]
+                    target,  # type: ignore[arg-type]
+                    self.frame,
+                    is_augmented=isinstance(self.stmt_node, ast.AugAssign),
                 )
                 scope.upsert_symbol_for_name(
                     name,
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 1c16733..a2ba073 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -552,7 +552,10 @@ class DataflowTracer(StackFrameManager):
         return scope, target, obj, False, set()
 
     def resolve_store_data_for_target(
-        self, target: Union[str, int, ast.AST], frame: FrameType
+        self,
+        target: Union[str, int, ast.AST],
+        frame: FrameType,
+        is_augmented: bool = False,
     ) -> Tuple[Scope, AttrSubVal, Any, bool, Set[Symbol]]:
         resolved_target = self._partial_resolve_ref(target)
         if isinstance(resolved_target, str):
@@ -596,6 +599,17 @@ class DataflowTracer(StackFrameManager):
             # that gets stashed in `obj` for these cases, so use it instead of doing
             # the lookup (which may have side effects) to reduce intrusiveness
             attr_or_sub_obj = self.saved_assign_rhs_obj
+            if (
+                is_augmented
+                and is_subscript
+                and not flow().is_method_from_cell(attr_or_sub, "__eq__", "__hash__")
+            ):
+                # the object on the rhs is only an operand for these
+                base = dict if isinstance(obj, dict) else list
+                try:
+                    attr_or_sub_obj = base.__getitem__(obj, attr_or_sub)  # type: ignore
+                except (IndexError, KeyError, TypeError):
+                    pass
         elif flow().is_lookup_from_cell(obj, attr_or_sub, is_subscript):
             # ditto; the lookup would run user code
             attr_or_sub_obj = self.saved_assign_rhs_obj
-- 
2.43.0


From e395f45bb5df946da4ee6b3541c6b3cdce74507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 31/33] fix: what is computed from a slice depends on what was
 sliced

---
 core/ipyflow/tracing/symbol_resolver.py | 28 +++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index a486dcd..d7332b1 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -129,9 +129,30 @@ class ResolveRvalSymbols(
             return None
         return flow().namespaces.get(symbols[0].obj_id, None)
 
+    @staticmethod
+    def _is_untracked(node: ast.AST) -> bool:
+        """
+        Whether there is no symbol for what an attribute or subscript
+        is loaded from, e.g. because it is a slice or a temporary object.
+        """
+        symbols = tracer().resolve_loaded_symbols(node)
+        namespaces = {sym.containing_namespace for sym in symbols} - {None}
+        if namespaces:
+            return not any(flow().aliases.get(ns.obj_id) for ns in namespaces)  # type: ignore
+        if not isinstance(node, ast.Subscript):
+            return False
+        indices = getattr(node.slice, "elts", [node.slice])
+        return any(isinstance(index, ast.Slice) for index in indices)
+
+    def _visit_untracked(self, node: ast.AST) -> None:
+        while isinstance(node, (ast.Attribute, ast.Subscript)):
+            if isinstance(node.value, ast.Call) or self._is_untracked(node):
+                self.visit(node.value)
+                return
+            node = node.value
+
     def visit_Attribute(self, node: ast.Attribute):
-        if isinstance(node.value, ast.Call):
-            self.visit(node.value)
+        self._visit_untracked(node)
         symbols = tracer().resolve_loaded_symbols(node)
         if len(symbols) > 0:
             # don't update usage info for attributes; tracer is responsible for that
@@ -153,8 +174,7 @@ class ResolveRvalSymbols(
             )
 
     def visit_Subscript(self, node: ast.Subscript):
-        if isinstance(node.value, ast.Call):
-            self.visit(node.value)
+        self._visit_untracked(node)
         symbols = tracer().resolve_loaded_symbols(node)
         self._add_to_resolved(symbols, node, should_extend=False)
         # add slice to RHS to avoid propagating to it
-- 
2.43.0


From dbccaac7d5931af6abb109d574efdc04d7b75e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 32/33] fix: pull in every outdated cell between two cells that
 run

---
 frontend/labextension/src/store.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frontend/labextension/src/store.ts b/frontend/labextension/src/store.ts
index 9dc6aa1..b0cd74c 100644
--- a/frontend/labextension/src/store.ts
+++ b/frontend/labextension/src/store.ts
@@ -166,7 +166,6 @@ export class IpyflowSessionState {
     if (relatives === undefined) {
       return;
     }
-    const prevClosureSize = closure.size;
     relatives.forEach((related) => {
       this.computeRawTransitiveClosureHelper(
         closure,
@@ -177,7 +176,7 @@ export class IpyflowSessionState {
     });
     if (
       pullReactiveUpdates &&
-      (closure.size > prevClosureSize ||
+      (relatives.some((related) => closure.has(related)) ||
         !this.executedCells.has(cellId) ||
         this.readyCells.has(cellId) ||
         this.waitingCells.has(cellId) ||
-- 
2.43.0


From a94843b0407c9ee3c34e12b6d9e92a330a728a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 33/33] fix: names bound only on some paths through try or
 match are still live

A name that a try body, a handler or a match case binds was treated as
bound from there on, so that a later read of it in the same cell was not
seen as a read of another cell's value when a different path was taken.
---
 core/ipyflow/analysis/live_refs.py | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 8b06468..7a1a143 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -11,6 +11,7 @@ from typing import (
     Iterable,
     List,
     Optional,
+    Sequence,
     Set,
     Tuple,
     Union,
@@ -370,6 +371,43 @@ class ComputeLiveSymbolRefs(
 
     visit_For = visit_AsyncFor = visit_If = visit_While = generic_visit_branch_or_loop
 
+    def _visit_branch(
+        self, body: Sequence[ast.AST], dead: Iterable[SymbolRef] = ()
+    ) -> Set[SymbolRef]:
+        """
+        Visit something that may or may not run; returns what it binds if it does
+        """
+        branch_live: Set[LiveSymbolRef] = set()
+        branch_dead: Set[SymbolRef] = set(dead)
+        with self.push_attributes(live=branch_live, dead=branch_dead):
+            self.generic_visit(body)
+        self.live |= {ref for ref in branch_live if ref.ref not in self.dead}
+        self.modified |= branch_dead
+        return branch_dead
+
+    def visit_Try(self, node) -> None:
+        dead_by_path = [self._visit_branch(node.body)]
+        dead_by_path[0] = self._visit_branch(node.orelse, dead=dead_by_path[0])
+        for handler in node.handlers:
+            # any part of the body may have run
+            handler_dead = self._visit_branch([handler])
+            if not isinstance(
+                handler.body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break)
+            ):
+                dead_by_path.append(handler_dead)
+        final_dead = self._visit_branch(node.finalbody)
+        self.dead |= set.intersection(*dead_by_path) | final_dead
+
+    visit_TryStar = visit_Try
+
+    def visit_Match(self, node) -> None:
+        self.visit(node.subject)
+        dead_by_path = [self._visit_branch([case]) for case in node.cases]
+        last = node.cases[-1]
+        if last.guard is None and getattr(last.pattern, "pattern", node) is None:
+            # `case _` or `case name`, i.e. one of the cases is taken for sure
+            self.dead |= set.intersection(*dead_by_path)
+
     def visit_ClassDef(self, node: ast.ClassDef) -> None:
         self.generic_visit(node.bases)
         self.generic_visit(node.keywords)
-- 
2.43.0

