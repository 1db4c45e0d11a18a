From f7b1d3cd4e989712fb5d21f382f8efa6c4fb4ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 01/41] fix: functions with annotated local variables could not
 be normalized

---
 .../code_normalizer_implementation.py           | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 00c5f76..8347d9c 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -24,6 +24,15 @@ from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinari
 import pythagoras as pth
 
 
+class _AnnotatedAssignmentsRemover(ast.NodeTransformer):
+    """Turn 'x:T = v' into 'x = v', and a bare 'x:T' into 'pass'."""
+    def visit_AnnAssign(self, node):
+        if node.value is None:
+            return ast.copy_location(ast.Pass(), node)
+        return self.generic_visit(ast.copy_location(
+            ast.Assign(targets=[node.target], value=node.value), node))
+
+
 def __get_normalized_function_source__(
         a_func:Callable|str
         , drop_pth_decorators:bool = False
@@ -100,14 +109,12 @@ def __get_normalized_function_source__(
         assert pth_dec_counter == 1
         code_ast.body[0].decorator_list = []
 
+    # Remove type annotations from variable declarations.
+    code_ast = _AnnotatedAssignmentsRemover().visit(code_ast)
+
     # Remove docstrings.
     for node in ast.walk(code_ast):
 
-        if isinstance(node, ast.AnnAssign):
-            # remove type annotation from variable declarations
-            node.annotation = None
-            continue
-
         if isinstance(node, ast.arg):
             # argument annotations in functions
             node.annotation = None
-- 
2.43.0


From 1206d5c495b36f3e229b7cf33b511f77e53e34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 02/41] fix: sys.excepthook was never restored after a portal
 had replaced it

---
 pythagoras/_020_logging_portals/logging_portals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 1c3f14f..2854de3 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -29,6 +29,7 @@ def pth_excepthandler(_, exc_type, exc_value
 
 _previous_excepthook = None
 def register_systemwide_uncaught_exception_handlers() -> None:
+    global _previous_excepthook
     if not is_executed_in_notebook():
         _previous_excepthook = sys.excepthook
         sys.excepthook = pth_excepthook
-- 
2.43.0


From 200830f310ec7c0c81df86354307542ba78cedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 03/41] fix: uncaught exceptions were never logged, and handled
 ones were logged on a normal exit

---
 pythagoras/_020_logging_portals/logging_portals.py  | 12 +++++++-----
 pythagoras/_070_pure_functions/pure_core_classes.py |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 2854de3..0c09050 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -19,12 +19,12 @@ from pythagoras._820_strings_signatures_converters.random_signatures import (
 
 
 def pth_excepthook(exc_type, exc_value, trace_back) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._exception_logger((exc_type, exc_value, trace_back))
     sys.__excepthook__(exc_type, exc_value, trace_back)
 
 def pth_excepthandler(_, exc_type, exc_value
                     , trace_back, tb_offset=None) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._exception_logger((exc_type, exc_value, trace_back))
     traceback.print_exception(exc_type, exc_value, trace_back)
 
 _previous_excepthook = None
@@ -308,8 +308,10 @@ class LoggingPortal(BasicPortal):
         return build_execution_environment_summary()
 
     @staticmethod
-    def _exception_logger():
-        exc_type, exc_value, trace_back = sys.exc_info()
+    def _exception_logger(exc_info:tuple|None = None):
+        if exc_info is None:
+            exc_info = sys.exc_info()
+        exc_type, exc_value, trace_back = exc_info
 
         if not LoggingPortal._exception_needs_to_be_processed(
                 exc_type, exc_value, trace_back):
@@ -325,7 +327,7 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger()
+        LoggingPortal._exception_logger((exc_type, exc_val, exc_tb))
         super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index af5b3fd..de2af80 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -967,7 +967,7 @@ class PureFnExecutionFrame(PortalAwareClass):
             self.fn_address + ["results", self.session_id]] = result
 
     def __exit__(self, exc_type, exc_value, trace_back):
-        self.output_capturer.__exit__(exc_type, exc_value, traceback)
+        self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
         output_id = self.session_id+"_output"
         execution_outputs = self.fn_address.execution_outputs
@@ -976,7 +976,7 @@ class PureFnExecutionFrame(PortalAwareClass):
         # self.register_exception(
         #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
 
-        self.portal.__exit__(exc_type, exc_value, traceback)
+        self.portal.__exit__(exc_type, exc_value, trace_back)
         self.fn.call_stack.pop()
 
 
-- 
2.43.0


From 8f8da0ee4a5fa32b6ef2d03809a73173f0de19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 04/41] fix: OverlappingMultiDict guards were local functions
 of __init__, hence inactive

---
 .../overlapping_multi_dict.py                 | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
index b120b37..3cfecbf 100644
--- a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
+++ b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
@@ -35,23 +35,23 @@ class OverlappingMultiDict:
                 ,**individual_subdicts_params[subdict_name]
                 ,"file_type":subdict_name})
 
-        def __getstate__(self):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __setstate__(self, state):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __getitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __setitem__(self, key, value):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __delitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
+    def __getstate__(self):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __setstate__(self, state):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __getitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __setitem__(self, key, value):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __delitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
-- 
2.43.0


From ad22dd75a62cca64e55e368321e50e1dc0180360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 05/41] fix: functions could not be decorated with @safe()

---
 pythagoras/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/__init__.py b/pythagoras/__init__.py
index 3351ed5..3470660 100644
--- a/pythagoras/__init__.py
+++ b/pythagoras/__init__.py
@@ -56,6 +56,7 @@ primary_decorators = {d.__name__:d for d in [
     ]}
 all_decorators = {d.__name__:d for d in [
     ordinary
+    , safe
     , autonomous
     , strictly_autonomous
     , pure
-- 
2.43.0


From e007b86876a3d707df6f8ab527b677011ffcf30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 06/41] fix: a value held only by the entered portal was not
 found via an address bound to another portal

---
 pythagoras/_030_data_portals/value_addresses.py     | 8 ++++++--
 pythagoras/_070_pure_functions/pure_core_classes.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 19cef26..78f9294 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -86,7 +86,9 @@ class ValueAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in DataPortal.get_noncurrent_portals():
+        with self.portal:
+            noncurrent_portals = DataPortal.get_noncurrent_portals()
+        for portal in noncurrent_portals:
             with portal:
                 if self in portal.value_store:
                     data = portal.value_store[self]
@@ -125,7 +127,9 @@ class ValueAddr(HashAddr):
 
     def get_from_noncurrent_portals(self, timeout:Optional[int] = None) -> Any:
         """Retrieve value, referenced by the address, from noncurrent portals"""
-        for portal in DataPortal.get_noncurrent_portals():
+        with self.portal:
+            noncurrent_portals = DataPortal.get_noncurrent_portals()
+        for portal in noncurrent_portals:
             try:
                 with portal:
                     result = portal.value_store[self]
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index de2af80..8ca60d5 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -605,7 +605,9 @@ class PureFnExecutionResultAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in PureCodePortal.get_noncurrent_portals():
+        with self.portal:
+            noncurrent_portals = PureCodePortal.get_noncurrent_portals()
+        for portal in noncurrent_portals:
             with portal:
                 if self in portal.execution_results:
                     addr = portal.execution_results[self]
-- 
2.43.0


From 1395bb1247ec1d6c3ed60bddb250d2ccbd6634b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 07/41] fix: executing a helper changed the addresses of pure
 functions that depend on it

---
 .../_060_autonomous_functions/autonomous_core_classes.py       | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index bf2f55c..4f9d4b8 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -261,10 +261,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         import_required -= {"self"} #TODO: replace with ._available_names() ???
         if not self.strictly_autonomous:
             island = portal.known_functions[self.island_name]
-            prev_len_import_required = len(import_required)
             import_required -= set(island)
-            if len(import_required) == prev_len_import_required:
-                self.strictly_autonomous = True
 
         assert len(import_required) ==0, (f"Function {self.fn_name}"
             + f" is not autonomous, it uses global"
-- 
2.43.0


From 59864f6e3fe4125db0928a4190c71f3e20b11a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 08/41] fix: keyword-only, positional-only and lambda
 parameters were taken for global names

---
 .../names_usage_analyzer.py                   | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f6e0af6..32dd198 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -27,17 +27,29 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.func_nesting_level = 0
         self.n_yelds = 0
 
+    def _add_parameters(self, args: ast.arguments):
+        for arg in args.posonlyargs + args.args + args.kwonlyargs:
+            self.names.local |= {arg.arg}
+        if args.vararg:
+            self.names.local |= {args.vararg.arg}
+        if args.kwarg:
+            self.names.local |= {args.kwarg.arg}
+        self.names.accessible |= self.names.local
+
+    def visit_Lambda(self, node):
+        nested = NamesUsageAnalyzer()
+        nested.func_nesting_level = 1
+        nested._add_parameters(node.args)
+        nested.visit(node.body)
+        self.names.unclassified_deep |= (
+            nested.names.unclassified_deep - self.names.accessible)
+        self.visit(node.args)
+
     def visit_FunctionDef(self, node):
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
-            for arg in node.args.args:
-                self.names.local |= {arg.arg}
-            if node.args.vararg:
-                self.names.local |= {node.args.vararg.arg}
-            if node.args.kwarg:
-                self.names.local |= {node.args.kwarg.arg}
-            self.names.accessible |= self.names.local
+            self._add_parameters(node.args)
             self.generic_visit(node)
             self.func_nesting_level -= 1
         else:
-- 
2.43.0


From 9b2d8c1bdc6fe405f4bc06d09c8d94d9a4ebf202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 09/41] fix: a nested function calling itself and a nested
 class were taken for global names

---
 .../_060_autonomous_functions/names_usage_analyzer.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 32dd198..42fb5eb 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -55,17 +55,22 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         else:
             nested = NamesUsageAnalyzer()
             nested.visit(node)
+            self.names.local |= {node.name}
+            self.names.accessible |= {node.name}
             self.imported_packages_deep |= nested.imported_packages_deep
             nested.names.explicitly_nonlocal_unbound_deep -= self.names.accessible
             self.names.explicitly_nonlocal_unbound_deep |= nested.names.explicitly_nonlocal_unbound_deep
             self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
             nested.names.unclassified_deep -= self.names.accessible
             self.names.unclassified_deep |= nested.names.unclassified_deep
-            self.names.local |= {node.name}
-            self.names.accessible |= {node.name}
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
+    def visit_ClassDef(self, node):
+        self.names.local |= {node.name}
+        self.names.accessible |= {node.name}
+        self.generic_visit(node)
+
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Load):
             if node.id not in self.names.accessible:
-- 
2.43.0


From 9b9e5506a7db80013b1ee3cdf76d5181bacb4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 10/41] fix: after "import a.b" the name "a" was taken for a
 global name

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 42fb5eb..63ba280 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -136,7 +136,7 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            name = alias.asname if alias.asname else alias.name
+            name = alias.asname if alias.asname else alias.name.split('.')[0]
             self.names.imported |= {name}
             self.imported_packages_deep |= {alias.name.split('.')[0]}
         self.names.accessible |= self.names.imported
-- 
2.43.0


From 4e6e3c0163e53eb792409e22abebf9bf5c74fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 11/41] fix: executing a non-autonomous function raised an
 unrelated AttributeError

---
 pythagoras/_060_autonomous_functions/autonomous_core_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 4f9d4b8..a51c92a 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -310,6 +310,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
     def execute(self, **kwargs) -> Any:
         with self.portal as portal:
+            self._complete_fn_registration()
             return SafeFn.execute(self, **kwargs)
 
     def __getstate__(self):
-- 
2.43.0


From 8104c30a4596e5a0e3ef9fe9965861115489232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 12/41] fix: guards received addresses instead of argument
 values when a call was executed via its address

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 8ca60d5..cded4a4 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -424,8 +424,8 @@ class PureFn(AutonomousFn):
                 conduct_consistency_checks = True
             with PureFnExecutionFrame(output_address) as frame:
                 output_address.request_execution()
-                assert self.can_be_executed(**kwargs)
                 unpacked_kwargs = SortedKwArgs(**packed_kwargs).unpack()
+                assert self.can_be_executed(**unpacked_kwargs)
                 result = super().execute(**unpacked_kwargs)
                 result_addr = ValueAddr(result)
                 frame.register_execution_result(result_addr)
-- 
2.43.0


From 292144cbe504feb14084ab4ae06a4c324ee840e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 13/41] fix: a guarded pure function could not be restored in a
 new session

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index cded4a4..b173068 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -226,11 +226,12 @@ class PureFn(AutonomousFn):
 
         augmented_code = ""
 
-        full_dependencies = []
-        if self.guards is not None:
-            full_dependencies += self.guards
-        full_dependencies += self.dependencies
-        full_dependencies = sorted(full_dependencies)
+        all_guards = set()
+        for fn_name in self.dependencies:
+            all_guards |= set(getattr(island[fn_name], "guards", None) or [])
+        # guards must be registered before the functions they guard
+        full_dependencies = sorted(all_guards) + sorted(
+            set(self.dependencies) - all_guards)
 
         for fn_name in full_dependencies:
             f = island[fn_name]
-- 
2.43.0


From 2a22dd7633560cc9e1546c101f6dc8ff3e32d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 14/41] fix: get() raised TimeoutError for a result that became
 available in time

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index b173068..4e3c5c1 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -716,7 +716,7 @@ class PureFnExecutionResultAddr(HashAddr):
                         current_time = time.time()
                         if current_time + backoff_period > stop_time:
                             backoff_period = stop_time - current_time
-                        if current_time > stop_time:
+                        if current_time > stop_time and not self.ready:
                             raise TimeoutError
                     backoff_period = max(1.0, backoff_period)
 
-- 
2.43.0


From 62b3f45a8b91ac66359041c5569eadefe65d6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 15/41] fix: log handlers received records below their level
 while output was captured

---
 pythagoras/_810_output_manipulators/output_capturer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 23961d8..6abea42 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -70,7 +70,8 @@ class OutputCapturer:
             msg = self.format(record)
             self.buffer.write(msg + '\n')
             for handler in self.original_handlers:
-                handler.emit(record)
+                if record.levelno >= handler.level:
+                    handler.handle(record)
 
     def __init__(self):
         """ Initialize the OutputCapturer object.
-- 
2.43.0


From 5cc5ba9231564a9917f702d93f9347e68a49cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 16/41] fix: empty lines and indentation inside multi-line
 strings were removed from functions

---
 .../code_normalizer_implementation.py         | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 8347d9c..08246f2 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -57,29 +57,20 @@ def __get_normalized_function_source__(
     else:
         assert callable(a_func) or isinstance(a_func, str)
 
-    code_lines = code.splitlines()
-
-    code_no_empty_lines = []
-    for line in code_lines:
-        if set(line)<=set(" \t"):
-            continue
-        code_no_empty_lines.append(line)
+    code_lines = code.split("\n")
+    while len(code_lines) and set(code_lines[0])<=set(" \t"):
+        code_lines.pop(0)
+    code_clean_version = "\n".join(code_lines)
+    if a_func_name is None:
+        a_func_name = get_function_name_from_source(code_clean_version)
 
     # Fix indent for functions that are defined within other functions;
     # most frequently it is used for tests.
-    first_line_no_indent = code_no_empty_lines[0].lstrip()
-    n_chars_to_remove = len(code_no_empty_lines[0]) - len(first_line_no_indent)
-    chars_to_remove = code_no_empty_lines[0][:n_chars_to_remove]
-    code_clean_version = []
-    for line in code_no_empty_lines:
-        assert line.startswith(chars_to_remove)
-        cleaned_line = line[n_chars_to_remove:]
-        code_clean_version.append(cleaned_line)
-
-    code_clean_version = "\n".join(code_clean_version)
-    if a_func_name is None:
-        a_func_name = get_function_name_from_source(code_clean_version)
-    code_ast = ast.parse(code_clean_version)
+    if code_clean_version[:1] in (" ", "\t"):
+        code_ast = ast.parse("if True:\n" + code_clean_version)
+        code_ast.body = code_ast.body[0].body
+    else:
+        code_ast = ast.parse(code_clean_version)
 
     assert isinstance(code_ast, ast.Module)
     assert isinstance(code_ast.body[0], ast.FunctionDef),(
-- 
2.43.0


From 12193e4b2717dfc44e82f26a531a0c3c8955cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 17/41] fix: a storage failure left the output redirected and
 the portal entered

---
 .../_020_logging_portals/logging_portals.py   |  6 +++--
 .../_070_pure_functions/pure_core_classes.py  | 25 ++++++++++++-------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 0c09050..a75164b 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -327,8 +327,10 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger((exc_type, exc_val, exc_tb))
-        super().__exit__(exc_type, exc_val, exc_tb)
+        try:
+            LoggingPortal._exception_logger((exc_type, exc_val, exc_tb))
+        finally:
+            super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
     @staticmethod
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 4e3c5c1..dc10218 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -952,7 +952,13 @@ class PureFnExecutionFrame(PortalAwareClass):
         self.portal.__enter__()
         self.output_capturer.__enter__()
         self.fn.call_stack.append(self)
-        self.register_execution_attempt()
+        try:
+            self.register_execution_attempt()
+        except:
+            self.fn.call_stack.pop()
+            self.output_capturer.__exit__(None, None, None)
+            self.portal.__exit__(None, None, None)
+            raise
         return self
 
     def register_execution_attempt(self):
@@ -972,15 +978,16 @@ class PureFnExecutionFrame(PortalAwareClass):
     def __exit__(self, exc_type, exc_value, trace_back):
         self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
-        output_id = self.session_id+"_output"
-        execution_outputs = self.fn_address.execution_outputs
-        execution_outputs[output_id] = self.output_capturer.get_output()
+        try:
+            output_id = self.session_id+"_output"
+            execution_outputs = self.fn_address.execution_outputs
+            execution_outputs[output_id] = self.output_capturer.get_output()
 
-        # self.register_exception(
-        #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
-
-        self.portal.__exit__(exc_type, exc_value, trace_back)
-        self.fn.call_stack.pop()
+            # self.register_exception(
+            #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
+        finally:
+            self.fn.call_stack.pop()
+            self.portal.__exit__(exc_type, exc_value, trace_back)
 
 
     def _extra_exception_data(self) -> dict:
-- 
2.43.0


From c1d315ae3391923fbb4dfa1f6d3754efac595249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 18/41] fix: functions that assign a lambda to a name were
 stored with a changed body and could not be autonomous

---
 .../_040_ordinary_functions/code_normalizer_implementation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 08246f2..478f0da 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -134,6 +134,8 @@ def __get_normalized_function_source__(
         # TODO: compare with the source for ast.candidate_docstring()
 
     result = ast.unparse(code_ast)
-    result = autopep8.fix_code(result)
+    # E731 would rewrite lambda assignments into nested functions
+    result = autopep8.fix_code(result, options=dict(
+        ignore=["E226", "E24", "W50", "W690", "E731"]))
 
     return result
\ No newline at end of file
-- 
2.43.0


From 6f54ca961acc61d72d6d2d9bd9f0b5a5e51061ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 19/41] fix: normalizing a function with several leading texts
 was not idempotent

---
 .../code_normalizer_implementation.py                 | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 478f0da..294a405 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -122,13 +122,10 @@ def __get_normalized_function_source__(
 
         if not len(node.body):
             continue
-        if not isinstance(node.body[0], ast.Expr):
-            continue
-        if not hasattr(node.body[0], 'value'):
-            continue
-        if not isinstance(node.body[0].value, ast.Str):
-            continue
-        node.body = node.body[1:]
+        # texts that follow a docstring become docstrings when it is removed
+        while (len(node.body) and isinstance(node.body[0], ast.Expr)
+                and isinstance(node.body[0].value, ast.Str)):
+            node.body = node.body[1:]
         if len(node.body) < 1:
             node.body.append(ast.Pass())
         # TODO: compare with the source for ast.candidate_docstring()
-- 
2.43.0


From a2fd1db172204f55a2171dc70eb8895c5645d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 20/41] fix: names bound by match patterns and except* were
 taken for global names

---
 .../names_usage_analyzer.py                   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index 63ba280..f9c5743 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -20,7 +20,6 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     This class is a visitor of an AST (Abstract Syntax Tree) that collects data
     needed to analyze function autonomy.
     """
-    # TODO: add support for structural pattern matching
     def __init__(self):
         self.names = NamesUsedInFunction()
         self.imported_packages_deep = set()
@@ -99,6 +98,24 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             self.names.accessible |= {handler.name}
         self.generic_visit(node)
 
+    visit_TryStar = visit_Try
+
+    def _add_pattern_name(self, name):
+        if name is not None:
+            self.names.local |= {name}
+            self.names.accessible |= {name}
+
+    def visit_MatchAs(self, node):
+        self._add_pattern_name(node.name)
+        self.generic_visit(node)
+
+    def visit_MatchStar(self, node):
+        self._add_pattern_name(node.name)
+
+    def visit_MatchMapping(self, node):
+        self._add_pattern_name(node.rest)
+        self.generic_visit(node)
+
     def visit_comprehension(self, node):
         if isinstance(node.target, (ast.Tuple, ast.List)):
             all_targets =node.target.elts
-- 
2.43.0


From 7ae1ac6c7b041dece6daedf0c0fabf06420b5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 21/41] fix: nested async functions were not analyzed as
 functions (parameters reported as global names)

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f9c5743..cabfc18 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -65,6 +65,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
     def visit_ClassDef(self, node):
         self.names.local |= {node.name}
         self.names.accessible |= {node.name}
-- 
2.43.0


From 41d0ef910b009bfa446a29abbfbf302319f516fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 22/41] fix: a function declared twice was marked as registered
 without its compiled code

---
 .../_060_autonomous_functions/autonomous_core_classes.py     | 5 ++---
 pythagoras/_070_pure_functions/pure_core_classes.py          | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index a51c92a..edec26c 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -239,8 +239,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         assert self.fn_source_code == island[fn_name].fn_source_code
 
         if island[fn_name]._fn_fully_registered:
-            if type(self) == AutonomousFn:
-                self.update(island[fn_name])
+            self.update(island[fn_name])
             return
 
         SafeFn._complete_fn_registration(self)
@@ -279,7 +278,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         if type(self) == AutonomousFn:
             self._fn_fully_registered = True
-            island[fn_name]._fn_fully_registered = True
+            island[fn_name].update(self)
 
 
     def _available_names(self):
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index dc10218..11b874b 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -250,7 +250,7 @@ class PureFn(AutonomousFn):
 
         if type(self) == PureFn:
             self._fn_fully_registered = True
-            island[name]._fn_fully_registered = True
+            island[name].update(self)
 
 
 
-- 
2.43.0


From ff41ad83cfe11e83210aed50cf9d96eeb5376772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 23/41] fix: a request stayed pending when its result had been
 computed through another portal

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 11b874b..c68832b 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -418,6 +418,7 @@ class PureFn(AutonomousFn):
             p_consistency_checks = portal.p_consistency_checks
             conduct_consistency_checks = False
             if output_address.ready:
+                output_address.drop_execution_request()
                 if p_consistency_checks in [None,0]:
                     return output_address.get()
                 if not random_x < p_consistency_checks:
@@ -691,6 +692,7 @@ class PureFnExecutionResultAddr(HashAddr):
             if self.ready:
                 result_addr = portal.execution_results[self]
                 self._result = portal.value_store[result_addr]
+                self.drop_execution_request()
                 return self._result
 
             self.request_execution()
-- 
2.43.0


From 165cd379dd3fa99dc819055f849b9360072dc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 24/41] fix: guards got addresses instead of values when asked
 about a call with addresses as arguments

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index c68832b..c3d4301 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -192,6 +192,7 @@ class PureFn(AutonomousFn):
         with self.portal:
             try:
                 if self.guards is not None:
+                    kwargs = SortedKwArgs(**kwargs).unpack()
                     island = self.portal.known_functions[self.island_name]
                     for f in self.guards:
                         island[f].execute(**kwargs)
-- 
2.43.0


From 2d512410bc8296b0f2283c091a70d1cbfdb4affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 25/41] fix: a capturer entered later than created put back
 streams that were no longer in place

---
 pythagoras/_810_output_manipulators/output_capturer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 6abea42..a7ee373 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -93,6 +93,10 @@ class OutputCapturer:
     def __enter__(self):
         """Redirect stdout, stderr, and logging output to the capturer.
         """
+        self.original_stdout = self.tee_stdout.original = sys.stdout
+        self.original_stderr = self.tee_stderr.original = sys.stderr
+        self.original_log_handlers = logging.root.handlers[:]
+        self.capture_handler.original_handlers = self.original_log_handlers
         sys.stdout = self.tee_stdout
         sys.stderr = self.tee_stderr
         logging.root.handlers = [self.capture_handler]  # Temporarily replace existing handlers
-- 
2.43.0


From 5b793105d1fe8f0d9de00dbf7eda26e77c9b1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 26/41] fix: output stayed captured when printing the traceback
 failed

---
 .../_810_output_manipulators/output_capturer.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index a7ee373..31283f5 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -105,11 +105,13 @@ class OutputCapturer:
     def __exit__(self, exc_type, exc_val, exc_tb):
         """Restore stdout, stderr, and logging output to their original state.
         """
-        if exc_type is not None:
-            traceback.print_exc()
-        sys.stdout = self.original_stdout
-        sys.stderr = self.original_stderr
-        logging.root.handlers = self.original_log_handlers
+        try:
+            if exc_type is not None:
+                traceback.print_exc()
+        finally:
+            sys.stdout = self.original_stdout
+            sys.stderr = self.original_stderr
+            logging.root.handlers = self.original_log_handlers
 
     def get_output(self):
         """Retrieve the captured output from the buffer.
-- 
2.43.0


From a1c43eb2aea5b3c7d999992f08a692aeb402bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 27/41] fix: writelines and the number returned by write were
 missing while output was captured

---
 pythagoras/_810_output_manipulators/output_capturer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 31283f5..cc05a3f 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -35,8 +35,14 @@ class OutputCapturer:
             Args:
                 data: The data to be written.
             """
-            self.original.write(data)
+            result = self.original.write(data)
             self.buffer.write(data)
+            return result
+
+        def writelines(self, lines):
+            """Write lines to both the original stream and the buffer."""
+            for line in lines:
+                self.write(line)
 
         def flush(self):
             """Flush original stream and buffer to ensure all data is written.
-- 
2.43.0


From e722ca9c57344d066142a3641f29ffcfcd378282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 28/41] fix: the mark of the runtime outlived the program if
 another portal had been created before

---
 pythagoras/_090_swarming_portals/swarming_portals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index f20f66e..405e167 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -64,8 +64,8 @@ class SwarmingPortal(PureCodePortal):
             # for portal in self.get_noncurrent_portals():
             #     portal.compute_nodes.pkl[address] = runtime_id
 
-            if len(BasicPortal.all_portals) == 1:
-                atexit.register(_clean_runtime_id)
+            atexit.unregister(_clean_runtime_id)
+            atexit.register(_clean_runtime_id)
 
             summary = build_execution_environment_summary()
             address = [self.node_id, "execution_environment"]
-- 
2.43.0


From 33865d70f6b617f7e9268e97e156cca9eabc7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 29/41] fix: the background workers of the default portal could
 not rebuild it from its parameters

---
 .../default_local_portal.py                   | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_100_default_local_portals/default_local_portal.py b/pythagoras/_100_default_local_portals/default_local_portal.py
index 812967f..543ea01 100644
--- a/pythagoras/_100_default_local_portals/default_local_portal.py
+++ b/pythagoras/_100_default_local_portals/default_local_portal.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
-from persidict import FileDirDict
+import parameterizable
+from persidict import FileDirDict, PersiDict
 
 from pythagoras._010_basic_portals import BasicPortal
 from pythagoras._090_swarming_portals.swarming_portals import SwarmingPortal
@@ -14,7 +15,7 @@ class DefaultLocalPortal(SwarmingPortal):
     _default_local_portal_instance: DefaultLocalPortal | None = None
     _calls_counter = 0
 
-    def __new__(cls):
+    def __new__(cls, *args, **kwargs):
         """ Singleton pattern implementation for DefaultLocalPortal class.
 
         Returns the same instance of DefaultLocalPortal class if it has been
@@ -26,15 +27,24 @@ class DefaultLocalPortal(SwarmingPortal):
                 DefaultLocalPortal, cls).__new__(cls)
         return cls._default_local_portal_instance
 
-    def __init__(self):
+    def __init__(self
+                 , root_dict: PersiDict | str | None = None
+                 , default_island_name: str = "Samos"
+                 , p_consistency_checks: float | None = 0
+                 , n_background_workers: int | None = 3
+                 , runtime_id: str | None = None
+                 ):
         if DefaultLocalPortal._calls_counter > 0:
             return
         DefaultLocalPortal._calls_counter += 1
+        if root_dict is None:
+            root_dict = FileDirDict(BasicPortal.default_base_dir())
         SwarmingPortal.__init__(self
-            , root_dict = FileDirDict(BasicPortal.default_base_dir())
-            , default_island_name = "Samos"
-            , p_consistency_checks = 0
-            , n_background_workers=3
+            , root_dict = root_dict
+            , default_island_name = default_island_name
+            , p_consistency_checks = p_consistency_checks
+            , n_background_workers = n_background_workers
+            , runtime_id = runtime_id
             )
 
     @classmethod
@@ -43,3 +53,5 @@ class DefaultLocalPortal(SwarmingPortal):
         cls._default_local_portal_instance = None
         cls._calls_counter = 0
         super()._clear_all()
+
+parameterizable.register_parameterizable_class(DefaultLocalPortal)
-- 
2.43.0


From aa4b9a6baa4fc827de2d163b9fd9f81edfaf7652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 30/41] fix: a portal that was refused stayed among the known
 portals

---
 pythagoras/_030_data_portals/data_portals.py                  | 2 +-
 .../_060_autonomous_functions/autonomous_core_classes.py      | 4 ++--
 pythagoras/_090_swarming_portals/swarming_portals.py          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_030_data_portals/data_portals.py b/pythagoras/_030_data_portals/data_portals.py
index cf381a5..17afe28 100644
--- a/pythagoras/_030_data_portals/data_portals.py
+++ b/pythagoras/_030_data_portals/data_portals.py
@@ -36,10 +36,10 @@ class DataPortal(LoggingPortal):
             , root_dict:PersiDict|str|None = None
             , p_consistency_checks: float | None = None
             ):
+        assert p_consistency_checks is None or 0 <= p_consistency_checks <= 1
         super().__init__(root_dict = root_dict)
         del root_dict
 
-        assert p_consistency_checks is None or 0 <= p_consistency_checks <= 1
         if p_consistency_checks is None:
             p_consistency_checks = 0
         self._p_consistency_checks = p_consistency_checks
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index edec26c..a77ba8c 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -42,10 +42,10 @@ class AutonomousCodePortal(SafeCodePortal):
             , p_consistency_checks: float | None = None
             , default_island_name: str = "Samos"
             ):
-        super().__init__(root_dict=root_dict
-            , p_consistency_checks=p_consistency_checks)
         assert isinstance(default_island_name, str)
         assert len(default_island_name) >= 1
+        super().__init__(root_dict=root_dict
+            , p_consistency_checks=p_consistency_checks)
         self.default_island_name = default_island_name
         self.known_functions = dict()
         self.known_functions[default_island_name] = dict()
diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index 405e167..96975d7 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -36,11 +36,11 @@ class SwarmingPortal(PureCodePortal):
                  , n_background_workers:int|None = 3
                  , runtime_id:str|None = None
                  ):
+        n_background_workers = int(n_background_workers)
+        assert n_background_workers >= 0
         super().__init__(root_dict=root_dict
                          , p_consistency_checks=p_consistency_checks
                          , default_island_name=default_island_name)
-        n_background_workers = int(n_background_workers)
-        assert n_background_workers >= 0
         self.n_background_workers = n_background_workers
 
         compute_nodes_prototype = self.root_dict.get_subdict("compute_nodes")
-- 
2.43.0


From 880f924cf2fffd2ebfa13bd2680fe271493b28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 31/41] fix: a default portal whose creation had failed was
 handed out uninitialized

---
 pythagoras/_100_default_local_portals/default_local_portal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_100_default_local_portals/default_local_portal.py b/pythagoras/_100_default_local_portals/default_local_portal.py
index 543ea01..8cfbed9 100644
--- a/pythagoras/_100_default_local_portals/default_local_portal.py
+++ b/pythagoras/_100_default_local_portals/default_local_portal.py
@@ -36,7 +36,6 @@ class DefaultLocalPortal(SwarmingPortal):
                  ):
         if DefaultLocalPortal._calls_counter > 0:
             return
-        DefaultLocalPortal._calls_counter += 1
         if root_dict is None:
             root_dict = FileDirDict(BasicPortal.default_base_dir())
         SwarmingPortal.__init__(self
@@ -46,6 +45,7 @@ class DefaultLocalPortal(SwarmingPortal):
             , n_background_workers = n_background_workers
             , runtime_id = runtime_id
             )
+        DefaultLocalPortal._calls_counter += 1
 
     @classmethod
     def _clear_all(cls):
-- 
2.43.0


From a46e460388bb0cd56eb3aad907222524d84ed3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 32/41] fix: require the indirect dependencies of a function to
 be known

A function whose direct dependencies were declared, but whose indirect ones
were not, was registered for good with an incomplete list of dependencies.
Its augmented source code, and hence its address, depended on what had been
executed before what was declared, and its pickled form lacked the functions
declared later.
---
 .../autonomous_core_classes.py                | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index a77ba8c..d52945f 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -244,6 +244,21 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         SafeFn._complete_fn_registration(self)
 
+        dependencies = self._get_deep_dependencies({fn_name})
+        assert len(dependencies) >= 1
+        dependencies = sorted(dependencies)
+        island[fn_name]._autonomous_fn_dependencies = dependencies
+        self._autonomous_fn_dependencies = dependencies
+
+        if type(self) == AutonomousFn:
+            self._fn_fully_registered = True
+            island[fn_name].update(self)
+
+
+    def _check_required_names(self) -> None:
+        """Check that the function uses no unknown global names."""
+        portal = self.portal
+        fn_name = self.fn_name
         analyzer = analyze_names_in_function(self.fn_source_code)
         normalized_source = analyzer["normalized_source"]
         analyzer = analyzer["analyzer"]
@@ -267,18 +282,23 @@ class AutonomousFn(SafeFn, PortalAwareClass):
             + f" objects {import_required}"
             + f" without importing them inside the function body")
 
+
+    def _get_deep_dependencies(self, fn_names: set[str]) -> set[str]:
+        """Find all the functions which the given functions depend on.
+
+        All the names used by these functions must already be known,
+        otherwise the answer would depend on the order in which
+        the functions are declared and executed.
+        """
+        island = self.portal.known_functions[self.island_name]
         all_functions_in_island = [f.fn_source_code for f in island.values()]
         deep_dependencies = explore_call_graph_deep(all_functions_in_island)
-        dependencies = deep_dependencies[fn_name]
-        assert isinstance(dependencies, set)
-        assert len(dependencies) >= 1
-        dependencies = sorted(dependencies)
-        island[fn_name]._autonomous_fn_dependencies = dependencies
-        self._autonomous_fn_dependencies = dependencies
-
-        if type(self) == AutonomousFn:
-            self._fn_fully_registered = True
-            island[fn_name].update(self)
+        dependencies = set()
+        for fn_name in fn_names:
+            dependencies |= deep_dependencies[fn_name]
+        for fn_name in sorted(dependencies):
+            island[fn_name]._check_required_names()
+        return dependencies
 
 
     def _available_names(self):
-- 
2.43.0


From ce05a659090dd98be8173a5e11fa7278c0d1d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 33/41] fix: carry everything that guards need along with a
 pure function

The augmented source code of a pure function contained the guards of its
dependencies, but neither the functions these guards depend on nor the guards
of any of those. A pure function restored from its pickled form could not be
executed (or restored at all) in a session where they were not declared.
---
 .../_070_pure_functions/pure_core_classes.py  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index c3d4301..261eb2f 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -227,12 +227,24 @@ class PureFn(AutonomousFn):
 
         augmented_code = ""
 
-        all_guards = set()
-        for fn_name in self.dependencies:
-            all_guards |= set(getattr(island[fn_name], "guards", None) or [])
+        needed = set(self.dependencies)
+        while True: # guards may need other functions and have guards, too
+            all_guards = set()
+            for fn_name in needed:
+                all_guards |= set(getattr(island[fn_name], "guards", None) or [])
+            if all_guards <= needed:
+                break
+            needed |= self._get_deep_dependencies(all_guards)
+
         # guards must be registered before the functions they guard
-        full_dependencies = sorted(all_guards) + sorted(
-            set(self.dependencies) - all_guards)
+        full_dependencies = []
+        while all_guards:
+            unguarded = {fn_name for fn_name in all_guards if not all_guards
+                & set(getattr(island[fn_name], "guards", None) or [])}
+            assert len(unguarded) > 0
+            full_dependencies += sorted(unguarded)
+            all_guards -= unguarded
+        full_dependencies += sorted(needed - set(full_dependencies))
 
         for fn_name in full_dependencies:
             f = island[fn_name]
-- 
2.43.0


From f8f7a94e399ac4c599e52cf5483618c75050c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 34/41] fix: refuse foreign decorators and positional arguments
 when replaying functions

process_augmented_func_src() looked at the last part of a decorator's name only,
so it accepted e.g. @os.pure(), and silently dropped positional arguments, so
that a function was registered in another island than the one asked for.
---
 .../_070_pure_functions/process_augmented_func_src.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/process_augmented_func_src.py b/pythagoras/_070_pure_functions/process_augmented_func_src.py
index 16e0b3a..cf50b94 100644
--- a/pythagoras/_070_pure_functions/process_augmented_func_src.py
+++ b/pythagoras/_070_pure_functions/process_augmented_func_src.py
@@ -45,7 +45,12 @@ def process_augmented_func_src(
             + " exactly one decorator.")
 
         decorator = node.decorator_list[0]
-        assert decorator.func.attr in pth.primary_decorators, (
+        assert (isinstance(decorator, ast.Call)
+            and isinstance(decorator.func, ast.Attribute)
+            and isinstance(decorator.func.value, ast.Name)
+            and decorator.func.value.id in {"pth", "pythagoras"}
+            and len(decorator.args) == 0
+            and decorator.func.attr in pth.primary_decorators), (
             "The only allowed decorators are: "
             + ", ".join(["@pth." + d +"()" for d in pth.primary_decorators]))
 
-- 
2.43.0


From 2a38bd4ecb38077468ec25bd1fc0681c08ef0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:14 +0000
Subject: [PATCH 35/41] fix: normalization keeps the text inside f-strings

---
 .../code_normalizer_implementation.py                        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 294a405..754b5bd 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -131,8 +131,9 @@ def __get_normalized_function_source__(
         # TODO: compare with the source for ast.candidate_docstring()
 
     result = ast.unparse(code_ast)
-    # E731 would rewrite lambda assignments into nested functions
+    # E731 would rewrite lambda assignments into nested functions;
+    # E201 and E231 would change the text inside f-strings
     result = autopep8.fix_code(result, options=dict(
-        ignore=["E226", "E24", "W50", "W690", "E731"]))
+        ignore=["E201", "E226", "E231", "E24", "W50", "W690", "E731"]))
 
     return result
\ No newline at end of file
-- 
2.43.0


From b1ab8c3b1d817c6743f90d5f8f054898c9f3ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 36/41] fix: functions with type parameters can be called

---
 pythagoras/_040_ordinary_functions/function_name.py         | 2 +-
 pythagoras/_040_ordinary_functions/ordinary_core_classes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/function_name.py b/pythagoras/_040_ordinary_functions/function_name.py
index 2e4750e..809a2c8 100644
--- a/pythagoras/_040_ordinary_functions/function_name.py
+++ b/pythagoras/_040_ordinary_functions/function_name.py
@@ -8,5 +8,5 @@ def get_function_name_from_source(a_func: str) -> str:
         if stripped_line.startswith('def '):
             func_name_end = stripped_line.find('(')
             func_name = stripped_line[3:func_name_end]
-            return func_name.strip()
+            return func_name.split('[')[0].strip()
     raise ValueError(f"Can't find function name in {a_func=}")
diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 26f12f6..9dec3ea 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -117,7 +117,7 @@ class OrdinaryFn(PortalAwareClass):
         self._result_var_name = "result"+self.fn_name+fn_hash_id
         self._tmp_fn_name = "tmp_func_"+self.fn_name+fn_hash_id
         source_to_exec = source_to_exec.replace(
-            " " + self.fn_name + "(", " " + self._tmp_fn_name + "(", 1)
+            "def " + self.fn_name, "def " + self._tmp_fn_name, 1)
         source_to_exec += f"\n\n{self._result_var_name} = "
         source_to_exec += f"{self._tmp_fn_name}(**{self._kwargs_var_name})"
         self._fn_bytecode = self._compile(
-- 
2.43.0


From 1e6cbe53539d7d90e02c49ce2463d329e816bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:35 +0000
Subject: [PATCH 37/41] fix: a refused restoration leaves the known function
 working

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 261eb2f..9ce2eeb 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -319,10 +319,16 @@ class PureFn(AutonomousFn):
             island = self.portal.known_functions[island_name]
             fn_name = self.fn_name
             if not island[fn_name]._fn_fully_registered:
+                known_source = island[fn_name]._augmented_source_code
                 island[fn_name]._augmented_source_code = (
                     state["augmented_fn_source_code"])
-                process_augmented_func_src(
-                    state["augmented_fn_source_code"], portal=portal)
+                try:
+                    process_augmented_func_src(
+                        state["augmented_fn_source_code"], portal=portal)
+                    self._complete_fn_registration()
+                except:
+                    island[fn_name]._augmented_source_code = known_source
+                    raise
             else:
                 assert state["augmented_fn_source_code"] == (
                     island[fn_name]._augmented_source_code)
-- 
2.43.0


From 321f0f445d49fe31fb8736088f7d37f4b852569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:35 +0000
Subject: [PATCH 38/41] fix: functions may have a parameter named self

---
 .../_040_ordinary_functions/ordinary_core_classes.py   |  4 ++--
 .../autonomous_core_classes.py                         |  2 +-
 pythagoras/_070_pure_functions/kw_args.py              |  2 +-
 pythagoras/_070_pure_functions/pure_core_classes.py    | 10 +++++-----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 9dec3ea..415a1ce 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -125,7 +125,7 @@ class OrdinaryFn(PortalAwareClass):
         if type(self) == OrdinaryFn:
             self._fn_fully_registered = True
 
-    def __call__(self,* args, **kwargs) -> Any:
+    def __call__(self, /, *args, **kwargs) -> Any:
         assert len(args) == 0, (f"Function {self.fn_name} can't"
             + " be called with positional arguments,"
             + " only keyword arguments are allowed.")
@@ -172,7 +172,7 @@ class OrdinaryFn(PortalAwareClass):
             , exception_prefixes=exception_prefixes
             , exception_extra_data_to_persist=exception_extra_data_to_persist)
 
-    def execute(self,**kwargs):
+    def execute(self, /, **kwargs):
         try:
             self._complete_fn_registration()
             names_dict = self._available_names()
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index d52945f..0af6748 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -327,7 +327,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         result |= super()._extra_exception_data()
         return result
 
-    def execute(self, **kwargs) -> Any:
+    def execute(self, /, **kwargs) -> Any:
         with self.portal as portal:
             self._complete_fn_registration()
             return SafeFn.execute(self, **kwargs)
diff --git a/pythagoras/_070_pure_functions/kw_args.py b/pythagoras/_070_pure_functions/kw_args.py
index 4c8a255..18b43f4 100644
--- a/pythagoras/_070_pure_functions/kw_args.py
+++ b/pythagoras/_070_pure_functions/kw_args.py
@@ -12,7 +12,7 @@ class SortedKwArgs(dict):
     for the same lists of arguments.
     """
 
-    def __init__(self, **kargs):
+    def __init__(self, /, **kargs):
         """Sort the keys in the dictionary."""
         super().__init__()
         for k in sorted(kargs):
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 9ce2eeb..8c66705 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -186,7 +186,7 @@ class PureFn(AutonomousFn):
         return result_names
 
 
-    def can_be_executed(self,**kwargs) -> bool:
+    def can_be_executed(self, /, **kwargs) -> bool:
         """Indicates if the function can be executed in the current environment.
         """
         with self.portal:
@@ -391,14 +391,14 @@ class PureFn(AutonomousFn):
         if not hasattr(island[name], "_augmented_source_code"):
             island[name]._augmented_source_code = None
 
-    def get_address(self, **kwargs) -> PureFnExecutionResultAddr:
+    def get_address(self, /, **kwargs) -> PureFnExecutionResultAddr:
         with self.portal:
             packed_kwargs = SortedKwArgs(**kwargs).pack(self.portal)
             result_address = PureFnExecutionResultAddr(self, packed_kwargs)
             return result_address
 
 
-    def swarm(self, **kwargs) -> PureFnExecutionResultAddr:
+    def swarm(self, /, **kwargs) -> PureFnExecutionResultAddr:
         """ Request execution of the function with the given arguments.
 
         The function is executed in the background. The result can be
@@ -409,7 +409,7 @@ class PureFn(AutonomousFn):
             result_address.request_execution()
             return result_address
 
-    def run(self, **kwargs) -> PureFnExecutionResultAddr:
+    def run(self, /, **kwargs) -> PureFnExecutionResultAddr:
         """ Execute the function with the given arguments.
 
         The function is executed immediately. The result can be
@@ -421,7 +421,7 @@ class PureFn(AutonomousFn):
             return result_address
 
 
-    def execute(self, **kwargs) -> Any:
+    def execute(self, /, **kwargs) -> Any:
         """ Execute the function with the given arguments.
 
         The function is executed immediately and the result is returned.
-- 
2.43.0


From 1f0daa7d8d5f83952c663484ca5cc8d407d9fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:49 +0000
Subject: [PATCH 39/41] fix: make addresses for classes and functions with
 non-ASCII names

The names went into the prefixes of addresses as they are, and persidict
refused the key: no value of such a class could be stored and no such
pure function could be called.
---
 pythagoras/_030_data_portals/hash_addresses.py      | 1 +
 pythagoras/_070_pure_functions/pure_core_classes.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_030_data_portals/hash_addresses.py b/pythagoras/_030_data_portals/hash_addresses.py
index 40ed84c..229791e 100644
--- a/pythagoras/_030_data_portals/hash_addresses.py
+++ b/pythagoras/_030_data_portals/hash_addresses.py
@@ -44,6 +44,7 @@ class HashAddr(SafeStrTuple, PortalAwareClass, ABC):
         """Create a short human-readable summary of an object."""
 
         prfx = x.__class__.__name__.lower()
+        prfx = replace_unsafe_chars(prfx, replace_with="_")
 
         return prfx
 
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 8c66705..fe6835b 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -9,7 +9,7 @@ from typing import Callable, Any, List, TypeAlias
 import pandas as pd
 from sklearn.model_selection import ParameterGrid
 
-from persidict import PersiDict, FileDirDict
+from persidict import PersiDict, FileDirDict, replace_unsafe_chars
 
 from pythagoras import OverlappingMultiDict, LoggingPortal
 from pythagoras import PortalAwareClass, BasicPortal
@@ -575,6 +575,7 @@ class PureFnExecutionResultAddr(HashAddr):
         new_prefix = a_fn.fn_name
         if a_fn.island_name is not None:
             new_prefix += "_" + a_fn.island_name
+        new_prefix = replace_unsafe_chars(new_prefix, replace_with="_")
         new_hash_signature = tmp.hash_signature
         super().__init__(new_prefix, new_hash_signature, portal=a_fn.portal)
         self._function = a_fn
-- 
2.43.0


From 96187cb8fd0a15e9f2d8ceadd83865b610f68423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:49 +0000
Subject: [PATCH 40/41] fix: record exceptions of classes and functions with
 non-ASCII names

The names went into the keys of crash records as they are; the refusal
of the key replaced the exception that was to be recorded.
---
 pythagoras/_020_logging_portals/logging_portals.py        | 8 +++++---
 .../_040_ordinary_functions/ordinary_core_classes.py      | 4 ++--
 .../_060_autonomous_functions/autonomous_core_classes.py  | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index a75164b..6c924ce 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -6,7 +6,7 @@ import random
 from typing import Optional
 
 import pandas as pd
-from persidict import PersiDict, FileDirDict
+from persidict import PersiDict, FileDirDict, replace_unsafe_chars
 
 from pythagoras._010_basic_portals.foundation import BasicPortal, _persistent
 from pythagoras._820_strings_signatures_converters.current_date_gmt_str import (
@@ -250,7 +250,8 @@ class LoggingPortal(BasicPortal):
             exception_id += "_"+get_random_signature()
 
         for prefix in exception_prefixes:
-            full_path = prefix + [exception_id]
+            full_path = [replace_unsafe_chars(name, replace_with="_")
+                for name in prefix] + [exception_id]
             for portal in LoggingPortal.get_entered_portals():
                 portal.crash_history[full_path] = exception_data_to_persist
 
@@ -301,7 +302,8 @@ class LoggingPortal(BasicPortal):
 
     @staticmethod
     def _exception_id(exc_value) -> str:
-        return NeedsRandomization(exc_value.__class__.__name__)
+        return NeedsRandomization(replace_unsafe_chars(
+            exc_value.__class__.__name__, replace_with="_"))
 
     @staticmethod
     def _extra_exception_data() -> dict:
diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 415a1ce..da89daa 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import sys
 from typing import Callable, Any
 
-from persidict import FileDirDict, PersiDict
+from persidict import FileDirDict, PersiDict, replace_unsafe_chars
 
 from pythagoras import DataPortal, BasicPortal, PortalAwareClass
 from pythagoras._820_strings_signatures_converters.hash_signatures import get_hash_signature
@@ -147,7 +147,7 @@ class OrdinaryFn(PortalAwareClass):
     def _exception_id(self, exc_value) -> str:
         return NeedsRandomization(
             LoggingPortal._exception_id(exc_value)
-            + f"_{self.fn_name}")
+            + replace_unsafe_chars(f"_{self.fn_name}", replace_with="_"))
 
     def _extra_exception_data(self) -> dict:
         result = dict(
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 0af6748..556b521 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -5,7 +5,7 @@ import builtins
 from typing import Callable, Any
 
 import pandas as pd
-from persidict import FileDirDict, PersiDict
+from persidict import FileDirDict, PersiDict, replace_unsafe_chars
 
 from pythagoras import LoggingPortal
 from pythagoras._010_basic_portals import BasicPortal, PortalAwareClass
@@ -315,7 +315,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
     def _exception_id(self, exc_value) -> str:
         return NeedsRandomization(
             super()._exception_id(exc_value)
-            + f"_{self.island_name}")
+            + replace_unsafe_chars(f"_{self.island_name}", replace_with="_"))
 
 
     def _extra_exception_data(self) -> dict:
-- 
2.43.0


From a22015866e257fd30a061d7799ab547fe15bf371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:30 +0000
Subject: [PATCH 41/41] fix: quote island names in generated decorators

A name with a quote, a backslash or a line break made the augmented source
of a function unparsable, so it could not be restored in another session.
---
 pythagoras/_060_autonomous_functions/autonomous_core_classes.py | 2 +-
 pythagoras/_070_pure_functions/pure_core_classes.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 556b521..5296fdc 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -202,7 +202,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
     @property
     def decorator(self) -> str:
         decorator_str ="@pth."+self.fn_type
-        decorator_str += f"(island_name='{self.island_name}')"
+        decorator_str += f"(island_name={self.island_name!r})"
         return decorator_str
 
     @property
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index fe6835b..c80c2c1 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -210,7 +210,7 @@ class PureFn(AutonomousFn):
     @property
     def decorator(self) -> str:
         decorator_str = "@pth.pure("
-        decorator_str += f"\n\tisland_name='{self.island_name}'"
+        decorator_str += f"\n\tisland_name={self.island_name!r}"
         if self.guards is not None:
             guards_str = f"\n\t, guards={self.guards}"
             decorator_str += guards_str
-- 
2.43.0

