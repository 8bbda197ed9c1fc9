From 5c32e2a946f69b42203b26bc514bfc1e132b20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 01/88] fix: import ByteOp27 from the module that exists

Any CPython 2.7 bytecode failed with ModuleNotFoundError because the
dispatcher imported a package that is not part of the distribution.
---
 xpython/byteop/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 54e9090..48a8317 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -24,7 +24,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27PyPy(vm)
                 else:
-                    from xpython.byteop.opcode_2x.byteop27 import ByteOp27
+                    from xpython.byteop.byteop27 import ByteOp27
 
                     byteop = ByteOp27(vm)
             else:
-- 
2.43.0


From 6e6a2fbaedb9117967570dbe0276e634ffacae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 02/88] fix: keep opcode removals local to the version that
 drops the opcode

ByteOpXX modules ran 'del ByteOpYY.OP' on their parent classes at import
time. Every version's opcode module may be imported in one process, so
creating a VM for one bytecode version removed opcodes that other
versions still use. Mask the opcode in the subclass instead.
---
 xpython/byteop/byteop27.py     |  9 +++++----
 xpython/byteop/byteop31.py     | 13 +++++--------
 xpython/byteop/byteop32.py     | 27 +++++++++++----------------
 xpython/byteop/byteop34.py     |  7 ++++---
 xpython/byteop/byteop35.py     |  9 +++++----
 xpython/byteop/byteop36.py     |  9 +++++----
 xpython/byteop/byteop36pypy.py |  2 ++
 xpython/byteop/byteop37.py     | 11 +++++------
 xpython/byteop/byteop38.py     | 13 +++++++------
 xpython/byteop/byteop39.py     | 25 +++++++++++++------------
 10 files changed, 62 insertions(+), 63 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c22b3c9..c7aba2a 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -8,10 +8,6 @@ from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
-# Gone since 2.6
-del ByteOp24.JUMP_IF_FALSE
-del ByteOp24.JUMP_IF_TRUE
-
 
 def fmt_set_add(vm, arg, repr_fn=repr):
     return f" set.add({repr_fn(vm.peek(arg))}, {repr_fn(vm.top)})"
@@ -26,6 +22,11 @@ def fmt_map_add(vm, arg, repr_fn=repr):
 
 
 class ByteOp27(ByteOp26):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    JUMP_IF_FALSE = None
+    JUMP_IF_TRUE = None
+
     def __init__(self, vm):
         super(ByteOp27, self).__init__(vm)
         self.stack_fmt["SET_ADD"] = fmt_set_add
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 15486ed..6f830a6 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -4,16 +4,13 @@
 from xpython.byteop.byteop32 import ByteOp32, Version_info
 # from xpython.byteop.byteop26 import ByteOp26
 
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.0 that may want to inherit from this module.
-
-# Added 3.2 but not in 3.1
-del ByteOp32.DUP_TOP_TWO
-del ByteOp32.DELETE_DEREF
-# del ByteOp32.SETUP_WITH
-
 
 class ByteOp31(ByteOp32):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    DUP_TOP_TWO = None
+    DELETE_DEREF = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7f1dba7..a4100db 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -8,22 +8,6 @@ from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
 
-# Gone since 3.0
-del ByteOp24.PRINT_EXPR
-del ByteOp24.PRINT_ITEM
-del ByteOp24.PRINT_ITEM_TO
-del ByteOp24.PRINT_NEWLINE
-del ByteOp24.PRINT_NEWLINE_TO
-del ByteOp24.BUILD_CLASS
-del ByteOp24.EXEC_STMT
-del ByteOp24.RAISE_VARARGS
-
-# FIXME: "del" removes in a way that messes up modules earlier modules
-# e.g. 3.1 that may want to inherit from this module.
-
-# Gone since 3.2
-del ByteOp24.DUP_TOPX
-
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
     """
@@ -37,6 +21,17 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 
 
 class ByteOp32(ByteOp27):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    PRINT_EXPR = None
+    PRINT_ITEM = None
+    PRINT_ITEM_TO = None
+    PRINT_NEWLINE = None
+    PRINT_NEWLINE_TO = None
+    BUILD_CLASS = None
+    EXEC_STMT = None
+    DUP_TOPX = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.stack_fmt["MAKE_FUNCTION"] = fmt_make_function
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index a6db178..c96c190 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -12,11 +12,12 @@ from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
-# Gone since 3.3
-del ByteOp32.STORE_LOCALS
-
 
 class ByteOp34(ByteOp33):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    STORE_LOCALS = None
+
     def __init__(self, vm):
         super(ByteOp34, self).__init__(vm)
         self.version = "3.4.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e6af99f..b572808 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -5,10 +5,6 @@ from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
-# Gone in 3.5
-del ByteOp24.STORE_MAP
-del ByteOp32.WITH_CLEANUP
-
 
 def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
     """returns string of the repr() for the first element of
@@ -24,6 +20,11 @@ def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
 
 
 class ByteOp35(ByteOp34):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    STORE_MAP = None
+    WITH_CLEANUP = None
+
     def __init__(self, vm):
         super(ByteOp35, self).__init__(vm)
         self.stack_fmt["BUILD_MAP_UNPACK_WITH_CALL"] = fmt_build_map_unpack_with_call
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4106515..635a2f2 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -13,10 +13,6 @@ from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
-# Gone in 3.6
-del ByteOp24.MAKE_CLOSURE
-del ByteOp24.CALL_FUNCTION_VAR
-
 # Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
 # However, it is gone in 3.7. So we will keep this around for one more version than
 # would be needed if we were doing strictly CPython 3.6
@@ -68,6 +64,11 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
 
 # pylint: disable=too-many-public-methods
 class ByteOp36(ByteOp35):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    MAKE_CLOSURE = None
+    CALL_FUNCTION_VAR = None
+
     def __init__(self, vm):
         super(ByteOp36, self).__init__(vm)
         self.stack_fmt["CALL_FUNCTION"] = fmt_call_function
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index c54a3c2..6b431f1 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -20,3 +20,5 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
     # from older Python versions
     CALL_FUNCTION_KW = ByteOp24.CALL_FUNCTION_KW
     BUILD_MAP_UNPACK_WITH_CALL = ByteOp35.BUILD_MAP_UNPACK_WITH_CALL
+    CALL_FUNCTION_VAR = ByteOp35.CALL_FUNCTION_VAR
+    MAKE_CLOSURE = ByteOp35.MAKE_CLOSURE
diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 72888a0..cf6d22e 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -3,12 +3,6 @@
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop36 import ByteOp36
 
-# Gone in 3.7
-del ByteOp36.STORE_ANNOTATION
-
-# Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
-del ByteOp24.CALL_FUNCTION_VAR_KW
-
 # del ByteOp36.WITH_CLEANUP_START
 # del ByteOp36.WITH_CLEANUP_FINISH
 # del ByteOp36.END_FINALLY
@@ -39,6 +33,11 @@ class ByteOp37(ByteOp36):
     """
     Python 3.7 opcodes
     """
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    STORE_ANNOTATION = None
+    CALL_FUNCTION_VAR_KW = None
+
     def __init__(self, vm):
         super().__init__(vm)
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ffe32ed..54834b0 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -9,14 +9,15 @@
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
-# Gone in 3.8
-del ByteOp24.BREAK_LOOP
-del ByteOp24.CONTINUE_LOOP
-del ByteOp24.SETUP_LOOP
-del ByteOp24.SETUP_EXCEPT
-
 
 class ByteOp38(ByteOp37):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    BREAK_LOOP = None
+    CONTINUE_LOOP = None
+    SETUP_LOOP = None
+    SETUP_EXCEPT = None
+
     def __init__(self, vm):
         super(ByteOp38, self).__init__(vm)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index aa92bde..d13012c 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -12,20 +12,21 @@ from xpython.byteop.byteop35 import ByteOp35
 from xpython.byteop.byteop36 import ByteOp36
 from xpython.byteop.byteop38 import ByteOp38
 
-# Gone in 3.8
-del ByteOp24.END_FINALLY
-del ByteOp35.BUILD_LIST_UNPACK
-del ByteOp35.BUILD_MAP_UNPACK
-del ByteOp35.BUILD_SET_UNPACK
-del ByteOp35.BUILD_TUPLE_UNPACK
-del ByteOp35.WITH_CLEANUP_FINISH
-del ByteOp35.WITH_CLEANUP_START
-del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
-del ByteOp38.CALL_FINALLY
-del ByteOp38.POP_FINALLY
-
 
 class ByteOp39(ByteOp38):
+    # Opcodes this version no longer has. These are masked here rather than
+    # deleted from the parent classes, since other versions still use those.
+    END_FINALLY = None
+    BUILD_LIST_UNPACK = None
+    BUILD_MAP_UNPACK = None
+    BUILD_SET_UNPACK = None
+    BUILD_TUPLE_UNPACK = None
+    WITH_CLEANUP_FINISH = None
+    WITH_CLEANUP_START = None
+    BUILD_MAP_UNPACK_WITH_CALL = None
+    CALL_FINALLY = None
+    POP_FINALLY = None
+
     def __init__(self, vm) -> None:
         super(ByteOp38, self).__init__(vm)
         self.hexversion = 0x30907F0
-- 
2.43.0


From 9a2c7b9b89fa9ad973701bc5ffbd1343357c30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 03/88] fix: report an uncaught exception instead of failing to
 format it

run_code() unpacked the exception instance into print(), which raises
TypeError for an exception that is not iterable, so the program's own
error was lost.
---
 xpython/vm.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 2f699ec..1885722 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -425,6 +425,17 @@ class PyVM(object):
     # End Frame operations.
     ##############################################
 
+    def print_last_exception(self):
+        """Print the type and value of self.last_exception as the last line of a
+        Python traceback does."""
+        exc_type, exc_value = self.last_exception[:2]
+        try:
+            exc_text = "" if exc_value is None else str(exc_value)
+        except Exception:
+            exc_text = "<exception str() failed>"
+        exc_name = getattr(exc_type, "__name__", str(exc_type))
+        print(f"{exc_name}: {exc_text}" if exc_text else exc_name)
+
     # This is the main entry point
     def run_code(self, code, f_globals=None, f_locals=None, toplevel=True) -> Any:
         """run code using f_globals and f_locals in our VM.
@@ -443,20 +454,13 @@ class PyVM(object):
                 print("Traceback (most recent call last):")
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
-                print(
-                    f"{self.last_exception[0].__name__}:", *self.last_exception[1]
-                )
+                self.print_last_exception()
             return 1
 
         except Exception:
             if self.last_traceback:
                 self.last_traceback.print_tb()
-                print(f"{self.last_exception[0].__name__}", end="")
-                le1 = self.last_exception[1]
-                tail = ""
-                if le1:
-                    tail = "\n".join(le1.args)
-                print(tail)
+                self.print_last_exception()
             raise
 
         # Frame ran to normal completion... check some invariants
-- 
2.43.0


From 06f996e9a7280ed46fbe2bd089cee2fd1c244801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 04/88] fix: double absolute jump operands in 3.10 whatever the
 version tuple's length

The VM's version is (3, 10) for 3.10 bytecode files, which compares less than
(3, 10, 0), so absolute jumps went to half the offset.
---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 1885722..6080ed7 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -601,7 +601,7 @@ class PyVM(object):
                     # We probably could set fallthough, since many (all?)
                     # of these are unconditional, but we'll make the jump do
                     # the work of setting.
-                    if self.version >= (3, 10, 0):
+                    if self.version >= (3, 10):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-- 
2.43.0


From 53d679e51eb546a2e17cbe72023a7982d897801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 05/88] fix: make PyPy 3.7+ CALL_METHOD agree with
 LOOKUP_METHOD's stack layout

LOOKUP_METHOD pushes the method and then the cached slot; CALL_METHOD was
CPython's, which expects them the other way around and so rejected every call.
---
 xpython/byteop/byteop37pypy.py | 11 +++++++++++
 xpython/byteop/byteop38pypy.py |  1 +
 xpython/byteop/byteop39pypy.py |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1de6785..073e091 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -48,6 +48,17 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         self.is_pypy = True
         self.version = "3.7.12 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
+    def CALL_METHOD(self, argc: int):
+        """
+        Calls the method LOOKUP_METHOD found. Below the positional arguments
+        is the cached method slot, which in our case is garbage, and below
+        that is the method to call.
+        """
+        pos_args = self.vm.popn(argc)
+        self.vm.pop()  # cached method slot is not used here.
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_METHOD_KW(self, argc: int):
         """
         argc has a count of the number of keyword parameters.
diff --git a/xpython/byteop/byteop38pypy.py b/xpython/byteop/byteop38pypy.py
index 8af168d..5ec9f0a 100644
--- a/xpython/byteop/byteop38pypy.py
+++ b/xpython/byteop/byteop38pypy.py
@@ -22,4 +22,5 @@ class ByteOp38PyPy(ByteOp38, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index d3ab917..1b45b22 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,4 +22,6 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    LOAD_METHOD = ByteOpPyPy.LOOKUP_METHOD
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From 6a2818e5b30b0b3d5598996ec1e51bae6568592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 06/88] fix: raise an exception that leaves a frame in the
 calling frame

When a frame ended with an exception and there was a calling frame,
eval_frame() fell through and returned the stale return value (or ran a bare
'raise' with nothing to re-raise), so callers never saw the exception.
---
 xpython/vm.py      | 43 +++++++++++++++++++++++++------------------
 xpython/vmtrace.py | 23 ++---------------------
 2 files changed, 27 insertions(+), 39 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 6080ed7..a7938eb 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,7 +6,6 @@ import linecache
 import logging
 import os
 import sys
-from types import TracebackType
 from typing import Any, List
 
 from xdis import (
@@ -24,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Block, Frame, traceback_from_frame
 
 log = logging.getLogger(__name__)
 
@@ -807,6 +806,29 @@ class PyVM(object):
 
         return why
 
+    def propagate_exception(self):
+        """Leave eval_frame() with the exception recorded in self.last_exception.
+        It is raised in the calling frame, or, if there is no calling
+        frame, reported as uncaught."""
+        last_exception = self.last_exception
+        if not (last_exception and last_exception[0]):
+            raise PyVMError("Borked exception recording")
+
+        exc_type, exc_value = last_exception[0], last_exception[1]
+        if not isinstance(exc_value, BaseException):
+            # Not normalized yet, e.g. Python 2's "raise ValueError, 5".
+            if exc_value is None:
+                exc_value = exc_type()
+            elif isinstance(exc_value, tuple):
+                exc_value = exc_type(*exc_value)
+            else:
+                exc_value = exc_type(exc_value)
+            self.last_exception = (exc_type, exc_value, last_exception[2])
+
+        if not self.frame:
+            raise PyVMUncaughtException.from_tuple(self.last_exception)
+        raise exc_value
+
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
     # or eval_frame() in older 2.x code.
@@ -895,22 +917,7 @@ class PyVM(object):
         self.pop_frame()
 
         if why == "exception":
-            last_exception = self.last_exception
-            if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            raise PyVMUncaughtException.from_tuple(last_exception)
-                        else:
-                            raise
-                else:
-                    raise
-            else:
-                raise PyVMError("Borked exception recording")
-            # if self.exception and .... ?
-            # log.error("Haven't finished traceback handling, nulling traceback "
-            #            "information for now")
-            # six.reraise(self.last_exception[0], None)
+            self.propagate_exception()
 
         self.in_exception_processing = False
         return self.return_value
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a2b3262..6be67f3 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,14 +3,13 @@ This can be used in a debugger or profiler.
 """
 
 import logging
-from types import TracebackType
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
 
-from xpython.pyobj import Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
 
 log = logging.getLogger(__name__)
@@ -350,25 +349,7 @@ class PyVMTraced(PyVM):
         self.pop_frame()
 
         if why == "exception":
-            last_exception = self.last_exception
-            if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            self.last_exception = PyVMUncaughtException.from_tuple(
-                                last_exception
-                            )
-                        raise self.last_exception
-                    else:
-                        raise last_exception[0]
-                    pass
-                pass
-            else:
-                raise PyVMError("Borked exception recording")
-            # if self.exception and .... ?
-            # log.error("Haven't finished traceback handling, nulling traceback "
-            #            "information for now")
-            # six.reraise(self.last_exception[0], None)
+            self.propagate_exception()
 
         self.in_exception_processing = False
 
-- 
2.43.0


From 089387a5b8c73ff2fa4952b7de59aa881d0eceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 07/88] fix: implement ROT_N

---
 xpython/byteop/byteop310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop310.py b/xpython/byteop/byteop310.py
index 26c9208..c44ec59 100644
--- a/xpython/byteop/byteop310.py
+++ b/xpython/byteop/byteop310.py
@@ -168,8 +168,8 @@ class ByteOp310(ByteOp39):
         """Lift the top count stack items one position up, and move
         TOS down to position count.
         """
-        # FIXME
-        raise self.vm.PyVMError("ROT_N not implemented")
+        items = self.vm.popn(count)
+        self.vm.push(items[-1], *items[:-1])
 
     def MATCH_CLASS(self):
         """TOS is a tuple of keyword attribute names, TOS1 is the class being
-- 
2.43.0


From 25e109f7bb0b0b08e3a2290804631eedbc811418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 08/88] fix: give Python 2's / its classic-division meaning

BINARY_DIVIDE did true division on ints and INPLACE_DIVIDE floor division on
floats.
---
 xpython/byteop/byteop.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 70b27ba..ba4774f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -20,6 +20,22 @@ from xpython.vm import PyVM
 
 log = logging.getLogger(__name__)
 
+
+def classic_div(x, y):
+    """Python 2's "/" operator when there is no "from __future__ import division" """
+    if hasattr(x, "__div__"):
+        result = x.__div__(y)
+        if result is not NotImplemented:
+            return result
+    if hasattr(y, "__rdiv__"):
+        result = y.__rdiv__(x)
+        if result is not NotImplemented:
+            return result
+    if isinstance(x, int) and isinstance(y, int):
+        return x // y
+    return x / y
+
+
 UNARY_OPERATORS = {
     "POSITIVE": operator.pos,
     "NEGATIVE": operator.neg,
@@ -31,7 +47,7 @@ UNARY_OPERATORS = {
 BINARY_OPERATORS = {
     "POWER": pow,
     "MULTIPLY": operator.mul,
-    "DIVIDE": getattr(operator, "div", lambda x, y: x / y),
+    "DIVIDE": classic_div,
     "FLOOR_DIVIDE": operator.floordiv,
     "TRUE_DIVIDE": operator.truediv,
     "MODULO": operator.mod,
@@ -55,7 +71,7 @@ INPLACE_OPERATORS = frozenset(
         "MODULO",
         "MULTIPLY",
         "OR",
-        "POWER" "RSHIFT",
+        "RSHIFT",
         "SUBTRACT",
         "TRUE_DIVIDE",
         "XOR",
@@ -442,7 +458,7 @@ class ByteOpBase(object):
             if hasattr(x, "__idiv__"):
                 x = x.__idiv__(y)
             else:
-                x //= y
+                x = classic_div(x, y)
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
-- 
2.43.0


From 0116b88dbff152500f7024512a5dd68c08e59ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 09/88] fix: keep the result of the in-place @ operator

---
 xpython/byteop/byteop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index ba4774f..598e951 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -481,7 +481,7 @@ class ByteOpBase(object):
             x |= y
         # 3.5 on
         elif op == "MATRIX_MULTIPLY":
-            operator.imatmul(x, y)
+            x = operator.imatmul(x, y)
         else:  # pragma: no cover
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
-- 
2.43.0


From ab7e293bc0af3c712b4632dbbbe9ae9ba6372449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 10/88] fix: test truth in 3.11's POP_JUMP_*_IF_* instead of
 comparing with True/False

---
 xpython/byteop/byteop311.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ca98958..e3edc25 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -559,7 +559,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_TRUE(self, offset: int):
@@ -567,7 +567,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_FALSE(self, offset: int):
@@ -575,7 +575,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_FALSE(self, offset: int):
@@ -583,7 +583,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_NOT_NONE(self, offset: int):
-- 
2.43.0


From 099600a6e67dfa8e48d0c58098d8f67c2f9ee431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 11/88] fix: spell 3.11's JUMP_BACKWARD_NO_INTERRUPT as the
 opcode is spelled

---
 xpython/byteop/byteop311.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index e3edc25..dc4406c 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -548,7 +548,7 @@ class ByteOp311(ByteOp310):
         """
         self.vm.jump(offset)
 
-    def POP_JUMP_BACKWARD_NO_INTERRUPT(self, offset: int):
+    def JUMP_BACKWARD_NO_INTERRUPT(self, offset: int):
         """
         Decrements bytecode counter by delta. Does not check for interrupts.
         """
-- 
2.43.0


From 5fa6449006681acd13ce584c91da849d3ac47079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 12/88] fix: implement 3.12's POP_JUMP_IF_NONE and
 POP_JUMP_IF_NOT_NONE

---
 xpython/byteop/byteop312.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 64b7eb3..9d52a10 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -119,19 +119,19 @@ class ByteOp312(ByteOp311):
     #     # FIXME
     #     raise self.vm.PyVMError("POP_JUMP_IF_FALSE not implemented")
 
-    def POP_JUMP_IF_NOT_NONE(self):
+    def POP_JUMP_IF_NOT_NONE(self, target: int):
         """
-        To be continued...
+        If TOS is not None, increments the bytecode counter by delta. TOS is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NOT_NONE not implemented")
+        if self.vm.pop() is not None:
+            self.vm.jump(target)
 
-    def POP_JUMP_IF_NONE(self):
+    def POP_JUMP_IF_NONE(self, target: int):
         """
-        To be continued...
+        If TOS is None, increments the bytecode counter by delta. TOS is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NONE not implemented")
+        if self.vm.pop() is None:
+            self.vm.jump(target)
 
     def LOAD_SUPER_ATTR(self):
         """
-- 
2.43.0


From 137e8abb933d6cad72ac735297a84e2527654ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 13/88] fix: 3.12's STORE_SLICE leaves nothing on the stack

---
 xpython/byteop/byteop312.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 9d52a10..14aeb31 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -71,11 +71,10 @@ class ByteOp312(ByteOp311):
           start = STACK.pop()
           container = STACK.pop()
           values = STACK.pop()
-          STACK.push(container)
+          container[start:end] = values
         """
         values, container, start, end = self.vm.popn(4)
-        container[start:end]= values
-        self.vm.push(container)
+        container[start:end] = values
 
     def CLEANUP_THROW(self):
         """
-- 
2.43.0


From a64df28dc86bab8fba76265cb6c6024c1e1df087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 14/88] fix: finish 3.8's END_FINALLY, POP_FINALLY,
 CALL_FINALLY and WITH_CLEANUP_FINISH

---
 xpython/byteop/byteop38.py | 58 ++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 54834b0..7468e4b 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -75,23 +75,16 @@ class ByteOp38(ByteOp37):
           the block stack.
         """
         v = self.vm.pop()
-        if v is None:
-            why = None
-        elif isinstance(v, int):
+        why = None
+        if isinstance(v, int):
             self.vm.jump(v)
-            why = "return"
-        elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
+        elif v is not None:
+            # The exception handler block, which is still on the block stack, goes
+            # when this exception is unwound, and so do the three saved values.
             val = self.vm.pop()
             tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            raise self.vm.PyVMError("END_FINALLY not finished yet")
-            # FIXME: pop 3 more values
+            self.vm.last_exception = (v, val, tb)
             why = "reraise"
-        else:  # pragma: no cover
-            raise self.vm.PyVMError("Confused END_FINALLY")
         return why
 
     def CALL_FINALLY(self, delta):
@@ -99,8 +92,8 @@ class ByteOp38(ByteOp37):
         increments bytecode counter by delta. Used for calling the
         "finally" block as a "subroutine".
         """
-        # Is it f_lasti or the one after that
-        self.vm.push(self.vm.frame.f_lasti)
+        # CALL_FINALLY itself is two bytes long.
+        self.vm.push(self.vm.frame.f_lasti + 2)
         self.vm.jump(delta)
 
     def POP_FINALLY(self, preserve_tos: int):
@@ -120,22 +113,27 @@ class ByteOp38(ByteOp37):
         continue and return in the "finally" block.
 
         """
+        preserved = self.vm.popn(1) if preserve_tos else []
         v = self.vm.pop()
-        if v is None:
-            why = None
-        elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            # FIXME: pop 3 more values
-            why = "reraise"
-            raise self.vm.PyVMError("POP_FINALLY not finished yet")
-        else:  # pragma: no cover
-            raise self.vm.PyVMError("Confused POP_FINALLY")
-        return why
+        if not (v is None or isinstance(v, int)):
+            self.vm.popn(2)
+            self.vm.unwind_block(self.vm.pop_block())
+        self.vm.push(*preserved)
+
+    def WITH_CLEANUP_FINISH(self):
+        """Finishes cleaning up the stack when a with statement block
+        exits. TOS is result of __exit__() or __aexit__() function call
+        pushed by WITH_CLEANUP_START. SECOND is None or an exception type
+        (pushed when an exception has been raised).
+
+        Pops two values from the stack. If SECOND is not None and TOS is
+        true unwinds the EXCEPT_HANDLER block which was created when the
+        exception was caught and pushes NULL to the stack.
+        """
+        exc, exit_result = self.vm.popn(2)
+        if exc is not None and exit_result:
+            self.vm.unwind_block(self.vm.pop_block())
+            self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
     # those were reversed.
-- 
2.43.0


From 152bd3d9b486b24899723dafbe0fcc93af99e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 15/88] fix: re-raise from the stack in 3.9 and 3.10, and call
 __exit__ in WITH_EXCEPT_START

---
 xpython/byteop/byteop39.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index d13012c..ff3e585 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -49,24 +49,28 @@ class ByteOp39(ByteOp38):
     #   already been performed in parse_byte_and_args().
     ##############################################################################
 
-    def RERAISE(self, oparg: int) -> str:
+    def RERAISE(self, oparg=None) -> str:
         """Re-raises the exception currently on top of the stack.  If
-        oparg is non-zero, pops an additional value from the stack
-        which is used to set f_lasti of the current frame.
+        oparg (new in 3.10) is non-zero, the line number of the
+        instruction that raised the exception first is restored; that
+        isn't tracked here.
 
+        The exception handler block, which is still on the block stack,
+        goes when the exception is unwound.
         """
-        # An exception was already set up to set: self.vm.last_exception,
-        # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
-        # All we need to do here is note an exception return.
-        for _ in range(oparg, 0, -1):
-            self.vm.frame.block_stack.pop()
-        return "exception"
+        tb, val, exctype = self.vm.popn(3)
+        self.vm.last_exception = (exctype, val, tb)
+        return "reraise"
 
     def WITH_EXCEPT_START(self) -> None:
-        # FIXME
-        raise RuntimeError("WITH_EXCEPT_START not implemented yet")
-        pass
-
+        """Calls the function in position 7 on the stack with the top
+        three items on the stack as arguments. Used to implement the
+        call context_manager.__exit__(*exc_info()) when an exception
+        has occurred in a with statement.
+        """
+        tb, val, exctype = self.vm.peek(3), self.vm.peek(2), self.vm.peek(1)
+        exit_func = self.vm.peek(7)
+        self.vm.push(exit_func(exctype, val, tb))
 
     def LOAD_ASSERTION_ERROR(self) -> None:
         """
@@ -95,8 +99,7 @@ class ByteOp39(ByteOp38):
         the stack.
         """
         TOS1, TOS = self.vm.popn(2)
-        # FIXME: not sure what operation should be used to test not "matches".
-        if not issubclass(TOS1, TOS):
+        if not self.exception_match(TOS1, TOS):
             self.vm.jump(target)
         return
 
-- 
2.43.0


From fc6a6bcf18cdc2488b424cfa733d6ecba3753550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 16/88] fix: handle exceptions in 3.11 the way its exception
 table says

---
 xpython/byteop/byteop311.py | 59 ++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index dc4406c..2006911 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -536,11 +536,9 @@ class ByteOp311(ByteOp310):
 
         TOS is usually the exception in an `except` cluase of a `try` block,
         while TOS1 is usually the exception that got raised.
-
-        For "exception matching" use isinstance(TOS1 TOS.__class__) so superclasses
         """
-        _, tos = self.vm.popn(2)
-        self.vm.push(isinstance(tos, tos.__class__))
+        classes = self.vm.pop()
+        self.vm.push(self.exception_match(type(self.vm.top), classes))
 
     def JUMP_BACKWARD(self, offset: int):
         """
@@ -623,10 +621,57 @@ class ByteOp311(ByteOp310):
         to the top of the stack. Pushes the value originally popped
         back to the stack. Used in exception handlers.
         """
-        val = self.vm.pop()
-        self.vm.push(self.vm.last_exception[1])
-        self.vm.push(val)
+        exc = self.vm.pop()
+        self.vm.push(self.vm.exc_info[1], exc)
+        self.vm.exc_info = (type(exc), exc, exc.__traceback__)
 
+    def POP_EXCEPT(self):
+        """Pops a value from the stack, which is used to restore the
+        exception state.
+        """
+        exc = self.vm.pop()
+        if exc is None:
+            self.vm.exc_info = (None, None, None)
+        else:
+            self.vm.exc_info = (type(exc), exc, exc.__traceback__)
+
+    def RERAISE(self, oparg: int) -> str:
+        """Re-raises the exception currently on top of the stack."""
+        exc = self.vm.pop()
+        self.vm.last_exception = (type(exc), exc, exc.__traceback__)
+        return "reraise"
+
+    def BEFORE_WITH(self):
+        """This opcode performs several operations before a with
+        block starts. First, it loads __exit__() from the context
+        manager and pushes it onto the stack for later use by
+        WITH_EXCEPT_START. Then, __enter__() is called. Finally, the
+        result of calling the __enter__() method is pushed onto the
+        stack.
+        """
+        context_manager = self.vm.pop()
+        methods = []
+        for name in ("__enter__", "__exit__"):
+            if not hasattr(context_manager, name):
+                raise TypeError(
+                    f"{type(context_manager).__name__!r} object does not support "
+                    "the context manager protocol"
+                )
+            methods.append(getattr(context_manager, name))
+        enter_method, exit_method = methods
+        self.vm.push(exit_method)
+        self.vm.push(enter_method())
+
+    def WITH_EXCEPT_START(self) -> None:
+        """Calls the function in position 4 on the stack with
+        arguments (type, val, tb) representing the exception at the
+        top of the stack. Used to implement the call
+        context_manager.__exit__(*exc_info()) when an exception has
+        occurred in a with statement.
+        """
+        exc = self.vm.top
+        exit_func = self.vm.peek(4)
+        self.vm.push(exit_func(type(exc), exc, exc.__traceback__))
 
     def RESUME(self, where: int):
         """
-- 
2.43.0


From cf6314b7966794557855dee8b8b6cfbae9ffe569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 17/88] fix: keep the exception being handled apart from the
 exception raised last

A bare raise, END_FINALLY and leaving an except clause used last_exception,
which any exception caught meanwhile overwrites. Also raise TypeError for
things that can't be raised or caught, and normalise Python 2's raise forms.
---
 xpython/byteop/byteop.py   |  53 ++++++++++++------
 xpython/byteop/byteop24.py |  61 ++++++++++-----------
 xpython/byteop/byteop32.py |  22 ++++----
 xpython/byteop/byteop35.py |  12 ++--
 xpython/pyobj.py           |   3 +
 xpython/vm.py              | 109 ++++++++++++++++---------------------
 xpython/vmtrace.py         |  11 ++--
 7 files changed, 138 insertions(+), 133 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 598e951..e19bc80 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -412,37 +412,56 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
-    def do_raise(self, exc, cause):
-        if exc is None:  # reraise
-            exc_type, val, _ = self.vm.last_exception
-            if exc_type is None:
-                return "exception"  # error
-            else:
-                return "reraise"
-
-        elif type(exc) is type:
+    def exception_match(self, exc_type, classes) -> bool:
+        """Whether an `except classes` clause catches exceptions of type `exc_type`"""
+        if self.version_info >= (3, 0):
+            for cls in classes if isinstance(classes, tuple) else (classes,):
+                if not (isinstance(cls, type) and issubclass(cls, BaseException)):
+                    raise TypeError(
+                        "catching classes that do not inherit from BaseException "
+                        "is not allowed"
+                    )
+        elif isinstance(classes, tuple):
+            return any(self.exception_match(exc_type, cls) for cls in classes)
+        elif not isinstance(classes, type):
+            return False
+        return issubclass(exc_type, classes)
+
+    def do_reraise(self):
+        """Raise the exception being handled, i.e. a `raise` without operands"""
+        if self.vm.exc_info[0] is None:
+            raise RuntimeError("No active exception to reraise")
+        self.vm.last_exception = self.vm.exc_info
+        return "reraise"
+
+    def do_raise(self, exc, *cause):
+        if isinstance(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
-            exc_type = exc
             val = exc()  # Make an instance.
+            if not isinstance(val, BaseException):
+                raise TypeError(
+                    f"calling {exc} should have returned an instance of "
+                    f"BaseException, not {type(val)}"
+                )
         elif isinstance(exc, BaseException):
             # As in `raise ValueError('foo')`
-            exc_type = type(exc)
             val = exc
         else:
-            return "exception"  # error
+            raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
-        # val is a valid exception instance and exc_type is its class.
+        # val is a valid exception instance.
         # Now do a similar thing for the cause, if present.
         if cause:
-            if type(cause) is type:
+            cause = cause[0]
+            if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
-            elif not isinstance(cause, BaseException):
-                return "exception"  # error
+            elif not (cause is None or isinstance(cause, BaseException)):
+                raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
 
-        self.vm.last_exception = exc_type, val, val.__traceback__
+        self.vm.last_exception = type(val), val, val.__traceback__
         return "exception"
 
     def inplace_operator(self, op):
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6c4b1e2..c4d100b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -390,12 +390,6 @@ class ByteOp24(ByteOpBase):
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
-            if self.version_info[:2] >= (3, 5):
-                block = self.vm.top_block()
-                while len(self.vm.frame.stack) > block.level:
-                    self.vm.pop()
-                self.vm.push(tb, val, exctype)
-
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
@@ -534,8 +528,6 @@ class ByteOp24(ByteOpBase):
         lambda x, y: x not in y,
         lambda x, y: x is y,
         lambda x, y: x is not y,
-        lambda x, y: issubclass(x, BaseException)
-        and issubclass(x, y),  # exception-match
     ]
 
     def COMPARE_OP(self, opname: int):
@@ -545,7 +537,10 @@ class ByteOp24(ByteOpBase):
         Changed in 3.12
         """
         x, y = self.vm.popn(2)
-        self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
+        if opname == 10:  # exception-match
+            self.vm.push(self.exception_match(x, y))
+        else:
+            self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
 
     # Imports
 
@@ -836,32 +831,34 @@ class ByteOp24(ByteOpBase):
         """
         # NOTE: the dis docs quoted above are completely wrong about the order of the
         # operands on the stack!
-        tb = None
-        exctype = None
         if argc == 0:
-            exctype, val, tb = self.vm.last_exception
-        elif argc == 1:
-            exctype = self.vm.pop()
-            val = AssertionError()
-        elif argc == 2:
-            val = self.vm.pop()
-            # Investigate: right now we see this *only* in 2.6.
-            # Can it happen in other bytecode versions?
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
-        elif argc == 3:
-            tb = self.vm.pop()
-            val = self.vm.pop()
-            # See comment above
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
-
-        # There are a number of forms of "raise", normalize them somewhat.
-        if isinstance(exctype, BaseException):
+            exctype, val, tb = self.vm.exc_info
+        else:
+            exctype, val, tb = self.vm.popn(argc) + [None] * (3 - argc)
+
+        while isinstance(exctype, tuple) and exctype:
+            exctype = exctype[0]
+
+        # There are a number of forms of "raise", normalize them.
+        if isinstance(exctype, type) and issubclass(exctype, BaseException):
+            if not isinstance(val, exctype):
+                if val is None:
+                    val = exctype()
+                elif isinstance(val, tuple):
+                    val = exctype(*val)
+                else:
+                    val = exctype(val)
+            exctype = type(val)
+        elif isinstance(exctype, BaseException):
+            if val is not None:
+                raise TypeError("instance exception may not have a separate value")
             val = exctype
             exctype = type(val)
+        else:
+            raise TypeError(
+                "exceptions must be old-style classes or derived from BaseException, "
+                f"not {type(exctype).__name__}"
+            )
 
         self.vm.last_exception = (exctype, val, tb)
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index a4100db..59494e6 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -221,12 +221,16 @@ class ByteOp32(ByteOp27):
                 exit_func = self.vm.pop(1)
             u = None
         elif issubclass(u, BaseException):
-            w, v, u = self.vm.popn(3)
-            tp, exc, tb = self.vm.popn(3)
+            # Take out the exit function and put a filler above the saved
+            # exception, so that the values which the handler block is going to
+            # restore are where that expects those.
+            tb, v, u = self.vm.popn(3)
+            saved = self.vm.popn(3)
             exit_func = self.vm.pop()
-            self.vm.push(tp, exc, tb)
+            self.vm.push(*saved)
             self.vm.push(None)
-            self.vm.push(w, v, u)
+            self.vm.push(tb, v, u)
+            w = tb
             block = self.vm.pop_block()
             assert block.type == "except-handler"
             self.vm.push_block(block.type, block.handler, block.level - 1)
@@ -253,13 +257,9 @@ class ByteOp32(ByteOp27):
         the traceback as TOS2, the parameter as TOS1, and the
         exception as TOS.
         """
-        cause = exc = None
-        if argc == 2:
-            cause = self.vm.pop()
-            exc = self.vm.pop()
-        elif argc == 1:
-            exc = self.vm.pop()
-        return self.do_raise(exc, cause)
+        if argc == 0:
+            return self.do_reraise()
+        return self.do_raise(*self.vm.popn(argc))
 
 
 if __name__ == "__main__":
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index b572808..6bbde5f 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -167,9 +167,13 @@ class ByteOp35(ByteOp34):
             else:
                 exit_method = self.vm.pop(1)
         elif issubclass(TOS, BaseException):
+            # Take out the exit method and put a filler above the saved
+            # exception, so that the values which the handler block is going to
+            # restore are where that expects those.
             fourth, third, second = self.vm.popn(3)
-            tp, exc, tb = self.vm.popn(3)
+            saved = self.vm.popn(3)
             exit_method = self.vm.pop()
+            self.vm.push(*saved)
             self.vm.push(None)
             self.vm.push(fourth, third, second)
             block = self.vm.pop_block()
@@ -192,13 +196,11 @@ class ByteOp35(ByteOp34):
         exception = self.vm.pop()
         if (
             exit_result
-            and type(exception) is type
+            and isinstance(exception, type)
             and issubclass(exception, BaseException)
         ):
-            # Pop the exception and replace with "silenced".
-            self.vm.popn(1)
+            # END_FINALLY leaves the exception handler.
             self.vm.push("silenced")
-            return "silenced"
 
     # All of the following opcodes expect arguments. An argument is
     # two bytes, with the more significant byte last.
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1189a9..0fe8b74 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -409,6 +409,9 @@ class Frame(object):
         self.localsplusnames = localsplusnames
         self.stack = []
 
+        # The exception being handled where a generator was suspended.
+        self.exc_info = None
+
         # event args is used in tracing/debugging callback.
         self.event_flags = None
 
diff --git a/xpython/vm.py b/xpython/vm.py
index a7938eb..17023d5 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -161,9 +161,12 @@ class PyVM(object):
         # This changes how we report a VMRuntime error.
         self.vmtest_testing = vmtest_testing
 
-        # Like sys.exc_info() tuple
+        # Like sys.exc_info() tuple, for the exception raised last.
         self.last_exception = None
 
+        # Like the sys.exc_info() tuple, for the exception being handled.
+        self.exc_info = (None, None, None)
+
         # Sometimes we need a native function (e.g. for method lookup), but
         # most of the time we want a VM function defined in pyobj.
         # This maps between the two.
@@ -185,25 +188,21 @@ class PyVM(object):
         """In Python 3.11 exception handling blocks are handled off
         of a code co_exceptiontable.
 
-        Here, we find the exception block associated with a code offset,
-        determined by the frame's f_lasti, push the exception block,
-        and note we are in exception processing
-
+        Here, we find the entry for the frame's f_lasti and, if there is one,
+        continue at its handler, with the exception on the evaluation stack.
+        Otherwise "exception" is returned: the exception leaves the frame.
         """
         frame = self.frame
-        lasti = frame.f_lasti
         encoded_exception_table = frame.f_code.co_exceptiontable
-        exception_entries = parse_exception_table(encoded_exception_table)
-        for exception_entry in exception_entries:
-            if exception_entry.start <= lasti <= exception_entry.end:
-                self.push_block(
-                    "setup-except311",
-                    exception_entry.target,
-                    exception_entry.depth,
-                )
-                self.in_exception_processing = True
-                break
-        return
+        for entry in parse_exception_table(encoded_exception_table):
+            if entry.start <= frame.f_lasti < entry.end:
+                del frame.stack[entry.depth :]
+                if entry.lasti:
+                    self.push(frame.f_lasti)
+                self.push(self.last_exception[1])
+                self.jump(entry.target)
+                return None
+        return "exception"
 
     ##############################################
     # Frame operations. First the frame stack....
@@ -486,11 +485,10 @@ class PyVM(object):
         while len(self.frame.stack) > block.level + offset:
             self.pop()
 
-        # Set self.last_exception which will filter its way to
-        # sys.last_exception. 3.11+ has a already set this.
-        if block.type == "except-handler" and self.version < (3, 11):
+        # Restore the exception that was being handled on entry to the handler.
+        if block.type == "except-handler":
             tb, value, exctype = self.popn(3)
-            self.last_exception = exctype, value, tb
+            self.exc_info = exctype, value, tb
 
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
@@ -726,9 +724,7 @@ class PyVM(object):
             why = None
             return why
 
-        if not (
-            block.type in ("except-handler", "setup-except311") and why == "silenced"
-        ):
+        if not (block.type == "except-handler" and why == "silenced"):
             self.pop_block()
             self.unwind_block(block)
 
@@ -745,6 +741,8 @@ class PyVM(object):
                 or block.type == "with"
             ):
                 if why == "exception":
+                    if block.type != "finally":
+                        self.exc_info = self.last_exception
                     exctype, value, tb = self.last_exception
                     self.push(tb, value, exctype)
                 else:
@@ -758,10 +756,12 @@ class PyVM(object):
 
         else:
             if why == "exception" and block.type in ["setup-except", "finally"]:
+                # Save the exception being handled now, which is restored when
+                # the handler is left.
                 self.push_block("except-handler")
+                self.push(*reversed(self.exc_info))
+                self.exc_info = self.last_exception
                 exc_type, exc_value, exc_traceback = self.last_exception
-                # FIXME: start here - is this right for 2.7?
-                self.push(exc_traceback, exc_value, exc_type)
                 why = None
 
                 # Make the raw exception data available to the
@@ -774,20 +774,6 @@ class PyVM(object):
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
-            if why == "exception" and block.type == "setup-except311":
-                # FIXME: Is this right?
-                self.push(self.last_exception)
-                self.push_block("except-handler")
-                why = None
-
-                # Make the raw exception data available to the
-                # handler, so a program can emulate the Python main
-                # loop.
-
-                # PyErr_NormalizeException goes here
-                self.jump(block.handler)
-                return why
-
             elif block.type == "finally":
                 if why in ("return", "continue"):
                     self.push(self.return_value)
@@ -806,28 +792,31 @@ class PyVM(object):
 
         return why
 
+    def enter_exc_info(self, frame):
+        """Return the exception being handled in the calling frame. A generator
+        that was suspended in an exception handler gets its own one back."""
+        exc_info = self.exc_info
+        if frame.exc_info is not None:
+            self.exc_info = frame.exc_info
+            frame.exc_info = None
+        return exc_info
+
+    def leave_exc_info(self, frame, exc_info, why):
+        """Restore the exception being handled in the calling frame."""
+        if why == "yield" and self.exc_info is not exc_info:
+            frame.exc_info = self.exc_info
+        self.exc_info = exc_info
+
     def propagate_exception(self):
         """Leave eval_frame() with the exception recorded in self.last_exception.
         It is raised in the calling frame, or, if there is no calling
         frame, reported as uncaught."""
-        last_exception = self.last_exception
-        if not (last_exception and last_exception[0]):
+        if not (self.last_exception and self.last_exception[0]):
             raise PyVMError("Borked exception recording")
 
-        exc_type, exc_value = last_exception[0], last_exception[1]
-        if not isinstance(exc_value, BaseException):
-            # Not normalized yet, e.g. Python 2's "raise ValueError, 5".
-            if exc_value is None:
-                exc_value = exc_type()
-            elif isinstance(exc_value, tuple):
-                exc_value = exc_type(*exc_value)
-            else:
-                exc_value = exc_type(exc_value)
-            self.last_exception = (exc_type, exc_value, last_exception[2])
-
         if not self.frame:
             raise PyVMUncaughtException.from_tuple(self.last_exception)
-        raise exc_value
+        raise self.last_exception[1]
 
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
@@ -852,6 +841,7 @@ class PyVM(object):
             # byte_code == opcode["YIELD_VALUE"]?
 
         self.push_frame(frame)
+        exc_info = self.enter_exc_info(frame)
         offset = 0
         while True:
             (
@@ -874,9 +864,6 @@ class PyVM(object):
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
                     # FIXME: DRY code
                     if self.last_exception[0] != SystemExit:
@@ -901,8 +888,9 @@ class PyVM(object):
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
+
+            if why == "exception" and self.version >= (3, 11):
+                why = self.exception_handling_311()
 
             if why != "yield":
                 while why and frame.block_stack:
@@ -912,8 +900,7 @@ class PyVM(object):
             if why:
                 break
 
-        # TODO: handle generator exception state
-
+        self.leave_exc_info(frame, exc_info, why)
         self.pop_frame()
 
         if why == "exception":
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 6be67f3..34c95e6 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -218,6 +218,7 @@ class PyVMTraced(PyVM):
             self.opc.findlinestarts(frame.f_code, dup_lines=True)
         )
 
+        exc_info = self.enter_exc_info(frame)
         offset = 0
         while True:
             (
@@ -289,18 +290,15 @@ class PyVMTraced(PyVM):
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
                     self.last_traceback = traceback_from_frame(self.frame)
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
 
+            if why == "exception" and self.version >= (3, 11):
+                why = self.exception_handling_311()
 
             if why != "yield":
                 while why and frame.block_stack:
@@ -344,8 +342,7 @@ class PyVMTraced(PyVM):
             pass
         # End extra tracing code
 
-        # TODO: handle generator exception state
-
+        self.leave_exc_info(frame, exc_info, why)
         self.pop_frame()
 
         if why == "exception":
-- 
2.43.0


From 66dd2a210b35e56a8967ddb8720894ce21f12a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 18/88] fix: don't look at the popped operands of an
 instruction that raised

---
 xpython/vm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 17023d5..b623662 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -116,7 +116,7 @@ def format_instruction(
     elif int_arg is None:
         argrepr = ""
     elif byte_code in opc.COMPARE_OPS:
-        if vm.version >= (3, 12):
+        if opc.version_tuple >= (3, 12):
             int_arg >>= 4
         argrepr = opc.cmp_op[int_arg]
     elif isinstance(arguments, list) and arguments:
@@ -688,7 +688,9 @@ class PyVM(object):
 
             # FIXME: dry code
             if not self.in_exception_processing:
-                if self.last_exception[0] != SystemExit:
+                if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                    logging.INFO
+                ):
                     log.info(
                         (
                             "exception in the execution of "
@@ -702,7 +704,6 @@ class PyVM(object):
                                 offset,
                                 line_number,
                                 False,
-                                vm=self,
                             )
                         )
                     )
@@ -866,7 +867,9 @@ class PyVM(object):
 
                 if not self.in_exception_processing:
                     # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit:
+                    if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                        logging.INFO
+                    ):
                         log.info(
                             (
                                 "exception in the execution of "
-- 
2.43.0


From f63cea09800526d1696588b2ccbfa8ae86874a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 19/88] fix: don't call repr() on call arguments that aren't
 logged

---
 xpython/vm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index b623662..6d1ca70 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -324,7 +324,7 @@ class PyVM(object):
         log.debug(
             "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
             code,
-            repr(callargs),
+            callargs,
             (type(f_globals), id(f_globals)),
             (type(f_locals), id(f_locals)),
         )
@@ -347,7 +347,8 @@ class PyVM(object):
 
         # Implement NEWLOCALS flag. See Objects/frameobject.c in CPython.
         if code.co_flags & CO_NEWLOCALS:
-            f_locals = {"__locals__": {}}
+            # Up to 3.3 the function for a class body has the namespace as argument.
+            f_locals = {"__locals__": {}} if "__locals__" in code.co_varnames else {}
 
         f_locals.update(callargs)
 
-- 
2.43.0


From 00615607480757fa47c4d3a4c85c4ed58b0bb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 20/88] fix: keep a stray __locals__ out of the locals of
 functions

---
 xpython/vm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 6d1ca70..89f47dc 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -357,8 +357,6 @@ class PyVM(object):
         cells = code.co_cellvars
         freevars = code.co_freevars
         localsplusnames = (varnames or tuple()) + tuple(
-            name for name in (freevars or tuple()) if name not in varnames
-            ) + tuple(
             name for name in (cells or tuple()) if name not in varnames
             )
 
-- 
2.43.0


From 300116c5d336eeb51d7c27dff6547857f2e205e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 21/88] fix: number 3.11's free variables after its cell
 variables

---
 xpython/vm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 89f47dc..5f68e52 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -358,7 +358,7 @@ class PyVM(object):
         freevars = code.co_freevars
         localsplusnames = (varnames or tuple()) + tuple(
             name for name in (cells or tuple()) if name not in varnames
-            )
+            ) + (freevars or tuple())
 
         frame = Frame(
             f_code=code,
@@ -455,7 +455,9 @@ class PyVM(object):
             return 1
 
         except Exception:
-            if self.last_traceback:
+            # exec() and eval() raise their exceptions in the calling frame,
+            # which may handle those.
+            if toplevel and self.last_traceback:
                 self.last_traceback.print_tb()
                 self.print_last_exception()
             raise
-- 
2.43.0


From f30cf8b58a811263f904dfbb27598d2570ece4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 22/88] fix: leave exceptions of a nested exec() or eval() to
 the caller

---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 5f68e52..492a285 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -682,7 +682,7 @@ class PyVM(object):
                     )
                 why = bytecode_fn(*arguments)
 
-        except Exception:
+        except BaseException:
             # Deal with exceptions encountered while executing the op.
             self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
-- 
2.43.0


From 632e4997947e11283e55e83a3d6975439ada5a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 23/88] fix: let programs handle SystemExit, KeyboardInterrupt
 and other BaseExceptions

---
 xpython/vm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 492a285..04ef81c 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -322,7 +322,7 @@ class PyVM(object):
         # pylint: disable=dangerous-default-value
 
         log.debug(
-            "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
+            "make_frame: code=%r, callargs=%r, f_globals=%r, f_locals=%r",
             code,
             callargs,
             (type(f_globals), id(f_globals)),
@@ -812,13 +812,14 @@ class PyVM(object):
     def propagate_exception(self):
         """Leave eval_frame() with the exception recorded in self.last_exception.
         It is raised in the calling frame, or, if there is no calling
-        frame, reported as uncaught."""
+        frame, reported as uncaught; requests to exit aren't errors to report."""
         if not (self.last_exception and self.last_exception[0]):
             raise PyVMError("Borked exception recording")
 
-        if not self.frame:
-            raise PyVMUncaughtException.from_tuple(self.last_exception)
-        raise self.last_exception[1]
+        exc_value = self.last_exception[1]
+        if self.frame or isinstance(exc_value, (SystemExit, KeyboardInterrupt)):
+            raise exc_value
+        raise PyVMUncaughtException.from_tuple(self.last_exception)
 
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
-- 
2.43.0


From 6505f710b1cfa486945831bc7c9da6c36d9ca29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 24/88] fix: cell variables are per frame, and unbound ones are
 empty

A frame's cells were also written into the calling frame's cells, so a
callee's cell variable replaced a same-named one of its caller. Reading an
unbound cell gave None where Python raises NameError. In 3.11, MAKE_CELL and
COPY_FREE_VARS overwrote cells with None or copied them into the locals.
---
 xpython/byteop/byteop.py    | 10 ++++++++++
 xpython/byteop/byteop24.py  |  5 ++++-
 xpython/byteop/byteop311.py | 24 +-----------------------
 xpython/pyobj.py            | 17 ++++++++++-------
 4 files changed, 25 insertions(+), 31 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e19bc80..6be0db9 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -505,6 +505,16 @@ class ByteOpBase(object):
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
 
+    def unbound_cell(self, name):
+        """Raise the exception for the cell or free variable `name` being unbound"""
+        if name in self.vm.frame.f_code.co_cellvars:
+            raise UnboundLocalError(
+                f"local variable '{name}' referenced before assignment"
+            )
+        raise NameError(
+            f"free variable '{name}' referenced before assignment in enclosing scope"
+        )
+
     def lookup_name(self, name):
         """Returns the value in the current frame associated for name"""
         frame = self.vm.frame
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index c4d100b..df63bc2 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -733,7 +733,10 @@ class ByteOp24(ByteOpBase):
         storage. Pushes a reference to the object the cell contains on the
         stack.
         """
-        self.vm.push(self.vm.frame.cells[name].get())
+        cell = self.vm.frame.cells[name]
+        if cell.is_empty():
+            self.unbound_cell(name)
+        self.vm.push(cell.get())
 
     def STORE_DEREF(self, name):
         """Stores TOS into the cell contained in slot i of the cell
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 2006911..63c7201 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -330,22 +330,7 @@ class ByteOp311(ByteOp310):
           frame. Removes the need for special code on the caller’s
           side when calling closures.
         """
-        # Copy closure variables to free variables
-        # PyCodeObject *co = frame->f_code;
-        # PyObject *closure = frame->f_func->func_closure;
-        # int offset = co->co_nlocals + co->co_nplaincellvars;
-        # assert(oparg == co->co_nfreevars);
-        # for (int i = 0; i < oparg; ++i) {
-        #     PyObject *o = PyTuple_GET_ITEM(closure, i);
-        #     Py_INCREF(o);
-        #     frame->localsplus[offset + i] = o;
-        # }
-        frame = self.vm.frame
-        co = frame.f_code
-        localsplus = co.co_freevars + co.co_cellvars
-        for i in range(argc):
-            name = localsplus[i]
-            frame.f_locals[name] = frame.cells[name].get()
+        # The frame got the cells of its closure when it was created.
         return
 
     def KW_NAMES(self, names: Tuple[str]):
@@ -369,13 +354,6 @@ class ByteOp311(ByteOp310):
 
         In this interpreter, we create all cells when the frame is created. So there's nothing to do
         """
-        # PyObject *initial = GETLOCAL(oparg);
-        # PyObject *cell = PyCell_New(initial);
-        # if (cell == NULL) {
-        #     goto resume_with_error;
-        # }
-        # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, None))
         return
 
     # Changed in 3.11...
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0fe8b74..a8d3128 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -345,11 +345,17 @@ class Cell:
 
     """
 
-    def __init__(self, value) -> None:
+    # What an empty cell, i.e. one for an unbound variable, contains.
+    EMPTY = object()
+
+    def __init__(self, value=EMPTY) -> None:
         self.contents = value
 
+    def is_empty(self) -> bool:
+        return self.contents is Cell.EMPTY
+
     def get(self):
-        return self.contents
+        return None if self.is_empty() else self.contents
 
     def set(self, value) -> None:
         self.contents = value
@@ -441,12 +447,9 @@ class Frame(object):
 
         if f_code.co_cellvars:
             self.cells = {}
-            if not f_back.cells:
-                f_back.cells = {}
             for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals, or None.
-                cell = Cell(self.f_locals.get(var))
-                f_back.cells[var] = self.cells[var] = cell
+                # Make a cell for the variable in our locals if it is bound.
+                self.cells[var] = Cell(self.f_locals.get(var, Cell.EMPTY))
         else:
             self.cells = None
 
-- 
2.43.0


From dfbee60beb0f2850f771215135c9f71536c6e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 25/88] fix: unbound names raise NameError or UnboundLocalError
 when deleted or read

---
 xpython/byteop/byteop24.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index df63bc2..41095bc 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Cell, Function, Traceback
+from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -420,11 +420,15 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
+        if name not in self.vm.frame.f_globals:
+            raise NameError(f"name '{name}' is not defined")
         del self.vm.frame.f_globals[name]
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
+        if name not in self.vm.frame.f_locals:
+            raise NameError(f"name '{name}' is not defined")
         del self.vm.frame.f_locals[name]
 
     def UNPACK_SEQUENCE(self, count):
@@ -467,15 +471,7 @@ class ByteOp24(ByteOpBase):
         """Pushes the value associated with co_names[namei] onto the stack.
         Running this opcode can raise a NameError.
         """
-        #
-        try:
-            self.lookup_name(name)
-        except NameError:
-            self.vm.last_traceback = self.traceback_from_frame()
-            self.create_exception(NameError, f"name '{name}' is not defined")
-            return "exception"
-        else:
-            self.vm.push(self.lookup_name(name))
+        self.vm.push(self.lookup_name(name))
 
     # Building
 
-- 
2.43.0


From 3bc8fde2b184aa9d83a289280318d069685c8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 26/88] fix: closures of Python 2.4 and 2.5 take their cells
 from the stack

---
 xpython/byteop/byteop24.py |  6 +++++-
 xpython/byteop/byteop25.py | 16 ++++++++++++++++
 xpython/byteop/byteop26.py | 16 ----------------
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 41095bc..2362d68 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -713,6 +713,10 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
+        if var_num not in self.vm.frame.f_locals:
+            raise UnboundLocalError(
+                f"local variable '{var_num}' referenced before assignment"
+            )
         del self.vm.frame.f_locals[var_num]
 
     def LOAD_CLOSURE(self, i):
@@ -787,10 +791,10 @@ class ByteOp24(ByteOpBase):
         Changed in 2.6
         """
         code = self.vm.pop()
+        closure = tuple(self.vm.popn(len(code.co_freevars)))
         defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
 
-        closure = tuple([Cell(self.lookup_name(var)) for var in code.co_freevars])
         fn = Function(
             name=None,
             code=code,
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 5313e76..9fe3fba 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -5,6 +5,7 @@ Note: this is subclassed. Later versions use operations from here.
 """
 
 from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.pyobj import Function
 
 
 class ByteOp25(ByteOp24):
@@ -65,3 +66,18 @@ class ByteOp25(ByteOp24):
             # An error occurred, and was suppressed
             self.vm.popn(3)
             self.vm.push(None)
+
+    def MAKE_CLOSURE(self, argc: int):
+        """
+        Creates a new function object, sets its ``func_closure`` slot, and
+        pushes it on the stack. TOS is the code associated with the
+        function, TOS1 the tuple containing cells for the closure’s
+        free variables. The function also has ``argc`` default parameters,
+        which are found below the cells.
+        """
+        name = None
+        closure, code = self.vm.popn(2)
+        defaults = self.vm.popn(argc)
+        globs = self.vm.frame.f_globals
+        fn = Function(name, code, globs, defaults, closure, self.vm)
+        self.vm.push(fn)
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index cdb7c39..17ab974 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -16,7 +16,6 @@ except ImportError:
 from xpython.byteop.byteop import fmt_binary_op
 from xpython.byteop.byteop24 import Version_info, fmt_make_function
 from xpython.byteop.byteop25 import ByteOp25
-from xpython.pyobj import Function
 
 
 class ByteOp26(ByteOp25):
@@ -84,18 +83,3 @@ class ByteOp26(ByteOp25):
             module = self.setup_sys_module()
 
         self.vm.push(module)
-
-    def MAKE_CLOSURE(self, argc: int):
-        """
-        Creates a new function object, sets its ``func_closure`` slot, and
-        pushes it on the stack. TOS is the code associated with the
-        function, TOS1 the tuple containing cells for the closure’s
-        free variables. The function also has ``argc`` default parameters,
-        which are found below the cells.
-        """
-        name = None
-        closure, code = self.vm.popn(2)
-        defaults = self.vm.popn(argc)
-        globs = self.vm.frame.f_globals
-        fn = Function(name, code, globs, defaults, closure, self.vm)
-        self.vm.push(fn)
-- 
2.43.0


From 46e076e3e297a43f28c79ebc1a6ca1b7aad2fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 27/88] fix: DELETE_DEREF empties the cell

---
 xpython/byteop/byteop32.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 59494e6..b5afc46 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -6,7 +6,7 @@ import inspect
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -44,7 +44,10 @@ class ByteOp32(ByteOp27):
     def DELETE_DEREF(self, i):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
-        raise self.vm.PyVMError("DELETE_DEREF not implemented")
+        cell = self.vm.frame.cells[i]
+        if cell.is_empty():
+            self.unbound_cell(i)
+        cell.set(Cell.EMPTY)
 
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
-- 
2.43.0


From c9765a8108df6388dc37e404240d1e069d3a4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 28/88] fix: LOAD_CLASSDEREF looks in the class namespace first

---
 xpython/byteop/byteop34.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index c96c190..ebdf10a 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -32,7 +32,10 @@ class ByteOp34(ByteOp33):
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        self.vm.push(self.vm.frame.cells[count].get())
+        if count in self.vm.frame.f_locals:
+            self.vm.push(self.vm.frame.f_locals[count])
+        else:
+            self.LOAD_DEREF(count)
 
     ##############################################################################
     # Order of function here is the same as in:
-- 
2.43.0


From eefd2f81335f1582c5cfd2c7abde8a6f8ba37605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 29/88] fix: super() returns a working super object

It returned a proxy without attribute access, and in Python 2 failed for lack
of a class cell. Any class of that name was taken for the builtin.
---
 xpython/builtins.py         | 66 ++++++++++++-------------------------
 xpython/byteop/byteop.py    |  2 +-
 xpython/byteop/byteop311.py |  2 +-
 3 files changed, 23 insertions(+), 47 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 4785643..d1d0f2e 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -112,55 +112,31 @@ def build_class(opc, func, name, *bases, **kwds):
     return cls
 
 
-# FIXME: change to return a true Proxy object.
-def builtin_super(self: Any, typ=None, obj=None):
+def builtin_super(frame, *args) -> Any:
     """
-    super() but first argument is filled in via interpreter
+    super(), called from `frame`. Without arguments, these are the class whose
+    body defines the function that is running and the function's first argument.
     """
-    cells = self.cells
-    if hasattr(cells, "__class__"):
-        cell = cells["__class__"]
-    elif hasattr(cells, "__classcell__"):
-        cell = cells["__classcell__"]
-
-    start_class = cell.get()
-    return WrappedSuperClass(start_class, typ, obj)
-
-    return None
-
-
-class WrappedSuperClass(object):
-    """
-    builtin "super" object return type. This is a
-    proxy object that delegates method calls to a parent or sibling class of ``type``.
-    See https://docs.python.org/3.7/library/functions.html#super
-    """
-
-    def __init__(self, start_class, typ, obj: Any):
-        if obj is not None:
-            assert isinstance(obj, typ)
-
-        self.type_given = typ is not None
-        if self.type_given:
-            start_class = typ
-        self.start_class = start_class
-        self.superclass = start_class.__mro__[1]
-        self.__orig_init__ = self.superclass.__init__
-        self.__init__ = self.init
-        self.object = obj
-        self.type = typ
-
-    def __repr__(self):
-        if self.type_given is not None and self.object is None:
-            obj_str = "NULL"
-        elif self.object is not None:
-            obj_str = f"<{self.object.__class__.__name__} object>"
+    if not args:
+        code = frame.f_code
+        if not code.co_argcount:
+            raise RuntimeError("super(): no arguments")
+        cells = frame.cells or {}
+        if "__class__" not in code.co_freevars:
+            raise RuntimeError("super(): __class__ cell not found")
+        if cells["__class__"].is_empty():
+            raise RuntimeError("super(): empty __class__ cell")
+
+        first = code.co_varnames[0]
+        if first in cells:
+            bound, obj = not cells[first].is_empty(), cells[first].get()
         else:
-            obj_str = repr(self.type)
-        return f"<super: <class '{self.start_class.__name__}'>, {obj_str}>"
+            bound, obj = first in frame.f_locals, frame.f_locals.get(first)
+        if not bound:
+            raise RuntimeError("super(): arg[0] deleted")
+        args = cells["__class__"].get(), obj
 
-    def init(self, *args, **kwargs):
-        return self.__orig_init__(self, *args, **kwargs)
+    return super(*args)
 
 
 # From Pypy 3.6
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 6be0db9..61b11c9 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -341,7 +341,7 @@ class ByteOpBase(object):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 63c7201..cfa12d0 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -230,7 +230,7 @@ class ByteOp311(ByteOp310):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
-- 
2.43.0


From a450933d6dea9f1f2d2606d1aaffd067a66df4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 30/88] fix: keyword arguments keep their order; duplicate ones
 are an error

An empty mapping in f(**a, **b) was not pushed, and 3.5's f(x, *a, k=1, **b)
took its operands in the order of earlier versions.
---
 xpython/byteop/byteop.py       | 24 ++++++++++++++++-----
 xpython/byteop/byteop35.py     | 39 +++++++++++++++++-----------------
 xpython/byteop/byteop36.py     | 25 +++++-----------------
 xpython/byteop/byteop37pypy.py | 10 +--------
 xpython/byteop/byteop39.py     |  9 +++-----
 5 files changed, 47 insertions(+), 60 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 61b11c9..8e36caa 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -349,18 +349,32 @@ class ByteOpBase(object):
         self.vm.push(retval)
 
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
-        named_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            named_args[key] = val
-        named_args.update(keyword_args)
+        named_args = self.pop_keyword_args(len_kw)
+        self.merge_keyword_args(named_args, keyword_args)
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
         func = self.vm.pop()
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
+    def pop_keyword_args(self, count: int) -> dict:
+        """Pop `count` name and value pairs"""
+        pairs = self.vm.popn(2 * count)
+        return dict(zip(pairs[::2], pairs[1::2]))
+
+    def merge_keyword_args(self, named_args: dict, keyword_args) -> None:
+        """Add to `named_args` those of the mapping `keyword_args`, which must be others"""
+        if not hasattr(keyword_args, "keys"):
+            raise TypeError(
+                "argument after ** must be a mapping, not "
+                f"{type(keyword_args).__name__}"
+            )
+        for key in keyword_args.keys():
+            if key in named_args:
+                raise TypeError(f"got multiple values for keyword argument {key!r}")
+            named_args[key] = keyword_args[key]
+
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
         assert inspect.isfunction(func) or isinstance(func, Function)
         slots = {"kwdefaults": {}, "annotations": {}}
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 6bbde5f..953bc35 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -238,6 +238,8 @@ class ByteOp35(ByteOp34):
         elts = self.vm.popn(count)
         result = {}
         for d in elts:
+            if not hasattr(d, "keys"):
+                raise TypeError(f"{type(d).__name__!r} object is not a mapping")
             result.update(d)
         self.vm.push(result)
 
@@ -248,23 +250,13 @@ class ByteOp35(ByteOp34):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        # In 3.5 fn_pos may be always 1 which meant the stack
-        # entry after the mappings. In 3.6 this function-position
-        # encoding was dropped. But we'll follow the spec.
-        fn_pos, count = divmod(oparg, 256)
-        fn_pos -= 1
+        # CPython uses the function position in error messages only.
+        _, count = divmod(oparg, 256)
 
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_KW
-        self.vm.push(func)
-        if kwargs:
-            self.vm.push(kwargs)
+        kwargs = {}
+        for mapping in self.vm.popn(count):
+            self.merge_keyword_args(kwargs, mapping)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
@@ -288,11 +280,18 @@ class ByteOp35(ByteOp34):
         keyword arguments.
 
         """
-        keyword_args = {}
+        self.call_function_var(argc, {})
+
+    def CALL_FUNCTION_VAR_KW(self, argc: int):
+        """Like CALL_FUNCTION_VAR with a mapping object of additional
+        keyword arguments at the top of the stack.
+        """
+        self.call_function_var(argc, self.vm.pop())
+
+    def call_function_var(self, argc: int, more_keyword_args):
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        keyword_args = self.pop_keyword_args(len_kw)
+        self.merge_keyword_args(keyword_args, more_keyword_args)
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 635a2f2..ad13e87 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -80,10 +80,8 @@ class ByteOp36(ByteOp35):
         self.version_info = Version_info(3, 6, 14, "final", 0)
 
     def call_function_kw(self, argc: int):
-        namedargs = {}
         namedargs_tup = self.vm.pop()
-        for name in reversed(namedargs_tup):
-            namedargs[name] = self.vm.pop()
+        namedargs = dict(zip(namedargs_tup, self.vm.popn(len(namedargs_tup))))
 
         lenPos = argc - len(namedargs_tup)
         posargs = self.vm.popn(lenPos)
@@ -111,23 +109,10 @@ class ByteOp36(ByteOp35):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        count = oparg
-        fn_pos = 0
-
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-
-        posargs = self.vm.pop()
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_EX
-        self.vm.push(func)
-        self.vm.push(posargs)
-        if kwargs:
-            self.vm.push(kwargs)
+        kwargs = {}
+        for mapping in self.vm.popn(oparg):
+            self.merge_keyword_args(kwargs, mapping)
+        self.vm.push(kwargs)
 
     def CALL_FUNCTION_KW(self, argc: int):
         """
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 073e091..992b14b 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -67,21 +67,13 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         case is garbage. After that is the method to call.
         """
 
-        # We are going to access parameter off of the stack which is
-        # has the last parameter closest to the top.
-        # Reverse keyword names in the tuple match our access pattern.
         kw_names = self.vm.pop()
         assert isinstance(kw_names, tuple)
-        kw_names = list(reversed(kw_names))
         kwarg_count = len(kw_names)
 
         assert argc >= kwarg_count
         pos_argc = argc - kwarg_count
-        keyword_args = {}
-
-        for i in range(kwarg_count):
-            param_value = self.vm.pop()
-            keyword_args[kw_names[i]] = param_value
+        keyword_args = dict(zip(kw_names, self.vm.popn(kwarg_count)))
 
         pos_args = []
         for i in range(pos_argc):
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index ff3e585..da5798d 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -129,18 +129,15 @@ class ByteOp39(ByteOp38):
     def DICT_MERGE(self, i) -> None:
         """Like DICT_UPDATE but raises an exception for duplicate keys."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        dups = set(destination.keys()) & set(TOS.keys())
-        if bool(dups):
-            raise RuntimeError(f"Duplicate keys '{dups}' in DICT_MERGE")
-        destination.update(TOS)
+        self.merge_keyword_args(destination, TOS)
 
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
+        if not hasattr(TOS, "keys"):
+            raise TypeError(f"{type(TOS).__name__!r} object is not a mapping")
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
         destination.update(TOS)
-- 
2.43.0


From 4e9012473c5f3dec8c2a4c0c2c1aa2e0de12757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 31/88] fix: 3.11 keyword arguments get their own values, also
 after a failed call

---
 xpython/byteop/byteop311.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index cfa12d0..23f19c0 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -309,21 +309,15 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION
 
         """
-        total_args = argc + 1 if self.is_method(argc) else argc
-        # FIXME: figure out how to set this
-        kw_names_len = len(self.vm.frame.call_shape_kwnames)
+        # Clear names set by KW_NAMES, also if the call raises an exception.
         named_args = self.vm.frame.call_shape_kwnames
-        positional_args = total_args - kw_names_len
-        pos_args = self.vm.popn(positional_args)
+        self.vm.frame.call_shape_kwnames = {}
+        pos_args = self.vm.popn(argc - len(named_args))
         function = self.vm.pop()
         # C interpreter checks for inlining here.
         # We will skip this.
 
-        ret_val = self.call311_function_with_args_resolved(function, pos_args, named_args)
-
-        # Clear names set by KW_NAMES
-        self.vm.frame.call_shape_kwnames = {}
-        return ret_val
+        return self.call311_function_with_args_resolved(function, pos_args, named_args)
 
     def COPY_FREE_VARS(self, argc: int):
         """Copies the n free variables from the closure into the
@@ -342,8 +336,8 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION_KW
         """
 
-        for name in names:
-            self.vm.frame.call_shape_kwnames[name] = self.vm.pop()
+        values = self.vm.popn(len(names))
+        self.vm.frame.call_shape_kwnames = dict(zip(names, values))
         return
 
     # Changed in 3.11...
-- 
2.43.0


From ecb31e564b707546d5bdfdd73360358d263a8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 32/88] fix: CALL_FUNCTION_EX takes any iterable, and the NULL
 of 3.11

---
 xpython/byteop/byteop311.py | 12 ++++++++++++
 xpython/byteop/byteop36.py  |  6 ++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 23f19c0..023d716 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -340,6 +340,18 @@ class ByteOp311(ByteOp310):
         self.vm.frame.call_shape_kwnames = dict(zip(names, values))
         return
 
+    def CALL_FUNCTION_EX(self, flags: int):
+        """Calls a callable object with variable set of positional and
+        keyword arguments, as in 3.6. From 3.11 on there is a NULL below
+        the callable.
+        """
+        named_args = {}
+        if flags & 1:
+            self.merge_keyword_args(named_args, self.vm.pop())
+        pos_args = list(self.vm.pop())
+        func = self.vm.pop()
+        return self.call311_function_with_args_resolved(func, pos_args, named_args)
+
     # Changed in 3.11...
     def MAKE_CELL(self, name: str):
         """
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index ad13e87..2b9c8a6 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -270,8 +270,10 @@ class ByteOp36(ByteOp35):
         value returned by the callable object.
         """
         assert isinstance(flags, int)
-        namedargs = self.vm.pop() if flags & 1 else {}
-        posargs = self.vm.pop()
+        namedargs = {}
+        if flags & 1:
+            self.merge_keyword_args(namedargs, self.vm.pop())
+        posargs = list(self.vm.pop())
         func = self.vm.pop()
         self.call_function_with_args_resolved(func, posargs, namedargs)
 
-- 
2.43.0


From 5bb897b6df281f83cbf9b8d4664157a43a19cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 33/88] fix: generators stay finished, and are protected from
 reentrance

Resuming a finished generator ran past its end; the value pushed on starting
one was never used before 3.10, nor that of Python 2.4's yield statement;
StopIteration inside a generator must become RuntimeError (PEP 479).
---
 xpython/byteop/byteop24.py |  2 --
 xpython/pyobj.py           | 27 +++++++++++++++++++++++----
 xpython/vm.py              | 12 ++++++++----
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 2362d68..d49de9a 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -324,8 +324,6 @@ class ByteOp24(ByteOpBase):
     def RETURN_VALUE(self):
         """Returns with TOS to the caller of the function."""
         self.vm.return_value = self.vm.pop()
-        if self.vm.frame.generator:
-            self.vm.frame.generator.finished = True
         return "return"
 
     def YIELD_VALUE(self):
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index a8d3128..9a2df9a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -551,6 +551,10 @@ def traceback_from_frame(frame):
     return tb
 
 
+# "from __future__ import generator_stop" of Python 3.5 and 3.6
+CO_FUTURE_GENERATOR_STOP = 0x80000
+
+
 class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
@@ -570,14 +574,29 @@ class Generator(object):
         return self.send(None)
 
     def send(self, value=None):
+        if self.gi_running:
+            raise ValueError("generator already executing")
         if not self.started and value is not None:
             raise TypeError("Can't send non-None value to a just-started generator")
-        self.gi_frame.stack.append(value)
+        if self.finished:
+            raise StopIteration
+        version = self.gi_frame.version
+        if version >= ((2, 5) if self.started else (3, 10)):
+            # The value of the yield expression; in 2.4 yield is a statement.
+            # From 3.10 on, a generator that starts discards a value, too.
+            self.gi_frame.stack.append(value)
         self.started = True
-        self.running = True
-        val = self.vm.resume_frame(self.gi_frame)
+        self.gi_running = True
+        try:
+            val = self.vm.resume_frame(self.gi_frame)
+        except StopIteration as e:
+            if self.gi_code.co_flags & CO_FUTURE_GENERATOR_STOP or version >= (3, 7):
+                # PEP 479. From 3.12 on the generator's bytecode does this.
+                raise RuntimeError("generator raised StopIteration") from e
+            raise
+        finally:
+            self.gi_running = False
         if self.finished:
-            self.running = False
             raise StopIteration(val)
         return val
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 04ef81c..f7bd291 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -414,9 +414,10 @@ class PyVM(object):
         else:
             frame.fallthrough = True
 
-        val = self.eval_frame(frame)
-        frame.f_back = None
-        return val
+        try:
+            return self.eval_frame(frame)
+        finally:
+            frame.f_back = None
 
     ##############################################
     # End Frame operations.
@@ -804,7 +805,10 @@ class PyVM(object):
         return exc_info
 
     def leave_exc_info(self, frame, exc_info, why):
-        """Restore the exception being handled in the calling frame."""
+        """Restore the exception being handled in the calling frame, and note
+        whether a generator is finished."""
+        if why != "yield" and frame.generator:
+            frame.generator.finished = True
         if why == "yield" and self.exc_info is not exc_info:
             frame.exc_info = self.exc_info
         self.exc_info = exc_info
-- 
2.43.0


From 737eb4b85dc95a158457d2fef0c9facf6e2ec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 34/88] fix: yield from sends values to any subiterator

---
 xpython/byteop/byteop33.py | 4 ++--
 xpython/byteop/byteop35.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 21d8770..38cdd77 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -5,7 +5,7 @@
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
-from xpython.pyobj import Function, Generator
+from xpython.pyobj import Function
 
 
 class ByteOp33(ByteOp32):
@@ -137,7 +137,7 @@ class ByteOp33(ByteOp32):
         x = self.vm.top
 
         try:
-            if not isinstance(x, Generator) or u is None:
+            if u is None:
                 # Call next on iterators.
                 retval = next(x)
             else:
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 953bc35..be8694e 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -3,6 +3,9 @@
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop34 import ByteOp34
+from types import CoroutineType, GeneratorType
+
+from xpython.pyobj import Generator
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
 
@@ -87,7 +90,7 @@ class ByteOp35(ByteOp34):
         is. Otherwise, implements TOS = iter(TOS).
         """
         TOS = self.vm.top
-        if isgeneratorfunction(TOS) or iscoroutinefunction(TOS):
+        if isinstance(TOS, (Generator, GeneratorType, CoroutineType)):
             return
         TOS = self.vm.pop()
         self.vm.push(iter(TOS))
-- 
2.43.0


From b8bc55ed334d80541f21377292e51dbb33d895d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 35/88] fix: 3.11 and 3.12 generators

---
 xpython/byteop/byteop311.py | 28 +++++++++++++++++++++++++++
 xpython/byteop/byteop312.py | 38 +++++++++++++++++++++++++++++++++----
 xpython/vm.py               |  9 ++++++---
 3 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 023d716..2eefb76 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -327,6 +327,34 @@ class ByteOp311(ByteOp310):
         # The frame got the cells of its closure when it was created.
         return
 
+    def RETURN_GENERATOR(self):
+        """Create a generator from the current frame and return it. Here,
+        Function.__call__() has done that already, and we get here when the
+        generator starts.
+        """
+        return
+
+    def SEND(self, target: int):
+        """Equivalent to STACK[-1] = STACK[-2].send(STACK[-1]). If the
+        call raises StopIteration, pop both items, push the
+        exception's value attribute, and increment the bytecode
+        counter by delta.
+        """
+        value = self.vm.pop()
+        receiver = self.vm.top
+        try:
+            result = next(receiver) if value is None else receiver.send(value)
+        except StopIteration as e:
+            self.end_of_subiterator(e.value)
+            self.vm.jump(target)
+        else:
+            self.vm.push(result)
+
+    def end_of_subiterator(self, value):
+        """Put the result of the subiterator at the top of the stack in its place"""
+        self.vm.pop()
+        self.vm.push(value)
+
     def KW_NAMES(self, names: Tuple[str]):
         """
         Prefixes CALL. Stores a reference to co_consts[consti] into an internal frame variable
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 14aeb31..22cb660 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -51,11 +51,41 @@ class ByteOp312(ByteOp311):
         self.vm.pop()
 
     def END_SEND(self):
+        """Implements del STACK[-2]. Used to clean up when a generator exits."""
+        self.vm.pop(1)
+
+    def YIELD_VALUE(self, depth: int):
+        """Yields STACK.pop() from a generator.
+
+        Changed in version 3.12: oparg is the exception block depth.
         """
-        To be continued...
-        """
-        # FIXME
-        raise self.vm.PyVMError("END_SEND not implemented")
+        return super().YIELD_VALUE()
+
+    def end_of_subiterator(self, value):
+        """Put the result of the subiterator above it; END_SEND removes that."""
+        self.vm.push(value)
+
+    def CALL_INTRINSIC_1(self, oparg: int):
+        """Calls an intrinsic function with one argument. Passes STACK[-1]
+        as the argument and sets STACK[-1] to the result. Used to
+        implement functionality that is not performance critical.
+        """
+        if oparg == 2:  # INTRINSIC_IMPORT_STAR
+            self.IMPORT_STAR()
+            self.vm.push(None)
+        elif oparg == 3:  # INTRINSIC_STOPITERATION_ERROR
+            exc = self.vm.pop()
+            if isinstance(exc, StopIteration):
+                error = RuntimeError("generator raised StopIteration")
+                error.__cause__ = error.__context__ = exc
+                exc = error
+            self.vm.push(exc)
+        elif oparg == 5:  # INTRINSIC_UNARY_POSITIVE
+            self.unaryOperator("POSITIVE")
+        elif oparg == 6:  # INTRINSIC_LIST_TO_TUPLE
+            self.vm.push(tuple(self.vm.pop()))
+        else:
+            raise self.vm.PyVMError(f"CALL_INTRINSIC_1 {oparg} not implemented")
 
     def RESERVED(self):
         """
diff --git a/xpython/vm.py b/xpython/vm.py
index f7bd291..2954f68 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -591,9 +591,12 @@ class PyVM(object):
                             int_arg = -int_arg
                         int_arg += int_arg
                     arg = arg_offset + int_arg
-                    if bytecode_name == "FOR_ITER" and self.version >= (3, 12):
-                        # 3.12 jumps one more instruction for reasons I can't find
-                        # well documented.
+                    if bytecode_name in ("FOR_ITER", "SEND") and self.version >= (
+                        3,
+                        12,
+                    ):
+                        # In 3.12 the jump starts after the instruction's
+                        # inline cache.
                         arg += 2
 
                 elif byte_code in self.opc.JABS_OPS:
-- 
2.43.0


From e83ffc54ac442a8f2fa8a974f8a28696ab1bec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 36/88] fix: 3.12 comprehension variables, class scopes and
 super()

Inlined comprehensions left NULLs in, or changed, the enclosing namespace.
---
 xpython/byteop/byteop312.py | 112 ++++++++++++++++++++++++++++++------
 xpython/pyobj.py            |   4 ++
 xpython/vm.py               |   2 +
 3 files changed, 102 insertions(+), 16 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 22cb660..d59afa4 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -7,9 +7,12 @@
 """Bytecode Interpreter operations for Python 3.12
 """
 
+from xdis import CO_OPTIMIZED
+
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
 from xpython.byteop.byteop37 import NULL
+from xpython.pyobj import Cell
 
 
 # pylint: disable=too-many-public-methods
@@ -114,11 +117,34 @@ class ByteOp312(ByteOp311):
         raise self.vm.PyVMError("CLEANUP_THROW not implemented")
 
     def LOAD_LOCALS(self):
+        """Pushes a reference to the locals dictionary onto the stack.
+        This is used to prepare namespace dictionaries for
+        LOAD_FROM_DICT_OR_DEREF and LOAD_FROM_DICT_OR_GLOBALS.
         """
-        To be continued...
+        self.vm.push(self.vm.frame.f_locals)
+
+    def LOAD_FROM_DICT_OR_GLOBALS(self, name: str):
+        """Pops a mapping off the stack and looks up the value for name in
+        it. If the name is not found there, looks it up in the globals
+        and then the builtins, as in LOAD_GLOBAL.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_LOCALS not implemented")
+        namespace = self.vm.pop()
+        if name in namespace:
+            self.vm.push(namespace[name])
+        else:
+            self.LOAD_GLOBAL(name)
+
+    def LOAD_FROM_DICT_OR_DEREF(self, name: str):
+        """Pops a mapping off the stack and looks up the name associated
+        with a slot of the fast locals storage in it. If the name is
+        not found there, loads it from the cell in that slot, as in
+        LOAD_DEREF.
+        """
+        namespace = self.vm.pop()
+        if name in namespace:
+            self.vm.push(namespace[name])
+        else:
+            self.LOAD_DEREF(name)
 
     def RETURN_CONST(self, consti):
         """
@@ -127,12 +153,51 @@ class ByteOp312(ByteOp311):
         self.vm.return_value = consti
         return "return"
 
-    def LOAD_FAST_CHECK(self):
+    @property
+    def fast_locals(self) -> dict:
+        """The namespace of the fast locals. These are the frame's locals, except
+        for the iteration variables of the comprehensions inlined in a module or
+        class body, which are hidden.
         """
-        To be continued...
+        frame = self.vm.frame
+        if frame.f_code.co_flags & CO_OPTIMIZED:
+            return frame.f_locals
+        return frame.hidden_locals
+
+    def LOAD_FAST(self, name):
+        """Pushes a reference to the local co_varnames[var_num] onto the stack."""
+        try:
+            self.vm.push(self.fast_locals[name])
+        except KeyError:
+            raise UnboundLocalError(
+                f"cannot access local variable '{name}' where it is not "
+                "associated with a value"
+            ) from None
+
+    def LOAD_FAST_CHECK(self, name):
+        """Pushes a reference to the local co_varnames[var_num] onto the
+        stack, raising an UnboundLocalError if the local variable has
+        not been initialized.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_FAST_CHECK not implemented")
+        self.LOAD_FAST(name)
+
+    def STORE_FAST(self, name):
+        """Stores STACK.pop() into the local co_varnames[var_num]. What
+        LOAD_FAST_AND_CLEAR saved is put back.
+        """
+        value = self.vm.pop()
+        if isinstance(value, Cell):
+            self.vm.frame.cells[name] = value
+        elif value is NULL:
+            self.fast_locals.pop(name, None)
+        else:
+            self.fast_locals[name] = value
+
+    def DELETE_FAST(self, name):
+        """Deletes local co_varnames[var_num]."""
+        self.LOAD_FAST(name)
+        self.vm.pop()
+        del self.fast_locals[name]
 
     # def POP_JUMP_IF_FALSE(self):
     #     """
@@ -162,12 +227,26 @@ class ByteOp312(ByteOp311):
         if self.vm.pop() is None:
             self.vm.jump(target)
 
-    def LOAD_SUPER_ATTR(self):
-        """
-        To be continued...
+    def LOAD_SUPER_ATTR(self, name: str, push_null: bool = False):
+        """This opcode implements super(), both in its zero-argument and
+        two-argument forms (e.g. super().method(), super().attr and
+        super(cls, self).method(), super(cls, self).attr).
+
+        It pops three values from the stack (from top of stack down):
+        self, the class, and the global super. If the low bit of namei
+        is set, then a NULL is pushed before the attribute, as in
+        LOAD_ATTR.
+
+        Note: name = co_names[namei >> 2] and push_null are set in
+        parse_byte_and_args()
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_SUPER_ATTR not implemented")
+        super_fn, cls, self_obj = self.vm.popn(3)
+        value = getattr(super_fn(cls, self_obj), name)
+
+        if push_null:
+            self.vm.push(NULL)
+
+        self.vm.push(value)
 
     def LOAD_FAST_AND_CLEAR(self, name):
         """Pushes a reference to the local co_varnames[var_num] onto
@@ -175,12 +254,13 @@ class ByteOp312(ByteOp311):
         has not been initialized) and sets co_varnames[var_num] to
         NULL.
         """
-        value = self.vm.frame.f_locals.get(name, NULL)
-        if value is NULL:
-            self.vm.frame.f_locals[name] = NULL
+        cells = self.vm.frame.cells
+        if cells and name in cells:
+            value, cells[name] = cells[name], Cell()
+        else:
+            value = self.fast_locals.pop(name, NULL)
         self.vm.push(value)
 
-
     # And many more...
 
     # Changed in 3.12...
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9a2df9a..2547237 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -474,6 +474,10 @@ class Frame(object):
                 pass
             pass
 
+        # The iteration variables of inlined comprehensions in 3.12+ code
+        # other than functions.
+        self.hidden_locals = {}
+
         self.block_stack = []
         self.generator = None
         self.version = version
diff --git a/xpython/vm.py b/xpython/vm.py
index 2954f68..ab4e2fb 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -574,6 +574,8 @@ class PyVM(object):
                         namei = f_code.co_names[int_arg >> 1]
                         push_NULL = bool(int_arg & 1)
                         arguments = [namei, push_NULL]
+                    elif bytecode_name == "LOAD_SUPER_ATTR":
+                        arguments = [f_code.co_names[int_arg >> 2], bool(int_arg & 1)]
                     else:
                         arg = f_code.co_names[int_arg]
                         if isinstance(arg, UnicodeForPython3):
-- 
2.43.0


From 03f5e9898ee33abb913b47d19623b4162700164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 37/88] fix: 3.8-3.10 POP_EXCEPT keeps a return value that is
 below the saved exception

---
 xpython/byteop/byteop38.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index 7468e4b..81ef37e 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -87,6 +87,22 @@ class ByteOp38(ByteOp37):
             why = "reraise"
         return why
 
+    # Changed in 3.8: a value to be returned may be below the saved exception.
+    def POP_EXCEPT(self):
+        """
+        Removes one block from the block stack. The popped block must be an
+        exception handler block, as implicitly created when entering an except
+        handler. The three values popped from the frame stack are used to
+        restore the exception state.
+        """
+        block = self.vm.pop_block()
+        if block.type != "except-handler":
+            raise self.vm.PyVMError(
+                f"popped block is not an except handler; is {block}"
+            )
+        tb, value, exctype = self.vm.popn(3)
+        self.vm.exc_info = exctype, value, tb
+
     def CALL_FINALLY(self, delta):
         """Pushes the address of the next instruction onto the stack and
         increments bytecode counter by delta. Used for calling the
-- 
2.43.0


From da961f560c4934bb52189f4d759741c3c3bfe0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 38/88] fix: 2.x hidden parameters are bound by their own name

---
 xpython/stdlib/inspect2.py | 46 +++-----------------------------------
 1 file changed, 3 insertions(+), 43 deletions(-)

diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 983ec6d..2451034 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -7,9 +7,6 @@ import sys
 from collections import namedtuple
 from inspect import ismethod
 
-# For the kinds of specific opcode use we need,
-# all 2.x opcodes are compatible with what is in 2.7
-import xdis.opcodes.opcode_2x.opcode_27 as opc
 from xdis import COMPILER_FLAG_BIT, iscode
 
 ArgSpec = namedtuple("ArgSpec", "args varargs keywords defaults")
@@ -45,47 +42,10 @@ def getargs(co, version) -> Arguments:
     nargs = co.co_argcount
     names = co.co_varnames
     args = list(names[:nargs])
-    step = 0
-
-    # The following acrobatics are for anonymous (tuple) arguments.
-    for i in range(nargs):
-        if args[i][:1] in ("", "."):
-            stack, remain, count = [], [], []
-            while step < len(co.co_code):
-                op = ord(co.co_code[step])
-                step = step + 1
-                if op >= opc.HAVE_ARGUMENT:
-                    opname = opc.opname[op]
-                    value = ord(co.co_code[step]) + ord(co.co_code[step + 1]) * 256
-                    step = step + 2
-                    if opname in ("UNPACK_TUPLE", "UNPACK_SEQUENCE"):
-                        remain.append(value)
-                        count.append(value)
-                    elif opname in ("STORE_FAST", "STORE_DEREF"):
-                        if opname == "STORE_FAST":
-                            stack.append(names[value])
-                        else:
-                            stack.append(co.co_cellvars[value])
-
-                        # Special case for sublists of length 1: def foo((bar))
-                        # doesn't generate the UNPACK_TUPLE bytecode, so if
-                        # `remain` is empty here, we have such a sublist.
-                        if not remain:
-                            stack[0] = [stack[0]]
-                            break
-                        else:
-                            remain[-1] = remain[-1] - 1
-                            while remain[-1] == 0:
-                                remain.pop()
-                                size = count.pop()
-                                stack[-size:] = [stack[-size:]]
-                                if not remain:
-                                    break
-                                remain[-1] = remain[-1] - 1
-                            if not remain:
-                                break
-            args[i] = stack[0]
 
+    # Anonymous (tuple) arguments and the iterator of a generator expression
+    # or a set or dictionary comprehension keep their hidden name, e.g. ".0":
+    # the code of the function itself unpacks it.
     varargs = None
     if co.co_flags & COMPILER_FLAG_BIT["VARARGS"]:
         varargs = co.co_varnames[nargs]
-- 
2.43.0


From def98b606a6b3ba51361983844a66a23f8725c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 39/88] fix: UNPACK_SEQUENCE takes any iterable and checks the
 number of values

---
 xpython/byteop/byteop24.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index d49de9a..a420035 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -433,10 +433,29 @@ class ByteOp24(ByteOpBase):
         """Unpacks TOS into count individual values, which are put onto the
         stack right-to-left.
         """
-        seq = self.vm.pop()
-        for x in reversed(seq):
+        values = self.unpack_values(iter(self.vm.pop()), count)
+        if len(values) < count:
+            raise ValueError(
+                f"need more than {len(values)} value{'' if len(values) == 1 else 's'} "
+                "to unpack"
+            )
+        if len(values) > count:
+            raise ValueError(f"too many values to unpack (expected {count})")
+        for x in reversed(values):
             self.vm.push(x)
 
+    def unpack_values(self, iterator, count: int) -> list:
+        """
+        Returns the values of "iterator", but stops after the first value there
+        is beyond "count" values.
+        """
+        values = []
+        for value in iterator:
+            values.append(value)
+            if len(values) > count:
+                break
+        return values
+
     def DUP_TOPX(self, count: int):
         """
         Duplicate count items, keeping them in the same order. Due to
-- 
2.43.0


From 7ca2c0018773d65e3f9d941187fa211d8d09657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 40/88] fix: assignment with a starred target (UNPACK_EX)

---
 xpython/byteop/byteop32.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index b5afc46..342718a 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -54,6 +54,29 @@ class ByteOp32(ByteOp27):
         a, b = self.vm.popn(2)
         self.vm.push(a, b, a, b)
 
+    def UNPACK_EX(self, counts: int):
+        """Implements assignment with a starred target: unpacks an iterable
+        in TOS into individual values, where the total number of
+        values can be smaller than the number of items in the
+        iterable: one of the new values will be a list of all leftover
+        items.
+
+        The low byte of counts is the number of values before the list
+        value, the high byte of counts the number of values after it.
+        The resulting values are put onto the stack right-to-left.
+        """
+        after, before = divmod(counts, 256)
+        values = list(self.vm.pop())
+        if len(values) < before + after:
+            raise ValueError(
+                "not enough values to unpack "
+                f"(expected at least {before + after}, got {len(values)})"
+            )
+        end = len(values) - after
+        values[before:end] = [values[before:end]]
+        for x in reversed(values):
+            self.vm.push(x)
+
     def POP_EXCEPT(self):
         """
         Removes one block from the block stack. The popped block must be an
-- 
2.43.0


From 432f20370882b0e0b95ff5158e866f37795d0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 41/88] fix: omitted slice bounds are left to the object that
 is sliced

---
 xpython/vm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index ab4e2fb..b81ce6a 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -926,8 +926,10 @@ class PyVM(object):
     # Operators
 
     def sliceOperator(self, op):
-        start = 0
-        end = None  # we will take this to mean end
+        # An omitted bound is None: it is the object that is sliced which
+        # decides what this means.
+        start = None
+        end = None
         op, count = op[:-2], int(op[-1])
         if count == 1:
             start = self.pop()
@@ -937,8 +939,6 @@ class PyVM(object):
             end = self.pop()
             start = self.pop()
         slice_len = self.pop()
-        if end is None:
-            end = len(slice_len)
         if op.startswith("STORE_"):
             slice_len[start:end] = self.pop()
         elif op.startswith("DELETE_"):
-- 
2.43.0


From 50234322af68e7c0ea360d37e27fd1023dde9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 42/88] fix: class methods are called with their class before
 3.11

---
 xpython/byteop/byteop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 8e36caa..2fba5c2 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -167,8 +167,8 @@ class ByteOpBase(object):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
-            # The first parameter must be the correct type.
-            if not isinstance(pos_args[0], func.im_class):
+            # In an unbound method, the first parameter must be the correct type.
+            elif not isinstance(pos_args[0], func.im_class):
                 raise TypeError(
                     "unbound method %s() must be called with %s instance "
                     "as first argument (got %s instance instead)"
-- 
2.43.0


From d6ea8bc88852d1ebfab0b50aa852553cf2035117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 43/88] fix: 3.6+ CALL_FUNCTION with more than 255 arguments

---
 xpython/byteop/byteop36.py     | 17 +++++++++++++++--
 xpython/byteop/byteop36pypy.py |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 2b9c8a6..b20ac55 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -42,8 +42,7 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     """
     returns the name of the function from the code object in the stack
     """
-    name_default, pos_args = divmod(argc, 256)
-    TOS = vm.peek(pos_args + 1)
+    TOS = vm.peek(argc + 1)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
     for attr in ("co_name", "func_name", "__name__"):
         if hasattr(TOS, attr):
@@ -114,6 +113,20 @@ class ByteOp36(ByteOp35):
             self.merge_keyword_args(kwargs, mapping)
         self.vm.push(kwargs)
 
+    def CALL_FUNCTION(self, argc: int):
+        """
+        Calls a callable object with positional arguments. argc indicates
+        the number of positional arguments. The top of the stack
+        contains positional arguments, with the right-most argument on
+        top. Below the arguments is a callable object to call.
+
+        Changed in version 3.6: This opcode is used only for calls with
+        positional arguments; all of argc is their number.
+        """
+        posargs = self.vm.popn(argc)
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, posargs, {})
+
     def CALL_FUNCTION_KW(self, argc: int):
         """
         Calls a callable object with positional (if any) and keyword
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index 6b431f1..3e6984d 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -18,6 +18,7 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
     # Python 3.6 changes the semantics of the below opcodes.
     # However, PyPy 3.6 uses the previous semantics, which we can pull
     # from older Python versions
+    CALL_FUNCTION = ByteOp24.CALL_FUNCTION
     CALL_FUNCTION_KW = ByteOp24.CALL_FUNCTION_KW
     BUILD_MAP_UNPACK_WITH_CALL = ByteOp35.BUILD_MAP_UNPACK_WITH_CALL
     CALL_FUNCTION_VAR = ByteOp35.CALL_FUNCTION_VAR
-- 
2.43.0


From 37e46980b4cc56d44fcd82f823cda7705c74c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 44/88] fix: 3.x function creation takes defaults, annotations
 and names from the right operands

---
 xpython/byteop/byteop32.py | 81 +++++++++++++++-----------------------
 xpython/byteop/byteop33.py | 63 +++++------------------------
 xpython/byteop/byteop34.py | 52 +++++++++---------------
 xpython/pyobj.py           |  2 +-
 4 files changed, 59 insertions(+), 139 deletions(-)

diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 342718a..6542ed2 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -96,6 +96,33 @@ class ByteOp32(ByteOp27):
         later called by CALL_FUNCTION to construct a class."""
         self.vm.push(__build_class__)
 
+    def pop_annotations(self, annotate_count: int) -> dict:
+        """
+        Pops what MAKE_FUNCTION and MAKE_CLOSURE find on top of the defaults:
+        the annotations and, above these, the tuple of the names they are for.
+        """
+        if not annotate_count:
+            return {}
+        annotate_names = self.vm.pop()
+        return dict(zip(annotate_names, self.vm.popn(len(annotate_names))))
+
+    def pop_kwdefaults(self, kw_default_count: int) -> dict:
+        """Pops the pairs of keyword-only parameter name and default value."""
+        pairs = self.vm.popn(2 * kw_default_count)
+        return dict(zip(pairs[::2], pairs[1::2]))
+
+    def pop_function_parameters(self, argc: int) -> tuple:
+        """
+        Pops the operands of MAKE_FUNCTION and MAKE_CLOSURE below the code and
+        the closure: the annotations and below these the positional defaults.
+        The keyword-only defaults are lowest, they are evaluated first.
+        """
+        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
+        annotations = self.pop_annotations(annotate_count)
+        defaults = tuple(self.vm.popn(default_count))
+        kwdefaults = self.pop_kwdefaults(kw_default_count)
+        return defaults, kwdefaults, annotations
+
     def MAKE_CLOSURE(self, argc: int):
         """
         Creates a new function object, sets its ``__closure__`` slot, and
@@ -105,30 +132,8 @@ class ByteOp32(ByteOp27):
         variables. The function asl has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
         closure, code = self.vm.popn(2)
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_parameters(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -138,7 +143,7 @@ class ByteOp32(ByteOp27):
             name=code.co_name,
             code=code,
             globs=globs,
-            argdefs=tuple(defaults),
+            argdefs=defaults,
             closure=closure,
             vm=self.vm,
             kwdefaults=kwdefaults,
@@ -166,33 +171,9 @@ class ByteOp32(ByteOp27):
 
         Changed from Python 2.4.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         code = self.vm.pop()
         name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_names)
-            assert n == len(annotate_objects)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_parameters(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
@@ -202,7 +183,7 @@ class ByteOp32(ByteOp27):
             name=name,
             code=code,
             globs=globs,
-            argdefs=tuple(defaults),
+            argdefs=defaults,
             closure=None,
             vm=self.vm,
             kwdefaults=kwdefaults,
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 38cdd77..76a53ba 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -2,7 +2,6 @@
 """Byte Interpreter operations for Python 3.3
 """
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.pyobj import Function
@@ -23,31 +22,10 @@ class ByteOp33(ByteOp32):
         variables. The function also has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-        code, name = self.vm.popn(2)
+        code, qualname = self.vm.popn(2)
+        name = code.co_name
         closure = self.vm.pop()
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
+        defaults, kwdefaults, annotations = self.pop_function_parameters(argc)
 
         # FIXME: DRY with code in MAKE_FUNCTION
 
@@ -57,11 +35,12 @@ class ByteOp33(ByteOp32):
             name=name,
             code=code,
             globs=globs,
-            argdefs=tuple(defaults),
+            argdefs=defaults,
             closure=closure,
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
@@ -82,35 +61,10 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
-        # The string function name does not seem to be used.
-        # In the 3.4, it is dropped.
-        self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
         name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_objects = self.vm.popn(annotate_count)
-            n = len(annotate_objects)
-            assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        defaults, kwdefaults, annotations = self.pop_function_parameters(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
@@ -120,11 +74,12 @@ class ByteOp33(ByteOp32):
             name=name,
             code=code,
             globs=globs,
-            argdefs=tuple(defaults),
+            argdefs=defaults,
             closure=None,
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
 
         self.vm.push(fn)
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index ebdf10a..6681fb6 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -50,6 +50,18 @@ class ByteOp34(ByteOp33):
     # our own kind of xpython.pyobj.Function object.
     #
 
+    def pop_function_parameters(self, argc: int) -> tuple:
+        """
+        Pops the operands of MAKE_FUNCTION and MAKE_CLOSURE below the code and
+        the closure. Since 3.4 positional defaults are evaluated before, and are
+        below, the keyword-only ones.
+        """
+        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
+        annotations = self.pop_annotations(annotate_count)
+        kwdefaults = self.pop_kwdefaults(kw_default_count)
+        defaults = tuple(self.vm.popn(default_count))
+        return defaults, kwdefaults, annotations
+
     # Python 3.3 docs describe this but seem to follow pre-3.3
     # conventions (which go back to Python 2.x days).
     def MAKE_FUNCTION(self, argc: int):
@@ -67,38 +79,10 @@ class ByteOp34(ByteOp33):
         * the qualified name of the function (at TOS)
         """
 
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
-        name = self.vm.pop()
+        qualname = self.vm.pop()
         code = self.vm.pop()
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_objects)
-            # We can annotate a function return value, but
-            # that does is not a parameter object and not
-            # listed in annotate_objects
-            if annotate_names[-1] == "return":
-                assert n == len(annotate_names) - 1
-            else:
-                assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+        name = code.co_name
+        defaults, kwdefaults, annotations = self.pop_function_parameters(argc)
 
         # FIXME: DRY with code in byteop3{2,6}.py
 
@@ -108,12 +92,12 @@ class ByteOp34(ByteOp33):
             name=name,
             code=code,
             globs=globs,
-            argdefs=tuple(defaults),
+            argdefs=defaults,
             closure=None,
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
-            # FIXME: figure out qualname
+            qualname=qualname,
         )
 
         if (
@@ -125,7 +109,7 @@ class ByteOp34(ByteOp33):
             # function type whereas in earlier version we could get away with
             # our own kind of xpython.pyobj.Function object.
 
-            native_fn = types.FunctionType(code, globs, name, tuple(defaults))
+            native_fn = types.FunctionType(code, globs, name, defaults)
             native_fn.__kwdefaults__ = kwdefaults
             native_fn.__annotations__ = annotations
             self.vm.fn2native[fn] = native_fn
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 2547237..ca391e5 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -157,7 +157,7 @@ class Function:
         if vm.version >= (3, 0):
             self.__annotations__ = annotations
             self.__kwdefaults__ = kwdefaults
-            if vm.version >= (3, 4):
+            if vm.version >= (3, 3):
                 self.__qualname__ = qualname if qualname else self.__name__
             else:
                 assert qualname is None
-- 
2.43.0


From 542f3a0b2735ea80aee4fadb6b3a2fb6d6f6fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 45/88] fix: calling an unbound method without arguments raises
 TypeError

---
 xpython/byteop/byteop.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 2fba5c2..9c2dec6 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -168,14 +168,16 @@ class ByteOpBase(object):
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
             # In an unbound method, the first parameter must be the correct type.
-            elif not isinstance(pos_args[0], func.im_class):
+            elif not pos_args or not isinstance(pos_args[0], func.im_class):
                 raise TypeError(
                     "unbound method %s() must be called with %s instance "
-                    "as first argument (got %s instance instead)"
+                    "as first argument (got %s instead)"
                     % (
                         func.im_func.func_name,
                         func.im_class.__name__,
-                        type(pos_args[0]).__name__,
+                        "%s instance" % type(pos_args[0]).__name__
+                        if pos_args
+                        else "nothing",
                     )
                 )
             func = func.im_func
-- 
2.43.0


From d811eba7aed35d2aab05770cf29833f78e1a5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:41 +0000
Subject: [PATCH 46/88] fix: changed func_code and func_defaults take effect
 like __code__ and __defaults__

---
 xpython/pyobj.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index ca391e5..9ede63f 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -77,11 +77,7 @@ class Function:
     """
 
     __slots__ = [
-        "func_code",  # Python 2.x
-        "func_name",
-        "func_defaults",
-        "func_closure",
-        "__code__",  # Python 3.x
+        "__code__",
         "__name__",
         "__defaults__",
         "__kwdefaults__",
@@ -138,13 +134,12 @@ class Function:
             raise TypeError("Function() argument 6 (vm) must be passed")
 
         # Function field names below change between Python 2.7 and 3.x.
-        # We create attributes for both names. Other code in this file assumes
-        # 2.7ish names, while bytecode for 3.x will use 3.x names.
+        # Properties make these available under the 2.7ish names, too.
         # TODO: be more stringent based on vm version.
-        self.func_code = self.__code__ = code
-        self.func_name = self.__name__ = name or code.co_name
-        self.func_defaults = self.__defaults__ = tuple(argdefs) if argdefs else tuple()
-        self.func_closure = self.__closure__ = closure
+        self.__code__ = code
+        self.__name__ = name or code.co_name
+        self.__defaults__ = tuple(argdefs) if argdefs else tuple()
+        self.__closure__ = closure
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
@@ -225,6 +220,19 @@ class Function:
             # cross version interpreting... FIXME: fix this up
             self._func = None
 
+    # Python 2's names for attributes: assigning to either changes both.
+    func_code = property(
+        lambda self: self.__code__, lambda self, value: setattr(self, "__code__", value)
+    )
+    func_name = property(
+        lambda self: self.__name__, lambda self, value: setattr(self, "__name__", value)
+    )
+    func_defaults = property(
+        lambda self: self.__defaults__,
+        lambda self, value: setattr(self, "__defaults__", value),
+    )
+    func_closure = property(lambda self: self.__closure__)
+
     def __repr__(self) -> str:  # pragma: no cover
         if hasattr(self, "func_name"):
             return f"<Function {self.func_name} at 0x{id(self):08x}>"
-- 
2.43.0


From 10a9235628a6243188804976cbe7b4455009f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:41 +0000
Subject: [PATCH 47/88] fix: keyword arguments may have any name, also self and
 func

---
 xpython/pyobj.py           | 4 ++--
 xpython/stdlib/inspect2.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9ede63f..7dad374 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -249,7 +249,7 @@ class Function:
         else:
             return self
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.has_dot_zero:
             # D'oh! http://bugs.python.org/issue19611 Py2 doesn't know how to
             # inspect set comprehensions, dict comprehensions, or generator
@@ -326,7 +326,7 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.im_self is not None:
             return self.im_func(self.im_self, *args, **kwargs)
         else:
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 2451034..9c5a042 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -76,7 +76,7 @@ def getargspec(func) -> ArgSpec:
 ArgInfo = namedtuple("ArgInfo", "args varargs keywords locals")
 
 
-def getcallargs(func, *positional, **named):
+def getcallargs(func, /, *positional, **named):
     """Get the mapping of arguments to values.
 
     A dict is returned, with keys the function argument names (including the
-- 
2.43.0


From 9b61337675503cac49c3a5496249d2777486aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:41 +0000
Subject: [PATCH 48/88] fix: positional-only parameters cannot be passed by
 keyword

---
 xpython/stdlib/inspect3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 35d5a85..6edaf25 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -236,6 +236,7 @@ def getcallargs(*func_and_positional, **named):
     positional = func_and_positional[1:]
     spec = getfullargspec(func)
     args, varargs, varkw, defaults, kwonlyargs, kwonlydefaults, ann = spec
+    posonly_count = getattr(func.__code__, "co_posonlyargcount", None) or 0
     f_name = func.__name__
     arg2value = {}
 
@@ -251,7 +252,7 @@ def getcallargs(*func_and_positional, **named):
         arg2value[args[i]] = positional[i]
     if varargs:
         arg2value[varargs] = tuple(positional[n:])
-    possible_kwargs = set(args + kwonlyargs)
+    possible_kwargs = set(args[posonly_count:] + kwonlyargs)
     if varkw:
         arg2value[varkw] = {}
     for kw, value in named.items():
-- 
2.43.0


From 5af62594ad1c7028818b6a707f2fb5f5287e8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 49/88] fix: functions carry __globals__ and the module they
 were defined in

---
 xpython/pyobj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 7dad374..b3bec4f 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -144,6 +144,8 @@ class Function:
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
         self.__dict__ = {"version": vm.version, "_vm": vm}
+        self.__globals__ = globs
+        self.__module__ = globs.get("__name__")
 
         self.__doc__ = (
             code.co_consts[0] if hasattr(code, "co_consts") and code.co_consts else None
@@ -304,7 +306,7 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = obj.__doc__
+        self.__doc__ = getattr(func, "__doc__", None)
         self.im_self = obj
         self.im_class = _class
         self.im_func = func
-- 
2.43.0


From 411cfb1a8d0e6a9ce7d2a9569d8df06261c56a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 50/88] fix: bound methods have __self__, __func__, their
 function's doc and compare equal

---
 xpython/pyobj.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index b3bec4f..982858c 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -328,6 +328,18 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
+    # The names since Python 2.6
+    __self__ = property(lambda self: self.im_self)
+    __func__ = property(lambda self: self.im_func)
+
+    def __eq__(self, other):
+        if not isinstance(other, Method):
+            return NotImplemented
+        return self.im_self is other.im_self and self.im_func == other.im_func
+
+    def __hash__(self):
+        return hash((id(self.im_self), self.im_func))
+
     def __call__(self, /, *args, **kwargs):
         if self.im_self is not None:
             return self.im_func(self.im_self, *args, **kwargs)
-- 
2.43.0


From 6a5c26057f682e6608beb24603d9ce757d62f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 51/88] fix: sys.exc_info() is the exception being handled, not
 the one raised last

---
 xpython/byteop/byteop24.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index a420035..fce2fb6 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -140,7 +140,7 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        return self.vm.last_exception
+        return self.vm.exc_info
 
     def fmt_unary_op(vm: PyVM, _=None):
         """
-- 
2.43.0


From 7d48a4134fca5b163542b8cf41f5f75dd59aa9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 52/88] fix: Python 2 raise checks that it got an exception and
 a traceback

---
 xpython/byteop/byteop24.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index fce2fb6..5bf32c1 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -9,6 +9,7 @@ import operator
 import sys
 from collections import namedtuple
 from copy import copy
+from types import TracebackType
 from typing import Any, Optional
 
 from xpython.byteop.byteop import (
@@ -856,6 +857,9 @@ class ByteOp24(ByteOpBase):
         else:
             exctype, val, tb = self.vm.popn(argc) + [None] * (3 - argc)
 
+        if not (tb is None or isinstance(tb, (Traceback, TracebackType))):
+            raise TypeError("raise: arg 3 must be a traceback or None")
+
         while isinstance(exctype, tuple) and exctype:
             exctype = exctype[0]
 
@@ -868,6 +872,11 @@ class ByteOp24(ByteOpBase):
                     val = exctype(*val)
                 else:
                     val = exctype(val)
+                if not isinstance(val, BaseException):
+                    raise TypeError(
+                        f"calling {exctype} should have returned an instance of "
+                        f"BaseException, not {type(val)}"
+                    )
             exctype = type(val)
         elif isinstance(exctype, BaseException):
             if val is not None:
-- 
2.43.0


From 7228966ed234321060fcb4d9ab8584c80ca4b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 53/88] fix: a with statement does not test the exit result
 when there is no exception

---
 xpython/byteop/byteop35.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index be8694e..6d9753f 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -198,9 +198,9 @@ class ByteOp35(ByteOp34):
         exit_result = self.vm.pop()
         exception = self.vm.pop()
         if (
-            exit_result
-            and isinstance(exception, type)
+            isinstance(exception, type)
             and issubclass(exception, BaseException)
+            and exit_result
         ):
             # END_FINALLY leaves the exception handler.
             self.vm.push("silenced")
-- 
2.43.0


From a2e48bde10ed2d1981342d18da169095a9bf7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 54/88] fix: with looks its methods up on the type of the
 manager

---
 xpython/byteop/byteop.py    | 10 ++++++++++
 xpython/byteop/byteop27.py  | 17 +++++++++--------
 xpython/byteop/byteop311.py |  7 ++++---
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 9c2dec6..9a0cef9 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -428,6 +428,16 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
+    def lookup_special(self, obj, name: str):
+        """Look up a special method the way the interpreter does: on the type of `obj`"""
+        for cls in type(obj).__mro__:
+            if name in cls.__dict__:
+                method = cls.__dict__[name]
+                if hasattr(type(method), "__get__"):
+                    return method.__get__(obj, type(obj))
+                return method
+        raise AttributeError(name)
+
     def exception_match(self, exc_type, classes) -> bool:
         """Whether an `except classes` clause catches exceptions of type `exc_type`"""
         if self.version_info >= (3, 0):
diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c7aba2a..465f2b9 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -119,26 +119,27 @@ class ByteOp27(ByteOp26):
         """
         context_manager = self.vm.pop()
 
+        exit_method = self.lookup_special(context_manager, "__exit__")
+        enter_method = self.lookup_special(context_manager, "__enter__")
+
         # Make sure __enter__ and __exit__ functions in context_manager are
         # converted to our Function type, so we can interpret them.
         # Note though that built-in functions can't be traced.
         if self.version[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__exit__
+            exit_method
         ):
             try:
                 exit_method = self.convert_method_native_func(
-                    self.vm.frame, context_manager.__exit__
+                    self.vm.frame, exit_method
                 )
             except Exception:
-                exit_method = context_manager.__exit__
-        else:
-            exit_method = context_manager.__exit__
+                pass
         self.vm.push(exit_method)
         if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2] and not inspect.isbuiltin(
-            context_manager.__enter__
+            enter_method
         ):
-            self.convert_method_native_func(self.vm.frame, context_manager.__enter__)
-        finally_block = context_manager.__enter__()
+            self.convert_method_native_func(self.vm.frame, enter_method)
+        finally_block = enter_method()
         if self.version_info[:2] < (3, 0):
             self.vm.push_block("with", delta)
         else:
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 2eefb76..830cfd7 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -664,12 +664,13 @@ class ByteOp311(ByteOp310):
         context_manager = self.vm.pop()
         methods = []
         for name in ("__enter__", "__exit__"):
-            if not hasattr(context_manager, name):
+            try:
+                methods.append(self.lookup_special(context_manager, name))
+            except AttributeError:
                 raise TypeError(
                     f"{type(context_manager).__name__!r} object does not support "
                     "the context manager protocol"
-                )
-            methods.append(getattr(context_manager, name))
+                ) from None
         enter_method, exit_method = methods
         self.vm.push(exit_method)
         self.vm.push(enter_method())
-- 
2.43.0


From 866e50fa06a4ae6c56dbd3893ea2a472b13c19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 55/88] fix: unsupported versions are refused with PyVMError

---
 xpython/byteop/__init__.py     | 8 +++++---
 xpython/byteop/byteop32pypy.py | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 48a8317..28170a2 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -28,7 +28,6 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27(vm)
             else:
-                assert python_version == (2, 6)
                 from xpython.byteop.byteop26 import ByteOp26
 
                 byteop = ByteOp26(vm)
@@ -42,7 +41,8 @@ def get_byteop(vm, python_version, python_implementation):
                 from xpython.byteop.byteop24 import ByteOp24
 
                 byteop = ByteOp24(vm)
-                pass
+            else:
+                raise vm.PyVMError(f"Version {python_version} not supported")
             pass
     else:
         # 3.0 or greater
@@ -68,7 +68,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                 byteop = ByteOp34(vm)
             else:
-                raise vm.VMEerror(f"Version {python_version} not supported")
+                raise vm.PyVMError(f"Version {python_version} not supported")
         else:
             if python_version == (3, 5):
                 if is_pypy:
@@ -138,4 +138,6 @@ def get_byteop(vm, python_version, python_implementation):
                 raise vm.PyVMError(f"Version {python_version} not supported")
             pass
         pass
+    if is_pypy and not byteop.is_pypy:
+        raise vm.PyVMError(f"PyPy version {python_version} not supported")
     return byteop
diff --git a/xpython/byteop/byteop32pypy.py b/xpython/byteop/byteop32pypy.py
index 21472e5..d4ccda9 100644
--- a/xpython/byteop/byteop32pypy.py
+++ b/xpython/byteop/byteop32pypy.py
@@ -7,4 +7,5 @@ from xpython.byteop.byteoppypy import ByteOpPyPy
 class ByteOp32PyPy(ByteOp32, ByteOpPyPy):
     def __init__(self, vm):
         super(ByteOp32PyPy, self).__init__(vm)
+        self.is_pypy = True
         self.version = "3.2.6 (x-python)\n[PyPy]"
-- 
2.43.0


From f6b8544916940eed6d8e9ab0907e976df24864ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 56/88] fix: PRINT_EXPR shows the value with sys.displayhook,
 in Python 3 too

---
 xpython/byteop/byteop24.py  | 3 ++-
 xpython/byteop/byteop312.py | 5 ++++-
 xpython/byteop/byteop32.py  | 1 -
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 5bf32c1..9aa4de7 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -266,7 +266,8 @@ class ByteOp24(ByteOpBase):
 
     # Only used in the interactive interpreter, not in modules.
     def PRINT_EXPR(self):
-        print(self.vm.pop())
+        """Shows the value of an expression statement of interactive mode."""
+        sys.displayhook(self.vm.pop())
 
     def PRINT_ITEM(self):
         item = self.vm.pop()
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index d59afa4..fefc26b 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -73,7 +73,10 @@ class ByteOp312(ByteOp311):
         as the argument and sets STACK[-1] to the result. Used to
         implement functionality that is not performance critical.
         """
-        if oparg == 2:  # INTRINSIC_IMPORT_STAR
+        if oparg == 1:  # INTRINSIC_PRINT
+            self.PRINT_EXPR()
+            self.vm.push(None)
+        elif oparg == 2:  # INTRINSIC_IMPORT_STAR
             self.IMPORT_STAR()
             self.vm.push(None)
         elif oparg == 3:  # INTRINSIC_STOPITERATION_ERROR
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 6542ed2..6f113aa 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -23,7 +23,6 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 class ByteOp32(ByteOp27):
     # Opcodes this version no longer has. These are masked here rather than
     # deleted from the parent classes, since other versions still use those.
-    PRINT_EXPR = None
     PRINT_ITEM = None
     PRINT_ITEM_TO = None
     PRINT_NEWLINE = None
-- 
2.43.0


From f23dae609fc99c19878af9c94318793618bb5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 57/88] fix: imports use the __import__ of the program, and pop
 their operands in Python 2.4 and 2.5

---
 xpython/byteop/byteop24.py | 22 ++++++++++++++--------
 xpython/byteop/byteop25.py | 11 +++++++++++
 xpython/byteop/byteop26.py | 13 +------------
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 9aa4de7..b14b851 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -22,8 +22,6 @@ from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
-import importlib
-import_fn = importlib.__import__
 
 Version_info = namedtuple("version_info", "major minor micro releaselevel serial")
 
@@ -568,18 +566,26 @@ class ByteOp24(ByteOpBase):
 
         Note: name = co_names[namei] set in parse_byte_and_args()
 
-        Changed in 2.6
+        Changed in 2.5
+        """
+        fromlist = self.vm.pop()
+        self.vm.push(self.import_module(name, fromlist, 0))
+
+    def import_module(self, name: str, fromlist, level: int):
+        """
+        Calls the __import__() function of the running program.
         """
         frame = self.vm.frame
+        try:
+            import_fn = frame.f_builtins["__import__"]
+        except KeyError:
+            raise ImportError("__import__ not found")
 
-        module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=None, level=0
-        )
+        module = import_fn(name, frame.f_globals, frame.f_locals, fromlist, level)
 
         if module is sys:
             module = self.setup_sys_module()
-
-        self.vm.push(module)
+        return module
 
     def IMPORT_FROM(self, name):
         """
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 9fe3fba..a783def 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -14,6 +14,17 @@ class ByteOp25(ByteOp24):
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
+    def IMPORT_NAME(self, name):
+        """
+        Imports the module co_names[namei]. TOS and TOS1 are popped and
+        provide the fromlist and level arguments of __import__().
+        """
+        level, fromlist = self.vm.popn(2)
+
+        # The default level is -1: try relative imports before absolute
+        # imports. __import__() has no such level any more.
+        self.vm.push(self.import_module(name, fromlist, max(level, 0)))
+
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. On top of
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index 17ab974..89ff35d 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -4,15 +4,8 @@
 Note: this is subclassed so later versions may use operations from here.
 """
 
-import sys
-
 import xpython.stdlib
 
-try:
-    import importlib
-except ImportError:
-    importlib = None
-
 from xpython.byteop.byteop import fmt_binary_op
 from xpython.byteop.byteop24 import Version_info, fmt_make_function
 from xpython.byteop.byteop25 import ByteOp25
@@ -42,7 +35,6 @@ class ByteOp26(ByteOp25):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         level, fromlist = self.vm.popn(2)
-        frame = self.vm.frame
 
         # Should we replace import "name" with a compatibility version?
         if name in xpython.stdlib.__all__:
@@ -77,9 +69,6 @@ class ByteOp26(ByteOp25):
             level = 0
 
         if module is None:
-            module = __import__(name, frame.f_globals, frame.f_locals, fromlist, level)
-
-        if module is sys:
-            module = self.setup_sys_module()
+            module = self.import_module(name, fromlist, level)
 
         self.vm.push(module)
-- 
2.43.0


From e482ccd29aafce230843b7b479dc4ade8a662132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 58/88] fix: importing sys does not bind or use a global called
 sys

---
 xpython/byteop/byteop.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 9a0cef9..bd64498 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -129,6 +129,10 @@ class ByteOpBase(object):
         self.is_pypy = vm.is_pypy
         self.PyVMError = self.vm.PyVMError
 
+        # The program's copy of the "sys" module, and the outermost frame
+        # of the run it was made for.
+        self.sys_frame = self.sys_module = None
+
         # This is used in `vm.format_instruction()` to pick out stack elements
         # to better show operand(s) of opcode.
         self.stack_fmt = {}
@@ -593,20 +597,21 @@ class ByteOpBase(object):
             to.softspace = 0
 
     def setup_sys_module(self) -> types.ModuleType:
-        """If this has not previously been done, make a *copy* of the
-        running sys module, add it in the frame, and adapt it for the
-        interpreter we are simulating.
+        """If this has not previously been done in this run, make a *copy*
+        of the running sys module, and adapt it for the interpreter we are
+        simulating.
         """
 
-        if "sys" not in self.vm.frame.f_globals:
+        main_frame = self.vm.frames[0]
+        if self.sys_frame is not main_frame:
             sys_module = copy_module(sys)
-            self.vm.frame.f_globals["sys"] = sys_module
+            self.sys_frame, self.sys_module = main_frame, sys_module
 
             sys_module.hexversion = self.hexversion
             sys_module.version_info = self.version_info
             sys_module.exc_info = self.exc_info
         else:
-            sys_module = self.vm.frame.f_globals["sys"]
+            sys_module = self.sys_module
         return sys_module
 
     def unaryOperator(self, op):
-- 
2.43.0


From ac7b830f7a2b409df18be44e418df44e2769d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 59/88] fix: star imports obey __all__ and the module namespace

---
 xpython/byteop/byteop24.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index b14b851..178a0a7 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -338,11 +338,15 @@ class ByteOp24(ByteOpBase):
         TOS to the local namespace. The module is popped after loading all
         names. This opcode implements from module import *.
         """
-        # TODO: this doesn't use __all__ properly.
         mod = self.vm.pop()
-        for attr in dir(mod):
-            if attr[0] != "_":
-                self.vm.frame.f_locals[attr] = getattr(mod, attr)
+        names = getattr(mod, "__all__", self)
+        if names is self:
+            if not hasattr(mod, "__dict__"):
+                raise ImportError("from-import-* object has no __dict__ and no __all__")
+            names = [attr for attr in mod.__dict__ if not attr.startswith("_")]
+
+        for attr in names:
+            self.vm.frame.f_locals[attr] = getattr(mod, attr)
 
     def EXEC_STMT(self):
         """
-- 
2.43.0


From c210438112568613dd87bdb8212aafd48eb8b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 60/88] fix: from-imports look a name up once and finish
 circular imports

---
 xpython/byteop/byteop24.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 178a0a7..67c0ef4 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -600,19 +600,22 @@ class ByteOp24(ByteOpBase):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         mod = self.vm.top
-        if not hasattr(mod, name):
-            if not hasattr(mod, "__file__"):
+        value = getattr(mod, name, self)
+        if value is self:
+            mod_name = getattr(mod, "__name__", "<unknown module name>")
+            full_name = f"{mod_name}.{name}"
+            if self.version_info[:2] >= (3, 5) and full_name in sys.modules:
+                # The submodule is being imported right now.
+                value = sys.modules[full_name]
+            elif not hasattr(mod, "__file__"):
                 # Builtins don't have a __file__ attribute
-                value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
+                raise ImportError(f"cannot import name '{name}' from '{mod_name}'")
             else:
-                value = ImportError(
-                    f"cannot import name '{name}' from '{mod.__name__} ({mod.__file__}"
+                raise ImportError(
+                    f"cannot import name '{name}' from '{mod_name}' ({mod.__file__})"
                 )
 
-            self.vm.last_exception = (ImportError, value, None)
-            return "exception"
-
-        self.vm.push(getattr(mod, name))
+        self.vm.push(value)
 
     # Jumps
 
-- 
2.43.0


From 3ab709eca677ffe73c3167e1a0d29fc0fca0f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 61/88] fix: LOAD_METHOD raises what the attribute lookup
 raises

---
 xpython/byteop/byteop37.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index cf6d22e..147f35b 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -79,16 +79,11 @@ class ByteOp37(ByteOp36):
         """
         TOS = self.vm.pop()
 
-        if hasattr(TOS, name):
-            # FIXME: Figure out how to get an unbound method and self from a callable function.
-            # Until then, we need to push NULL and the callable (the default slow path).
-            function = getattr(TOS, name)
-            if not callable(function):
-                raise self.vm.PyVMError(f"LOAD_METHOD {name} off of {TOS} of type {type(TOS)} is not callable.")
-            self.vm.push(NULL)
-            self.vm.push(function)
-        else:
-            raise self.vm.PyVMError(f"LOAD_METHOD can't find {name} off of {TOS} of type {type(TOS)}")
+        # FIXME: Figure out how to get an unbound method and self from a callable function.
+        # Until then, we need to push NULL and the callable (the default slow path).
+        function = getattr(TOS, name)
+        self.vm.push(NULL)
+        self.vm.push(function)
 
     def CALL_METHOD(self, count):
         """Calls a method. argc is the number of positional
-- 
2.43.0


From 570431a8ca768699e9c64acb6c7bd8d8615140cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 62/88] fix: calling an object with attributes im_func and
 im_self calls that object

---
 xpython/byteop/byteop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index bd64498..31094a0 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, copy_module
+from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -167,7 +167,7 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
-        if hasattr(func, "im_func"):
+        if isinstance(func, Method):
             # Methods get self as an implicit first parameter.
             if func.im_self is not None:
                 pos_args.insert(0, func.im_self)
-- 
2.43.0


From de7d19ab73af5333b75427aeb3b05290d81ef428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:37 +0000
Subject: [PATCH 63/88] fix: methods have the attributes of their function, and
 no others can be set

---
 xpython/pyobj.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 982858c..d9c6122 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -306,20 +306,26 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = getattr(func, "__doc__", None)
-        self.im_self = obj
-        self.im_class = _class
-        self.im_func = func
-
-        if hasattr(func, "func_code"):
-            self.func_code = func.func_code
-        if hasattr(func, "__name__"):
-            self.__name__ = func.__name__
-        if hasattr(func, "__code__"):
-            self.__code__ = func.__code__
-
-        # This causes failure
-        # self.__name__ = obj.__name__
+        # Not set one by one, since a method's attributes cannot be assigned.
+        self.__dict__.update(
+            im_self=obj,
+            im_class=_class,
+            im_func=func,
+            __doc__=getattr(func, "__doc__", None),
+            __module__=getattr(func, "__module__", None),
+        )
+
+    def __getattr__(self, name):
+        """A method has the attributes of its function"""
+        if name == "im_func":
+            raise AttributeError(name)
+        return getattr(self.im_func, name)
+
+    def __setattr__(self, name, value):
+        raise AttributeError(f"'method' object has no attribute '{name}'")
+
+    def __delattr__(self, name):
+        raise AttributeError(f"'method' object has no attribute '{name}'")
 
     def __repr__(self) -> str:  # pragma: no cover
         name = f"{self.im_class.__name__}.{self.im_func.func_name}"
-- 
2.43.0


From 87f1a4a28687b64bc38a8451a4ed0cc0874c72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 64/88] fix: print statements space items on every stream, and
 use the program's sys.stdout

---
 xpython/byteop/byteop.py | 52 +++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 31094a0..58cd898 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -558,9 +558,31 @@ class ByteOpBase(object):
             raise NameError(f"name '{name}' is not defined")
         return val
 
+    def print_stream(self):
+        """The stream the program's print statements write to. Normally this
+        is that of the running sys module, which may change while the program
+        runs. However the program's own "sys" module is a copy; see
+        setup_sys_module().
+        """
+        stdout = sys.stdout
+        if self.sys_frame is self.vm.frames[0]:
+            stdout = self.sys_module.stdout
+            if stdout is self.sys_stdout:
+                stdout = sys.stdout
+        return stdout
+
+    def softspace(self, to, value: int):
+        """Set the softspace attribute of stream `to`, and return what it was"""
+        old_value = getattr(to, "softspace", 0)
+        try:
+            to.softspace = value
+        except (AttributeError, TypeError):
+            pass
+        return old_value
+
     def print_item(self, item, to=None):
         if to is None:
-            to = sys.stdout
+            to = self.print_stream()
 
         # Python 2ish has file.softspace whereas
         # Python 3ish doesn't. Here is the doc on softspace:
@@ -577,24 +599,21 @@ class ByteOpBase(object):
         # Note This attribute is not used to control the print
         # statement, but to allow the implementation of print to keep
         # track of its internal state.
-        if hasattr(to, "softspace") and to.softspace:
-            print(" ", end="", file=to)
-            to.softspace = 0
-        print(item, end="", file=to)
-
-        if hasattr(to, "softspace"):
-            if isinstance(item, str):
-                if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
-                    to.softspace = 1
-            else:
-                to.softspace = 1
+        if self.softspace(to, 0):
+            to.write(" ")
+        to.write(str(item))
+
+        if isinstance(item, str):
+            if (not item) or (not item[-1].isspace()) or (item[-1] == " "):
+                self.softspace(to, 1)
+        else:
+            self.softspace(to, 1)
 
     def print_newline(self, to=None):
         if to is None:
-            to = sys.stdout
-        print("", file=to)
-        if hasattr(to, "softspace"):
-            to.softspace = 0
+            to = self.print_stream()
+        to.write("\n")
+        self.softspace(to, 0)
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done in this run, make a *copy*
@@ -606,6 +625,7 @@ class ByteOpBase(object):
         if self.sys_frame is not main_frame:
             sys_module = copy_module(sys)
             self.sys_frame, self.sys_module = main_frame, sys_module
+            self.sys_stdout = sys.stdout
 
             sys_module.hexversion = self.hexversion
             sys_module.version_info = self.version_info
-- 
2.43.0


From 95845ee7f281ae27c28ea34b9f97b919909269e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 65/88] fix: a traced run reports the program's failure

---
 xpython/execfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 0b1cc7d..72f1ddb 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -82,7 +82,7 @@ def exec_code_object(
             format_instruction_func=format_instruction,
         )
         try:
-            vm.run_code(code, f_globals=env)
+            rc = vm.run_code(code, f_globals=env)
         except PyVMUncaughtException:
             vm.last_exception = event_arg = (
                 vm.last_exception[0],
-- 
2.43.0


From 5e6a503dca0398d8f6574e1a2c45d675f02cda6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 66/88] fix: running a string reports the program's failure

---
 xpython/execfile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 72f1ddb..d6fe68f 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -328,11 +328,11 @@ def run_python_string(
         python_version = PYTHON_VERSION_TRIPLE
 
         # Execute the source string.
-        exec_code_object(
+        rc = exec_code_object(
             code,
             main_mod.__dict__,
             python_version,
-            IS_PYPY,
+            PYTHON_IMPLEMENTATION,
             callback,
             format_instruction=format_instruction,
         )
@@ -344,6 +344,8 @@ def run_python_string(
         # Restore the old argv and path
         sys.path[0] = old_path0
 
+    sys.exit(rc)
+
 
 if __name__ == "__main__":
     if len(sys.argv) < 2:
-- 
2.43.0


From f8e1185d9c977d7806f70768ff8cc402c0df45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 67/88] fix: a traced interpreter can be made with the default
 implementation

---
 xpython/vmtrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 34c95e6..78c5521 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -4,10 +4,11 @@ This can be used in a debugger or profiler.
 
 import logging
 
-from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
+from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
+from xdis.version_info import PYTHON_IMPLEMENTATION
 
 from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
@@ -78,14 +79,14 @@ class PyVMTraced(PyVM):
         self,
         callback,
         python_version: tuple[int, ...]=PYTHON_VERSION_TRIPLE,
-        is_pypy: bool=IS_PYPY,
+        python_implementation=PYTHON_IMPLEMENTATION,
         vmtest_testing: bool=False,
         event_flags: int=PyVMEVENT_ALL,
         format_instruction_func=format_instruction,
     ) -> None:
         super().__init__(
             python_version,
-            is_pypy,
+            python_implementation,
             vmtest_testing,
             format_instruction_func=format_instruction_func,
         )
-- 
2.43.0


From 0da498db6a85e40189d3c13e151d1bdd7e8eff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 68/88] fix: running a program restores the host's whole argv
 and import path

---
 xpython/execfile.py | 59 +++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index d6fe68f..de3d892 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -128,6 +128,24 @@ def rsplit1(s, sep):
     return sep.join(parts[:-1]), parts[-1]
 
 
+def save_host_state():
+    """Return what running a program changes in the host Python: the module
+    __main__, the arguments and the import path, for restore_host_state()."""
+    return sys.modules["__main__"], sys.argv, list(sys.argv), sys.path, list(sys.path)
+
+
+def restore_host_state(state) -> None:
+    """Put back what save_host_state() returned."""
+    main_mod, argv, argv_items, path, path_items = state
+    sys.modules["__main__"] = main_mod
+
+    # The program may have changed the lists, or put others in their place.
+    sys.argv = argv
+    argv[:] = argv_items
+    sys.path = path
+    path[:] = path_items
+
+
 def run_python_module(modulename, args):
     """Run a python module, as though with ``python -m name args...``.
 
@@ -190,25 +208,25 @@ def run_python_file(
     for custom tracing or statistics gathering.
     """
     # Create a module to serve as __main__
-    old_main_mod = sys.modules["__main__"]
     main_mod = new_module("__main__")
-    sys.modules["__main__"] = main_mod
     main_mod.__file__ = filename
     if package:
         main_mod.__package__ = package
     main_mod.__builtins__ = BUILTINS
 
-    # set sys.argv and the first path element properly.
-    old_argv = sys.argv
-    old_path0 = sys.path[0]
-
     # note: the type of args is na tuple; we want type(sys.argv) == list
-    sys.argv = [filename] + list(args)
+    new_argv = [filename] + list(args)
 
     if package:
-        sys.path[0] = ""
+        new_path0 = ""
     else:
-        sys.path[0] = osp.abspath(osp.dirname(filename))
+        new_path0 = osp.abspath(osp.dirname(filename))
+
+    # set sys.argv and the first path element properly.
+    old_state = save_host_state()
+    sys.modules["__main__"] = main_mod
+    sys.argv = new_argv
+    sys.path[:1] = [new_path0]
 
     python_implementation = PYTHON_IMPLEMENTATION
     try:
@@ -285,12 +303,8 @@ def run_python_file(
         )
 
     finally:
-        # Restore the old __main__
-        sys.modules["__main__"] = old_main_mod
-
-        # Restore the old argv and path
-        sys.argv = old_argv
-        sys.path[0] = old_path0
+        # Restore the old __main__, argv and path
+        restore_host_state(old_state)
 
     sys.exit(rc)
 
@@ -300,17 +314,17 @@ def run_python_string(
 ):
     """Run a python string as if it were the main program on the command line."""
     # Create a module to serve as __main__
-    old_main_mod = sys.modules["__main__"]
     main_mod = new_module("__main__")
-    sys.modules["__main__"] = main_mod
     fake_path = main_mod.__file__ = f"<string {source[:20]}>"
     if package:
         main_mod.__package__ = package
     main_mod.__builtins__ = BUILTINS
 
     # Set sys.argv and the first path element properly.
-    old_path0 = sys.path[0]
-    sys.argv = [fake_path] + list(args)
+    new_argv = [fake_path] + list(args)
+    old_state = save_host_state()
+    sys.modules["__main__"] = main_mod
+    sys.argv = new_argv
 
     try:
         supported_versions, mess = get_supported_versions(IS_PYPY, is_bytecode=False)
@@ -338,11 +352,8 @@ def run_python_string(
         )
 
     finally:
-        # Restore the old __main__
-        sys.modules["__main__"] = old_main_mod
-
-        # Restore the old argv and path
-        sys.path[0] = old_path0
+        # Restore the old __main__, argv and path
+        restore_host_state(old_state)
 
     sys.exit(rc)
 
-- 
2.43.0


From f39f09e03b95f7e21bd761bf02980d4453ec5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 69/88] fix: running a module finds the module

---
 xpython/__main__.py |  1 +
 xpython/execfile.py | 69 +++++++++++++++++++++------------------------
 2 files changed, 33 insertions(+), 37 deletions(-)

diff --git a/xpython/__main__.py b/xpython/__main__.py
index 52b5193..21bcb61 100644
--- a/xpython/__main__.py
+++ b/xpython/__main__.py
@@ -22,6 +22,7 @@ def version_message() -> str:
 @click.option(
     "-m",
     "--module",
+    is_flag=True,
     default=False,
     help="PATH is a module name, not a Python main program",
 )
diff --git a/xpython/execfile.py b/xpython/execfile.py
index de3d892..a0258b7 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -146,51 +146,46 @@ def restore_host_state(state) -> None:
     path[:] = path_items
 
 
-def run_python_module(modulename, args):
+def run_python_module(
+    modulename, args, callback=None, format_instruction=format_instruction
+):
     """Run a python module, as though with ``python -m name args...``.
 
     `modulename` is the name of the module, possibly a dot-separated name.
-    `args` is the argument array to present as sys.argv, including the first
-    element naming the module being executed.
+    `args` are the arguments to present in sys.argv after the first element,
+    which names the file of the module being executed.
 
     """
-    openfile = None
-    glo, loc = globals(), locals()
     try:
-        try:
-            # Search for the module - inside its parent package, if any - using
-            # standard import mechanics.
-            if "." in modulename:
-                packagename, name = rsplit1(modulename, ".")
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-            else:
-                packagename, name = None, modulename
-                searchpath = None  # "top-level search" in imp.find_module()
-            openfile, pathname, _ = find_module(name, searchpath)
-
-            # Complain if this is a magic non-file module.
-            if openfile is None and pathname is None:
-                raise NoSourceError(f"module does not live in a file: {modulename!r}")
-
-            # If `modulename` is actually a package, not a mere module, then we
-            # pretend to be Python 2.7 and try running its __main__.py script.
-            if openfile is None:
-                packagename = modulename
-                name = "__main__"
-                package = __import__(packagename, glo, loc, ["__path__"])
-                searchpath = package.__path__
-                openfile, pathname, _ = find_module(name, searchpath)
-        except ImportError:
-            _, err, _ = sys.exc_info()
-            raise NoSourceError(str(err))
-    finally:
-        if openfile:
-            openfile.close()
+        # Search for the module - inside its parent package, if any - using
+        # standard import mechanics.
+        packagename = rsplit1(modulename, ".")[0] or None
+        spec = find_module(modulename)
+
+        # If `modulename` is actually a package, not a mere module, then we
+        # pretend to be Python 2.7 and try running its __main__.py script.
+        if spec is not None and spec.submodule_search_locations is not None:
+            packagename = modulename
+            modulename += ".__main__"
+            spec = find_module(modulename)
+    except (ImportError, ValueError):
+        _, err, _ = sys.exc_info()
+        raise NoSourceError(str(err))
+
+    # Complain if there is none or this is a magic non-file module.
+    if spec is None:
+        raise NoSourceError(f"No module named {modulename!r}")
+    if not spec.has_location:
+        raise NoSourceError(f"module does not live in a file: {modulename!r}")
 
     # Finally, hand the file off to run_python_file for execution.
-    args[0] = pathname
-    run_python_file(pathname, args, package=packagename)
+    run_python_file(
+        spec.origin,
+        args,
+        package=packagename,
+        callback=callback,
+        format_instruction=format_instruction,
+    )
 
 
 def run_python_file(
-- 
2.43.0


From 6b9c5074732179b1cd30cde8b32d206dd19cea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 70/88] fix: an uncaught exception is reported whatever its
 text

---
 xpython/vm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index b81ce6a..21754d1 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -429,10 +429,14 @@ class PyVM(object):
         exc_type, exc_value = self.last_exception[:2]
         try:
             exc_text = "" if exc_value is None else str(exc_value)
-        except Exception:
+        except BaseException:
             exc_text = "<exception str() failed>"
         exc_name = getattr(exc_type, "__name__", str(exc_type))
-        print(f"{exc_name}: {exc_text}" if exc_text else exc_name)
+        last_line = f"{exc_name}: {exc_text}" if exc_text else exc_name
+        try:
+            print(last_line)
+        except UnicodeError:
+            print(last_line.encode("ascii", "backslashreplace").decode("ascii"))
 
     # This is the main entry point
     def run_code(self, code, f_globals=None, f_locals=None, toplevel=True) -> Any:
-- 
2.43.0


From ef557325b921762de53c08d7d402f4401114c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 71/88] fix: a call that runs out of stack space leaves the
 interpreter in its caller

---
 xpython/vm.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 21754d1..b1a0a9c 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -387,6 +387,15 @@ class PyVM(object):
         else:
             self.frame = None
 
+    def pop_frames_to(self, frame, exc_info):
+        """Make `frame` the current frame again, and `exc_info` the exception
+        being handled in it. The frames it called can't leave properly when the
+        host Python interrupts the interpreter, as for lack of stack space."""
+        if self.frame is not frame:
+            while self.frames and self.frame is not frame:
+                self.pop_frame()
+            self.exc_info = exc_info
+
     def print_frames(self):
         """Print the call stack for debugging. Note that the
         format exactly the same as in traceback.print_tb()
@@ -449,8 +458,13 @@ class PyVM(object):
         This matters when this is called to interpret eval().
         """
         frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
+        caller, exc_info = self.frame, self.exc_info
         try:
-            self.eval_frame(frame)
+            try:
+                self.eval_frame(frame)
+            except BaseException:
+                self.pop_frames_to(caller, exc_info)
+                raise
         except PyVMUncaughtException:
             if self.last_traceback is not None:
                 print("Traceback (most recent call last):")
@@ -652,6 +666,7 @@ class PyVM(object):
         why = None
         self.in_exception_processing = False
         byteop = self.byteop
+        frame, exc_info = self.frame, self.exc_info
         try:
             if bytecode_name.startswith("UNARY_"):
                 byteop.unaryOperator(bytecode_name[6:])
@@ -694,6 +709,7 @@ class PyVM(object):
 
         except BaseException:
             # Deal with exceptions encountered while executing the op.
+            self.pop_frames_to(frame, exc_info)
             self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
 
-- 
2.43.0


From 742c2722880f3b0c56cced9162cffb765773edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 72/88] fix: running out of stack space in binding arguments is
 not a TypeError

---
 xpython/pyobj.py           | 7 ++++++-
 xpython/stdlib/inspect3.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d9c6122..dddb998 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -263,7 +263,12 @@ class Function:
             # Perhaps this branch can go and we just use the others.
             # It will require a *lot* more code from inspect.py to be added:
             # classes Signature, Parameter, etc.
-            callargs = inspect.getcallargs(self._func, *args, **kwargs)
+            try:
+                callargs = inspect.getcallargs(self._func, *args, **kwargs)
+            except TypeError as e:
+                if isinstance(e.__cause__, RecursionError):
+                    raise e.__cause__
+                raise
 
             # The problem with the above is that we are testing with self._func
             # the function may have changed dynamically.
diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 6edaf25..c4f6e3e 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -352,6 +352,8 @@ def getfullargspec(func):
         sig = _signature_from_callable(
             func, follow_wrapper_chains=False, skip_bound_arg=False, sigcls=Signature
         )
+    except RecursionError:
+        raise
     except Exception:
         # Most of the times 'signature' will raise ValueError.
         # But, it can also raise AttributeError, and, maybe something
-- 
2.43.0


From b0f9a6e9d95a8e3ad56a9b636c2884eaa4ab857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 73/88] fix: a traceback lists the frame of every active call

---
 xpython/byteop/byteop24.py | 9 ++-------
 xpython/pyobj.py           | 6 +++---
 xpython/vm.py              | 6 ++++--
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 67c0ef4..78a2143 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -152,7 +152,7 @@ class ByteOp24(ByteOpBase):
         tb = None
 
         while frame:
-            next_tb = Traceback24(copy(frame))
+            next_tb = Traceback24(copy(frame), tb)
             tb = next_tb
             frame = frame.f_back
         return tb
@@ -929,12 +929,7 @@ class ByteOp24(ByteOpBase):
         off the stack, calls the callable object with those arguments,
         and pushes the return value returned by the callable object.
         """
-        try:
-            return self.call_function(argc, var_args=[], keyword_args={})
-        except TypeError as exc:
-            tb = self.vm.last_traceback = self.traceback_from_frame()
-            self.vm.last_exception = (TypeError, exc, tb)
-            return "exception"
+        return self.call_function(argc, var_args=[], keyword_args={})
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index dddb998..874532a 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -551,8 +551,8 @@ class Frame(object):
 
 
 class Traceback:
-    def __init__(self, frame) -> None:
-        self.tb_next = frame.f_back
+    def __init__(self, frame, tb_next=None) -> None:
+        self.tb_next = tb_next
         self.tb_lasti = frame.f_lasti
         self.tb_lineno = frame.f_lineno
         self.tb_frame = frame
@@ -582,7 +582,7 @@ def traceback_from_frame(frame):
 
     while frame:
         copy_frame = copy(frame)
-        next_tb = Traceback(copy_frame)
+        next_tb = Traceback(copy_frame, tb)
         tb = next_tb
         frame = frame.f_back
     return tb
diff --git a/xpython/vm.py b/xpython/vm.py
index b1a0a9c..71bebf9 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -710,8 +710,11 @@ class PyVM(object):
         except BaseException:
             # Deal with exceptions encountered while executing the op.
             self.pop_frames_to(frame, exc_info)
-            self.last_traceback = byteop.traceback_from_frame()
+            last_exception = self.last_exception
             self.last_exception = sys.exc_info()
+            if not last_exception or last_exception[1] is not self.last_exception[1]:
+                # Not an exception which comes out of a call
+                self.last_traceback = byteop.traceback_from_frame()
 
             # FIXME: dry code
             if not self.in_exception_processing:
@@ -798,7 +801,6 @@ class PyVM(object):
 
                 # PyErr_NormalizeException goes here
                 self.jump(block.handler)
-                self.last_traceback = exc_traceback
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
-- 
2.43.0


From 89a731f54c3fe2d79a89c3027d74da5a2543c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 74/88] fix: a generator that can't be resumed is finished

---
 xpython/pyobj.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 874532a..1d2506f 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -631,6 +631,10 @@ class Generator(object):
                 # PEP 479. From 3.12 on the generator's bytecode does this.
                 raise RuntimeError("generator raised StopIteration") from e
             raise
+        except BaseException:
+            # The generator may not have been able to run at all.
+            self.finished = True
+            raise
         finally:
             self.gi_running = False
         if self.finished:
-- 
2.43.0


From bc9d6ed33b295412ff0e14f4f635261555d78078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 75/88] fix: the line number of a frame follows jumps

---
 xpython/pyobj.py | 2 +-
 xpython/vm.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 1d2506f..4eeab79 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -541,7 +541,7 @@ class Frame(object):
         """Get the current line number the frame is executing."""
         # We don't keep f_lineno up to date, so calculate it based on the
         # instruction address and the line number table.
-        last_line_number = 0
+        last_line_number = self.f_code.co_firstlineno
         for offset, line_number in self.line_starts:
             if offset > self.f_lasti:
                 break
diff --git a/xpython/vm.py b/xpython/vm.py
index 71bebf9..579bd03 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -531,6 +531,7 @@ class PyVM(object):
         int_arg = None
 
         while True:
+            jumped = not f.fallthrough
             if f.fallthrough:
                 if not replay:
                     f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
@@ -541,6 +542,9 @@ class PyVM(object):
             line_number = self.frame.linestarts.get(offset, None)
             if line_number is not None:
                 f.f_lineno = line_number
+            elif jumped:
+                # This can be in the middle of another line
+                f.f_lineno = f.line_number()
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From 228e05dace0e1510ad630b7eac7855ac7d755418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 76/88] fix: an exception in a frame which is not traced any
 more is that exception

---
 xpython/vmtrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 78c5521..fe1e344 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -213,6 +213,7 @@ class PyVMTraced(PyVM):
                 frame.f_trace = None
                 frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
             elif result == "return":
+                self.pop_frame()
                 return self.return_value
 
         self.frame.linestarts = dict(
@@ -319,7 +320,7 @@ class PyVMTraced(PyVM):
                 and frame
                 and (not frame or frame.event_flags & PyVMEVENT_EXCEPTION)
             ):
-                frame.f_trace(
+                callback(
                     "exception",
                     offset,
                     bytecode_name,
-- 
2.43.0


From f78f395e0f777a9c4ea7f7f11505af068f846869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 77/88] fix: a breakpoint does not change what the program does

---
 xpython/byteop/byteop24.py | 42 --------------------------------------
 xpython/pyobj.py           |  3 +++
 xpython/vm.py              | 14 ++++++-------
 xpython/vmtrace.py         | 33 +++++++++++++++++++++++++++---
 4 files changed, 40 insertions(+), 52 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 78a2143..e49ef69 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -10,7 +10,6 @@ import sys
 from collections import namedtuple
 from copy import copy
 from types import TracebackType
-from typing import Any, Optional
 
 from xpython.byteop.byteop import (
     ByteOpBase,
@@ -20,7 +19,6 @@ from xpython.byteop.byteop import (
 )
 from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
-from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
 
 Version_info = namedtuple("version_info", "major minor micro releaselevel serial")
@@ -157,46 +155,6 @@ class ByteOp24(ByteOpBase):
             frame = frame.f_back
         return tb
 
-    def BRKPT(self) -> Optional[Any]:
-        """Pseudo opcode: breakpoint. We added this. TODO: call callback, then run
-        instruction that should have gotten run.
-        """
-        vm = self.vm
-        frame = vm.frame
-        last_i = frame.f_lasti
-        orig_opcode = frame.brkpt[last_i]
-        orig_opname = vm.opc.opname[orig_opcode]
-        log.info("Breakpoint at offset %d instruction %s" % (last_i, orig_opname))
-        (
-            byte_name,
-            byte_code,
-            int_arg,
-            arguments,
-            opoffset,
-            line_number,
-        ) = vm.parse_byte_and_args(orig_opcode, replay=True)
-
-        if vm.callback:
-            result = vm.callback(
-                "breakpoint", last_i, byte_name, byte_code, line_number, None, [], vm
-            )
-
-            # FIXME: DRY with vmtrace code
-            if result:
-                if result == "finish":
-                    frame.f_trace = None
-                    frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
-                elif result == "return":
-                    # Immediate return with value
-                    return self.return_value
-                elif result == "skip":
-                    # Don't run instruction
-                    return result
-
-        if log.isEnabledFor(logging.INFO):
-            vm.log(byte_name, int_arg, arguments, opoffset, line_number)
-        return vm.dispatch(byte_name, int_arg, arguments, opoffset, line_number)
-
     ############################################################################
     # Order of function here is the same as in:
     # https://docs.python.org/2.5/library/dis.html#python-bytecode-instructions
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 4eeab79..8fd1fe8 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -459,6 +459,9 @@ class Frame(object):
         # After a breakpoint is serviced, this opcode needs to be run.
         self.brkpt = {}
 
+        # The instruction fetched last has a breakpoint.
+        self.at_breakpoint = False
+
         if f_back and f_back.f_globals is f_globals:
             # If we share the globals, we share the builtins.
             self.f_builtins = f_back.f_builtins
diff --git a/xpython/vm.py b/xpython/vm.py
index 579bd03..62109aa 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -510,11 +510,9 @@ class PyVM(object):
             tb, value, exctype = self.popn(3)
             self.exc_info = exctype, value, tb
 
-    def parse_byte_and_args(self, byte_code, replay=False):
+    def parse_byte_and_args(self, byte_code):
         """Parse 1 - 3 bytes of bytecode into
         an instruction and optionally arguments.
-
-        Argument replay is used to handle breakpoints.
         """
 
         f = self.frame
@@ -533,8 +531,7 @@ class PyVM(object):
         while True:
             jumped = not f.fallthrough
             if f.fallthrough:
-                if not replay:
-                    f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
+                f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
             else:
                 # Jump instructions must set this False.
                 f.fallthrough = True
@@ -545,8 +542,10 @@ class PyVM(object):
             elif jumped:
                 # This can be in the middle of another line
                 f.f_lineno = f.line_number()
-            if not replay:
-                byte_code = byteint(co_code[offset])
+            byte_code = byteint(co_code[offset])
+            if offset in f.brkpt:
+                byte_code = f.brkpt[offset]
+                f.at_breakpoint = True
             bytecode_name = self.opc.opname[byte_code]
 
             arg_offset = offset + 1
@@ -876,6 +875,7 @@ class PyVM(object):
             byte_code = None
         else:
             byte_code = byteint(self.f_code.co_code[frame.f_lasti])
+            byte_code = frame.brkpt.get(frame.f_lasti, byte_code)
             # byte_code == opcode["YIELD_VALUE"]?
 
         self.push_frame(frame)
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index fe1e344..b177445 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,6 +3,7 @@ This can be used in a debugger or profiler.
 """
 
 import logging
+from copy import copy
 
 from xdis import PYTHON_VERSION_TRIPLE, codeType2Portable
 
@@ -111,7 +112,10 @@ class PyVMTraced(PyVM):
         # Convert code to something we can change, then
         # Convert its bytecode bytes to a list, update the list and replace this back in
         # the code.
-        code = codeType2Portable(frame.f_code, self.version)
+        # The other frames which run the code have no breakpoint.
+        if offset in frame.brkpt:
+            return
+        code = copy(codeType2Portable(frame.f_code, self.version))
         frame.brkpt[offset] = code.co_code[offset]
         bytecode = list(code.co_code)
         bytecode[offset] = BREAKPOINT_OP
@@ -128,7 +132,7 @@ class PyVMTraced(PyVM):
         # the code.
         code = frame.f_code
         bytecode = list(code.co_code)
-        bytecode[offset] = frame.brkpt[offset]
+        bytecode[offset] = frame.brkpt.pop(offset)
         code.co_code = bytes(bytecode)
 
     # FIXME: put callback in f_trace, and update it accordingly
@@ -192,6 +196,7 @@ class PyVMTraced(PyVM):
             # End extra tracing code #
         else:
             byte_code = byteint(frame.f_code.co_code[frame.f_lasti])
+            byte_code = frame.brkpt.get(frame.f_lasti, byte_code)
             self.push_frame(frame)
             if frame.f_trace and frame.event_flags & PyVMEVENT_YIELD:
                 result = frame.f_trace(
@@ -207,7 +212,6 @@ class PyVMTraced(PyVM):
                 pass
             # byte_code == opcode["YIELD_VALUE"]?
 
-        # FIXME: DRY with BRKPT op code
         if result:
             if result == "finish":
                 frame.f_trace = None
@@ -235,6 +239,29 @@ class PyVMTraced(PyVM):
             if log.isEnabledFor(logging.INFO):
                 self.log(bytecode_name, int_arg, arguments, offset, line_number)
 
+            if frame.at_breakpoint:
+                frame.at_breakpoint = False
+                result = self.callback(
+                    "breakpoint",
+                    offset,
+                    bytecode_name,
+                    byte_code,
+                    line_number,
+                    None,
+                    [],
+                    self,
+                )
+                if result == "finish":
+                    frame.f_trace = None
+                    frame.event_flags = PyVMEVENT_RETURN | PyVMEVENT_YIELD
+                elif result == "return":
+                    # Immediate return with value
+                    why = result
+                    break
+                elif result == "skip":
+                    # Don't run instruction
+                    continue
+
             if (
                 frame.f_trace
                 and line_number is not None
-- 
2.43.0


From 8011c41d6e76d7a712afda5eb6f4e497c2b471ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 78/88] fix: names of a class body are looked up by
 subscription

---
 xpython/byteop/byteop.py    | 9 ++++++---
 xpython/byteop/byteop24.py  | 7 ++++---
 xpython/byteop/byteop312.py | 8 ++++----
 xpython/byteop/byteop34.py  | 4 ++--
 xpython/byteop/byteop36.py  | 4 +++-
 xpython/pyobj.py            | 7 +++++--
 xpython/vm.py               | 3 ++-
 7 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 58cd898..cc4f868 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -548,9 +548,12 @@ class ByteOpBase(object):
     def lookup_name(self, name):
         """Returns the value in the current frame associated for name"""
         frame = self.vm.frame
-        if name in frame.f_locals:
-            val = frame.f_locals[name]
-        elif name in frame.f_globals:
+        try:
+            # A class body can have a namespace which is not a dictionary.
+            return frame.f_locals[name]
+        except KeyError:
+            pass
+        if name in frame.f_globals:
             val = frame.f_globals[name]
         elif name in frame.f_builtins:
             val = frame.f_builtins[name]
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index e49ef69..326789b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -387,9 +387,10 @@ class ByteOp24(ByteOpBase):
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
-        if name not in self.vm.frame.f_locals:
-            raise NameError(f"name '{name}' is not defined")
-        del self.vm.frame.f_locals[name]
+        try:
+            del self.vm.frame.f_locals[name]
+        except Exception:
+            raise NameError(f"name '{name}' is not defined") from None
 
     def UNPACK_SEQUENCE(self, count):
         """Unpacks TOS into count individual values, which are put onto the
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index fefc26b..9b78d56 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -132,9 +132,9 @@ class ByteOp312(ByteOp311):
         and then the builtins, as in LOAD_GLOBAL.
         """
         namespace = self.vm.pop()
-        if name in namespace:
+        try:
             self.vm.push(namespace[name])
-        else:
+        except KeyError:
             self.LOAD_GLOBAL(name)
 
     def LOAD_FROM_DICT_OR_DEREF(self, name: str):
@@ -144,9 +144,9 @@ class ByteOp312(ByteOp311):
         LOAD_DEREF.
         """
         namespace = self.vm.pop()
-        if name in namespace:
+        try:
             self.vm.push(namespace[name])
-        else:
+        except KeyError:
             self.LOAD_DEREF(name)
 
     def RETURN_CONST(self, consti):
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index 6681fb6..f36334e 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -32,9 +32,9 @@ class ByteOp34(ByteOp33):
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        if count in self.vm.frame.f_locals:
+        try:
             self.vm.push(self.vm.frame.f_locals[count])
-        else:
+        except KeyError:
             self.LOAD_DEREF(count)
 
     ##############################################################################
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index b20ac55..d477da9 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -297,7 +297,9 @@ class ByteOp36(ByteOp35):
         class or module body contains variable annotations
         statically.
         """
-        if "__annotations__" not in self.vm.frame.f_locals:
+        try:
+            self.vm.frame.f_locals["__annotations__"]
+        except KeyError:
             self.vm.frame.f_locals["__annotations__"] = {}
 
     def BUILD_STRING(self, count):
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 8fd1fe8..e9e7343 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -484,8 +484,11 @@ class Frame(object):
         if f_code.co_cellvars:
             self.cells = {}
             for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals if it is bound.
-                self.cells[var] = Cell(self.f_locals.get(var, Cell.EMPTY))
+                # Make a cell for the variable; it is bound if it is a parameter.
+                if var in f_code.co_varnames:
+                    self.cells[var] = Cell(self.f_locals.get(var, Cell.EMPTY))
+                else:
+                    self.cells[var] = Cell()
         else:
             self.cells = None
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 62109aa..9737742 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -350,7 +350,8 @@ class PyVM(object):
             # Up to 3.3 the function for a class body has the namespace as argument.
             f_locals = {"__locals__": {}} if "__locals__" in code.co_varnames else {}
 
-        f_locals.update(callargs)
+        if callargs:
+            f_locals.update(callargs)
 
         # create a localsplusnames table that resolves duplicates.
         varnames = code.co_varnames
-- 
2.43.0


From 99bd98715353e37554d549106f37f15300b75e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 79/88] fix: a class statement makes the class as Python does

---
 xpython/builtins.py        | 71 +++++++++++++++++++++++---------------
 xpython/byteop/byteop24.py |  8 +++--
 xpython/pyobj.py           | 20 ++++++++---
 3 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index d1d0f2e..dc5472d 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,11 +4,13 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
+import types
+import warnings
 from typing import Any
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
-from xpython.pyobj import Cell, Function, make_cell
+from xpython.pyobj import Cell, Function
 
 
 def func_code(func):
@@ -28,7 +30,7 @@ def func_code(func):
 # added a couple of bug fixes.
 
 
-def build_class(opc, func, name, *bases, **kwds):
+def build_class(opc, func, name, /, *bases, **kwds):
     """
     Like built-in __build_class__() in bltinmodule.c, but running in the
     byterun VM.
@@ -43,6 +45,9 @@ def build_class(opc, func, name, *bases, **kwds):
     if not isinstance(name, str):
         raise TypeError("name is not a string")
 
+    orig_bases = bases
+    bases = types.resolve_bases(bases)
+
     metaclass = kwds.pop("metaclass", None)
 
     if metaclass is None:
@@ -53,6 +58,14 @@ def build_class(opc, func, name, *bases, **kwds):
     if hasattr(metaclass, "__prepare__"):
         prepare = metaclass.__prepare__
         namespace = prepare(name, bases, **kwds)
+        if not hasattr(namespace, "__getitem__"):
+            raise TypeError(
+                "%s.__prepare__() must return a mapping, not %s"
+                % (
+                    getattr(metaclass, "__name__", "<metaclass>"),
+                    type(namespace).__name__,
+                )
+            )
     else:
         namespace = {}
 
@@ -67,6 +80,11 @@ def build_class(opc, func, name, *bases, **kwds):
     else:
         class_body_code = func.func_code
 
+    # Up to 3.3 the function for a class body has the namespace as argument.
+    callargs = {}
+    if "__locals__" in class_body_code.co_varnames:
+        callargs["__locals__"] = namespace
+
     # Execute the body of func. This is the step that would go wrong if
     # we tried to use the built-in __build_class__, because __build_class__
     # does not call func, it magically executes its body directly, as we
@@ -77,38 +95,37 @@ def build_class(opc, func, name, *bases, **kwds):
     # between Python 3.5 running 3.4 or earlier.
     frame = func._vm.make_frame(
         code=class_body_code,
+        callargs=callargs,
         f_globals=func.func_globals,
         f_locals=namespace,
         closure=func.__closure__,
     )
 
-    # rocky: cell is the return value of a function where?
+    # What the body returns is the cell for __class__, if there is one.
     cell = func._vm.eval_frame(frame)
 
-    # Add any class variables that may have been added in running class_body_code.
-    # See test_attribute_access.py for a simple example that needs the update below.
-    namespace.update(frame.f_locals)
-
-    # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
-    # but needs a builtin cell object. make_cell() can do this.
-    if "__classcell__" in namespace and metaclass == type:
-        namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
-
-    try:
-        cls = metaclass(name, bases, namespace)
-    except TypeError:
-        # For mysterious reasons the above can raise a:
-        #  __init__() takes *n* positional arguments but *n+1* were given.
-        # In particular for:
-        #     class G(Generic[T]):
-        #        pass
-        import types
-
-        cls = types.new_class(name, bases, kwds, exec_body=lambda ns: namespace)
-        pass
-
-    if isinstance(cell, Cell):
-        cell.set(cls)
+    if bases is not orig_bases:
+        namespace["__orig_bases__"] = orig_bases
+
+    cls = metaclass(name, bases, namespace, **kwds)
+
+    if isinstance(cell, Cell) and isinstance(cls, type):
+        # Since 3.6 setting the cell is up to type.__new__().
+        if opc.version_tuple < (3, 6):
+            cell.set(cls)
+        elif cell.is_empty():
+            message = (
+                f"__class__ not set defining {name!r} as {cls!r}. "
+                "Was __classcell__ propagated to type.__new__?"
+            )
+            if opc.version_tuple >= (3, 8):
+                raise RuntimeError(message)
+            warnings.warn(message, DeprecationWarning)
+            cell.set(cls)
+        elif cell.get() is not cls:
+            raise TypeError(
+                f"__class__ set to {cell.get()!r} defining {name!r} as {cls!r}"
+            )
     return cls
 
 
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 326789b..f06fa36 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Function, Traceback
+from xpython.pyobj import Cell, Function, Traceback
 from xpython.vm import PyVM
 
 
@@ -376,7 +376,11 @@ class ByteOp24(ByteOpBase):
         """Implements name = TOS. namei is the index of name in the attribute
         co_names of the code object. The compiler tries to use STORE_LOCAL or
         STORE_GLOBAL if possible."""
-        self.vm.frame.f_locals[name] = self.vm.pop()
+        value = self.vm.pop()
+        if isinstance(value, Cell):
+            # __classcell__, which is for type.__new__()
+            value = value.actual
+        self.vm.frame.f_locals[name] = value
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index e9e7343..609b8a8 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -372,9 +372,8 @@ class Cell:
            actual cell objects, which are difficult to make. See the twisty
            double-lambda in __init__.
 
-        2. Actual cell objects can't be modified, so to implement STORE_DEREF,
-           we store a one-element list in our cell, and then use [0] as the
-           actual value.
+        2. The value is in an actual cell object, so that type.__new__() can
+           set the one for __class__.
 
     """
 
@@ -382,7 +381,8 @@ class Cell:
     EMPTY = object()
 
     def __init__(self, value=EMPTY) -> None:
-        self.contents = value
+        self.actual = types.CellType()
+        self.set(value)
 
     def is_empty(self) -> bool:
         return self.contents is Cell.EMPTY
@@ -391,7 +391,17 @@ class Cell:
         return None if self.is_empty() else self.contents
 
     def set(self, value) -> None:
-        self.contents = value
+        if value is not Cell.EMPTY:
+            self.actual.cell_contents = value
+        elif not self.is_empty():
+            del self.actual.cell_contents
+
+    @property
+    def contents(self):
+        try:
+            return self.actual.cell_contents
+        except ValueError:
+            return Cell.EMPTY
 
 
 class Block(object):
-- 
2.43.0


From fc480cb9050067bb214cbd12d0618af27557ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 80/88] fix: __new__, __init_subclass__ and __class_getitem__
 of a class are not plain methods

---
 xpython/builtins.py         | 20 +++++++++++++++++++-
 xpython/byteop/byteop.py    |  4 +++-
 xpython/byteop/byteop24.py  |  3 ++-
 xpython/byteop/byteop311.py |  4 +++-
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index dc5472d..c76ad6d 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -107,7 +107,7 @@ def build_class(opc, func, name, /, *bases, **kwds):
     if bases is not orig_bases:
         namespace["__orig_bases__"] = orig_bases
 
-    cls = metaclass(name, bases, namespace, **kwds)
+    cls = implicit_methods(metaclass(name, bases, namespace, **kwds))
 
     if isinstance(cell, Cell) and isinstance(cls, type):
         # Since 3.6 setting the cell is up to type.__new__().
@@ -129,6 +129,24 @@ def build_class(opc, func, name, /, *bases, **kwds):
     return cls
 
 
+def implicit_methods(cls):
+    """
+    Does what type.__new__() does for native functions only, and returns `cls`:
+    its __new__ is a static method, its __init_subclass__ and __class_getitem__
+    are class methods.
+    """
+    if isinstance(cls, type):
+        for name, kind in (
+            ("__new__", staticmethod),
+            ("__init_subclass__", classmethod),
+            ("__class_getitem__", classmethod),
+        ):
+            func = cls.__dict__.get(name)
+            if isinstance(func, Function):
+                type.__setattr__(cls, name, kind(func))
+    return cls
+
+
 def builtin_super(frame, *args) -> Any:
     """
     super(), called from `frame`. Without arguments, these are the class whose
diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index cc4f868..943f64e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -13,7 +13,7 @@ from typing import Any, Callable
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
-from xpython.builtins import build_class, builtin_super
+from xpython.builtins import build_class, builtin_super, implicit_methods
 from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
@@ -352,6 +352,8 @@ class ByteOpBase(object):
                 func = builtin_super
 
         retval = func(*pos_args, **named_args)
+        if func is type.__new__ or inspect.isclass(func) and issubclass(func, type):
+            implicit_methods(retval)
         self.vm.push(retval)
 
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index f06fa36..7025c12 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,6 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
+from xpython.builtins import implicit_methods
 from xpython.pyobj import Cell, Function, Traceback
 from xpython.vm import PyVM
 
@@ -370,7 +371,7 @@ class ByteOp24(ByteOpBase):
             klass = type(name, bases, methods)
         except TypeError:
             klass = type(name, tuple([object] + list(bases)), methods)
-        self.vm.push(klass)
+        self.vm.push(implicit_methods(klass))
 
     def STORE_NAME(self, name):
         """Implements name = TOS. namei is the index of name in the attribute
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 830cfd7..5ad2b9f 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -19,7 +19,7 @@ from xpython.byteop.byteop36 import (
     MAKE_FUNCTION_SLOT_NAMES,
     MAKE_FUNCTION_SLOTS,
 )
-from xpython.builtins import build_class, builtin_super
+from xpython.builtins import build_class, builtin_super, implicit_methods
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Function
@@ -235,6 +235,8 @@ class ByteOp311(ByteOp310):
                 func = builtin_super
 
         retval = func(*pos_args, **named_args)
+        if func is type.__new__ or inspect.isclass(func) and issubclass(func, type):
+            implicit_methods(retval)
         self.vm.push(retval)
 
     def is_method(self, argc: int) -> bool:
-- 
2.43.0


From 091604571b4ab3965761ed91e286919ac2ccb129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 81/88] fix: Python 2 classes are made by their metaclass

---
 xpython/builtins.py        | 32 +++++++++++++++-----------------
 xpython/byteop/byteop24.py | 13 +++----------
 2 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index c76ad6d..9d646b9 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -174,23 +174,21 @@ def builtin_super(frame, *args) -> Any:
     return super(*args)
 
 
-# From Pypy 3.6
-# def find_metaclass(bases, namespace, globals, builtin):
-#     if '__metaclass__' in namespace:
-#         return namespace['__metaclass__']
-#     elif len(bases) > 0:
-#         base = bases[0]
-#         if hasattr(base, '__class__'):
-#             return base.__class__
-#         else:
-#             return type(base)
-#     elif '__metaclass__' in globals:
-#         return globals['__metaclass__']
-#     else:
-#         try:
-#             return builtin.__metaclass__
-#         except AttributeError:
-#             return type
+# After Pypy 3.6
+def find_metaclass(bases, namespace, globals):
+    """
+    What makes a class in Python 2. The host has no old-style classes, and makes
+    a new-style class instead.
+    """
+    if "__metaclass__" in namespace:
+        return namespace["__metaclass__"]
+    elif len(bases) > 0:
+        base = bases[0]
+        if hasattr(base, "__class__"):
+            return base.__class__
+        else:
+            return type(base)
+    return globals.get("__metaclass__", type)
 
 
 def calculate_metaclass(metaclass, bases):
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 7025c12..dccfd42 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.builtins import implicit_methods
+from xpython.builtins import find_metaclass, implicit_methods
 from xpython.pyobj import Cell, Function, Traceback
 from xpython.vm import PyVM
 
@@ -362,15 +362,8 @@ class ByteOp24(ByteOpBase):
         tuple of the names of the base classes, and TOS2 the class name.
         """
         name, bases, methods = self.vm.popn(3)
-        # Note: type() wants to only create new-style classes, while
-        # bases might include only old-style classes. This will
-        # trigger this error: TypeError: a new-style class can't have
-        # only classic bases So what we'll do is throw in "object" so
-        # there is at least one new-style class.
-        try:
-            klass = type(name, bases, methods)
-        except TypeError:
-            klass = type(name, tuple([object] + list(bases)), methods)
+        metaclass = find_metaclass(bases, methods, self.vm.frame.f_globals)
+        klass = metaclass(name, bases, methods)
         self.vm.push(implicit_methods(klass))
 
     def STORE_NAME(self, name):
-- 
2.43.0


From a360082c3ca7851087cbe9ea764b81de6a9d00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 82/88] fix: making a class with type() does not change the
 namespace given

---
 xpython/byteop/byteop.py    | 30 +++++++++++++++++++++++-------
 xpython/byteop/byteop311.py |  8 +-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 943f64e..729f740 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -325,13 +325,6 @@ class ByteOpBase(object):
                     init_fn = pos_args[0]
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
 
         if (
             inspect.isfunction(func)
@@ -351,11 +344,34 @@ class ByteOpBase(object):
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
+        self.set_class_module(func, pos_args)
         retval = func(*pos_args, **named_args)
         if func is type.__new__ or inspect.isclass(func) and issubclass(func, type):
             implicit_methods(retval)
         self.vm.push(retval)
 
+    def set_class_module(self, func, pos_args: list) -> None:
+        """Makes __module__ of the class type.__new__() is about to make that of
+        the program, where it would be that of the interpreter."""
+        if func is type.__new__:
+            count = 4
+        elif (
+            inspect.isclass(func)
+            and issubclass(func, type)
+            and func.__new__ is type.__new__
+        ):
+            count = 3
+        else:
+            return
+        f_globals = self.vm.frame.f_globals
+        if (
+            len(pos_args) == count
+            and isinstance(pos_args[-1], dict)
+            and "__module__" not in pos_args[-1]
+            and "__name__" in f_globals
+        ):
+            pos_args[-1] = dict(pos_args[-1], __module__=f_globals["__name__"])
+
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
         len_kw, len_pos = divmod(argc, 256)
         named_args = self.pop_keyword_args(len_kw)
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 5ad2b9f..810e088 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -198,13 +198,6 @@ class ByteOp311(ByteOp310):
                     init_fn = pos_args[0]
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
 
         if (
             inspect.isfunction(func)
@@ -234,6 +227,7 @@ class ByteOp311(ByteOp310):
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
+        self.set_class_module(func, pos_args)
         retval = func(*pos_args, **named_args)
         if func is type.__new__ or inspect.isclass(func) and issubclass(func, type):
             implicit_methods(retval)
-- 
2.43.0


From 33119121efb14df3fbdd24d04f9d45df6f28d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 83/88] fix: storing a name does not ask the value for its
 class

---
 xpython/byteop/byteop24.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index dccfd42..36ecfca 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -371,7 +371,7 @@ class ByteOp24(ByteOpBase):
         co_names of the code object. The compiler tries to use STORE_LOCAL or
         STORE_GLOBAL if possible."""
         value = self.vm.pop()
-        if isinstance(value, Cell):
+        if type(value) is Cell:
             # __classcell__, which is for type.__new__()
             value = value.actual
         self.vm.frame.f_locals[name] = value
-- 
2.43.0


From c29fac2a2e172d9d7de25b70bd0078fe34681589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 84/88] fix: logging an instruction neither runs the program's
 code nor fails

---
 xpython/byteop/byteop.py       | 14 +++++++++-
 xpython/byteop/byteop24.py     | 23 +++++----------
 xpython/byteop/byteop311.py    |  5 ++--
 xpython/byteop/byteop32.py     |  4 +--
 xpython/byteop/byteop36.py     | 11 ++------
 xpython/byteop/byteop37pypy.py | 17 +++++++-----
 xpython/pyobj.py               | 51 ++++++++++++++++++++++++++++++++++
 xpython/vm.py                  | 33 +++++++++++++---------
 8 files changed, 108 insertions(+), 50 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 729f740..485636f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -11,10 +11,11 @@ import sys
 import types
 from typing import Any, Callable
 
+from xdis.codetype.base import CodeBase
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super, implicit_methods
-from xpython.pyobj import Function, Method, copy_module
+from xpython.pyobj import NAMED_TYPES, Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -99,6 +100,17 @@ def fmt_binary_op(vm: PyVM, arg=None, repr=repr):
 
 
 
+def fmt_name(value, repr=repr) -> str:
+    """returns the name of a code object or function, or "" for other values, which
+    might run the program when asked for an attribute
+    """
+    if issubclass(type(value), (types.CodeType, CodeBase)):
+        return f" ({value.co_name})"
+    if type(value) in NAMED_TYPES or type(value) is type:
+        return f" ({value.__name__ if type(value.__name__) is str else repr(value)})"
+    return ""
+
+
 def fmt_ternary_op(vm: PyVM, arg=None, repr=repr):
     """returns string of the repr() for each of the first three
     elements of evaluation stack
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 36ecfca..1959a38 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -14,6 +14,7 @@ from types import TracebackType
 from xpython.byteop.byteop import (
     ByteOpBase,
     fmt_binary_op,
+    fmt_name,
     fmt_ternary_op,
     fmt_unary_op,
 )
@@ -34,6 +35,8 @@ def get_cell_name(vm, i: int):
     # From LOAD_CLOSURE:
     # The name of the variable is co_cellvars[i] if i is less
     # than the length of co_cellvars. Otherwise it is co_freevars[i -len(co_cellvars)]
+    if vm.version >= (3, 11):
+        return vm.frame.localsplusnames[i]
     f_code = vm.frame.f_code
     if i < len(f_code.co_cellvars):
         return f_code.co_cellvars[i]
@@ -43,11 +46,11 @@ def get_cell_name(vm, i: int):
 
 
 def fmt_store_deref(vm, _, repr=repr):
-    return f" ({vm.top})"
+    return f" ({repr(vm.top)})"
 
 
 def fmt_load_deref(vm, int_arg, repr=repr):
-    return f" ({vm.frame.cells[get_cell_name(vm, int_arg)].get()})"
+    return f" ({repr(vm.frame.cells[get_cell_name(vm, int_arg)].get())})"
 
 
 def fmt_call_function(vm, argc: int, repr=repr):
@@ -55,26 +58,14 @@ def fmt_call_function(vm, argc: int, repr=repr):
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    code = vm.peek(name_default + pos_args + 1)
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(code, attr):
-            return f" ({getattr(code, attr)})"
-
-    # Nothing found.
-    return ""
+    return fmt_name(vm.peek(2 * name_default + pos_args + 1), repr)
 
 
 def fmt_make_function(vm, _=None, repr=repr):
     """
     returns the name of the function from the code object in the stack
     """
-    TOS = vm.top
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    return fmt_name(vm.top, repr)
 
 class Traceback24(Traceback):
     """
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 810e088..47cbf4d 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -13,6 +13,7 @@ from typing import Tuple
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
+from xpython.byteop.byteop import fmt_name
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop36 import (
     COMPREHENSION_FN_NAMES,
@@ -38,9 +39,7 @@ def fmt_make_function(vm, _=None, repr_fn=repr) -> str:
     """
     returns the name of the function from the code object in the stack
     """
-    fn_item = vm.top
-    name = fn_item.co_name
-    return f" ({name})"
+    return fmt_name(vm.top, repr_fn)
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 6f113aa..3b064e0 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -4,6 +4,7 @@
 import inspect
 
 from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
+from xpython.byteop.byteop import fmt_name
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Cell, Function
@@ -16,8 +17,7 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
     # Gotta love Python for stuff like this.
     fn_index = 1 if vm.version >= (3, 2) else 2
     fn_item = vm.peek(fn_index)
-    name = fn_item if isinstance(fn_item, str) else fn_item.co_name
-    return f" ({name})"
+    return f" ({fn_item})" if type(fn_item) is str else fmt_name(fn_item, repr_fn)
 
 
 class ByteOp32(ByteOp27):
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index d477da9..614d245 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -9,6 +9,7 @@ import inspect
 
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 
+from xpython.byteop.byteop import fmt_name
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
@@ -42,14 +43,8 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     """
     returns the name of the function from the code object in the stack
     """
-    TOS = vm.peek(argc + 1)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    return fmt_name(vm.peek(argc + 1), repr_fn)
 
 
 def fmt_call_function_kw(vm, argc, repr=repr) -> str:
@@ -58,7 +53,7 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
     """
     namedargs_tup = vm.top
     func = vm.peek(argc + 2)
-    return f" (keyword: {namedargs_tup}, function: {func})"
+    return f" (keyword: {repr(namedargs_tup)}, function: {repr(func)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 992b14b..4d01bf4 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -5,6 +5,7 @@
 # See the documentation for the full license.
 """Bytecode Interpreter operations for PyPy 3.7
 """
+from xpython.byteop.byteop import fmt_name
 from xpython.byteop.byteop37 import ByteOp37
 from xpython.byteop.byteoppypy import ByteOpPyPy
 
@@ -15,8 +16,8 @@ def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
     """
     pos_args = [vm.peek(i + 1) for i in range(argc)]
 
-    fn_name = vm.peek(argc + 2).__name__
-    return f""" {fn_name}({", ".join((repr_fn(a) for a in pos_args))})"""
+    fn_name = fmt_name(vm.peek(argc + 2), repr_fn)
+    return f"""{fn_name}({", ".join((repr_fn(a) for a in pos_args))})"""
 
 
 def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
@@ -27,15 +28,17 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     kwargs_count = len(kwarg_names)
     kwargs_list = []
     for i in range(kwargs_count):
-        kwargs_list.append(f"{kwarg_names[i]}={vm.peek(i+1)}")
+        value = vm.peek(kwargs_count + 1 - i)
+        name = kwarg_names[i]
+        name = name if type(name) is str else repr(name)
+        kwargs_list.append(f"{name}={repr(value)}")
 
     pos_args = []
-    j = kwargs_count + 2
     for i in range(argc - kwargs_count):
-        pos_args.append(vm.peek(i + j))
+        pos_args.append(repr(vm.peek(argc + 1 - i)))
 
-    fn_name = vm.peek(argc + 3).__name__
-    return f""" {fn_name}({", ".join((repr(a) for a in pos_args + kwargs_list))})"""
+    fn_name = fmt_name(vm.peek(argc + 3), repr)
+    return f"""{fn_name}({", ".join(pos_args + kwargs_list)})"""
 
 
 class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 609b8a8..0f951af 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -8,6 +8,7 @@ from copy import copy
 from sys import stderr
 
 from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
+from xdis.codetype.base import CodeBase
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
@@ -37,6 +38,42 @@ def make_cell(value: int):
     return fn.__closure__[0]
 
 
+def program_repr(value, level: int = 3) -> str:
+    """
+    A repr() for logging a value of the program. It must neither run any of the
+    program's code nor fail, so it is that of the value only when the value and
+    what it contains is of a builtin type.
+    """
+    kind = type(value)
+    try:
+        if kind in CONTAINER_BRACKETS and value:
+            left, right = CONTAINER_BRACKETS[kind]
+            if level == 0:
+                return f"{left}...{right}"
+            items = []
+            for item in value.items() if kind is dict else value:
+                if len(items) == 20:
+                    items.append("...")
+                    break
+                if kind is dict:
+                    items.append(": ".join(program_repr(x, level - 1) for x in item))
+                else:
+                    items.append(program_repr(item, level - 1))
+            if kind is tuple and len(items) == 1:
+                right = "," + right
+            return left + ", ".join(items) + right
+        if kind in PLAIN_TYPES or issubclass(kind, CodeBase):
+            return repr(value)
+        if kind in NAMED_TYPES:
+            return f"<{kind.__name__} {program_repr(value.__name__)}>"
+        if issubclass(kind, type):
+            return type.__repr__(value)
+        return object.__repr__(value)
+    except Exception:
+        # For example, the value has too many digits.
+        return f"<{kind.__name__}>"
+
+
 # It might be the case that this is more useful in Python 2.x
 # which doesn't seem to show traceback of interpreted code.
 # Python 3.x does this, but it also shows junk at the end.
@@ -305,6 +342,20 @@ class Function:
         return retval
 
 
+# The types of which program_repr() gives the contents, the repr() or the name
+CONTAINER_BRACKETS = {
+    dict: "{}",
+    frozenset: ("frozenset({", "})"),
+    list: "[]",
+    set: "{}",
+    tuple: "()",
+}
+PLAIN_TYPES = frozenset((bool, bytes, complex, float, int, str, type(None))).union(
+    CONTAINER_BRACKETS
+)
+NAMED_TYPES = frozenset((Function, types.FunctionType, types.BuiltinFunctionType))
+
+
 # FIXME: go over. Not sure how close This is supposed to be
 # like type.MethodType
 class Method(object):
diff --git a/xpython/vm.py b/xpython/vm.py
index 9737742..67d2981 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -23,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, traceback_from_frame
+from xpython.pyobj import Block, Frame, program_repr, traceback_from_frame
 
 log = logging.getLogger(__name__)
 
@@ -107,7 +107,11 @@ def format_instruction(
     byte_code = opc.opmap.get(bytecode_name, 0)
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
-        stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        try:
+            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, program_repr)
+        except Exception:
+            # In the presence of exceptions the stack might be messed up.
+            stack_args = " (?)"
     else:
         stack_args = ""
 
@@ -129,6 +133,8 @@ def format_instruction(
         if line_number is None
         else LINE_NUMBER_WIDTH_FMT % line_number
     )
+    if not isinstance(argrepr, str):
+        argrepr = program_repr(argrepr)
     mess = "%s%3d: %s%s %s" % (line_str, offset, bytecode_name, stack_args, argrepr)
     if extra_debug and frame:
         mess += f" {code.co_name} in {code.co_filename}:{frame.f_lineno}"
@@ -321,13 +327,14 @@ class PyVM(object):
         # The callargs default is safe because we never modify the dict.
         # pylint: disable=dangerous-default-value
 
-        log.debug(
-            "make_frame: code=%r, callargs=%r, f_globals=%r, f_locals=%r",
-            code,
-            callargs,
-            (type(f_globals), id(f_globals)),
-            (type(f_locals), id(f_locals)),
-        )
+        if log.isEnabledFor(logging.DEBUG):
+            log.debug(
+                "make_frame: code=%r, callargs=%s, f_globals=%s, f_locals=%s",
+                code,
+                program_repr(callargs),
+                program_repr((type(f_globals), id(f_globals))),
+                program_repr((type(f_locals), id(f_locals))),
+            )
         if f_globals is not None:
             f_globals = f_globals
             if f_locals is None:
@@ -656,10 +663,10 @@ class PyVM(object):
             vm=self,
         )
         indent = "    " * (len(self.frames) - 1)
-        stack_rep = repr(self.frame.stack)
+        stack_rep = ", ".join(program_repr(value) for value in self.frame.stack)
         block_stack_rep = repr(self.frame.block_stack)
 
-        log.debug(f"  {indent}frame.stack: {stack_rep}")
+        log.debug(f"  {indent}frame.stack: [{stack_rep}]")
         log.debug(f"  {indent}blocks     : {block_stack_rep}")
         log.info(f"{indent}{op}")
 
@@ -722,7 +729,7 @@ class PyVM(object):
 
             # FIXME: dry code
             if not self.in_exception_processing:
-                if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                if self.last_exception[0] is not SystemExit and log.isEnabledFor(
                     logging.INFO
                 ):
                     log.info(
@@ -905,7 +912,7 @@ class PyVM(object):
 
                 if not self.in_exception_processing:
                     # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                    if self.last_exception[0] is not SystemExit and log.isEnabledFor(
                         logging.INFO
                     ):
                         log.info(
-- 
2.43.0


From 812d128ff56d423bf0e55b891ee78f1f50aab03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 85/88] fix: eval, exec, locals, vars, dir, compile and
 execfile use the namespaces of the program

---
 xpython/byteop/byteop.py    | 261 ++++++++++++++++++++----------------
 xpython/byteop/byteop24.py  |   9 +-
 xpython/byteop/byteop311.py | 108 +--------------
 xpython/pyobj.py            |  31 ++++-
 xpython/stdlib/builtins.py  |   7 +-
 xpython/vm.py               |   8 +-
 6 files changed, 195 insertions(+), 229 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 485636f..c2a7760 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -4,6 +4,7 @@
 Note: this is subclassed. Later versions use operations from here.
 """
 
+import __future__
 import inspect
 import logging
 import operator
@@ -15,12 +16,18 @@ from xdis.codetype.base import CodeBase
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super, implicit_methods
-from xpython.pyobj import NAMED_TYPES, Function, Method, copy_module
+from xpython.pyobj import NAMED_TYPES, Cell, Function, Method, copy_module
+from xpython.stdlib.builtins import execfile
 from xpython.vm import PyVM
 
 
 log = logging.getLogger(__name__)
 
+# The flags of future statements in the co_flags of a code object.
+FUTURE_FLAGS = 0
+for feature in __future__.all_feature_names:
+    FUTURE_FLAGS |= getattr(__future__, feature).compiler_flag
+
 
 def classic_div(x, y):
     """Python 2's "/" operator when there is no "from __future__ import division" """
@@ -198,121 +205,13 @@ class ByteOpBase(object):
                 )
             func = func.im_func
 
+        if self.namespace_builtin(func, pos_args, named_args):
+            return
+
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
-                # Use the frame's globals(), not the interpreter's
-                self.vm.push(frame.f_globals)
-                return
-            elif func == locals:
-                # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
-                return
-
-            if func == compile:
-                # Set dont_inherit parameter.  FIXME: we should set
-                # other flags too based on the interpreted
-                # environment?
-                if len(pos_args) < 5 and "dont_inherit" not in named_args:
-                    named_args["dont_inherit"] = True
-                    pass
-            # In Python 3.0 or greater, "exec()" is a builtin.  In
-            # Python 2.7 it was an opcode EXEC_STMT and is not a
-            # built-in function.
-            #
-            # FIXME: a better test would be nice. There can be
-            # other builtin "exec"s. Tk has a built-in "eval". See 3.6.10
-            # test_tcl.py.
-            # If we drop the requirement of supporting 2.7 we can do the simpler
-            # and more reliable:
-            #   func == exec
-            elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_exec_warning_shown:
-                        log.warning(
-                            "Running built-in `exec()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_exec_warning_shown = True
-
-            elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, unicode):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_eval_warning_shown:
-                        log.warning(
-                            "Running built-in `eval()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_eval_warning_shown = True
-
-            elif func == __build_class__:
+            if func == __build_class__:
                 assert len(pos_args) > 0, (
                     "__build_class__() should have at least one argument, an "
                     "__init__() function."
@@ -362,6 +261,142 @@ class ByteOpBase(object):
             implicit_methods(retval)
         self.vm.push(retval)
 
+    def namespace_builtin(self, func, pos_args: list, named_args: dict) -> bool:
+        """If `func` is a built-in function which uses the namespaces of its caller,
+        calls it with those of the frame, not the interpreter's, and pushes the result.
+        """
+        frame = self.vm.frame
+        no_args = not pos_args and not named_args
+        if func is globals and no_args:
+            self.vm.push(frame.f_globals)
+        elif func is locals and no_args or func is vars and no_args:
+            self.vm.push(frame.locals())
+        elif func is dir and no_args:
+            self.vm.push(sorted(frame.locals().keys()))
+        elif func is compile:
+            self.vm.push(self.compile(*pos_args, **named_args))
+        elif func is eval:
+            self.vm.push(self.eval_or_exec("eval", pos_args, named_args))
+        elif func is exec:
+            self.vm.push(self.eval_or_exec("exec", pos_args, named_args))
+        elif func is execfile:
+            self.vm.push(self.execfile(*pos_args, **named_args))
+        else:
+            return False
+        return True
+
+    def future_flags(self) -> int:
+        """The compiler flags for the future statements in effect in the frame"""
+        if self.version_info[:2] != PYTHON_VERSION_TRIPLE[:2]:
+            return 0
+        return self.vm.frame.f_code.co_flags & FUTURE_FLAGS
+
+    def compile(
+        self, source, filename, mode, flags=0, dont_inherit=False, *args, **kwargs
+    ):
+        """compile() inherits the future statements of the frame, and not those of
+        the interpreter."""
+        if not dont_inherit:
+            flags |= self.future_flags()
+        return compile(source, filename, mode, flags, True, *args, **kwargs)
+
+    def eval_or_exec(self, name: str, pos_args: list, named_args: dict) -> Any:
+        """eval() and exec(), where code runs in our own interpreter if it can, not
+        in CPython's."""
+        closure = None
+        if name == "exec" and PYTHON_VERSION_TRIPLE >= (3, 11):
+            named_args = dict(named_args)
+            closure = named_args.pop("closure", None)
+        if named_args:
+            raise TypeError(f"{name}() takes no keyword arguments")
+        if not 1 <= len(pos_args) <= 3:
+            raise TypeError(
+                f"{name}() takes 1 to 3 positional arguments ({len(pos_args)} given)"
+            )
+        source, f_globals, f_locals = (list(pos_args) + [None, None])[:3]
+        return self.run_source(name, source, f_globals, f_locals, closure)
+
+    def run_source(self, name: str, source, f_globals, f_locals, closure=None) -> Any:
+        """Runs `source`, which is text or a code object, in the given namespaces. Those
+        of the frame are used for what is None; but given `f_globals` only, these
+        are the local names, too."""
+        frame = self.vm.frame
+        if f_globals is None:
+            f_globals = frame.f_globals
+            if f_locals is None:
+                f_locals = frame.locals()
+        elif f_locals is None:
+            f_locals = f_globals
+        if not isinstance(f_globals, dict):
+            raise TypeError(
+                f"{name}() globals must be a dict, not {type(f_globals).__name__}"
+            )
+        if not hasattr(type(f_locals), "__getitem__"):
+            raise TypeError(
+                f"{name}() locals must be a mapping or None, "
+                f"not {type(f_locals).__name__}"
+            )
+        if "__builtins__" not in f_globals:
+            f_globals["__builtins__"] = frame.f_builtins
+
+        same_version = self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
+        is_native = isinstance(source, types.CodeType)
+        if not is_native and not isinstance(source, CodeBase):
+            if not isinstance(source, (str, bytes, bytearray, memoryview)):
+                raise TypeError(
+                    f"{name}() arg 1 must be a string, bytes or code object"
+                )
+            if name == "eval":
+                if not isinstance(source, str):
+                    source = bytes(source)
+                source = source.lstrip(" \t" if isinstance(source, str) else b" \t")
+            source = compile(source, "<string>", name, self.future_flags(), True)
+            is_native = True
+
+        free_count = len(source.co_freevars or ())
+        if closure is not None or free_count:
+            if name == "eval" or closure is None or not free_count:
+                raise TypeError(
+                    f"code object passed to {name}() may not contain free variables"
+                    if closure is None
+                    else "cannot use a closure with this code object"
+                )
+            if (
+                not isinstance(closure, tuple)
+                or len(closure) != free_count
+                or not all(isinstance(cell, Cell) for cell in closure)
+            ):
+                raise TypeError(
+                    f"code object requires a closure of exactly length {free_count}"
+                )
+
+        if is_native and not same_version:
+            # compile() here makes bytecode of another version than we interpret.
+            if not getattr(self, f"cross_bytecode_{name}_warning_shown"):
+                log.warning(
+                    f"Running built-in `{name}()`, because bytecode compile() is not "
+                    "available and we are cross-version. "
+                    "Interpreting version %s from version %s."
+                    % (
+                        version_tuple_to_str(self.version_info, end=2),
+                        version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
+                    )
+                )
+                setattr(self, f"cross_bytecode_{name}_warning_shown", True)
+            return (eval if name == "eval" else exec)(source, f_globals, f_locals)
+
+        retval = self.vm.run_code(
+            source, f_globals, f_locals, toplevel=False, closure=closure
+        )
+        return retval if name == "eval" else None
+
+    def execfile(self, path, f_globals=None, f_locals=None) -> None:
+        """Python 2's execfile()"""
+        with open(path, "rb") as source_file:
+            source = source_file.read()
+        code = compile(source, path, "exec", self.future_flags(), True)
+        self.run_source("exec", code, f_globals, f_locals)
+
     def set_class_module(self, func, pos_args: list) -> None:
         """Makes __module__ of the class type.__new__() is about to make that of
         the program, where it would be that of the interpreter."""
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 1959a38..115348d 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -305,12 +305,11 @@ class ByteOp24(ByteOpBase):
         """
         stmt, globs, locs = self.vm.popn(3)
 
+        if isinstance(stmt, tuple) and len(stmt) in (2, 3) and globs is locs is None:
+            stmt, globs, locs = (stmt + (None,))[:3]
+
         # if `locals` or `globals` is None, use the frame equivalent.
-        if globs is None:
-            globs = self.vm.frame.f_globals
-        if locs is None:
-            locs = self.vm.frame.f_locals
-        exec(stmt, globs, locs)
+        self.run_source("exec", stmt, globs, locs)
 
     def POP_BLOCK(self):
         """
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 47cbf4d..740a707 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -11,7 +11,7 @@ import inspect
 import logging
 from typing import Tuple
 
-from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
+from xdis.version_info import PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop import fmt_name
 from xpython.byteop.byteop24 import Version_info
@@ -68,111 +68,13 @@ class ByteOp311(ByteOp310):
             self.vm.push(retval)
             return
 
+        if self.namespace_builtin(func, pos_args, named_args):
+            return
+
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
-                # Use the frame's globals(), not the interpreter's
-                self.vm.push(frame.f_globals)
-                return
-            elif func == locals:
-                # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
-                return
-
-            if func == compile:
-                # Set dont_inherit parameter.  FIXME: we should set
-                # other flags too based on the interpreted
-                # environment?
-                if len(pos_args) < 5 and "dont_inherit" not in named_args:
-                    named_args["dont_inherit"] = True
-                    pass
-            elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_exec_warning_shown:
-                        log.warning(
-                            "Running built-in `exec()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_exec_warning_shown = True
-
-            elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_eval_warning_shown:
-                        log.warning(
-                            "Running built-in `eval()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_eval_warning_shown = True
-
-            elif PYTHON_VERSION_TRIPLE >= (3, 0) and func == __build_class__:
+            if PYTHON_VERSION_TRIPLE >= (3, 0) and func == __build_class__:
                 assert len(pos_args) > 0, (
                     "__build_class__() should have at least one argument, an "
                     "__init__() function."
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0f951af..9680fc0 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -7,7 +7,7 @@ import types
 from copy import copy
 from sys import stderr
 
-from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
+from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, CO_OPTIMIZED, iscode
 from xdis.codetype.base import CodeBase
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
@@ -176,7 +176,7 @@ class Function:
         self.__code__ = code
         self.__name__ = name or code.co_name
         self.__defaults__ = tuple(argdefs) if argdefs else tuple()
-        self.__closure__ = closure
+        self.__closure__ = closure or None
 
         self.func_globals = globs
         self.func_locals = vm.frame.f_locals
@@ -505,6 +505,8 @@ class Frame(object):
         self.f_globals = f_globals
         self.f_locals = f_locals
         self.f_locals = f_locals
+        # The dictionary locals() returns in a function.
+        self.locals_dict = {}
         self.f_trace = None
         self.localsplusnames = localsplusnames
         self.stack = []
@@ -529,7 +531,7 @@ class Frame(object):
         else:
             try:
                 self.f_builtins = f_globals["__builtins__"]
-                if hasattr(self.f_builtins, "__dict__"):
+                if isinstance(self.f_builtins, ModuleType):
                     self.f_builtins = self.f_builtins.__dict__
             except KeyError:
                 # No builtins! Make up a minimal one with None.
@@ -604,6 +606,29 @@ class Frame(object):
             self.f_lasti,
         )
 
+    def locals(self):
+        """What locals() returns: in a function that is a dictionary which gets the
+        current values of its variables each time; elsewhere the namespace itself."""
+        if not self.f_code.co_flags & CO_OPTIMIZED:
+            if self.hidden_locals:
+                return {**self.f_locals, **self.hidden_locals}
+            return self.f_locals
+        variables = {
+            name: self.f_locals[name]
+            for name in self.f_code.co_varnames
+            if name in self.f_locals
+        }
+        for name, cell in (self.cells or {}).items():
+            if cell.is_empty():
+                variables.pop(name, None)
+            else:
+                variables[name] = cell.get()
+        for name in self.localsplusnames:
+            if name not in variables:
+                self.locals_dict.pop(name, None)
+        self.locals_dict.update(variables)
+        return self.locals_dict
+
     def line_number(self) -> int:
         """Get the current line number the frame is executing."""
         # We don't keep f_lineno up to date, so calculate it based on the
diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 64e9dc1..2cbef13 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -90,11 +90,12 @@ def coerce(x, y) -> tuple:
     return x, y
 
 
-def execfile(path: str) -> None:
+def execfile(path: str, f_globals: dict, f_locals=None) -> None:
     """
-    Python 1-2.x execfile for Python 3.x
+    Python 1-2.x execfile for Python 3.x. In interpreted code the namespaces are by
+    default those of the caller.
     """
-    exec(compile(open(path).read()))
+    exec(compile(open(path, "rb").read(), path, "exec"), f_globals, f_locals)
 
 
 class OverflowWarning(RuntimeError):
diff --git a/xpython/vm.py b/xpython/vm.py
index 67d2981..008ff57 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -456,7 +456,9 @@ class PyVM(object):
             print(last_line.encode("ascii", "backslashreplace").decode("ascii"))
 
     # This is the main entry point
-    def run_code(self, code, f_globals=None, f_locals=None, toplevel=True) -> Any:
+    def run_code(
+        self, code, f_globals=None, f_locals=None, toplevel=True, closure=None
+    ) -> Any:
         """run code using f_globals and f_locals in our VM.
 
         If toplevel is True, then the return is 0 on successful run, and the
@@ -465,7 +467,9 @@ class PyVM(object):
         is the value from the last RETURN_VALUE or RETURN_CONST instruction.
         This matters when this is called to interpret eval().
         """
-        frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
+        frame = self.make_frame(
+            code, f_globals=f_globals, f_locals=f_locals, closure=closure
+        )
         caller, exc_info = self.frame, self.exc_info
         try:
             try:
-- 
2.43.0


From 3a0095f3da1e6c2d54ed3a19c73489f8d3064a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 86/88] fix: a generator that returns None ends with an empty
 StopIteration

---
 xpython/pyobj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 9680fc0..7ced94b 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -730,6 +730,9 @@ class Generator(object):
         finally:
             self.gi_running = False
         if self.finished:
+            if val is None:
+                # As an exception without a value, not one with the value None.
+                raise StopIteration
             raise StopIteration(val)
         return val
 
-- 
2.43.0


From f368210ffea70f4d50eda149b4b735bdf428800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 87/88] fix: a 3.12 comprehension in a class body reads the
 enclosing function's names

---
 xpython/byteop/byteop312.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 9b78d56..beae810 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -258,7 +258,7 @@ class ByteOp312(ByteOp311):
         NULL.
         """
         cells = self.vm.frame.cells
-        if cells and name in cells:
+        if cells and name in self.vm.frame.f_code.co_cellvars:
             value, cells[name] = cells[name], Cell()
         else:
             value = self.fast_locals.pop(name, NULL)
-- 
2.43.0


From da7f2a383d2460f891ac75b0f4a73cb6b3747f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 88/88] fix: an exception raised while another is handled has
 that as its context

---
 xpython/byteop/byteop.py    |  1 +
 xpython/byteop/byteop24.py  |  6 +++++-
 xpython/byteop/byteop311.py | 10 ++++++----
 xpython/byteop/byteop312.py |  8 ++++----
 xpython/vm.py               | 24 ++++++++++++++++++++++++
 5 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index c2a7760..7f85792 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -556,6 +556,7 @@ class ByteOpBase(object):
 
             val.__cause__ = cause
 
+        self.vm.set_context(val, native=False)
         self.vm.last_exception = type(val), val, val.__traceback__
         return "exception"
 
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 115348d..379f8a1 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -377,8 +377,10 @@ class ByteOp24(ByteOpBase):
         attribute of the code object."""
         try:
             del self.vm.frame.f_locals[name]
+            return
         except Exception:
-            raise NameError(f"name '{name}' is not defined") from None
+            pass
+        raise NameError(f"name '{name}' is not defined")
 
     def UNPACK_SEQUENCE(self, count):
         """Unpacks TOS into count individual values, which are put onto the
@@ -530,6 +532,8 @@ class ByteOp24(ByteOpBase):
         try:
             import_fn = frame.f_builtins["__import__"]
         except KeyError:
+            import_fn = None
+        if import_fn is None:
             raise ImportError("__import__ not found")
 
         module = import_fn(name, frame.f_globals, frame.f_locals, fromlist, level)
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 740a707..7c6bb47 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -564,10 +564,12 @@ class ByteOp311(ByteOp310):
             try:
                 methods.append(self.lookup_special(context_manager, name))
             except AttributeError:
-                raise TypeError(
-                    f"{type(context_manager).__name__!r} object does not support "
-                    "the context manager protocol"
-                ) from None
+                break
+        if len(methods) < 2:
+            raise TypeError(
+                f"{type(context_manager).__name__!r} object does not support "
+                "the context manager protocol"
+            )
         enter_method, exit_method = methods
         self.vm.push(exit_method)
         self.vm.push(enter_method())
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index beae810..4483b9e 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -169,13 +169,13 @@ class ByteOp312(ByteOp311):
 
     def LOAD_FAST(self, name):
         """Pushes a reference to the local co_varnames[var_num] onto the stack."""
-        try:
-            self.vm.push(self.fast_locals[name])
-        except KeyError:
+        fast_locals = self.fast_locals
+        if name not in fast_locals:
             raise UnboundLocalError(
                 f"cannot access local variable '{name}' where it is not "
                 "associated with a value"
-            ) from None
+            )
+        self.vm.push(fast_locals[name])
 
     def LOAD_FAST_CHECK(self, name):
         """Pushes a reference to the local co_varnames[var_num] onto the
diff --git a/xpython/vm.py b/xpython/vm.py
index 008ff57..c1895ac 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -730,6 +730,7 @@ class PyVM(object):
             if not last_exception or last_exception[1] is not self.last_exception[1]:
                 # Not an exception which comes out of a call
                 self.last_traceback = byteop.traceback_from_frame()
+                self.set_context(self.last_exception[1])
 
             # FIXME: dry code
             if not self.in_exception_processing:
@@ -758,6 +759,29 @@ class PyVM(object):
 
         return why
 
+    def set_context(self, exc, native=True):
+        """Make the exception being handled the context of exc. If a native
+        function raised exc while it handled others, it is that of the first of
+        them.
+        """
+        handled = self.exc_info[1]
+        if self.version < (3, 0) or not isinstance(handled, BaseException):
+            return
+        seen = {id(None), id(exc)}
+        while native and id(exc.__context__) not in seen:
+            exc = exc.__context__
+            seen.add(id(exc))
+        if id(handled) in seen:
+            return
+        outer = handled
+        while id(outer.__context__) not in seen:
+            seen.add(id(outer))
+            outer = outer.__context__
+        if outer.__context__ is not None:
+            # Avoid a cycle
+            outer.__context__ = None
+        exc.__context__ = handled
+
     def manage_block_stack(self, why):
         """Manage a frame's block stack.
         Manipulate the block stack and data stack for looping,
-- 
2.43.0

