From 9d310854e6f0ae22b6536ced60c88071ed14be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 01/51] fix: consume every storage acknowledgement even if
 accounting one of them fails

Accounting for a deferred SETVALUE response may raise OutOfStepException, or
drain the queue by itself to collect refunds. Either left responses unread
(or popped from an empty queue), so the following conversation was out of
step with the node.
---
 pyee/pyexec/ipc/proxy.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0fd7c7e..3cd02db 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -454,20 +454,34 @@ class ServiceManagerProxy:
         return False
 
     def __handle_set_values(self, cnt: int):
-        for i in range(0, cnt):
-            handler, size = self.__set_handlers.pop(0)
+        error = None
+        # A handler may drain the remaining ones by itself (to get refunds)
+        while cnt > 0 and len(self.__set_handlers) > 0:
+            cnt -= 1
             msg, data = self.__client.receive()
+            handler, size = self.__set_handlers.pop(0)
             if msg != Message.SETVALUE:
                 raise Exception(f'InvalidMsg({msg}) exp={Message.SETVALUE}')
-            if handler is not None:
-                if data[0]:
-                    handler(True, data[1], size)
-                else:
-                    handler(False, 0, 0)
+            if handler is not None and error is None:
+                try:
+                    if data[0]:
+                        handler(True, data[1], size)
+                    else:
+                        handler(False, 0, 0)
+                except BaseException as e:
+                    # Remaining responses should be consumed anyway
+                    error = e
+        if error is not None:
+            raise error
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
         self.__client.send(msg, data)
-        self.handle_set_values()
+        try:
+            self.handle_set_values()
+        except BaseException:
+            # The response to this message should be consumed anyway
+            self.__client.receive()
+            raise
         return self.__client.receive()
 
     def get_value(self, key: bytes) -> Optional[bytes]:
-- 
2.43.0


From fe05af3799c6b32f79ad01e7b451edd2355ee04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 02/51] fix: answer the request even if its failure can't be
 handled normally

Steps may be exhausted while handling responses for storage operations after
the SCORE returns, and an exception raised by the SCORE may not be printable.
In both cases, the context was left in the stack and the process ended without
sending the result.
---
 pyee/pyexec/ipc/proxy.py      | 10 +++++++---
 pyee/pyexec/service_engine.py | 33 ++++++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 3cd02db..fe1cdd1 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -388,13 +388,17 @@ class ServiceManagerProxy:
                 self.encode(step_used),
                 self.encode_any(result)
             ])
-        except Exception as e:
+        except BaseException as e:
             e_str = traceback.format_exc()
             self.debug(f"Exception in INVOKE:\n{e_str}", TAG)
+            try:
+                message = self.encode_any(f'ExceptionInInvoke({str(e)})')
+            except BaseException:
+                message = self.encode_any('ExceptionInInvoke')
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
-                self.encode_any(f'ExceptionInInvoke({str(e)})')
+                message
             ])
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
@@ -410,7 +414,7 @@ class ServiceManagerProxy:
                     self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
             else:
                 self.__client.send(Message.GETAPI, [status, None])
-        except Exception:
+        except BaseException:
             e_str = traceback.format_exc()
             self.debug(f"Exception in GETAPI:\n{e_str}", TAG)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ef5356e..9d56cb0 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -21,6 +21,7 @@ from .iconscore.icon_score_base import IconScoreBase
 from .iconscore.icon_score_context import ContextContainer, IconScoreContext
 from .iconscore.icon_score_eventlog import EventLogEmitter
 from .iconscore.icon_score_mapper import IconScoreMapper
+from .iconscore.icon_score_step import OutOfStepException
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
@@ -63,8 +64,10 @@ class ServiceEngine(ContextContainer):
         Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
-        status, step_used, ret = cls._handle_invoke(context)
-        cls._pop_context()
+        try:
+            status, step_used, ret = cls._handle_invoke(context)
+        finally:
+            cls._pop_context()
 
         Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
@@ -90,15 +93,23 @@ class ServiceEngine(ContextContainer):
     @classmethod
     def _handle_invoke(cls, context):
         try:
-            ret = cls._internal_call(context)
-            status = Status.SUCCESS
-        except BaseException as e:
-            status, ret = cls._get_status_from_exception(e)
-        finally:
-            cls._proxy.handle_set_values()
-            if context.fee_sharing_proportion > 0:
-                cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
-            step_used = context.step_counter.step_used
+            try:
+                ret = cls._internal_call(context)
+                status = Status.SUCCESS
+            except BaseException as e:
+                status, ret = cls._get_status_from_exception(e)
+            finally:
+                cls._proxy.handle_set_values()
+        except OutOfStepException as e:
+            # steps are exhausted while handling the remaining responses
+            status, ret = e.code, e.message
+        except BaseException:
+            # the exception from the SCORE is not even printable
+            status, ret = ExceptionCode.SYSTEM_ERROR, 'Unknown error'
+
+        if context.fee_sharing_proportion > 0:
+            cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
+        step_used = context.step_counter.step_used
 
         return status, step_used, ret
 
-- 
2.43.0


From cdcefb06da0ee4cb51c74b30d42ce919cdf183fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 03/51] fix: do not run SCORE code while encoding results

Values returned by a SCORE are encoded after its context is removed, so methods
overridden by the SCORE on built-in types could access the storage without
permission or charge, or end the process with an exception not derived from
Exception.
---
 pyee/pyexec/ipc/proxy.py | 12 +++++++-----
 pyee/pyexec/pyexec.py    |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index fe1cdd1..41eecc4 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -333,28 +333,30 @@ class ServiceManagerProxy:
         if o is None:
             return TypeTag.NIL, None
         elif isinstance(o, dict):
+            # SCORE may override methods of built-in types, and it should not be
+            # executed while encoding. So, it uses methods of base types.
             m = {}
-            for k, v in o.items():
+            for k, v in dict.items(o):
                 if not isinstance(k, str):
                     raise Exception(f'InvalidKeyType:{type(k)}')
-                m[k] = self.encode_any(v)
+                m[str.__str__(k)] = self.encode_any(v)
             return TypeTag.DICT, m
         elif isinstance(o, list) or isinstance(o, tuple):
             lst = []
-            for v in o:
+            for v in (list if isinstance(o, list) else tuple).__iter__(o):
                 lst.append(self.encode_any(v))
             return TypeTag.LIST, lst
         elif isinstance(o, bytes):
             return TypeTag.BYTES, o
         elif isinstance(o, str):
-            return TypeTag.STRING, o.encode('utf-8')
+            return TypeTag.STRING, str.encode(o, 'utf-8')
         elif isinstance(o, bool):
             if o:
                 return TypeTag.BOOL, b'\x01'
             else:
                 return TypeTag.BOOL, b'\x00'
         elif isinstance(o, int):
-            return TypeTag.INT, int_to_bytes(o)
+            return TypeTag.INT, int_to_bytes(int.__int__(o))
         else:
             return self.__codec.encode(o)
 
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index b82d9bd..40591ca 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -33,7 +33,7 @@ version_number = 1
 class EECodec(Codec):
     def encode(self, obj) -> Tuple[int, bytes]:
         if isinstance(obj, Address):
-            return TypeTag.ADDRESS, obj.to_bytes()
+            return TypeTag.ADDRESS, Address.to_bytes(obj)
         raise Exception(f"UnknownType: {type(obj)}")
 
     def decode(self, t: int, b: bytes) -> Any:
-- 
2.43.0


From 320e16265211cd3dd940975152e785bdc3a8dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 04/51] fix: do not fail on logging text which can't be encoded
 in UTF-8

It ended the process while reporting a failed request (e.g. failure on
encoding a value of a class with a surrogate in its name).
---
 pyee/pyexec/ipc/proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 41eecc4..0353b56 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -553,7 +553,9 @@ class ServiceManagerProxy:
         flag = 0
         if level == Log.DEBUG or level == Log.TRACE:
             flag = LogFlag.TRACE
-        self.__client.send(Message.LOG, [int(level), int(flag), str(msg)])
+        # SCORE may include characters which can't be encoded in UTF-8
+        text = str(msg).encode('utf-8', 'backslashreplace').decode('utf-8')
+        self.__client.send(Message.LOG, [int(level), int(flag), text])
 
     def debug(self, msg: str, tag: str = 'LOG') -> None:
         self.log(Log.DEBUG, f"[{tag}] {msg}")
-- 
2.43.0


From b78c952ea0e0d38393475807904e047f74dcc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 05/51] fix: keep the conversation with the node on stack
 overflow

If the stack is exhausted (e.g. by re-entrant calls) between sending a message
and receiving its response, or on receiving a nested request, the following
messages were delivered to wrong frames. Now, exchanges of messages use the
reserved stack.
---
 pyee/pyexec/ipc/proxy.py | 76 +++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0353b56..7e76ba2 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import sys
 import traceback
 from abc import ABCMeta, abstractmethod
 from typing import Any, Tuple, List, Union, Callable, Optional
@@ -245,6 +246,26 @@ class APIInfo(object):
         return self.__values
 
 
+class StackReserve(object):
+    """
+    SCORE may use up the stack before it requests something to the node, but
+    the exchange of messages once it started should be finished.
+    """
+    SIZE = 300
+    __limit = sys.getrecursionlimit()
+
+    def __init__(self, size: int = SIZE):
+        self.__size = size
+        self.__old = None
+
+    def __enter__(self):
+        self.__old = sys.getrecursionlimit()
+        sys.setrecursionlimit(StackReserve.__limit + self.__size)
+
+    def __exit__(self, *_):
+        sys.setrecursionlimit(self.__old)
+
+
 class ServiceManagerProxy:
     def __init__(self):
         self.__client = Client()
@@ -382,8 +403,9 @@ class ServiceManagerProxy:
         try:
             self.__readonly_stack.append(self.__readonly)
             self.__readonly = is_query
-            status, step_used, result = self.__invoke(
-                code, is_query, _from, _to, value, limit, method, params, info)
+            with StackReserve(0):
+                status, step_used, result = self.__invoke(
+                    code, is_query, _from, _to, value, limit, method, params, info)
 
             self.__client.send(Message.RESULT, [
                 status,
@@ -408,7 +430,8 @@ class ServiceManagerProxy:
     def __handle_get_api(self, data):
         try:
             code = self.decode(TypeTag.STRING, data)
-            status, obj = self.__get_api(code)
+            with StackReserve(0):
+                status, obj = self.__get_api(code)
             if status == Status.SUCCESS:
                 if isinstance(obj, APIInfo):
                     self.__client.send(Message.GETAPI, [Status.SUCCESS, obj.get_data()])
@@ -438,24 +461,27 @@ class ServiceManagerProxy:
             'method': method,
             'params': params
         }
-        self.__client.send(Message.CALL, [
+        msg = [
             self.encode(to), self.encode(value), self.encode(step_limit),
             self.encode('call'), self.encode_any(data)
-        ])
-
-        while True:
-            msg, data = self.__client.receive()
-            if msg == Message.INVOKE:
-                self.__handle_invoke(data)
-            elif msg == Message.GETAPI:
-                self.__handle_get_api(data)
-            elif msg == Message.RESULT:
-                return data[0], self.decode(TypeTag.INT, data[1]), self.decode_any(data[2])
+        ]
+        with StackReserve():
+            self.__client.send(Message.CALL, msg)
+
+            while True:
+                msg, data = self.__client.receive()
+                if msg == Message.INVOKE:
+                    self.__handle_invoke(data)
+                elif msg == Message.GETAPI:
+                    self.__handle_get_api(data)
+                elif msg == Message.RESULT:
+                    return data[0], self.decode(TypeTag.INT, data[1]), self.decode_any(data[2])
 
     def handle_set_values(self) -> bool:
         count: int = len(self.__set_handlers)
         if count > 0:
-            self.__handle_set_values(count)
+            with StackReserve():
+                self.__handle_set_values(count)
             return True
         return False
 
@@ -481,14 +507,15 @@ class ServiceManagerProxy:
             raise error
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
-        self.__client.send(msg, data)
-        try:
-            self.handle_set_values()
-        except BaseException:
-            # The response to this message should be consumed anyway
-            self.__client.receive()
-            raise
-        return self.__client.receive()
+        with StackReserve():
+            self.__client.send(msg, data)
+            try:
+                self.handle_set_values()
+            except BaseException:
+                # The response to this message should be consumed anyway
+                self.__client.receive()
+                raise
+            return self.__client.receive()
 
     def get_value(self, key: bytes) -> Optional[bytes]:
         msg, value = self.send_and_receive(Message.GETVALUE, key)
@@ -513,7 +540,8 @@ class ServiceManagerProxy:
             size = 0 if value is None else len(value)
             self.__set_handlers.append((cb, size))
             if len(self.__set_handlers) > MAX_SET_VALUE_HANDLERS:
-                self.__handle_set_values(len(self.__set_handlers) - MAX_SET_VALUE_HANDLERS)
+                with StackReserve():
+                    self.__handle_set_values(len(self.__set_handlers) - MAX_SET_VALUE_HANDLERS)
 
     def set_fee_proportion(self, pct: int):
         if self.__readonly:
-- 
2.43.0


From 72b8f853522c8ed22ba92de70a2265c7a4664c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 06/51] fix: check that the method can be called before
 converting its parameters

Named parameters were converted before the check, so requesting a name which is
not external failed with other status, and even executed the code of the
contract if the name is of a property.
---
 pyee/pyexec/iconscore/icon_score_base.py | 27 ++++++++++++++++--------
 pyee/pyexec/service_engine.py            |  2 ++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 72cb6e8..71d71b9 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -437,6 +437,24 @@ class IconScoreBase(IconScoreObject, ContextGetter,
                arg_params: Optional[list] = None,
                kw_params: Optional[dict] = None) -> Any:
 
+        self.__validate_call(func_name)
+
+        score_func = getattr(self, func_name)
+        if func_name == STR_FALLBACK:
+            ret = score_func()
+        else:
+            if arg_params is None:
+                arg_params = []
+            if kw_params is None:
+                kw_params = {}
+            ret = score_func(*arg_params, **kw_params)
+        return ret
+
+    def __validate_call(self, func_name: str):
+        """Validate whether the method indicated by func_name can be called by the current message
+
+        :param func_name: name of method
+        """
         if func_name != STR_FALLBACK and \
                 func_name != STR_ON_INSTALL and \
                 func_name != STR_ON_UPDATE:
@@ -446,17 +464,8 @@ class IconScoreBase(IconScoreObject, ContextGetter,
             if not self.__is_payable_method(func_name):
                 raise MethodNotFoundException(
                     f"Method not found: {type(self).__name__}.{func_name}")
-            score_func = getattr(self, func_name)
-            ret = score_func()
         else:
             self.__check_payable(func_name)
-            score_func = getattr(self, func_name)
-            if arg_params is None:
-                arg_params = []
-            if kw_params is None:
-                kw_params = {}
-            ret = score_func(*arg_params, **kw_params)
-        return ret
 
     def __check_payable(self, func_name: str):
         if self.msg.value > 0 and not self.__is_payable_method(func_name):
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 9d56cb0..ce3ec95 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -123,6 +123,8 @@ class ServiceEngine(ContextContainer):
         context.set_func_type_by_icon_score(icon_score, func_name)
 
         if isinstance(context.params, dict):
+            # params can be converted only for callable method
+            getattr(icon_score, '_IconScoreBase__validate_call')(func_name)
             arg_params = []
             params: dict = decode_params(context.params)
             kw_params = cls._convert_score_params_by_annotations(icon_score, func_name, params)
-- 
2.43.0


From 91ccc06eadc60829c58c0fe930bfe7c2f215812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 07/51] fix: accept a struct used more than once in another
 struct

---
 pyee/pyexec/iconscore/typing/element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/typing/element.py b/pyee/pyexec/iconscore/typing/element.py
index 5aff633..ca76c4b 100644
--- a/pyee/pyexec/iconscore/typing/element.py
+++ b/pyee/pyexec/iconscore/typing/element.py
@@ -444,7 +444,8 @@ def check_if_struct_is_valid(type_hint: type, structs: Set[Any] = None):
     if type_hint in structs:
         raise IllegalFormatException(f"Circular type hint: {type_hint}")
 
-    structs.add(type_hint)
+    # A struct is circular only if it contains itself
+    structs = structs | {type_hint}
     annotations = get_annotations(type_hint, None)
 
     size = len(annotations)
-- 
2.43.0


From d1665accf24c99a445ac8b6fdde574b41eef87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 08/51] fix: convert a parameter named cls like any other one

---
 pyee/pyexec/base/type_converter.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyee/pyexec/base/type_converter.py b/pyee/pyexec/base/type_converter.py
index 616152a..c9b7653 100644
--- a/pyee/pyexec/base/type_converter.py
+++ b/pyee/pyexec/base/type_converter.py
@@ -228,9 +228,6 @@ class TypeConverter:
     @staticmethod
     def convert_data_params(annotation_params: dict, kw_params: dict) -> None:
         for key, param in annotation_params.items():
-            if key == 'self' or key == 'cls':
-                continue
-
             kw_param = kw_params.get(key)
             if kw_param is None:
                 continue
-- 
2.43.0


From 501aabef8e554a5ef493b6c1c73543108363ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 09/51] fix: refuse invalid texts of integers and byte strings

---
 pyee/pyexec/base/type_converter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyee/pyexec/base/type_converter.py b/pyee/pyexec/base/type_converter.py
index c9b7653..8998e55 100644
--- a/pyee/pyexec/base/type_converter.py
+++ b/pyee/pyexec/base/type_converter.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import re
 from copy import deepcopy
 from typing import Union, Any, get_type_hints
 
@@ -21,6 +22,11 @@ from .address import Address, MalformedAddress, is_icon_address_valid
 from .exception import InvalidParamsException
 from ..utils import get_main_type_from_annotations_type
 
+# int() and bytes.fromhex() accept more than the valid representations
+# (white spaces, underscores and non-ASCII digits)
+_INT_PATTERN = re.compile(r'-?0x[0-9a-fA-F]+|[-+]?[0-9]+')
+_BYTES_PATTERN = re.compile(r'(0x)?([0-9a-fA-F]{2})*')
+
 score_base_support_type = (int, str, bytes, bool, Address)
 
 
@@ -151,6 +157,8 @@ class TypeConverter:
     @staticmethod
     def _convert_value_int(value: str) -> int:
         if isinstance(value, str):
+            if not _INT_PATTERN.fullmatch(value):
+                raise InvalidParamsException(f'TypeConvert Exception int value :{value}')
             if value.startswith('0x') or value.startswith('-0x'):
                 return int(value, 16)
             else:
@@ -208,6 +216,8 @@ class TypeConverter:
     @staticmethod
     def _convert_value_bytes(value: str) -> bytes:
         if isinstance(value, str):
+            if not _BYTES_PATTERN.fullmatch(value):
+                raise InvalidParamsException(f'TypeConvert Exception bytes value :{value}')
             if value.startswith('0x'):
                 return bytes.fromhex(value[2:])
             else:
-- 
2.43.0


From 050dbe2a4cb789b6c46e08f0ae8e0c9e909db7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 10/51] fix: refuse unknown keyword arguments of event
 functions

---
 pyee/pyexec/iconscore/icon_score_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 71d71b9..2cb8f89 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -200,6 +200,12 @@ def __resolve_arguments(function_name, parameters, args, kwargs) -> List[Any]:
         raise IllegalFormatException(
             f"The maximum number of arguments which event log method({function_name}) can accept is exceeded")
 
+    names = [parameter.name for parameter in parameters][1:]
+    for name in kwargs:
+        if name not in names:
+            raise IllegalFormatException(
+                f"Unknown argument for '{function_name}': {name}")
+
     for i, parameter in enumerate(parameters, -1):
         if i < 0:
             # pass the self parameter
-- 
2.43.0


From d23f4c10047a643877f55417d41bf4728b3cdb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 11/51] fix: do not fail or run SCORE code on logging values

---
 pyee/pyexec/iconscore/internal_call.py |  8 ++---
 pyee/pyexec/logger/__init__.py         |  1 +
 pyee/pyexec/logger/utils.py            | 41 +++++++++++++++++++++++++-
 pyee/pyexec/pyexec.py                  |  6 ++--
 pyee/pyexec/service_engine.py          |  6 ++--
 5 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 7d2f2b9..5b0d035 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -19,7 +19,7 @@ from ..base.address import Address
 from ..base.exception import ExceptionCode, IconServiceBaseException
 from ..iconscore.icon_score_constant import STR_FALLBACK
 from ..ipc import MethodName
-from ..logger import Logger
+from ..logger import Logger, printable
 
 if TYPE_CHECKING:
     from .icon_score_context import IconScoreContext
@@ -59,11 +59,11 @@ class InternalCall(object):
         else:
             params = []
         if Logger.isDebugEnabled():
-            Logger.debug(f'>>> from={addr_from} to={addr_to} amount={amount} func_name={func_name}', TAG)
-            Logger.debug(f'    new_limit={new_limit}, params={params}', TAG)
+            Logger.debug(f'>>> from={addr_from} to={printable(addr_to)} amount={printable(amount)} func_name={printable(func_name)}', TAG)
+            Logger.debug(f'    new_limit={new_limit}, params={printable(params)}', TAG)
         status, step_used, result = \
             cls._proxy.call(addr_to, amount, new_limit, func_name, params)
-        Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
+        Logger.debug(f'<<< Result: {status}, {step_used}, {printable(result)}', TAG)
 
         if step_used > new_limit:
             context.step_counter.add_step(new_limit)
diff --git a/pyee/pyexec/logger/__init__.py b/pyee/pyexec/logger/__init__.py
index 4effb14..f49fad5 100644
--- a/pyee/pyexec/logger/__init__.py
+++ b/pyee/pyexec/logger/__init__.py
@@ -13,3 +13,4 @@
 # limitations under the License.
 
 from .logger import Logger, SystemLogger
+from .utils import printable
diff --git a/pyee/pyexec/logger/utils.py b/pyee/pyexec/logger/utils.py
index 1a711a8..669e18a 100644
--- a/pyee/pyexec/logger/utils.py
+++ b/pyee/pyexec/logger/utils.py
@@ -16,7 +16,9 @@ import logging
 import os
 from enum import Flag
 from logging import Logger as builtinLogger, FileHandler, Formatter
-from typing import Union
+from typing import Any, Union
+
+from ..base.address import Address
 
 
 class OutputType(Flag):
@@ -125,3 +127,40 @@ class LoggerUtil(object):
     @classmethod
     def make_log_msg(cls, tag: str, msg: Union[str, BaseException]):
         return f'[{tag}] {msg}'
+
+
+def printable(o: Any) -> str:
+    """
+    Returns a string of the value for logging.
+    It never fails, and does not run any code of SCORE (which may override
+    methods of built-in types).
+    """
+    try:
+        return _printable(o)
+    except Exception:
+        # e.g. too deep to print
+        return '<unprintable>'
+
+
+def _printable(o: Any) -> str:
+    typ = type(o)
+    if o is None or typ is bool:
+        return repr(o)
+    elif issubclass(typ, int):
+        # decimal form is limited in size
+        return int.__repr__(o) if int.bit_length(o) <= 1024 else int.__format__(o, '#x')
+    elif issubclass(typ, str):
+        return str.__repr__(o)
+    elif issubclass(typ, bytes):
+        return bytes.__repr__(o)
+    elif issubclass(typ, dict):
+        items = [f'{_printable(k)}: {_printable(v)}' for k, v in dict.items(o)]
+        return '{' + ', '.join(items) + '}'
+    elif issubclass(typ, list):
+        return '[' + ', '.join([_printable(v) for v in list.__iter__(o)]) + ']'
+    elif issubclass(typ, tuple):
+        return '(' + ', '.join([_printable(v) for v in tuple.__iter__(o)]) + ')'
+    elif issubclass(typ, Address):
+        return Address.__repr__(o)
+    else:
+        return object.__repr__(o)
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index 40591ca..b2e3677 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -23,7 +23,7 @@ from .icon_constant import IconScoreContextType, Status
 from .iconscore.icon_score_context import IconScoreContext
 from .iconscore.icon_score_step import IconScoreStepCounter
 from .ipc.proxy import ServiceManagerProxy, Codec, TypeTag, APIInfo, APIType, DataType, Info, Log, SetHandler
-from .logger import Logger
+from .logger import Logger, printable
 from .service_engine import ServiceEngine
 
 TAG = 'PyExec'
@@ -129,7 +129,7 @@ class PyExecEngine(object):
                        value: int, limit: int, method: str, params: Any, info: Any) -> Tuple[int, int, Any]:
         if Logger.isDebugEnabled():
             Logger.debug(f'[invoke_handle] code={repr(code)},is_query={is_query},from={_from},to={to},' +
-                         f'value={value},limit={limit},method={repr(method)},params={params},info={info}', TAG)
+                         f'value={value},limit={limit},method={repr(method)},params={printable(params)},info={info}', TAG)
         context = IconScoreContext(IconScoreContextType.QUERY if is_query
                                    else IconScoreContextType.INVOKE)
         context.set_invoke_params(code, to, method, params)
@@ -211,7 +211,7 @@ class PyExecEngine(object):
         return ret
 
     def send_event(self, indexed: List[Any], data: List[Any]):
-        Logger.debug(f"send_event({indexed}, {data})", TAG)
+        Logger.debug(f"send_event({printable(indexed)}, {printable(data)})", TAG)
         self.__proxy.send_event(indexed, data)
 
     def process(self):
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ce3ec95..302ae50 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -24,7 +24,7 @@ from .iconscore.icon_score_mapper import IconScoreMapper
 from .iconscore.icon_score_step import OutOfStepException
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
-from .logger import Logger, SystemLogger
+from .logger import Logger, SystemLogger, printable
 
 TAG = 'ServiceEngine'
 
@@ -61,7 +61,7 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def invoke(cls, context: IconScoreContext):
-        Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
+        Logger.debug(f'[invoke] {context.method}, {printable(context.params)}', TAG)
 
         cls._push_context(context)
         try:
@@ -69,7 +69,7 @@ class ServiceEngine(ContextContainer):
         finally:
             cls._pop_context()
 
-        Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
+        Logger.debug(f'*** RESULT: {status}, {step_used}, {printable(ret)}', TAG)
         return status, step_used, ret
 
     @classmethod
-- 
2.43.0


From 9bc90ba7f010e84de8d884ef6cdc757d1a8cb951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 12/51] fix: do not run SCORE code on logging an exception

---
 pyee/pyexec/logger/utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/logger/utils.py b/pyee/pyexec/logger/utils.py
index 669e18a..fe32daa 100644
--- a/pyee/pyexec/logger/utils.py
+++ b/pyee/pyexec/logger/utils.py
@@ -14,6 +14,7 @@
 
 import logging
 import os
+import traceback
 from enum import Flag
 from logging import Logger as builtinLogger, FileHandler, Formatter
 from typing import Any, Union
@@ -65,6 +66,18 @@ class LogConfig:
         return LogConfig(name, level, file_path, fmt, output_type)
 
 
+class ScoreFormatter(Formatter):
+    """
+    String of an exception may be made by SCORE, and whether it's executed
+    should not depend on the log level. So, it prints only the place of it.
+    """
+    def formatException(self, ei) -> str:
+        lines = ['Traceback (most recent call last):\n']
+        lines += traceback.format_tb(ei[2])
+        lines.append(object.__repr__(ei[1]))
+        return ''.join(lines)
+
+
 class LoggerUtil(object):
     _formatter: 'Formatter' = None
 
@@ -95,7 +108,7 @@ class LoggerUtil(object):
 
     @classmethod
     def _apply_config(cls, logger: 'builtinLogger', log_config: 'LogConfig', custom_handler=None):
-        cls._formatter = Formatter(log_config.fmt)
+        cls._formatter = ScoreFormatter(log_config.fmt)
 
         if cls._is_flag_on(log_config.output_type, OutputType.CONSOLE):
             handler = logging.StreamHandler()
-- 
2.43.0


From d63fbf25939786575ce780de2fac708ccab3460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 13/51] fix: do not run SCORE code depending on the log level

---
 pyee/pyexec/logger/logger.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyee/pyexec/logger/logger.py b/pyee/pyexec/logger/logger.py
index 9986289..8bb420c 100644
--- a/pyee/pyexec/logger/logger.py
+++ b/pyee/pyexec/logger/logger.py
@@ -16,7 +16,7 @@ import logging
 import os
 import sys
 
-from logging import DEBUG, INFO, WARNING, ERROR, currentframe
+from logging import DEBUG, INFO, WARNING, currentframe
 from .utils import LoggerUtil
 
 default_logger = logging.Logger("python")
@@ -51,32 +51,34 @@ class Logger(object):
 
     @classmethod
     def debug(cls, msg: str, tag: str = "DEBUG"):
+        # make the text always, because it may run code of SCORE
+        text = LoggerUtil.make_log_msg(tag, msg)
         if default_logger.isEnabledFor(DEBUG):
-            cls._log(DEBUG, LoggerUtil.make_log_msg(tag, msg))
+            cls._log(DEBUG, text)
 
     @classmethod
     def info(cls, msg: str, tag: str = "INFO"):
+        text = LoggerUtil.make_log_msg(tag, msg)
         if default_logger.isEnabledFor(INFO):
-            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
+            cls._log(INFO, text)
 
     @classmethod
     def warning(cls, msg: str, tag: str = "WARN"):
-        if default_logger.isEnabledFor(WARNING):
-            # redirect warning to info
-            cls.info(msg, tag)
+        # redirect warning to info
+        cls.info(msg, tag)
 
     @classmethod
     def error(cls, msg: str, tag: str = "ERROR"):
-        if default_logger.isEnabledFor(ERROR):
-            # redirect error to info
-            cls.info(msg, tag)
+        # redirect error to info
+        cls.info(msg, tag)
 
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
+        text = LoggerUtil.make_log_msg(tag, msg)
         if default_logger.isEnabledFor(DEBUG):
-            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg), exc_info=True)
+            cls._log(INFO, text, exc_info=True)
         elif default_logger.isEnabledFor(INFO):
-            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
+            cls._log(INFO, text)
 
     @classmethod
     def _log(cls, level, msg, args=None, exc_info=None, extra=None):
@@ -128,5 +130,6 @@ class Logger(object):
 class SystemLogger(Logger):
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
+        text = LoggerUtil.make_log_msg(tag, msg)
         if default_logger.isEnabledFor(WARNING):
-            cls._log(WARNING, LoggerUtil.make_log_msg(tag, msg), exc_info=True)
+            cls._log(WARNING, text, exc_info=True)
-- 
2.43.0


From c0d2b3c725c47fb5cc9a06ece676de8122e0061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 14/51] fix: do not print addresses of objects in logs

---
 pyee/pyexec/logger/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyee/pyexec/logger/utils.py b/pyee/pyexec/logger/utils.py
index fe32daa..c112ad2 100644
--- a/pyee/pyexec/logger/utils.py
+++ b/pyee/pyexec/logger/utils.py
@@ -74,7 +74,6 @@ class ScoreFormatter(Formatter):
     def formatException(self, ei) -> str:
         lines = ['Traceback (most recent call last):\n']
         lines += traceback.format_tb(ei[2])
-        lines.append(object.__repr__(ei[1]))
         return ''.join(lines)
 
 
@@ -176,4 +175,4 @@ def _printable(o: Any) -> str:
     elif issubclass(typ, Address):
         return Address.__repr__(o)
     else:
-        return object.__repr__(o)
+        return '<object>'
-- 
2.43.0


From e296a652295a2816623bebe3fba91997771ed719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 15/51] fix: give the executor's own code the same stack at any
 log level

---
 pyee/pyexec/ipc/proxy.py      | 30 ++++--------------------
 pyee/pyexec/logger/logger.py  | 32 ++++++++++++++------------
 pyee/pyexec/service_engine.py | 21 +++++++++++++----
 pyee/pyexec/utils/stack.py    | 43 +++++++++++++++++++++++++++++++++++
 4 files changed, 81 insertions(+), 45 deletions(-)
 create mode 100644 pyee/pyexec/utils/stack.py

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 7e76ba2..0db6aa8 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -12,12 +12,12 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import sys
 import traceback
 from abc import ABCMeta, abstractmethod
 from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
+from ..utils.stack import StackReserve
 
 TAG = 'Proxy'
 
@@ -246,26 +246,6 @@ class APIInfo(object):
         return self.__values
 
 
-class StackReserve(object):
-    """
-    SCORE may use up the stack before it requests something to the node, but
-    the exchange of messages once it started should be finished.
-    """
-    SIZE = 300
-    __limit = sys.getrecursionlimit()
-
-    def __init__(self, size: int = SIZE):
-        self.__size = size
-        self.__old = None
-
-    def __enter__(self):
-        self.__old = sys.getrecursionlimit()
-        sys.setrecursionlimit(StackReserve.__limit + self.__size)
-
-    def __exit__(self, *_):
-        sys.setrecursionlimit(self.__old)
-
-
 class ServiceManagerProxy:
     def __init__(self):
         self.__client = Client()
@@ -403,9 +383,8 @@ class ServiceManagerProxy:
         try:
             self.__readonly_stack.append(self.__readonly)
             self.__readonly = is_query
-            with StackReserve(0):
-                status, step_used, result = self.__invoke(
-                    code, is_query, _from, _to, value, limit, method, params, info)
+            status, step_used, result = self.__invoke(
+                code, is_query, _from, _to, value, limit, method, params, info)
 
             self.__client.send(Message.RESULT, [
                 status,
@@ -430,8 +409,7 @@ class ServiceManagerProxy:
     def __handle_get_api(self, data):
         try:
             code = self.decode(TypeTag.STRING, data)
-            with StackReserve(0):
-                status, obj = self.__get_api(code)
+            status, obj = self.__get_api(code)
             if status == Status.SUCCESS:
                 if isinstance(obj, APIInfo):
                     self.__client.send(Message.GETAPI, [Status.SUCCESS, obj.get_data()])
diff --git a/pyee/pyexec/logger/logger.py b/pyee/pyexec/logger/logger.py
index 8bb420c..c75ca37 100644
--- a/pyee/pyexec/logger/logger.py
+++ b/pyee/pyexec/logger/logger.py
@@ -18,6 +18,7 @@ import sys
 
 from logging import DEBUG, INFO, WARNING, currentframe
 from .utils import LoggerUtil
+from ..utils.stack import StackReserve
 
 default_logger = logging.Logger("python")
 
@@ -52,15 +53,11 @@ class Logger(object):
     @classmethod
     def debug(cls, msg: str, tag: str = "DEBUG"):
         # make the text always, because it may run code of SCORE
-        text = LoggerUtil.make_log_msg(tag, msg)
-        if default_logger.isEnabledFor(DEBUG):
-            cls._log(DEBUG, text)
+        cls._log(DEBUG, LoggerUtil.make_log_msg(tag, msg))
 
     @classmethod
     def info(cls, msg: str, tag: str = "INFO"):
-        text = LoggerUtil.make_log_msg(tag, msg)
-        if default_logger.isEnabledFor(INFO):
-            cls._log(INFO, text)
+        cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
 
     @classmethod
     def warning(cls, msg: str, tag: str = "WARN"):
@@ -74,14 +71,21 @@ class Logger(object):
 
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
-        text = LoggerUtil.make_log_msg(tag, msg)
-        if default_logger.isEnabledFor(DEBUG):
-            cls._log(INFO, text, exc_info=True)
-        elif default_logger.isEnabledFor(INFO):
-            cls._log(INFO, text)
+        cls._log(INFO, LoggerUtil.make_log_msg(tag, msg), exc_level=DEBUG)
 
     @classmethod
-    def _log(cls, level, msg, args=None, exc_info=None, extra=None):
+    def _log(cls, level, msg, exc_level=None):
+        """
+        Logs the message if the level is enabled.
+        It takes the same amount of the stack of SCORE at any log level.
+        """
+        with StackReserve():
+            if default_logger.isEnabledFor(level):
+                exc_info = exc_level is not None and default_logger.isEnabledFor(exc_level)
+                cls._log_record(level, msg, exc_info=exc_info)
+
+    @classmethod
+    def _log_record(cls, level, msg, args=None, exc_info=None, extra=None):
         """
         Low-level logging routine which creates a LogRecord and then calls
         all the handlers of this logger to handle the record.
@@ -130,6 +134,4 @@ class Logger(object):
 class SystemLogger(Logger):
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
-        text = LoggerUtil.make_log_msg(tag, msg)
-        if default_logger.isEnabledFor(WARNING):
-            cls._log(WARNING, text, exc_info=True)
+        cls._log(WARNING, LoggerUtil.make_log_msg(tag, msg), exc_level=WARNING)
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 302ae50..643a21f 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -25,6 +25,7 @@ from .iconscore.icon_score_step import OutOfStepException
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger, printable
+from .utils.stack import StackReserve
 
 TAG = 'ServiceEngine'
 
@@ -74,6 +75,11 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def get_score_api(cls, code: str, verify_package=False):
+        with StackReserve(0):
+            return cls._get_score_api(code, verify_package)
+
+    @classmethod
+    def _get_score_api(cls, code: str, verify_package: bool):
         try:
             if verify_package:
                 ScorePackageValidator.execute(code)
@@ -94,10 +100,8 @@ class ServiceEngine(ContextContainer):
     def _handle_invoke(cls, context):
         try:
             try:
-                ret = cls._internal_call(context)
-                status = Status.SUCCESS
-            except BaseException as e:
-                status, ret = cls._get_status_from_exception(e)
+                with StackReserve(0):
+                    status, ret = cls._execute(context)
             finally:
                 cls._proxy.handle_set_values()
         except OutOfStepException as e:
@@ -113,6 +117,15 @@ class ServiceEngine(ContextContainer):
 
         return status, step_used, ret
 
+    @classmethod
+    def _execute(cls, context):
+        try:
+            ret = cls._internal_call(context)
+            status = Status.SUCCESS
+        except BaseException as e:
+            status, ret = cls._get_status_from_exception(e)
+        return status, ret
+
     @classmethod
     def _internal_call(cls, context: IconScoreContext):
         icon_score: 'IconScoreBase' = cls._get_icon_score(context.to, context.code)
diff --git a/pyee/pyexec/utils/stack.py b/pyee/pyexec/utils/stack.py
new file mode 100644
index 0000000..c4cf54c
--- /dev/null
+++ b/pyee/pyexec/utils/stack.py
@@ -0,0 +1,43 @@
+# Copyright 2026 ICON Foundation
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import sys
+
+
+class StackReserve(object):
+    """
+    SCORE may use up the stack before it requests something to the executor,
+    but what the executor does (ex: exchanging messages with the node) should be
+    finished once it's started. So, it's given more stack than SCORE has.
+    """
+    SIZE = 300
+    __limit = sys.getrecursionlimit()
+
+    def __init__(self, size: int = SIZE):
+        self.__size = size
+        self.__old = None
+
+    def __enter__(self):
+        # ensure that there is room for __exit__(), which can't set the limit to
+        # the depth where it's called
+        StackReserve.__probe()
+        self.__old = sys.getrecursionlimit()
+        sys.setrecursionlimit(StackReserve.__limit + self.__size)
+
+    def __exit__(self, *_):
+        sys.setrecursionlimit(self.__old)
+
+    @staticmethod
+    def __probe():
+        pass
-- 
2.43.0


From 1fb4ca3efdcdf6a32d7b3c09370af4b543290f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 16/51] fix: keep responses for the caller apart from a call
 made while encoding it

---
 pyee/pyexec/base/address.py            | 6 +++---
 pyee/pyexec/iconscore/internal_call.py | 2 +-
 pyee/pyexec/ipc/proxy.py               | 2 ++
 pyee/pyexec/logger/utils.py            | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyee/pyexec/base/address.py b/pyee/pyexec/base/address.py
index 085000d..12952cc 100644
--- a/pyee/pyexec/base/address.py
+++ b/pyee/pyexec/base/address.py
@@ -153,7 +153,7 @@ class Address(object):
 
         :return: (str) 42-char address
         """
-        return f'{str(self.prefix)}{self.body.hex()}'
+        return f'{str(self.__prefix)}{self.__body.hex()}'
 
     def __repr__(self) -> str:
         return self.__str__()
@@ -233,8 +233,8 @@ class Address(object):
 
         :return: :class:`.bytes` data including information of Address object
         """
-        prefix_byte = self.prefix.value.to_bytes(1, DATA_BYTE_ORDER)
-        return prefix_byte + self.body
+        prefix_byte = self.__prefix.value.to_bytes(1, DATA_BYTE_ORDER)
+        return prefix_byte + self.__body
 
     @staticmethod
     def from_prefix_and_int(prefix: AddressPrefix, num: int):
diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 5b0d035..5f8eeca 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -49,7 +49,6 @@ class InternalCall(object):
                      kw_params: Optional[dict] = None) -> Any:
         if func_name is None or func_name == STR_FALLBACK:
             func_name = MethodName.FALLBACK
-        new_limit = context.step_counter.step_remained
         if kw_params is not None and len(kw_params) > 0:
             params = deepcopy(kw_params)
             if arg_params is not None and len(arg_params) > 0:
@@ -58,6 +57,7 @@ class InternalCall(object):
             params = arg_params
         else:
             params = []
+        new_limit = context.step_counter.step_remained
         if Logger.isDebugEnabled():
             Logger.debug(f'>>> from={addr_from} to={printable(addr_to)} amount={printable(amount)} func_name={printable(func_name)}', TAG)
             Logger.debug(f'    new_limit={new_limit}, params={printable(params)}', TAG)
diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0db6aa8..d289a37 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -444,6 +444,8 @@ class ServiceManagerProxy:
             self.encode('call'), self.encode_any(data)
         ]
         with StackReserve():
+            # The callee should not see responses for the caller
+            self.handle_set_values()
             self.__client.send(Message.CALL, msg)
 
             while True:
diff --git a/pyee/pyexec/logger/utils.py b/pyee/pyexec/logger/utils.py
index c112ad2..26d54fb 100644
--- a/pyee/pyexec/logger/utils.py
+++ b/pyee/pyexec/logger/utils.py
@@ -173,6 +173,6 @@ def _printable(o: Any) -> str:
     elif issubclass(typ, tuple):
         return '(' + ', '.join([_printable(v) for v in tuple.__iter__(o)]) + ')'
     elif issubclass(typ, Address):
-        return Address.__repr__(o)
+        return Address.__str__(o)
     else:
         return '<object>'
-- 
2.43.0


From b8a582abbe4217c805f76214efe712677a40d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 17/51] fix: run no code of a package while verifying it

---
 .../iconscore/score_package_validator.py      | 30 +++++--------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ed66daf..5dae0a5 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -14,7 +14,7 @@
 
 import importlib.util
 import os
-import sys
+from importlib.machinery import SourceFileLoader
 
 from ..base.exception import IllegalFormatException
 
@@ -73,22 +73,13 @@ class ScorePackageValidator(object):
 
     @classmethod
     def execute(cls, code_path: str):
-        dirname: str = os.path.dirname(code_path)
-        package: str = os.path.basename(code_path)
-
         cls.CUSTOM_IMPORT_LIST = cls._make_custom_import_list(code_path)
         cls._init_iconservice_whitelist()
-        if dirname not in sys.path:
-            sys.path.append(dirname)
-
-        # in order for the new module to be noticed by the import system
-        importlib.invalidate_caches()
-
-        for imp in cls.CUSTOM_IMPORT_LIST:
-            full_name = f'{package}.{imp}'
 
-            spec = importlib.util.find_spec(full_name)
-            code = spec.loader.get_code(full_name)
+        for path in cls.CUSTOM_IMPORT_LIST:
+            # The source is compiled without importing it or its parent packages
+            loader = SourceFileLoader(path, path)
+            code = loader.source_to_code(loader.get_data(path), path)
 
             cls._validate_import_from_code(code)
             cls._validate_import_from_const(code.co_consts)
@@ -99,17 +90,10 @@ class ScorePackageValidator(object):
         tmp_list = []
         for dir_path, _, filenames in os.walk(pkg_root_path):
             for file in filenames:
-                file_name, extension = os.path.splitext(file)
+                _, extension = os.path.splitext(file)
                 if extension != '.py':
                     continue
-                sub_pkg_path = os.path.relpath(dir_path, pkg_root_path)
-                if sub_pkg_path == '.':
-                    pkg_path = file_name
-                else:
-                    # sub_package
-                    sub_pkg_path = sub_pkg_path.replace('/', '.')
-                    pkg_path = f'{sub_pkg_path}.{file_name}'
-                tmp_list.append(pkg_path)
+                tmp_list.append(os.path.join(dir_path, file))
         return tmp_list
 
     @classmethod
-- 
2.43.0


From 55390d88e81d413b50af95b1fa881395b25b75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 18/51] fix: verify packages on current Python versions

---
 .../iconscore/score_package_validator.py      | 81 ++++++++-----------
 1 file changed, 34 insertions(+), 47 deletions(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index 5dae0a5..ddecf32 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import dis
 import importlib.util
 import os
 from importlib.machinery import SourceFileLoader
@@ -23,20 +24,11 @@ CODE_NAMES_ATTR = 'co_names'
 
 BLACKLIST_RESERVED_KEYWORD = ['exec', 'eval', 'compile', '__import__']
 
-LOAD_CONST = 100
-IMPORT_STAR = 84
-IMPORT_NAME = 108
-IMPORT_FROM = 109
+# CALL_INTRINSIC_1 does what IMPORT_STAR did, since Python 3.12
+INTRINSIC_IMPORT_STAR = 2
 
 BASE_PACKAGE = 'iconservice'
 
-# == OPCODE ==
-# 20 LOAD_CONST(key1) value1
-# 22 LOAD_CONST(key2) value2
-# ============
-# ...
-OPCODE_HEADER_END_INDEX = 4
-
 
 class ScorePackageValidator(object):
     WHITELIST_IMPORT = {'iconservice': []}
@@ -58,16 +50,11 @@ class ScorePackageValidator(object):
         if not hasattr(code, CODE_ATTR):
             return
 
-        byte_code_list = [x for x in code.co_code]
-
-        length_byte_code_list = len(byte_code_list)
-        for code_index in range(OPCODE_HEADER_END_INDEX, length_byte_code_list, 2):
-            key = byte_code_list[code_index]
-            if IMPORT_NAME == key:
-                name_index = byte_code_list[code_index + 1]
-                from_list_index = byte_code_list[code_index - 1]
-                if code.co_names[name_index].startswith('pyexec'):
-                    from_list = code.co_consts[from_list_index]
+        instructions = cls._get_instructions(code)
+        for index, instruction in enumerate(instructions):
+            if instruction.opname == 'IMPORT_NAME' and instruction.argval.startswith('pyexec'):
+                _, from_list = cls._get_import_args(index, instructions)
+                if from_list is not None:
                     cls.ICONSERVICE_WHITELIST.extend(from_list)
         return cls.ICONSERVICE_WHITELIST
 
@@ -107,13 +94,22 @@ class ScorePackageValidator(object):
         if not hasattr(code, CODE_ATTR):
             return
 
-        byte_code_list = [x for x in code.co_code]
+        instructions = cls._get_instructions(code)
+        for index, instruction in enumerate(instructions):
+            if instruction.opname == 'IMPORT_NAME':
+                cls._validate_import(index, instructions)
 
-        length_byte_code_list = len(byte_code_list)
-        for code_index in range(OPCODE_HEADER_END_INDEX, length_byte_code_list, 2):
-            key = byte_code_list[code_index]
-            if IMPORT_NAME == key:
-                cls._validate_import(code_index, byte_code_list, code.co_names, code.co_consts)
+    @staticmethod
+    def _get_instructions(code) -> list:
+        # arguments of instructions include those of preceding EXTENDED_ARGs
+        return [x for x in dis.get_instructions(code) if x.opname not in ('EXTENDED_ARG', 'CACHE')]
+
+    @staticmethod
+    def _get_import_args(index: int, instructions: list) -> tuple:
+        args = instructions[max(index - 2, 0):index]
+        if len(args) != 2 or args[0].opname not in ('LOAD_CONST', 'LOAD_SMALL_INT') or args[1].opname != 'LOAD_CONST':
+            raise IllegalFormatException('Invalid import opcode')
+        return args[0].argval, args[1].argval
 
     @classmethod
     def _validate_import_from_const(cls, co_consts: tuple):
@@ -126,11 +122,7 @@ class ScorePackageValidator(object):
                 cls._validate_blacklist_keyword_from_names(co_const.co_names)
 
     @classmethod
-    def _validate_import(cls,
-                         current_index: int,
-                         byte_code_list: list,
-                         co_names: tuple,
-                         co_consts: tuple):
+    def _validate_import(cls, index: int, instructions: list):
         """ example
         20 LOAD_CONST               0 (0)
         22 LOAD_CONST               3 (('pack', 'unpack', 'iter_unpack'))
@@ -152,18 +144,8 @@ class ScorePackageValidator(object):
         30 STORE_NAME               3 (json)
         """
 
-        from_list_op_code_key = byte_code_list[current_index - 2]
-        level_op_code_key = byte_code_list[current_index - 4]
-        if LOAD_CONST != from_list_op_code_key or LOAD_CONST != level_op_code_key:
-            raise IllegalFormatException('Invalid import opcode')
-
-        import_name_index = byte_code_list[current_index + 1]
-        from_list_index = byte_code_list[current_index - 1]
-        level_index = byte_code_list[current_index - 3]
-
-        import_name = co_names[import_name_index]
-        from_list = co_consts[from_list_index]
-        level = co_consts[level_index]
+        level, from_list = cls._get_import_args(index, instructions)
+        import_name = instructions[index].argval
 
         if level > 0:
             return
@@ -175,12 +157,12 @@ class ScorePackageValidator(object):
             # only using import
             return
         else:
-            next_op_code_key = byte_code_list[current_index + 2]
-            if IMPORT_STAR == next_op_code_key:
+            next_instruction = instructions[index + 1]
+            if cls._is_import_star(next_instruction):
                 # import_star
                 if from_list[0] != '*':
                     raise IllegalFormatException(f'Invalid star import: {import_name}')
-            elif IMPORT_FROM == next_op_code_key:
+            elif next_instruction.opname == 'IMPORT_FROM':
                 # import_from
                 for import_from in from_list:
                     if '*' not in cls.WHITELIST_IMPORT[import_name] and \
@@ -191,3 +173,8 @@ class ScorePackageValidator(object):
                         raise IllegalFormatException(f'Invalid permission import: {import_from}')
             else:
                 raise IllegalFormatException('Invalid import opcode')
+
+    @staticmethod
+    def _is_import_star(instruction) -> bool:
+        return instruction.opname == 'IMPORT_STAR' or \
+            instruction.opname == 'CALL_INTRINSIC_1' and instruction.arg == INTRINSIC_IMPORT_STAR
-- 
2.43.0


From 4876e18d1d685b05448208c70b9adeda59d7e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 19/51] fix: refuse compiled modules on verifying packages

---
 pyee/pyexec/iconscore/score_package_validator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ddecf32..a3a0174 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -15,7 +15,8 @@
 import dis
 import importlib.util
 import os
-from importlib.machinery import SourceFileLoader
+import sys
+from importlib.machinery import BYTECODE_SUFFIXES, EXTENSION_SUFFIXES, SourceFileLoader
 
 from ..base.exception import IllegalFormatException
 
@@ -29,6 +30,9 @@ INTRINSIC_IMPORT_STAR = 2
 
 BASE_PACKAGE = 'iconservice'
 
+# modules of these kinds can be imported, but have no source to validate
+COMPILED_SUFFIXES = tuple(BYTECODE_SUFFIXES + EXTENSION_SUFFIXES)
+
 
 class ScorePackageValidator(object):
     WHITELIST_IMPORT = {'iconservice': []}
@@ -79,10 +83,17 @@ class ScorePackageValidator(object):
             for file in filenames:
                 _, extension = os.path.splitext(file)
                 if extension != '.py':
+                    if file.endswith(COMPILED_SUFFIXES) and not cls._is_cache(dir_path, file):
+                        raise IllegalFormatException(f'Compiled module found: {file}')
                     continue
                 tmp_list.append(os.path.join(dir_path, file))
         return tmp_list
 
+    @staticmethod
+    def _is_cache(dir_path: str, file: str) -> bool:
+        # written by the interpreter itself on importing the package
+        return os.path.basename(dir_path) == '__pycache__' and f'.{sys.implementation.cache_tag}.' in file
+
     @classmethod
     def _validate_blacklist_keyword_from_names(cls, co_names: tuple):
         for co_name in co_names:
-- 
2.43.0


From 9cdd6a80f0754c4ba12ab79ccea0367160c4bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 20/51] fix: do not evaluate type hints of results on
 converting parameters

---
 pyee/pyexec/base/type_converter.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/base/type_converter.py b/pyee/pyexec/base/type_converter.py
index 8998e55..b66524a 100644
--- a/pyee/pyexec/base/type_converter.py
+++ b/pyee/pyexec/base/type_converter.py
@@ -14,7 +14,7 @@
 
 import re
 from copy import deepcopy
-from typing import Union, Any, get_type_hints
+from typing import Union, Any
 
 from .type_converter_templates import ParamType, \
     type_convert_templates, ValueType, KEY_CONVERTER, CONVERT_USING_SWITCH_KEY, SWITCH_KEY
@@ -227,12 +227,13 @@ class TypeConverter:
 
     @staticmethod
     def make_annotations_from_method(func: callable) -> dict:
-        # in python 3.7, get_type_hints method return _GenericAlias type object
-        # (when parameter has 'NoneType' as a default)
-
-        hints = get_type_hints(func)
-        if hints.get('return') is not None:
-            del hints['return']
+        hints = dict(func.__annotations__)
+        # the type of the result has nothing to do with parameters
+        hints.pop('return', None)
+        for key, hint in hints.items():
+            # 'Address' is the only type hint which can be given by its name
+            if isinstance(hint, str) and hint == 'Address':
+                hints[key] = Address
         return hints
 
     @staticmethod
-- 
2.43.0


From ca29603dd117e2f18b79c36fa84678e023aa3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 21/51] fix: keep the status of failures raised by contracts in
 their range

---
 pyee/pyexec/service_engine.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 643a21f..5c5abae 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -167,7 +167,7 @@ class ServiceEngine(ContextContainer):
                 tag = 'SystemException'
             Logger.exception(e.message, tag)
 
-            code = e.code
+            code = cls._get_code_in_range(e)
             message = e.message
         else:
             SystemLogger.exception(repr(e), 'SystemError')
@@ -176,3 +176,13 @@ class ServiceEngine(ContextContainer):
             message = str(e)
 
         return code, message
+
+    @staticmethod
+    def _get_code_in_range(e: IconServiceBaseException) -> int:
+        code = e.code
+        if type(code) not in (int, ExceptionCode):
+            # SCOREs may override it
+            return ExceptionCode.SYSTEM_ERROR
+        if isinstance(e, IconScoreException):
+            return min(max(code, ExceptionCode.SCORE_ERROR), ExceptionCode.END)
+        return code if code > ExceptionCode.OK else ExceptionCode.SYSTEM_ERROR
-- 
2.43.0


From d91105ee8c7a2928417c06a74eeb98b8ae6109ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 22/51] fix: refuse to get balances while answering API
 requests

---
 pyee/pyexec/iconscore/icon_score_base2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base2.py b/pyee/pyexec/iconscore/icon_score_base2.py
index 0b866b2..3848299 100644
--- a/pyee/pyexec/iconscore/icon_score_base2.py
+++ b/pyee/pyexec/iconscore/icon_score_base2.py
@@ -25,7 +25,7 @@ from .icon_score_context import ContextContainer, IconScoreContext
 from .icon_score_step import StepType
 from .internal_call import InternalCall
 from ..base.address import Address, AddressPrefix
-from ..base.exception import InvalidParamsException, IconScoreException, InvalidInstanceException
+from ..base.exception import InvalidParamsException, IconScoreException, InvalidInstanceException, InvalidRequestException
 from ..icon_constant import REVISION_COMPACT_JSON, CHARSET_ENCODING
 
 
@@ -149,6 +149,8 @@ class Icx(object):
         :param address: address
         :return: ICX balance of given address
         """
+        if ContextContainer._get_context() is None:
+            raise InvalidRequestException('Not available out of invocation')
         return InternalCall.icx_get_balance(address)
 
 
-- 
2.43.0


From f5f22d296c419df397091d472311458766bf853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 23/51] fix: answer API requests without the context of the
 caller

---
 pyee/pyexec/service_engine.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 5c5abae..3878e37 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -75,8 +75,14 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def get_score_api(cls, code: str, verify_package=False):
-        with StackReserve(0):
-            return cls._get_score_api(code, verify_package)
+        # it may be requested while a SCORE waits for the result of its call,
+        # but it has nothing to do with the SCORE
+        cls._push_context(None)
+        try:
+            with StackReserve(0):
+                return cls._get_score_api(code, verify_package)
+        finally:
+            cls._pop_context()
 
     @classmethod
     def _get_score_api(cls, code: str, verify_package: bool):
-- 
2.43.0


From 419e741a5ab347fdd268bb30a4254ada0c6d94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 24/51] fix: refuse addresses and amounts which the node can't
 understand

---
 pyee/pyexec/iconscore/internal_call.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 5f8eeca..c886ea9 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -15,8 +15,8 @@
 from copy import deepcopy
 from typing import TYPE_CHECKING, Optional, Any
 
-from ..base.address import Address
-from ..base.exception import ExceptionCode, IconServiceBaseException
+from ..base.address import Address, ICON_ADDRESS_BYTES_SIZE
+from ..base.exception import ExceptionCode, IconServiceBaseException, InvalidParamsException
 from ..iconscore.icon_score_constant import STR_FALLBACK
 from ..ipc import MethodName
 from ..logger import Logger, printable
@@ -34,8 +34,16 @@ class InternalCall(object):
     def open(cls, proxy):
         cls._proxy = proxy
 
+    @classmethod
+    def __check_address(cls, address: 'Address'):
+        # Other values make a message that the node can't understand
+        if not isinstance(address, Address) or \
+                len(Address.to_bytes(address)) != ICON_ADDRESS_BYTES_SIZE:
+            raise InvalidParamsException('Invalid address')
+
     @classmethod
     def icx_get_balance(cls, address: 'Address') -> int:
+        cls.__check_address(address)
         return cls._proxy.get_balance(address)
 
     @classmethod
@@ -49,6 +57,9 @@ class InternalCall(object):
                      kw_params: Optional[dict] = None) -> Any:
         if func_name is None or func_name == STR_FALLBACK:
             func_name = MethodName.FALLBACK
+        cls.__check_address(addr_to)
+        if not isinstance(amount, int):
+            raise InvalidParamsException('Invalid amount type')
         if kw_params is not None and len(kw_params) > 0:
             params = deepcopy(kw_params)
             if arg_params is not None and len(arg_params) > 0:
-- 
2.43.0


From d38d8d774593ea6684d4db808a0b133131d11fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 25/51] fix: send objects of contracts' own classes as plain
 values

---
 pyee/pyexec/ipc/client.py     | 14 +++++++++++++-
 pyee/pyexec/ipc/proxy.py      | 16 +++++++++-------
 pyee/pyexec/utils/__init__.py | 20 +++++++++++++++++++-
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/pyee/pyexec/ipc/client.py b/pyee/pyexec/ipc/client.py
index 471e7e8..3887648 100644
--- a/pyee/pyexec/ipc/client.py
+++ b/pyee/pyexec/ipc/client.py
@@ -17,6 +17,8 @@ from typing import Any
 from typing import Tuple
 import msgpack
 
+from ..utils import to_base_type
+
 
 class Client:
     def __init__(self) -> None:
@@ -26,7 +28,17 @@ class Client:
 
     def _send(self, msg: int, data: Any):
         msg_to_send = [msg, data]
-        msgpack.dump(msg_to_send, self)
+        msgpack.dump(msg_to_send, self, strict_types=True, default=self._to_plain)
+
+    @staticmethod
+    def _to_plain(o: Any) -> Any:
+        # An object of a class inheriting others is packed as they are without
+        # using methods of it, otherwise it may break the stream.
+        if isinstance(o, (list, tuple)):
+            return list((list if isinstance(o, list) else tuple).__iter__(o))
+        elif isinstance(o, dict):
+            return dict(dict.items(o))
+        return to_base_type(o)
 
     def _recv(self) -> Tuple[int, Any]:
         msg = self.unpacker.unpack()
diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index d289a37..ab73f66 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -17,6 +17,7 @@ from abc import ABCMeta, abstractmethod
 from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
+from ..utils import to_base_type
 from ..utils.stack import StackReserve
 
 TAG = 'Proxy'
@@ -296,16 +297,16 @@ class ServiceManagerProxy:
         if o is None:
             return None
         if isinstance(o, str):
-            return o.encode('utf-8')
+            return str.encode(o, 'utf-8')
         elif isinstance(o, bytes):
-            return o
+            return to_base_type(o)
         elif isinstance(o, bool):
             if o:
                 return b'\x01'
             else:
                 return b'\x00'
         elif isinstance(o, int):
-            return int_to_bytes(o)
+            return int_to_bytes(to_base_type(o))
         else:
             t, v = self.__codec.encode(o)
             return v
@@ -348,7 +349,7 @@ class ServiceManagerProxy:
                 lst.append(self.encode_any(v))
             return TypeTag.LIST, lst
         elif isinstance(o, bytes):
-            return TypeTag.BYTES, o
+            return TypeTag.BYTES, to_base_type(o)
         elif isinstance(o, str):
             return TypeTag.STRING, str.encode(o, 'utf-8')
         elif isinstance(o, bool):
@@ -509,6 +510,8 @@ class ServiceManagerProxy:
     def set_value(self, key: bytes, value: Optional[bytes], cb: Optional[SetHandler]):
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
+        # SCORE may use its own class inheriting bytes
+        size = 0 if value is None else bytes.__len__(value)
         flag = 0
         if cb is not None:
             flag |= SetValueFlag.OLDVALUE
@@ -517,7 +520,6 @@ class ServiceManagerProxy:
         self.__client.send(Message.SETVALUE, [key, flag, value])
 
         if cb is not None:
-            size = 0 if value is None else len(value)
             self.__set_handlers.append((cb, size))
             if len(self.__set_handlers) > MAX_SET_VALUE_HANDLERS:
                 with StackReserve():
@@ -526,7 +528,7 @@ class ServiceManagerProxy:
     def set_fee_proportion(self, pct: int):
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
-        pct = pct | 0
+        pct = int.__or__(pct, 0)
         if pct < 0 or pct > 100:
             raise Exception('InvalidParameter')
         self.__client.send(Message.SETFEEPCT, pct)
@@ -562,7 +564,7 @@ class ServiceManagerProxy:
         if level == Log.DEBUG or level == Log.TRACE:
             flag = LogFlag.TRACE
         # SCORE may include characters which can't be encoded in UTF-8
-        text = str(msg).encode('utf-8', 'backslashreplace').decode('utf-8')
+        text = str.encode(str(msg), 'utf-8', 'backslashreplace').decode('utf-8')
         self.__client.send(Message.LOG, [int(level), int(flag), text])
 
     def debug(self, msg: str, tag: str = 'LOG') -> None:
diff --git a/pyee/pyexec/utils/__init__.py b/pyee/pyexec/utils/__init__.py
index 8666aba..cc93e01 100644
--- a/pyee/pyexec/utils/__init__.py
+++ b/pyee/pyexec/utils/__init__.py
@@ -20,7 +20,7 @@ Functions and classes in this module don't have any external dependencies.
 import hashlib
 import re
 from enum import Flag
-from typing import Union
+from typing import Any, Union
 
 
 def int_to_bytes(v: int) -> bytes:
@@ -36,6 +36,24 @@ def byte_length_of_int(n: int):
     return ((n + (n < 0)).bit_length() + 8) // 8
 
 
+def to_base_type(v: Any) -> Any:
+    """Get the plain value of bytes, str or int
+
+    SCORE may pass an object of its own class inheriting them. Overridden methods
+    (ex: __len__) of it should not be used for handling it.
+
+    :param v: value passed by SCORE
+    :return: the same value of the base type. It returns others as they are
+    """
+    if isinstance(v, bytes):
+        return bytes.__getitem__(v, slice(None))
+    elif isinstance(v, str):
+        return str.__str__(v)
+    elif isinstance(v, int) and type(v) is not bool:
+        return int.__int__(v)
+    return v
+
+
 def is_lowercase_hex_string(value: str) -> bool:
     """Check whether value is hexadecimal format or not
 
-- 
2.43.0


From 5ccd38dbd42db0eb82754c076eeddd0087fbfcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 26/51] fix: charge for the size of data regardless of its
 class

---
 pyee/pyexec/database/db.py                   | 17 ++++++++++++++---
 pyee/pyexec/iconscore/icon_container_db.py   |  8 +++++---
 pyee/pyexec/iconscore/icon_score_eventlog.py |  5 +++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index e62b267..80164a2 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -18,7 +18,7 @@ from ..base.exception import DatabaseException, InvalidParamsException
 from ..icon_constant import IconScoreContextType, IconScoreFuncType
 from ..iconscore.icon_score_context import ContextGetter, ContextContainer
 from ..iconscore.icon_score_step import StepType, OutOfStepException
-from ..utils import sha3_256
+from ..utils import sha3_256, to_base_type
 
 if TYPE_CHECKING:
     from ..iconscore.icon_score_context import IconScoreContext
@@ -26,6 +26,7 @@ if TYPE_CHECKING:
 
 
 def rlp_encode_bytes(b: bytes) -> bytes:
+    b = to_base_type(b)
     blen = len(b)
     if blen == 1 and b[0] < 0x80:
         return b
@@ -46,6 +47,16 @@ def get_encoded_key(bytes_key: bytes) -> bytes:
     return rlp_encode_bytes(bytes_key)
 
 
+def get_plain_value(value: Optional[bytes]) -> Optional[bytes]:
+    if value is None:
+        return None
+    elif isinstance(value, str):
+        return str.encode(value, 'utf-8')
+    elif isinstance(value, bytes):
+        return to_base_type(value)
+    return memoryview(value).tobytes()
+
+
 def concat_encoded(*args) -> bytes:
     return b''.join(filter(lambda x: x is not None, args))
 
@@ -302,7 +313,7 @@ class IconScoreDatabase(ContextGetter):
         :param value: value to set
         """
         hashed_key = self._hash_key(key)
-        self._context_db.put(self._context, hashed_key, value)
+        self._context_db.put(self._context, hashed_key, get_plain_value(value))
 
     def get_sub_db(self, prefix: bytes, tag: bytes = None) -> 'IconScoreDatabase':
         """
@@ -348,7 +359,7 @@ class IconScoreDatabase(ContextGetter):
         :return:
         """
         prefix = concat_encoded(self._tag, self._prefix)
-        return self._context_db.contains(self._context, prefix, value)
+        return self._context_db.contains(self._context, prefix, get_plain_value(value))
 
     def close(self):
         self._context_db.close(self._context)
diff --git a/pyee/pyexec/iconscore/icon_container_db.py b/pyee/pyexec/iconscore/icon_container_db.py
index 6e420a7..eb9f820 100644
--- a/pyee/pyexec/iconscore/icon_container_db.py
+++ b/pyee/pyexec/iconscore/icon_container_db.py
@@ -16,7 +16,7 @@ from typing import TypeVar, Optional, Any, Union, TYPE_CHECKING
 
 from ..base.address import Address
 from ..base.exception import InvalidParamsException, InvalidContainerAccessException
-from ..utils import int_to_bytes, bytes_to_int
+from ..utils import int_to_bytes, bytes_to_int, to_base_type
 
 if TYPE_CHECKING:
     from ..database.db import IconScoreDatabase
@@ -35,12 +35,13 @@ class ContainerUtil(object):
         if key is None:
             raise InvalidParamsException('key is None')
 
+        key = to_base_type(key)
         if isinstance(key, int):
             bytes_key = int_to_bytes(key)
         elif isinstance(key, str):
             bytes_key = key.encode('utf-8')
         elif isinstance(key, Address):
-            bytes_key = key.to_bytes()
+            bytes_key = to_base_type(Address.to_bytes(key))
         elif isinstance(key, bytes):
             bytes_key = key
         else:
@@ -49,12 +50,13 @@ class ContainerUtil(object):
 
     @staticmethod
     def encode_value(value: V) -> bytes:
+        value = to_base_type(value)
         if isinstance(value, int):
             byte_value = int_to_bytes(value)
         elif isinstance(value, str):
             byte_value = value.encode('utf-8')
         elif isinstance(value, Address):
-            byte_value = value.to_bytes()
+            byte_value = to_base_type(Address.to_bytes(value))
         elif isinstance(value, bool):
             byte_value = int_to_bytes(int(value))
         elif isinstance(value, bytes):
diff --git a/pyee/pyexec/iconscore/icon_score_eventlog.py b/pyee/pyexec/iconscore/icon_score_eventlog.py
index 4d9fab0..3d48076 100644
--- a/pyee/pyexec/iconscore/icon_score_eventlog.py
+++ b/pyee/pyexec/iconscore/icon_score_eventlog.py
@@ -18,7 +18,7 @@ from .icon_score_step import StepType
 from ..base.address import Address
 from ..base.exception import InvalidEventLogException
 from ..icon_constant import DATA_BYTE_ORDER, ICX_TRANSFER_EVENT_LOG
-from ..utils import int_to_bytes, byte_length_of_int
+from ..utils import int_to_bytes, byte_length_of_int, to_base_type
 
 if TYPE_CHECKING:
     from .icon_score_constant import BaseType
@@ -99,6 +99,7 @@ class EventLogEmitter(object):
                 f'declared indexed_args_count is {indexed_args_count}, '
                 f'but argument count is {len(arguments)}')
 
+        arguments = [to_base_type(argument) for argument in arguments]
         event_size = EventLogEmitter.__get_byte_length(event_signature)
         indexed: List['BaseType'] = [event_signature]
         data: List['BaseType'] = []
@@ -135,7 +136,7 @@ class EventLogEmitter(object):
         if isinstance(data, str):
             return data.encode('utf-8')
         elif isinstance(data, Address):
-            return data.prefix.value.to_bytes(1, DATA_BYTE_ORDER) + data.body
+            return to_base_type(Address.to_bytes(data))
         elif isinstance(data, bytes):
             return data
         elif isinstance(data, int):
-- 
2.43.0


From e0aa5b179ad39ed5db98851d3487af0a60e45ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 27/51] fix: trie proves a key that is only a prefix of others

A branch without a value answered GetProof for the key that ends at it with
a proof, and Prove returned no object and no error for it, on which the
trie for bytes panicked. Both now treat the key as absent.
---
 common/trie/ompt/branch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/trie/ompt/branch.go b/common/trie/ompt/branch.go
index 7f39fd4..72225c7 100644
--- a/common/trie/ompt/branch.go
+++ b/common/trie/ompt/branch.go
@@ -307,6 +307,9 @@ func (n *branch) getProof(m *mpt, keys []byte, proofs [][]byte) (nn node, proof
 		proofs = append(proofs, n.serialized)
 	}
 	if len(keys) == 0 {
+		if n.value == nil {
+			return n, nil, nil
+		}
 		return n, proofs, nil
 	}
 	child := n.children[keys[0]]
@@ -348,8 +351,9 @@ func (n *branch) prove(m *mpt, keys []byte, proof [][]byte) (nn node, obj trie.O
 				lock.Migrate()
 				n.value = value
 			}
+			return n, n.value, nil
 		}
-		return n, n.value, nil
+		return n, nil, common.ErrNotFound
 	}
 
 	child := n.children[keys[0]]
-- 
2.43.0


From 6605e355ba27884646af5282475c27fd0f546cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 28/51] fix: base transaction without data stops the node

---
 havah/hvh/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/havah/hvh/base.go b/havah/hvh/base.go
index 59cd506..e6af06a 100644
--- a/havah/hvh/base.go
+++ b/havah/hvh/base.go
@@ -44,7 +44,7 @@ type baseDataJSON struct {
 
 func parseBaseData(data []byte) (*baseDataJSON, error) {
 	if data == nil {
-		return nil, nil
+		return nil, errors.IllegalArgumentError.New("NoBaseData")
 	}
 	jso := new(baseDataJSON)
 	jd := json.NewDecoder(bytes.NewBuffer(data))
-- 
2.43.0


From befe2c46f6870298666f16c871609bf2774066ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 29/51] fix: nodes replace penalized validators in different
 orders

---
 havah/hvh/decentralization.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/havah/hvh/decentralization.go b/havah/hvh/decentralization.go
index a9c944c..54978cd 100644
--- a/havah/hvh/decentralization.go
+++ b/havah/hvh/decentralization.go
@@ -1,6 +1,8 @@
 package hvh
 
 import (
+	"sort"
+
 	"github.com/icon-project/goloop/common/errors"
 	"github.com/icon-project/goloop/havah/hvh/hvhstate"
 	"github.com/icon-project/goloop/havah/hvhmodule"
@@ -140,14 +142,18 @@ func (es *ExtensionStateImpl) replacePenalizedActiveValidators(
 	es.logger.Debugf("replacePenalizedActiveValidators() start: penalizedValidators=%d", len(penalizedInfos))
 
 	m := make(map[int]*penalizedInfo)
+	indexes := make([]int, 0, len(penalizedInfos))
 	validatorState := cc.GetValidatorState()
 
 	for _, info := range penalizedInfos {
 		node := info.validator.Address()
 		if idx := validatorState.IndexOf(node); idx >= 0 {
 			m[idx] = info
+			indexes = append(indexes, idx)
 		}
 	}
+	// Every node should handle penalized validators in the same order
+	sort.Ints(indexes)
 	if len(m) == 0 {
 		// No validator to remove
 		es.logger.Debug("replacePenalizedActiveValidators() end")
@@ -164,8 +170,8 @@ func (es *ExtensionStateImpl) replacePenalizedActiveValidators(
 	oc := validatorState.Len()
 	var owner module.Address
 	var validator module.Validator
-	for idx := range m {
-		info, _ := m[idx]
+	for _, idx := range indexes {
+		info := m[idx]
 		onActiveValidatorRemoved(cc, info.owner, info.validator.Address(), "penalized")
 
 		if i < len(validatorsToAdd) {
-- 
2.43.0


From e2bda5e0dd583af4159d258d43accb58afd46fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 30/51] fix: standby validator without public key stops the
 chain

---
 havah/hvh/hvhstate/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/havah/hvh/hvhstate/state.go b/havah/hvh/hvhstate/state.go
index f3db644..296e2f7 100644
--- a/havah/hvh/hvhstate/state.go
+++ b/havah/hvh/hvhstate/state.go
@@ -1405,7 +1405,7 @@ func (s *State) GetNextActiveValidatorsAndChangeIndex(
 			return nil, err
 		}
 	}
-	return nextActiveValidators, err
+	return nextActiveValidators, nil
 }
 
 func (s *State) GetSubValidatorsIndex() int64 {
-- 
2.43.0


From b057a53d4d4c666dcc204346e253c22927df335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 31/51] fix: parallel execution hangs after a call of the
 system contract

---
 service/contract/contractmanager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/service/contract/contractmanager.go b/service/contract/contractmanager.go
index 45e477c..683faf4 100644
--- a/service/contract/contractmanager.go
+++ b/service/contract/contractmanager.go
@@ -167,12 +167,17 @@ func (cs *contractStoreImpl) WaitResult() (string, error) {
 }
 
 func (cs *contractStoreImpl) Dispose() {
-	cs.ch <- nil
+	cs.notify(nil)
 	cs.sc.remove(cs)
 }
 
+// notify never blocks. The result may be there already, and nobody takes it
+// if the store is only prepared.
 func (cs *contractStoreImpl) notify(err error) {
-	cs.ch <- err
+	select {
+	case cs.ch <- err:
+	default:
+	}
 }
 
 func (cm *contractManager) GetHandler(from, to module.Address, value *big.Int, ctype int, data []byte) (ContractHandler, error) {
-- 
2.43.0


From 817f5171b20177d640d48e3f9437497038237fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 32/51] fix: errors of parallel execution are lost

---
 service/transition_pe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/service/transition_pe.go b/service/transition_pe.go
index 00d9580..62fc748 100644
--- a/service/transition_pe.go
+++ b/service/transition_pe.go
@@ -34,7 +34,7 @@ func (c *executionContext) Error() error {
 func (c *executionContext) Report(e error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	if c.lastError != nil {
+	if c.lastError == nil {
 		c.lastError = e
 	}
 }
@@ -138,5 +138,5 @@ func (t *transition) executeTxsConcurrent(level int, l module.TransactionList, c
 	if wvs := ctx.WorldVirtualState(); wvs != nil {
 		wvs.Realize()
 	}
-	return nil
+	return ec.Error()
 }
-- 
2.43.0


From 4170384177ae89d0836adf33dff46c27a10439c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 33/51] fix: transactions with empty data can't be written as
 JSON

---
 service/transaction/transaction_v3.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/service/transaction/transaction_v3.go b/service/transaction/transaction_v3.go
index 03a8556..2446090 100644
--- a/service/transaction/transaction_v3.go
+++ b/service/transaction/transaction_v3.go
@@ -372,7 +372,12 @@ func (tx *transactionV3) ToJSON(version module.JSONVersion) (interface{}, error)
 		jso["dataType"] = *tx.transactionV3Data.DataType
 	}
 	if tx.transactionV3Data.Data != nil {
-		jso["data"] = json.RawMessage(tx.transactionV3Data.Data)
+		if len(tx.transactionV3Data.Data) > 0 {
+			jso["data"] = json.RawMessage(tx.transactionV3Data.Data)
+		} else {
+			// it's hashed as an empty string
+			jso["data"] = ""
+		}
 	}
 	jso["txHash"] = common.HexBytes(tx.ID())
 
-- 
2.43.0


From d9d3fdd87fe26139babceb94ec6ac55b7e38c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 34/51] fix: base transactions with invalid data panic

---
 havah/hvh/base.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/havah/hvh/base.go b/havah/hvh/base.go
index e6af06a..a4c7f01 100644
--- a/havah/hvh/base.go
+++ b/havah/hvh/base.go
@@ -38,6 +38,8 @@ import (
 	"github.com/icon-project/goloop/service/txresult"
 )
 
+const dataTypeBase = "base"
+
 type baseDataJSON struct {
 	IssueAmount common.HexInt `json:"issueAmount"`
 }
@@ -194,6 +196,26 @@ func (tx *baseV3) Hash() []byte {
 }
 
 func (tx *baseV3) Verify() error {
+	if tx.baseV3Data.Version.Value != module.TransactionVersion3 {
+		return transaction.InvalidVersion.Errorf("InvalidVersion(%d)", tx.baseV3Data.Version.Value)
+	}
+	if tx.baseV3Data.DataType != dataTypeBase {
+		return transaction.InvalidFormat.Errorf("InvalidDataType(%s)", tx.baseV3Data.DataType)
+	}
+	if _, err := parseBaseData(tx.Data); err != nil {
+		return transaction.InvalidFormat.Wrap(err, "InvalidBaseData")
+	}
+	return nil
+}
+
+// updateID calculates ID of the transaction. It must be called for
+// the transaction from outside before it's used.
+func (tx *baseV3) updateID() error {
+	bs, err := tx.baseV3Data.calcHash()
+	if err != nil {
+		return transaction.InvalidFormat.Wrap(err, "InvalidData")
+	}
+	tx.id = bs
 	return nil
 }
 
@@ -237,7 +259,7 @@ func (tx *baseV3) IsSkippable() bool {
 }
 
 func checkBaseV3JSON(jso map[string]interface{}) bool {
-	if d, ok := jso["dataType"]; !ok || d != "base" {
+	if d, ok := jso["dataType"]; !ok || d != dataTypeBase {
 		return false
 	}
 	if v, ok := jso["version"]; !ok || v != "0x3" {
@@ -254,6 +276,9 @@ func parseBaseV3JSON(bs []byte, jsm map[string]any, raw bool) (transaction.Trans
 	if tx.baseV3Data.From != nil {
 		return nil, transaction.InvalidFormat.New("InvalidFromValue(NonNil)")
 	}
+	if err := tx.updateID(); err != nil {
+		return nil, err
+	}
 	return tx, nil
 }
 
@@ -275,6 +300,9 @@ func parseBaseV3Bytes(bs []byte) (transaction.Transaction, error) {
 	if _, err := codec.BC.UnmarshalFromBytes(bs, &tx.baseV3Data); err != nil {
 		return nil, err
 	}
+	if err := tx.updateID(); err != nil {
+		return nil, err
+	}
 	return tx, nil
 }
 
-- 
2.43.0


From 3997fd9231e809e3034ed637622b54165ffad26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 35/51] fix: double sign reports without data panic

---
 service/transaction/doublesignreport.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/service/transaction/doublesignreport.go b/service/transaction/doublesignreport.go
index d672ec5..46f85c9 100644
--- a/service/transaction/doublesignreport.go
+++ b/service/transaction/doublesignreport.go
@@ -266,9 +266,11 @@ func parseDSRTxBytes(bs []byte) (Transaction, error) {
 	tx := new(doubleSignReportTx)
 	if _, err := codec.BC.UnmarshalFromBytes(bs, &tx.data); err != nil {
 		return nil, err
-	} else {
-		return tx, nil
 	}
+	if tx.data.Data == nil {
+		return nil, InvalidFormat.New("NoDSR")
+	}
+	return tx, nil
 }
 
 func init() {
-- 
2.43.0


From e566e8fd0f7edf948d276f0f0311f3ce49fba9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 36/51] fix: peers and users can put transactions of the system
 into the pool

---
 service/transactionmanager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service/transactionmanager.go b/service/transactionmanager.go
index a7b2aae..e231be6 100644
--- a/service/transactionmanager.go
+++ b/service/transactionmanager.go
@@ -196,6 +196,10 @@ func (m *TransactionManager) VerifyTx(tx transaction.Transaction) error {
 	if tx.Version() < transaction.Version3 {
 		return InvalidTransactionError.New("IllegalTransactionVersion")
 	}
+	// Transactions of the system are made only by the proposer of a block
+	if from := tx.From(); from == nil || state.SystemAddress.Equal(from) {
+		return InvalidTransactionError.New("SystemTransaction")
+	}
 	if err := tx.Verify(); err != nil {
 		return InvalidTransactionError.Wrap(err,
 			"Failed to verify transaction")
-- 
2.43.0


From 2419abb75fad21b8725eef5c54b03c6331398fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 37/51] fix: a transaction with unknown data type stops block
 production

---
 service/transaction/transaction_v3.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/service/transaction/transaction_v3.go b/service/transaction/transaction_v3.go
index 2446090..01ab91d 100644
--- a/service/transaction/transaction_v3.go
+++ b/service/transaction/transaction_v3.go
@@ -210,6 +210,11 @@ func (tx *transactionV3) Verify() error {
 			// if _, err := contract.ParseDepositData(tx.Data); err != nil {
 			// 	return InvalidTxValue.Wrap(err, "TxData is invalid")
 			// }
+		case contract.DataTypeMessage:
+			// nothing to check
+		default:
+			// There is no handler for it, so it can't be executed.
+			return InvalidTxValue.Errorf("IllegalDataType(%s)", *tx.DataType)
 		}
 	}
 
-- 
2.43.0


From 31ba999d7a6de891cbe3efb025e592cfe072d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 38/51] fix: a deposit to a contract without owner panics

---
 service/contract/deposithandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/contract/deposithandler.go b/service/contract/deposithandler.go
index 1250793..bdfd260 100644
--- a/service/contract/deposithandler.go
+++ b/service/contract/deposithandler.go
@@ -111,7 +111,7 @@ func (h *DepositHandler) ExecuteSync(cc CallContext) (err error, ro *codec.Typed
 			"InvalidAddress(%s)", h.To.String()), nil, nil
 	}
 
-	if owner := as2.ContractOwner(); !owner.Equal(h.From) {
+	if owner := as2.ContractOwner(); owner == nil || !owner.Equal(h.From) {
 		return scoreresult.InvalidRequestError.New("NotOwner"), nil, nil
 	}
 
-- 
2.43.0


From c4be20f7889040fb03ea1839075fd56d0bd4b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 39/51] fix: transactions of uncommitted blocks are found only
 partially

---
 common/txlocator/manager.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index bec0e19..4e6321e 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -35,6 +35,7 @@ type txList struct {
 	height int64
 	ts     int64
 	th     int64
+	maxTS  int64 // maximum timestamp of transactions
 	head   *locator
 	next   *txList
 }
@@ -394,10 +395,10 @@ func (t *tracker) Has(id []byte, ts int64) (bool, error) {
 	t.lock.Lock()
 	defer t.lock.Unlock()
 
-	if ts >= t.list.ts+t.list.th {
-		return false, nil
-	}
-	if t.locators != nil {
+	// Ancestors may have it even if it's out of the range of this list,
+	// because the threshold may be changed.
+	inRange := ts < t.list.ts+t.list.th || ts <= t.list.maxTS
+	if t.locators != nil && inRange {
 		if _, ok := t.locators[string(id)] ; ok {
 			return true, nil
 		}
@@ -441,6 +442,9 @@ func (t *tracker) Add(list module.TransactionList, force bool) (int, error) {
 					return cnt, errors.IllegalArgumentError.Errorf("DuplicateTx(id=%#x)", id)
 				}
 			}
+			if ts := txi.Timestamp(); cnt == 0 || ts > t.list.maxTS {
+				t.list.maxTS = ts
+			}
 			loc := allocLocator(t.list, string(id), idx)
 			*prevP = loc
 			prevP = &loc.next
-- 
2.43.0


From eca1d5560def0fc73ded0ccda732d1cff07ee8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 40/51] fix: the last microsecond of old transactions is not
 looked up

---
 common/txlocator/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index 4e6321e..70377a7 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -154,7 +154,7 @@ func (m *manager) hasLocatorInCache(group module.TransactionGroup, id []byte, ts
 	if _, ok := m.locators[string(id)]; ok {
 		return ok, true
 	}
-	if l := m.cache[group].maxTSInDB; l != 0 && l <= ts {
+	if l := m.cache[group].maxTSInDB; l != 0 && l < ts {
 		return false, true
 	}
 	return false, false
-- 
2.43.0


From 96a3aa5efe6a07e77267a29a812d33781874751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 41/51] fix: transactions executed before a restart can be
 executed again

---
 common/txlocator/manager.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index 70377a7..cf5707c 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -20,6 +20,7 @@ package txlocator
 import (
 	"fmt"
 	"sync"
+	"time"
 
 	"github.com/icon-project/goloop/common"
 	"github.com/icon-project/goloop/common/codec"
@@ -101,6 +102,10 @@ func (j *locatorFlushJob) Fetch() *txList {
 	return j.list
 }
 
+// maxThresholdBeforeStart is the largest threshold which is assumed for
+// the transactions recorded before it starts (in micro-second)
+const maxThresholdBeforeStart = int64(time.Hour / time.Microsecond)
+
 type txListCache struct {
 	// linked list of cached tx lists.
 	head   *txList
@@ -266,6 +271,13 @@ func (m *manager) addListAndClearOldInLock(list *txList) {
 		if ptr.ts != 0 && c.maxTSInDB < ptrMax {
 			m.log.Tracef("LM: cache[%d].maxTSInDB %d -> %d",
 				list.group, c.maxTSInDB, ptrMax)
+			if c.maxTSInDB == 0 {
+				// Threshold may be changed before it starts.
+				// So, transactions recorded before it may have larger timestamps
+				if tsMax := ptr.ts + maxThresholdBeforeStart; ptrMax < tsMax {
+					ptrMax = tsMax
+				}
+			}
 			c.maxTSInDB = ptrMax
 		}
 		c.head = ptr.next
-- 
2.43.0


From 46ba12800f5d8a8d379045c6e95abd4fc0f3cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 42/51] fix: a transaction larger than a block stops proposing
 transactions

---
 service/transactionpool.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/service/transactionpool.go b/service/transactionpool.go
index e6635d3..8d4e84d 100644
--- a/service/transactionpool.go
+++ b/service/transactionpool.go
@@ -165,6 +165,15 @@ func (tp *TransactionPool) Candidate(wc state.WorldContext, maxBytes int, maxCou
 			dropped = append(dropped, e)
 			continue
 		}
+		bs := tx.Bytes()
+		if len(bs) > maxBytes {
+			// It can't be included in a block. It should not block others.
+			e.err = InvalidTransactionError.Errorf(
+				"TooLarge(size=%d,max=%d)", len(bs), maxBytes)
+			tp.tim.AddDroppedTX(tx.ID(), tx.Timestamp())
+			dropped = append(dropped, e)
+			continue
+		}
 		if err := tx.PreValidate(wc, true); err != nil {
 			if e.err == nil {
 				e.err = err
@@ -177,7 +186,6 @@ func (tp *TransactionPool) Candidate(wc state.WorldContext, maxBytes int, maxCou
 			}
 			continue
 		}
-		bs := tx.Bytes()
 		if txSize+len(bs) > maxBytes {
 			break
 		}
-- 
2.43.0


From 024bb0f799ade0f1bf0ac00583595e8679ec4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 43/51] fix: values which can't be read back stop the chain

setRevision, setStepCost, setMaxStepLimit, setRoundLimitFactor and
setTimestampThreshold store values out of the range of 64 bits, and
setMaxStepLimit an empty name, which panic in the following transition.
A negative or huge timestamp threshold refuses all transactions.
---
 havah/chainscore_basic.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/havah/chainscore_basic.go b/havah/chainscore_basic.go
index 0e6974c..61a4f2e 100644
--- a/havah/chainscore_basic.go
+++ b/havah/chainscore_basic.go
@@ -17,6 +17,8 @@
 package havah
 
 import (
+	"math"
+
 	"github.com/icon-project/goloop/common/errors"
 	"github.com/icon-project/goloop/havah/hvh"
 	"github.com/icon-project/goloop/havah/hvhmodule"
@@ -30,8 +32,20 @@ import (
 
 const (
 	CIDForVegaNet = 0x630a4
+
+	// The threshold is in milliseconds, block timestamps plus or minus
+	// the threshold in microseconds must not overflow.
+	maxTimestampThreshold = math.MaxInt64 / 2000
 )
 
+// checkInt64 refuses the values which can't be read back from the storage.
+func checkInt64(value *common.HexInt) error {
+	if !value.IsInt64() {
+		return scoreresult.Errorf(StatusIllegalArgument, "IllegalArgument(OutOfRange=%s)", value)
+	}
+	return nil
+}
+
 func (s *chainScore) tryChargeCall() error {
 	if s.gov {
 		return nil
@@ -48,7 +62,7 @@ func (s *chainScore) Ex_setRevision(code *common.HexInt) error {
 	if err := s.checkGovernance(true); err != nil {
 		return err
 	}
-	if hvhmodule.MaxRevision < code.Int64() {
+	if !code.IsInt64() || hvhmodule.MaxRevision < code.Int64() {
 		return scoreresult.Errorf(StatusIllegalArgument,
 			"IllegalArgument(max=%#x,new=%s)", hvhmodule.MaxRevision, code)
 	}
@@ -106,6 +120,9 @@ func (s *chainScore) Ex_setStepCost(costType string, cost *common.HexInt) error
 	if !state.IsValidStepType(costType) {
 		return scoreresult.IllegalFormatError.Errorf("InvalidStepType(%s)", costType)
 	}
+	if err := checkInt64(cost); err != nil {
+		return err
+	}
 	costZero := cost.Sign() == 0
 	as := s.cc.GetAccountState(state.SystemID)
 	stepCostDB := scoredb.NewDictDB(as, state.VarStepCosts, 1)
@@ -138,6 +155,12 @@ func (s *chainScore) Ex_setMaxStepLimit(contextType string, cost *common.HexInt)
 	if err := s.checkGovernance(true); err != nil {
 		return err
 	}
+	if len(contextType) == 0 {
+		return scoreresult.New(StatusIllegalArgument, "IllegalArgument(EmptyContextType)")
+	}
+	if err := checkInt64(cost); err != nil {
+		return err
+	}
 	as := s.cc.GetAccountState(state.SystemID)
 	stepLimitDB := scoredb.NewDictDB(as, state.VarStepLimit, 1)
 	if stepLimitDB.Get(contextType) == nil {
@@ -240,7 +263,7 @@ func (s *chainScore) Ex_setRoundLimitFactor(f *common.HexInt) error {
 	if err := s.checkGovernance(true); err != nil {
 		return err
 	}
-	if f.Sign() < 0 {
+	if f.Sign() < 0 || !f.IsInt64() {
 		return scoreresult.New(StatusIllegalArgument, "IllegalArgument")
 	}
 	as := s.cc.GetAccountState(state.SystemID)
@@ -313,6 +336,10 @@ func (s *chainScore) Ex_setTimestampThreshold(threshold *common.HexInt) error {
 	if err := s.checkGovernance(true); err != nil {
 		return err
 	}
+	if threshold.Sign() < 0 || !threshold.IsInt64() || threshold.Int64() > maxTimestampThreshold {
+		return scoreresult.Errorf(StatusIllegalArgument,
+			"IllegalArgument(max=%#x,new=%s)", int64(maxTimestampThreshold), threshold)
+	}
 	as := s.cc.GetAccountState(state.SystemID)
 	db := scoredb.NewVarDB(as, state.VarTimestampThreshold)
 	return db.Set(threshold)
-- 
2.43.0


From 86748ee528c3b178a439caa1e9b739328dbf72ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 44/51] fix: removing an unregistered validator stops the chain

The owner of a validator set by genesis or grantValidator is unknown
if it isn't registered, so that the base transaction at the start of
a term fails.
---
 havah/hvh/decentralization.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/havah/hvh/decentralization.go b/havah/hvh/decentralization.go
index 54978cd..3383bde 100644
--- a/havah/hvh/decentralization.go
+++ b/havah/hvh/decentralization.go
@@ -74,7 +74,11 @@ func (es *ExtensionStateImpl) initActiveValidatorSet(cc hvhmodule.CallContext) e
 
 		owner, err = es.state.GetOwnerByNode(node)
 		if err != nil {
-			return err
+			if v >= 0 {
+				return err
+			}
+			// Genesis or governance set it without registration of an owner
+			owner = node
 		}
 		if v < 0 {
 			onActiveValidatorRemoved(cc, owner, node, "termchange")
-- 
2.43.0


From 76da39dc91349ee7f7e127e3fbdfa0aacaf9ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 45/51] fix: fast sync stalls after rejecting a peer's block

When the peer of a rejected block was already fetching another block, that
block was never asked from anyone else.
---
 consensus/fastsync/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/consensus/fastsync/client.go b/consensus/fastsync/client.go
index b5e1b2a..c2a1c92 100644
--- a/consensus/fastsync/client.go
+++ b/consensus/fastsync/client.go
@@ -92,6 +92,7 @@ func (br *blockResult) Reject() {
 			fr.validPeers = fr.validPeers[:last]
 			if p.f != nil {
 				p.f.cancel()
+				fr.heightSet.add(p.f.height)
 				fr.nActivePeers--
 				fr._reschedule()
 			}
-- 
2.43.0


From 10d686914526a7d4805dcfa3479bb6e0087e112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 46/51] fix: parallel execution uses half updated prices and
 revisions

A context for the next transaction copies the system information of the
previous one, which its own goroutine may be updating at the same time.
When the copy gets the new snapshot with old values, the transaction runs
with the old step price, costs, limits or revision, so that the node has
another result than others.
---
 service/state/worldcontext.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/service/state/worldcontext.go b/service/state/worldcontext.go
index f4e1160..22de4b6 100644
--- a/service/state/worldcontext.go
+++ b/service/state/worldcontext.go
@@ -2,6 +2,7 @@ package state
 
 import (
 	"math/big"
+	"sync"
 
 	"github.com/icon-project/goloop/common"
 	"github.com/icon-project/goloop/common/codec"
@@ -147,7 +148,10 @@ type worldContext struct {
 	treasury   module.Address
 	governance module.Address
 
-	systemInfo systemStorageInfo
+	// systemInfoLock protects systemInfo, because a context for the next
+	// transaction copies it while this one is being updated.
+	systemInfoLock sync.Mutex
+	systemInfo     systemStorageInfo
 
 	blockInfo    module.BlockInfo
 	csInfo       module.ConsensusInfo
@@ -369,7 +373,7 @@ func (c *worldContext) WorldStateChanged(ws WorldState) WorldContext {
 		virtualState: tryVirtualState(ws),
 		treasury:     c.treasury,
 		governance:   c.governance,
-		systemInfo:   c.systemInfo,
+		systemInfo:   c.copySystemInfo(),
 		blockInfo:    c.blockInfo,
 		csInfo:       c.csInfo,
 		platform:     c.platform,
@@ -430,7 +434,10 @@ func (c *worldContext) stepCostInfo() interface{} {
 				stepCosts[k] = v
 			}
 		}
-		c.systemInfo.stepCostInfo = common.MustEncodeAny(stepCosts)
+		sci := common.MustEncodeAny(stepCosts)
+		c.systemInfoLock.Lock()
+		c.systemInfo.stepCostInfo = sci
+		c.systemInfoLock.Unlock()
 	}
 	return c.systemInfo.stepCostInfo
 }
@@ -462,11 +469,21 @@ func (c *worldContext) SkipTransactionEnabled() bool {
 }
 
 func (c *worldContext) UpdateSystemInfo() {
-	if c.systemInfo.Update(c) {
+	si := c.copySystemInfo()
+	if si.Update(c) {
+		c.systemInfoLock.Lock()
+		c.systemInfo = si
+		c.systemInfoLock.Unlock()
 		c.info = nil
 	}
 }
 
+func (c *worldContext) copySystemInfo() systemStorageInfo {
+	c.systemInfoLock.Lock()
+	defer c.systemInfoLock.Unlock()
+	return c.systemInfo
+}
+
 func (c *worldContext) DecodeDoubleSignData(t string, d []byte) (module.DoubleSignData, error) {
 	if c.dsDecoder == nil {
 		return nil, errors.UnsupportedError.New("NoDoubleSignDataDecoder")
-- 
2.43.0


From c71586d7e4eb9d9c03b44b4eac22125ac40f052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 47/51] fix: files of a contract package can be written out of
 its folder

Names of files in a package may have '..', so anyone who deploys a
contract was able to write or overwrite any file of the node. A package
with a file out of its own folder is refused now.
---
 service/contract/contractmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/service/contract/contractmanager.go b/service/contract/contractmanager.go
index 683faf4..69e4c05 100644
--- a/service/contract/contractmanager.go
+++ b/service/contract/contractmanager.go
@@ -423,6 +423,9 @@ func storePython(dst string, code []byte, log log.Logger) (ret error) {
 			return scoreresult.IllegalFormatError.Errorf("FailToOpen(f=%s)", zFile.Name)
 		}
 		tmpDir := filepath.Join(tmpPath, filepath.FromSlash(dir))
+		if !strings.HasPrefix(filepath.Join(tmpDir, base), tmpPath+string(filepath.Separator)) {
+			return scoreresult.IllegalFormatError.Errorf("InvalidPath(file=%s)", zFile.Name)
+		}
 		if err := os.MkdirAll(tmpDir, 0755); err != nil {
 			return errors.WithCode(err, errors.CriticalIOError)
 		}
-- 
2.43.0


From 7fbb746108db68959c82ad27083ec1babe27a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:52 +0000
Subject: [PATCH 48/51] fix: a call can wait for the contract code forever

The state of the storage cache was checked without its lock, so a call
which comes while the storing is being completed was added to the list
of clients after they were notified, and blocks the execution.
---
 service/contract/contractmanager.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/service/contract/contractmanager.go b/service/contract/contractmanager.go
index 69e4c05..3f04518 100644
--- a/service/contract/contractmanager.go
+++ b/service/contract/contractmanager.go
@@ -127,11 +127,14 @@ const (
 	csComplete
 )
 
-func (sc *storageCache) push(store *contractStoreImpl) {
+// push adds the client, and returns whether it's going to be notified on
+// completion. If it's completed already, then it returns false.
+func (sc *storageCache) push(store *contractStoreImpl) bool {
 	sc.lock.Lock()
 	defer sc.lock.Unlock()
 	store.elem = sc.clients.PushBack(store)
 	store.sc = sc
+	return sc.status != csComplete
 }
 
 func (sc *storageCache) remove(store *contractStoreImpl) {
@@ -269,17 +272,16 @@ func (cm *contractManager) PrepareContractStore(
 	hashStr := string(codeHash)
 	cs := &contractStoreImpl{ch: make(chan error, 1)}
 	if cacheInfo, ok := cm.storageCache[hashStr]; ok {
-		if cacheInfo.status != csComplete {
-			cacheInfo.push(cs)
+		if cacheInfo.push(cs) {
 			cm.lock.Unlock()
 			return cs, nil
 		}
 		if _, err := os.Stat(cacheInfo.path); !os.IsNotExist(err) {
-			cacheInfo.push(cs)
 			cs.ch <- nil
 			cm.lock.Unlock()
 			return cs, nil
 		}
+		cacheInfo.remove(cs)
 	}
 	codeBuf, err := contract.Code()
 	if err != nil {
-- 
2.43.0


From d1fe665f3a935aa2f97a07f50192e5a405c38c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:52 +0000
Subject: [PATCH 49/51] fix: an interrupted storing of Java contract leaves it
 without code

The folder for the contract was made before writing its code. If writing
fails or the node stops in between, then the folder without the code (or
with a part of it) is used afterwards. Write it in a temporary folder and
rename it, as it does for Python contracts.
---
 service/contract/contractmanager.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/service/contract/contractmanager.go b/service/contract/contractmanager.go
index 3f04518..cbb82ed 100644
--- a/service/contract/contractmanager.go
+++ b/service/contract/contractmanager.go
@@ -444,18 +444,24 @@ func storePython(dst string, code []byte, log log.Logger) (ret error) {
 	return os.Rename(tmpPath, dst)
 }
 
-func storeJava(path string, code []byte, log log.Logger) error {
-	if _, err := os.Stat(path); os.IsNotExist(err) {
-		if err = os.MkdirAll(path, 0755); err != nil {
-			return errors.WithCode(err, errors.CriticalIOError)
+func storeJava(dst string, code []byte, log log.Logger) (ret error) {
+	// it's visible only after writing whole contents.
+	tmpPath, err := os.MkdirTemp(filepath.Dir(dst), tmpPattern)
+	if err != nil {
+		return errors.WithCode(err, errors.CriticalIOError)
+	}
+	defer func() {
+		if ret != nil {
+			os.RemoveAll(tmpPath)
 		}
+	}()
+	if err := os.Chmod(tmpPath, 0755); err != nil {
+		return errors.WithCode(err, errors.CriticalIOError)
 	}
-	sPath := filepath.Join(path, javaCode)
-	if err := os.WriteFile(sPath, code, 0755); err != nil {
-		_ = os.RemoveAll(sPath)
+	if err := os.WriteFile(filepath.Join(tmpPath, javaCode), code, 0755); err != nil {
 		return errors.WithCode(err, errors.CriticalIOError)
 	}
-	return nil
+	return os.Rename(tmpPath, dst)
 }
 
 func storeByEEType(e state.EEType, path string, code []byte, log log.Logger) error {
-- 
2.43.0


From 6cb873ccfe7fb73407dfc9f9de2b6987332620a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 50/51] fix: files are left open after unpacking a contract
 package

A package with more files than the node may open can't be unpacked until
the garbage collector closes some of them, so it depends on the node
whether the contract is accepted.
---
 service/contract/contractmanager.go | 35 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/service/contract/contractmanager.go b/service/contract/contractmanager.go
index cbb82ed..4b5bb8a 100644
--- a/service/contract/contractmanager.go
+++ b/service/contract/contractmanager.go
@@ -420,10 +420,6 @@ func storePython(dst string, code []byte, log log.Logger) (ret error) {
 			return scoreresult.IllegalFormatError.Errorf("OversizeContent(size=%d,limit=%d)",
 				totalSize, ContentSizeLimit)
 		}
-		in, err := zFile.Open()
-		if err != nil {
-			return scoreresult.IllegalFormatError.Errorf("FailToOpen(f=%s)", zFile.Name)
-		}
 		tmpDir := filepath.Join(tmpPath, filepath.FromSlash(dir))
 		if !strings.HasPrefix(filepath.Join(tmpDir, base), tmpPath+string(filepath.Separator)) {
 			return scoreresult.IllegalFormatError.Errorf("InvalidPath(file=%s)", zFile.Name)
@@ -431,19 +427,36 @@ func storePython(dst string, code []byte, log log.Logger) (ret error) {
 		if err := os.MkdirAll(tmpDir, 0755); err != nil {
 			return errors.WithCode(err, errors.CriticalIOError)
 		}
-		tmpFile := filepath.Join(tmpDir, base)
-		out, err := os.OpenFile(tmpFile, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0755)
-		if err != nil {
-			return errors.WithCode(err, errors.CriticalIOError)
-		}
-		if _, err := io.CopyN(out, in, sz); err != nil {
-			return errors.WithCode(err, errors.CriticalIOError)
+		if err := storeZipFile(zFile, filepath.Join(tmpDir, base), sz); err != nil {
+			return err
 		}
 	}
 
 	return os.Rename(tmpPath, dst)
 }
 
+func storeZipFile(zFile *zip.File, dst string, sz int64) (ret error) {
+	in, err := zFile.Open()
+	if err != nil {
+		return scoreresult.IllegalFormatError.Errorf("FailToOpen(f=%s)", zFile.Name)
+	}
+	defer in.Close()
+
+	out, err := os.OpenFile(dst, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0755)
+	if err != nil {
+		return errors.WithCode(err, errors.CriticalIOError)
+	}
+	defer func() {
+		if err := out.Close(); ret == nil && err != nil {
+			ret = errors.WithCode(err, errors.CriticalIOError)
+		}
+	}()
+	if _, err := io.CopyN(out, in, sz); err != nil {
+		return errors.WithCode(err, errors.CriticalIOError)
+	}
+	return nil
+}
+
 func storeJava(dst string, code []byte, log log.Logger) (ret error) {
 	// it's visible only after writing whole contents.
 	tmpPath, err := os.MkdirTemp(filepath.Dir(dst), tmpPattern)
-- 
2.43.0


From ddfc11ab09d17d6a1066e8d5f64b191238c2accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:49 +0000
Subject: [PATCH 51/51] fix: a file of negative size lifts the limit on
 contract packages

The size in a package is unsigned, and a huge one becomes negative, so
that it passes the check and makes room for any number of other files.
---
 service/contract/contractmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/contract/contractmanager.go b/service/contract/contractmanager.go
index 4b5bb8a..2fed294 100644
--- a/service/contract/contractmanager.go
+++ b/service/contract/contractmanager.go
@@ -411,7 +411,7 @@ func storePython(dst string, code []byte, log log.Logger) (ret error) {
 			continue
 		}
 		sz := zFile.FileInfo().Size()
-		if sz > FileSizeLimit {
+		if sz < 0 || sz > FileSizeLimit {
 			return scoreresult.IllegalFormatError.Errorf("OversizeFile(file=%s,size=%d,limit=%d)",
 				zFile.Name, sz, FileSizeLimit)
 		}
-- 
2.43.0

